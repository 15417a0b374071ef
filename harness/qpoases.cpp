// The qpOASES back end of trajopt_sco against a recording qpOASES: what it is given at every solve is the model's QP.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/solver_utils.cpp
// @unit trajopt_sco/src/qpoases_interface.cpp
// @flag -DHAVE_QPOASES -I/verif/stubs/qpoases
// @flag -include /verif/harness/every_allocation.h
#include "sco.h"
#include "threads.h"
#include <set>
#include <qpOASES.hpp>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/qpoases_interface.hpp>
using namespace sco;

namespace fake
{
using qpOASES::returnValue;
static DblVec dense(const qpOASES::SparseMatrix& a, const char* what)  // row major
{
  DblVec d(static_cast<std::size_t>(a.nRows) * static_cast<std::size_t>(a.nCols), 0.0);
  sym::check(a.jc[0] == 0, what);
  for (int c = 0; c < a.nCols; ++c)
  {
    const bool grows = a.jc[c] <= a.jc[c + 1];
    sym::check(grows, what);
    if (!grows)
      sym::stop();
    for (int k = a.jc[c]; k < a.jc[c + 1]; ++k)
    {
      // the rows of a column are in order and within the matrix
      const bool ok = a.ir[k] >= 0 && a.ir[k] < a.nRows && (k == a.jc[c] || a.ir[k - 1] < a.ir[k]);
      sym::check(ok, what);
      if (!ok)
        sym::stop();
      d[static_cast<std::size_t>(a.ir[k] * a.nCols + c)] = a.val[k];
    }
  }
  return d;
}
struct Qp
{
  DblVec H, g, A, lb, ub, lbA, ubA;
};
static Qp last;
static int inits = 0, hotstarts = 0, alive = 0, first_budget = 0;
static returnValue init_result = qpOASES::SUCCESSFUL_RETURN, hot_result = qpOASES::SUCCESSFUL_RETURN;
static int performed = 0;
static DblVec answer;
static void reset()
{
  inits = hotstarts = alive = performed = first_budget = 0;
  init_result = hot_result = qpOASES::SUCCESSFUL_RETURN;
}
}  // namespace fake
namespace qpOASES
{
struct SQProblem::Work
{
  int nv, nc;
  bool options = false, initialised = false, solved = false;
  DblVec x;
};
SQProblem::SQProblem(int_t nV, int_t nC) : w(new Work{ nV, nC })
{
  ++fake::alive;
  sym::check(nV > 0 && nC >= 0, "dimensions");
}
SQProblem::~SQProblem()
{
  --fake::alive;
  delete w;
}
returnValue SQProblem::setOptions(const Options& o)
{
  w->options = true;
  sym::check(o.printLevel == PL_NONE, "quiet");
  sym::check(o.enableRegularisation == BT_TRUE && o.consistent, "options");
  return SUCCESSFUL_RETURN;
}
int_t SQProblem::getNV() const { return w->nv; }
int_t SQProblem::getNC() const { return w->nc; }
BooleanType SQProblem::isInitialised() const { return w->initialised ? BT_TRUE : BT_FALSE; }
static returnValue solve(SQProblem::Work& w, returnValue r, SymSparseMat* H, const real_t* g, SparseMatrix* A,
                         const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int_t& nWSR)
{
  const bool dims = H->nRows == w.nv && H->nCols == w.nv && A->nRows == w.nc && A->nCols == w.nv;
  sym::check(dims, "dimensions");
  if (!dims)
    sym::stop();
  sym::check(w.options, "options");
  sym::check(H->diag, "objective-format");
  fake::last = fake::Qp{ fake::dense(*H, "objective-format"),
                         DblVec(g, g + w.nv),
                         fake::dense(*A, "constraint-format"),
                         DblVec(lb, lb + w.nv),
                         DblVec(ub, ub + w.nv),
                         DblVec(lbA, lbA + w.nc),
                         DblVec(ubA, ubA + w.nc) };
  // every attempt may take as many steps as the first one of all
  sym::check(nWSR > 0, "step-budget");
  if (fake::first_budget == 0)
    fake::first_budget = nWSR;
  sym::check(nWSR == fake::first_budget, "step-budget");
  nWSR = fake::performed;
  w.initialised = true;
  w.solved = r == SUCCESSFUL_RETURN;
  w.x = fake::answer;
  return r;
}
returnValue SQProblem::init(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub,
                            const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t*)
{
  ++fake::inits;
  return solve(*w, fake::init_result, H, g, A, lb, ub, lbA, ubA, nWSR);
}
returnValue SQProblem::hotstart(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub,
                                const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t*)
{
  ++fake::hotstarts;
  sym::check(w->initialised, "hotstart-initialised");
  return solve(*w, fake::hot_result, H, g, A, lb, ub, lbA, ubA, nWSR);
}
returnValue SQProblem::getPrimalSolution(real_t* x) const
{
  sym::check(w->solved, "solution-of-solved");
  for (std::size_t i = 0; i < w->x.size(); ++i)
    x[i] = w->x[i];
  return SUCCESSFUL_RETURN;
}
}  // namespace qpOASES

namespace
{
struct Want
{
  AffExpr e;
  bool eq;
};
void check_bound(double have, double want, const char* what)
{
  if (want >= qpOASES::INFTY)
    sym::check_le(qpOASES::INFTY, have, what);
  else if (want <= -qpOASES::INFTY)
    sym::check_le(have, -qpOASES::INFTY, what);
  else
    sym::check_eq(have, want, what);
}
void check_qp(const QuadExpr& obj, const std::vector<Want>& cs, const DblVec& lb, const DblVec& ub)
{
  const fake::Qp& w = fake::last;
  const std::size_t n = lb.size(), m = cs.size();
  const bool dims = w.g.size() == n && w.lbA.size() == m;
  sym::check(dims, "dimensions");
  if (!dims)
    sym::stop();
  // minimise 1/2 x'Hx + g'x with both triangles of H
  DblVec q(n, 0.0), Q(n * n, 0.0);
  for (std::size_t i = 0; i < obj.affexpr.size(); ++i)
    q[obj.affexpr.vars[i].var_rep->index] += obj.affexpr.coeffs[i];
  for (std::size_t i = 0; i < obj.size(); ++i)
  {
    const std::size_t a = obj.vars1[i].var_rep->index, b = obj.vars2[i].var_rep->index;
    Q[a * n + b] += obj.coeffs[i];
    Q[b * n + a] += obj.coeffs[i];
  }
  for (std::size_t i = 0; i < n; ++i)
  {
    sym::check_eq(w.g[i], q[i], "objective-linear");
    for (std::size_t j = 0; j < n; ++j)
      sym::check_eq(w.H[i * n + j], Q[i * n + j], "objective-quadratic");
    check_bound(w.lb[i], lb[i], "lower-bound");
    check_bound(w.ub[i], ub[i], "upper-bound");
  }
  for (std::size_t r = 0; r < m; ++r)
  {
    DblVec a(n, 0.0);
    for (std::size_t i = 0; i < cs[r].e.size(); ++i)
      a[cs[r].e.vars[i].var_rep->index] += cs[r].e.coeffs[i];
    for (std::size_t i = 0; i < n; ++i)
      sym::check_eq(w.A[r * n + i], a[i], "constraint-row");
    sym::check_eq(w.ubA[r], -cs[r].e.constant, "constraint-upper");
    check_bound(w.lbA[r], cs[r].eq ? -cs[r].e.constant : -hu::INF, "constraint-lower");
  }
}
double nonzero(const std::string& n)
{
  const double c = sym::real_in(n, -100, 100);
  sym::assume_lt(0.001, hu::absv(c));
  return c;
}
qpOASES::returnValue result(const std::string& n)
{
  const std::vector<qpOASES::returnValue> all{ qpOASES::SUCCESSFUL_RETURN,
                                               qpOASES::RET_INIT_FAILED_INFEASIBILITY,
                                               qpOASES::RET_INIT_FAILED_UNBOUNDEDNESS,
                                               qpOASES::RET_INIT_FAILED_HOTSTART,
                                               qpOASES::RET_HOTSTART_STOPPED_INFEASIBILITY,
                                               qpOASES::RET_MAX_NWSR_REACHED,
                                               qpOASES::RET_DIV_BY_ZERO };
  return all[static_cast<std::size_t>(sym::choose(n, static_cast<int>(all.size())))];
}
CvxOptStatus status_of(qpOASES::returnValue r)
{
  if (r == qpOASES::SUCCESSFUL_RETURN)
    return CVX_SOLVED;
  return r == qpOASES::RET_INIT_FAILED_INFEASIBILITY ? CVX_INFEASIBLE : CVX_FAILED;
}
}  // namespace

SYM_HARNESS(encode)
{
  sym::bound("3 variables, objective of 2 linear and 2 quadratic terms or 2 constraints of 2 terms (the last also of none) with aliased and repeated variables, any bounds, 7 solver results");
  fake::reset();
  auto model = std::make_unique<qpOASESModel>();
  VarVector v{ model->addVar("a"), model->addVar("b"), model->addVar("c") };
  DblVec lb(3, -hu::INF), ub(3, hu::INF);
  QuadExpr obj;
  std::vector<Want> cs;
  const int what = sym::choose("what", 3);
  if (what == 0)
  {
    const bool q = sym::flag("quadratic");
    obj = q ? hs::quad("obj", v, 1, 2, false) : QuadExpr(hs::aff("obj", v, 2));
    if (q)
      model->setObjective(obj);
    else
      model->setObjective(obj.affexpr);
  }
  if (what == 1)
    for (int i = 0, k = 1 + sym::choose("constraints", 2); i < k; ++i)
    {
      const std::string s = "c" + std::to_string(i);
      const int terms = i + 1 == k && sym::flag(s + "_empty") ? 0 : 2;  // a row may depend on nothing
      cs.push_back({ hs::aff(s, v, terms, false), sym::flag(s + "_eq") });
      if (cs.back().eq)
        model->addEqCnt(cs.back().e, s);
      else
        model->addIneqCnt(cs.back().e, s);
    }
  if (what == 2)
  {
    const std::size_t k = static_cast<std::size_t>(sym::choose("bounded", 3));
    lb[k] = sym::flag("lb_inf") ? -1e21 : sym::real_in("lb", -1e6, 1e6);
    ub[k] = sym::flag("ub_inf") ? hu::INF : sym::real_in("ub", -1e6, 1e6);
    model->setVarBounds(VarVector{ v[k] }, DblVec{ lb[k] }, DblVec{ ub[k] });
    fake::init_result = result("result");
  }
  fake::answer = hs::dbl("x", 3);
  const CvxOptStatus st = model->optimize();
  sym::check(fake::inits == 1 && fake::hotstarts == 0, "one-solve");
  sym::check(st == status_of(fake::init_result), "status");
  check_qp(obj, cs, lb, ub);
  if (st == CVX_SOLVED)
  {
    const DblVec x = model->getVarValues(VarVector{ v[2], v[0], v[1] });
    sym::check_eq(x[0], fake::answer[2], "solution");
    sym::check_eq(x[1], fake::answer[0], "solution");
    sym::check_eq(x[2], fake::answer[1], "solution");
  }
  sym::check(fake::alive == 1, "one-solver");
  model.reset();
  sym::check(fake::alive == 0, "solver-released");
}

SYM_HARNESS(resolve)
{
  sym::bound("three solves of a model with 3 variables, a quadratic term and a constraint of 2 terms, replaced before the second (any sparsity patterns); the first solve, the hot start and the restart after it may fail in 7 ways after any number of steps");
  fake::reset();
  auto model = std::make_unique<qpOASESModel>();
  VarVector v{ model->addVar("a"), model->addVar("b"), model->addVar("c") };
  DblVec lb(3, -1), ub(3, 1);
  model->setVarBounds(v, lb, ub);
  const bool patterns = sym::flag("patterns");
  const bool quadratic = patterns && sym::flag("quadratic");
  auto objective = [&](const std::string& n) {
    QuadExpr q;
    if (!quadratic)
      return q;
    const int a = sym::choose(n + "_v1", 3);
    q.affexpr.vars = { v[1] };
    q.affexpr.coeffs = { nonzero(n + "_l") };
    q.vars1 = { v[static_cast<std::size_t>(a)] };
    q.vars2 = { v[static_cast<std::size_t>(a + sym::choose(n + "_v2", 3 - a))] };
    q.coeffs = { nonzero(n + "_q") };
    return q;
  };
  auto line = [&](const std::string& n) {
    AffExpr e(sym::real_in(n + "_const", -100, 100));
    const int a = patterns ? sym::choose(n + "_v0", 2) : 0, b = patterns ? a + 1 + sym::choose(n + "_v1", 2 - a) : 1;
    e.vars = { v[static_cast<std::size_t>(a)], v[static_cast<std::size_t>(b)] };
    e.coeffs = { nonzero(n + "_a"), nonzero(n + "_b") };
    return e;
  };
  QuadExpr obj = objective("obj0");
  std::vector<Want> cs{ { line("c0"), false } };
  model->setObjective(obj);
  Cnt c = model->addIneqCnt(cs[0].e, "c0");
  if (!patterns)
    fake::init_result = result("first");
  fake::answer = hs::dbl("x0_", 3);
  fake::performed = 7;
  sym::check(model->optimize() == status_of(fake::init_result), "first-status");
  check_qp(obj, cs, lb, ub);
  // the second solve may fail from the last solution, and is then repeated from scratch
  obj = objective("obj1");
  model->setObjective(obj);
  const bool remove = sym::flag("only_remove");
  model->removeCnts({ c });
  cs.clear();
  if (!remove)
  {
    cs.push_back({ line("c1"), sym::flag("c1_eq") });
    c = cs[0].eq ? model->addEqCnt(cs[0].e, "c1") : model->addIneqCnt(cs[0].e, "c1");
  }
  lb[1] = sym::real_in("lb", -10, 0);
  model->setVarBounds(v, lb, ub);
  fake::inits = fake::hotstarts = 0;
  if (!patterns)
  {
    fake::hot_result = result("hot");
    fake::init_result = result("again");
  }
  fake::performed = sym::choose("performed", 3) * 100;
  fake::answer = hs::dbl("x1_", 3);
  const CvxOptStatus st = model->optimize();
  check_qp(obj, cs, lb, ub);
  sym::check(fake::inits + fake::hotstarts >= 1 && fake::inits <= 1 && fake::hotstarts <= 1, "solves");
  const qpOASES::returnValue r = fake::inits == 1 ? fake::init_result : fake::hot_result;
  // a solver that failed from the last solution is asked again from scratch before the step is given up
  sym::check(st == CVX_SOLVED || fake::inits == 1, "restart");
  sym::check(st == status_of(r), "second-status");
  if (fake::inits == 1 && fake::hotstarts == 1)
    sym::cover("restarted");
  if (fake::inits == 0)
    sym::cover("hot-started");
  if (st == CVX_SOLVED)
  {
    const DblVec x = model->getVarValues(v);
    for (std::size_t i = 0; i < 3; ++i)
      sym::check_eq(x[i], fake::answer[i], "solution");
  }
  sym::check(fake::alive == 1, "one-solver");
  model.reset();
  sym::check(fake::alive == 0, "solver-released");
  sym::require_cover("restarted");
  sym::require_cover("hot-started");
}

SYM_HARNESS(history)
{
  sym::bound("3 variables and 3 constraints; one phase of removals, additions and bound changes between two solves");
  fake::reset();
  auto model = std::make_unique<qpOASESModel>();
  Model& base = *model;
  VarVector v{ base.addVar("a"), base.addVar("b", -1, 2), base.addVar("c") };
  DblVec lb{ -hu::INF, -1, -hu::INF }, ub{ hu::INF, 2, hu::INF };
  std::vector<Want> cs;
  CntVector cnts;
  auto add = [&](const std::string& s, const Var& x, bool eq) {
    AffExpr e(sym::real_in(s + "_const", -10, 10));
    e.vars = { x };
    e.coeffs = { nonzero(s + "_coeff") };
    cs.push_back({ e, eq });
    cnts.push_back(eq ? base.addEqCnt(e, s) : base.addIneqCnt(e, s));
  };
  for (std::size_t i = 0; i < 3; ++i)
    add("c" + std::to_string(i), v[i], i == 1);
  auto objective = [&](const std::string& s) {
    QuadExpr q;
    q.affexpr.vars = { v[1] };
    q.affexpr.coeffs = { nonzero(s + "_l") };
    if (sym::flag(s + "_quadratic"))
    {
      q.vars1 = { v.front() };
      q.vars2 = { v.back() };
      q.coeffs = { nonzero(s + "_q") };
      base.setObjective(q);
    }
    else
      base.setObjective(q.affexpr);
    return q;
  };
  QuadExpr obj = objective("obj0");
  auto solve = [&]() {
    fake::answer = hs::dbl("x", static_cast<int>(v.size()));
    sym::check(base.optimize() == CVX_SOLVED, "status");
    for (std::size_t i = 0; i < v.size(); ++i)
      sym::check(v[i].var_rep->index == i, "variable-index");
    check_qp(obj, cs, lb, ub);
    const DblVec x = base.getVarValues(v);
    for (std::size_t i = 0; i < v.size(); ++i)
      sym::check_eq(x[i], fake::answer[i], "solution");
    sym::check(base.getVars().size() == v.size(), "variables");
  };
  if (sym::flag("first_solve"))
    solve();
  const int rm = sym::choose("removed", 8);
  VarVector rv;
  CntVector rc;
  for (int i = 2; i >= 0; --i)
    if (rm >> i & 1)
    {
      rc.push_back(cnts[static_cast<std::size_t>(i)]);
      cs.erase(cs.begin() + i);
    }
  const int k = rm == 0 || sym::flag("keep_vars") ? -1 : (rm & 4 ? 2 : (rm & 2 ? 1 : 0));
  if (k >= 0)
  {
    rv.push_back(v[static_cast<std::size_t>(k)]);
    v.erase(v.begin() + k);
    lb.erase(lb.begin() + k);
    ub.erase(ub.begin() + k);
  }
  const bool early = sym::flag("add_before_update");
  base.removeCnts(rc);
  base.removeVars(rv);
  if (!early)
    base.update();
  const double l = sym::real_in("l", -5, 0), u = sym::real_in("u", 0, 5);
  v.push_back(base.addVar("new", l, u));
  lb.push_back(l);
  ub.push_back(u);
  add("cn", v.back(), false);
  obj = objective("obj1");
  if (sym::flag("rebound"))
  {
    lb[0] = l;
    ub[0] = u;
    base.setVarBounds(VarVector{ v[0] }, DblVec{ l }, DblVec{ u });
  }
  solve();
}

SYM_HARNESS(threads)
{
  sym::bound("1 variable (or 2, thorough) present, 2 threads that add a bounded variable and a constraint each, or 1 and 2 bounded variables; every interleaving with up to 2 (3 thorough) preemptions at allocations, releases and mutexes");
  sym::require_cover("switched");
  sym::require_cover("waited");
  fake::reset();
  auto model = std::make_unique<qpOASESModel>();
  const hs::Shared s = hs::extend_concurrently(*model);
  std::vector<Want> cs;
  for (const auto& c : s.cs)
    cs.push_back({ c.first, c.second });
  fake::answer.assign(s.v.size(), 0.0);
  sym::check(model->optimize() == CVX_SOLVED, "status");
  check_qp(QuadExpr(), cs, s.lb, s.ub);
}
