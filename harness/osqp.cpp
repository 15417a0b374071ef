// The OSQP back end of trajopt_sco against a recording OSQP: what the workspace holds at every solve is the model's QP.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/solver_utils.cpp
// @unit trajopt_sco/src/osqp_interface.cpp
// @flag -DHAVE_OSQP -I/verif/stubs/osqp
// @flag -include /verif/harness/every_allocation.h
#include "sco.h"
#include "threads.h"
#include <set>
#include <osqp.h>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/osqp_interface.hpp>
using namespace sco;

namespace fake
{
struct Csc
{
  OSQPInt m, n;
  std::vector<OSQPInt> p, i;
  DblVec x;
  DblVec dense() const  // row major
  {
    DblVec d(static_cast<std::size_t>(m * n), 0.0);
    for (OSQPInt c = 0; c < n; ++c)
      for (OSQPInt k = p[c]; k < p[c + 1]; ++k)
        d[static_cast<std::size_t>(i[k] * n + c)] += x[k];
    return d;
  }
};
static Csc copy(const OSQPCscMatrix* a, const char* what)
{
  Csc c{ a->m, a->n, std::vector<OSQPInt>(a->p, a->p + a->n + 1), {}, {} };
  sym::check(c.p[0] == 0 && c.p[c.n] <= a->nzmax, what);
  for (OSQPInt k = 0; k < c.n; ++k)
  {
    sym::check(c.p[k] <= c.p[k + 1], what);
    std::set<OSQPInt> seen;
    for (OSQPInt j = c.p[k]; j < c.p[k + 1]; ++j)
    {
      const bool ok = a->i[j] >= 0 && a->i[j] < c.m;
      sym::check(ok && seen.insert(a->i[j]).second, what);
      if (!ok)
        sym::stop();
    }
  }
  c.i.assign(a->i, a->i + c.p[c.n]);
  c.x.assign(a->x, a->x + c.p[c.n]);
  return c;
}
struct Work
{
  Csc P, A;
  DblVec q, l, u, x, y;
  OSQPSettings settings;
  OSQPSolution solution;
  OSQPInfo info;
};
static std::set<OSQPSolver*> live;
static OSQPInt setup_error = 0, update_error = 0, solve_error = 0, solve_status = OSQP_SOLVED;
static int solves = 0, setups = 0, updates = 0, warm = 0;
static DblVec answer;
static DblVec start_x;
static Work last;
static Work& work(OSQPSolver* s)
{
  if (live.count(s) == 0)
  {
    sym::fail("live-workspace");
    sym::stop();
  }
  return *static_cast<Work*>(s->work);
}
static void reset()
{
  live.clear();
  setup_error = update_error = solve_error = 0;
  solve_status = OSQP_SOLVED;
  solves = setups = updates = warm = 0;
  start_x.clear();
}
}  // namespace fake

extern "C" {
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nz, OSQPFloat* x, OSQPInt* i, OSQPInt* p)
{
  auto* a = static_cast<OSQPCscMatrix*>(malloc(sizeof(OSQPCscMatrix)));
  *a = OSQPCscMatrix{ m, n, p, i, x, nz, -1, 0 };
  return a;
}
void osqp_set_default_settings(OSQPSettings* s)
{
  *s = OSQPSettings{};
  s->warm_starting = 1;
  s->rho = 0.1;
}
OSQPInt osqp_setup(OSQPSolver** sp, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l,
                   const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings* st)
{
  using namespace fake;
  ++setups;
  if (setup_error == OSQP_DATA_VALIDATION_ERROR || setup_error == OSQP_SETTINGS_VALIDATION_ERROR)
    return setup_error;  // nothing allocated, *sp untouched
  auto* w = new Work();
  w->settings = *st;
  w->info.status_val = OSQP_UNSOLVED;
  w->x.assign(static_cast<std::size_t>(n), 0.0);
  w->y.assign(static_cast<std::size_t>(m), 0.0);
  w->solution.x = w->x.data();
  w->solution.y = w->y.data();
  auto* s = new OSQPSolver{ &w->settings, &w->solution, &w->info, w };
  live.insert(s);
  *sp = s;
  if (setup_error != 0)
    return setup_error;
  sym::check(P->m == n && P->n == n && A->m == m && A->n == n, "dimensions");
  w->P = copy(P, "objective-format");
  w->A = copy(A, "constraint-format");
  for (OSQPInt c = 0; c < n; ++c)
    for (OSQPInt k = w->P.p[c]; k < w->P.p[c + 1]; ++k)
      sym::check(w->P.i[k] <= c, "upper-triangle");
  w->q.assign(q, q + n);
  w->l.assign(l, l + m);
  w->u.assign(u, u + m);
  return 0;
}
OSQPInt osqp_solve(OSQPSolver* s)
{
  using namespace fake;
  Work& w = work(s);
  ++solves;
  last = w;
  start_x = w.x;
  if (solve_error != 0)
    return solve_error;
  w.info.status_val = solve_status;
  for (std::size_t i = 0; i < w.x.size(); ++i)
    w.x[i] = answer[i];
  return 0;
}
OSQPInt osqp_cleanup(OSQPSolver* s)
{
  using namespace fake;
  delete &work(s);
  live.erase(s);
  delete s;
  return 0;
}
OSQPInt osqp_warm_start(OSQPSolver* s, const OSQPFloat* x, const OSQPFloat* y)
{
  using namespace fake;
  Work& w = work(s);
  ++warm;
  for (std::size_t i = 0; i < w.x.size(); ++i)
    w.x[i] = x[i];
  for (std::size_t i = 0; i < w.y.size(); ++i)
    w.y[i] = y[i];
  return 0;
}
OSQPInt osqp_update_data_vec(OSQPSolver* s, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u)
{
  using namespace fake;
  Work& w = work(s);
  ++updates;
  if (update_error == 1)
    return 1;
  w.q.assign(q, q + w.q.size());
  w.l.assign(l, l + w.l.size());
  w.u.assign(u, u + w.u.size());
  return 0;
}
OSQPInt osqp_update_data_mat(OSQPSolver* s, const OSQPFloat* Px, const OSQPInt* Pi, OSQPInt Pn, const OSQPFloat* Ax,
                             const OSQPInt* Ai, OSQPInt An)
{
  using namespace fake;
  Work& w = work(s);
  if (update_error == 2)
    return 1;
  sym::check(Pi == nullptr && Ai == nullptr, "update-all");
  sym::check(Pn == static_cast<OSQPInt>(w.P.x.size()) && An == static_cast<OSQPInt>(w.A.x.size()), "update-size");
  w.P.x.assign(Px, Px + Pn);
  w.A.x.assign(Ax, Ax + An);
  return 0;
}
}

namespace
{
struct Want
{
  AffExpr e;
  bool eq;
};
double clamp(double v) { return v > 1e30 ? 1e30 : (v < -1e30 ? -1e30 : v); }
void check_qp(const QuadExpr& obj, const std::vector<Want>& cs, const DblVec& lb, const DblVec& ub)
{
  const fake::Work& w = fake::last;
  const std::size_t n = lb.size(), m = cs.size();
  const bool dims = w.P.n == static_cast<OSQPInt>(n) && w.A.m == static_cast<OSQPInt>(m + n) && w.A.n == static_cast<OSQPInt>(n);
  sym::check(dims, "dimensions");
  if (!dims)
    sym::stop();
  // minimise 1/2 x'Px + q'x with P given by its upper triangle
  const DblVec P = w.P.dense(), A = w.A.dense();
  DblVec q(n, 0.0), Q(n * n, 0.0);
  for (std::size_t i = 0; i < obj.affexpr.size(); ++i)
    q[obj.affexpr.vars[i].var_rep->index] += obj.affexpr.coeffs[i];
  for (std::size_t i = 0; i < obj.size(); ++i)
  {
    const std::size_t a = obj.vars1[i].var_rep->index, b = obj.vars2[i].var_rep->index;
    Q[a * n + b] += obj.coeffs[i];
    Q[b * n + a] += obj.coeffs[i];
  }
  for (std::size_t i = 0; i < n; ++i)
  {
    sym::check_eq(w.q[i], q[i], "objective-linear");
    for (std::size_t j = i; j < n; ++j)
      sym::check_eq(P[i * n + j], Q[i * n + j], "objective-quadratic");
  }
  // every row of A is a constraint or a variable's bound
  for (std::size_t r = 0; r < m; ++r)
  {
    DblVec a(n, 0.0);
    for (std::size_t i = 0; i < cs[r].e.size(); ++i)
      a[cs[r].e.vars[i].var_rep->index] += cs[r].e.coeffs[i];
    for (std::size_t i = 0; i < n; ++i)
      sym::check_eq(A[r * n + i], a[i], "constraint-row");
    sym::check_eq(w.u[r], -cs[r].e.constant, "constraint-upper");
    if (cs[r].eq)
      sym::check_eq(w.l[r], -cs[r].e.constant, "constraint-lower");
    else
      sym::check_le(w.l[r], -1e30, "constraint-lower");
  }
  for (std::size_t i = 0; i < n; ++i)
  {
    for (std::size_t j = 0; j < n; ++j)
      sym::check_eq(A[(m + i) * n + j], i == j ? 1.0 : 0.0, "bound-row");
    sym::check_eq(w.l[m + i], clamp(lb[i]), "lower-bound");
    sym::check_eq(w.u[m + i], clamp(ub[i]), "upper-bound");
  }
}
double nonzero(const std::string& n)
{
  const double c = sym::real_in(n, -100, 100);
  sym::assume_lt(0.001, hu::absv(c));
  return c;
}
/** expression with `terms` terms over chosen distinct variables */
AffExpr line(const std::string& n, const VarVector& v, int terms)
{
  AffExpr e(sym::real_in(n + "_const", -100, 100));
  int first = 0;
  for (int i = 0; i < terms; ++i)
  {
    const int left = static_cast<int>(v.size()) - first - (terms - i - 1);
    const int k = first + sym::choose(n + "_var" + std::to_string(i), left);
    e.vars.push_back(v[static_cast<std::size_t>(k)]);
    e.coeffs.push_back(nonzero(n + "_coeff" + std::to_string(i)));
    first = k + 1;
  }
  return e;
}
QuadExpr quad(const std::string& n, const VarVector& v)
{
  QuadExpr q;
  q.affexpr.vars = { v[1] };
  q.affexpr.coeffs = { nonzero(n + "_l") };
  const int a = sym::choose(n + "_v1", static_cast<int>(v.size()));
  q.vars1 = { v[static_cast<std::size_t>(a)] };
  q.vars2 = { v[static_cast<std::size_t>(sym::thorough() ? sym::choose(n + "_v2", 3) : a + sym::choose(n + "_v2", 3 - a))] };
  q.coeffs = { nonzero(n + "_q") };
  return q;
}
CvxOptStatus status_of(OSQPInt s)
{
  if (s == OSQP_SOLVED || s == OSQP_SOLVED_INACCURATE)
    return CVX_SOLVED;
  if (s == OSQP_PRIMAL_INFEASIBLE || s == OSQP_PRIMAL_INFEASIBLE_INACCURATE || s == OSQP_DUAL_INFEASIBLE || s == OSQP_DUAL_INFEASIBLE_INACCURATE)
    return CVX_INFEASIBLE;
  return CVX_FAILED;
}
std::unique_ptr<Model> make(bool update_workspace, bool warm_starting)
{
  auto cfg = std::make_shared<OSQPModelConfig>();
  cfg->update_workspace = update_workspace;
  cfg->settings.warm_starting = warm_starting ? 1 : 0;
  return std::make_unique<OSQPModel>(cfg);
}
}  // namespace

SYM_HARNESS(encode)
{
  sym::bound("3 variables, objective of 2 linear and 2 quadratic terms or 2 constraints of 2 terms (the last also of none) with aliased and repeated variables, any bounds, every status and error code");
  fake::reset();
  auto model = make(false, true);
  VarVector v{ model->addVar("a"), model->addVar("b"), model->addVar("c") };
  DblVec lb(3, -hu::INF), ub(3, hu::INF);
  QuadExpr obj;
  std::vector<Want> cs;
  const int what = sym::choose("what", 3);
  if (what == 0)
  {
    const bool q = sym::flag("quadratic");
    obj = q ? hs::quad("obj", v, 1, 2, false) : QuadExpr(hs::aff("obj", v, 2));
    if (q)
      model->setObjective(obj);
    else
      model->setObjective(obj.affexpr);
  }
  if (what == 1)
    for (int i = 0, k = 1 + sym::choose("constraints", 2); i < k; ++i)
    {
      const std::string s = "c" + std::to_string(i);
      const int terms = i + 1 == k && sym::flag(s + "_empty") ? 0 : 2;  // a row may depend on nothing
      cs.push_back({ hs::aff(s, v, terms, false), sym::flag(s + "_eq") });
      if (cs.back().eq)
        model->addEqCnt(cs.back().e, s);
      else
        model->addIneqCnt(cs.back().e, s);
    }
  if (what == 2)
  {
    const std::size_t k = static_cast<std::size_t>(sym::choose("bounded", 3));
    lb[k] = sym::flag("lb_inf") ? -1e31 : sym::real_in("lb", -1e6, 1e6);
    ub[k] = sym::flag("ub_inf") ? hu::INF : sym::real_in("ub", -1e6, 1e6);
    model->setVarBounds(VarVector{ v[k] }, DblVec{ lb[k] }, DblVec{ ub[k] });
    fake::solve_status = 1 + sym::choose("status", 11);
    fake::solve_error = sym::choose("error", 12);
    fake::setup_error = fake::solve_error == 0 ? sym::choose("setup_error", 12) : 0;
  }
  fake::answer = hs::dbl("x", 3);
  const CvxOptStatus st = model->optimize();
  sym::check(fake::setups == 1 && fake::solves == (fake::setup_error == 0 ? 1 : 0), "one-solve");
  if (fake::setup_error != 0 || fake::solve_error != 0)
    sym::check(st == CVX_FAILED, "error-status");
  else
    sym::check(st == status_of(fake::solve_status), "status");
  if (fake::solves == 1)
    check_qp(obj, cs, lb, ub);
  if (st == CVX_SOLVED)
  {
    const DblVec x = model->getVarValues(VarVector{ v[2], v[0], v[1] });
    sym::check_eq(x[0], fake::answer[2], "solution");
    sym::check_eq(x[1], fake::answer[0], "solution");
    sym::check_eq(x[2], fake::answer[1], "solution");
  }
  model.reset();
  sym::check(fake::live.empty(), "workspace-released");
}

SYM_HARNESS(resolve)
{
  sym::bound("two solves of a model with 3 variables, a quadratic term and a constraint of 2 terms, all replaced in between (any sparsity patterns); workspace updates and warm starts on or off; the first solve or the update may fail");
  fake::reset();
  const bool upd = sym::flag("update_workspace");
  auto model = make(upd, sym::flag("warm_starting"));
  VarVector v{ model->addVar("a"), model->addVar("b"), model->addVar("c") };
  DblVec lb(3, -1), ub(3, 1);
  model->setVarBounds(v, lb, ub);
  const int what = sym::choose("what", 2);
  QuadExpr obj0, obj1;
  std::vector<Want> cs;
  if (what == 0)
    obj0 = quad("obj0", v);
  else
    cs = { { line("c0", v, 2), false } };
  model->setObjective(obj0);
  Cnt c;
  if (what == 1)
    c = model->addIneqCnt(cs[0].e, "c0");
  fake::answer = hs::dbl("x0_", 3);
  const int fault = sym::choose("fault", 5);
  fake::setup_error = fault == 1 ? OSQP_DATA_VALIDATION_ERROR : (fault == 2 ? OSQP_NONCVX_ERROR : 0);
  fake::solve_status = fault == 3 ? OSQP_MAX_ITER_REACHED : OSQP_SOLVED;
  sym::check((model->optimize() == CVX_SOLVED) == (fault == 0 || fault == 4), "first-status");
  if (fake::setup_error == 0)
    check_qp(obj0, cs, lb, ub);
  fake::setup_error = 0;
  fake::solve_status = OSQP_SOLVED;
  fake::update_error = fault == 4 ? 1 + sym::choose("update_error", 2) : 0;
  if (what == 0)
    obj1 = quad("obj1", v);
  model->setObjective(obj1);
  if (what == 1)
  {
    model->removeCnts({ c });
    cs = { { line("c1", v, 2), sym::flag("c1_eq") } };
    c = cs[0].eq ? model->addEqCnt(cs[0].e, "c1") : model->addIneqCnt(cs[0].e, "c1");
  }
  lb[1] = sym::real_in("lb", -10, 0);
  model->setVarBounds(v, lb, ub);
  fake::answer = hs::dbl("x1_", 3);
  sym::check(model->optimize() == CVX_SOLVED, "second-status");
  check_qp(obj1, cs, lb, ub);
  if (fake::updates > 0)
    sym::cover("updated");
  if (fake::warm > 0)
    sym::cover("warm-started");
  const DblVec x = model->getVarValues(v);
  for (std::size_t i = 0; i < 3; ++i)
    sym::check_eq(x[i], fake::answer[i], "solution");
  sym::check(fake::live.size() == 1, "one-workspace");
  model.reset();
  sym::check(fake::live.empty(), "workspace-released");
  sym::require_cover("updated");
  sym::require_cover("warm-started");
}

SYM_HARNESS(history)
{
  sym::bound("3 variables and 3 constraints; one phase of removals, additions and bound changes between two solves; workspace updates on or off");
  fake::reset();
  auto model = make(sym::flag("update_workspace"), true);
  VarVector v{ model->addVar("a"), model->addVar("b", -1, 2), model->addVar("c") };
  DblVec lb{ -hu::INF, -1, -hu::INF }, ub{ hu::INF, 2, hu::INF };
  std::vector<Want> cs;
  CntVector cnts;
  auto add = [&](const std::string& s, const Var& x, bool eq) {
    AffExpr e(sym::real_in(s + "_const", -10, 10));
    e.vars = { x };
    e.coeffs = { nonzero(s + "_coeff") };
    cs.push_back({ e, eq });
    cnts.push_back(eq ? model->addEqCnt(e, s) : model->addIneqCnt(e, s));
  };
  for (std::size_t i = 0; i < 3; ++i)
    add("c" + std::to_string(i), v[i], i == 1);
  auto objective = [&](const std::string& s) {
    QuadExpr q;
    q.affexpr.vars = { v[1] };
    q.affexpr.coeffs = { nonzero(s + "_l") };
    if (sym::flag(s + "_quadratic"))
    {
      q.vars1 = { v.front() };
      q.vars2 = { v.back() };
      q.coeffs = { nonzero(s + "_q") };
      model->setObjective(q);
    }
    else
      model->setObjective(q.affexpr);
    return q;
  };
  QuadExpr obj = objective("obj0");
  auto solve = [&]() {
    fake::answer = hs::dbl("x", static_cast<int>(v.size()));
    sym::check(model->optimize() == CVX_SOLVED, "status");
    for (std::size_t i = 0; i < v.size(); ++i)
      sym::check(v[i].var_rep->index == i, "variable-index");
    check_qp(obj, cs, lb, ub);
    const DblVec x = model->getVarValues(v);
    for (std::size_t i = 0; i < v.size(); ++i)
      sym::check_eq(x[i], fake::answer[i], "solution");
    sym::check(model->getVars().size() == v.size(), "variables");
  };
  if (sym::flag("first_solve"))
    solve();
  const int rm = sym::choose("removed", 8);
  VarVector rv;
  CntVector rc;
  for (int i = 2; i >= 0; --i)
    if (rm >> i & 1)
    {
      rc.push_back(cnts[static_cast<std::size_t>(i)]);
      cs.erase(cs.begin() + i);
    }
  const int k = rm == 0 || sym::flag("keep_vars") ? -1 : (rm & 4 ? 2 : (rm & 2 ? 1 : 0));
  if (k >= 0)
  {
    rv.push_back(v[static_cast<std::size_t>(k)]);
    v.erase(v.begin() + k);
    lb.erase(lb.begin() + k);
    ub.erase(ub.begin() + k);
  }
  const bool early = sym::flag("add_before_update");
  model->removeCnts(rc);
  model->removeVars(rv);
  if (!early)
    model->update();
  const double l = sym::real_in("l", -5, 0), u = sym::real_in("u", 0, 5);
  v.push_back(model->addVar("new", l, u));
  lb.push_back(l);
  ub.push_back(u);
  add("cn", v.back(), false);
  obj = objective("obj1");
  if (sym::flag("rebound"))
  {
    lb[0] = l;
    ub[0] = u;
    model->setVarBounds(VarVector{ v[0] }, DblVec{ l }, DblVec{ u });
  }
  solve();
}

SYM_HARNESS(threads)
{
  sym::bound("1 variable (or 2, thorough) present, 2 threads that add a bounded variable and a constraint each, or 1 and 2 bounded variables; every interleaving with up to 2 (3 thorough) preemptions at allocations, releases and mutexes");
  sym::require_cover("switched");
  sym::require_cover("waited");
  fake::reset();
  auto model = make(false, true);
  const hs::Shared s = hs::extend_concurrently(*model);
  std::vector<Want> cs;
  for (const auto& c : s.cs)
    cs.push_back({ c.first, c.second });
  fake::answer.assign(s.v.size(), 0.0);
  sym::check(model->optimize() == CVX_SOLVED, "status");
  check_qp(QuadExpr(), cs, s.lb, s.ub);
}
