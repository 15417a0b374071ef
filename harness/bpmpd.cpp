// The BPMPD back end of trajopt_sco: model bookkeeping, QP encoding, the pipe protocol and the solver process.
// The process boundary is replaced by an in-memory one: pipes are byte queues, the solver process is bpmpd_caller's own
// main(), run whenever the model waits for an answer, and the (closed source, Fortran) solver `bpmpd` is a recorder whose
// answer is symbolic.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/solver_utils.cpp
// @flag -DHAVE_BPMPD
// @flag -include /verif/harness/every_allocation.h
#include "sco.h"
#include "threads.h"
#include <array>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <mutex>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <trajopt_sco/solver_interface.hpp>
#include <trajopt_common/logging.hpp>
#include <trajopt_common/stl_to_string.hpp>

namespace fake
{
using sco::DblVec;
}
namespace fake
{
struct Exit
{
};
struct Blocked
{
};
constexpr int TO_SOLVER = 1000, FROM_SOLVER = 2000;  // + 0: read end, + 1: write end
static std::deque<char> to_solver, from_solver;
static int pipes = 0, forks = 0, shorts = 0, max_shorts = 0;
static bool in_solver = false;
static std::function<void()> at_exit;
static void run_solver();

// how much of a request the kernel transfers: everything, or (a limited number of times) less, or nothing (EINTR)
static std::size_t amount(std::size_t n, const char* what, bool& intr)
{
  intr = false;
  if (n == 0 || shorts >= max_shorts)
    return n;
  const int k = sym::choose(what, n == 1 ? 2 : 4);
  if (k == 0)
    return n;
  ++shorts;
  if (k == 1)
  {
    intr = true;
    return 0;
  }
  sym::cover("short");
  return k == 2 ? 1 : n - 1;
}
static ssize_t write_(int fd, const void* p, std::size_t n)
{
  const bool solver = fd == STDOUT_FILENO;
  sym::check(solver ? in_solver : fd == TO_SOLVER + 1, "write-end");
  auto& q = solver ? from_solver : to_solver;
  bool intr;
  const std::size_t k = amount(n, "write", intr);
  if (intr)
  {
    errno = EINTR;
    return -1;
  }
  q.insert(q.end(), static_cast<const char*>(p), static_cast<const char*>(p) + k);
  return static_cast<ssize_t>(k);
}
static ssize_t read_(int fd, void* p, std::size_t n)
{
  const bool solver = fd == STDIN_FILENO;
  sym::check(solver ? in_solver : fd == FROM_SOLVER, "read-end");
  auto& q = solver ? to_solver : from_solver;
  if (n == 0)
    return 0;
  if (q.empty())
  {
    if (solver)
      throw Blocked();
    run_solver();
    if (q.empty())
    {
      sym::fail("deadlock");
      sym::stop();
    }
  }
  bool intr;
  std::size_t k = amount(std::min(n, q.size()), "read", intr);
  if (intr)
  {
    errno = EINTR;
    return -1;
  }
  std::copy(q.begin(), q.begin() + static_cast<long>(k), static_cast<char*>(p));
  q.erase(q.begin(), q.begin() + static_cast<long>(k));
  return static_cast<ssize_t>(k);
}
static int pipe_(int* p)
{
  const int base = pipes++ % 2 == 0 ? TO_SOLVER : FROM_SOLVER;
  p[0] = base;
  p[1] = base + 1;
  return 0;
}
static int fork_()
{
  ++forks;
  return 4711;
}
static int atexit_(void (*f)())
{
  at_exit = f;
  return 0;
}
[[noreturn]] static void exit_(int) { throw Exit(); }
static int chdir_(const char*) { return 0; }
static int ignore_() { return 0; }
}  // namespace fake

extern "C" void bpmpd(int*, int*, int*, int*, int*, int*, int*, double*, int*, int*, double*, double*, double*, double*,
                      double*, double*, double*, int*, double*, int*, double*, int*);

#define write(a, b, c) fake::write_(a, b, c)
#define read(a, b, c) fake::read_(a, b, c)
#define pipe(a) fake::pipe_(a)
#define fork() fake::fork_()
#define close(a) fake::ignore_()
#define dup2(a, b) fake::ignore_()
#define execl(...) fake::ignore_()
#define atexit(a) fake::atexit_(a)
#define exit(a) fake::exit_(a)
#define chdir(a) fake::chdir_(a)
#include <../src/bpmpd_interface.cpp>
#define BPMPD_WORKING_DIR "/"
#define main bpmpd_caller_main
#undef DBG
#include <../src/bpmpd_caller.cpp>
#undef main
#undef write
#undef read
#undef pipe
#undef fork
#undef close
#undef dup2
#undef execl
#undef atexit
#undef exit
#undef chdir

namespace fake
{
static bool exited = false;
static void run_solver()
{
  in_solver = true;
  try
  {
    bpmpd_caller_main(0, nullptr);
    sym::fail("solver-returns");
  }
  catch (const Blocked&)
  {
  }
  catch (const Exit&)
  {
    exited = true;
  }
  in_solver = false;
}

/** what the solver was asked and what it answers */
struct Query
{
  int m, n;
  std::vector<DblVec> A, Q;
  DblVec rhs, obj, lb, ub;
};
struct Answer
{
  DblVec primal;
  int code;
};
static std::vector<Query> queries;
static std::deque<Answer> answers;
static void reset()
{
  to_solver.clear();
  from_solver.clear();
  queries.clear();
  answers.clear();
  shorts = max_shorts = 0;
  exited = false;
}
static std::vector<DblVec> dense(int rows, int cols, int nz, const int* cnt, const int* idx, const double* val, bool lower)
{
  std::vector<DblVec> d(static_cast<std::size_t>(rows), DblVec(static_cast<std::size_t>(cols), 0.0));
  int k = 0;
  for (int c = 0; c < cols; ++c)
  {
    std::set<int> seen;
    sym::check(cnt[c] >= 0 && k + cnt[c] <= nz, "column-count");
    for (int i = 0; i < cnt[c]; ++i, ++k)
    {
      const int r = idx[k] - 1;
      if (r < 0 || r >= rows)
      {
        sym::fail("row-index");
        sym::stop();
      }
      sym::check(seen.insert(r).second, "row-unique");
      if (lower)
        sym::check(r >= c, "lower-triangle");
      d[static_cast<std::size_t>(r)][static_cast<std::size_t>(c)] = val[k];
    }
  }
  sym::check(k == nz, "nonzero-count");
  return d;
}
}  // namespace fake

extern "C" void bpmpd(int* m, int* n, int* nz, int* qn, int* qnz, int* acolcnt, int* acolidx, double* acolnzs, int* qcolcnt,
                      int* qcolidx, double* qcolnzs, double* rhs, double* obj, double* lb, double* ub, double* primal,
                      double* dual, int* status, double* big, int* code, double* opt, int* memsiz)
{
  using namespace fake;
  Query q;
  q.m = *m;
  q.n = *n;
  sym::check(*qn <= *n, "quadratic-variables");
  sym::check_eq(*big, 1e30, "infinity");
  q.A = dense(*m, *n, *nz, acolcnt, acolidx, acolnzs, false);
  q.Q = dense(*n, *n, *qnz, qcolcnt, qcolidx, qcolnzs, true);
  for (int i = 0; i < *m; ++i)
    q.rhs.push_back(rhs[i]);
  for (int i = 0; i < *n; ++i)
    q.obj.push_back(obj[i]);
  for (int i = 0; i < *m + *n; ++i)
  {
    q.lb.push_back(lb[i]);
    q.ub.push_back(ub[i]);
  }
  queries.push_back(q);
  Answer a;
  if (!answers.empty())
  {
    a = answers.front();
    answers.pop_front();
  }
  a.primal.resize(static_cast<std::size_t>(*m + *n), 0.0);
  for (int i = 0; i < *m + *n; ++i)
  {
    primal[i] = a.primal[static_cast<std::size_t>(i)];
    dual[i] = 0;
    status[i] = 0;
  }
  *code = a.code;
  *opt = 0;
  *memsiz = 0;
}

using namespace sco;
namespace
{
double clamp(double v) { return v > 1e30 ? 1e30 : (v < -1e30 ? -1e30 : v); }
struct Want
{
  AffExpr e;
  bool eq;
};
DblVec coefs(const AffExpr& e, std::size_t n)
{
  DblVec c(n, 0.0);
  for (std::size_t i = 0; i < e.size(); ++i)
    c[e.vars[i].var_rep->index] += e.coeffs[i];
  return c;
}
/** the QP the solver got is: minimise obj subject to the given constraints and bounds */
void check_query(const fake::Query& q, const QuadExpr& obj, const std::vector<Want>& cs, const DblVec& lb, const DblVec& ub)
{
  const std::size_t n = lb.size(), m = cs.size();
  sym::check(q.n == static_cast<int>(n) && q.m == static_cast<int>(m), "dimensions");
  if (q.n != static_cast<int>(n) || q.m != static_cast<int>(m))
    sym::stop();
  const DblVec lin = coefs(obj.affexpr, n);
  std::vector<DblVec> Q(n, DblVec(n, 0.0));
  for (std::size_t i = 0; i < obj.size(); ++i)
  {
    const std::size_t a = obj.vars1[i].var_rep->index, b = obj.vars2[i].var_rep->index;
    Q[a][b] += obj.coeffs[i];
    Q[b][a] += obj.coeffs[i];
  }
  for (std::size_t i = 0; i < n; ++i)
  {
    sym::check_eq(q.obj[i], lin[i], "objective-linear");
    for (std::size_t j = 0; j <= i; ++j)
      sym::check_eq(q.Q[i][j], Q[i][j], "objective-quadratic");
    sym::check_eq(q.lb[i], clamp(lb[i]), "lower-bound");
    sym::check_eq(q.ub[i], clamp(ub[i]), "upper-bound");
  }
  for (std::size_t r = 0; r < m; ++r)
  {
    const DblVec a = coefs(cs[r].e, n);
    for (std::size_t i = 0; i < n; ++i)
      sym::check_eq(q.A[r][i], a[i], "constraint-row");
    // a x + slack form: rhs + lb <= a x <= rhs + ub
    sym::check_eq(q.rhs[r], -cs[r].e.constant, "constraint-rhs");
    sym::check_eq(q.ub[n + r], 0.0, "constraint-upper");
    if (cs[r].eq)
      sym::check_eq(q.lb[n + r], 0.0, "constraint-lower");
    else
      sym::check_le(q.lb[n + r], -1e30, "constraint-lower");
  }
}
double bnd(const std::string& n, bool lower)
{
  switch (sym::choose(n + "_kind", 3))
  {
    case 0: return sym::real_in(n, -1000, 1000);
    case 1: return lower ? -hu::INF : hu::INF;
    default: return lower ? -1e31 : 1e31;
  }
}
}  // namespace

SYM_HARNESS(encode)
{
  sym::bound("3 variables, up to 2 constraints of 2 terms (the last also of none), objective of 2 linear and 2 quadratic terms, aliased and repeated variables, finite or infinite bounds, every return code");
  fake::reset();
  const int what = sym::choose("what", 3);  // which part is varied
  auto model = createBPMPDModel();
  sym::check(fake::forks == 1 && fake::pipes == 2, "one-process");
  VarVector v{ model->addVar("a"), model->addVar("b"), model->addVar("c") };
  DblVec lb(3, -hu::INF), ub(3, hu::INF);
  QuadExpr obj;
  std::vector<Want> cs;
  if (what == 0)
  {
    const bool quad = sym::flag("quadratic");
    obj = quad ? hs::quad("obj", v, 1, 2, false) : QuadExpr(hs::aff("obj", v, 2));
    if (quad)
      model->setObjective(obj);
    else
      model->setObjective(obj.affexpr);
  }
  else
    model->setObjective(QuadExpr());
  if (what == 1)
    for (int i = 0, k = 1 + sym::choose("constraints", 2); i < k; ++i)
    {
      const std::string s = "c" + std::to_string(i);
      const int terms = i + 1 == k && sym::flag(s + "_empty") ? 0 : 2;  // a row may depend on nothing
      cs.push_back({ hs::aff(s, v, terms, false), sym::flag(s + "_eq") });
      if (cs.back().eq)
        model->addEqCnt(cs.back().e, s);
      else
        model->addIneqCnt(cs.back().e, s);
    }
  if (what == 2)
  {
    const std::size_t k = static_cast<std::size_t>(sym::choose("bounded", 3));
    lb[k] = bnd("lb", true);
    ub[k] = bnd("ub", false);
    switch (sym::choose("call", 3))
    {
      case 0: model->setVarBounds(VarVector{ v[k] }, DblVec{ lb[k] }, DblVec{ ub[k] }); break;
      case 1: model->setVarBounds(v[k], lb[k], ub[k]); break;
      default: model->setVarBounds(VarVector{ v[2], v[0], v[1] }, DblVec{ lb[2], lb[0], lb[1] }, DblVec{ ub[2], ub[0], ub[1] });
    }
  }
  fake::Answer a{ hs::dbl("primal", 3 + static_cast<int>(cs.size())), what == 2 ? 2 : sym::choose("code", 7) - 1 };
  fake::answers.push_back(a);
  const CvxOptStatus st = model->optimize();
  sym::check(fake::queries.size() == 1, "one-solve");
  if (fake::queries.size() != 1)
    sym::stop();
  check_query(fake::queries[0], obj, cs, lb, ub);
  const CvxOptStatus want = a.code == 2 ? CVX_SOLVED : (a.code == 3 || a.code == 4 ? CVX_INFEASIBLE : CVX_FAILED);
  sym::check(st == want, "status");
  const DblVec x = model->getVarValues(VarVector{ v[2], v[0], v[1] });
  sym::check_eq(x[0], a.primal[2], "solution");
  sym::check_eq(x[1], a.primal[0], "solution");
  sym::check_eq(x[2], a.primal[1], "solution");
  sym::check(fake::to_solver.empty() && fake::from_solver.empty(), "all-consumed");
}

SYM_HARNESS(history)
{
  sym::bound("3 variables and 3 constraints; one phase of removals, additions and bound changes between two solves, objectives replaced by affine or quadratic ones");
  fake::reset();
  auto model = createBPMPDModel();
  VarVector v{ model->addVar("a"), model->addVar("b", -1, 2), model->addVar("c") };
  DblVec lb{ -hu::INF, -1, -hu::INF }, ub{ hu::INF, 2, hu::INF };
  std::vector<Want> cs;
  CntVector cnts;
  // constraint i uses only variable i, so that removing variable and constraint together is legal
  auto add = [&](const std::string& s, const Var& x, bool eq) {
    AffExpr e(sym::real_in(s + "_const", -10, 10));
    e.vars = { x };
    e.coeffs = { sym::real_in(s + "_coeff", -10, 10) };
    sym::assume_ne(e.coeffs[0], 0);  // zero coefficients: see encode
    cs.push_back({ e, eq });
    cnts.push_back(eq ? model->addEqCnt(e, s) : model->addIneqCnt(e, s));
  };
  for (std::size_t i = 0; i < 3; ++i)
    add("c" + std::to_string(i), v[i], i == 1);
  auto objective = [&](const std::string& s) {
    QuadExpr q(hs::aff(s, v, 1, false));
    if (sym::flag(s + "_quadratic"))
    {
      q.vars1 = { v.front() };
      q.vars2 = { v.back() };
      q.coeffs = { sym::real_in(s + "_q", -10, 10) };
      sym::assume_ne(q.coeffs[0], 0);
      model->setObjective(q);
    }
    else
      model->setObjective(q.affexpr);
    return q;
  };
  QuadExpr obj = objective("obj0");
  auto solve = [&]() {
    fake::queries.clear();
    fake::Answer a{ hs::dbl("primal", static_cast<int>(v.size() + cs.size())), 2 };
    fake::answers.push_back(a);
    sym::check(model->optimize() == CVX_SOLVED, "status");
    sym::check(fake::queries.size() == 1, "one-solve");
    for (std::size_t i = 0; i < v.size(); ++i)
      sym::check(v[i].var_rep->index == i, "variable-index");
    check_query(fake::queries[0], obj, cs, lb, ub);
    const DblVec x = model->getVarValues(v);
    for (std::size_t i = 0; i < v.size(); ++i)
    {
      sym::check_eq(x[i], a.primal[i], "solution");
      sym::check_eq(v[i].value(a.primal), a.primal[i], "solution");
    }
    const VarVector all = model->getVars();
    sym::check(all.size() == v.size(), "variables");
  };
  if (sym::flag("first_solve"))
    solve();
  // remove any subset of constraints, and a variable that is no longer used
  const int rm = sym::choose("removed", 8);
  VarVector rv;
  CntVector rc;
  for (int i = 2; i >= 0; --i)
    if (rm >> i & 1)
    {
      rc.push_back(cnts[static_cast<std::size_t>(i)]);
      cs.erase(cs.begin() + i);
    }
  const int k = rm == 0 || sym::flag("keep_vars") ? -1 : (rm & 4 ? 2 : (rm & 2 ? 1 : 0)) ;
  if (k >= 0)
  {
    rv.push_back(v[static_cast<std::size_t>(k)]);
    v.erase(v.begin() + k);
    lb.erase(lb.begin() + k);
    ub.erase(ub.begin() + k);
    sym::cover("variable-removed");
  }
  const bool early = sym::flag("add_before_update");
  model->removeCnts(rc);
  model->removeVars(rv);
  if (!early)
    model->update();
  const double l = sym::real_in("l", -5, 0), u = sym::real_in("u", 0, 5);
  v.push_back(model->addVar("new", l, u));
  lb.push_back(l);
  ub.push_back(u);
  add("cn", v.back(), false);
  obj = objective("obj1");
  if (sym::flag("rebound"))
  {
    lb[0] = l;
    ub[0] = u;
    model->setVarBounds(v[0], l, u);
  }
  solve();
}

SYM_HARNESS(pipes)
{
  sym::bound("2 variables, 1 constraint, 2 quadratic terms; up to 1 (2 thorough) interrupted, 1-byte or almost complete read or write at any point of the exchange; two exchanges; then exit");
  fake::reset();
  auto model = createBPMPDModel();
  VarVector v{ model->addVar("a"), model->addVar("b") };
  QuadExpr obj;
  obj.affexpr.vars = { v[0], v[1] };
  obj.affexpr.coeffs = hs::dbl("lin", 2);
  obj.vars1 = { v[0], v[1] };
  obj.vars2 = { v[1], v[1] };
  obj.coeffs = hs::dbl("quad", 2);
  model->setObjective(obj);
  AffExpr e(sym::real_in("const", -10, 10));
  e.vars = { v[1], v[0] };
  e.coeffs = hs::dbl("coeff", 2);
  model->addIneqCnt(e, "c");
  const DblVec lb{ sym::real_in("lb", -10, 0), -1e30 }, ub{ 1e30, sym::real_in("ub", 0, 10) };
  model->setVarBounds(v, lb, ub);
  fake::max_shorts = sym::thorough() ? 2 : 1;
  for (int i = 0; i < 2; ++i)
  {
    fake::Answer a{ hs::dbl("primal" + std::to_string(i), 3), 2 + i };
    fake::answers.push_back(a);
    const CvxOptStatus st = model->optimize();
    sym::check(fake::queries.size() == static_cast<std::size_t>(i + 1), "one-solve");
    if (fake::queries.size() != static_cast<std::size_t>(i + 1))
      sym::stop();
    check_query(fake::queries.back(), obj, { { e, false } }, lb, ub);
    sym::check(st == (i == 0 ? CVX_SOLVED : CVX_INFEASIBLE), "status");
    const DblVec x = model->getVarValues(v);
    sym::check_eq(x[0], a.primal[0], "solution");
    sym::check_eq(x[1], a.primal[1], "solution");
    sym::check(fake::to_solver.empty() && fake::from_solver.empty(), "all-consumed");
  }
  fake::shorts = fake::max_shorts;
  // the solver process ends when its user exits
  sco::fexit();
  fake::run_solver();
  sym::check(fake::exited && fake::to_solver.empty() && fake::from_solver.empty(), "exit");
  sym::require_cover("short");
}

SYM_HARNESS(threads)
{
  sym::bound("1 variable (or 2, thorough) present, 2 threads that add a bounded variable and a constraint each, or 1 and 2 bounded variables; every interleaving with up to 2 (3 thorough) preemptions at allocations, releases and mutexes");
  sym::require_cover("switched");
  sym::require_cover("waited");
  fake::reset();
  auto model = createBPMPDModel();
  const hs::Shared s = hs::extend_concurrently(*model);
  std::vector<Want> cs;
  for (const auto& c : s.cs)
    cs.push_back({ c.first, c.second });
  model->setObjective(QuadExpr());
  fake::answers.push_back({ DblVec(s.v.size() + cs.size(), 0.0), 2 });
  model->optimize();
  sym::check(fake::queries.size() == 1, "one-solve");
  check_query(fake::queries.at(0), QuadExpr(), cs, s.lb, s.ub);
}
