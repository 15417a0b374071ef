// The Gurobi back end of trajopt_sco against a recording Gurobi with its lazy updates: what it solves is the model's QP.
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/gurobi_interface.cpp
// @flag -DHAVE_GUROBI -I/verif/stubs/gurobi
// @flag -include /verif/harness/every_allocation.h
#include "sco.h"
#include "threads.h"
#include <cstring>
#include <functional>
#include <set>
extern "C" {
#include <gurobi_c.h>
}
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/gurobi_interface.hpp>
using namespace sco;

struct _GRBenv
{
  int unused;
};
namespace fake
{
struct Row
{
  DblVec a;  // by variable
  DblVec q;  // quadratic part of a quadratic constraint, full square
  char sense;
  double rhs;
};
struct Qp
{
  DblVec lb, ub, obj, Q;  // Q: full square of the coefficients as given
  double con = 0;
  std::vector<Row> rows, qrows;
  std::size_t n() const { return lb.size(); }
};
static Qp last;
static int alive = 0, solves = 0, status = GRB_OPTIMAL, errors = 0;
static DblVec answer;
static _GRBenv env;
static void reset()
{
  alive = solves = errors = 0;
  status = GRB_OPTIMAL;
}
}  // namespace fake
/** as in Gurobi, nothing takes effect before the next update or solve, and indices mean variables and rows as of the last one */
struct _GRBmodel
{
  fake::Qp qp;
  std::vector<std::function<void()>> changes, additions;
  std::set<int> gone_vars, gone_rows;
  std::vector<fake::Row> new_rows, new_qrows;
  bool solved = false;
  int error()
  {
    ++fake::errors;
    return 10006;
  }
  bool valid(int n, const int* ind, std::size_t size) const
  {
    for (int i = 0; i < n; ++i)
      if (ind[i] < 0 || static_cast<std::size_t>(ind[i]) >= size)
        return false;
    return true;
  }
  void update()
  {
    for (const auto& c : changes)
      c();
    const std::size_t n = qp.n();
    fake::Qp k;
    k.con = qp.con;
    auto keep = [&](const DblVec& v) {
      DblVec r;
      for (std::size_t i = 0; i < n; ++i)
        if (gone_vars.count(static_cast<int>(i)) == 0)
          r.push_back(v[i]);
      return r;
    };
    auto keep2 = [&](const DblVec& v) {
      DblVec r;
      for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j)
          if (gone_vars.count(static_cast<int>(i)) == 0 && gone_vars.count(static_cast<int>(j)) == 0)
            r.push_back(v[i * n + j]);
      return r;
    };
    k.lb = keep(qp.lb);
    k.ub = keep(qp.ub);
    k.obj = keep(qp.obj);
    k.Q = keep2(qp.Q);
    for (std::size_t i = 0; i < qp.rows.size(); ++i)
      if (gone_rows.count(static_cast<int>(i)) == 0)
        k.rows.push_back({ keep(qp.rows[i].a), {}, qp.rows[i].sense, qp.rows[i].rhs });
    for (const auto& r : qp.qrows)
      k.qrows.push_back({ keep(r.a), keep2(r.q), r.sense, r.rhs });
    // rows were added in terms of the variables of the last update
    for (const auto& r : new_rows)
      k.rows.push_back({ keep(r.a), {}, r.sense, r.rhs });
    for (const auto& r : new_qrows)
      k.qrows.push_back({ keep(r.a), keep2(r.q), r.sense, r.rhs });
    qp = k;
    new_rows.clear();
    new_qrows.clear();
    for (const auto& c : additions)
      c();
    changes.clear();
    additions.clear();
    gone_vars.clear();
    gone_rows.clear();
  }
  void add_var(double obj, double lb, double ub)
  {
    const std::size_t n = qp.n();
    DblVec Q((n + 1) * (n + 1), 0.0);
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j)
        Q[i * (n + 1) + j] = qp.Q[i * n + j];
    qp.Q = Q;
    qp.lb.push_back(lb);
    qp.ub.push_back(ub);
    qp.obj.push_back(obj);
    for (auto& r : qp.rows)
      r.a.push_back(0);
    for (auto& r : qp.qrows)
    {
      r.a.push_back(0);
      DblVec q((n + 1) * (n + 1), 0.0);
      for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j)
          q[i * (n + 1) + j] = r.q[i * n + j];
      r.q = q;
    }
  }
};
extern "C" {
int GRBloadenv(GRBenv** env, const char*)
{
  *env = &fake::env;
  return 0;
}
int GRBsetintparam(GRBenv*, const char*, int) { return 0; }
const char* GRBgeterrormsg(GRBenv*) { return "error"; }
int GRBnewmodel(GRBenv*, GRBmodel** m, const char*, int, double*, double*, double*, char*, char**)
{
  ++fake::alive;
  *m = new _GRBmodel();
  return 0;
}
int GRBfreemodel(GRBmodel* m)
{
  --fake::alive;
  delete m;
  return 0;
}
int GRBaddvar(GRBmodel* m, int nz, int*, double*, double obj, double lb, double ub, char type, const char*)
{
  if (nz != 0 || type != GRB_CONTINUOUS)
    return m->error();
  m->additions.emplace_back([=]() { m->add_var(obj, lb, ub); });
  return 0;
}
static int add_row(GRBmodel* m, int nz, const int* ind, const double* val, int qnz, const int* row, const int* col, const double* qval,
                   char sense, double rhs)
{
  const std::size_t n = m->qp.n();
  if (!m->valid(nz, ind, n) || !m->valid(qnz, row, n) || !m->valid(qnz, col, n))
    return m->error();
  fake::Row r{ DblVec(n, 0.0), DblVec(n * n, 0.0), sense, rhs };
  std::set<int> seen;
  for (int i = 0; i < nz; ++i)
  {
    if (!seen.insert(ind[i]).second && qnz == 0)
      return m->error();  // duplicate index
    r.a[static_cast<std::size_t>(ind[i])] += val[i];
  }
  for (int i = 0; i < qnz; ++i)
    r.q[static_cast<std::size_t>(row[i]) * n + static_cast<std::size_t>(col[i])] += qval[i];
  (qnz == 0 ? m->new_rows : m->new_qrows).push_back(r);
  return 0;
}
int GRBaddconstr(GRBmodel* m, int nz, int* ind, double* val, char sense, double rhs, const char*)
{
  return add_row(m, nz, ind, val, 0, nullptr, nullptr, nullptr, sense, rhs);
}
int GRBaddqconstr(GRBmodel* m, int lnz, int* lind, double* lval, int qnz, int* row, int* col, double* qval, char sense, double rhs,
                  const char*)
{
  return add_row(m, lnz, lind, lval, qnz, row, col, qval, sense, rhs);
}
int GRBdelvars(GRBmodel* m, int n, int* ind)
{
  if (!m->valid(n, ind, m->qp.n()))
    return m->error();
  m->gone_vars.insert(ind, ind + n);
  return 0;
}
int GRBdelconstrs(GRBmodel* m, int n, int* ind)
{
  if (!m->valid(n, ind, m->qp.rows.size()))
    return m->error();
  m->gone_rows.insert(ind, ind + n);
  return 0;
}
int GRBsetdblattrlist(GRBmodel* m, const char* attr, int n, int* ind, double* v)
{
  const bool lb = std::strcmp(attr, "LB") == 0, ub = std::strcmp(attr, "UB") == 0;
  if ((!lb && !ub) || !m->valid(n, ind, m->qp.n()))
    return m->error();
  const IntVec is(ind, ind + n);
  const DblVec vs(v, v + n);
  m->changes.emplace_back([=]() {
    for (std::size_t i = 0; i < is.size(); ++i)
      (lb ? m->qp.lb : m->qp.ub)[static_cast<std::size_t>(is[i])] = vs[i];
  });
  return 0;
}
int GRBgetdblattrlist(GRBmodel* m, const char* attr, int n, int* ind, double* v)
{
  if (std::strcmp(attr, "X") != 0 || !m->solved || !m->valid(n, ind, m->qp.n()))
    return m->error();
  for (int i = 0; i < n; ++i)
    v[i] = fake::answer[static_cast<std::size_t>(ind[i])];
  return 0;
}
int GRBsetdblattrarray(GRBmodel* m, const char* attr, int first, int n, double* v)
{
  if (std::strcmp(attr, "Obj") != 0 || first != 0 || static_cast<std::size_t>(n) > m->qp.n())
    return m->error();
  const DblVec vs(v, v + n);
  m->changes.emplace_back([=]() {
    for (std::size_t i = 0; i < vs.size(); ++i)
      m->qp.obj[i] = vs[i];
  });
  return 0;
}
int GRBsetdblattr(GRBmodel* m, const char* attr, double v)
{
  if (std::strcmp(attr, "ObjCon") != 0)
    return m->error();
  m->changes.emplace_back([=]() { m->qp.con = v; });
  return 0;
}
int GRBgetdblattr(GRBmodel* m, const char* attr, double* v)
{
  if (std::strcmp(attr, "ObjVal") != 0 || !m->solved)
    return m->error();
  *v = 0;
  return 0;
}
int GRBgetintattr(GRBmodel* m, const char* attr, int* v)
{
  if (std::strcmp(attr, "Status") == 0)
    *v = fake::status;
  else if (std::strcmp(attr, "NumVars") == 0)
    *v = static_cast<int>(m->qp.n());
  else if (std::strcmp(attr, "NumConstrs") == 0)
    *v = static_cast<int>(m->qp.rows.size());
  else
    return m->error();
  return 0;
}
int GRBdelq(GRBmodel* m)
{
  m->changes.emplace_back([=]() { m->qp.Q.assign(m->qp.Q.size(), 0.0); });
  return 0;
}
int GRBaddqpterms(GRBmodel* m, int n, int* row, int* col, double* val)
{
  if (!m->valid(n, row, m->qp.n()) || !m->valid(n, col, m->qp.n()))
    return m->error();
  const IntVec r(row, row + n), c(col, col + n);
  const DblVec v(val, val + n);
  m->changes.emplace_back([=]() {
    for (std::size_t i = 0; i < r.size(); ++i)
      m->qp.Q[static_cast<std::size_t>(r[i]) * m->qp.n() + static_cast<std::size_t>(c[i])] += v[i];
  });
  return 0;
}
int GRBupdatemodel(GRBmodel* m)
{
  m->update();
  return 0;
}
int GRBoptimize(GRBmodel* m)
{
  m->update();
  ++fake::solves;
  fake::last = m->qp;
  m->solved = fake::status == GRB_OPTIMAL;
  return 0;
}
int GRBcomputeIIS(GRBmodel* m) { return fake::status == GRB_INFEASIBLE ? 0 : m->error(); }
int GRBfeasrelax(GRBmodel* m, int, int, double*, double*, double*, double*) { return m->error(); }
int GRBwrite(GRBmodel*, const char*) { return 0; }
}

namespace
{
struct Want
{
  AffExpr e;
  bool eq;
};
void check_bound(double have, double want, const char* what)
{
  if (want >= GRB_INFINITY)
    sym::check_le(GRB_INFINITY, have, what);
  else if (want <= -GRB_INFINITY)
    sym::check_le(have, -GRB_INFINITY, what);
  else
    sym::check_eq(have, want, what);
}
void check_qp(const QuadExpr& obj, const std::vector<Want>& cs, const DblVec& lb, const DblVec& ub)
{
  const fake::Qp& w = fake::last;
  const std::size_t n = lb.size(), m = cs.size();
  sym::check(fake::errors == 0, "no-errors");
  const bool dims = w.n() == n && w.rows.size() == m && w.qrows.empty();
  sym::check(dims, "dimensions");
  if (!dims)
    sym::stop();
  // minimise sum q_ij x_i x_j + obj'x + constant
  DblVec q(n, 0.0), Q(n * n, 0.0);
  for (std::size_t i = 0; i < obj.affexpr.size(); ++i)
    q[obj.affexpr.vars[i].var_rep->index] += obj.affexpr.coeffs[i];
  for (std::size_t i = 0; i < obj.size(); ++i)
  {
    const std::size_t a = obj.vars1[i].var_rep->index, b = obj.vars2[i].var_rep->index;
    Q[a * n + b] += obj.coeffs[i];
    Q[b * n + a] += obj.coeffs[i];
  }
  sym::check_eq(w.con, obj.affexpr.constant, "objective-constant");
  for (std::size_t i = 0; i < n; ++i)
  {
    sym::check_eq(w.obj[i], q[i], "objective-linear");
    for (std::size_t j = 0; j < n; ++j)
      sym::check_eq(w.Q[i * n + j] + w.Q[j * n + i], Q[i * n + j], "objective-quadratic");
    check_bound(w.lb[i], lb[i], "lower-bound");
    check_bound(w.ub[i], ub[i], "upper-bound");
  }
  for (std::size_t r = 0; r < m; ++r)
  {
    DblVec a(n, 0.0);
    for (std::size_t i = 0; i < cs[r].e.size(); ++i)
      a[cs[r].e.vars[i].var_rep->index] += cs[r].e.coeffs[i];
    for (std::size_t i = 0; i < n; ++i)
      sym::check_eq(w.rows[r].a[i], a[i], "constraint-row");
    sym::check_eq(w.rows[r].rhs, -cs[r].e.constant, "constraint-rhs");
    sym::check(w.rows[r].sense == (cs[r].eq ? GRB_EQUAL : GRB_LESS_EQUAL), "constraint-sense");
  }
}
double nonzero(const std::string& n)
{
  const double c = sym::real_in(n, -100, 100);
  sym::assume_lt(0.001, hu::absv(c));
  return c;
}
}  // namespace

SYM_HARNESS(encode)
{
  sym::bound("3 variables, objective of 2 linear and 2 quadratic terms or 2 constraints of 2 terms (the last also of none) with aliased and repeated variables or a quadratic constraint, any bounds, every status");
  fake::reset();
  auto model = std::make_unique<GurobiModel>();
  Model& base = *model;
  VarVector v{ base.addVar("a"), base.addVar("b"), base.addVar("c") };
  base.update();
  DblVec lb(3, -hu::INF), ub(3, hu::INF);
  QuadExpr obj, limit;
  std::vector<Want> cs;
  const int what = sym::choose("what", 4);
  if (what == 0)
  {
    if (sym::flag("replaced"))
    {
      QuadExpr old{ AffExpr(v[0]) };
      old.affexpr.constant = 3;
      old.vars1 = { v[0], v[1] };
      old.vars2 = { v[0], v[2] };
      old.coeffs = { 1, 5 };
      base.setObjective(old);
    }
    const bool q = sym::flag("quadratic");
    obj = q ? hs::quad("obj", v, 1, 2, false) : QuadExpr(hs::aff("obj", v, 2));
    if (q)
      base.setObjective(obj);
    else
      base.setObjective(obj.affexpr);
  }
  if (what == 1)
    for (int i = 0, k = 1 + sym::choose("constraints", 2); i < k; ++i)
    {
      const std::string s = "c" + std::to_string(i);
      const int terms = i + 1 == k && sym::flag(s + "_empty") ? 0 : 2;  // a row may depend on nothing
      cs.push_back({ hs::aff(s, v, terms, false), sym::flag(s + "_eq") });
      if (cs.back().eq)
        base.addEqCnt(cs.back().e, s);
      else
        base.addIneqCnt(cs.back().e, s);
    }
  if (what == 2)
  {
    const std::size_t k = static_cast<std::size_t>(sym::choose("bounded", 3));
    lb[k] = sym::flag("lb_inf") ? -1e101 : sym::real_in("lb", -1e6, 1e6);
    ub[k] = sym::flag("ub_inf") ? hu::INF : sym::real_in("ub", -1e6, 1e6);
    base.setVarBounds(VarVector{ v[k] }, DblVec{ lb[k] }, DblVec{ ub[k] });
    fake::status = GRB_LOADED + sym::choose("status", 13);
  }
  if (what == 3)
  {
    limit = hs::quad("limit", v, 1, 2, false);
    base.addIneqCnt(limit, "limit");
  }
  base.update();
  fake::answer = hs::dbl("x", 3);
  const CvxOptStatus st = base.optimize();
  sym::check(fake::solves == 1, "one-solve");
  sym::check(st == (fake::status == GRB_OPTIMAL ? CVX_SOLVED : (fake::status == GRB_INFEASIBLE ? CVX_INFEASIBLE : CVX_FAILED)), "status");
  if (what == 3)
  {
    const bool one = fake::last.qrows.size() == 1 && fake::last.rows.empty();
    sym::check(one, "dimensions");
    if (!one)
      sym::stop();
    const fake::Row& r = fake::last.qrows[0];
    DblVec q(3, 0.0), Q(9, 0.0);
    for (std::size_t i = 0; i < limit.affexpr.size(); ++i)
      q[limit.affexpr.vars[i].var_rep->index] += limit.affexpr.coeffs[i];
    for (std::size_t i = 0; i < limit.size(); ++i)
    {
      const std::size_t a = limit.vars1[i].var_rep->index, b = limit.vars2[i].var_rep->index;
      Q[a * 3 + b] += limit.coeffs[i];
      Q[b * 3 + a] += limit.coeffs[i];
    }
    for (std::size_t i = 0; i < 3; ++i)
    {
      sym::check_eq(r.a[i], q[i], "quadratic-constraint");
      for (std::size_t j = 0; j < 3; ++j)
        sym::check_eq(r.q[i * 3 + j] + r.q[j * 3 + i], Q[i * 3 + j], "quadratic-constraint");
    }
    sym::check_eq(r.rhs, -limit.affexpr.constant, "quadratic-constraint");
    sym::check(r.sense == GRB_LESS_EQUAL, "quadratic-constraint");
  }
  else
    check_qp(obj, cs, lb, ub);
  if (st == CVX_SOLVED)
  {
    const DblVec x = base.getVarValues(VarVector{ v[2], v[0], v[1] });
    sym::check_eq(x[0], fake::answer[2], "solution");
    sym::check_eq(x[1], fake::answer[0], "solution");
    sym::check_eq(x[2], fake::answer[1], "solution");
  }
  sym::check(fake::errors == 0, "no-errors");
  model.reset();
  sym::check(fake::alive == 0, "model-released");
}

SYM_HARNESS(history)
{
  sym::bound("3 variables and 3 constraints; one phase of removals, additions and bound changes between two solves");
  fake::reset();
  auto model = std::make_unique<GurobiModel>();
  Model& base = *model;
  VarVector v{ base.addVar("a"), base.addVar("b", -1, 2), base.addVar("c") };
  base.update();
  DblVec lb{ -hu::INF, -1, -hu::INF }, ub{ hu::INF, 2, hu::INF };
  std::vector<Want> cs;
  CntVector cnts;
  auto add = [&](const std::string& s, const Var& x, bool eq) {
    AffExpr e(sym::real_in(s + "_const", -10, 10));
    e.vars = { x };
    e.coeffs = { nonzero(s + "_coeff") };
    cs.push_back({ e, eq });
    cnts.push_back(eq ? base.addEqCnt(e, s) : base.addIneqCnt(e, s));
  };
  for (std::size_t i = 0; i < 3; ++i)
    add("c" + std::to_string(i), v[i], i == 1);
  auto objective = [&](const std::string& s) {
    QuadExpr q;
    q.affexpr.vars = { v[1] };
    q.affexpr.coeffs = { nonzero(s + "_l") };
    if (sym::flag(s + "_quadratic"))
    {
      q.vars1 = { v.front() };
      q.vars2 = { v.back() };
      q.coeffs = { nonzero(s + "_q") };
      base.setObjective(q);
    }
    else
      base.setObjective(q.affexpr);
    return q;
  };
  QuadExpr obj = objective("obj0");
  auto solve = [&]() {
    base.update();
    fake::answer = hs::dbl("x", static_cast<int>(v.size()));
    sym::check(base.optimize() == CVX_SOLVED, "status");
    for (std::size_t i = 0; i < v.size(); ++i)
      sym::check(v[i].var_rep->index == i, "variable-index");
    check_qp(obj, cs, lb, ub);
    const DblVec x = base.getVarValues(v);
    for (std::size_t i = 0; i < v.size(); ++i)
      sym::check_eq(x[i], fake::answer[i], "solution");
    sym::check(base.getVars().size() == v.size(), "variables");
  };
  if (sym::flag("first_solve"))
    solve();
  const int rm = sym::choose("removed", 8);
  VarVector rv;
  CntVector rc;
  for (int i = 2; i >= 0; --i)
    if (rm >> i & 1)
    {
      rc.push_back(cnts[static_cast<std::size_t>(i)]);
      cs.erase(cs.begin() + i);
    }
  const int k = rm == 0 || sym::flag("keep_vars") ? -1 : (rm & 4 ? 2 : (rm & 2 ? 1 : 0));
  if (k >= 0)
  {
    rv.push_back(v[static_cast<std::size_t>(k)]);
    v.erase(v.begin() + k);
    lb.erase(lb.begin() + k);
    ub.erase(ub.begin() + k);
  }
  const bool early = sym::flag("add_before_update");
  base.update();
  base.removeCnts(rc);
  base.removeVars(rv);
  if (!early)
    base.update();
  const double l = sym::real_in("l", -5, 0), u = sym::real_in("u", 0, 5);
  const bool addvar = sym::flag("add_var");
  if (addvar)
  {
    v.push_back(base.addVar("new", l, u));
    lb.push_back(l);
    ub.push_back(u);
  }
  // what is said about variables comes after the update that puts them in place
  base.update();
  if (v.empty())
    sym::stop();
  add("cn", v.back(), false);
  base.update();
  obj = objective("obj1");
  if (sym::flag("rebound"))
  {
    lb[0] = l;
    ub[0] = u;
    base.setVarBounds(VarVector{ v[0] }, DblVec{ l }, DblVec{ u });
  }
  solve();
}

SYM_HARNESS(threads)
{
  sym::bound("1 variable (or 2, thorough) present, 2 threads that add a bounded variable and a constraint each, or 1 and 2 bounded variables; every interleaving with up to 2 (3 thorough) preemptions at allocations, releases and mutexes");
  sym::require_cover("switched");
  sym::require_cover("waited");
  fake::reset();
  auto model = std::make_unique<GurobiModel>();
  const hs::Shared s = hs::extend_concurrently(*model);
  std::vector<Want> cs;
  for (const auto& c : s.cs)
    cs.push_back({ c.first, c.second });
  fake::answer.assign(s.v.size(), 0.0);
  sym::check(model->optimize() == CVX_SOLVED, "status");
  check_qp(QuadExpr(), cs, s.lb, s.ub);
}
