// Joint position, velocity, acceleration and jerk terms of the sco based trajopt, and its trajectory/joint name helpers.
// @unit trajopt/src/trajectory_costs.cpp
// @unit trajopt/src/utils.cpp
// @unit trajopt_common/src/logging.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/solver_interface.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/modeling_utils.cpp
// @unit trajopt_sco/src/num_diff.cpp
// @flag -DHAVE_BPMPD
#include "sco_model.h"
#include <set>
#include <trajopt/trajectory_costs.hpp>
#include <trajopt/utils.hpp>
using namespace trajopt;
using Eigen::VectorXd;

static std::shared_ptr<hs::Mock> g_model;
namespace sco
{
Model::Ptr createBPMPDModel()
{
  g_model = std::make_shared<hs::Mock>();
  return g_model;
}
}  // namespace sco

namespace
{
constexpr int J = 2;
struct Case
{
  int order, steps, first, last;
  hs::Mock m;
  VarArray vars;
  VectorXd coeffs{ J }, targets{ J }, upper{ J }, lower{ J };
  DblVec x;

  /** A trajectory of `steps_` rows whose variables are neither the first of the problem nor in row order, and a range. */
  Case(int order_, int steps_) : order(order_), steps(steps_)
  {
    vars.resize(steps, J);
    m.addVar("other");
    for (int j = 0; j < J; ++j)
      for (int i = 0; i < steps; ++i)
        vars(i, j) = m.addVar("j");
    first = sym::choose("first", steps);
    last = sym::choose("last", steps);
    for (int j = 0; j < J; ++j)
    {
      coeffs[j] = sym::real_in("coeff", 0, 1000);
      targets[j] = sym::real_in("target", -100, 100);
      upper[j] = sym::real_in("upper", -100, 100);
      lower[j] = sym::real_in("lower", -100, 100);
    }
    x = hs::dbl("x", 1 + steps * J);
  }
  bool fits() const { return last >= first + order; }
  int rows() const { return last - first + 1 - order; }
  double pos(int i, int j) const { return x[static_cast<std::size_t>(1 + j * steps + i)]; }
  /** finite difference of the order, minus the target */
  double diff(int i, int j) const
  {
    const auto p = [&](int k) { return pos(i + k, j); };
    double d = 0;
    switch (order)
    {
      case 0:
        d = p(0);
        break;
      case 1:
        d = p(1) - p(0);
        break;
      case 2:
        d = p(2) - 2 * p(1) + p(0);
        break;
      default:
        d = p(3) - 3 * p(2) + 3 * p(1) - p(0);
    }
    return d - targets[j];
  }
};
double pos_part(double v) { return v > 0 ? v : 0; }
/** value of the objective with each auxiliary variable at the least its constraints allow (the objective grows with each) */
double minimised(const sco::ConvexObjective& o, const hs::Mock& m, const DblVec& x0)
{
  DblVec x = x0;
  x.resize(m.vs.size(), 0);
  for (std::size_t k = x0.size(); k < x.size(); ++k)
  {
    double best = m.vs[k].lb;
    sym::check(best == 0, "hinge-variable-bound");
    int used = 0;
    for (const auto& e : o.ineqs_)
      for (std::size_t t = 0; t < e.vars.size(); ++t)
        if (e.vars[t].var_rep->index == k)
        {
          sym::check_eq(e.coeffs[t], -1, "hinge-row");
          const double need = hs::val(e, x);  // x[k] == 0 here
          best = need > best ? need : best;
          ++used;
        }
    sym::check(used == 1, "hinge-rows");
    x[k] = best;
  }
  sym::check(o.eqs_.empty(), "no-equalities");
  return o.value(x);
}

/** the variables a term names: trajectory variables without repetition, all of those its value depends on among them */
void check_vars(const Case& c, const sco::VarVector& named)
{
  std::set<const sco::VarRep*> names;
  for (const auto& v : named)
    sym::check(names.insert(v.var_rep.get()).second, "variables-distinct");
  std::size_t known = 0;
  for (int i = 0; i < c.steps; ++i)
    for (int j = 0; j < J; ++j)
    {
      const bool has = names.count(c.vars(i, j).var_rep.get()) == 1;
      known += has ? 1 : 0;
      sym::check(has || i < c.first || i > c.last, "variables-complete");
    }
  sym::check(known == named.size(), "variables-of-trajectory");
}
template <class Cost>
void eq_cost(int order)
{
  Case c(order, order + (order == 0 ? 2 : 2) + (sym::thorough() ? 1 : 0));
  sym::assume(c.first <= c.last);
  std::unique_ptr<Cost> cost;
  try
  {
    cost = std::make_unique<Cost>(c.vars, c.coeffs, c.targets, c.first, c.last);
  }
  catch (const std::exception&)
  {
    sym::check(!c.fits(), "rejected-though-long-enough");
    sym::cover("too-short");
    return;
  }
  sym::check(c.fits(), "accepted-though-too-short");
  if (!c.fits())
    return;
  double want = 0;
  for (int i = 0; i < c.rows(); ++i)
    for (int j = 0; j < J; ++j)
      want += c.coeffs[j] * c.diff(c.first + i, j) * c.diff(c.first + i, j);
  sym::check_eq(cost->value(c.x), want, "value");
  check_vars(c, cost->getVars());
  const auto o = cost->convex(hs::dbl("at", 1), &c.m);
  sym::check_eq(minimised(*o, c.m, c.x), want, "model");
  sym::cover("evaluated");
}
template <class Cost>
void ineq_cost(int order)
{
  Case c(order, order + (order == 0 ? 2 : 1) + (sym::thorough() ? 1 : 0));
  sym::assume(c.first <= c.last);
  std::unique_ptr<Cost> cost;
  try
  {
    cost = std::make_unique<Cost>(c.vars, c.coeffs, c.targets, c.upper, c.lower, c.first, c.last);
  }
  catch (const std::exception&)
  {
    sym::check(!c.fits(), "rejected-though-long-enough");
    sym::cover("too-short");
    return;
  }
  sym::check(c.fits(), "accepted-though-too-short");
  if (!c.fits())
    return;
  double want = 0;
  for (int i = 0; i < c.rows(); ++i)
    for (int j = 0; j < J; ++j)
    {
      const double d = c.diff(c.first + i, j);
      want += pos_part(c.coeffs[j] * (d - c.upper[j])) + pos_part(c.coeffs[j] * (c.lower[j] - d));
    }
  sym::check_eq(cost->value(c.x), want, "value");
  check_vars(c, cost->getVars());
  const auto o = cost->convex(hs::dbl("at", 1), &c.m);
  sym::check_eq(minimised(*o, c.m, c.x), want, "model");
  sym::cover("evaluated");
}
template <class Cnt>
void eq_constraint(int order)
{
  Case c(order, order + 2 + (sym::thorough() ? 1 : 0));
  sym::assume(c.first <= c.last);
  std::unique_ptr<Cnt> cnt;
  try
  {
    cnt = std::make_unique<Cnt>(c.vars, c.coeffs, c.targets, c.first, c.last);
  }
  catch (const std::exception&)
  {
    sym::check(!c.fits(), "rejected-though-long-enough");
    sym::cover("too-short");
    return;
  }
  sym::check(c.fits(), "accepted-though-too-short");
  if (!c.fits())
    return;
  sym::check(cnt->type() == sco::EQ, "type");
  check_vars(c, cnt->getVars());
  const int n = c.rows() * J;
  const DblVec v = cnt->value(c.x);
  const auto q = cnt->convex(hs::dbl("at", 1), &c.m);
  sym::check(static_cast<int>(v.size()) == n && static_cast<int>(q->eqs_.size()) == n && q->ineqs_.empty(), "rows");
  if (static_cast<int>(v.size()) != n || static_cast<int>(q->eqs_.size()) != n)
    return;
  // which entry stands for which step and joint is free, each must be there: compared as sums with distinct joint weights
  double value = 0, model = 0, want_value = 0, want_model = 0;
  for (int k = 0; k < n; ++k)
  {
    value += v[static_cast<std::size_t>(k)];
    const double r = hs::val(q->eqs_[static_cast<std::size_t>(k)], c.x);
    model += r * r;
  }
  for (int i = 0; i < c.rows(); ++i)
    for (int j = 0; j < J; ++j)
    {
      const double d = c.diff(c.first + i, j);
      want_value += c.coeffs[j] * d * d;
      want_model += c.coeffs[j] * c.coeffs[j] * d * d;
    }
  sym::check_eq(value, want_value, "value");
  sym::check_eq(model, want_model, "model");
  for (int k = 0; k < n; ++k)
    sym::check_le(0, v[static_cast<std::size_t>(k)], "value-sign");
  sym::cover("evaluated");
}
template <class Cnt>
void ineq_constraint(int order)
{
  Case c(order, order + (order == 0 ? 2 : 1) + (sym::thorough() ? 1 : 0));
  sym::assume(c.first <= c.last);
  std::unique_ptr<Cnt> cnt;
  try
  {
    cnt = std::make_unique<Cnt>(c.vars, c.coeffs, c.targets, c.upper, c.lower, c.first, c.last);
  }
  catch (const std::exception&)
  {
    sym::check(!c.fits(), "rejected-though-long-enough");
    sym::cover("too-short");
    return;
  }
  sym::check(c.fits(), "accepted-though-too-short");
  if (!c.fits())
    return;
  sym::check(cnt->type() == sco::INEQ, "type");
  check_vars(c, cnt->getVars());
  const std::size_t n = static_cast<std::size_t>(2 * c.rows() * J);
  const auto q = cnt->convex(hs::dbl("at", 1), &c.m);
  sym::check(cnt->value(c.x).size() == n && q->ineqs_.size() == n && q->eqs_.empty(), "rows");
  double want = 0;
  for (int i = 0; i < c.rows(); ++i)
    for (int j = 0; j < J; ++j)
    {
      const double d = c.diff(c.first + i, j);
      want += pos_part(c.coeffs[j] * (d - c.upper[j])) + pos_part(c.coeffs[j] * (c.lower[j] - d));
    }
  sym::check_eq(cnt->violation(c.x), want, "violation");
  double model = 0;
  for (const auto& e : q->ineqs_)
    model += pos_part(hs::val(e, c.x));
  sym::check_eq(model, want, "model");
  sym::cover("evaluated");
}
}  // namespace

SYM_HARNESS(eq_costs)
{
  sym::require_cover("evaluated");
  sym::require_cover("too-short");
  switch (sym::choose("kind", 4))
  {
    case 0:
      return eq_cost<JointPosEqCost>(0);
    case 1:
      return eq_cost<JointVelEqCost>(1);
    case 2:
      return eq_cost<JointAccEqCost>(2);
    default:
      return eq_cost<JointJerkEqCost>(3);
  }
}
SYM_HARNESS(ineq_costs)
{
  sym::require_cover("evaluated");
  sym::require_cover("too-short");
  switch (sym::choose("kind", 4))
  {
    case 0:
      return ineq_cost<JointPosIneqCost>(0);
    case 1:
      return ineq_cost<JointVelIneqCost>(1);
    case 2:
      return ineq_cost<JointAccIneqCost>(2);
    default:
      return ineq_cost<JointJerkIneqCost>(3);
  }
}
SYM_HARNESS(eq_constraints)
{
  sym::require_cover("evaluated");
  sym::require_cover("too-short");
  switch (sym::choose("kind", 4))
  {
    case 0:
      return eq_constraint<JointPosEqConstraint>(0);
    case 1:
      return eq_constraint<JointVelEqConstraint>(1);
    case 2:
      return eq_constraint<JointAccEqConstraint>(2);
    default:
      return eq_constraint<JointJerkEqConstraint>(3);
  }
}
SYM_HARNESS(ineq_constraints)
{
  sym::require_cover("evaluated");
  sym::require_cover("too-short");
  switch (sym::choose("kind", 4))
  {
    case 0:
      return ineq_constraint<JointPosIneqConstraint>(0);
    case 1:
      return ineq_constraint<JointVelIneqConstraint>(1);
    case 2:
      return ineq_constraint<JointAccIneqConstraint>(2);
    default:
      return ineq_constraint<JointJerkIneqConstraint>(3);
  }
}

SYM_HARNESS(trajectory_arrays)
{
  sco::OptProb prob(sco::ModelType::BPMPD);
  const int before = sym::choose("variables before", 2);
  if (before == 1)
    prob.createVariables({ "earlier" });
  const int rows = 1 + sym::choose("rows", 2), c0 = 1 + sym::choose("cols", 2), c1 = sym::choose("second cols", 3);
  VarArray a, b;
  if (c1 == 0)
    AddVarArray(prob, rows, c0, "a", a);
  else
    AddVarArrays(prob, rows, { c0, c1 }, { "a", "b" }, { &a, &b });
  const int n = before + rows * (c0 + c1);
  sym::check(prob.getNumVars() == n && static_cast<int>(prob.getVars().size()) == n, "count");
  sym::check(a.rows() == rows && a.cols() == c0, "shape");
  if (c1 > 0)
    sym::check(b.rows() == rows && b.cols() == c1, "shape");
  // time step by time step, array by array, and named after array, row and column
  int k = before;
  for (int i = 0; i < rows; ++i)
  {
    for (int j = 0; j < c0; ++j, ++k)
    {
      sym::check(a(i, j).var_rep->index == static_cast<std::size_t>(k), "layout");
      sym::check(a(i, j).var_rep->name == "a_" + std::to_string(i) + "_" + std::to_string(j), "name");
      sym::check(a(i, j).var_rep == prob.getVars()[static_cast<std::size_t>(k)].var_rep, "same-variable");
    }
    for (int j = 0; j < c1; ++j, ++k)
    {
      sym::check(b(i, j).var_rep->index == static_cast<std::size_t>(k), "layout");
      sym::check(b(i, j).var_rep->name == "b_" + std::to_string(i) + "_" + std::to_string(j), "name");
    }
  }
  const DblVec x = hs::dbl("x", n);
  const TrajArray t = getTraj(x, a);
  sym::check(t.rows() == rows && t.cols() == c0, "traj-shape");
  AffArray af(rows, c0);
  const double s = sym::real_in("scale", -10, 10), o = sym::real_in("offset", -10, 10);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < c0; ++j)
    {
      sym::check_eq(t(i, j), x[static_cast<std::size_t>(before + i * (c0 + c1) + j)], "traj");
      af(i, j) = sco::AffExpr(a(i, j));
      af(i, j).coeffs[0] = s;
      af(i, j).constant = o;
    }
  const TrajArray g = getTraj(x, af);
  sym::check(g.rows() == rows && g.cols() == c0, "affine-shape");
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < c0; ++j)
      sym::check_eq(g(i, j), s * x[static_cast<std::size_t>(before + i * (c0 + c1) + j)] + o, "affine");
  sym::cover("done");
}

SYM_HARNESS(joint_subsets)
{
  const std::vector<std::string> pool{ "j1", "j2", "j3", "other" };
  // superset: an ordering of the first 1..3 names
  const int ns = 1 + sym::choose("superset size", 3);
  std::vector<std::string> sup(pool.begin(), pool.begin() + ns);
  std::rotate(sup.begin(), sup.begin() + sym::choose("order", ns), sup.end());
  const int k = 1 + sym::choose("subset size", 2);
  std::vector<std::string> sub;
  for (int i = 0; i < k; ++i)
    sub.push_back(pool[static_cast<std::size_t>(sym::choose("member" + std::to_string(i), 4))]);
  if (k == 2 && sub[0] == sub[1])
    return;
  VectorXd sv(ns), v(k);
  for (int i = 0; i < ns; ++i)
    sv[i] = sym::real("superset value");
  for (int i = 0; i < k; ++i)
    v[i] = sym::real("subset value");
  const auto at = [&](const std::string& s) { return std::find(sup.begin(), sup.end(), s) - sup.begin(); };
  bool all = true;
  for (const auto& s : sub)
    all = all && at(s) < ns;
  sym::check(isSuperset(sub, sup) == (all && ns > k), "proper-superset");
  VectorXd out = VectorXd::Constant(k, -7);
  sym::check(getSubset(sup, sv, sub, out) == all, "subset-result");
  for (int i = 0; i < k; ++i)
    sym::check_eq(out[i], all ? sv[at(sub[static_cast<std::size_t>(i)])] : -7, "subset-values");
  VectorXd up = VectorXd::Constant(ns, -7);
  sym::check(updateFromSubset(sup, sv, sub, v, up) == all, "update-result");
  if (all)
    for (int i = 0; i < ns; ++i)
    {
      double want = sv[i];
      for (int t = 0; t < k; ++t)
        if (sub[static_cast<std::size_t>(t)] == sup[static_cast<std::size_t>(i)])
          want = v[t];
      sym::check_eq(up[i], want, "update-values");
    }
  sym::cover(all ? "found" : "missing");
}
