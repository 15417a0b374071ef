// Joint position / velocity / acceleration / jerk constraints over a trajectory of nodes.
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_ifopt/src/constraints/joint_position_constraint.cpp
// @unit trajopt_ifopt/src/constraints/joint_velocity_constraint.cpp
// @unit trajopt_ifopt/src/constraints/joint_acceleration_constraint.cpp
// @unit trajopt_ifopt/src/constraints/joint_jerk_constraint.cpp
#include "nodes.h"
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
using namespace trajopt_ifopt;
using hu::INF;

namespace
{
// J must be the exact derivative: the value functions are affine, so g(x) - g(x') = J (x - x') for every x, x'
void checkLinearExact(ConstraintSet& c, hu::Traj& t, const std::string& w)
{
  const Eigen::VectorXd g1 = c.getValues();
  const Jacobian J = c.getJacobian();
  sym::check(J.rows() == c.getRows() && J.cols() == t.n && g1.size() == c.getRows(), w + ":dims");
  sym::check(c.getCoefficients().size() == c.getRows() && static_cast<int>(c.getBounds().size()) == c.getRows(), w + ":sizes");
  sym::check(c.getNonZeros() >= J.nonZeros(), w + ":nonzeros");
  const Eigen::VectorXd x1 = t.x;
  const Eigen::VectorXd x2 = hu::vec("y", t.n);
  t.vars->setVariables(x2);
  const Eigen::VectorXd g2 = c.getValues();
  Eigen::MatrixXd D(J);
  for (Eigen::Index r = 0; r < g1.size(); ++r)
  {
    double s = 0;
    for (int k = 0; k < t.n; ++k)
      s += D(r, k) * (x2(k) - x1(k));
    sym::check_eq(g2(r) - g1(r), s, w + ":derivative");
  }
  const Eigen::MatrixXd D2(c.getJacobian());
  for (Eigen::Index r = 0; r < D.rows(); ++r)
    for (Eigen::Index k = 0; k < D.cols(); ++k)
      sym::check_eq(D2(r, k), D(r, k), w + ":jacobian-constant");
}

struct Args
{
  Eigen::VectorXd coeffs, full;  // as passed and as documented to be expanded (per joint)
  std::vector<Bounds> b;
  std::vector<double> lo, hi;
};
// every documented way of giving coefficients: one per joint or one for all
Args args(int dof, bool equality, bool allow_default)
{
  Args a;
  int kind = sym::choose("coeff.kind", allow_default ? 3 : 2);
  a.full.resize(dof);
  if (kind == 0)
  {
    a.coeffs.resize(1);
    a.coeffs(0) = sym::real_in("c", 0, 1e3);
    sym::assume_lt(0, a.coeffs(0));
    for (int i = 0; i < dof; ++i)
      a.full(i) = a.coeffs(0);
  }
  else if (kind == 1)
  {
    a.coeffs = hu::vec_in("c", dof, 0, 1e3);
    for (int i = 0; i < dof; ++i)
      sym::assume_lt(0, a.coeffs(i));
    a.full = a.coeffs;
  }
  else
    a.full.setOnes();
  for (int i = 0; i < dof; ++i)
  {
    std::string n = "b" + std::to_string(i);
    if (equality)
    {
      double v = sym::real_in(n, -1e3, 1e3);
      a.lo.push_back(v);
      a.hi.push_back(v);
    }
    else
    {
      switch (sym::choose(n + ".kind", 3))
      {
        case 0:
        {
          double l = sym::real_in(n + ".lo", -1e3, 1e3), w = sym::real_in(n + ".width", 1e-3, 1e3);
          a.lo.push_back(l);
          a.hi.push_back(l + w);
          break;
        }
        case 1:
          a.lo.push_back(-INF);
          a.hi.push_back(sym::real_in(n + ".hi", -1e3, 1e3));
          break;
        default:
        {
          double v = sym::real_in(n + ".eq", -1e3, 1e3);
          a.lo.push_back(v);
          a.hi.push_back(v);
        }
      }
    }
    a.b.emplace_back(a.lo.back(), a.hi.back());
  }
  return a;
}

template <class C>
void checkDiffRows(const C& c, const hu::Traj& t, const Args& a, int dof, int blocks, const std::vector<std::vector<double>>& stencil,
                   const std::string& w)
{
  // stencil[i] = weights of the steps for block i
  const Eigen::VectorXd g = c.getValues(), co = c.getCoefficients();
  const std::vector<Bounds> b = c.getBounds();
  sym::check(g.size() == dof * blocks && co.size() == dof * blocks && static_cast<int>(b.size()) == dof * blocks && c.getRows() == dof * blocks,
             w + ":rows");
  for (int i = 0; i < blocks; ++i)
    for (int j = 0; j < dof; ++j)
    {
      double s = 0;
      for (std::size_t k = 0; k < stencil[i].size(); ++k)
        if (stencil[i][k] != 0.0)
          s += stencil[i][k] * t.x(t.col[k] + j);
      const int r = i * dof + j;
      sym::check_eq(g(r), s, w + ":value");
      sym::check_eq(co(r), a.full(j), w + ":coefficient");
      sym::check_eq(b[r].getLower(), a.lo[j], w + ":lower");
      sym::check_eq(b[r].getUpper(), a.hi[j], w + ":upper");
    }
}
}  // namespace

SYM_HARNESS(position)
{
  const int maxdof = sym::thorough() ? 4 : 3;
  sym::bound("1.." + std::to_string(maxdof) + " joints, 2 nodes, scalar before/after/absent, every mix of equality / one-sided / range limits");
  int dof = 1 + sym::choose("dof", maxdof), layout = sym::choose("layout", 3), which = sym::choose("which", 2);
  hu::Traj t = hu::traj("x", 2, dof, layout);
  if (sym::flag("target"))
  {
    Args a = args(dof, true, false);
    Eigen::VectorXd target(dof);
    for (int i = 0; i < dof; ++i)
      target(i) = a.lo[i];
    JointPosConstraint c(target, t.pos[which], a.coeffs, "p");
    c.linkWithVariables(t.vars);
    std::vector<std::vector<double>> st(1, std::vector<double>(2, 0.0));
    st[0][which] = 1;
    checkDiffRows(c, t, a, dof, 1, st, "target");
    checkLinearExact(c, t, "target");
    return;
  }
  bool split = sym::flag("split");
  Args a = args(dof, false, true);
  JointPosConstraint c(a.b, t.pos[which], a.coeffs, "p", split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
  c.linkWithVariables(t.vars);
  const Eigen::VectorXd g = c.getValues(), co = c.getCoefficients();
  const std::vector<Bounds> b = c.getBounds();
  sym::check(g.size() == c.getRows() && co.size() == c.getRows() && static_cast<int>(b.size()) == c.getRows(), "bounds:rows");
  // in either representation: the rows of joint i admit exactly [lo_i, hi_i], in order
  int r = 0;
  for (int i = 0; i < dof; ++i)
  {
    bool range = a.lo[i] > -1e20 && a.lo[i] != a.hi[i];
    int n = split && range ? 2 : 1;
    for (int k = 0; k < n; ++k, ++r)
    {
      if (r >= c.getRows())
      {
        sym::fail("bounds:row-missing");
        return;
      }
      sym::check_eq(g(r), t.x(t.col[which] + i), "bounds:value");
      sym::check_eq(co(r), a.full(i), "bounds:coefficient");
      sym::check_eq(b[r].getLower(), n == 2 && k == 1 ? -INF : a.lo[i], "bounds:lower");
      sym::check_eq(b[r].getUpper(), n == 2 && k == 0 ? INF : a.hi[i], "bounds:upper");
    }
    if (n == 2)
      sym::cover("split-range");
  }
  sym::require_cover("split-range");
  sym::check(r == c.getRows(), "bounds:row-count");
  checkLinearExact(c, t, "bounds");
}

SYM_HARNESS(velocity)
{
  const int maxdof = 2, maxsteps = sym::thorough() ? 5 : 4;
  sym::bound("1..2 joints, 2.." + std::to_string(maxsteps) + " steps, every node layout");
  int dof = 1 + sym::choose("dof", maxdof), steps = 2 + sym::choose("steps", maxsteps - 1), layout = sym::choose("layout", 3);
  hu::Traj t = hu::traj("x", steps, dof, layout);
  Args a = args(dof, true, false);
  std::vector<std::vector<double>> st(steps - 1, std::vector<double>(steps, 0.0));
  for (int i = 0; i + 1 < steps; ++i)
  {
    st[i][i] = -1;
    st[i][i + 1] = 1;
  }
  Eigen::VectorXd tg(dof);
  for (int i = 0; i < dof; ++i)
    tg(i) = a.lo[i];
  auto c = std::make_unique<JointVelConstraint>(tg, t.pos, a.coeffs, "v");
  c->linkWithVariables(t.vars);
  checkDiffRows(*c, t, a, dof, steps - 1, st, "vel");
  checkLinearExact(*c, t, "vel");
}

SYM_HARNESS(acceleration)
{
  const int maxdof = 2, maxsteps = sym::thorough() ? 6 : 5;
  sym::bound("1..2 joints, 4.." + std::to_string(maxsteps) + " steps, every node layout");
  int dof = 1 + sym::choose("dof", maxdof), steps = 4 + sym::choose("steps", maxsteps - 3), layout = sym::choose("layout", 3);
  hu::Traj t = hu::traj("x", steps, dof, layout);
  Args a = args(dof, true, true);
  std::vector<std::vector<double>> st(steps, std::vector<double>(steps, 0.0));
  for (int i = 0; i < steps; ++i)
  {
    int s = i <= steps - 3 ? i : i - 2;
    st[i][s] += 1;
    st[i][s + 1] += -2;
    st[i][s + 2] += 1;
  }
  Eigen::VectorXd tg(dof);
  for (int i = 0; i < dof; ++i)
    tg(i) = a.lo[i];
  auto c = std::make_unique<JointAccelConstraint>(tg, t.pos, a.coeffs, "a");
  c->linkWithVariables(t.vars);
  checkDiffRows(*c, t, a, dof, steps, st, "acc");
  checkLinearExact(*c, t, "acc");
}

SYM_HARNESS(jerk)
{
  const int maxdof = 2, maxsteps = sym::thorough() ? 8 : 7;
  sym::bound("1..2 joints, 6.." + std::to_string(maxsteps) + " steps, every node layout");
  int dof = 1 + sym::choose("dof", maxdof), steps = 6 + sym::choose("steps", maxsteps - 5), layout = sym::choose("layout", 3);
  hu::Traj t = hu::traj("x", steps, dof, layout);
  Args a = args(dof, true, true);
  std::vector<std::vector<double>> st(steps, std::vector<double>(steps, 0.0));
  for (int i = 0; i < steps; ++i)
  {
    int s = i <= steps - 4 ? i : i - 3;
    st[i][s] += -1;
    st[i][s + 1] += 3;
    st[i][s + 2] += -3;
    st[i][s + 3] += 1;
  }
  Eigen::VectorXd tg(dof);
  for (int i = 0; i < dof; ++i)
    tg(i) = a.lo[i];
  auto c = std::make_unique<JointJerkConstraint>(tg, t.pos, a.coeffs, "j");
  c->linkWithVariables(t.vars);
  checkDiffRows(*c, t, a, dof, steps, st, "jerk");
  checkLinearExact(*c, t, "jerk");
}

SYM_HARNESS(rejects)
{
  sym::bound("2 joints; coefficient vectors of length 0..3 with one entry of any sign; too few steps");
  const int dof = 2;
  int cls = sym::choose("class", 4), len = sym::choose("len", 4), bad = sym::choose("sign", 2), few = sym::flag("few");
  const int minsteps[4] = { 1, 2, 4, 6 };
  int steps = few ? minsteps[cls] - 1 : minsteps[cls];
  if (steps == 0)
    sym::stop();
  hu::Traj t = hu::traj("x", steps, dof, 0);
  Eigen::VectorXd co(len);
  for (int i = 0; i < len; ++i)
    co(i) = sym::real_in("c" + std::to_string(i), 1e-3, 10);
  if (bad)
  {
    if (len == 0)
      sym::stop();
    co(len - 1) = sym::real_in("bad", -10, 0);
  }
  std::vector<Bounds> b(dof, Bounds(-1, 1));
  Eigen::VectorXd tg = Eigen::VectorXd::Zero(dof);
  bool target = cls != 0 || sym::flag("target");
  // an empty coefficient vector means the default, except for position targets where one is required
  bool expect = few || bad || len == 3 || (cls == 0 && target && len == 0);
  bool threw = false;
  try
  {
    switch (cls)
    {
      case 0:
        if (target)
          JointPosConstraint(tg, t.pos[0], co);
        else
          JointPosConstraint(b, t.pos[0], co);
        break;
      case 1:
        JointVelConstraint(tg, t.pos, co);
        break;
      case 2:
        JointAccelConstraint(tg, t.pos, co);
        break;
      default:
        JointJerkConstraint(tg, t.pos, co);
    }
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  sym::check(threw == expect, "rejection");
  sym::cover(threw ? "rejected" : "accepted");
  sym::require_cover("rejected");
  sym::require_cover("accepted");
}
