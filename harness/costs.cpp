// Squared / absolute costs built from constraints; composite stacking; whole-problem evaluation; numeric differentiation.
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/composite.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/core/cost_term.cpp
// @unit trajopt_ifopt/src/core/problem.cpp
// @unit trajopt_ifopt/src/costs/squared_cost.cpp
// @unit trajopt_ifopt/src/costs/absolute_cost.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_ifopt/src/utils/numeric_differentiation.cpp
#include "nodes.h"
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/utils/numeric_differentiation.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
using namespace trajopt_ifopt;
using hu::INF;

namespace
{
struct Lim
{
  std::vector<Bounds> b;
  Eigen::VectorXd lo, hi;
};
Lim limits(const std::string& nm, int n, int kinds = 4)
{
  Lim l;
  l.lo.resize(n);
  l.hi.resize(n);
  for (int i = 0; i < n; ++i)
  {
    std::string s = nm + std::to_string(i);
    switch (sym::choose(s + ".kind", kinds))
    {
      case 0:
        l.lo(i) = sym::real_in(s + ".lo", -1e3, 1e3);
        l.hi(i) = l.lo(i);
        break;
      case 1:
        l.lo(i) = sym::real_in(s + ".lo", -1e3, 1e3);
        l.hi(i) = l.lo(i) + sym::real_in(s + ".w", 0.01, 1e3);
        break;
      case 2:
        l.lo(i) = -INF;
        l.hi(i) = sym::real_in(s + ".hi", -1e3, 1e3);
        break;
      default:
        l.lo(i) = sym::real_in(s + ".lo", -1e3, 1e3);
        l.hi(i) = INF;
    }
    l.b.emplace_back(l.lo(i), l.hi(i));
  }
  return l;
}
// signed distance to the interval: negative below, positive above
double err(double g, double lo, double hi) { return g < lo ? g - lo : (g > hi ? g - hi : 0.0); }
}  // namespace

SYM_HARNESS(squared)
{
  sym::bound("1..2 constraint rows, 2 variables, any affine constraint, any limits, any weights (or none)");
  int m = 1 + sym::choose("m", 2);
  const int n = 2;
  Lim l = limits("b", m);
  Eigen::MatrixXd A(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      A(i, j) = sym::real("A" + std::to_string(i) + std::to_string(j));
  Eigen::VectorXd c = hu::vec("c", m);
  hu::Traj t = hu::traj("x", 1, n, 0);
  auto cnt = std::make_shared<hu::AffineCnt>("aff", A, c, Eigen::VectorXd::Ones(m), l.b);
  bool weighted = sym::flag("weighted");
  Eigen::VectorXd w = weighted ? hu::vec("w", m) : Eigen::VectorXd(Eigen::VectorXd::Ones(m));
  cnt->linkWithVariables(t.vars);
  std::shared_ptr<SquaredCost> cost = weighted ? std::make_shared<SquaredCost>(cnt, w) : std::make_shared<SquaredCost>(cnt);
  cost->linkWithVariables(t.vars);
  const double got = cost->getCost();
  const Jacobian J = cost->getJacobian();
  sym::check(cost->getRows() == 1 && J.rows() == 1 && J.cols() == n, "dims");
  const Eigen::VectorXd g = cnt->getValues();
  double s = 0;
  Eigen::VectorXd grad = Eigen::VectorXd::Zero(n);
  for (int i = 0; i < m; ++i)
  {
    double e = err(g(i), l.lo(i), l.hi(i)), a = w(i) < 0 ? -w(i) : w(i);
    s += a * e * e;
    for (int j = 0; j < n; ++j)
      grad(j) += 2 * a * e * A(i, j);
  }
  sym::check_eq(got, s, "value");
  sym::check_eq(cost->getValues()(0), s, "values");
  Eigen::MatrixXd D(J);
  for (int j = 0; j < n; ++j)
    sym::check_eq(D(0, j), grad(j), "gradient");
  sym::check(cost->getNonZeros() >= 0, "nonzeros");
}

SYM_HARNESS(absolute)
{
  sym::bound("1..2 constraint rows, 2 variables, any affine constraint, any limits, any weights; gradient outside the 1e-12 dead zone");
  int m = 1 + sym::choose("m", 2);
  const int n = 2;
  Lim l = limits("b", m);
  Eigen::MatrixXd A(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      A(i, j) = sym::real_in("A" + std::to_string(i) + std::to_string(j), -1e3, 1e3);
  Eigen::VectorXd c = hu::vec("c", m);
  hu::Traj t = hu::traj("x", 1, n, 0);
  auto cnt = std::make_shared<hu::AffineCnt>("aff", A, c, Eigen::VectorXd::Ones(m), l.b);
  bool weighted = sym::flag("weighted");
  Eigen::VectorXd w = weighted ? hu::vec_in("w", m, -100, 100) : Eigen::VectorXd(Eigen::VectorXd::Ones(m));
  cnt->linkWithVariables(t.vars);
  std::shared_ptr<AbsoluteCost> cost = weighted ? std::make_shared<AbsoluteCost>(cnt, w) : std::make_shared<AbsoluteCost>(cnt);
  cost->linkWithVariables(t.vars);
  const double got = cost->getCost();
  const Eigen::VectorXd g = cnt->getValues();
  double s = 0;
  Eigen::VectorXd grad = Eigen::VectorXd::Zero(n);
  bool dead = false;
  for (int i = 0; i < m; ++i)
  {
    double e = err(g(i), l.lo(i), l.hi(i)), a = w(i) < 0 ? -w(i) : w(i);
    s += a * (e < 0 ? -e : e);
    if (e > 1e-9 || e < -1e-9)
      for (int j = 0; j < n; ++j)
        grad(j) += (e > 0 ? a : -a) * A(i, j);
    else if (e != 0.0)
      dead = true;
  }
  sym::check_eq(got, s, "value");
  if (dead)
    return;
  const Jacobian J = cost->getJacobian();
  sym::check(J.rows() == 1 && J.cols() == n, "dims");
  Eigen::MatrixXd D(J);
  for (int j = 0; j < n; ++j)
    sym::check_near(D(0, j), grad(j), 1e-9, "gradient");
  sym::cover("gradient");
  sym::require_cover("gradient");
}

namespace
{
std::shared_ptr<hu::AffineCnt> anyAffine(const std::string& nm, int m, int n, bool dyn = false)
{
  Eigen::MatrixXd A(m, n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      A(i, j) = sym::real(nm + ".A" + std::to_string(i) + std::to_string(j));
  std::vector<Bounds> b;
  for (int i = 0; i < m; ++i)
    b.emplace_back(i - 0.5, i + 10.0 * static_cast<double>(nm.back() - '0'));
  Eigen::VectorXd c = hu::vec(nm + ".c", m), w = hu::vec(nm + ".w", m);
  return dyn ? std::make_shared<hu::AffineCnt>(nm, true, A, c, w, b) : std::make_shared<hu::AffineCnt>(nm, A, c, w, b);
}
}  // namespace

namespace
{
// a branch-free user cost: c + sum A_j x_j + B_j x_j^2
struct PolyCost : CostTerm
{
  Eigen::VectorXd A, B;
  double c;
  PolyCost(const std::string& nm, int n) : CostTerm(nm), A(hu::vec(nm + ".A", n)), B(hu::vec(nm + ".B", n)), c(sym::real(nm + ".c")) { non_zeros_ = n; }
  int update() override { return rows_; }
  double getCost() const override
  {
    const Eigen::VectorXd x = variables_->getValues();
    double s = c;
    for (Eigen::Index j = 0; j < x.size(); ++j)
      s += A(j) * x(j) + B(j) * x(j) * x(j);
    return s;
  }
  double slope(const Eigen::VectorXd& x, Eigen::Index j) const { return A(j) + 2 * B(j) * x(j); }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(1); }
  Jacobian getJacobian() const override
  {
    const Eigen::VectorXd x = variables_->getValues();
    Jacobian J(1, x.size());
    for (Eigen::Index j = 0; j < x.size(); ++j)
      J.insert(0, j) = slope(x, j);
    J.makeCompressed();
    return J;
  }
};
}  // namespace

SYM_HARNESS(composite)
{
  sym::bound("1..3 components of 0..2 rows over 2 variables, stacked (static and dynamic); dynamic components change size once; up to one component without Jacobian entries");
  const int n = 2;
  int k = 1 + sym::choose("k", sym::thorough() ? 4 : 3);
  bool dyn = sym::flag("dynamic");
  hu::Traj t = hu::traj("x", 1, n, 0);
  CompositeDifferentiable comp("comp", n, Differentiable::Mode::kStackRows, dyn);
  std::vector<std::shared_ptr<hu::AffineCnt>> cs;
  const int without = sym::choose("without_entries", k + 1) - 1;
  for (int i = 0; i < k; ++i)
  {
    cs.push_back(anyAffine("c" + std::to_string(i), sym::choose("rows" + std::to_string(i), 3), n, dyn));
    if (i == without)
      cs.back()->A.setZero();  // no entry of its Jacobian is stored
    cs.back()->linkWithVariables(t.vars);
    comp.addComponent(cs.back());
  }
  if (dyn && sym::flag("grow"))
  {
    auto other = anyAffine("d7", 2, n, true);
    cs[0]->A = other->A;
    cs[0]->c = other->c;
    cs[0]->w = other->w;
    cs[0]->b = other->b;
  }
  int rows = comp.update();
  int want = 0, nz = 0;
  for (auto& c : cs)
  {
    want += static_cast<int>(c->A.rows());
    nz += static_cast<int>(c->A.size());
    sym::check(c->updates == 1, "component-updated");
  }
  sym::check(rows == want && comp.getRows() == want, "rows");
  if (dyn)
    sym::check(comp.getNonZeros() == nz, "nonzeros");
  const Eigen::VectorXd g = comp.getValues(), w = comp.getCoefficients();
  const std::vector<Bounds> b = comp.getBounds();
  const Eigen::MatrixXd J(comp.getJacobian());
  sym::check(g.size() == want && w.size() == want && static_cast<int>(b.size()) == want && J.rows() == want && J.cols() == n, "dims");
  int r = 0;
  for (auto& c : cs)
  {
    const Eigen::VectorXd gi = c->getValues();
    for (Eigen::Index i = 0; i < gi.size(); ++i, ++r)
    {
      sym::check_eq(g(r), gi(i), "value");
      sym::check_eq(w(r), c->w(i), "coefficient");
      sym::check(b[r].getLower() == c->b[i].getLower() && b[r].getUpper() == c->b[i].getUpper(), "bounds");
      for (int j = 0; j < n; ++j)
        sym::check_eq(J(r, j), c->A(i, j), "jacobian");
    }
  }
  comp.clearComponents();
  sym::check(comp.empty() && comp.getRows() == 0, "clear");
}

SYM_HARNESS(composite_sum)
{
  sym::bound("1..3 scalar components over 2 variables, summed");
  const int n = 2;
  int k = 1 + sym::choose("k", 3);
  hu::Traj t = hu::traj("x", 1, n, 0);
  CompositeDifferentiable comp("comp", n, Differentiable::Mode::kSumToScalar, false);
  std::vector<std::shared_ptr<hu::AffineCnt>> cs;
  double s = 0;
  Eigen::VectorXd grad = Eigen::VectorXd::Zero(n);
  const int without = sym::choose("without_entries", k + 1) - 1;
  for (int i = 0; i < k; ++i)
  {
    cs.push_back(anyAffine("c" + std::to_string(i), 1, n));
    if (i == without)
      cs.back()->A.setZero();
    cs.back()->linkWithVariables(t.vars);
    comp.addComponent(cs.back());
    s += cs.back()->getValues()(0);
    for (int j = 0; j < n; ++j)
      grad(j) += cs.back()->A(0, j);
  }
  const Eigen::VectorXd g = comp.getValues();
  const Eigen::MatrixXd J(comp.getJacobian());
  sym::check(g.size() > 0 && J.rows() > 0 && J.cols() == n, "dims");
  sym::check_eq(g.sum(), s, "value");
  for (int j = 0; j < n; ++j)
    sym::check_eq(J.col(j).sum(), grad(j), "gradient");
}

SYM_HARNESS(problem)
{
  sym::bound("0..3 costs (squared, absolute, user polynomial) over 2 variables, 0..2 constraint sets of 1..2 rows, one change of variables");
  const int n = 2;
  hu::Traj t = hu::traj("x", 1, n, 0);
  Problem p(t.vars);
  int nc = sym::choose("costs", 4), ng = sym::choose("cnts", 3);
  std::vector<std::shared_ptr<hu::AffineCnt>> cost_cnts, cnts;
  std::vector<int> kind;
  std::shared_ptr<PolyCost> poly;
  int rot = sym::choose("rot", 3);
  for (int i = 0; i < nc; ++i)
  {
    int kd = (i + rot) % 3;
    if (kd == 2)
    {
      poly = std::make_shared<PolyCost>("u" + std::to_string(i), n);
      p.addCostSet(poly);
      continue;
    }
    auto c = anyAffine("k" + std::to_string(i), 1, n);
    c->b[0] = Bounds(0.0, 0.0);
    c->linkWithVariables(t.vars);
    cost_cnts.push_back(c);
    kind.push_back(kd);
    if (kind.back())
      p.addCostSet(std::make_shared<AbsoluteCost>(c));
    else
      p.addCostSet(std::make_shared<SquaredCost>(c));
  }
  for (int i = 0; i < ng; ++i)
  {
    auto c = anyAffine("g" + std::to_string(i + 1), 1 + sym::choose("rows" + std::to_string(i), 2), n);
    if (i == 0 && ng > 1 && sym::flag("without_entries"))
      c->A.setZero();
    cnts.push_back(c);
    p.addConstraintSet(c);
  }
  const Eigen::VectorXd x = hu::vec("z", n);
  p.setVariables(x.data());
  const Eigen::VectorXd xv = p.getVariableValues();
  for (int j = 0; j < n; ++j)
    sym::check_eq(xv(j), x(j), "variables");
  sym::check(p.getNumberOfOptimizationVariables() == n && p.hasCostTerms() == (nc > 0), "counts");
  double s = 0;
  Eigen::VectorXd grad = Eigen::VectorXd::Zero(n);
  bool dead = false;
  if (poly)
  {
    s += poly->getCost();
    for (int j = 0; j < n; ++j)
      grad(j) += poly->slope(x, j);
  }
  for (std::size_t i = 0; i < cost_cnts.size(); ++i)
  {
    double g = cost_cnts[i]->getValues()(0);
    if (kind[i])
    {
      s += g < 0 ? -g : g;
      if (g > 1e-9 || g < -1e-9)
        for (int j = 0; j < n; ++j)
          grad(j) += (g < 0 ? -1.0 : 1.0) * cost_cnts[i]->A(0, j);
      else if (g != 0.0)
        dead = true;
    }
    else
    {
      s += g * g;
      for (int j = 0; j < n; ++j)
        grad(j) += 2 * g * cost_cnts[i]->A(0, j);
    }
  }
  sym::check_eq(p.evaluateCostFunction(), s, "cost-sum");
  if (!dead)
  {
    const Eigen::VectorXd gr = p.evaluateCostFunctionGradient();
    sym::check(gr.size() == n, "gradient-size");
    for (int j = 0; j < n; ++j)
      if (nc < 2)
        sym::check_eq(gr(j), grad(j), "gradient");
      else
        sym::check_eq(gr(j), grad(j), "gradient-sum");
  }
  const Eigen::VectorXd g = p.evaluateConstraints();
  const std::vector<Bounds> b = p.getBoundsOnConstraints();
  const Eigen::MatrixXd J(p.getJacobianOfConstraints());
  int r = 0;
  for (auto& c : cnts)
  {
    const Eigen::VectorXd gi = c->getValues();
    for (Eigen::Index i = 0; i < gi.size(); ++i, ++r)
    {
      if (r >= g.size())
      {
        sym::fail("constraint-missing");
        return;
      }
      sym::check_eq(g(r), gi(i), "constraint-value");
      sym::check(b[r].getLower() == c->b[i].getLower() && b[r].getUpper() == c->b[i].getUpper(), "constraint-bounds");
      for (int j = 0; j < n; ++j)
        sym::check_eq(J(r, j), c->A(i, j), "constraint-jacobian");
    }
  }
  sym::check(r == p.getNumberOfConstraints() && r == g.size() && J.rows() == r, "constraint-count");
}

SYM_HARNESS(problem_fd)
{
  sym::bound("finite-difference cost gradient of 0..3 quadratic costs over 2 variables, any step in [1e-6, 1]");
  const int n = 2;
  hu::Traj t = hu::traj("x", 1, n, 0);
  Problem p(t.vars);
  int nc = sym::choose("costs", 4);
  std::vector<std::shared_ptr<PolyCost>> cs;
  for (int i = 0; i < nc; ++i)
  {
    cs.push_back(std::make_shared<PolyCost>("u" + std::to_string(i), n));
    p.addCostSet(cs.back());
  }
  const Eigen::VectorXd x = hu::vec("z", n);
  p.setVariables(x.data());
  double h = sym::real_in("h", 1e-6, 1.0);
  const Eigen::VectorXd gr = p.evaluateCostFunctionGradient(true, h);
  // forward difference of A x + B x^2 : A + B (2x + h)
  for (int j = 0; j < n; ++j)
  {
    double d = 0;
    for (auto& c : cs)
      d += c->A(j) + c->B(j) * (2 * x(j) + h);
    sym::check_eq(gr(j) * h, d * h, "forward-difference");
  }
  const Eigen::VectorXd xv = p.getVariableValues();
  for (int j = 0; j < n; ++j)
    sym::check_eq(xv(j), x(j), "variables-restored");
}

SYM_HARNESS(history)
{
  sym::bound("up to 3 saved iterates, 2 variables, any saved iterate restored");
  const int n = 2;
  hu::Traj t = hu::traj("x", 1, n, 0);
  Problem p(t.vars);
  int k = 1 + sym::choose("k", 3);
  std::vector<Eigen::VectorXd> xs;
  for (int i = 0; i < k; ++i)
  {
    xs.push_back(hu::vec("s" + std::to_string(i) + "_", n));
    p.setVariables(xs.back().data());
    p.saveCurrent();
  }
  Eigen::VectorXd other = hu::vec("o", n);
  p.setVariables(other.data());
  sym::check(p.getIterationCount() == k, "count");
  int pick = sym::choose("pick", k + 1);
  if (pick == k)
    p.setOptVariablesFinal();
  else
    p.setOptVariables(pick);
  const Eigen::VectorXd got = p.getVariableValues();
  for (int j = 0; j < n; ++j)
    sym::check_eq(got(j), xs[pick == k ? k - 1 : pick](j), "restored");
  for (int j = 0; j < n; ++j)
    sym::check_eq(t.pos[0]->value()(j), got(j), "var-follows");
}

SYM_HARNESS(numjac)
{
  const int N = sym::thorough() ? 3 : 2;
  sym::bound("quadratic error functions of up to " + std::to_string(N) + " variables with 1..2 outputs, any step in [1e-6, 1]");
  int n = 1 + sym::choose("n", N), m = 1 + sym::choose("m", 2);
  Eigen::MatrixXd A(m, n), B(m, n);
  Eigen::VectorXd c = hu::vec("c", m), x = hu::vec("x", n);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
    {
      A(i, j) = sym::real("A" + std::to_string(i) + std::to_string(j));
      B(i, j) = sym::real("B" + std::to_string(i) + std::to_string(j));
    }
  double h = sym::real_in("h", 1e-6, 1.0);
  ErrorCalculator f = [&](const Eigen::Ref<const Eigen::VectorXd>& z) {
    Eigen::VectorXd y = c;
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j)
        y(i) += A(i, j) * z(j) + B(i, j) * z(j) * z(j);
    return y;
  };
  const Eigen::MatrixXd J(calcForwardNumJac(f, x, h));
  sym::check(J.rows() == m && J.cols() == n, "dims");
  // forward difference of A x + B x^2 : A + B (2x + h)
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      sym::check_eq(J(i, j) * h, (A(i, j) + B(i, j) * (2 * x(j) + h)) * h, "forward-difference");
}

SYM_HARNESS(numgrad)
{
  sym::bound("numerical gradients of 0..2 quadratic costs and of 0..2 affine constraint sets over 2 variables at any point other than the current one, any step in [1e-6, 1]");
  const int n = 2;
  hu::Traj t = hu::traj("x", 1, n, 0);
  Problem p(t.vars);
  int nc = sym::choose("costs", 3), ng = sym::choose("cnts", 3);
  std::vector<std::shared_ptr<PolyCost>> cs;
  for (int i = 0; i < nc; ++i)
  {
    cs.push_back(std::make_shared<PolyCost>("u" + std::to_string(i), n));
    p.addCostSet(cs.back());
  }
  std::vector<std::shared_ptr<hu::AffineCnt>> gs;
  for (int i = 0; i < ng; ++i)
  {
    gs.push_back(anyAffine("g" + std::to_string(i + 1), 1 + sym::choose("rows" + std::to_string(i), 2), n));
    p.addConstraintSet(gs.back());
  }
  const Eigen::VectorXd now = t.x, x = hu::vec("z", n);
  p.setVariables(now.data());
  double h = sym::real_in("h", 1e-6, 1.0);
  const Eigen::VectorXd gr = calcNumericalCostGradient(x.data(), p, h);
  sym::check(gr.size() == n, "gradient-size");
  for (int j = 0; j < n; ++j)
  {
    double d = 0;
    for (auto& c : cs)
      d += c->A(j) + c->B(j) * (2 * x(j) + h);
    sym::check_eq(gr(j) * h, d * h, "cost-difference");
    sym::check_eq(p.getVariableValues()(j), now(j), "variables-restored");
  }
  const Eigen::MatrixXd J(calcNumericalConstraintGradient(x.data(), p, h));
  int r = 0;
  for (auto& c : gs)
    for (Eigen::Index i = 0; i < c->A.rows(); ++i, ++r)
      for (int j = 0; j < n; ++j)
        if (r < J.rows())
          sym::check_eq(J(r, j) * h, c->A(i, j) * h, "constraint-difference");
  sym::check(J.rows() == r && J.cols() == n, "jacobian-size");
  for (int j = 0; j < n; ++j)
    sym::check_eq(p.getVariableValues()(j), now(j), "variables-restored");
}

namespace
{
// A constraint that, as the collision constraints do, evaluates its rows when it is told to update and reports what it
// found then.
struct UpdatedCnt : ConstraintSet
{
  Eigen::MatrixXd A, B;
  Eigen::VectorXd c, rows;
  int updates = 0;
  UpdatedCnt(int m, int n) : ConstraintSet("updated", m), A(m, n), B(m, n), c(hu::vec("c", m)), rows(m)
  {
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j)
      {
        A(i, j) = sym::real("A" + std::to_string(i) + std::to_string(j));
        B(i, j) = sym::real("B" + std::to_string(i) + std::to_string(j));
      }
    rows.setConstant(77);
    non_zeros_ = static_cast<Eigen::Index>(m) * n;
  }
  Eigen::VectorXd at(const Eigen::VectorXd& z) const
  {
    Eigen::VectorXd y = c;
    for (Eigen::Index i = 0; i < y.size(); ++i)
      for (Eigen::Index j = 0; j < z.size(); ++j)
        y(i) += A(i, j) * z(j) + B(i, j) * z(j) * z(j);
    return y;
  }
  int update() override
  {
    ++updates;
    rows = at(getVariables()->getValues());
    return rows_;
  }
  Eigen::VectorXd getValues() const override { return rows; }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(rows_); }
  std::vector<Bounds> getBounds() const override { return std::vector<Bounds>(static_cast<std::size_t>(rows_), BoundZero); }
  Jacobian getJacobian() const override { return Jacobian(rows_, static_cast<int>(A.cols())); }
};
}  // namespace

SYM_HARNESS(numgrad_set)
{
  sym::bound("numerical Jacobian of one constraint set with 1..2 quadratic rows that are evaluated by update(), over 2 nodes of 1..2 variables, at any values and any step in [1e-6, 1]");
  const int k = 1 + sym::choose("dof", 2), m = 1 + sym::choose("rows", 2), n = 2 * k;
  hu::Traj t = hu::traj("x", 2, k, 0);
  auto cnt = std::make_shared<UpdatedCnt>(m, n);
  cnt->linkWithVariables(t.vars);
  const Eigen::VectorXd x = t.vars->getValues();
  sym::check(x.size() == n, "variables");
  const double h = sym::real_in("h", 1e-6, 1.0);
  const Eigen::MatrixXd J(calcNumericalConstraintGradient(*t.vars, *cnt, h));
  sym::check(J.rows() == m && J.cols() == n, "jacobian-size");
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      sym::check_eq(J(i, j) * h, (cnt->A(i, j) + cnt->B(i, j) * (2 * x(j) + h)) * h, "constraint-difference");
  const Eigen::VectorXd now = t.vars->getValues(), want = cnt->at(x), have = cnt->getValues();
  for (int j = 0; j < n; ++j)
    sym::check_eq(now(j), x(j), "variables-restored");
  for (std::size_t i = 0; i < t.pos.size(); ++i)
    for (int j = 0; j < k; ++j)
      sym::check_eq(t.pos[i]->value()(j), x(static_cast<int>(i) * k + j), "nodes-restored");
  for (int i = 0; i < m; ++i)
    sym::check_eq(have(i), want(i), "constraint-restored");
}
