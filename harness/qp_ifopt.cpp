// QP subproblem builder on top of the generic problem container.
// @unit trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/composite.cpp
// @unit trajopt_ifopt/src/core/problem.cpp
// @unit trajopt_ifopt/src/core/cost_term.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/costs/squared_cost.cpp
// @unit trajopt_ifopt/src/costs/absolute_cost.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
#include "qp.h"
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_ifopt/core/problem.h>
using namespace trajopt_sqp;
using hu::Comp;

namespace
{
struct World
{
  hu::Traj t;
  std::vector<Comp> comps;
  std::unique_ptr<IfoptQPProblem> p;
  int nc{ 0 }, nk{ 0 };  // cost terms, constraint rows
};
void add(World& w, const Comp& c)
{
  if (c.kind == hu::CONSTRAINT)
    w.p->addConstraintSet(c.f);
  else
    w.p->addCostSet(c.f, c.kind == hu::SQUARED  ? CostPenaltyType::kSquared :
                         c.kind == hu::HINGE    ? CostPenaltyType::kHinge :
                                                  CostPenaltyType::kAbsolute);
}
World build(std::vector<Comp> comps, hu::Traj t)
{
  World w;
  w.t = std::move(t);
  w.p = std::make_unique<IfoptQPProblem>(w.t.vars);
  for (const auto& c : comps)
  {
    add(w, c);
    if (c.kind == hu::CONSTRAINT)
      w.nk += c.rows();
    else
      ++w.nc;
  }
  w.comps = std::move(comps);
  return w;
}

void check_qp(const World& w, const Eigen::VectorXd& x, const Eigen::VectorXd& merit, bool small = false)
{
  const int n = static_cast<int>(x.size());
  const IfoptQPProblem& p = *w.p;
  int rows = 0, slacks = 0;
  for (const auto& c : w.comps)
    if (c.kind == hu::CONSTRAINT)
      for (const auto& b : c.f->b)
      {
        ++rows;
        slacks += (b.getLower() > -hu::INF && b.getUpper() < hu::INF) ? 2 : 1;
      }
  const Eigen::MatrixXd A = p.getConstraintMatrix(), H = p.getHessian();
  const Eigen::VectorXd q = p.getGradient(), l = p.getBoundsLower(), u = p.getBoundsUpper();
  bool dims = p.getNumQPVars() == n + slacks && p.getNumQPConstraints() == rows + n + slacks && A.rows() == rows + n + slacks && A.cols() == n + slacks &&
              H.rows() == n + slacks && H.cols() == n + slacks && q.size() == n + slacks && l.size() == rows + n + slacks && u.size() == rows + n + slacks;
  sym::check(dims, "dimensions");
  if (!dims)
    return;
  Eigen::MatrixXd Hs = Eigen::MatrixXd::Zero(n + slacks, n + slacks);
  Eigen::VectorXd qs = Eigen::VectorXd::Zero(n + slacks);
  for (const auto& c : w.comps)
    if (c.kind == hu::SQUARED)
      for (int i = 0; i < c.rows(); ++i)
        for (int a = 0; a < n; ++a)
        {
          qs(a) -= 2 * c.f->w(i) * (c.f->b[static_cast<std::size_t>(i)].getLower() - c.f->c(i)) * c.f->A(i, a);
          for (int b = 0; b < n; ++b)
            Hs(a, b) += c.f->w(i) * c.f->A(i, a) * c.f->A(i, b);
        }
  for (int a = 0; a < n + slacks; ++a)
    for (int b = 0; b < n + slacks; ++b)
      sym::check_near(H(a, b), Hs(a, b), 1e-7, "hessian");
  for (int a = 0; a < n; ++a)
    sym::check_eq(q(a), qs(a), "gradient");
  int r = 0, s = n;
  for (const auto& c : w.comps)
  {
    if (c.kind != hu::CONSTRAINT)
      continue;
    for (int i = 0; i < c.rows(); ++i, ++r)
    {
      const auto& b = c.f->b[static_cast<std::size_t>(i)];
      bool lo = b.getLower() > -hu::INF, up = b.getUpper() < hu::INF;
      for (int j = 0; j < n; ++j)
        sym::check_near(A(r, j), c.f->A(i, j), 1e-7, "linearisation");
      int first = s;
      if (lo)
        sym::check_eq(A(r, s++), 1.0, "slack");
      if (up)
        sym::check_eq(A(r, s++), -1.0, "slack");
      for (int j = n; j < n + slacks; ++j)
        if (j < first || j >= s)
          sym::check_eq(A(r, j), 0.0, "slack");
      for (int j = first; j < s; ++j)
        sym::check_eq(q(j), merit(r), "slack-weight");
      // entries below 1e-7 may be left out of the row but not of its limits: for |x| <= 10 they make up 1e-6
      if (small)
      {
        if (b.getLower() > -hu::INF)
          sym::check_near(l(r), b.getLower() - c.f->c(i), 1e-5, "row-lower");
        if (b.getUpper() < hu::INF)
          sym::check_near(u(r), b.getUpper() - c.f->c(i), 1e-5, "row-upper");
        continue;
      }
      sym::check_eq(l(r), b.getLower() - c.f->c(i), "row-lower");
      sym::check_eq(u(r), b.getUpper() - c.f->c(i), "row-upper");
    }
  }
  for (int i = 0; i < n + slacks; ++i)
    for (int j = 0; j < n + slacks; ++j)
      sym::check_eq(A(rows + i, j), i == j ? 1.0 : 0.0, "variable-rows");
  for (int i = n; i < n + slacks; ++i)
  {
    sym::check_eq(l(rows + i), 0.0, "slack-limits");
    sym::check_eq(u(rows + i), hu::INF, "slack-limits");
  }
}

std::vector<Comp> scenario(int s, int n)
{
  using namespace hu;
  switch (s)
  {
    case 0: return { comp("s0", SQUARED, false, 1, n, 0, "e"), comp("k0", CONSTRAINT, false, 2, n, 1, "ue") };
    case 1: return { comp("k0", CONSTRAINT, false, 1, n, 1, "l"), comp("k1", CONSTRAINT, false, 2, n, 0, "eu"), comp("s0", SQUARED, false, 1, n, 0, "e") };
    case 2: return { comp("s0", SQUARED, false, 1, n, 0, "e"), comp("s1", SQUARED, false, 1, n, 1, "e") };
    case 3: return { comp("k0", CONSTRAINT, false, 1, n, 0, "e"), comp("k1", CONSTRAINT, false, 1, n, 1, "l") };
    case 4: return { comp("k0", CONSTRAINT, false, 1, n, 1, "u"), comp("k1", CONSTRAINT, false, 2, n, 0, "le"), comp("k2", CONSTRAINT, false, 1, n, 0, "e"), comp("k3", CONSTRAINT, false, 1, n, 1, "l") };
    case 5: return { only(comp("s0", SQUARED, false, 1, n, 0, "e"), { 2 }), only(comp("s1", SQUARED, false, 1, n, 1, "e"), { 0 }), only(comp("k0", CONSTRAINT, false, 3, n, 0, "ule"), { 0, 2, 1 }) };
    case 6: return { only(comp("s0", SQUARED, false, 1, n, 0, "e"), { 0 }), only(comp("s1", SQUARED, false, 1, n, 1, "e"), { 1 }), comp("s2", SQUARED, false, 1, n, 1, "e") };
    case 7: return { wide(comp("s0", SQUARED, false, 1, n, 0, "e")), wide(comp("k0", CONSTRAINT, false, 1, n, 1, "u")) };
    default: return {};
  }
}
const int NSCEN = 9;
}  // namespace

SYM_HARNESS(structure)
{
  const int n = sym::thorough() ? 3 : 2;
  sym::bound(std::to_string(n) + " variables; 9 problem shapes with up to 4 static components of 1..3 rows, dense, of one variable or constant; Jacobian entries 1e-3 <= |a| <= 100 (one of any size in some shapes), weights 0..100 (0.5..100 where several squared costs add up); optional second set-up and second linearisation");
  auto t = hu::traj("x", 1, n, 0);
  const int s = sym::choose("shape", NSCEN);
  hu::least_weight = s < 2 ? 0 : 0.5;
  World w = build(scenario(s, n), t);
  w.p->setup();
  if (sym::flag("setup-twice"))
    w.p->setup();
  sym::check(w.p->getNumNLPVars() == n && w.p->getNumNLPConstraints() == w.nk && w.p->getNumNLPCosts() == w.nc, "counts");
  sym::check(int(w.p->getNLPConstraintNames().size()) == w.nk, "constraint-names");
  sym::check(int(w.p->getNLPCostNames().size()) == w.nc, "cost-names");
  Eigen::VectorXd merit = Eigen::VectorXd::Constant(w.nk, 10.0), x = t.x;
  if (sym::flag("set-merit"))
  {
    merit = hu::vec_in("m", w.nk, 0, 1000);
    w.p->setConstraintMeritCoeff(merit);
  }
  w.p->convexify();
  if (s == 7)
    sym::assume(x(0) >= -10 && x(0) <= 10);
  else if (s != 2 && s != 6 && sym::flag("again"))
  {
    x = hu::vec("y", n);
    for (auto& c : w.comps)
      hu::refresh(*c.f, c.f->getName() + "b", 1);
    w.p->setVariables(x.data());
    w.p->convexify();
  }
  check_qp(w, x, merit, s == 7);
  sym::cover("built");
  sym::require_cover("built");
}

SYM_HARNESS(evaluate)
{
  const int n = 2;
  sym::bound("2 variables; up to 2 squared costs with equality limits and up to 3 constraint rows; model evaluated at any point with any slack values, exact values at any point");
  hu::least_weight = 0;
  using namespace hu;
  int s = sym::choose("shape", 4);
  std::vector<Comp> cs;
  switch (s)
  {
    case 0: cs = { comp("a", SQUARED, false, 2, n, 0, "e") }; break;
    case 1: cs = { comp("a", SQUARED, false, 1, n, 0, "e"), comp("b", SQUARED, false, 1, n, 1, "e") }; break;
    case 2: cs = { comp("a", CONSTRAINT, false, 2, n, 0, "eu") }; break;
    case 3: cs = { comp("b", CONSTRAINT, false, 1, n, 0, "l"), comp("c", CONSTRAINT, false, 1, n, 1, "u"), comp("a", SQUARED, false, 1, n, 0, "e") }; break;
  }
  auto t = hu::traj("x", 1, n, 0);
  World w = build(cs, t);
  w.p->setup();
  w.p->setConstraintMeritCoeff(hu::vec_in("m", w.nk, 0, 1000));
  w.p->convexify();
  if (sym::flag("again"))
  {
    for (auto& c : w.comps)
      hu::refresh(*c.f, c.f->getName() + "b", 1);
    Eigen::VectorXd y = hu::vec("y", n);
    w.p->setVariables(y.data());
    w.p->convexify();
  }
  bool exact = sym::flag("exact");
  Eigen::VectorXd z = hu::vec("z", n), costs, viol;
  double total;
  if (exact)
  {
    w.p->setVariables(z.data());
    for (Eigen::Index i = 0; i < n; ++i)
      sym::check_eq(w.p->getVariableValues()(i), z(i), "variables");
    costs = w.p->getExactCosts();
    viol = w.p->getExactConstraintViolations();
    total = w.p->getTotalExactCost();
  }
  else
  {
    Eigen::VectorXd full(w.p->getNumQPVars());
    full << z, hu::vec_in("slack", full.size() - n, 0, 1e6);
    costs = w.p->evaluateConvexCosts(full);
    viol = w.p->evaluateConvexConstraintViolations(full);
    total = w.p->evaluateTotalConvexCost(full);
  }
  sym::check(costs.size() == w.nc && viol.size() == w.nk, "sizes");
  if (costs.size() != w.nc || viol.size() != w.nk)
    return;
  int a = 0, k = 0;
  double sum = 0;
  for (const auto& c : w.comps)
  {
    double v = 0;
    for (int i = 0; i < c.rows(); ++i)
    {
      const auto& b = c.f->b[static_cast<std::size_t>(i)];
      double g = value(*c.f, i, z);
      if (c.kind == CONSTRAINT)
        sym::check_eq(viol(k++), dist(g, b.getLower(), b.getUpper()), exact ? "exact-violation" : "model-violation");
      else
        v += c.f->w(i) * (g - b.getLower()) * (g - b.getLower());
    }
    if (c.kind != CONSTRAINT)
    {
      sum += v;
      sym::check_eq(costs(a++), v, exact ? "exact-cost" : "model-cost");
    }
  }
  sym::check_eq(total, sum, exact ? "exact-total" : "model-total");
  sym::cover(exact ? "exact" : "model");
  sym::require_cover("exact");
  sym::require_cover("model");
}

SYM_HARNESS(touch)
{
  // whatever the cost: the model touches the exact cost and has its slope at the linearisation point
  const int n = 1;
  sym::bound("one squared or absolute cost with one row of any limit kind over one variable, or one cost already in the problem; model and exact cost compared at the linearisation point and in slope");
  using namespace hu;
  int kind = sym::choose("kind", 3);
  int ty = sym::choose("limit", 3);
  Comp c = comp("c", kind == 0 ? SQUARED : ABSOLUTE, false, 1, n, 0, ty == 0 ? "e" : ty == 1 ? "l" : "u");
  auto t = hu::traj("x", 1, n, 0);
  World w;
  if (kind == 2)
  {
    auto nlp = std::make_shared<trajopt_ifopt::Problem>(t.vars);
    struct Lin : trajopt_ifopt::CostTerm
    {
      double s;
      Lin(double s_) : CostTerm("lin"), s(s_) { non_zeros_ = 1; }
      int update() override { return rows_; }
      Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(1); }
      double getCost() const override { return s * variables_->getValues()(0); }
      trajopt_ifopt::Jacobian getJacobian() const override
      {
        trajopt_ifopt::Jacobian J(1, 1);
        J.insert(0, 0) = s;
        return J;
      }
    };
    double s = entry("s", 0);
    nlp->addCostSet(std::make_shared<Lin>(s));
    w.p = std::make_unique<IfoptQPProblem>(nlp);
    bool mixed = ty == 0;  // a squared cost behind the existing one
    if (mixed)
      w.p->addCostSet(c.f, CostPenaltyType::kSquared);
    w.p->setup();
    w.p->convexify();
    Eigen::VectorXd z = t.x, zp = z, zm = z;
    double g = value(*c.f, 0, t.x) - (mixed ? c.f->b[0].getLower() : 0), a = c.f->A(0, 0), wt = c.f->w(0);
    zp(0) += 1.0;
    zm(0) -= 1.0;
    sym::check_eq(w.p->evaluateTotalConvexCost(z), w.p->getTotalExactCost(), "existing-value");
    sym::check_eq(w.p->evaluateTotalConvexCost(zp) - w.p->evaluateTotalConvexCost(zm), 2 * (s + (mixed ? 2 * wt * a * g : 0.0)), "existing-slope");
    sym::check_eq(w.p->evaluateConvexCosts(zp)(0) - w.p->evaluateConvexCosts(z)(0), s, "existing-slope");
    sym::check_eq(w.p->getGradient()(0) + 2 * w.p->getHessian().coeff(0, 0) * t.x(0), s + (mixed ? 2 * wt * a * g : 0.0), "existing-gradient");
    return;
  }
  w = build({ c }, t);
  w.p->setup();
  w.p->convexify();
  Eigen::VectorXd z = t.x;
  double e0 = w.p->getTotalExactCost(), m0 = w.p->evaluateTotalConvexCost(z);
  sym::check_eq(m0, e0, kind ? "absolute-value" : "squared-value");
  // slope by the symmetric difference of the model, which is exact for quadratics
  double g = value(*c.f, 0, t.x), lo = c.f->b[0].getLower(), up = c.f->b[0].getUpper(), a = c.f->A(0, 0), wt = c.f->w(0);
  double slope;
  if (kind == 0)
    slope = 2 * wt * a * (g < lo ? g - lo : g > up ? g - up : 0.0);
  else
  {
    if (g < lo)
    {
      sym::assume_le(g, lo - 1e-3);
      slope = -wt * a;
    }
    else if (g > up)
    {
      sym::assume_le(up + 1e-3, g);
      slope = wt * a;
    }
    else
      return;
  }
  Eigen::VectorXd zp = z, zm = z;
  zp(0) += 1.0;
  zm(0) -= 1.0;
  sym::check_eq(w.p->evaluateTotalConvexCost(zp) - w.p->evaluateTotalConvexCost(zm), 2 * slope, kind ? "absolute-slope" : "squared-slope");
  sym::cover("touched");
  sym::require_cover("touched");
}

SYM_HARNESS(box)
{
  const int n = 2;
  sym::bound("2 variables with lower, upper, both or no limits, any current point (inside or outside), up to 2 box changes");
  using namespace hu;
  auto t = hu::traj("x", 1, n, 0);
  int ty = sym::choose("limits", 4);
  double lb0 = ty & 1 ? sym::real_in("lb", -1e3, 1e3) : -INF, ub0 = ty & 2 ? sym::real_in("ub", -1e3, 1e3) : INF;
  if (ty == 3)
    sym::assume_lt(lb0, ub0);
  std::vector<std::unique_ptr<trajopt_ifopt::Node>> nodes;
  auto node = std::make_unique<trajopt_ifopt::Node>("n");
  node->addVar("p", { "a", "b" }, Eigen::VectorXd::Zero(n), { trajopt_ifopt::Bounds(lb0, ub0), trajopt_ifopt::NoBound });
  nodes.push_back(std::move(node));
  t.vars = std::make_shared<trajopt_ifopt::NodesVariables>("t", std::move(nodes));
  World w = build({ comp("k0", CONSTRAINT, false, 1, n, 1, "u"), comp("k", CONSTRAINT, false, 1, n, 0, "l") }, t);
  w.p->setup();
  Eigen::VectorXd x = hu::vec("x", n);
  w.p->setVariables(x.data());
  w.p->convexify();
  Eigen::VectorXd box = Eigen::VectorXd::Constant(n, 0.1);
  auto verify = [&] {
    for (int i = 0; i < n; ++i)
    {
      sym::check_eq(w.p->getBoxSize()(i), box(i), "box-size");
      double lb = i ? -INF : lb0, ub = i ? INF : ub0;
      double c = x(i) < lb ? lb : (x(i) > ub ? ub : x(i));
      double lo = c - box(i) < lb ? lb : c - box(i), up = c + box(i) > ub ? ub : c + box(i);
      double L = w.p->getBoundsLower()(2 + i), U = w.p->getBoundsUpper()(2 + i);
      sym::check_eq(L, lo, "lower");
      sym::check_eq(U, up, "upper");
      sym::check_le(L, U, "nonempty");
    }
  };
  verify();
  int op = sym::choose("op", 3);
  if (op & 1)
  {
    box = hu::vec_in("b", n, 0, 1e3);
    w.p->setBoxSize(box);
    verify();
  }
  if (op & 2)
  {
    double sc = sym::real_in("sc", 0, 10);
    w.p->scaleBoxSize(sc);
    box(0) = box(0) * sc, box(1) = box(1) * sc;
    verify();
  }
  if (op == 1)
  {
    x = hu::vec("y", n);
    w.p->setVariables(x.data());
    w.p->convexify();
    verify();
    check_qp(w, x, Eigen::VectorXd::Constant(2, 10.0));
  }
  sym::cover("boxed");
  sym::require_cover("boxed");
}

SYM_HARNESS(rejects)
{
  const int n = 1;
  sym::bound("one component with 2 rows, any penalty kind or constraint, static or dynamic, any limit kind for constraints");
  using namespace hu;
  auto t = hu::traj("x", 1, n, 0);
  int kind = sym::choose("kind", 4), ty = sym::choose("type", 5), pos = sym::choose("pos", 2);
  bool dyn = sym::flag("dynamic");
  Comp c = comp("c", Kind(kind), dyn, 2, n, 0, kind == HINGE ? "l" : "e");
  double a = sym::real_in("lo", -1e3, 1e3), b = sym::real_in("up", -1e3, 1e3);
  sym::assume_le(a + 1e-3, b);
  if (kind == CONSTRAINT)
    c.f->b[static_cast<std::size_t>(pos)] = ty == 0 ? trajopt_ifopt::Bounds(a, a) : ty == 1 ? trajopt_ifopt::Bounds(-INF, b) : ty == 2 ? trajopt_ifopt::Bounds(a, INF) : ty == 3 ? trajopt_ifopt::Bounds(a, b) : trajopt_ifopt::NoBound;
  bool ok = !dyn && (kind == CONSTRAINT ? ty < 3 : kind != HINGE);
  World w;
  w.p = std::make_unique<IfoptQPProblem>(t.vars);
  bool threw = false;
  try
  {
    add(w, c);
    w.p->setup();
    w.p->convexify();
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  sym::check(threw == !ok, ok ? "accepted" : "rejected");
  sym::cover(threw ? "threw" : "accepted");
  sym::require_cover("threw");
  sym::require_cover("accepted");
}
