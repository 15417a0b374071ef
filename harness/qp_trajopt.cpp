// QP subproblem builder with slack variables (squared, hinge and absolute costs; static and dynamic components).
// @unit trajopt_optimizers/trajopt_sqp/src/expressions.cpp
// @unit trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
#include "qp.h"
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <algorithm>
using namespace trajopt_sqp;
using hu::Comp;

namespace
{
struct World
{
  hu::Traj t;
  std::vector<Comp> comps;  // in the documented order: squared, hinge, absolute, constraints; static before dynamic
  std::unique_ptr<TrajOptQPProblem> p;
  int nc{ 0 }, nk{ 0 };  // costs, constraints
};

void add(World& w, const Comp& c)
{
  if (c.kind == hu::CONSTRAINT)
    w.p->addConstraintSet(c.f);
  else
    w.p->addCostSet(c.f, c.kind == hu::SQUARED  ? CostPenaltyType::kSquared :
                         c.kind == hu::HINGE    ? CostPenaltyType::kHinge :
                                                  CostPenaltyType::kAbsolute);
}

/** builds the problem; components are added in reverse of the layout order */
World build(std::vector<Comp> comps, hu::Traj t)
{
  World w;
  w.t = std::move(t);
  w.p = std::make_unique<TrajOptQPProblem>(w.t.vars);
  for (auto it = comps.rbegin(); it != comps.rend(); ++it)
    add(w, *it);
  std::stable_sort(comps.begin(), comps.end(), [](const Comp& a, const Comp& b) {
    return std::make_pair(int(a.kind), int(a.dynamic)) < std::make_pair(int(b.kind), int(b.dynamic));
  });
  // equal keys were added in reverse
  for (std::size_t i = 0; i < comps.size();)
  {
    std::size_t j = i;
    while (j < comps.size() && comps[j].kind == comps[i].kind && comps[j].dynamic == comps[i].dynamic)
      ++j;
    std::reverse(comps.begin() + static_cast<long>(i), comps.begin() + static_cast<long>(j));
    i = j;
  }
  for (auto& c : comps)
    (c.kind == hu::CONSTRAINT ? w.nk : w.nc)++;
  w.comps = std::move(comps);
  return w;
}

/** compares the whole QP with its definition at the current point x */
void check_qp(const World& w, const Eigen::VectorXd& x, const Eigen::VectorXd& merit)
{
  const int n = static_cast<int>(x.size());
  const TrajOptQPProblem& p = *w.p;
  int rows = 0, slacks = 0;
  for (const auto& c : w.comps)
    if (c.kind != hu::SQUARED)
      for (const auto& b : c.f->b)
      {
        ++rows;
        slacks += (b.getLower() > -hu::INF && b.getUpper() < hu::INF) ? 2 : 1;
      }
  sym::check(p.getNumQPVars() == n + slacks, "qp-vars");
  sym::check(p.getNumQPConstraints() == rows + n + slacks, "qp-constraints");
  if (p.getNumQPVars() != n + slacks || p.getNumQPConstraints() != rows + n + slacks)
    return;
  const Eigen::MatrixXd A = p.getConstraintMatrix(), H = p.getHessian();
  const Eigen::VectorXd q = p.getGradient(), l = p.getBoundsLower(), u = p.getBoundsUpper();
  bool dims = A.rows() == rows + n + slacks && A.cols() == n + slacks && H.rows() == n + slacks && H.cols() == n + slacks &&
              q.size() == n + slacks && l.size() == rows + n + slacks && u.size() == rows + n + slacks;
  sym::check(dims, "dimensions");
  if (!dims)
    return;

  // objective: x'Hx + q'x equals sum w (t - g)^2 up to a constant, slack variables only enter linearly
  Eigen::MatrixXd Hs = Eigen::MatrixXd::Zero(n + slacks, n + slacks);
  Eigen::VectorXd qs = Eigen::VectorXd::Zero(n + slacks);
  for (const auto& c : w.comps)
    if (c.kind == hu::SQUARED)
      for (int i = 0; i < c.rows(); ++i)
        for (int a = 0; a < n; ++a)
        {
          qs(a) -= 2 * c.f->w(i) * (c.f->b[static_cast<std::size_t>(i)].getLower() - c.f->c(i)) * c.f->A(i, a);
          for (int b = 0; b < n; ++b)
            Hs(a, b) += c.f->w(i) * c.f->A(i, a) * c.f->A(i, b);
        }
  for (int a = 0; a < n + slacks; ++a)
    for (int b = 0; b < n + slacks; ++b)
      sym::check_near(H(a, b), Hs(a, b), 1e-7, "hessian");
  for (int a = 0; a < n; ++a)
    sym::check_eq(q(a), qs(a), "gradient");

  // rows
  int r = 0, s = n, k = 0;
  for (const auto& c : w.comps)
  {
    if (c.kind == hu::SQUARED)
      continue;
    double m = c.kind == hu::CONSTRAINT ? merit(k++) : 1.0;
    for (int i = 0; i < c.rows(); ++i, ++r)
    {
      const auto& b = c.f->b[static_cast<std::size_t>(i)];
      bool lo = b.getLower() > -hu::INF, up = b.getUpper() < hu::INF;
      for (int j = 0; j < n; ++j)
        sym::check_near(A(r, j), c.f->A(i, j), 1e-7, "linearisation");
      int first = s;
      if (lo)
        sym::check_eq(A(r, s++), 1.0, "slack");
      if (up)
        sym::check_eq(A(r, s++), -1.0, "slack");
      for (int j = n; j < n + slacks; ++j)
        if (j < first || j >= s)
          sym::check_eq(A(r, j), 0.0, "slack");
      for (int j = first; j < s; ++j)
        sym::check_eq(q(j), m * c.f->w(i), "slack-weight");
      // the row keeps A x + c (+ slack) inside the limits
      sym::check_eq(l(r), b.getLower() - c.f->c(i), "row-lower");
      sym::check_eq(u(r), b.getUpper() - c.f->c(i), "row-upper");
    }
  }
  for (int i = 0; i < n + slacks; ++i)
    for (int j = 0; j < n + slacks; ++j)
      sym::check_eq(A(rows + i, j), i == j ? 1.0 : 0.0, "variable-rows");
  for (int i = n; i < n + slacks; ++i)
  {
    sym::check_eq(l(rows + i), 0.0, "slack-limits");
    sym::check_eq(u(rows + i), hu::INF, "slack-limits");
  }
}

void names(const World& w)
{
  const auto& cn = w.p->getNLPCostNames();
  const auto& kn = w.p->getNLPConstraintNames();
  sym::check(w.p->getNumNLPCosts() == w.nc && int(cn.size()) == w.nc, "cost-count");
  sym::check(w.p->getNumNLPConstraints() == w.nk && int(kn.size()) == w.nk, "constraint-count");
  std::size_t a = 0, b = 0;
  for (const auto& c : w.comps)
  {
    if (c.kind == hu::CONSTRAINT)
      sym::check(b < kn.size() && kn[b++] == c.f->getName(), "constraint-name");
    else
      sym::check(a < cn.size() && cn[a++] == c.f->getName(), "cost-name");
  }
}

std::vector<Comp> scenario(int s, int n)
{
  using namespace hu;
  switch (s)
  {
    case 0: return { comp("s0", SQUARED, false, 1, n, 0, "e"), comp("k0", CONSTRAINT, false, 2, n, 1, "ue") };
    case 1: return { comp("k0", CONSTRAINT, true, 1, n, 1, "l"), comp("k1", CONSTRAINT, false, 1, n, 0, "u"), comp("h0", HINGE, false, 1, n, 0, "l") };
    case 2: return { comp("h0", HINGE, true, 1, n, 0, "u"), comp("a0", ABSOLUTE, false, 1, n, 1, "e"), comp("s0", SQUARED, true, 2, n, 0, "e"), comp("s1", SQUARED, false, 1, n, 1, "e") };
    case 3: return { comp("a0", ABSOLUTE, true, 2, n, 1, "e"), comp("a1", ABSOLUTE, false, 1, n, 0, "e"), comp("k0", CONSTRAINT, false, 1, n, 0, "e"), comp("k1", CONSTRAINT, false, 1, n, 1, "l") };
    case 4: return { comp("k0", CONSTRAINT, true, 0, n, 1, "l"), comp("k1", CONSTRAINT, true, 1, n, 0, "u"), comp("k2", CONSTRAINT, true, 0, n, 0, "u"), comp("s0", SQUARED, true, 0, n, 0, "e") };
    case 5: return {};
    case 6: return { comp("k0", CONSTRAINT, false, 1, n, 1, "u"), comp("k1", CONSTRAINT, false, 2, n, 0, "le"), comp("k2", CONSTRAINT, false, 1, n, 0, "e"), comp("k3", CONSTRAINT, true, 1, n, 1, "l") };
    case 7: return { only(comp("s0", SQUARED, false, 3, n, 0, "e"), { 2, 0, 1 }), only(comp("h0", HINGE, false, 2, n, 0, "lu"), { 0, 2 }), only(comp("a0", ABSOLUTE, true, 2, n, 1, "e"), { 1, 0 }), only(comp("k0", CONSTRAINT, false, 3, n, 0, "ue"), { 0, 2, 1 }) };
    case 8: return { only(comp("s0", SQUARED, true, 1, n, 0, "e"), { 0 }), only(comp("s1", SQUARED, false, 1, n, 0, "e"), { 2 }), only(comp("k0", CONSTRAINT, true, 2, n, 1, "lu"), { 0, 0 }) };
    case 9: return { only(comp("s0", SQUARED, false, 1, n, 1, "e"), { 1 }), only(comp("s1", SQUARED, false, 2, n, 0, "e"), { 2, 1 }), only(comp("s2", SQUARED, true, 2, n, 1, "e"), { 0, 2 }), only(comp("s3", SQUARED, true, 1, n, 0, "e"), { 2 }), comp("k0", CONSTRAINT, true, 2, n, 0, "eu"), comp("k1", CONSTRAINT, true, 0, n, 0, "l") };
    case 10: return { comp("h0", HINGE, false, 1, n, 0, "l"), comp("h1", HINGE, false, 2, n, 1, "ul"), comp("a0", ABSOLUTE, false, 1, n, 0, "e"), comp("a1", ABSOLUTE, false, 2, n, 1, "e"), comp("s0", SQUARED, false, 1, n, 0, "e"), only(comp("s1", SQUARED, false, 1, n, 1, "e"), { 0 }) };
    case 11: return { wide(comp("s0", SQUARED, false, 1, n, 0, "e")), wide(comp("h0", HINGE, false, 1, n, 1, "u")) };
    case 12: return { wide(comp("a0", ABSOLUTE, false, 1, n, 0, "e")), wide(comp("k0", CONSTRAINT, true, 2, n, 1, "le")) };
    default: return { comp("h0", HINGE, false, 2, n, 0, "lu"), comp("h1", HINGE, true, 1, n, 1, "l"), comp("a0", ABSOLUTE, true, 1, n, 1, "e"), comp("k0", CONSTRAINT, false, 1, n, 0, "u"), comp("k1", CONSTRAINT, true, 1, n, 0, "e"), comp("s0", SQUARED, false, 1, n, 0, "e") };
  }
}
const int NSCEN = 14;
}  // namespace

SYM_HARNESS(structure)
{
  const int n = sym::thorough() ? 3 : 2;
  sym::bound(std::to_string(n) + " variables; 14 problem shapes with up to 6 components of 0..3 rows covering every cost kind, constraint kind and static/dynamic mix, dense rows, rows of one variable and constant rows; Jacobian entries 1e-3 <= |a| <= 100 (one of any size in some shapes), weights 0..100 (0.5..100 where several squared costs add up); linearised once or twice");
  int s = sym::choose("shape", NSCEN);
  hu::least_weight = s < 2 || s == 3 || s == 8 ? 0 : 0.5;
  auto t = hu::traj("x", 1, n, 0);
  World w = build(scenario(s, n), t);
  w.p->setup();
  if (sym::flag("setup-twice"))
    w.p->setup();
  names(w);
  Eigen::VectorXd merit = Eigen::VectorXd::Constant(w.nk, 10.0);
  if (sym::flag("set-merit"))
  {
    merit = hu::vec_in("m", w.nk, 0, 1000);
    w.p->setConstraintMeritCoeff(merit);
  }
  w.p->convexify();
  Eigen::VectorXd x = t.x;
  if ((s < 1 || s == 3 || s == 9 || s == 10) && sym::flag("again"))
  {
    x = hu::vec("y", n);
    for (auto& c : w.comps)
      hu::refresh(*c.f, c.f->getName() + "b", 1);
    w.p->setVariables(x.data());
    w.p->convexify();
  }
  check_qp(w, x, merit);
  sym::cover("built");
  sym::require_cover("built");
}

SYM_HARNESS(relinearise)
{
  const int n = 2;
  sym::bound("two successive linearisations at different points; the dynamic components change their number of rows (0..2 each) in between, once or twice, with or without a linearisation in between");
  using namespace hu;
  auto t = hu::traj("x", 1, n, 0);
  int r0 = sym::choose("rows-before", 3), r1 = sym::choose("rows-mid", 3), r2 = sym::choose("rows-after", 3);
  int kind = sym::choose("kind", 4);
  std::string ty = kind == HINGE ? "lu" : kind == CONSTRAINT ? "eu" : "e";
  std::vector<Comp> cs{ comp("d0", Kind(kind), true, r0, n, 0, ty), comp("k0", CONSTRAINT, false, 1, n, 1, "u") };
  if (sym::flag("empty-too"))  // another dynamic component, without rows all along
    cs.push_back(comp("d9", CONSTRAINT, true, 0, n, 0, "u"));
  World w = build(cs, t);
  w.p->setup();
  Eigen::VectorXd merit = hu::vec_in("m", w.nk, 0, 1000);
  w.p->setConstraintMeritCoeff(merit);
  AffineCnt& d = *cs[0].f;
  if (sym::flag("linearise-first"))
    w.p->convexify();
  Eigen::VectorXd y = hu::vec("y", n);
  fill(d, "d1", r1, n, 1, ty);
  w.p->setVariables(y.data());
  if (sym::flag("linearise-mid"))
  {
    w.p->convexify();
    check_qp(w, y, merit);
  }
  Eigen::VectorXd z = hu::vec("z", n);
  fill(d, "d2", r2, n, 0, ty);
  const auto limits = cs[1].f->b;  // static components keep their limits and weights
  const Eigen::VectorXd weights = cs[1].f->w;
  fill(*cs[1].f, "k2", 1, n, 0, "u");
  cs[1].f->b = limits;
  cs[1].f->w = weights;
  w.p->setVariables(z.data());
  w.p->convexify();
  check_qp(w, z, merit);
  sym::cover("relinearised");
  sym::require_cover("relinearised");
}

SYM_HARNESS(evaluate)
{
  const int n = 2;
  sym::bound("2 variables; one component of each kind (static or dynamic, up to 2 rows); model evaluated at any point with any slack values, exact values at any point");
  using namespace hu;
  int s = sym::choose("shape", 10);
  hu::least_weight = s > 0 && s < 4 ? 0 : 0.5;
  bool dyn = sym::flag("dynamic");
  std::vector<Comp> cs;
  switch (s)
  {
    case 0: cs = { comp("a", SQUARED, dyn, 2, n, 0, "e"), comp("b", SQUARED, false, 1, n, 1, "e") }; break;
    case 1: cs = { comp("a", HINGE, dyn, 2, n, 0, "lu") }; break;
    case 2: cs = { comp("a", ABSOLUTE, dyn, 2, n, 1, "e") }; break;
    case 3: cs = { comp("a", CONSTRAINT, dyn, 2, n, 0, "eu") }; break;
    case 4: cs = { comp("a", CONSTRAINT, dyn, 1, n, 0, "l"), comp("b", CONSTRAINT, false, 1, n, 1, "u") }; break;
    case 8: cs = { only(comp("a", SQUARED, dyn, 2, n, 0, "e"), { 0, 2 }), only(comp("b", HINGE, false, 2, n, 1, "ul"), { 0, 1 }), only(comp("c", ABSOLUTE, dyn, 1, n, 1, "e"), { 0 }) }; break;
    case 9: cs = { only(comp("a", CONSTRAINT, dyn, 2, n, 0, "eu"), { 2, 0 }), comp("b", CONSTRAINT, false, 1, n, 1, "l"), comp("c", CONSTRAINT, dyn, 1, n, 0, "e") }; break;
    case 5: cs = { comp("a", HINGE, dyn, 1, n, 0, "l"), comp("b", CONSTRAINT, false, 1, n, 1, "e") }; break;
    case 6: cs = { comp("a", ABSOLUTE, dyn, 1, n, 0, "e"), comp("b", HINGE, false, 1, n, 1, "u"), comp("c", SQUARED, false, 1, n, 0, "e") }; break;
    case 7: cs = { comp("a", CONSTRAINT, true, 0, n, 0, "l"), comp("b", CONSTRAINT, dyn, 1, n, 1, "l"), comp("c", HINGE, true, 0, n, 0, "l"), comp("d", HINGE, dyn, 1, n, 0, "u"), comp("e", CONSTRAINT, true, 0, n, 0, "l"), comp("f", HINGE, true, 0, n, 0, "l") }; break;
  }
  auto t = hu::traj("x", 1, n, 0);
  World w = build(cs, t);
  w.p->setup();
  w.p->setConstraintMeritCoeff(hu::vec_in("m", w.nk, 0, 1000));  // merit weights must not enter costs or violations
  w.p->convexify();
  if (s > 0 && s < 4 && sym::flag("again"))
  {
    for (auto& c : w.comps)
      hu::refresh(*c.f, c.f->getName() + "b", 1);
    Eigen::VectorXd y = hu::vec("y", n);
    w.p->setVariables(y.data());
    w.p->convexify();
  }
  bool exact = sym::flag("exact");
  Eigen::VectorXd z = hu::vec("z", n), costs, viol;
  double total;
  if (exact)
  {
    w.p->setVariables(z.data());
    for (Eigen::Index i = 0; i < n; ++i)
      sym::check_eq(w.p->getVariableValues()(i), z(i), "variables");
    costs = w.p->getExactCosts();
    viol = w.p->getExactConstraintViolations();
    total = w.p->getTotalExactCost();
  }
  else
  {
    Eigen::VectorXd full(w.p->getNumQPVars());
    full << z, hu::vec_in("slack", full.size() - n, 0, 1e6);
    costs = w.p->evaluateConvexCosts(full);
    viol = w.p->evaluateConvexConstraintViolations(full);
    total = w.p->evaluateTotalConvexCost(full);
  }
  sym::check(costs.size() == w.nc && viol.size() == w.nk, "sizes");
  if (costs.size() != w.nc || viol.size() != w.nk)
    return;
  int a = 0, k = 0;
  double sum = 0;
  for (const auto& c : w.comps)
  {
    double v = 0;
    for (int i = 0; i < c.rows(); ++i)
    {
      const auto& b = c.f->b[static_cast<std::size_t>(i)];
      double g = value(*c.f, i, z);
      if (c.kind == SQUARED)
        v += c.f->w(i) * (g - b.getLower()) * (g - b.getLower());
      else
        v += (c.kind == CONSTRAINT ? 1.0 : c.f->w(i)) * dist(g, b.getLower(), b.getUpper());
    }
    if (c.kind == CONSTRAINT)
      sym::check_eq(viol(k++), v, exact ? "exact-violation" : "model-violation");
    else
    {
      sum += v;
      sym::check_eq(costs(a++), v, (std::string(exact ? "exact-" : "model-") + (c.kind == SQUARED ? "squared" : c.kind == HINGE ? "hinge" : "absolute")));
    }
  }
  sym::check_eq(total, sum, "total");
  sym::cover(exact ? "exact" : "model");
  sym::require_cover("exact");
  sym::require_cover("model");
}

SYM_HARNESS(box)
{
  const int n = 2;
  sym::bound("2 variables with lower, upper, both or no limits, any current point (inside or outside), up to 2 box changes");
  using namespace hu;
  auto t = hu::traj("x", 1, n, 0);
  int ty = sym::choose("limits", 4);
  double lb0 = ty & 1 ? sym::real_in("lb", -1e3, 1e3) : -INF, ub0 = ty & 2 ? sym::real_in("ub", -1e3, 1e3) : INF;
  if (ty == 3)
    sym::assume_lt(lb0, ub0);
  // limits of the second variable are free
  std::vector<std::unique_ptr<trajopt_ifopt::Node>> nodes;
  auto node = std::make_unique<trajopt_ifopt::Node>("n");
  node->addVar("p", { "a", "b" }, Eigen::VectorXd::Zero(n), { trajopt_ifopt::Bounds(lb0, ub0), trajopt_ifopt::NoBound });
  nodes.push_back(std::move(node));
  t.vars = std::make_shared<trajopt_ifopt::NodesVariables>("t", std::move(nodes));
  World w = build({ comp("h", HINGE, false, 1, n, 1, "u"), comp("k", CONSTRAINT, false, 1, n, 0, "l") }, t);
  w.p->setup();
  Eigen::VectorXd x = hu::vec("x", n);
  w.p->setVariables(x.data());
  w.p->convexify();
  Eigen::VectorXd box = Eigen::VectorXd::Constant(n, 0.1);
  auto verify = [&] {
    sym::check(w.p->getBoxSize().size() == n, "box-size");
    for (int i = 0; i < n; ++i)
    {
      sym::check_eq(w.p->getBoxSize()(i), box(i), "box-size");
      double lb = i ? -INF : lb0, ub = i ? INF : ub0;
      double c = x(i) < lb ? lb : (x(i) > ub ? ub : x(i));
      double lo = c - box(i) < lb ? lb : c - box(i), up = c + box(i) > ub ? ub : c + box(i);
      double L = w.p->getBoundsLower()(2 + i), U = w.p->getBoundsUpper()(2 + i);
      sym::check_eq(L, lo, "lower");
      sym::check_eq(U, up, "upper");
      sym::check_le(L, U, "nonempty");
    }
  };
  verify();
  int op = sym::choose("op", 3);
  if (op & 1)
  {
    box = hu::vec_in("b", n, 0, 1e3);
    w.p->setBoxSize(box);
    verify();
  }
  if (op & 2)
  {
    double sc = sym::real_in("sc", 0, 10);
    w.p->scaleBoxSize(sc);
    box(0) = box(0) * sc, box(1) = box(1) * sc;
    verify();
  }
  if (op == 1)
  {
    // the box moves with the iterate at the next linearisation and leaves the other rows alone
    x = hu::vec("y", n);
    w.p->setVariables(x.data());
    w.p->convexify();
    verify();
    check_qp(w, x, Eigen::VectorXd::Constant(1, 10.0));
  }
  sym::cover("boxed");
  sym::require_cover("boxed");
}

SYM_HARNESS(rejects)
{
  const int n = 1;
  sym::bound("one component with 1..2 rows of any limit type, any penalty kind or constraint");
  using namespace hu;
  auto t = hu::traj("x", 1, n, 0);
  int kind = sym::choose("kind", 4), ty = sym::choose("type", 4), pos = sym::choose("pos", 2);
  Comp c = comp("c", Kind(kind), sym::flag("dynamic"), 2, n, 0, kind == HINGE ? "l" : "e");
  double a = sym::real_in("lo", -1e3, 1e3), b = sym::real_in("up", -1e3, 1e3);
  sym::assume_le(a + 1e-3, b);
  c.f->b[static_cast<std::size_t>(pos)] = trajopt_ifopt::Bounds(ty == 1 || ty == 3 ? -INF : a, ty == 0 ? a : ty == 1 ? b : ty == 2 ? INF : INF);
  if (ty == 3)
    c.f->b[static_cast<std::size_t>(pos)] = sym::flag("range") ? trajopt_ifopt::Bounds(a, b) : trajopt_ifopt::NoBound;
  bool ok = kind == HINGE ? (ty == 1 || ty == 2) : kind == CONSTRAINT ? ty != 3 : ty == 0;
  World w;
  w.p = std::make_unique<TrajOptQPProblem>(t.vars);
  bool threw = false;
  try
  {
    add(w, c);
    w.p->setup();
    w.p->convexify();
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  sym::check(threw == !ok, ok ? "accepted" : "rejected");
  sym::cover(threw ? "threw" : "accepted");
  sym::require_cover("threw");
  sym::require_cover("accepted");
}
