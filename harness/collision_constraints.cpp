// Collision constraints of trajopt_ifopt over an evaluator that reports arbitrary contacts.
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
// @unit trajopt_ifopt/src/core/component.cpp
// @unit trajopt_ifopt/src/core/constraint_set.cpp
// @unit trajopt_ifopt/src/variable_sets/node.cpp
// @unit trajopt_ifopt/src/variable_sets/var.cpp
// @unit trajopt_ifopt/src/variable_sets/nodes_variables.cpp
// @unit trajopt_common/src/collision_types.cpp
// @unit trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp
// @unit trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp
// @unit trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
// @unit trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
// @unit trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
#include "nodes.h"
#include "collision.h"
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>
using namespace trajopt_ifopt;
using namespace trajopt_common;
using hu::CC;
using hu::ContactResult;

namespace
{
using Fill = std::function<void(CollisionCacheData&, const Eigen::VectorXd&, const Eigen::VectorXd&)>;
struct Scene
{
  explicit Scene(const hu::Manip& m) : manip(m) {}
  const hu::Manip& manip;
  double buffer{ 0 };
  tesseract::common::CollisionMarginData margins;
  CollisionCoeffData coeffs;
  Fill fill;
  int calls{ 0 };
  std::size_t allowed{ 0 };
  bool fixed0{ false }, fixed1{ false };
};
struct Discrete : DiscreteCollisionEvaluator
{
  explicit Discrete(Scene& s) : s(s) {}
  Scene& s;
  void calcCollisions(CollisionCacheData& d, const Eigen::Ref<const Eigen::VectorXd>& q, std::size_t n) override
  {
    ++s.calls;
    s.allowed = n;
    d.contact_results_map.clear();
    d.gradient_results_sets.clear();
    s.fill(d, q, q);
  }
  double getCollisionMarginBuffer() const override { return s.buffer; }
  const tesseract::common::CollisionMarginData& getCollisionMarginData() const override { return s.margins; }
  const CollisionCoeffData& getCollisionCoeffData() const override { return s.coeffs; }
  const tesseract::kinematics::JointGroup& getJointGroup() const override { return s.manip; }
  GradientResults getGradient(const Eigen::VectorXd&, const ContactResult&) override { return {}; }
};
struct Continuous : ContinuousCollisionEvaluator
{
  explicit Continuous(Scene& s) : s(s) {}
  Scene& s;
  void calcCollisionData(CollisionCacheData& d, const Eigen::Ref<const Eigen::VectorXd>& q0, const Eigen::Ref<const Eigen::VectorXd>& q1,
                         bool f0, bool f1, std::size_t n) override
  {
    ++s.calls;
    s.allowed = n;
    s.fixed0 = f0;
    s.fixed1 = f1;
    d.contact_results_map.clear();
    d.gradient_results_sets.clear();
    s.fill(d, q0, q1);
  }
  double getCollisionMarginBuffer() const override { return s.buffer; }
  const tesseract::common::CollisionMarginData& getCollisionMarginData() const override { return s.margins; }
  const CollisionCoeffData& getCollisionCoeffData() const override { return s.coeffs; }
  const tesseract::kinematics::JointGroup& getJointGroup() const override { return s.manip; }
  GradientResults calcGradientData(const Eigen::Ref<const Eigen::VectorXd>&, const Eigen::Ref<const Eigen::VectorXd>&, const ContactResult&) override
  {
    return {};
  }
};

/** one contact as the evaluators report it; kind per link: 0 not moving, 1 None, 2 Time0, 3 Time1, 4 Between */
struct Item
{
  double e, eb;
  int kind[2];
  Eigen::VectorXd g0[2], g1[2];
  double s0[2], s1[2];
};
const CC kCC[5] = { CC::CCType_None, CC::CCType_None, CC::CCType_Time0, CC::CCType_Time1, CC::CCType_Between };

Item item(const std::string& nm, int dof, double buffer, const std::array<int, 2>& kind, bool motion)
{
  Item it;
  // within reach of the check: margin + buffer - distance >= 0
  it.eb = sym::real_in(nm + ".eb", 0, 100);
  it.e = it.eb - buffer;
  for (int l = 0; l < 2; ++l)
  {
    it.kind[l] = kind[static_cast<std::size_t>(l)];
    it.s0[l] = it.s1[l] = 1;
    if (it.kind[l] == 0)
      continue;
    it.g0[l] = hu::vec(nm + ".g" + std::to_string(l), dof);
    if (motion)
    {
      it.g1[l] = hu::vec(nm + ".h" + std::to_string(l), dof);
      it.s0[l] = it.kind[l] == 2 ? 1 : it.kind[l] == 3 ? 0 : sym::real_in(nm + ".s" + std::to_string(l), 0, 1);
      it.s1[l] = 1 - it.s0[l];
    }
  }
  return it;
}
GradientResultsSet asSet(const std::vector<Item>& items, double coeff, bool motion)
{
  GradientResultsSet s(items.size());
  s.coeff = coeff;
  s.is_continuous = motion;
  for (const Item& it : items)
  {
    GradientResults r;
    r.error = it.e;
    r.error_with_buffer = it.eb;
    for (std::size_t l = 0; l < 2; ++l)
    {
      if (it.kind[l] == 0)
        continue;
      r.gradients[l].has_gradient = true;
      r.gradients[l].gradient = it.g0[l];
      r.gradients[l].scale = it.s0[l];
      r.gradients[l].cc_type = kCC[it.kind[l]];
      if (motion)
      {
        r.cc_gradients[l].has_gradient = true;
        r.cc_gradients[l].gradient = it.g1[l];
        r.cc_gradients[l].scale = it.s1[l];
        r.cc_gradients[l].cc_type = kCC[it.kind[l]];
      }
    }
    s.add(r);
  }
  return s;
}
bool counts(const Item& it, int l, int end)  // does link l of the contact involve the state at this end (-1: any)
{
  return it.kind[l] != 0 && !(end == 0 && it.kind[l] == 3) && !(end == 1 && it.kind[l] == 2);
}
/** largest error among the contacts involving this end */
double worst(const std::vector<Item>& items, int end, bool& any)
{
  double w = 0;
  any = false;
  for (const Item& it : items)
    if (counts(it, 0, end) || counts(it, 1, end))
    {
      w = any ? (it.e > w ? it.e : w) : it.e;
      any = true;
    }
  return w;
}
/** row of the Jacobian for one end: minus the mean of the link gradients weighted with how far each contact reaches in */
void checkBlock(const Eigen::MatrixXd& J, Eigen::Index row, Eigen::Index col, const std::vector<Item>& items, int end, int dof, const std::string& w)
{
  double total = 0;
  Eigen::VectorXd num = Eigen::VectorXd::Zero(dof);
  for (const Item& it : items)
    for (int l = 0; l < 2; ++l)
      if (counts(it, l, end))
      {
        total += it.eb;
        const Eigen::VectorXd& g = end == 0 ? it.g0[l] : it.g1[l];
        const double s = end == 0 ? it.s0[l] : it.s1[l];
        for (int k = 0; k < dof; ++k)
          num(k) += it.eb * (s * g(k));
      }
  for (int k = 0; k < dof; ++k)
  {
    if (total > 0)
      sym::check_eq(J(row, col + k) * total, 0.0 - num(k), w + ":derivative");
    else
      sym::check_eq(J(row, col + k), 0, w + ":no derivative without contact");
  }
  if (total > 0)
    sym::cover("weighted");
}
void checkElsewhere(const Eigen::MatrixXd& J, const std::vector<std::pair<Eigen::Index, Eigen::Index>>& blocks, const std::string& w)
{
  for (Eigen::Index r = 0; r < J.rows(); ++r)
    for (Eigen::Index c = 0; c < J.cols(); ++c)
    {
      bool in = false;
      for (const auto& b : blocks)
        in = in || (c >= b.first && c < b.first + b.second);
      if (!in)
        sym::check(J(r, c) == 0, w + ":other columns zero");
    }
}
void checkShape(ConstraintSet& c, int rows, int n, const std::string& w)
{
  const Jacobian J = c.getJacobian();
  const auto b = c.getBounds();
  sym::check(c.getRows() == rows && c.getValues().size() == rows && c.getCoefficients().size() == rows && static_cast<int>(b.size()) == rows &&
                 J.rows() == rows && J.cols() == n,
             w + ":sizes");
  sym::check(J.nonZeros() <= c.getNonZeros(), w + ":nonzeros");
  for (const auto& x : b)
    sym::check(x.getUpper() == 0 && x.getLower() < -1e20, w + ":at most zero");
}
}  // namespace

SYM_HARNESS(state)
{
  const int dof = sym::thorough() ? 3 : 2;
  const int rows = 1 + sym::choose("rows", 2);
  const int place = sym::choose("place", sym::thorough() ? 12 : 4);
  const int layout = place % 3, which = place / 3 % 2;
  const bool sparse = sym::thorough() ? place / 6 == 1 : place % 2 == 1;
  sym::bound("2 nodes, " + std::to_string(dof) + " joints, 1..2 rows, up to 3 contact sets of up to 2 contacts, two successive states");
  hu::Manip m(dof, {}, false);
  Scene s(m);
  s.buffer = sym::real_in("buffer", 0, 10);
  hu::Traj t = hu::traj("x", 2, dof, layout);
  DiscreteCollisionConstraint c(std::make_shared<Discrete>(s), t.pos[static_cast<std::size_t>(which)], rows, sparse);
  c.linkWithVariables(t.vars);
  const int patterns[4][2][2] = { { { 1, 0 }, { 1, 0 } }, { { 0, 1 }, { 1, 1 } }, { { 1, 1 }, { 0, 1 } }, { { 0, 1 }, { 1, 0 } } };
  const auto& pat = patterns[sym::choose("links", 4)];
  for (int step = 0; step < 2; ++step)
  {
    const std::string sn = "s" + std::to_string(step);
    if (step == 1)
    {
      t.x = hu::vec("y", t.n);
      t.vars->setVariables(t.x);
    }
    const int nsets = step == 0 ? sym::choose("sets", 4) : sym::choose("sets.later", 2);
    std::vector<std::vector<Item>> sets;
    std::vector<double> coeff;
    for (int i = 0; i < nsets; ++i)
    {
      std::vector<Item> items;
      const int n = i == 0 && step == 0 ? 2 : 1;
      for (int k = 0; k < n; ++k)
        items.push_back(item(sn + "." + std::to_string(i) + "." + std::to_string(k), dof, s.buffer, { pat[(k + i) % 2][0], pat[(k + i) % 2][1] }, false));
      sets.push_back(items);
      coeff.push_back(sym::real(sn + ".c" + std::to_string(i)));
    }
    Eigen::VectorXd seen;
    s.fill = [&](CollisionCacheData& d, const Eigen::VectorXd& q, const Eigen::VectorXd&) {
      seen = q;
      for (int i = 0; i < nsets; ++i)
        d.gradient_results_sets.push_back(asSet(sets[static_cast<std::size_t>(i)], coeff[static_cast<std::size_t>(i)], false));
    };
    s.calls = 0;
    c.update();
    sym::check(s.calls == 1 && s.allowed == static_cast<std::size_t>(rows), "evaluated once per state");
    for (int k = 0; k < dof; ++k)
      sym::check_eq(seen(k), t.x(t.col[static_cast<std::size_t>(which)] + k), "evaluated at the current joint values");
    c.update();
    sym::check(s.calls == 1, "not evaluated again for the same values");
    checkShape(c, rows, t.n, "state");
    const Eigen::VectorXd v = c.getValues(), co = c.getCoefficients();
    const Jacobian Js = c.getJacobian();
    const Eigen::MatrixXd J(Js);
    if (sparse)
      sym::check(Js.nonZeros() == rows * dof, "sparsity fixed"), sym::cover("sparsity");
    for (int r = 0; r < rows; ++r)
    {
      if (r >= nsets)
      {
        sym::check_eq(v(r), 0.0 - s.buffer, "free row");
        for (int k = 0; k < dof; ++k)
          sym::check(J(r, t.col[static_cast<std::size_t>(which)] + k) == 0, "free row has no derivative");
        if (step == 1)
          sym::cover("contact gone");
        continue;
      }
      bool any = false;
      const double w = worst(sets[static_cast<std::size_t>(r)], 0, any);
      sym::check_eq(v(r), w, "value is the worst error");
      sym::check_eq(co(r), coeff[static_cast<std::size_t>(r)], "coefficient of the pair");
      checkBlock(J, r, t.col[static_cast<std::size_t>(which)], sets[static_cast<std::size_t>(r)], 0, dof, "state");
    }
    checkElsewhere(J, { { t.col[static_cast<std::size_t>(which)], dof } }, "state");
  }
  sym::require_cover("weighted");
  sym::require_cover("contact gone");
  sym::require_cover("sparsity");
}

SYM_HARNESS(motion)
{
  const int dof = sym::thorough() ? 2 : 1;
  const int rows = 2;
  const int fixed = sym::choose("fixed", 3), layout = sym::thorough() ? sym::choose("layout", 3) : 1 + fixed % 2;
  const bool sparse = sym::thorough() ? sym::flag("fixed sparsity") : fixed == 0;
  sym::bound("2 nodes, " + std::to_string(dof) + " joints, 2 rows, up to 2 contact sets of up to 2 contacts, every mix of contact types, two successive states");
  hu::Manip m(dof, {}, false);
  Scene s(m);
  s.buffer = sym::real_in("buffer", 0, 10);
  hu::Traj t = hu::traj("x", 2, dof, layout);
  std::array<std::shared_ptr<const Var>, 2> pv{ t.pos[0], t.pos[1] };
  ContinuousCollisionConstraint c(std::make_shared<Continuous>(s), pv, fixed == 1, fixed == 2, rows, sparse);
  c.linkWithVariables(t.vars);
  for (int step = 0; step < 2; ++step)
  {
    const std::string sn = "s" + std::to_string(step);
    if (step == 1)
    {
      t.x = hu::vec("y", t.n);
      t.vars->setVariables(t.x);
    }
    // first state: one set of two contacts (any types on link 0 of the first, mixed on the second); then at most one contact
    const int nsets = step == 0 ? 1 + sym::choose("sets", 2) : sym::choose("sets.later", 2);
    std::vector<std::vector<Item>> sets;
    std::vector<double> coeff;
    for (int i = 0; i < nsets; ++i)
    {
      std::vector<Item> items;
      const int n = i == 0 && step == 0 ? 2 : 1;
      for (int k = 0; k < n; ++k)
      {
        std::array<int, 2> kind{ 4, 0 };
        if (step == 0 && i == 0)
        {
          if (k == 0)
            kind = { sym::choose("k0", 5), sym::choose("k1", 5) };
          else
          {
            const int o = sym::choose("k2", 4);
            kind = o == 0 ? std::array<int, 2>{ 2, 3 } : o == 1 ? std::array<int, 2>{ 0, 4 } : o == 2 ? std::array<int, 2>{ 3, 0 } : std::array<int, 2>{ 0, 2 };
          }
          sym::assume(kind[0] != 0 || kind[1] != 0);
        }
        else if (i == 1)
          kind = { 0, 3 };
        items.push_back(item(sn + "." + std::to_string(i) + "." + std::to_string(k), dof, s.buffer, kind, true));
      }
      sets.push_back(items);
      coeff.push_back(sym::real(sn + ".c" + std::to_string(i)));
    }
    Eigen::VectorXd seen0, seen1;
    s.fill = [&](CollisionCacheData& d, const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
      seen0 = a;
      seen1 = b;
      for (int i = 0; i < nsets; ++i)
        d.gradient_results_sets.push_back(asSet(sets[static_cast<std::size_t>(i)], coeff[static_cast<std::size_t>(i)], true));
    };
    s.calls = 0;
    c.update();
    c.update();
    sym::check(s.calls == 1 && s.allowed == static_cast<std::size_t>(rows), "evaluated once per state");
    sym::check(s.fixed0 == (fixed == 1) && s.fixed1 == (fixed == 2), "fixed ends passed on");
    for (int k = 0; k < dof; ++k)
    {
      sym::check_eq(seen0(k), t.x(t.col[0] + k), "first state");
      sym::check_eq(seen1(k), t.x(t.col[1] + k), "second state");
    }
    checkShape(c, rows, t.n, "motion");
    const Eigen::VectorXd v = c.getValues(), co = c.getCoefficients();
    const Jacobian Js = c.getJacobian();
    const Eigen::MatrixXd J(Js);
    if (sparse)
      sym::check(Js.nonZeros() == 2 * rows * dof, "sparsity fixed"), sym::cover("sparsity");
    for (int r = 0; r < rows; ++r)
    {
      bool any = false;
      double w = 0;
      if (r < nsets)
        w = worst(sets[static_cast<std::size_t>(r)], fixed == 1 ? 1 : fixed == 2 ? 0 : -1, any);
      if (!any)
      {
        sym::check_eq(v(r), 0.0 - s.buffer, "free row");
        for (int k = 0; k < t.n; ++k)
          sym::check(J(r, k) == 0, "free row has no derivative");
        sym::cover("free row");
        continue;
      }
      sym::check_eq(v(r), w, "value is the worst error");
      sym::check_eq(co(r), coeff[static_cast<std::size_t>(r)], "coefficient of the pair");
      for (int end = 0; end < 2; ++end)
      {
        if (fixed == 1 + end)
        {
          for (int k = 0; k < dof; ++k)
            sym::check(J(r, t.col[static_cast<std::size_t>(end)] + k) == 0, "fixed state has no derivative");
          continue;
        }
        checkBlock(J, r, t.col[static_cast<std::size_t>(end)], sets[static_cast<std::size_t>(r)], end, dof, end == 0 ? "first" : "second");
      }
    }
    checkElsewhere(J, { { t.col[0], dof }, { t.col[1], dof } }, "motion");
  }
  sym::require_cover("weighted");
  sym::require_cover("free row");
  sym::require_cover("sparsity");
}

namespace
{
ContactResult contact(const std::string& nm, int active, bool motion)
{
  ContactResult c;
  c.link_names = { active == 1 ? "s0" : "m0", active == 0 ? "s1" : "m1" };
  c.distance = sym::real(nm + ".distance");
  c.normal = hu::vec3(nm + ".n");
  for (std::size_t i = 0; i < 2; ++i)
  {
    const std::string s = nm + "." + std::to_string(i);
    c.nearest_points_local[i] = hu::vec3(s + ".p");
    if (motion && (active == 2 || active == static_cast<int>(i)))
    {
      c.cc_type[i] = CC::CCType_Between;
      c.cc_time[i] = sym::real_in(s + ".t", 0, 1);
    }
    // a fixed rotation, different on the two ends
    Eigen::Matrix3d R;
    R << 0, -1, 0, 1, 0, 0, 0, 0, 1;
    c.cc_transform[i].linear() = R;
  }
  return c;
}
}  // namespace

SYM_HARNESS(every_contact)
{
  const int dof = 2;
  const bool motion = sym::flag("motion");
  const int fixed = motion ? sym::choose("fixed", 3) : 0, layout = sym::choose("layout", 3), which = motion ? 0 : sym::choose("which", 2);
  sym::bound("2 nodes, 2 joints, up to 3 contacts of 2 link pairs, link transforms fixed, two successive states");
  hu::Manip m(dof, { "m0", "m1" }, false);
  Scene s(m);
  s.buffer = sym::real_in("buffer", 0, 10);
  s.margins = tesseract::common::CollisionMarginData(sym::real("default margin"));
  s.coeffs.setDefaultCollisionCoeff(sym::real("default coeff"));
  const double pm = sym::real("pair margin"), pc = sym::real("pair coeff");
  s.margins.setCollisionMargin("m0", "s1", pm);
  s.coeffs.setCollisionCoeff("s1", "m0", pc);
  hu::Traj t = hu::traj("x", 2, dof, layout);
  std::shared_ptr<ConstraintSet> c;
  if (motion)
    c = std::make_shared<ContinuousCollisionConstraintD>(std::make_shared<Continuous>(s), std::array<std::shared_ptr<const Var>, 2>{ t.pos[0], t.pos[1] }, fixed == 1, fixed == 2);
  else
    c = std::make_shared<DiscreteCollisionConstraintD>(std::make_shared<Discrete>(s), t.pos[static_cast<std::size_t>(which)]);
  c->linkWithVariables(t.vars);
  for (int step = 0; step < 2; ++step)
  {
    if (step == 1)
    {
      t.x = hu::vec("y", t.n);
      t.vars->setVariables(t.x);
    }
    const int shape = sym::choose("contacts" + std::to_string(step), step == 0 ? 4 : 3);
    // contacts listed pair by pair: (m0,m1) pairs then (m0,s1)
    std::vector<int> act;
    if (shape == 1)
      act = { 0 };
    if (shape == 2)
      act = { 2, 0 };
    if (shape == 3)
      act = { 2, 0, 0 };
    if (step == 1 && shape == 2)
      act = { 1 };
    std::vector<ContactResult> list;
    for (std::size_t i = 0; i < act.size(); ++i)
      list.push_back(contact("s" + std::to_string(step) + "c" + std::to_string(i), act[i], motion));
    s.fill = [&](CollisionCacheData& d, const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
      for (int k = 0; k < dof; ++k)
      {
        sym::check_eq(a(k), t.x(t.col[static_cast<std::size_t>(which)] + k), "evaluated at the current joint values");
        sym::check_eq(b(k), t.x(t.col[static_cast<std::size_t>(motion ? 1 : which)] + k), "evaluated at the current joint values");
      }
      for (const auto& r : list)
        d.contact_results_map.addContactResult(tesseract::common::LinkNamesPair(r.link_names[0], r.link_names[1]), r);
    };
    s.calls = 0;
    c->update();
    c->update();
    sym::check(s.calls == 1, "evaluated once per state");
    const int rows = static_cast<int>(list.size());
    checkShape(*c, rows, t.n, "contacts");
    const Eigen::VectorXd v = c->getValues(), co = c->getCoefficients();
    const Eigen::MatrixXd J(c->getJacobian());
    for (int r = 0; r < rows; ++r)
    {
      const ContactResult& x = list[static_cast<std::size_t>(r)];
      const bool special = act[static_cast<std::size_t>(r)] == 0;
      sym::check_eq(v(r), (special ? pm : s.margins.getCollisionMargin("q", "q")) - x.distance, "value");
      sym::check_eq(co(r), special ? pc : s.coeffs.getDefaultCollisionCoeff(), "coefficient");
      for (int end = 0; end < 2; ++end)
      {
        if (!motion && end == 1)
          continue;
        const Eigen::Index col = t.col[static_cast<std::size_t>(motion ? end : which)];
        Eigen::VectorXd g = Eigen::VectorXd::Zero(dof);
        for (std::size_t l = 0; l < 2; ++l)
        {
          if (!m.isActiveLinkName(x.link_names[l]))
            continue;
          const Eigen::VectorXd q = Eigen::VectorXd::Zero(dof);
          const double share = !motion ? 1 : end == 0 ? 1 - x.cc_time[l] : x.cc_time[l];
          const Eigen::Matrix3d R = end == 0 ? x.transform[l].linear() : x.cc_transform[l].linear();
          const Eigen::VectorXd p = hu::pointGradient(m, q, x, static_cast<int>(l), R);
          for (int k = 0; k < dof; ++k)
            g(k) += share * p(k);
        }
        for (int k = 0; k < dof; ++k)
        {
          if (motion && fixed == 1 + end)
            sym::check(J(r, col + k) == 0, "fixed state has no derivative");
          else
            sym::check_eq(J(r, col + k), 0.0 - g(k), "derivative");
        }
      }
      sym::cover("contact");
    }
    std::vector<std::pair<Eigen::Index, Eigen::Index>> blocks;
    if (motion)
      blocks = { { t.col[0], dof }, { t.col[1], dof } };
    else
      blocks = { { t.col[static_cast<std::size_t>(which)], dof } };
    checkElsewhere(J, blocks, "contacts");
  }
  sym::require_cover("contact");
}

SYM_HARNESS(numeric)
{
  const int dof = sym::thorough() ? 3 : 2;
  const bool motion = sym::flag("motion");
  const int fixed = motion ? sym::choose("fixed", 3) : 0, layout = sym::choose("layout", 2), which = motion ? 0 : sym::choose("which", 2);
  const bool sparse = sym::flag("fixed sparsity");
  const int rows = 2, nsets = sym::choose("sets", 4);
  sym::bound("2 nodes, " + std::to_string(dof) + " joints, 2 rows, up to 3 contact sets whose errors are affine in the joint values (|x| <= 10, |A|, |b| <= 100)");
  hu::Manip m(dof, {}, false);
  Scene s(m);
  s.buffer = sym::real_in("buffer", 0, 10);
  const Eigen::VectorXd x0 = hu::vec_in("x", 2 * (dof + (layout != 0 ? 1 : 0)), -10, 10);
  hu::Traj t = hu::traj("x", 2, dof, layout, &x0);
  std::shared_ptr<ConstraintSet> c;
  if (motion)
    c = std::make_shared<ContinuousCollisionNumericalConstraint>(std::make_shared<Continuous>(s), std::array<std::shared_ptr<const Var>, 2>{ t.pos[0], t.pos[1] }, fixed == 1, fixed == 2, rows, sparse);
  else
    c = std::make_shared<DiscreteCollisionNumericalConstraint>(std::make_shared<Discrete>(s), t.pos[static_cast<std::size_t>(which)], rows, sparse);
  c->linkWithVariables(t.vars);
  Eigen::MatrixXd A(3, 2 * dof);
  Eigen::VectorXd b(3), coeff(3);
  for (int i = 0; i < nsets; ++i)
  {
    b(i) = sym::real_in("b" + std::to_string(i), -100, 100);
    coeff(i) = sym::real("c" + std::to_string(i));
    for (int k = 0; k < (motion ? 2 : 1) * dof; ++k)
      A(i, k) = sym::real_in("A" + std::to_string(i) + std::to_string(k), -100, 100);
  }
  auto err = [&](int i, const Eigen::VectorXd& a, const Eigen::VectorXd& z) {
    double e = b(i);
    for (int k = 0; k < dof; ++k)
    {
      e += A(i, k) * a(k);
      if (motion)
        e += A(i, dof + k) * z(k);
    }
    return e;
  };
  const char* shapes[3] = { "s", "s", "w" };  // two sets share the link pair and differ in the shapes
  const int order = sym::choose("order", 2);  // the evaluator may list them in another order when it is asked again
  int asked = 0;
  s.fill = [&](CollisionCacheData& d, const Eigen::VectorXd& a, const Eigen::VectorXd& z) {
    ++asked;
    for (int j = 0; j < nsets; ++j)
    {
      const int i = order == 1 && asked > 1 ? nsets - 1 - j : j;
      GradientResultsSet gs(1);
      gs.key = { "m", shapes[i] };
      gs.shape_key = { 0, static_cast<std::size_t>(i) };
      gs.coeff = coeff(i);
      GradientResults r;
      r.error = err(i, a, z);
      r.error_with_buffer = r.error + s.buffer;
      r.gradients[0].has_gradient = true;
      r.gradients[0].cc_type = motion ? CC::CCType_Between : CC::CCType_None;
      gs.add(r);
      d.gradient_results_sets.push_back(gs);
    }
  };
  c->update();
  checkShape(*c, rows, t.n, "numeric");
  Eigen::VectorXd q0 = t.x.segment(t.col[static_cast<std::size_t>(which)], dof), q1 = t.x.segment(t.col[static_cast<std::size_t>(motion ? 1 : which)], dof);
  const Eigen::VectorXd v = c->getValues(), co = c->getCoefficients();
  const Jacobian Js = c->getJacobian();
  const Eigen::MatrixXd J(Js);
  if (sparse)
    sym::check(Js.nonZeros() == (motion ? 2 : 1) * rows * dof, "sparsity fixed");
  for (int r = 0; r < rows; ++r)
  {
    sym::check_eq(v(r), r < nsets ? err(r, q0, q1) : 0.0 - s.buffer, "value");
    if (r < nsets)
      sym::check_eq(co(r), coeff(r), "coefficient of the pair");
    for (int end = 0; end < (motion ? 2 : 1); ++end)
    {
      const Eigen::Index col = t.col[static_cast<std::size_t>(motion ? end : which)];
      for (int k = 0; k < dof; ++k)
        sym::check_eq(J(r, col + k), r < nsets ? A(r, end * dof + k) : 0.0, "derivative");
    }
  }
  std::vector<std::pair<Eigen::Index, Eigen::Index>> blocks;
  if (motion)
    blocks = { { t.col[0], dof }, { t.col[1], dof } };
  else
    blocks = { { t.col[static_cast<std::size_t>(which)], dof } };
  checkElsewhere(J, blocks, "numeric");
}

SYM_HARNESS(refusals)
{
  sym::bound("every combination of missing / empty / unequal variables, both ends fixed, no rows; three constraint classes");
  hu::Manip m(1, {}, false);
  Scene s(m);
  auto n0 = std::make_unique<Node>("a");
  auto v0 = n0->addVar("p", std::vector<std::string>{ "j" }, Eigen::VectorXd::Zero(1), std::vector<Bounds>(1, NoBound));
  auto v1 = n0->addVar("q", std::vector<std::string>{ "j" }, Eigen::VectorXd::Zero(1), std::vector<Bounds>(1, NoBound));
  auto v2 = n0->addVar("r", std::vector<std::string>{ "j", "k" }, Eigen::VectorXd::Zero(2), std::vector<Bounds>(2, NoBound));
  const int a = sym::choose("first", 2), b = sym::choose("second", 3), f0 = sym::choose("f0", 2), f1 = sym::choose("f1", 2), rows = sym::choose("rows", 2);
  std::array<std::shared_ptr<const Var>, 2> pv;
  if (a == 1)
    pv[0] = v0;
  if (b == 1)
    pv[1] = v1;
  if (b == 2)
    pv[1] = v2;
  const int cls = sym::choose("class", 3);
  const bool bad = a == 0 || b == 0 || b == 2 || (f0 && f1) || (rows == 0 && cls != 1);
  bool threw = false;
  try
  {
    auto ev = std::make_shared<Continuous>(s);
    if (cls == 0)
      ContinuousCollisionConstraint c(ev, pv, f0, f1, rows);
    else if (cls == 1)
      ContinuousCollisionConstraintD c(ev, pv, f0, f1);
    else
      ContinuousCollisionNumericalConstraint c(ev, pv, f0, f1, rows);
  }
  catch (const std::runtime_error&)
  {
    threw = true;
  }
  sym::check(threw == bad, "malformed arguments refused");
}

SYM_HARNESS(set_bounds)
{
  sym::bound("four constraint classes, 1..2 rows, every finite range per row");
  hu::Manip m(1, {}, false);
  Scene s(m);
  s.buffer = 1;
  hu::Traj t = hu::traj("x", 2, 1, 0);
  const int rows = 1 + sym::choose("rows", 2), cls = sym::choose("class", 4);
  std::array<std::shared_ptr<const Var>, 2> pv{ t.pos[0], t.pos[1] };
  s.fill = [&](CollisionCacheData& d, const Eigen::VectorXd&, const Eigen::VectorXd&) {
    for (int i = 0; i < rows; ++i)
    {
      d.gradient_results_sets.push_back(asSet({ item("i" + std::to_string(i), 1, s.buffer, { 1, 0 }, cls % 2 == 1) }, 1.0, cls % 2 == 1));
    }
  };
  auto de = std::make_shared<Discrete>(s);
  auto ce = std::make_shared<Continuous>(s);
  std::shared_ptr<ConstraintSet> c;
  std::function<void(const std::vector<Bounds>&)> set;
  auto keep = [&](auto p) {
    set = [p](const std::vector<Bounds>& b) { p->setBounds(b); };
    c = p;
  };
  switch (cls)
  {
    case 0: keep(std::make_shared<DiscreteCollisionConstraint>(de, t.pos[0], rows)); break;
    case 1: keep(std::make_shared<ContinuousCollisionConstraint>(ce, pv, false, false, rows)); break;
    case 2: keep(std::make_shared<DiscreteCollisionNumericalConstraint>(de, t.pos[0], rows)); break;
    default: keep(std::make_shared<ContinuousCollisionNumericalConstraint>(ce, pv, false, false, rows)); break;
  }
  c->linkWithVariables(t.vars);
  c->update();
  sym::check(c->getRows() == rows, "one row per contact set");
  std::vector<Bounds> want;
  for (int i = 0; i < rows; ++i)
    want.emplace_back(sym::real_in("lo" + std::to_string(i), -5, -1), sym::real_in("hi" + std::to_string(i), 1, 5));
  set(want);
  const auto got = c->getBounds();
  sym::check(static_cast<int>(got.size()) == rows && c->getValues().size() == rows, "bounds per row");
  for (std::size_t i = 0; i < got.size() && i < want.size(); ++i)
  {
    sym::check_eq(got[i].getLower(), want[i].getLower(), "bound set");
    sym::check_eq(got[i].getUpper(), want[i].getUpper(), "bound set");
  }
}
