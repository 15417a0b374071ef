// A manipulator in a scene, and a collision library that answers anything and remembers what it was told.
#pragma once
#include "collision.h"
#include <tesseract/environment/environment.h>
using namespace trajopt_common;
using hu::CC;
using hu::ContactResult;
using tesseract::collision::CollisionEvaluatorType;
using tesseract::collision::ContactResultMap;
using tesseract::common::LinkNamesPair;
using tesseract::common::TransformMap;

namespace
{
struct World;
struct Arm : hu::Manip
{
  Arm(int dof, World& w) : hu::Manip(dof, { "m1", "m0" }, false), w(w) {}
  World& w;
  std::vector<std::string> getJointNames() const override { return { "j0", "j1" }; }
  void calcFwdKin(TransformMap& t, const Eigen::Ref<const Eigen::VectorXd>& q) const override;
  using hu::Manip::calcJacobian;
  /** of a point fixed to the link, whose axes are those of the base */
  Eigen::MatrixXd calcJacobian(const Q& q, const std::string& l, const V3& p) const override
  {
    Eigen::MatrixXd m = jac(q, l);
    for (int c = 0; c < dof; ++c)
    {
      const Eigen::Vector3d w = m.col(c).tail(3), v = w.cross(Eigen::Vector3d(p));
      m.col(c).head(3) += v;
    }
    return m;
  }
};
/** what the collision library was told and what it answers */
struct World
{
  struct Test
  {
    std::map<std::string, std::array<double, 2>> at;  // first / second pose given for each link before the test
    bool moved{ false };                                       // at least one link was given two poses
  };
  std::vector<std::string> active;
  std::vector<Test> tests;
  Test now;
  tesseract::common::CollisionMarginData margins;
  double config{ 0 }, increment{ 0 };
  int configs{ 0 }, increments{ 0 };
  bool config_first{ true };
  std::function<void(ContactResultMap&, int)> answer;
  double slope{ 1 }, eslope{ 1 };
  int joints{ 1 };
  double pose(const std::string& l, const Eigen::VectorXd& q) const
  {
    // distinguishes the links and is injective in every joint value
    double p = l == "m0" ? 1000.0 : l == "m1" ? 2000.0 : 3000.0;
    for (Eigen::Index i = 0; i < q.size(); ++i)
      p += (i == 0 ? 1.0 : 7.0) * q(i);
    return p;
  }
  void put(TransformMap& t, const std::string& l, const Eigen::VectorXd& q) const
  {
    Eigen::Isometry3d f = Eigen::Isometry3d::Identity();
    f.translation()(0) = pose(l, q);
    t[l] = f;
  }
  void test(ContactResultMap& r)
  {
    tests.push_back(now);
    now.moved = false;
    answer(r, static_cast<int>(tests.size()) - 1);
  }
};
void Arm::calcFwdKin(TransformMap& t, const Eigen::Ref<const Eigen::VectorXd>& q) const
{
  w.put(t, "m0", q);
  w.put(t, "m1", q);
}
template <class Base>
struct Manager : Base
{
  explicit Manager(World& w) : w(w) {}
  World& w;
  void setActiveCollisionObjects(const std::vector<std::string>& n) override { w.active = n; }
  void applyContactManagerConfig(const tesseract::collision::ContactManagerConfig& c) override
  {
    w.config = c.margin;
    w.config_first = w.config_first && w.increments == 0;
    ++w.configs;
  }
  const tesseract::common::CollisionMarginData& getCollisionMarginData() const override { return w.margins; }
  void incrementCollisionMargin(double i) override
  {
    w.increment = i;
    ++w.increments;
  }
  void setCollisionObjectsTransform(const std::string& l, const Eigen::Isometry3d& p) override
  {
    w.now.at[l] = { p.translation()(0), p.translation()(0) };
  }
  void setCollisionObjectsTransform(const TransformMap& m) override
  {
    for (const auto& e : m)
      w.now.at[e.first] = { e.second.translation()(0), e.second.translation()(0) };
  }
  void contactTest(ContactResultMap& r, const tesseract::collision::ContactRequest&) override { w.test(r); }
};
using DManager = Manager<tesseract::collision::DiscreteContactManager>;
struct CManager : Manager<tesseract::collision::ContinuousContactManager>
{
  using Base = Manager<tesseract::collision::ContinuousContactManager>;
  using Base::Base;
  using Base::setCollisionObjectsTransform;
  void setCollisionObjectsTransform(const std::string& l, const Eigen::Isometry3d& p, const Eigen::Isometry3d& q) override
  {
    w.now.at[l] = { p.translation()(0), q.translation()(0) };
    w.now.moved = true;
  }
  void setCollisionObjectsTransform(const TransformMap& m, const TransformMap& n) override
  {
    for (const auto& e : m)
      w.now.at[e.first] = { e.second.translation()(0), n.at(e.first).translation()(0) };
    w.now.moved = true;
  }
};
struct Env : tesseract::environment::Environment
{
  explicit Env(World& w) : w(w) {}
  World& w;
  void getLinkTransforms(TransformMap& t, const std::vector<std::string>& names, const Eigen::Ref<const Eigen::VectorXd>& q) const override
  {
    sym::check(names == std::vector<std::string>{ "j0", "j1" }, "joint names of the manipulator");
    w.put(t, "m0", q);
    w.put(t, "m1", q);
    w.put(t, "e0", q);
  }
  std::vector<std::string> getActiveLinkNames() const override { return { "m0", "e0", "m1" }; }
  std::unique_ptr<tesseract::collision::DiscreteContactManager> getDiscreteContactManager() const override { return std::make_unique<DManager>(w); }
  std::unique_ptr<tesseract::collision::ContinuousContactManager> getContinuousContactManager() const override { return std::make_unique<CManager>(w); }
};

struct Setup
{
  World w;
  std::shared_ptr<Arm> arm;
  std::shared_ptr<Env> env;
  double buffer, pair_margin, pair_coeff, default_coeff, default_margin;
  int zero;  // 0 none, 1 (m0,s) has coefficient zero
  TrajOptCollisionConfig cfg;
  Setup(int dof, CollisionEvaluatorType type, double lvs)
  {
    arm = std::make_shared<Arm>(dof, w);
    env = std::make_shared<Env>(w);
    buffer = sym::real_in("buffer", 0, 10);
    default_margin = sym::real_in("margin", -10, 10);
    pair_margin = sym::real_in("pair margin", -10, 10);
    w.margins = tesseract::common::CollisionMarginData(default_margin);
    w.margins.setCollisionMargin("m1", "s", pair_margin);
    default_coeff = sym::real_in("coeff", 1, 10);
    pair_coeff = sym::real_in("pair coeff", 1, 10);
    zero = sym::choose("zero", 2);
    cfg = TrajOptCollisionConfig(default_margin, default_coeff, {}, type, lvs);
    cfg.collision_margin_buffer = buffer;
    cfg.collision_coeff_data.setCollisionCoeff("s", "m1", pair_coeff);
    if (zero == 1)
      cfg.collision_coeff_data.setCollisionCoeff("m0", "s", 0);
  }
  double margin(const LinkNamesPair& p) const { return p == LinkNamesPair("m1", "s") ? pair_margin : default_margin; }
  double coeff(const LinkNamesPair& p) const { return p == LinkNamesPair("m1", "s") ? pair_coeff : (zero == 1 && p == LinkNamesPair("m0", "s")) ? 0 : default_coeff; }
  void configured()
  {
    sym::check((w.active == std::vector<std::string>{ "m0", "m1" }) || (w.active == std::vector<std::string>{ "m1", "m0" }), "links of the manipulator are active");
    sym::check(w.configs == 1 && w.increments == 1 && w.config_first, "configured once, margin raised once");
    sym::check_eq(w.config, default_margin, "configuration");
    sym::check_eq(w.increment, buffer, "margin raised by the buffer");
  }
};

struct Hit
{
  LinkNamesPair pair;
  ContactResult r;
  int id;
};
const LinkNamesPair kPairs[3] = { { "m0", "m1" }, { "m0", "s" }, { "m1", "s" } };
Hit hit(const std::string& nm, int pair, int shape, int id, bool swapped = false)
{
  Hit h;
  h.pair = kPairs[pair];
  h.id = id;
  h.r.link_names = { h.pair.first, h.pair.second };
  if (swapped)
    std::swap(h.r.link_names[0], h.r.link_names[1]);
  h.r.shape_id = { 0, shape };
  h.r.subshape_id = { -1, -1 };
  h.r.distance = sym::real_in(nm + ".distance", -100, 100);
  h.r.normal = Eigen::Vector3d(1, 0, 0);
  h.r.transform[0].translation()(1) = id;
  return h;
}

bool kept(const Setup& s, const Hit& h)
{
  if (s.zero == 1 && h.pair == kPairs[1])
    return false;
  return h.r.distance <= s.margin(h.pair) + s.buffer;
}
int idOf(const ContactResult& r) { return static_cast<int>(r.transform[0].translation()(1)); }
}  // namespace
