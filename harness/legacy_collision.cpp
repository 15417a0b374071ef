// Collision cost and constraint of trajopt (sco stack) over a collision library that answers anything.
// @unit trajopt_common/src/collision_types.cpp
// @unit trajopt_common/src/logging.cpp
// @unit trajopt/src/utils.cpp
// @unit trajopt_sco/src/expr_ops.cpp
// @unit trajopt_sco/src/expr_vec_ops.cpp
// @unit trajopt_sco/src/modeling.cpp
// @unit trajopt_sco/src/modeling_utils.cpp
// @unit trajopt_sco/src/solver_interface.cpp
#include <boost/functional/hash.hpp>
namespace hl
{
inline std::size_t ordinal(double v);
}
// The hash of a joint vector as an injective function of its values.
namespace boost
{
template <>
struct hash<double>
{
  std::size_t operator()(double v) const { return hl::ordinal(v); }
};
}  // namespace boost
#include "collision_world.h"
#include "picture.h"
#include "sco_model.h"
namespace hl
{
inline std::size_t ordinal(double v)
{
  static std::vector<double>& seen = *new std::vector<double>();
  for (std::size_t i = 0; i < seen.size(); ++i)
    if (seen[i] == v)
      return i + 1;
  seen.push_back(v);
  return seen.size();
}
}  // namespace hl
#include <../src/collision_terms.cpp>
using namespace trajopt;
using sco::AffExpr;
using Type = CollisionExpressionEvaluatorType;
using Map = ContactResultMap;
namespace tk = tesseract::kinematics;

namespace
{
enum Kind
{
  SINGLE,
  LVS_DISCRETE,
  CONTINUOUS,
  LVS_CONTINUOUS
};
const CollisionEvaluatorType kTypes[4] = { CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };

/** a problem of `dof` joints at two instants; the columns of the instants are interleaved with others */
struct Problem : Setup
{
  int dof;
  Kind kind;
  Type type;
  hs::Mock model;
  sco::VarVector all, v0, v1;
  sco::DblVec x;
  std::shared_ptr<const tk::JointGroup> group;
  Problem(int dof, Kind k, Type t, double lvs) : Setup(dof, kTypes[k], lvs), dof(dof), kind(k), type(t)
  {
    group = std::make_shared<tk::JointGroup>(arm.get());
    for (int i = 0; i < 2 * dof + 1; ++i)
      all.push_back(model.addVar("x" + std::to_string(i)));
    for (int i = 0; i < dof; ++i)
    {
      v0.push_back(all[static_cast<std::size_t>(2 * i + 1)]);
      v1.push_back(all[static_cast<std::size_t>(2 * (dof - i))]);
    }
    x.assign(all.size(), 0);
    x[0] = 12345;
  }
  void at(const Eigen::VectorXd& q0, const Eigen::VectorXd& q1)
  {
    for (int i = 0; i < dof; ++i)
    {
      x[v0[static_cast<std::size_t>(i)].var_rep->index] = q0(i);
      if (kind != SINGLE)
        x[v1[static_cast<std::size_t>(i)].var_rep->index] = q1(i);
    }
  }
  std::shared_ptr<CollisionEvaluator> evaluator(bool dynamic = false)
  {
    if (kind == SINGLE)
      return std::make_shared<SingleTimestepCollisionEvaluator>(group, env, cfg, v0, type, dynamic);
    if (kind == LVS_DISCRETE)
      return std::make_shared<DiscreteCollisionEvaluator>(group, env, cfg, v0, v1, type);
    return std::make_shared<CastCollisionEvaluator>(group, env, cfg, v0, v1, type);
  }
  template <class T>
  std::shared_ptr<T> term()
  {
    const auto t = kind == SINGLE ? std::make_shared<T>(group, env, cfg, v0, type) :
                                    std::make_shared<T>(group, env, cfg, v0, v1, type, kind == LVS_DISCRETE);
    sco::VarVector want = v0;
    if (kind != SINGLE)
      want.insert(want.end(), v1.begin(), v1.end());
    const sco::VarVector named = t->getVars();
    bool same = named.size() == want.size();
    for (std::size_t i = 0; same && i < want.size(); ++i)
      same = named[i].var_rep == want[i].var_rep;
    sym::check(same, "variables of the term");
    return t;
  }
  bool free0() const { return type != Type::START_FIXED_END_FREE; }
  bool free1() const { return type == Type::START_FREE_END_FREE || type == Type::START_FIXED_END_FREE; }
};

/** the distance predicted by the linear model: constant and coefficients */
struct Linear
{
  double constant;
  std::vector<double> c;
  std::vector<double> terms;
};
Linear linear(const Problem& p, const ContactResult& r, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1)
{
  Linear l{ r.distance, std::vector<double>(p.all.size(), 0.0), {} };
  for (std::size_t i = 0; i < 2; ++i)
  {
    if (r.link_names[i] == "s")
      continue;
    for (int end = 0; end < 2; ++end)
    {
      if (end == 0 ? !p.free0() : !p.free1())
        continue;
      double share = 1;
      Eigen::Matrix3d R = r.transform[i].linear();
      if (p.kind != SINGLE)
      {
        share = end == 0 ? 1 - r.cc_time[i] : r.cc_time[i];
        if (end == 1)
          R = r.cc_transform[i].linear();
      }
      const Eigen::VectorXd g = hu::pointGradient(*p.arm, end == 0 ? q0 : q1, r, static_cast<int>(i), R);
      for (int k = 0; k < p.dof; ++k)
      {
        const std::size_t v = (end == 0 ? p.v0 : p.v1)[static_cast<std::size_t>(k)].var_rep->index;
        l.c[v] += share * g(k);
        if (share != 0)
          l.terms.push_back(share * g(k));
        l.constant -= share * g(k) * (end == 0 ? q0 : q1)(k);
      }
    }
  }
  return l;
}
/** `got` is coeff * (margin - linear distance) in the problem's columns; terms below 1e-7 may be dropped */
void checkExpr(const Problem& p, const AffExpr& got, const Linear& l, double margin, double coeff, std::size_t ignored)
{
  std::vector<double> c(p.all.size(), 0.0);
  std::vector<bool> has(p.all.size(), false);
  for (std::size_t i = 0; i < got.coeffs.size(); ++i)
  {
    const std::size_t v = got.vars[i].var_rep->index;
    if (v == ignored)
      continue;
    if (v >= c.size())
    {
      sym::fail("only joint columns appear");
      continue;
    }
    c[v] += got.coeffs[i];
    has[v] = true;
  }
  sym::check_eq(got.constant, coeff * (margin - l.constant), "constant of the linear model");
  for (std::size_t v = 0; v < c.size(); ++v)
    if (has[v])
      sym::check_eq(c[v], 0.0 - coeff * l.c[v], "gradient of the linear model");
    else
      sym::check_le(std::fabs(l.c[v]), 1.0000001e-7, "gradient left out of the linear model");
}
void checkCost(const Problem& p, const sco::ConvexObjective& o, const std::vector<Hit>& in, const std::vector<Linear>& l)
{
  sym::check(o.eqs_.empty() && o.ineqs_.size() == in.size() && o.vars_.size() == in.size(), "one hinge per contact");
  sym::check(o.quad_.coeffs.empty(), "the objective is linear in the hinges");
  if (o.ineqs_.size() != in.size() || o.vars_.size() != in.size())
    return;
  std::vector<double> w(in.size(), 0.0);
  for (std::size_t i = 0; i < o.quad_.affexpr.coeffs.size(); ++i)
  {
    bool found = false;
    for (std::size_t k = 0; k < in.size(); ++k)
      if (o.quad_.affexpr.vars[i].var_rep == o.vars_[k].var_rep)
      {
        w[k] += o.quad_.affexpr.coeffs[i];
        found = true;
      }
    sym::check(found, "only hinges are penalized");
  }
  sym::check_eq(o.quad_.affexpr.constant, 0, "no constant");
  for (std::size_t k = 0; k < in.size(); ++k)
  {
    const std::size_t h = o.vars_[k].var_rep->index;
    sym::check_eq(w[k], p.coeff(in[k].pair), "coefficient of the pair");
    double hc = 0;
    for (std::size_t i = 0; i < o.ineqs_[k].coeffs.size(); ++i)
      if (o.ineqs_[k].vars[i].var_rep->index == h)
        hc += o.ineqs_[k].coeffs[i];
    sym::check_eq(hc, -1, "hinge");
    checkExpr(p, o.ineqs_[k], l[k], p.margin(in[k].pair), 1, h);
  }
}
void checkCnt(const Problem& p, const sco::ConvexConstraints& o, const std::vector<Hit>& in, const std::vector<Linear>& l)
{
  sym::check(o.eqs_.empty() && o.ineqs_.size() == in.size(), "one inequality per contact");
  if (o.ineqs_.size() != in.size())
    return;
  for (std::size_t k = 0; k < in.size(); ++k)
    checkExpr(p, o.ineqs_[k], l[k], p.margin(in[k].pair), p.coeff(in[k].pair), p.all.size() + 1000);
}
void checkValues(const Problem& p, double cost, const sco::DblVec& cnt, const std::vector<Hit>& in)
{
  double sum = 0;
  sym::check(cnt.size() == in.size(), "one value per contact");
  for (std::size_t k = 0; k < in.size(); ++k)
  {
    const double e = p.margin(in[k].pair) - in[k].r.distance;
    const double v = e > 0 ? e * p.coeff(in[k].pair) : 0;
    sum += v;
    if (cnt.size() == in.size())
      sym::check_eq(cnt[k], v, "violation of a contact");
  }
  sym::check_eq(cost, sum, "cost");
}
/** joint values in disjoint ranges: looking up the cache of collision results then compares no two of them */
Eigen::VectorXd apart(const std::string& n, int dof, int from)
{
  Eigen::VectorXd q(dof);
  for (int i = 0; i < dof; ++i)
    q(i) = sym::real_in(n + std::to_string(i), 5.0 * (from + i) - 10, 5.0 * (from + i) - 5.5);
  return q;
}
Type typeOf(int i) { return i == 0 ? Type::START_FREE_END_FREE : i == 1 ? Type::START_FIXED_END_FREE : Type::START_FREE_END_FIXED; }
}  // namespace

SYM_HARNESS(one_contact)
{
  sym::bound("2 joints, one or both links moving, any distance, normal, contact points, joint values and moment of contact, all evaluators, free or one end fixed");
  const int dof = 2;
  const int kind = sym::choose("kind", 2);  // a state, a motion
  const Type type = kind == 0 ? Type::SINGLE_TIME_STEP : typeOf(sym::choose("type", 3));
  Problem p(dof, kind == 0 ? SINGLE : LVS_CONTINUOUS, type, 1e6);
  for (const char* l : { "m0", "m1" })
    for (int r = 0; r < 6; ++r)
      for (int c = 0; c < dof; ++c)
      {
        p.arm->base[l](r, c) = (3 * r + 5 * c + (l[1] == '0' ? 1 : 2)) % 7 - 2;
        p.arm->slope[l](r, c) = 0;
      }
  const int pair = sym::choose("pair", 2) * 2;  // m0-m1, m1-s
  Hit h = hit("a", pair, 0, 1, sym::flag("swapped"));
  const bool points = sym::flag("points");  // what is arbitrary: the contact points or the normal
  h.r.normal = points ? Eigen::Vector3d(2, -1, 3) : hu::vec3("n.");
  for (std::size_t i = 0; i < 2; ++i)
  {
    const std::string s = std::to_string(i);
    h.r.nearest_points_local[i] = points ? hu::vec3("p" + s + ".") : Eigen::Vector3d(i == 0 ? 1 : -2, 5, 3);
    h.r.transform[i].linear() << 0, -1, 0, 1, 0, 0, 0, 0, 1;
    h.r.cc_transform[i].linear() << 1, 0, 0, 0, 0, -1, 0, 1, 0;
    if (kind == 1 && h.r.link_names[i] != "s")
    {
      const int when = sym::choose("when" + s, 3);
      h.r.cc_type[i] = when == 0 ? CC::CCType_Time0 : when == 1 ? CC::CCType_Time1 : CC::CCType_Between;
      h.r.cc_time[i] = when == 0 ? 0 : when == 1 ? 1 : 0.25;
    }
  }
  sym::assume_le(h.r.distance, p.margin(h.pair) + p.buffer);
  bool only0 = true, only1 = true;
  for (std::size_t i = 0; i < 2; ++i)
    if (h.r.link_names[i] != "s")
    {
      only0 = only0 && h.r.cc_type[i] == CC::CCType_Time0;
      only1 = only1 && h.r.cc_type[i] == CC::CCType_Time1;
    }
  const bool gone = kind == 1 && ((only0 && !p.free0()) || (only1 && !p.free1()));
  if (gone)
    sym::cover("entirely at the fixed end");
  std::vector<Hit> want;
  if (!gone)
    want.push_back(h);
  const Eigen::VectorXd q0 = apart("q", dof, 0), q1 = kind == 0 ? q0 : apart("r", dof, dof);
  p.at(q0, q1);
  p.w.answer = [&](Map& m, int) { m.addContactResult(h.pair, h.r); };
  std::vector<Linear> lin;
  for (const Hit& w : want)
    lin.push_back(linear(p, w.r, q0, q1));
  // the model drops terms below 1e-7: keep away from them
  for (const Linear& l : lin)
    for (double t : l.terms)
      sym::assume_lt(1e-6, t);
  if (sym::flag("cost"))
  {
    auto c = p.term<CollisionCost>();
    auto o = c->convex(p.x, &p.model);
    checkCost(p, *o, want, lin);
  }
  else
  {
    auto c = p.term<CollisionConstraint>();
    auto o = c->convex(p.x, &p.model);
    checkCnt(p, *o, want, lin);
  }
  sym::require_cover("entirely at the fixed end");
}

SYM_HARNESS(contacts)
{
  sym::bound("1 joint, a state or a motion of 1 or 2 segments, up to 3 contacts of any distance anywhere on it, any margins and coefficients, free or one end fixed");
  const int kind = sym::choose("kind", 3);  // a state, a sampled motion, a swept motion
  const Type type = kind == 0 ? Type::SINGLE_TIME_STEP : typeOf(sym::choose("type", 3));
  Problem p(1, kind == 0 ? SINGLE : kind == 1 ? LVS_DISCRETE : sym::flag("subdivide") ? LVS_CONTINUOUS : CONTINUOUS, type, 1);
  for (const char* l : { "m0", "m1" })
  {
    p.arm->base[l].setZero();
    p.arm->base[l](0, 0) = l[1] == '0' ? 2 : -3;
  }
  const bool whole = p.kind == CONTINUOUS;  // swept in one piece whatever its length
  const bool far = kind != 0 && sym::choose("segments", 2) == 1;
  const int segments = far && !whole ? 2 : 1;
  const int tests = kind == 0 ? 1 : kind == 1 ? segments + 1 : segments;
  Eigen::VectorXd q0(1), q1(1);
  q0(0) = sym::real_in("q", -10, 10);
  q1(0) = q0(0) + (far ? 2.0 : 0.5);
  p.at(q0, q1);
  struct At
  {
    Hit h;
    int test;
  };
  std::vector<At> all;
  auto add = [&](const char* nm, int pair, int id, int test, int when) {
    Hit h = hit(nm, pair, 0, id, id == 3);
    if (kind == 2)
      for (std::size_t l = 0; l < 2; ++l)
        if (h.r.link_names[l] != "s")
        {
          h.r.cc_type[l] = when == 0 ? CC::CCType_Time0 : when == 1 ? CC::CCType_Time1 : CC::CCType_Between;
          h.r.cc_time[l] = when == 0 ? 0 : when == 1 ? 1 : 0.25;
        }
    all.push_back({ h, test });
  };
  const int script = sym::choose("script", 4);
  const int first = sym::choose("where", tests), when = kind == 2 ? sym::choose("when", 3) : 0;
  if (script >= 1)
    add("a", 1, 1, first, when);
  if (script >= 2)
    add("b", 2, 2, tests - 1, 2);
  if (script == 3)
    add("c", sym::choose("pair", 2) * 2, 3, 0, 2);
  p.w.answer = [&](Map& m, int k) {
    for (const At& a : all)
      if (a.test == k)
        m.addContactResult(a.h.pair, a.h.r);
  };
  std::vector<Hit> want;
  for (int pair = 0; pair < 3; ++pair)  // reported by link pair, then along the motion
    for (int t = 0; t < tests; ++t)
      for (const At& a : all)
      {
        if (a.test != t || a.h.pair != kPairs[pair] || !kept(p, a.h))
          continue;
        Hit h = a.h;
        bool at0 = true, at1 = true;
        for (std::size_t i = 0; i < 2; ++i)
          if (h.r.link_names[i] != "s")
          {
            h.r.cc_time[i] = kind == 1 ? double(t) / segments : (t + h.r.cc_time[i]) / segments;
            at0 = at0 && h.r.cc_time[i] == 0;
            at1 = at1 && h.r.cc_time[i] == 1;
          }
        if (kind != 0 && at0 && !p.free0())
          sym::cover("at the fixed start");
        else if (kind != 0 && at1 && !p.free1())
          sym::cover("at the fixed end");
        else
          want.push_back(h);
      }
  std::vector<Linear> lin;
  for (const Hit& w : want)
    lin.push_back(linear(p, w.r, q0, q1));
  auto cost = p.term<CollisionCost>();
  p.configured();
  auto cnt = p.term<CollisionConstraint>();
  p.w.tests.clear();
  const double v = cost->value(p.x);
  sym::check(static_cast<int>(p.w.tests.size()) == tests, "tests");
  auto o = cost->convex(p.x, &p.model);
  sym::check(static_cast<int>(p.w.tests.size()) == tests, "the collision test is not repeated for the model");
  p.w.tests.clear();
  const sco::DblVec u = cnt->value(p.x);
  p.w.tests.clear();
  auto c = cnt->convex(p.x, &p.model);
  checkValues(p, v, u, want);
  checkCost(p, *o, want, lin);
  checkCnt(p, *c, want, lin);
  sym::require_cover("at the fixed start");
  sym::require_cover("at the fixed end");
}

SYM_HARNESS(legacy_subdivision)
{
  const int dof = sym::thorough() ? 2 : 1;
  const int maxn = sym::thorough() ? 5 : 4;
  const Kind kind = static_cast<Kind>(sym::choose("kind", 4));
  sym::bound(std::to_string(dof) + " joint(s), longest segment in [0.5, 4], motions of up to " + std::to_string(maxn) + " segments");
  const double lvs = sym::real_in("lvs", 0.5, 4);
  Problem p(dof, kind, kind == SINGLE ? Type::SINGLE_TIME_STEP : typeOf(sym::choose("type", 3)), lvs);
  const bool dynamic = kind == SINGLE && sym::flag("dynamic");
  auto ev = p.evaluator(dynamic);
  p.configured();
  const Eigen::VectorXd q0 = hu::vec_in("q", dof, -10, 10), q1 = hu::vec_in("r", dof, -10, 10);
  double d2 = 0;
  for (int i = 0; i < dof; ++i)
    d2 += (q1(i) - q0(i)) * (q1(i) - q0(i));
  const double dist = std::sqrt(d2);
  if (kind != SINGLE)
    sym::assume_le(dist, lvs * maxn);
  p.at(q0, q1);
  p.w.answer = [](Map&, int) {};
  Map m;
  ev->CalcCollisions(p.x, m);
  sym::check(m.empty(), "nothing to report");
  const auto& t = p.w.tests;
  if (kind == SINGLE)
  {
    sym::check(t.size() == 1, "one test per state");
    for (const char* l : { "m0", "m1", "e0" })
      if (dynamic || l[0] == 'm')
      {
        sym::check(t[0].at.count(l) == 1, "link placed");
        if (t[0].at.count(l) == 1)
          sym::check_eq(t[0].at.at(l)[0], p.w.pose(l, q0), "links placed at the joint values");
      }
    return;
  }
  const bool sweep = kind != LVS_DISCRETE;
  const int n = static_cast<int>(t.size()) - (sweep ? 0 : 1);
  sym::check(n >= 1, "at least one segment");
  if (n < 1)
    return;
  if (kind == CONTINUOUS)
    sym::check(n == 1, "swept in one piece");
  else
    sym::check_le(dist, lvs * n, "segments are no longer than allowed");
  if (n > 1)
  {
    sym::check_lt(lvs * (n - 1), dist, "no more segments than needed");
    sym::cover("subdivided");
  }
  for (std::size_t k = 0; k < t.size(); ++k)
    for (const char* l : { "m0", "m1" })
    {
      if (t[k].at.count(l) != 1)
      {
        sym::fail("link placed");
        continue;
      }
      const Eigen::VectorXd a = q0 + (q1 - q0) * (double(k) / n), b = q0 + (q1 - q0) * (double(k + 1) / n);
      sym::check_near(t[k].at.at(l)[0], p.w.pose(l, a), 1e-9, "start of the segment");
      if (sweep)
        sym::check_near(t[k].at.at(l)[1], p.w.pose(l, b), 1e-9, "end of the segment");
      sym::check(t[k].moved == sweep, "swept or single pose");
    }
  sym::require_cover("subdivided");
}

SYM_HARNESS(legacy_types)
{
  sym::bound("every evaluator class with every evaluator type and every choice of free ends");
  const CollisionEvaluatorType all[5] = { CollisionEvaluatorType::NONE, CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
  const Kind cls = static_cast<Kind>(sym::choose("class", 3));
  const int type = sym::choose("type", 5), ends = sym::choose("ends", 5);
  Problem p(1, cls, ends < 4 ? static_cast<Type>(ends) : static_cast<Type>(77), 1);
  p.cfg.collision_check_config.type = all[type];
  const int what = sym::choose("what", 3);
  bool threw = false;
  try
  {
    if (what == 0)
      p.evaluator();
    else if (what == 1)
      p.term<CollisionCost>();
    else
      p.term<CollisionConstraint>();
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  const bool ok = cls == SINGLE ? type == 1 && ends == 3 : (cls == LVS_DISCRETE ? type == 2 : type == 3 || type == 4) && ends < 3;
  sym::check(threw == !ok, "only what the class implements");
}

SYM_HARNESS(legacy_history)
{
  sym::bound("any history of 4 evaluations (value or model) at 3 points of a state or a motion, 1 joint, distances differ at every point");
  const int kind = sym::choose("kind", 2);
  Problem p(1, kind == 0 ? SINGLE : LVS_CONTINUOUS, kind == 0 ? Type::SINGLE_TIME_STEP : Type::START_FREE_END_FREE, 1e6);
  for (const char* l : { "m0", "m1" })
  {
    p.arm->base[l].setZero();
    p.arm->base[l](0, 0) = 2;
  }
  double dist[3], q[3], r[3];
  for (int i = 0; i < 3; ++i)
  {
    const std::string s = std::to_string(i);
    dist[i] = sym::real_in("distance" + s, -100, 100);
    sym::assume_le(dist[i], p.default_margin + p.buffer);
    q[i] = i == 1 ? 0.0 : sym::real_in("q" + s, 3 * i + 1, 3 * i + 2);
  }
  r[0] = q[1];  // the points share values
  r[1] = q[0];
  r[2] = q[2];
  int now = 0;
  p.w.answer = [&](Map& m, int) {
    Hit h = hit("unused", 0, 0, 1);
    h.r.distance = dist[now];
    for (std::size_t i = 0; i < 2; ++i)
    {
      h.r.cc_type[i] = CC::CCType_Between;
      h.r.cc_time[i] = 0.5;
    }
    if (kind == 0)
      h.r.cc_type = { CC::CCType_None, CC::CCType_None };
    m.addContactResult(kPairs[0], h.r);
  };
  auto cost = p.term<CollisionCost>();
  for (int step = 0; step < 4; ++step)
  {
    now = sym::choose("point" + std::to_string(step), 3);
    Eigen::VectorXd a(1), b(1);
    a(0) = q[now];
    b(0) = r[now];
    p.at(a, b);
    if (sym::flag("model" + std::to_string(step)))
    {
      auto o = cost->convex(p.x, &p.model);
      sym::check(o->ineqs_.size() == 1, "one hinge per contact");
      if (o->ineqs_.size() == 1)
      {
        // the two links move along: the gradients cancel and the distance is left
        double v = o->ineqs_[0].constant;
        for (std::size_t i = 0; i < o->ineqs_[0].coeffs.size(); ++i)
          if (o->ineqs_[0].vars[i].var_rep->index < p.all.size())
            v += o->ineqs_[0].coeffs[i] * p.x[o->ineqs_[0].vars[i].var_rep->index];
        sym::check_eq(v, p.default_margin - dist[now], "contacts of the point asked about");
      }
    }
    else
    {
      const double e = p.default_margin - dist[now];
      sym::check_eq(cost->value(p.x), e > 0 ? e * p.default_coeff : 0, "contacts of the point asked about");
    }
  }
}

SYM_HARNESS(legacy_cache)
{
  const int steps = sym::thorough() ? 6 : 5;
  sym::bound("any history of " + std::to_string(steps) + " insertions and lookups of 3 keys, zero among them, 2 places");
  Cache<std::size_t, double> c(2);
  std::vector<std::pair<std::size_t, double>> log;
  for (int i = 0; i < steps; ++i)
  {
    const std::size_t key = static_cast<std::size_t>(sym::choose("key" + std::to_string(i), 3));
    double* got = c.get(key);
    int last = -1;
    for (int j = 0; j < static_cast<int>(log.size()); ++j)
      if (log[static_cast<std::size_t>(j)].first == key)
        last = j;
    if (last < 0)
      sym::check(got == nullptr, "nothing is found that was not inserted");
    else if (last >= static_cast<int>(log.size()) - 2)
      sym::check(got != nullptr, "what was inserted recently is found");
    else
      sym::check(got == nullptr, "old entries are overwritten");
    if (got != nullptr && last >= 0)
      sym::check_eq(*got, log[static_cast<std::size_t>(last)].second, "the value inserted for the key is found");
    if (got == nullptr && sym::flag("put" + std::to_string(i)))
    {
      const double v = sym::real("v" + std::to_string(i));
      c.put(key, v);
      log.emplace_back(key, v);
    }
  }
}

SYM_HARNESS(drawn)
{
  sym::bound("2 joints, a state or a motion of one segment, 0..2 contacts of any distance, normal and contact points, one or both links moving, any margins");
  const int dof = 2;
  const int kind = sym::choose("kind", 3);
  Problem p(dof, kind == 0 ? SINGLE : kind == 1 ? LVS_DISCRETE : CONTINUOUS, kind == 0 ? Type::SINGLE_TIME_STEP : Type::START_FREE_END_FREE, 1e6);
  for (const char* l : { "m0", "m1" })
    for (int r = 0; r < 6; ++r)
      for (int c = 0; c < dof; ++c)
        p.arm->base[l](r, c) = (3 * r + 5 * c + (l[1] == '0' ? 1 : 2)) % 7 - 2;
  const int n = sym::choose("contacts", 3);
  std::vector<Hit> want;
  for (int k = 0; k < n; ++k)
  {
    const std::string s = "c" + std::to_string(k);
    Hit h = hit(s, k == 0 ? 2 * sym::choose("pair", 2) : 2, k, k, k == 0 && sym::flag("swapped"));
    h.r.normal = k == 0 ? hu::vec3("n.") : Eigen::Vector3d(2, -1, 3);
    for (std::size_t i = 0; i < 2; ++i)
    {
      h.r.nearest_points_local[i] = Eigen::Vector3d(i == 0 ? 1 : -2, 5 + k, 3);
      h.r.nearest_points[i] = hu::vec3(s + "p" + std::to_string(i) + ".");
    }
    want.push_back(h);
  }
  const Eigen::VectorXd q0 = apart("q", dof, 0), q1 = kind == 0 ? q0 : apart("r", dof, dof);
  p.at(q0, q1);
  bool asked = false;
  p.w.answer = [&](Map& m, int t) {
    if (t == 0)
      for (const Hit& h : want)
        m.addContactResult(h.pair, h.r);
    asked = true;
  };
  const auto term = p.term<CollisionCost>();
  const auto pic = std::make_shared<hu::Picture>();
  term->Plot(pic, p.x);
  sym::check(asked, "looked for contacts at the iterate");
  want.erase(std::remove_if(want.begin(), want.end(), [&](const Hit& h) { return !kept(p, h); }), want.end());
  if (want.empty())
    sym::cover("nothing to show");
  int lists = 0;
  std::vector<hu::Picture::Event> arrows;
  for (const auto& e : pic->events)
  {
    if (e.kind == '>')
      arrows.push_back(e);
    if (e.kind != 'c')
      continue;
    ++lists;
    sym::check(e.links == p.arm->getActiveLinkNames(), "moving links");
    const bool all = e.contacts.size() == want.size() && e.margins.size() == want.size();
    sym::check(all, "the contacts of the iterate");
    if (!all)
      sym::stop();
    for (std::size_t k = 0; k < want.size(); ++k)
    {
      sym::check(idOf(e.contacts[k]) == want[k].id, "the contacts of the iterate");
      sym::check_eq(e.contacts[k].distance, want[k].r.distance, "distance");
      sym::check_eq(e.margins[k], p.margin(want[k].pair), "margin of the pair");
    }
  }
  sym::check(lists == 1, "shown once");
  std::size_t a = 0;
  for (const Hit& h : want)
    for (std::size_t i = 0; i < 2; ++i)
    {
      // a state shows the first link only
      if (h.r.link_names[i] == "s" || (kind == 0 && i == 1))
        continue;
      const bool there = a < arrows.size();
      sym::check(there, "an arrow per moving link");
      if (!there)
        sym::stop();
      const Eigen::Vector3d local = h.r.nearest_points_local[i];
      const Eigen::VectorXd g = hu::pointGradient(*p.arm, q0, h.r, static_cast<int>(i), Eigen::Matrix3d::Identity());
      const Eigen::VectorXd q = q0 + g;
      hu::same_point(arrows[a].from, h.r.nearest_points[i], "arrow from the contact point");
      hu::same_point(arrows[a].to, Eigen::Vector3d(p.w.pose(h.r.link_names[i], q) + local(0), local(1), local(2)), "arrow to where the gradient takes it");
      ++a;
    }
  sym::check(a == arrows.size(), "an arrow per moving link");
}
