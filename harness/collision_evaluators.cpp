// Collision evaluators of trajopt_ifopt over a collision library that answers anything.
// @unit trajopt_common/src/collision_types.cpp
// @unit trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
// @unit trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
#include "collision_world.h"
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
using namespace trajopt_ifopt;

namespace
{
/** the sets: every kept contact once, grouped by link pair and shapes, with the pair's coefficient; worst first when truncated */
void checkSets(const Setup& s, const std::vector<GradientResultsSet>& sets, const std::vector<Hit>& in, std::size_t allowed, bool motion)
{
  std::vector<std::pair<LinkNamesPair, int>> groups;
  std::vector<double> worst;
  std::vector<int> size;
  for (const Hit& h : in)
  {
    std::size_t g = 0;
    while (g < groups.size() && groups[g] != std::make_pair(h.pair, h.r.shape_id[1]))
      ++g;
    const double e = s.margin(h.pair) - h.r.distance;
    if (g == groups.size())
    {
      groups.emplace_back(h.pair, h.r.shape_id[1]);
      worst.push_back(e);
      size.push_back(0);
    }
    if (e > worst[g])
      worst[g] = e;
    ++size[g];
  }
  sym::check(sets.size() == groups.size(), "one set per link pair and shapes");
  std::vector<double> order;
  std::vector<bool> used(groups.size(), false);
  for (const auto& gs : sets)
  {
    std::size_t g = 0;
    while (g < groups.size() && !(LinkNamesPair(gs.key) == groups[g].first && static_cast<int>(gs.shape_key.second) == groups[g].second))
      ++g;
    sym::check(g < groups.size() && !used[g], "set of a reported link pair");
    if (g >= groups.size())
      continue;
    used[g] = true;
    sym::check(static_cast<int>(gs.results.size()) == size[g] && gs.is_continuous == motion, "contacts of the set");
    sym::check_eq(gs.getMaxError(), worst[g], "worst error of the set");
    sym::check_eq(gs.getMaxErrorWithBuffer(), worst[g] + s.buffer, "worst error of the set with buffer");
    sym::check_eq(gs.coeff, s.coeff(gs.key), "coefficient of the pair");
    order.push_back(worst[g]);
  }
  if (sets.size() > allowed)
  {
    for (std::size_t i = 0; i < allowed; ++i)
      for (std::size_t j = allowed; j < order.size(); ++j)
        sym::check_le(order[j], order[i], "worst contacts are kept");
    sym::cover("truncated");
  }
}
void checkMap(const ContactResultMap& m, const std::vector<Hit>& in)
{
  std::size_t n = 0;
  for (const auto& p : m)
    for (const auto& r : p.second)
    {
      ++n;
      bool found = false;
      for (const Hit& h : in)
        found = found || (h.pair == p.first && h.id == idOf(r));
      sym::check(found, "only contacts that matter are reported");
    }
  sym::check(n == in.size() && static_cast<std::size_t>(m.count()) == n, "every contact that matters is reported");
}
}  // namespace

SYM_HARNESS(single_state)
{
  sym::bound("3 link pairs, up to 3 contacts of any distance, any margins, 1..2 rows or all contacts, static and changing scene, two states in a row");
  const int dof = 2;
  Setup s(dof, CollisionEvaluatorType::DISCRETE, 0.1);
  const bool dynamic = sym::flag("dynamic");
  SingleTimestepCollisionEvaluator ev(s.arm, s.env, s.cfg, dynamic);
  s.configured();
  sym::check_eq(ev.getCollisionMarginBuffer(), s.buffer, "buffer");
  sym::check_eq(ev.getCollisionMarginData().getCollisionMargin("m1", "s"), s.pair_margin, "margins without the buffer");
  sym::check_eq(ev.getCollisionCoeffData().getCollisionCoeff("m1", "s"), s.pair_coeff, "coefficients");
  const int script = sym::choose("script", 5);
  std::vector<Hit> hits;
  if (script >= 1)
    hits.push_back(hit("a", 1, 0, 1));
  if (script >= 2)
    hits.push_back(hit("b", 2, 0, 2));
  if (script == 3)
    hits.push_back(hit("c", 2, 0, 3, true));  // same pair, links the other way round: the moving link comes second
  if (script == 4)
    hits.push_back(hit("c", 2, 1, 3, true));
  if (script == 2)
    std::swap(hits[1].r.link_names[0], hits[1].r.link_names[1]);
  CollisionCacheData d;
  for (int step = 0; step < 2; ++step)
  {
    const Eigen::VectorXd q = hu::vec(step == 0 ? "q" : "r", dof);
    if (step == 1)
      hits.resize(hits.empty() ? 0 : 1);
    std::vector<Hit> want;
    for (const Hit& h : hits)
      if (kept(s, h))
        want.push_back(h);
    s.w.answer = [&](ContactResultMap& m, int) {
      for (const Hit& h : hits)
        m.addContactResult(h.pair, h.r);
    };
    s.w.tests.clear();
    const std::size_t allowed = static_cast<std::size_t>(step == 0 ? sym::choose("allowed", 3) : 1);
    ev.calcCollisions(d, q, allowed);
    sym::check(s.w.tests.size() == 1, "one test per state");
    std::vector<std::string> links{ "m0", "m1" };
    if (dynamic)
      links.push_back("e0");
    for (const auto& l : links)
    {
      const auto& at = s.w.tests[0].at;
      sym::check(at.count(l) == 1, "link placed");
      if (at.count(l) == 1)
        sym::check_eq(at.at(l)[0], s.w.pose(l, q), "links placed at the joint values");
    }
    checkMap(d.contact_results_map, want);
    if (allowed == 0)
    {
      sym::check(d.gradient_results_sets.empty(), "no gradients unless asked for");
      continue;
    }
    checkSets(s, d.gradient_results_sets, want, allowed, false);
    if (!want.empty() && step == 0 && script == 1)
    {
      const auto& g = d.gradient_results_sets.at(0).results.at(0).gradients[0];
      const Eigen::VectorXd e = hu::pointGradient(*s.arm, q, want[0].r, 0, Eigen::Matrix3d::Identity());
      for (int k = 0; k < dof; ++k)
        sym::check_eq(g.gradient(k), e(k), "gradient");
      sym::cover("gradient");
    }
  }
  sym::require_cover("truncated");
  sym::require_cover("gradient");
}

namespace
{
/** expected sampling of the motion: as few equal pieces as keep each no longer than the longest valid segment */
void checkSegments(const Setup& s, const Eigen::VectorXd& q0, const Eigen::VectorXd& q1, double dist, double lvs, bool whole, bool sweep)
{
  const auto& t = s.w.tests;
  const int n = static_cast<int>(t.size()) - (sweep ? 0 : 1);
  sym::check(n >= 1, "at least one segment");
  if (n < 1)
    return;
  if (whole)
    sym::check(n == 1, "one segment");
  else
  {
    sym::check_le(dist, lvs * n, "segments are no longer than allowed");
    if (n > 1)
    {
      sym::check_lt(lvs * (n - 1), dist, "no more segments than needed");
      sym::cover("subdivided");
    }
    else
      sym::cover("whole");
  }
  for (std::size_t k = 0; k < t.size(); ++k)
    for (const char* l : { "m0", "m1" })
    {
      if (t[k].at.count(l) != 1)
      {
        sym::fail("link placed");
        continue;
      }
      const Eigen::VectorXd a = q0 + (q1 - q0) * (double(k) / n), b = q0 + (q1 - q0) * (double(k + 1) / n);
      const auto& at = t[k].at.at(l);
      sym::check_near(at[0], s.w.pose(l, a), 1e-9, "start of the segment");
      if (sweep)
        sym::check_near(at[1], s.w.pose(l, b), 1e-9, "end of the segment");
      sym::check(t[k].moved == sweep, "swept or single pose");
    }
}
}  // namespace

SYM_HARNESS(subdivision)
{
  const int dof = sym::thorough() ? 2 : 1;
  const int kind = sym::choose("kind", 3);  // 0 continuous, 1 subdivided continuous, 2 subdivided discrete
  const double lvs = sym::real_in("lvs", 0.5, 4);
  const int maxn = sym::thorough() ? 5 : 4;
  sym::bound(std::to_string(dof) + " joint(s), longest segment in [0.5, 4], motions of up to " + std::to_string(maxn) + " segments");
  const CollisionEvaluatorType types[3] = { CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS, CollisionEvaluatorType::LVS_DISCRETE };
  Setup s(dof, types[kind], lvs);
  const bool dynamic = sym::flag("dynamic");
  std::shared_ptr<ContinuousCollisionEvaluator> ev;
  if (kind == 2)
    ev = std::make_shared<LVSDiscreteCollisionEvaluator>(s.arm, s.env, s.cfg, dynamic);
  else
    ev = std::make_shared<LVSContinuousCollisionEvaluator>(s.arm, s.env, s.cfg, dynamic);
  s.configured();
  sym::check_eq(ev->getCollisionMarginBuffer(), s.buffer, "buffer");
  sym::check_eq(ev->getCollisionMarginData().getCollisionMargin("m1", "s"), s.pair_margin, "margins without the buffer");
  sym::check_eq(ev->getCollisionCoeffData().getCollisionCoeff("m1", "s"), s.pair_coeff, "coefficients");
  const Eigen::VectorXd q0 = hu::vec_in("q", dof, -10, 10), q1 = hu::vec_in("r", dof, -10, 10);
  double d2 = 0;
  for (int i = 0; i < dof; ++i)
    d2 += (q1(i) - q0(i)) * (q1(i) - q0(i));
  const double dist = std::sqrt(d2);
  if (kind != 0)
    sym::assume_le(dist, lvs * maxn);
  s.w.answer = [](ContactResultMap&, int) {};
  CollisionCacheData d;
  ev->calcCollisionData(d, q0, q1, false, false, static_cast<std::size_t>(sym::choose("allowed", 2)));
  sym::check(d.contact_results_map.empty() && d.gradient_results_sets.empty(), "nothing to report");
  checkSegments(s, q0, q1, dist, lvs, kind == 0, kind != 2);
  if (dynamic)
    for (const auto& t : s.w.tests)
    {
      sym::check(t.at.count("e0") == 1, "other moving links placed");
      if (t.at.count("e0") == 1)
        sym::check_eq(t.at.at("e0")[0], s.w.pose("e0", q0), "other moving links placed");
    }
  sym::require_cover("subdivided");
  sym::require_cover("whole");
}

SYM_HARNESS(motion_contacts)
{
  const int kind = sym::choose("kind", 3);
  const double lvs = 1;
  const int fixed = sym::choose("fixed", 3);
  sym::bound("1 joint, motion of 1 or 2 segments, up to 3 contacts of any distance in any segment, free or one end fixed, 1..2 rows or all contacts");
  const CollisionEvaluatorType types[3] = { CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS, CollisionEvaluatorType::LVS_DISCRETE };
  Setup s(1, types[kind], lvs);
  std::shared_ptr<ContinuousCollisionEvaluator> ev;
  if (kind == 2)
    ev = std::make_shared<LVSDiscreteCollisionEvaluator>(s.arm, s.env, s.cfg, false);
  else
    ev = std::make_shared<LVSContinuousCollisionEvaluator>(s.arm, s.env, s.cfg, false);
  const int segments = kind == 0 ? 1 : 1 + sym::choose("segments", 2);
  Eigen::VectorXd q0(1), q1(1);
  q0(0) = sym::real_in("q", -10, 10);
  q1(0) = q0(0) + (segments == 1 ? 0.5 : 2.0);
  const int tests = kind == 2 ? segments + 1 : segments;
  // the script: which test reports which contacts
  const int script = sym::choose("script", 4);
  struct At
  {
    Hit h;
    int test;
  };
  std::vector<At> all;
  auto add = [&](const char* nm, int pair, int shape, int id, int test, int type) {
    Hit h = hit(nm, pair, shape, id, id == 3);
    if (kind != 2)
      for (std::size_t l = 0; l < 2; ++l)
        if (h.r.link_names[l] != "s")
        {
          h.r.cc_type[l] = type == 0 ? CC::CCType_Time0 : type == 1 ? CC::CCType_Time1 : CC::CCType_Between;
          h.r.cc_time[l] = type == 0 ? 0 : type == 1 ? 1 : 0.25;
        }
    all.push_back({ h, test });
  };
  const int first = sym::choose("where", tests), type = kind == 2 ? 0 : sym::choose("type", 3);
  if (script >= 1)
    add("a", 1, 0, 1, first, type);
  if (script >= 2)
    add("b", 2, 0, 2, tests - 1, 2);
  if (script == 3)
    add("c", 2, 1, 3, 0, 2);
  s.w.answer = [&](ContactResultMap& m, int k) {
    for (const At& a : all)
      if (a.test == k)
        m.addContactResult(a.h.pair, a.h.r);
  };
  // where on the motion each contact lies; contacts entirely at the fixed end cannot be influenced
  std::vector<Hit> want;
  std::vector<double> when;
  for (const At& a : all)
  {
    const std::size_t moving = a.h.r.link_names[0] == "s" ? 1 : 0;
    const double t = kind == 2 ? double(a.test) / segments : (a.test + a.h.r.cc_time[moving]) / segments;
    bool k = kept(s, a.h);
    if (fixed == 1 && t == 0)
      k = false, sym::cover("at the fixed start");
    if (fixed == 2 && t == 1)
      k = false, sym::cover("at the fixed end");
    if (k)
    {
      want.push_back(a.h);
      when.push_back(t);
    }
  }
  const std::size_t allowed = static_cast<std::size_t>(sym::choose("allowed", 3));
  CollisionCacheData d;
  d.gradient_results_sets.resize(2);  // left over from before
  ev->calcCollisionData(d, q0, q1, fixed == 1, fixed == 2, allowed);
  sym::check(static_cast<int>(s.w.tests.size()) == tests, "tests");
  if (kind == 2 || segments > 1)
  {
    const auto& log = d.contact_results_map.log;
    std::size_t j = 0;
    for (int k = 0; k < tests; ++k)
    {
      bool any = false;
      for (const At& a : all)
        any = any || a.test == k;
      if (!any)
        continue;
      if (j >= log.size())
      {
        sym::fail("contacts of a segment reported");
        break;
      }
      sym::check(log[j].index == k && log[j].last == segments && log[j].discrete == (kind == 2), "place on the motion");
      sym::check_near(log[j].dt, 1.0 / segments, 1e-12, "share of the motion");
      sym::check(log[j].active.size() == 2, "moving links");
      ++j;
    }
    sym::check(j == log.size(), "no segment reported twice");
  }
  checkMap(d.contact_results_map, want);
  if (allowed == 0)
    sym::check(d.gradient_results_sets.empty(), "no gradients unless asked for");
  else
  {
    // with one end fixed the sets are ranked without what lies at that end; nothing kept lies only there
    checkSets(s, d.gradient_results_sets, want, allowed, true);
    if (script == 1 && want.size() == 1)
    {
      const auto& r = d.gradient_results_sets.at(0).results.at(0);
      sym::check_near(r.gradients[0].scale, 1 - when[0], 1e-12, "share of the first state");
      sym::check_near(r.cc_gradients[0].scale, when[0], 1e-12, "share of the second state");
      const Eigen::VectorXd e = hu::pointGradient(*s.arm, q0, want[0].r, 0, Eigen::Matrix3d::Identity());
      sym::check_eq(r.gradients[0].gradient(0), e(0), "gradient");
      sym::cover("gradient");
    }
  }
  sym::require_cover("gradient");
  sym::require_cover("truncated");
  sym::require_cover("at the fixed start");
  sym::require_cover("at the fixed end");
}

SYM_HARNESS(evaluator_types)
{
  sym::bound("every evaluator class with every evaluator type");
  const CollisionEvaluatorType all[5] = { CollisionEvaluatorType::NONE, CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
  const int cls = sym::choose("class", 3), type = sym::choose("type", 5);
  Setup s(1, all[type], 1);
  bool threw = false;
  try
  {
    if (cls == 0)
      SingleTimestepCollisionEvaluator e(s.arm, s.env, s.cfg);
    else if (cls == 1)
      LVSContinuousCollisionEvaluator e(s.arm, s.env, s.cfg);
    else
      LVSDiscreteCollisionEvaluator e(s.arm, s.env, s.cfg);
  }
  catch (const std::runtime_error&)
  {
    threw = true;
  }
  const bool ok = cls == 0 ? type == 1 : cls == 1 ? (type == 3 || type == 4) : type == 2;
  sym::check(threw == !ok, "only the types the class implements");
}
