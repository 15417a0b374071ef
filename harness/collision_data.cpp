// Collision coefficients, contact filtering, gradients and the bookkeeping of the worst errors.
// @unit trajopt_common/src/collision_types.cpp
#include "collision.h"
using namespace trajopt_common;
using hu::CC;
using hu::ContactResult;
using tesseract::common::LinkNamesPair;

SYM_HARNESS(coefficients)
{
  const char* names[3] = { "a", "b", "c" };
  const double def = sym::real("default");
  CollisionCoeffData d(def), e(def);
  const bool late = sym::flag("late default");
  if (late)
  {
    d = CollisionCoeffData();
    d.setDefaultCollisionCoeff(def);
  }
  sym::check_eq(d.getDefaultCollisionCoeff(), def, "default");
  double val[3][3];
  bool set[3][3] = {};
  const int n = sym::thorough() ? 4 : 3;
  sym::bound("3 objects, " + std::to_string(n) + " settings in any order, any coefficients");
  for (int k = 0; k < n; ++k)
  {
    const int pair = late ? 0 : sym::choose("pair" + std::to_string(k), 6);
    const int tab[6][2] = { { 0, 1 }, { 1, 0 }, { 0, 2 }, { 2, 0 }, { 1, 2 }, { 2, 1 } };
    const int i = tab[pair][0], j = tab[pair][1];
    const double c = sym::real("c" + std::to_string(k));
    d.setCollisionCoeff(names[i], names[j], c);
    val[i][j] = val[j][i] = c;
    set[i][j] = set[j][i] = true;
  }
  std::size_t zeros = 0, count = 0;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
    {
      if (i == j)
        continue;
      sym::check_eq(d.getCollisionCoeff(names[i], names[j]), set[i][j] ? val[i][j] : def, "lookup");
      if (i < j)
      {
        const bool listed = d.getPairsWithZeroCoeff().count(LinkNamesPair(names[i], names[j])) != 0;
        if (set[i][j])
        {
          ++count;
          if (val[i][j] == 0)
            sym::check(listed, "zero coefficient listed"), sym::cover("zero");
          else if (val[i][j] > 1e-5 || val[i][j] < -1e-5)
            sym::check(!listed, "non-zero coefficient not listed");
          zeros += listed ? 1 : 0;
        }
        else
          sym::check(!listed, "unset pair not listed");
      }
    }
  sym::check(d.getPairsWithZeroCoeff().size() == zeros && d.getCollisionCoeffPairData().size() == count, "sizes");
  sym::require_cover("zero");
}

SYM_HARNESS(coefficient_equality)
{
  sym::bound("2 objects pairs, tolerance of the comparison excluded (differences of at least 1e-3)");
  const double d1 = sym::real_in("d1", -10, 10), d2 = sym::real_in("d2", -10, 10), c1 = sym::real_in("c1", -10, 10), c2 = sym::real_in("c2", -10, 10);
  CollisionCoeffData a(d1), b(d2);
  const bool sa = sym::flag("sa"), sb = sym::flag("sb"), swapped = sym::flag("swapped"), other = sym::flag("other pair");
  if (sa)
    a.setCollisionCoeff("x", "y", c1);
  if (sb)
  {
    const std::string second = other ? "z" : "y";
    swapped ? b.setCollisionCoeff(second, "x", c2) : b.setCollisionCoeff("x", second, c2);
  }
  auto apart = [](double u, double v) { return u > v + 1e-3 || u < v - 1e-3; };
  const bool same_d = d1 == d2, same_c = c1 == c2;
  if (same_d && sa == sb && (!sa || (same_c && !other)))
  {
    sym::check(a == b && b == a && !(a != b), "equal");
    sym::cover("equal");
  }
  else if (apart(d1, d2) || sa != sb || (sa && (other || apart(c1, c2))))
  {
    sym::check(!(a == b) && !(b == a) && a != b, "different");
    sym::cover("different");
  }
  sym::require_cover("equal");
  sym::require_cover("different");
}

SYM_HARNESS(filter_contacts)
{
  const int n = sym::thorough() ? 3 : 2;
  sym::bound(std::to_string(n) + " contacts, any distances, margins, contact types at both links, none or one end fixed");
  const double margin = sym::real("margin"), buffer = sym::real("buffer");
  const int fixed = sym::choose("fixed", 3);
  const CC all[4] = { CC::CCType_None, CC::CCType_Time0, CC::CCType_Time1, CC::CCType_Between };
  std::vector<ContactResult> in;
  std::vector<int> keep;
  tesseract::collision::ContactResultVector v;
  for (int k = 0; k < n; ++k)
  {
    ContactResult r;
    const std::string s = std::to_string(k);
    r.distance = sym::real("d" + s);
    const int t0 = sym::choose("a" + s, 4), t1 = sym::choose("b" + s, 4);
    r.cc_type = { all[t0], all[t1] };
    r.shape_id = { k, k };
    v.push_back(r);
    // at the fixed end only: no side moves elsewhere
    const bool end0 = (t0 == 0 || t0 == 1) && (t1 == 0 || t1 == 1), end1 = (t0 == 0 || t0 == 2) && (t1 == 0 || t1 == 2);
    bool k1 = !(fixed == 1 && end0) && !(fixed == 2 && end1);
    if (k1)
      k1 = r.distance <= margin + buffer;
    in.push_back(r);
    if (k1)
      keep.push_back(k);
  }
  removeInvalidContactResults(v, margin, buffer, fixed == 1, fixed == 2);
  sym::check(v.size() == keep.size(), "contacts kept");
  for (std::size_t i = 0; i < v.size() && i < keep.size(); ++i)
  {
    sym::check(v[i].shape_id[0] == keep[i], "order kept");
    sym::check_eq(v[i].distance, in[static_cast<std::size_t>(keep[i])].distance, "contact unchanged");
    sym::cover("kept");
  }
  if (keep.size() < in.size())
    sym::cover("dropped");
  sym::require_cover("kept");
  sym::require_cover("dropped");
}

namespace
{
ContactResult contact(bool act0, bool act1)
{
  ContactResult c;
  c.link_names = { act0 ? "m0" : "s0", act1 ? "m1" : "s1" };
  c.distance = sym::real("distance");
  c.normal = hu::vec3("n");
  for (std::size_t i = 0; i < 2; ++i)
  {
    const std::string s = std::to_string(i);
    c.nearest_points_local[i] = hu::vec3("p" + s);
    c.transform[i] = hu::frame("T" + s);
    c.cc_transform[i] = hu::frame("C" + s);
  }
  return c;
}
void checkVec(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const std::string& w)
{
  sym::check(a.size() == b.size(), w + ":size");
  for (Eigen::Index i = 0; i < a.size() && i < b.size(); ++i)
    sym::check_eq(a(i), b(i), w);
}
}  // namespace

SYM_HARNESS(gradient_state)
{
  sym::bound("2 joints, any Jacobian depending on the joints, any contact");
  hu::Manip m(2, { "m0", "m1" }, true);
  const bool act[2] = { sym::flag("act0"), sym::flag("act1") };
  const ContactResult c = contact(act[0], act[1]);
  const Eigen::VectorXd q = hu::vec("q", 2);
  const double margin = sym::real("margin"), buffer = sym::real("buffer");
  GradientResults r;
  getGradient(r, q, c, margin, buffer, m);
  sym::check_eq(r.error, margin - c.distance, "error");
  sym::check_eq(r.error_with_buffer, margin + buffer - c.distance, "error with buffer");
  for (int i = 0; i < 2; ++i)
  {
    const auto& g = r.gradients[static_cast<std::size_t>(i)];
    sym::check(g.has_gradient == act[i] && !r.cc_gradients[static_cast<std::size_t>(i)].has_gradient, "only active links have a gradient");
    if (!act[i])
      continue;
    checkVec(g.gradient, hu::pointGradient(m, q, c, i, c.transform[static_cast<std::size_t>(i)].linear()), "gradient");
    sym::check_eq(g.scale, 1, "scale");
  }
  r.clear();
  for (std::size_t i = 0; i < 2; ++i)
    sym::check(!r.gradients[i].has_gradient && !r.cc_gradients[i].has_gradient && r.error == 0 && r.error_with_buffer == 0, "clear");
}

SYM_HARNESS(gradient_motion)
{
  sym::bound("2 joints, any Jacobian depending on the joints, any contact between two states, time in [0, 1]");
  hu::Manip m(sym::thorough() ? 2 : 1, { "m0", "m1" }, true);
  const int which = sym::choose("active", 3);
  const bool act[2] = { which != 1, which != 0 };
  ContactResult c = contact(act[0], act[1]);
  const Eigen::VectorXd q0 = hu::vec("q", m.dof), q1 = hu::vec("r", m.dof);
  const double margin = sym::real("margin"), buffer = sym::real("buffer");
  const CC all[3] = { CC::CCType_Time0, CC::CCType_Time1, CC::CCType_Between };
  for (std::size_t i = 0; i < 2; ++i)
    if (act[i])
    {
      c.cc_type[i] = all[sym::choose("type" + std::to_string(i), 3)];
      c.cc_time[i] = c.cc_type[i] == CC::CCType_Time0 ? 0 : c.cc_type[i] == CC::CCType_Time1 ? 1 : sym::real_in("t" + std::to_string(i), 0, 1);
    }
  GradientResults r;
  getGradient(r, q0, q1, c, margin, buffer, m);
  sym::check_eq(r.error, margin - c.distance, "error");
  sym::check_eq(r.error_with_buffer, margin + buffer - c.distance, "error with buffer");
  for (int i = 0; i < 2; ++i)
  {
    const std::size_t u = static_cast<std::size_t>(i);
    const auto &g = r.gradients[u], &h = r.cc_gradients[u];
    sym::check(g.has_gradient == act[i] && h.has_gradient == act[i], "only active links have a gradient");
    if (!act[i])
      continue;
    // the contact lies at this joint configuration on the motion
    const double t = c.cc_time[u];
    const Eigen::VectorXd q = q0 + (q1 - q0) * t;
    checkVec(g.gradient, hu::pointGradient(m, q, c, i, c.transform[u].linear()), "gradient at the first state");
    checkVec(h.gradient, hu::pointGradient(m, q, c, i, c.cc_transform[u].linear()), "gradient at the second state");
    sym::check_eq(g.scale, 1 - t, "share of the first state");
    sym::check_eq(h.scale, t, "share of the second state");
    sym::check(g.cc_type == c.cc_type[u] && h.cc_type == c.cc_type[u], "contact type");
  }
}

SYM_HARNESS(worst_errors)
{
  const int n = sym::thorough() ? 3 : 2;
  sym::bound(std::to_string(n) + " results, any errors in [-100, 100], any mix of active links and contact types");
  GradientResultsSet s;
  std::vector<double> e, eb;
  // per result and link: 0 no gradient, 1 None, 2 Time0, 3 Time1, 4 Between
  std::vector<std::array<int, 2>> kind;
  const CC all[5] = { CC::CCType_None, CC::CCType_None, CC::CCType_Time0, CC::CCType_Time1, CC::CCType_Between };
  for (int k = 0; k < n; ++k)
  {
    const std::string t = std::to_string(k);
    GradientResults r;
    r.error = sym::real_in("e" + t, -100, 100);
    r.error_with_buffer = sym::real_in("b" + t, -100, 100);
    std::array<int, 2> kd{ sym::choose("l" + t, 5), 0 };
    if (sym::thorough() || k == 0)
      kd[1] = sym::choose("m" + t, 5);
    else
      kd[1] = sym::choose("m" + t, 2) == 0 ? 0 : 3;
    if (!sym::thorough())
      sym::assume(!(kd[0] == 4 && kd[1] == 4));
    for (std::size_t i = 0; i < 2; ++i)
    {
      r.gradients[i].has_gradient = kd[i] != 0;
      r.gradients[i].cc_type = all[kd[i]];
    }
    kind.push_back(kd);
    e.push_back(r.error);
    eb.push_back(r.error_with_buffer);
    s.add(r);
  }
  sym::check(static_cast<int>(s.results.size()) == n, "results kept");
  auto worst = [&](int when, bool buffer, bool& any) {  // 0 without T1, 1 without T0, 2 all
    double w = 0;
    any = false;
    for (int k = 0; k < n; ++k)
      for (std::size_t i = 0; i < 2; ++i)
      {
        const int kd = kind[static_cast<std::size_t>(k)][i];
        if (kd == 0 || (when == 0 && kd == 3) || (when == 1 && kd == 2))
          continue;
        const double v = buffer ? eb[static_cast<std::size_t>(k)] : e[static_cast<std::size_t>(k)];
        w = any ? (v > w ? v : w) : v;
        any = true;
        break;
      }
    return w;
  };
  auto get = [&](int q, bool& threw) {
    threw = false;
    try
    {
      return q == 0 ? s.getMaxErrorT0() : q == 1 ? s.getMaxErrorT1() : q == 2 ? s.getMaxError() : q == 3 ? s.getMaxErrorWithBufferT0() :
                                                                    q == 4 ? s.getMaxErrorWithBufferT1() : s.getMaxErrorWithBuffer();
    }
    catch (const std::runtime_error&)
    {
      threw = true;
      return 0.0;
    }
  };
  const int buffered = sym::choose("buffered", 2);
  for (int q = 3 * buffered; q < 3 * buffered + 3; ++q)
  {
  const char* nm[6] = { "T0", "T1", "all", "T0 with buffer", "T1 with buffer", "all with buffer" };
    bool any = false, threw = false;
    const double w = worst(q % 3, q >= 3, any);
  const double got = get(q, threw);
  sym::check(threw == !any, std::string("refused when there is none: ") + nm[q]);
  if (!threw && any)
  {
    sym::check_eq(got, w, std::string("worst error ") + nm[q]);
    sym::cover("worst");
  }
  }
  sym::require_cover("worst");
}
