// Interval classification, bound errors and violations, clamping, and bound construction.
// @unit trajopt_ifopt/src/core/bounds.cpp
// @unit trajopt_ifopt/src/utils/ifopt_utils.cpp
#include "util.h"
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
using namespace trajopt_ifopt;
using hu::INF;

namespace
{
// any interval a caller can hand over: finite, one-sided or unbounded limits; "unbounded" is any magnitude >= 1e20
void anyLimits(const std::string& n, double& lo, double& hi, bool ordered = true, bool huge = false)
{
  int kinds = huge ? 3 : 2;
  int l = sym::choose(n + ".lo.kind", kinds), h = sym::choose(n + ".hi.kind", kinds);
  lo = l == 0 ? sym::real_in(n + ".lo", -1e6, 1e6) : (l == 1 ? -INF : -1e20);
  hi = h == 0 ? sym::real_in(n + ".hi", -1e6, 1e6) : (h == 1 ? INF : 1e20);
  if (ordered)
    sym::assume_le(lo, hi);
}
bool fin(double v) { return v < 1e20 && v > -1e20; }
void checkClass(const Bounds& b, double lo, double hi, const char* where)
{
  std::string w(where);
  sym::check_eq(b.getLower(), lo, w + ":lower");
  sym::check_eq(b.getUpper(), hi, w + ":upper");
  BoundsType t = b.getType();
  if (!fin(lo) && !fin(hi))
    sym::check(t == BoundsType::kUnbounded, w + ":unbounded");
  else if (!fin(lo))
    sym::check(t == BoundsType::kUpperBound, w + ":upper-only");
  else if (!fin(hi))
    sym::check(t == BoundsType::kLowerBound, w + ":lower-only");
  else
  {
    double gap = hu::absv(hi - lo);
    if (gap < 0.5e-8)
      sym::check(t == BoundsType::kEquality, w + ":equality");
    else if (gap > 2e-8)
      sym::check(t == BoundsType::kRangeBound, w + ":range");
  }
}
}  // namespace

SYM_HARNESS(classify)
{
  sym::bound("one interval, any finite limits with magnitude <= 1e6 or unbounded (>= 1e20 / infinite), one further update of either limit or a shift");
  double lo, hi;
  anyLimits("b", lo, hi, false, true);
  Bounds b(lo, hi);
  checkClass(b, lo, hi, "ctor");
  switch (sym::choose("op", 5))
  {
    case 0:
    {
      double v = sym::flag("inf") ? -INF : sym::real_in("v", -1e6, 1e6);
      b.setLower(v);
      checkClass(b, v, hi, "setLower");
      break;
    }
    case 1:
    {
      double v = sym::flag("inf") ? INF : sym::real_in("v", -1e6, 1e6);
      b.setUpper(v);
      checkClass(b, lo, v, "setUpper");
      break;
    }
    case 2:
    {
      double l2, h2;
      anyLimits("c", l2, h2, false, true);
      b.set(l2, h2);
      checkClass(b, l2, h2, "set");
      break;
    }
    case 3:
    {
      double s = sym::real_in("s", -1e6, 1e6);
      b += s;
      checkClass(b, lo + s, hi + s, "plus");
      break;
    }
    default:
    {
      double s = sym::real_in("s", -1e6, 1e6);
      b -= s;
      checkClass(b, lo - s, hi - s, "minus");
    }
  }
}

SYM_HARNESS(errors)
{
  const int n = sym::thorough() ? 3 : 2;
  sym::bound("vectors of up to " + std::to_string(n) + " elements, every combination of finite / one-sided / unbounded limits");
  int m = 1 + sym::choose("n", n);
  Eigen::VectorXd x(m), e(m), v(m), lo(m), hi(m);
  std::vector<Bounds> b;
  for (int i = 0; i < m; ++i)
  {
    x(i) = sym::real("x" + std::to_string(i));
    double l, h;
    anyLimits("b" + std::to_string(i), l, h);
    lo(i) = l;
    hi(i) = h;
    b.emplace_back(l, h);
  }
  calcBoundsErrors(e, x, b);
  calcBoundsViolations(v, x, b);
  for (int i = 0; i < m; ++i)
  {
    sym::check_le(0, v(i), "violation-nonnegative");
    if (x(i) < lo(i))
    {
      sym::check_eq(e(i), x(i) - lo(i), "error-below");
      sym::check_eq(v(i), lo(i) - x(i), "violation-below");
      sym::cover("below");
    }
    else if (x(i) > hi(i))
    {
      sym::check_eq(e(i), x(i) - hi(i), "error-above");
      sym::check_eq(v(i), x(i) - hi(i), "violation-above");
      sym::cover("above");
    }
    else
    {
      sym::check_eq(e(i), 0.0, "error-inside");
      sym::check_eq(v(i), 0.0, "violation-inside");
      sym::cover("inside");
    }
  }
}

SYM_HARNESS(clamp)
{
  const int n = sym::thorough() ? 3 : 2;
  sym::bound("clamp of vectors of up to " + std::to_string(n) + " elements");
  int m = 1 + sym::choose("n", n);
  Eigen::VectorXd x(m), lo(m), hi(m);
  std::vector<Bounds> b;
  for (int i = 0; i < m; ++i)
  {
    x(i) = sym::real("x" + std::to_string(i));
    double l, h;
    anyLimits("b" + std::to_string(i), l, h);
    lo(i) = l;
    hi(i) = h;
    b.emplace_back(l, h);
  }
  Eigen::VectorXd y = getClosestValidPoint(x, b);
  sym::check(y.size() == m, "clamp-size");
  for (int i = 0; i < m; ++i)
  {
    sym::check_le(lo(i), y(i), "clamp-lower");
    sym::check_le(y(i), hi(i), "clamp-upper");
    // nearest: any other admissible point is at least as far away
    sym::check_eq(hu::absv(y(i) - x(i)), hu::dist(x(i), lo(i), hi(i)), "clamp-nearest");
  }
}

// the same clamp with exact IEEE semantics: any double except NaN, any ordered limits including infinities
SYM_HARNESS(clamp_fp)
{
  sym::bound("clamp in exact IEEE-754 double arithmetic, one element, every non-NaN double");
  double x = sym::real("x"), l = sym::real("l"), h = sym::real("h");
  sym::assume_le(x, INF);
  sym::assume_le(l, h);
  Eigen::VectorXd v(1), e(1), w(1);
  v << x;
  std::vector<Bounds> b{ Bounds(l, h) };
  Eigen::VectorXd y = getClosestValidPoint(v, b);
  sym::check_le(l, y(0), "fp-lower");
  sym::check_le(y(0), h, "fp-upper");
  if (l <= x && x <= h)
    sym::check_eq(y(0), x, "fp-inside-unchanged");
  else if (x < l)
    sym::check_eq(y(0), l, "fp-below-lower");
  else
    sym::check_eq(y(0), h, "fp-above-upper");
  calcBoundsViolations(w, y, b);
  sym::check_eq(w(0), 0.0, "fp-no-violation-left");
}

SYM_HARNESS(tobounds)
{
  sym::bound("limit tables with up to 3 rows");
  int n = sym::choose("n", 4);
  Eigen::MatrixX2d m(n, 2);
  Eigen::VectorXd lo(n), hi(n);
  for (int i = 0; i < n; ++i)
  {
    m(i, 0) = lo(i) = sym::real("lo");
    m(i, 1) = hi(i) = sym::real("hi");
  }
  std::vector<Bounds> a = toBounds(m), b = toBounds(lo, hi);
  sym::check(static_cast<int>(a.size()) == n && static_cast<int>(b.size()) == n, "tobounds-size");
  for (int i = 0; i < n; ++i)
  {
    auto k = static_cast<std::size_t>(i);
    sym::check_eq(a[k].getLower(), lo(i), "tobounds-lo");
    sym::check_eq(a[k].getUpper(), hi(i), "tobounds-hi");
    sym::check_eq(b[k].getLower(), lo(i), "tobounds2-lo");
    sym::check_eq(b[k].getUpper(), hi(i), "tobounds2-hi");
  }
}

SYM_HARNESS(interp)
{
  sym::bound("2..6 steps, dimension 2");
  int steps = 2 + sym::choose("steps", 5);
  Eigen::VectorXd s = hu::vec("s", 2), e = hu::vec("e", 2);
  auto r = interpolate(s, e, steps);
  sym::check(static_cast<int>(r.size()) == steps, "interp-count");
  for (int k = 0; k < steps; ++k)
    for (int d = 0; d < 2; ++d)
      sym::check_eq(r[static_cast<std::size_t>(k)](d) * (steps - 1), s(d) * (steps - 1 - k) + e(d) * k, "interp-value");
}
