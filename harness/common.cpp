// Small data structures and helpers of trajopt_common.
#include "util.h"
#include <list>
#include <trajopt_common/basic_array.hpp>
#include <trajopt_common/cache.h>
#include <trajopt_common/eigen_conversions.hpp>
#include <trajopt_common/eigen_slicing.hpp>
#include <trajopt_common/interpolation.hpp>
#include <trajopt_common/utils.hpp>
#include <trajopt_common/vector_ops.hpp>
using namespace trajopt_common;

namespace
{
struct Value
{
  int dummy{ 0 };
};
// every key collides, so the table decides by comparing (symbolic) keys alone
struct Collide
{
  std::size_t operator()(double) const { return 0; }
};
using C = Cache<double, Value, Collide>;

/** what a cache is: an ordered list of (key, object), most recent first, and the objects handed out and not returned */
struct Spec
{
  struct E
  {
    double key;
    C::Ptr p;
  };
  std::list<E> lru;
  std::vector<C::Ptr> out;  // handed out, not yet put
  std::size_t capacity;
  std::vector<C::Ptr> known;

  std::list<E>::iterator find(double k)
  {
    for (auto it = lru.begin(); it != lru.end(); ++it)
      if (it->key == k)
        return it;
    return lru.end();
  }
  C::Ptr get(double k)
  {
    auto it = find(k);
    if (it == lru.end())
      return nullptr;
    lru.splice(lru.begin(), lru, it);
    return lru.front().p;
  }
  bool isOut(const C::Ptr& p) const { return std::find(out.begin(), out.end(), p) != out.end(); }
  /** the implementation handed out p for a key that is not cached: legal? */
  void acquired(const C::Ptr& p)
  {
    sym::check(p != nullptr && !isOut(p), "acquire-not-in-use");
    const bool full = lru.size() + out.size() >= capacity;
    if (full && lru.empty())
    {
      sym::cover("grow");
      capacity *= 2;
    }
    else if (full)
    {
      sym::cover("evict");
      sym::check(lru.back().p == p, "evicts-least-recent");
      lru.pop_back();
    }
    for (const auto& e : lru)
      sym::check(e.p != p, "acquire-not-cached");
    out.push_back(p);
    if (std::find(known.begin(), known.end(), p) == known.end())
      known.push_back(p);
    sym::check(known.size() <= capacity, "pool-size");
  }
  void put(double k, const C::Ptr& p)
  {
    lru.remove_if([&](const E& e) { return e.p == p || e.key == k; });
    out.erase(std::remove(out.begin(), out.end(), p), out.end());
    lru.push_front({ k, p });
  }
  void erase(double k)
  {
    auto it = find(k);
    if (it != lru.end())
      lru.erase(it);
  }
};
void cache_history(int steps, std::size_t capacity)
{
  C c(capacity);
  Spec s;
  s.capacity = capacity == 0 ? 1 : capacity;
  for (int i = 0; i < steps; ++i)
  {
    const std::string n = "op" + std::to_string(i);
    const int op = i == 0 ? 1 : sym::choose(n, 4);
    const double k = sym::real(n + "_key");
    switch (op)
    {
      case 0:
      {
        const C::Ptr want = s.get(k);
        sym::check(c.get(k) == want, "get");
        if (want)
          sym::cover("hit");
        break;
      }
      case 1:
      {
        const C::Ptr want = s.get(k);
        const auto [p, hit] = c.getOrAcquire(k);
        sym::check(hit == (want != nullptr), "hit");
        if (want)
          sym::check(p == want, "acquire-hit");
        else
          s.acquired(p);
        break;
      }
      case 2:
      {
        if (s.known.empty())
          break;
        const C::Ptr p = s.known[static_cast<std::size_t>(sym::choose(n + "_ptr", static_cast<int>(s.known.size())))];
        s.put(k, p);
        sym::check(c.put(k, p), "put");
        break;
      }
      default:
        s.erase(k);
        c.erase(k);
    }
    sym::check(c.size() == s.lru.size() && c.capacity() == s.capacity, "size");
  }
  sym::check(!c.put(sym::real("null_key"), nullptr), "put-null");
  // the cached content and the order of eviction: from the most to the least recent, so that the order is unchanged after
  for (auto it = s.lru.rbegin(); it != s.lru.rend(); ++it)
    sym::check(c.get(it->key) == it->p, "content");
}
}  // namespace

SYM_HARNESS(cache)
{
  const int steps = sym::thorough() ? 7 : 6;
  sym::bound("histories of " + std::to_string(steps) + " get, getOrAcquire, put and erase with any keys (equal or not) on caches of capacity 0, 1 and 2");
  cache_history(steps, static_cast<std::size_t>(sym::choose("capacity", 3)));
  sym::require_cover("evict");
  sym::require_cover("grow");
  sym::require_cover("hit");
}

SYM_HARNESS(arrays)
{
  sym::bound("arrays of up to 3 x 3, every block of them");
  const int R = sym::choose("rows", 4), K = sym::choose("cols", 4);
  std::vector<double> d;
  for (int i = 0; i < R * K; ++i)
    d.push_back(sym::real("d" + std::to_string(i)));
  auto at = [&](int r, int c) { return d[static_cast<std::size_t>(r * K + c)]; };
  BasicArray<double> a(R, K, d.data());
  sym::check(a.rows() == R && a.cols() == K && a.size() == R * K, "shape");
  auto expect = [&](BasicArray<double> b, int r0, int c0, int nr, int nc, const char* l) {
    sym::check(b.rows() == nr && b.cols() == nc && b.size() == nr * nc, l);
    for (int r = 0; r < nr; ++r)
      for (int c = 0; c < nc; ++c)
        sym::check_eq(b(r, c), at(r0 + r, c0 + c), l);
  };
  expect(a, 0, 0, R, K, "copy");
  const int r0 = sym::choose("r0", R + 1), nr = sym::choose("nr", R - r0 + 1);
  expect(a.middleRows(r0, nr), r0, 0, nr, K, "middleRows");
  expect(a.topRows(nr), 0, 0, nr, K, "topRows");
  expect(a.bottomRows(nr), R - nr, 0, nr, K, "bottomRows");
  const int c0 = sym::choose("c0", K + 1), nc = sym::choose("nc", K - c0 + 1);
  expect(a.block(r0, c0, nr, nc), r0, c0, nr, nc, "block");
  if (r0 < R && c0 < K)
  {
    const auto rb = a.rblock(r0, c0, nc), cb = a.cblock(r0, c0, nr), row = a.row(r0), col = a.col(c0);
    sym::check(static_cast<int>(rb.size()) == nc && static_cast<int>(cb.size()) == nr && static_cast<int>(row.size()) == K && static_cast<int>(col.size()) == R, "vectors");
    for (int i = 0; i < nc; ++i)
      sym::check_eq(rb[static_cast<std::size_t>(i)], at(r0, c0 + i), "rblock");
    for (int i = 0; i < nr; ++i)
      sym::check_eq(cb[static_cast<std::size_t>(i)], at(r0 + i, c0), "cblock");
    for (int i = 0; i < K; ++i)
      sym::check_eq(row[static_cast<std::size_t>(i)], at(r0, i), "row");
    for (int i = 0; i < R; ++i)
      sym::check_eq(col[static_cast<std::size_t>(i)], at(i, c0), "col");
    const double v = sym::real("v");
    a(r0, c0) = v;
    d[static_cast<std::size_t>(r0 * K + c0)] = v;
    expect(a, 0, 0, R, K, "assign");
  }
  const auto f = a.flatten();
  sym::check(f.size() == d.size(), "flatten");
}

SYM_HARNESS(slices)
{
  sym::bound("vectors of up to 3 elements, index lists of up to 3 with repetitions, matrices of up to 2 x 2");
  const int n = 1 + sym::choose("n", 3);
  Eigen::VectorXd x = hu::vec("x", n);
  std::vector<int> inds;
  for (int i = 0, k = sym::choose("k", 4); i < k; ++i)
    inds.push_back(sym::choose("i" + std::to_string(i), n));
  const Eigen::VectorXd s = fancySlice(x, inds);
  sym::check(s.size() == static_cast<Eigen::Index>(inds.size()), "slice");
  for (std::size_t i = 0; i < inds.size(); ++i)
    sym::check_eq(s(static_cast<Eigen::Index>(i)), x(inds[i]), "slice");
  const std::vector<int> nz = flatnonzero(x);
  std::size_t k = 0;
  for (int i = 0; i < n; ++i)
    if (x(i) != 0)
      sym::check(k < nz.size() && nz[k++] == i, "nonzero");
  sym::check(k == nz.size(), "nonzero");
  std::vector<double> v(x.data(), x.data() + n);
  const Eigen::VectorXd e = toVectorXd(v);
  sym::check(e.size() == n, "vector");
  const auto cat = concat(v, std::vector<double>(s.data(), s.data() + s.size()));
  sym::check(cat.size() == v.size() + inds.size(), "concat");
  for (int i = 0; i < n; ++i)
  {
    sym::check_eq(e(i), x(i), "vector");
    sym::check_eq(cat[static_cast<std::size_t>(i)], x(i), "concat");
  }
  for (std::size_t i = 0; i < inds.size(); ++i)
    sym::check_eq(cat[v.size() + i], x(inds[i]), "concat");
  Eigen::MatrixXd m(2, 2);
  m << sym::real("m0"), sym::real("m1"), sym::real("m2"), sym::real("m3");
  const std::vector<double> dv = toDblVec(m);
  sym::check(dv.size() == 4, "row-major");
  for (int i = 0; i < 4; ++i)
    sym::check_eq(dv[static_cast<std::size_t>(i)], m(i / 2, i % 2), "row-major");
  const double y = sym::real("y"), eps = sym::real_in("eps", 0, 1);
  const double diff = hu::absv(x(0) - y);
  sym::check(doubleEquals(x(0), y, eps) == (diff < eps), "equals");
  const auto ar = arange(n);
  sym::check(static_cast<int>(ar.size()) == n && ar.front() == 0 && ar.back() == n - 1, "arange");
}

SYM_HARNESS(interpolation)
{
  sym::bound("1 to 3 increasing knots, 1 or 2 nondecreasing queries anywhere, 2 columns");
  const int n = 1 + sym::choose("knots", 3), q = 1 + sym::choose("queries", 2);
  Eigen::VectorXd x(n), z(q);
  for (int i = 0; i < n; ++i)
  {
    x(i) = sym::real_in("x" + std::to_string(i), -100, 100);
    if (i > 0)
      sym::assume_lt(x(i - 1), x(i));
  }
  for (int i = 0; i < q; ++i)
  {
    z(i) = sym::real_in("z" + std::to_string(i), -200, 200);
    if (i > 0)
      sym::assume_le(z(i - 1), z(i));
  }
  Eigen::MatrixXd y(n, 2);
  for (int i = 0; i < n; ++i)
  {
    y(i, 0) = sym::real_in("y" + std::to_string(i), -100, 100);
    y(i, 1) = i * i;
  }
  const Eigen::VectorXi s = searchsorted(z, x);
  const Eigen::MatrixXd w = interp2d(z, x, y);
  sym::check(w.rows() == q && w.cols() == 2 && s.size() == q, "shape");
  for (int i = 0; i < q; ++i)
  {
    int pos = 0;
    while (pos < n && x(pos) < z(i))
      ++pos;
    sym::check(s(i) == pos, "position");
    for (int c = 0; c < 2; ++c)
    {
      if (!(x(0) < z(i)))
        sym::check_eq(w(i, c), y(0, c), "before");
      else if (pos == n)
        sym::check_eq(w(i, c), y(n - 1, c), "after");
      else
        // (w - y0) (x1 - x0) = (y1 - y0) (z - x0)
        sym::check_eq((w(i, c) - y(pos - 1, c)) * (x(pos) - x(pos - 1)), (y(pos, c) - y(pos - 1, c)) * (z(i) - x(pos - 1)), "between");
    }
  }
}
