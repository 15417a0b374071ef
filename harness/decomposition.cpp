// Convex decomposition: incremental hulls, meshes, voxel and tetrahedron sets and their cuts.
// @unit trajopt_ext/vhacd/src/vhacdICHull.cpp
// @unit trajopt_ext/vhacd/src/vhacdManifoldMesh.cpp
// @unit trajopt_ext/vhacd/src/vhacdMesh.cpp
// @unit trajopt_ext/vhacd/src/vhacdVolume.cpp
// @unit trajopt_ext/vhacd/src/btConvexHullComputer.cpp
// @unit trajopt_ext/vhacd/src/btAlignedAllocator.cpp
// @unit trajopt_ext/vhacd/src/FloatMath.cpp
#include "util.h"
#include <array>
#include <map>
#include <set>
#include <vhacd/inc/vhacdICHull.h>
#include <vhacd/inc/vhacdMesh.h>
#include <vhacd/inc/vhacdVolume.h>
using namespace VHACD;

namespace
{
using P = Vec3<double>;
using Pts = std::vector<P>;
using Tri = std::array<int, 3>;
P sub(const P& a, const P& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
/** six times the volume of a, b, c, d; positive when a, b, c turn clockwise seen from d */
double det(const P& a, const P& b, const P& c, const P& d)
{
  const P u = sub(a, d), v = sub(b, d), w = sub(c, d);
  return u[0] * (v[1] * w[2] - v[2] * w[1]) + u[1] * (v[2] * w[0] - v[0] * w[2]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
}
P point(const std::string& n, double r = 8)
{
  return { sym::real_in(n + "x", -r, r), sym::real_in(n + "y", -r, r), sym::real_in(n + "z", -r, r) };
}
bool same(const P& a, const P& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
P mean(const Pts& p)
{
  P m(0, 0, 0);
  for (const auto& q : p)
    for (int h = 0; h < 3; ++h)
      m[h] += q[h] / static_cast<double>(p.size());
  return m;
}
const Pts corner{ { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
struct Shape
{
  Pts v;
  std::vector<Tri> t;
};
Shape shape(ICHull& h)
{
  Shape s;
  TMMesh& m = h.GetMesh();
  std::vector<Vec3<double>> v(m.GetNVertices());
  std::vector<Vec3<int32_t>> t(m.GetNTriangles());
  m.GetIFS(v.data(), t.data());
  s.v.assign(v.begin(), v.end());
  for (auto& x : t)
    s.t.push_back({ x[0], x[1], x[2] });
  return s;
}
/** a closed surface of triangles between the points given, seen from inside all in one direction */
void closed(const Shape& s, const Pts& in)
{
  std::map<std::pair<int, int>, int> edges;
  std::set<int> used;
  bool ok = true;
  for (const auto& t : s.t)
    for (int k = 0; k < 3; ++k)
    {
      const int a = t[static_cast<std::size_t>(k)], b = t[static_cast<std::size_t>((k + 1) % 3)];
      ok = ok && a != b && a >= 0 && a < static_cast<int>(s.v.size());
      ++edges[{ a, b }];
      used.insert(a);
    }
  for (const auto& e : edges)
    ok = ok && e.second == 1 && edges.count({ e.first.second, e.first.first }) == 1;
  sym::check(ok, "the hull is closed");
  sym::check(used.size() == s.v.size(), "every vertex is used");
  sym::check(s.v.size() + s.t.size() == edges.size() / 2 + 2, "the hull is a ball");
  for (const auto& v : s.v)
  {
    bool found = false;
    for (const auto& p : in)
      found = found || same(p, v);
    sym::check(found, "vertices are input points");
  }
}
Pts five(int at, bool mirrored, const P& p)
{
  Pts in = corner;
  if (mirrored)
    std::swap(in[0], in[1]);
  in.insert(in.begin() + at, p);
  return in;
}
/** the point is off every plane through three of the others (or exactly in it, with flat), so that rounding in the code plays no part */
void apart(const P& p, const Pts& others, bool flat = false)
{
  for (std::size_t a = 0; a < others.size(); ++a)
    for (std::size_t b = a + 1; b < others.size(); ++b)
      for (std::size_t c = b + 1; c < others.size(); ++c)
      {
        const double d = det(others[a], others[b], others[c], p);
        if (std::abs(d) < 1e-3 && !(flat && d == 0))
          sym::stop();
      }
}
}  // namespace

SYM_HARNESS(hull)
{
  sym::bound("4 independent points and a fifth anywhere, at any place in the order; also on the planes of the others");
  const P p = point("p");
  apart(p, corner, true);
  const Pts in = five(sym::choose("at", 5), sym::flag("mirrored"), p);
  ICHull h;
  h.AddPoints(in.data(), in.size());
  const bool all = sym::flag("limit");
  const ICHullError e = all ? h.Process(100, 0.0) : h.Process();
  sym::check(e == ICHullErrorOK, "the hull is made");
  sym::check(!h.IsFlat(), "the hull is not flat");
  const Shape s = shape(h);
  closed(s, in);
  double most = 0;
  for (const auto& t : s.t)
  {
    const P &a = s.v[static_cast<std::size_t>(t[0])], &b = s.v[static_cast<std::size_t>(t[1])], &c = s.v[static_cast<std::size_t>(t[2])];
    for (const auto& q : in)
      sym::check_le(-1e-9, det(a, b, c, q), "every point is enclosed");
    most += det(a, b, c, P(0.2, 0.2, 0.2));
  }
  sym::check_le(1.0 - 1e-9, most, "the hull has at least the volume of a part");
}

SYM_HARNESS(hull_inside)
{
  sym::bound("4 independent points and a fifth anywhere off their planes; any query point off the planes of the hull");
  const P p = point("p");
  apart(p, corner);
  const Pts in = five(sym::choose("at", 5), false, p);
  ICHull h;
  h.AddPoints(in.data(), in.size());
  sym::check(h.Process(100, 0.0) == ICHullErrorOK, "the hull is made");
  // a mixture of the points is inside, the continuation of a way from the middle through a vertex is not
  const P m = mean(in);
  sym::check(h.IsInside(m), "the middle is inside");
  const Shape s = shape(h);
  const P& v = s.v[static_cast<std::size_t>(sym::choose("vertex", static_cast<int>(s.v.size())))];
  P near(0, 0, 0), far(0, 0, 0);
  for (int k = 0; k < 3; ++k)
  {
    near[k] = 0.25 * m[k] + 0.75 * v[k];
    far[k] = 1.25 * v[k] - 0.25 * m[k];
  }
  sym::check(h.IsInside(near), "between middle and vertex is inside");
  sym::check(!h.IsInside(far), "beyond a vertex is outside");
  ICHull copy;
  copy = h;
  sym::check(copy.GetMesh().CheckConsistancy(), "a copy is consistent");
  sym::check(copy.IsInside(near) && !copy.IsInside(far), "a copy answers alike");
}

SYM_HARNESS(hull_limited)
{
  sym::bound("4 independent points and a fifth anywhere off their planes, at any place in the order, with room for 4 of them, or for all that add a volume");
  const P p = point("p");
  apart(p, corner);
  const Pts in = five(sym::choose("at", 5), false, p);
  ICHull h;
  h.AddPoints(in.data(), in.size());
  sym::check(h.Process(4, 0.0) == ICHullErrorOK, "the hull is made");
  const Shape s = shape(h);
  sym::check(s.v.size() <= 4, "no more vertices than allowed");
  closed(s, in);
  ICHull few;
  few.AddPoints(in.data(), static_cast<std::size_t>(sym::choose("few", 3)));
  sym::check(few.Process(100, 0.0) == ICHullErrorNotEnoughPoints && few.Process() == ICHullErrorNotEnoughPoints, "too few points are refused");
}

SYM_HARNESS(hull_of_three)
{
  sym::bound("3 points, the last one anywhere off the line of the others");
  const P p = { sym::real_in("px", -8, 8), sym::real_in("py", 0.125, 8), 0 };
  ICHull h;
  const Pts in{ { 0, 0, 0 }, { 1, 0, 0 }, p };
  h.AddPoints(in.data(), in.size());
  sym::check((sym::flag("limit") ? h.Process(100, 0.0) : h.Process()) == ICHullErrorOK, "the hull is made");
  sym::check(h.IsFlat(), "three points are flat");
  const Shape s = shape(h);
  closed(s, in);
  sym::check(s.t.size() == 2, "two sides");
}

namespace
{
Mesh tetrahedron(const Pts& p)
{
  Mesh m;
  for (const auto& q : p)
    m.AddPoint(q);
  for (const auto& t : { Tri{ 0, 1, 2 }, Tri{ 2, 1, 3 }, Tri{ 3, 1, 0 }, Tri{ 3, 0, 2 } })
    m.AddTriangle(Vec3<int32_t>(t[0], t[1], t[2]));
  return m;
}
Plane plane(const P& n, double d)
{
  Plane p;
  p.m_a = n[0];
  p.m_b = n[1];
  p.m_c = n[2];
  p.m_d = d;
  p.m_axis = AXIS_X;
  p.m_index = 0;
  return p;
}
double side(const Plane& l, const P& p) { return l.m_a * p[0] + l.m_b * p[1] + l.m_c * p[2] + l.m_d; }
const Pts normals{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, -1 }, { 0.5, -0.25, 0.75 } };
}  // namespace

SYM_HARNESS(mesh)
{
  sym::bound("tetrahedra with any vertices (volume), the unit corner (inside), any query point, any plane through 3 points");
  Pts in;
  for (int i = 0; i < 4; ++i)
    in.push_back(point("v" + std::to_string(i)));
  sym::check_eq(tetrahedron(in).ComputeVolume(), det(in[0], in[1], in[2], in[3]) / 6, "volume of a mesh");
  sym::check(Mesh().ComputeVolume() == 0, "volume of no mesh");

  Mesh m = tetrahedron({ corner[0], corner[2], corner[1], corner[3] });
  const double turn = m.ComputeVolume() > 0 ? 1 : -1;
  if (turn < 0)
    m = tetrahedron(corner);
  const P q = point("q");
  const bool inside = q[0] >= 0 && q[1] >= 0 && q[2] >= 0 && q[0] + q[1] + q[2] <= 1;
  sym::check(m.IsInside(q) == inside, "inside a mesh");

  const Plane l = plane(point("n"), sym::real_in("d", -8, 8));
  SArray<Vec3<double>> pos, neg;
  m.Clip(l, pos, neg);
  Pts wp, wn;
  for (std::size_t i = 0; i < m.GetNPoints(); ++i)
  {
    const double d = side(l, m.GetPoint(i));
    if (d >= 0)
      wp.push_back(m.GetPoint(i));
    if (d <= 0)
      wn.push_back(m.GetPoint(i));
  }
  sym::check(pos.Size() == wp.size() && neg.Size() == wn.size(), "points on each side");
  for (std::size_t i = 0; i < wp.size() && i < pos.Size(); ++i)
    sym::check(same(pos[i], wp[i]), "point on the positive side");
  for (std::size_t i = 0; i < wn.size() && i < neg.Size(); ++i)
    sym::check(same(neg[i], wn[i]), "point on the negative side");
}

SYM_HARNESS(mesh_box)
{
  sym::bound("3 points, one of them anywhere");
  Mesh m;
  Pts in{ { 1, -2, 0.5 }, point("p"), { -1, 3, 2 } };
  std::rotate(in.begin(), in.begin() + sym::choose("first", 3), in.end());
  P lo = in[0], hi = in[0];
  for (const auto& q : in)
  {
    m.AddPoint(q);
    for (int h = 0; h < 3; ++h)
    {
      lo[h] = std::min(lo[h], q[h]);
      hi[h] = std::max(hi[h], q[h]);
    }
  }
  double sq = 0;
  for (int h = 0; h < 3; ++h)
    sq += (hi[h] - lo[h]) * (hi[h] - lo[h]);
  const double d = m.ComputeDiagBB();
  sym::check_eq(d * d, sq, "diagonal of the box");
  sym::check_le(0, d, "a diagonal is a length");
  sym::check_eq(m.GetDiagBB(), d, "the diagonal is kept");
}

namespace
{
/** the voxels of a cube, dim to a side */
void cube(Volume& v, std::size_t dim)
{
  const double p[] = { 0, 0, 0, 2, 0, 0, 0, 2, 0, 2, 2, 0, 0, 0, 2, 2, 0, 2, 0, 2, 2, 2, 2, 2 };
  const int32_t t[] = { 0, 1, 2, 1, 3, 2, 4, 6, 5, 5, 6, 7, 0, 4, 1, 1, 4, 5, 2, 3, 6, 3, 7, 6, 0, 2, 4, 2, 6, 4, 1, 5, 3, 3, 5, 7 };
  const double rot[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
  v.Voxelize(p, 3, 8, t, 3, 12, dim, Vec3<double>(0, 0, 0), rot);
}
bool same(const Voxel& a, const Voxel& b) { return a.m_coord[0] == b.m_coord[0] && a.m_coord[1] == b.m_coord[1] && a.m_coord[2] == b.m_coord[2]; }
Plane any_plane(bool& full)
{
  full = sym::flag("any_normal");
  if (full)
    return plane({ sym::real_in("a", -1, 1), sym::real_in("b", -1, 1), sym::real_in("c", -1, 1) }, sym::real_in("d", -8, 8));
  return plane(normals[static_cast<std::size_t>(sym::choose("normal", 4))], sym::real_in("d", -8, 8));
}
/** the corners of a voxel are among the points from here on */
void corners(const VoxelSet& s, const Voxel& x, SArray<Vec3<double>>& pts, std::size_t& at, const char* what)
{
  const P c = s.GetPoint(x);
  bool ok = at + 8 <= pts.Size();
  sym::check(ok, what);
  if (!ok)
    return;
  std::set<int> seen;
  for (std::size_t i = 0; i < 8; ++i)
  {
    int k = 0;
    for (int h = 0; h < 3; ++h)
    {
      const double o = (pts[at + i][h] - c[h]) / s.GetScale();
      ok = ok && std::abs(std::abs(o) - 0.5) < 1e-9;
      k = 2 * k + (o > 0 ? 1 : 0);
    }
    seen.insert(k);
  }
  at += 8;
  sym::check(ok && seen.size() == 8, what);
}
}  // namespace

SYM_HARNESS(voxels)
{
  sym::bound("the voxels of a cube of 2 to a side cut by any plane, or of 3 or 4 to a side cut by any plane of 4 directions; every second or third voxel away from the cut sampled");
  bool full = false;
  const Plane l = any_plane(full);
  Volume vol;
  cube(vol, full ? 2 : 3 + static_cast<std::size_t>(sym::choose("side", sym::thorough() ? 2 : 1)));
  VoxelSet s;
  vol.Convert(s);
  const std::size_t n = s.GetNPrimitives();
  std::size_t surface = 0;
  for (std::size_t i = 0; i < n; ++i)
    surface += s.GetVoxels()[i].m_data == PRIMITIVE_ON_SURFACE ? 1 : 0;
  sym::check(n > 0 && s.GetNPrimitivesOnSurf() == surface && s.GetNPrimitivesInsideSurf() == n - surface, "counts");
  const double unit = s.GetScale() * s.GetScale() * s.GetScale();
  sym::check_eq(s.ComputeVolume(), unit * static_cast<double>(n), "volume");
  sym::check_eq(s.ComputeMaxVolumeError(), unit * static_cast<double>(surface), "volume of the surface");

  const std::size_t every = 2 + static_cast<std::size_t>(sym::choose("every", 2));
  std::size_t np = 0, nn = 0, ap = 0, an = 0, skip_p = 0, skip_n = 0, sp = 0, sn = 0;
  VoxelSet pos, neg;
  s.Clip(l, &pos, &neg);
  SArray<Vec3<double>> pp, pn;
  s.Intersect(l, &pp, &pn, every);
  for (std::size_t i = 0; i < n; ++i)
  {
    const Voxel& x = s.GetVoxels()[i];
    const double d = side(l, s.GetPoint(x));
    const bool up = d >= 0;
    const bool cut = up ? d <= s.GetScale() : -d <= s.GetScale();
    VoxelSet& part = up ? pos : neg;
    std::size_t& at = up ? np : nn;
    sym::check(at < part.GetNPrimitives() && same(part.GetVoxels()[at], x), "each voxel on its side");
    const bool on = x.m_data == PRIMITIVE_ON_SURFACE || cut;
    if (at < part.GetNPrimitives())
      sym::check((part.GetVoxels()[at].m_data == PRIMITIVE_ON_SURFACE) == on, "voxels along the cut are on the surface");
    ++at;
    (up ? sp : sn) += on ? 1 : 0;
    std::size_t& skipped = up ? skip_p : skip_n;
    if (!cut && ++skipped < every)
      continue;
    if (!cut)
      skipped = 0;
    corners(s, x, up ? pp : pn, up ? ap : an, "points along the cut");
  }
  sym::check(pos.GetNPrimitives() == np && neg.GetNPrimitives() == nn, "no voxel twice");
  sym::check(pos.GetNPrimitivesOnSurf() == sp && neg.GetNPrimitivesOnSurf() == sn && pos.GetNPrimitivesInsideSurf() == np - sp && neg.GetNPrimitivesInsideSurf() == nn - sn, "counts of the parts");
  sym::check(pp.Size() == ap && pn.Size() == an, "no other points");
  double vp = -1, vn = -1;
  s.ComputeClippedVolumes(l, vp, vn);
  sym::check_eq(vp, unit * static_cast<double>(np), "positive volume");
  sym::check_eq(vn, unit * static_cast<double>(nn), "negative volume");
  if (np > 0)
    sym::check_eq(pos.ComputeVolume(), vp, "volume of a part");

  VoxelSet on;
  pos.SelectOnSurface(&on);
  if (np > 0)
    sym::check(on.GetNPrimitives() == sp && on.GetNPrimitivesOnSurf() == sp, "surface of a part");
  pos.ComputeBB();
  short lo[3], hi[3];
  for (int h = 0; h < 3; ++h)
    for (std::size_t i = 0; i < np; ++i)
    {
      const short c = pos.GetVoxels()[i].m_coord[h];
      lo[h] = i == 0 || c < lo[h] ? c : lo[h];
      hi[h] = i == 0 || c > hi[h] ? c : hi[h];
    }
  for (int h = 0; h < 3 && np > 0; ++h)
    sym::check(pos.GetMinBBVoxels()[h] == lo[h] && pos.GetMaxBBVoxels()[h] == hi[h], "box of a part");
}

SYM_HARNESS(exterior)
{
  sym::bound("the voxels of a cube of 2 to a side, any plane of 4 directions, and a tetrahedron moved by any amount along a diagonal");
  Volume vol;
  cube(vol, 2);
  VoxelSet s;
  vol.Convert(s);
  const Plane l = plane(normals[static_cast<std::size_t>(sym::choose("normal", 4))], sym::real_in("d", -8, 8));
  const double t = sym::real_in("t", -4, 4);
  Pts p = corner;
  for (auto& q : p)
    for (int h = 0; h < 3; ++h)
      q[h] = 5 * q[h] + (h == 1 ? -t : t);
  Mesh m = tetrahedron(p);
  if (m.ComputeVolume() < 0)
    m = tetrahedron({ p[0], p[2], p[1], p[3] });
  SArray<Vec3<double>> out;
  s.ComputeExteriorPoints(l, m, &out);
  std::size_t at = 0;
  for (std::size_t i = 0; i < s.GetNPrimitives(); ++i)
  {
    const Voxel& x = s.GetVoxels()[i];
    const P c = s.GetPoint(x);
    const double a = c[0] - t, b = c[1] + t, e = c[2] - t;
    const bool inside = a >= 0 && b >= 0 && e >= 0 && a + b + e <= 5;
    if (side(l, c) >= 0 && !inside)
      corners(s, x, out, at, "voxels outside the hull");
  }
  sym::check(out.Size() == at, "no voxel inside the hull");
}

SYM_HARNESS(touched)
{
  sym::bound("triangles of 4 shapes moved anywhere around a voxel; any point of the triangle");
  const std::vector<Pts> shapes{ { { 0, 0, 0 }, { 2, 0, 0 }, { 0, 3, 0 } }, { { 0, 0, 0 }, { 0.25, 0.5, 0 }, { 0, 0.25, -0.5 } }, { { 0, 0, 0 }, { 4, 1, 2 }, { -1, 3, 2.5 } }, { { 0, 0, 0 }, { 0, 0, 3 }, { 0, -2, 1 } } };
  const Pts& k = shapes[static_cast<std::size_t>(sym::choose("shape", 4))];
  const P t = point("t");
  Pts v = k;
  for (auto& q : v)
    for (int h = 0; h < 3; ++h)
      q[h] += t[h];
  std::rotate(v.begin(), v.begin() + sym::choose("first", 3), v.end());
  const int hit = TriBoxOverlap(Vec3<double>(1, 2, 3), Vec3<double>(0.5, 0.5, 0.5), v[0], v[1], v[2]);
  sym::check(hit == 0 || hit == 1, "an answer");
  // a point of the triangle in the voxel is proof of contact
  const double a = sym::real_in("a", 0, 1), b = sym::real_in("b", 0, 1);
  sym::assume_le(a + b, 1);
  bool in = true;
  for (int h = 0; h < 3; ++h)
  {
    const double c = t[h] + a * k[1][h] + b * k[2][h] - (1 + h);
    in = in && c >= -0.5 && c <= 0.5;
  }
  if (in)
    sym::check(hit == 1, "a voxel the surface passes through is found");
  for (int h = 0; h < 3; ++h)
  {
    const double lo = std::min(v[0][h], std::min(v[1][h], v[2][h])), hi = std::max(v[0][h], std::max(v[1][h], v[2][h]));
    if (lo > 1.5 + h || hi < 0.5 + h)
      sym::check(hit == 0, "a voxel far from the surface is not");
  }
}

SYM_HARNESS(tetrahedra)
{
  sym::bound("the tetrahedra of a voxel cut by any plane of 4 directions, up to slivers");
  Volume vol;
  const double p[] = { 0, 0, 0, 1, 0, 0, 0, 1, 0 };
  const int32_t t[] = { 0, 1, 2 };
  (void)p;
  (void)t;
  cube(vol, 2);
  TetrahedronSet s;
  vol.Convert(s);
  s.ComputeBB();
  const double all = s.ComputeVolume();
  TetrahedronSet pos, neg;
  const Plane l = plane(normals[static_cast<std::size_t>(sym::choose("normal", 4))], sym::real_in("d", -8, 8));
  s.Clip(l, &pos, &neg);
  sym::check_near(pos.ComputeVolume() + neg.ComputeVolume(), all, 1e-6, "the parts make up the whole");
}
