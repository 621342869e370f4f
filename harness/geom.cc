// Geometric predicates against long double re-computations, outside of a
// rounding band around the decision boundary.
#include <limits>
#include "tree_topology/tree_geometry.h"
#include "pbt.h"
using namespace flecsi;
using namespace flecsi::topology;
using pbt::Gen;
using ld = long double;

template<size_t D> using P = space_vector_u<double, D>;
static double coord(Gen & g, double s, int lat) {
  if(lat) return s * (double)((int)g.u(17) - 8) / 4;
  return s * g.real(-2, 2);
}
template<size_t D> P<D> point(Gen & g, double s, int lat) { P<D> p; for(size_t d = 0; d < D; ++d) p[d] = coord(g, s, lat); return p; }
template<size_t D> void show(Gen & g, const char * n, const P<D> & p) { g.note("%s(", n); for(size_t d = 0; d < D; ++d) g.note("%s%.17g", d ? "," : "", p[d]); g.note(") "); }
template<size_t D> ld dist2(const P<D> & a, const P<D> & b) { ld s = 0; for(size_t d = 0; d < D; ++d) s += ((ld)a[d] - b[d]) * ((ld)a[d] - b[d]); return s; }
template<size_t D> ld dist(const P<D> & a, const P<D> & b) { return sqrtl(dist2<D>(a, b)); }
template<size_t D> void box(Gen & g, double s, int lat, P<D> & lo, P<D> & hi) {
  lo = point<D>(g, s, lat); hi = point<D>(g, s, lat);
  for(size_t d = 0; d < D; ++d) if(lo[d] > hi[d]) std::swap(lo[d], hi[d]);
  if(g.chance(1, 6)) { size_t d = g.u(D); hi[d] = lo[d]; } // degenerate
}
// radius: random, or aimed at the decision boundary
static double radius(Gen & g, double s, ld target) {
  switch(g.u(4)) {
    case 0: return s * g.u(9) / 4.0;
    case 1: return s * g.real(0, 4);
    default: {
      double f = 1 + (g.flip() ? 1 : -1) * std::pow(10., -(double)(1 + g.u(11)));
      return (double)target * f;
    }
  }
}
// decision a<=b with a band in which either answer is accepted
static int decide(ld a, ld b, ld scale) {
  ld eps = 4e-15L * scale + 4e-15L;
  if(a < b - eps) return 1;
  if(a > b + eps) return 0;
  return -1;
}
#define VERDICT(got, want, what)                                              \
  if((want) >= 0) {                                                           \
    PBT_CHECK(g, (got) == ((want) == 1), "%s answers %d", what, (int)(got));  \
    g.nontrivial();                                                           \
    g.label(std::string(what) + ((want) ? " yes" : " no"));                   \
  }

template<size_t D> void spheres(Gen & g) {
  using T = tree_geometry<double, D>;
  double s = g.pick({1.0, 1.0, 1e-3, 1e3});
  int lat = g.flip();
  auto a = point<D>(g, s, lat), b = g.chance(1, 12) ? a : point<D>(g, s, lat);
  ld d = dist<D>(a, b);
  double r1 = radius(g, s, d), r2 = radius(g, s, d > r1 ? d - r1 : d / 2);
  if(r2 < 0) r2 = 0;
  g.note("D=%zu ", D); show<D>(g, "a", a); show<D>(g, "b", b); g.note("r1=%.17g r2=%.17g ", r1, r2);
  ld sc = d + r1 + r2;
  PBT_CHECK(g, fabsl(T::distance2(a, b) - dist2<D>(a, b)) <= 4e-15L * dist2<D>(a, b) + 1e-300L, "distance2 gives %.17g", T::distance2(a, b));
  VERDICT(T::within_distance2(a, b, r1), decide(d, r1, sc), "within_distance2");
  VERDICT(T::within(a, b, r1), decide(d, r1, sc), "within");
  VERDICT(T::within(a, b, r1, r2), decide(d, r1, sc), "within with second radius");
  VERDICT(T::within_square(a, b, r1, r2), decide(d, std::max(r1, r2), sc), "within_square");
  VERDICT(T::within_square(a, b, r2, r1), decide(d, std::max(r1, r2), sc), "within_square swapped");
  VERDICT(T::intersects_sphere_sphere(a, r1, b, r2), decide(d, (ld)r1 + r2, sc), "intersects_sphere_sphere");
  PBT_CHECK(g, T::within_distance2(a, b, r1) == T::within_distance2(b, a, r1), "within_distance2 is not symmetric");
  PBT_CHECK(g, T::intersects_sphere_sphere(a, r1, b, r2) == T::intersects_sphere_sphere(b, r2, a, r1), "intersects_sphere_sphere is not symmetric");
}
template<size_t D> void boxes(Gen & g) {
  using T = tree_geometry<double, D>;
  double s = g.pick({1.0, 1.0, 1e-3, 1e3});
  int lat = g.flip();
  P<D> lo, hi, lo2, hi2;
  box<D>(g, s, lat, lo, hi);
  box<D>(g, s, lat, lo2, hi2);
  if(g.chance(1, 3)) { // nested or touching boxes
    for(size_t d = 0; d < D; ++d) switch(g.u(4)) { case 0: lo2[d] = hi[d]; hi2[d] = hi[d] + s; break; case 1: lo2[d] = lo[d]; break; case 2: hi2[d] = lo[d]; lo2[d] = lo[d] - s; break; default: break; }
    for(size_t d = 0; d < D; ++d) if(lo2[d] > hi2[d]) std::swap(lo2[d], hi2[d]);
  }
  auto c = point<D>(g, s, lat);
  if(g.chance(1, 4)) for(size_t d = 0; d < D; ++d) switch(g.u(4)) { case 0: c[d] = lo[d]; break; case 1: c[d] = hi[d]; break; case 2: c[d] = 0.5 * (lo[d] + hi[d]); break; default: break; }
  ld near2 = 0;
  for(size_t d = 0; d < D; ++d) { ld x = c[d]; if(x < lo[d]) x = lo[d]; if(x > hi[d]) x = hi[d]; near2 += (x - c[d]) * (x - c[d]); }
  ld near = sqrtl(near2);
  double r = radius(g, s, near);
  g.note("D=%zu ", D); show<D>(g, "box", lo); show<D>(g, "..", hi); show<D>(g, "box2", lo2); show<D>(g, "..", hi2); show<D>(g, "c", c); g.note("r=%.17g ", r);
  VERDICT(T::intersects_sphere_box(lo, hi, c, r), decide(near, r, near + r), "intersects_sphere_box");
  bool ov = true;
  for(size_t d = 0; d < D; ++d) if(hi[d] < lo2[d] || hi2[d] < lo[d]) ov = false;
  VERDICT(T::intersects_box_box(lo, hi, lo2, hi2), ov ? 1 : 0, "intersects_box_box");
  PBT_CHECK(g, T::intersects_box_box(lo2, hi2, lo, hi) == ov, "intersects_box_box is not symmetric");
  bool in = true, minface = false;
  for(size_t d = 0; d < D; ++d) { if(c[d] > hi[d] || c[d] < lo[d]) in = false; if(c[d] == lo[d]) minface = true; }
  if(!(in && minface)) VERDICT(T::within_box(lo, hi, c, r), in ? 1 : 0, "within_box"); // lower face: open in 2D/3D
  // pruning is safe: a sphere around c reaching a point of the box intersects it
  P<D> q;
  for(size_t d = 0; d < D; ++d) { q[d] = lo[d] + g.unit() * (hi[d] - lo[d]); if(q[d] > hi[d]) q[d] = hi[d]; }
  if(dist<D>(q, c) < r * (1 - 1e-12L)) {
    PBT_CHECK(g, T::intersects_sphere_box(lo, hi, c, r), "a point of the box lies within the sphere, but the sphere is reported as missing the box");
    PBT_CHECK(g, T::within_distance2(q, c, r), "within_distance2 excludes a point inside");
  }
}
template<size_t D> void macs(Gen & g) {
  using T = tree_geometry<double, D>;
  double s = g.pick({1.0, 1.0, 1e-2, 1e3});
  int lat = g.flip();
  auto a = point<D>(g, s, lat), b = point<D>(g, s, lat);
  P<D> lo, hi;
  box<D>(g, s, lat, lo, hi);
  ld d = dist<D>(a, b);
  if(d == 0) g.discard();
  double r1 = s * g.unit(), r2 = g.flip() ? 0 : s * g.unit();
  double ang = g.chance(1, 8) ? 0 : g.flip() ? g.unit() * 2 : (double)((r1 + r2) / d) * (1 + (g.flip() ? 1 : -1) * std::pow(10., -(double)(1 + g.u(11))));
  double ang2 = g.chance(1, 8) ? 0 : g.flip() ? g.unit() * 2 : (double)(dist<D>(lo, hi) / d) * (1 + (g.flip() ? 1 : -1) * std::pow(10., -(double)(1 + g.u(11))));
  g.note("D=%zu ", D); show<D>(g, "a", a); show<D>(g, "b", b); g.note("r1=%.17g r2=%.17g angle=%.17g ", r1, r2, ang); show<D>(g, "box", lo); show<D>(g, "..", hi); g.note("angle2=%.17g ", ang2);
  VERDICT(T::mac(a, r1, b, r2, ang), decide((ld)r1 + r2, ang * d, r1 + r2 + ang * d), "mac");
  PBT_CHECK(g, T::mac(a, r1, b, r2, ang) == T::mac(b, r2, a, r1, ang), "mac is not symmetric");
  PBT_CHECK(g, !T::mac(a, r1, b, r2, 0.0), "mac accepts a pair at angle 0");
  ld q = dist<D>(lo, hi) / d;
  VERDICT(T::box_MAC(a, b, lo, hi, ang2), decide(q, ang2, q + ang2), "box_MAC");
}
#define DIMS(f) switch(g.u(3)) { case 0: f<1>(g); break; case 1: f<2>(g); break; default: f<3>(g); }
PROPERTY(sphere_predicates, 1000000, 20000000) { DIMS(spheres) }
PROPERTY(box_predicates, 1000000, 20000000) { DIMS(boxes) }
PROPERTY(mac_predicates, 800000, 15000000) { DIMS(macs) }
