// C27: particle lattices.  C28: radial density profiles.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <cassert>
#include <algorithm>
#include <chrono>
#include <unordered_map>
#include <unistd.h>
#include <mpi.h>
#include "mockmpi.h"
#include "pbt.h"
#include <boost/algorithm/string.hpp>
#include <random>
#include "params.h"
#include "tree.h"
struct Exit { int code; };
[[noreturn]] static void init_exit(int c) { throw Exit{c}; }
#define exit(c) init_exit(c)
#include "lattice.h"
#undef exit
using namespace pbt;
typedef long double L;
static const int D = gdimension;
namespace lat = particle_lattice;
namespace den = density_profiles;

static void setstr(char * d, const std::string & s) { strcpy(d, s.c_str()); }
static L ball(L r) { return D == 1 ? 2 * r : D == 2 ? M_PIl * r * r : 4 * M_PIl * r * r * r / 3; } // volume
static L sphere(L r) { return D == 1 ? 2 : D == 2 ? 2 * M_PIl * r : 4 * M_PIl * r * r; }           // surface

struct P3 { double v[3]; };
struct Lat {
  int type, dom;
  point_t lo, hi;
  double sep;
  std::vector<P3> p;
  //! signed distance to the boundary of the domain (inside positive)
  L depth(const L * q) const {
    L d = 1e300L, r = 1e300L, c2 = 0;
    for(int k = 0; k < D; ++k) { d = std::min(d, std::min(q[k] - lo[k], hi[k] - q[k])); r = std::min(r, ((L)hi[k] - lo[k]) / 2); L c = q[k] - ((L)lo[k] + hi[k]) / 2; c2 += c * c; }
    return dom == 1 && D > 1 ? std::min(d, r - sqrtl(c2)) : d;
  }
  L width() const { L w = 0; for(int k = 0; k < D; ++k) w = std::max(w, (L)hi[k] - lo[k]); return w; }
};
static void note_lat(Gen & g, const Lat & l) {
  g.note("%dD type %d domain %d separation %.17g box", D, l.type, l.dom, l.sep);
  for(int k = 0; k < D; ++k) g.note(" [%.17g, %.17g]", l.lo[k], l.hi[k]);
}
static void gen_box(Gen & g, Lat & l, bool cube, int most) { // with at most so many particles along an axis
  double s = g.pick({1.0, 1.0, 1e-6, 3e8, 0.37}), off = g.pick({0.0, 0.0, 1.0, 10.0});
  l.sep = s * (g.flip() ? g.pick({0.1, 0.25, 1.0 / 3}) : g.real(.05, 1));
  double first = 0;
  for(int k = 0; k < D; ++k) {
    double w = l.sep * (g.flip() ? g.i(1, most - 1) : g.real(.3, most - 1));
    if(k == 0) first = w;
    if(cube && k) w = first;
    double c = off * s * (g.unit() - .5);
    if(g.flip()) c = 0;
    l.lo[k] = c - w / 2; l.hi[k] = c + w / 2;
  }
}
//! generate behind guard values, from a given index on
static void fill_lat(Gen & g, Lat & l) {
  lat::select();
  int64_t at = g.pick({0, 0, 1, 57});
  int64_t n = lat::count(l.type, l.dom, l.lo, l.hi, l.sep, at);
  PBT_CHECK(g, n >= 0 && n < 2000000, "counts %lld particles", (long long)n);
  std::vector<double> x[3];
  for(auto & v : x) v.assign(at + n + 64, 7.25);
  int64_t m = lat::generate(l.type, l.dom, l.lo, l.hi, l.sep, at, x[0].data(), x[1].data(), x[2].data());
  PBT_CHECK(g, m == n, "counts %lld particles, generates %lld", (long long)n, (long long)m);
  for(auto & v : x) for(int64_t i = 0; i < (int64_t)v.size(); ++i) if(i < at || i >= at + n) PBT_CHECK(g, v[i] == 7.25, "position %lld is written, it belongs to another lattice", (long long)i);
  for(int64_t i = at; i < at + n; ++i) {
    l.p.push_back({x[0][i], x[1][i], x[2][i]});
    for(int k = D; k < 3; ++k) PBT_CHECK(g, x[k][i] == 0, "coordinate %d of a particle in %dD is %g", k, D, x[k][i]);
  }
  g.note(", %lld particles\n", (long long)n);
}
static const L TOL = 3e-6L; // boundary tolerance of the generator (1e-6 of the box length) and its rounding
static void check_inside(Gen & g, const Lat & l) {
  for(auto & q : l.p) { L v[3] = {q.v[0], q.v[1], q.v[2]}; PBT_CHECK(g, l.depth(v) > -TOL * l.width(), "particle (%.17g, %.17g, %.17g) is %Lg outside of the domain", q.v[0], q.v[1], q.v[2], -l.depth(v)); }
}
struct Hash { // cells of the size of a separation
  const Lat & l;
  std::unordered_map<uint64_t, std::vector<int>> h;
  int64_t c(L x, int k) const { return (int64_t)floorl((x - l.lo[k]) / l.sep) + 4; }
  uint64_t key(int64_t a, int64_t b, int64_t d) const { return (uint64_t)a << 42 ^ (uint64_t)b << 21 ^ (uint64_t)d; }
  Hash(const Lat & l_) : l(l_) { for(size_t i = 0; i < l.p.size(); ++i) h[key(c(l.p[i].v[0], 0), D > 1 ? c(l.p[i].v[1], 1) : 0, D > 2 ? c(l.p[i].v[2], 2) : 0)].push_back(i); }
  template<class F> void near(const L * q, F f) const { // all within two separations at least
    for(int64_t a = -2; a <= 2; ++a) for(int64_t b = D > 1 ? -2 : 0; b <= (D > 1 ? 2 : 0); ++b) for(int64_t d = D > 2 ? -2 : 0; d <= (D > 2 ? 2 : 0); ++d) {
      auto it = h.find(key(c(q[0], 0) + a, D > 1 ? c(q[1], 1) + b : 0, D > 2 ? c(q[2], 2) + d : 0));
      if(it == h.end()) continue;
      for(int i : it->second) { L s = 0; for(int k = 0; k < D; ++k) s += (q[k] - l.p[i].v[k]) * (q[k] - l.p[i].v[k]); f(i, sqrtl(s)); }
    }
  }
};

PROPERTY(regular_lattice, 4000, 60000) {
  Lat l;
  param::_lattice_type = l.type = D == 3 ? g.u(3) : D == 2 ? g.pick({0, 1, 2}) : g.u(3);
  l.dom = g.u(2);
  gen_box(g, l, false, D == 3 ? g.pick({6, 10, 16}) : D == 2 ? g.pick({5, 12, 40}) : 200);
  note_lat(g, l);
  fill_lat(g, l);
  check_inside(g, l);
  const int T = D == 1 ? 0 : D == 2 ? (l.type ? 1 : 0) : l.type; // in 2D both close packings are triangular
  // neighbours at 1, and the distance that tells the packings apart
  const int coord = D == 1 ? 2 : T == 0 ? 2 * D : D == 2 ? 6 : 12;
  const int second = D == 3 ? (T == 0 ? 12 : 6) : D == 2 ? (T == 0 ? 4 : 0) : 0;   // at sqrt(2)
  const int third = D == 3 && T == 1 ? 2 : 0;                                     // at sqrt(8/3)
  Hash H(l);
  L eps = 1e-7L; // relative to the separation; the generator adds up steps
  for(int k = 0; k < D; ++k) eps += 4e-15L * (fabsl((L)l.lo[k]) + fabsl((L)l.hi[k])) / l.sep;
  size_t inner = 0;
  for(size_t i = 0; i < l.p.size(); ++i) {
    L q[3] = {l.p[i].v[0], l.p[i].v[1], l.p[i].v[2]};
    int at1 = 0, at2 = 0, at3 = 0;
    H.near(q, [&](int j, L r) {
      if(j == (int)i) return;
      r /= l.sep;
      PBT_CHECK(g, r > 1 - eps, "particles %zu and %d are at distance %.12Lg of the separation", i, j, r);
      at1 += fabsl(r - 1) < 1e-5L; at2 += fabsl(r - sqrtl(2)) < 1e-5L; at3 += fabsl(r - sqrtl(8.0L / 3)) < 1e-5L;
    });
    if(l.depth(q) < 1.7L * l.sep + TOL * l.width()) continue;
    ++inner;
    PBT_CHECK(g, at1 == coord, "particle %zu deep in the domain has %d nearest neighbours instead of %d", i, at1, coord);
    PBT_CHECK(g, at2 == second, "particle %zu deep in the domain has %d second neighbours instead of %d", i, at2, second);
    PBT_CHECK(g, at3 == third, "particle %zu deep in the domain has %d neighbours across a layer instead of %d", i, at3, third);
  }
  // no hole: every place of the domain has a particle in reach, also along the boundary
  L reach = D == 1 ? .5L : D == 2 ? (T ? 1 / sqrtl(3) : sqrtl(.5L)) : (T ? sqrtl(.5L) : sqrtl(.75L));
  pbt::Rng r(g.u(1u << 30));
  int judged = 0;
  for(int t = 0; t < 60; ++t) {
    L q[3] = {0, 0, 0};
    for(int k = 0; k < D; ++k) q[k] = l.lo[k] + ((L)l.hi[k] - l.lo[k]) * (L)r.unit();
    // sites of the infinite lattice in reach of q all lie in the domain if q is that deep
    if(l.depth(q) < (reach * 1.0001L) * l.sep + TOL * l.width()) continue;
    ++judged;
    L best = 1e300L;
    H.near(q, [&](int, L s) { best = std::min(best, s); });
    PBT_CHECK(g, best <= reach * l.sep * (1 + 1e-5L), "no particle within %.6Lg separations of (%.9Lg, %.9Lg, %.9Lg), the next is at %.6Lg", reach, q[0], q[1], q[2], best / l.sep);
  }
  // closed under the translations of the lattice, up to the boundary
  std::vector<std::array<L, 3>> tr;
  auto add = [&](L a, L b, L c) { tr.push_back({a, b, c}); tr.push_back({-a, -b, -c}); };
  L sy = sqrtl(3) / 2, sz = sqrtl(2.0L / 3);
  add(1, 0, 0);
  if(D > 1) { if(T) { add(.5L, sy, 0); add(-.5L, sy, 0); } else add(0, 1, 0); }
  if(D > 2) { if(T == 0) add(0, 0, 1); else if(T == 1) add(0, 0, 2 * sz); else add(0, 0, 3 * sz); }
  if(D == 3 && T == 0) add(1, 1, 1);
  for(int t = 0; t < 200 && !l.p.empty(); ++t) {
    auto & s = l.p[r.below(l.p.size())];
    auto & v = tr[r.below(tr.size())];
    L q[3];
    for(int k = 0; k < 3; ++k) q[k] = s.v[k] + v[k] * l.sep;
    bool in = l.depth(q) >= TOL * l.width();
    if(l.dom == 0 || D == 1) { // half-open box: sites on the lower faces belong to it
      in = true;
      for(int k = 0; k < D; ++k) in &= q[k] > l.lo[k] - 3e-7L * ((L)l.hi[0] - l.lo[0]) && q[k] < l.hi[k] - 3e-6L * ((L)l.hi[0] - l.lo[0]);
    }
    if(!in) continue;
    ++judged;
    L best = 1e300L;
    H.near(q, [&](int, L d) { best = std::min(best, d); });
    PBT_CHECK(g, best <= (eps * 10 + 1e-6L) * l.sep, "the lattice misses the site (%.9Lg, %.9Lg, %.9Lg)", q[0], q[1], q[2]);
  }
  // the box includes its lower corner
  if(l.dom == 0 || D == 1) {
    bool corner = false;
    for(auto & s : l.p) { bool c = true; for(int k = 0; k < D; ++k) c &= s.v[k] == l.lo[k]; corner |= c; }
    PBT_CHECK(g, corner, "no particle at the lower corner");
    for(auto & s : l.p) for(int k = 0; k < D; ++k) PBT_CHECK(g, s.v[k] < l.hi[k] - 3e-7 * (l.hi[0] - l.lo[0]), "particle at %.17g lies on the upper face, which belongs to the next box", s.v[k]);
  }
  static const char * N[] = {"rectangular", "HCP", "FCC"};
  g.label(D == 3 ? N[T] : T ? "triangular" : "rectangular");
  g.label(l.dom ? "sphere" : "box");
  g.nontrivial(inner > 0 && judged > 0);
}

// ------------------------------------------------ profiles, and their spheres
static L num_mass(const std::function<L(L)> & rho, L r, const std::vector<L> & kinks) { // Gauss-Legendre between kinks, exact for these polynomials
  std::vector<L> k{0};
  for(L x : kinks) if(x > 0 && x < r) k.push_back(x);
  k.push_back(r);
  static const L a = sqrtl(5 - 2 * sqrtl(10.0L / 7)) / 3, b = sqrtl(5 + 2 * sqrtl(10.0L / 7)) / 3, wa = (322 + 13 * sqrtl(70)) / 900, wb = (322 - 13 * sqrtl(70)) / 900;
  const L x[5] = {0, a, -a, b, -b}, w[5] = {128.0L / 225, wa, wa, wb, wb};
  L s = 0;
  for(size_t i = 0; i + 1 < k.size(); ++i) { L h = (k[i + 1] - k[i]) / 2, c = (k[i + 1] + k[i]) / 2; for(int j = 0; j < 5; ++j) s += h * w[j] * rho(c + h * x[j]) * sphere(c + h * x[j]); }
  return s;
}
struct Prof { int kind; double q; std::string name; };
static Prof gen_profile(Gen & g) {
  Prof p{(int)g.u(3), 0, ""};
  static const char * N[] = {"constant", "parabolic", "mesa"};
  p.q = g.pick({0.25, 0.5, 0.1, 0.9, 1.0});
  if(g.flip()) p.q = g.real(.02, 1);
  for(const char * c = N[p.kind]; *c; ++c) p.name += g.u(8) == 0 ? toupper(*c) : *c;
  param::_mesa_rim_width = p.q;
  setstr(param::_density_profile, p.name);
  den::select();
  return p;
}
PROPERTY(profile, 1500, 60000) { // formulas
  Prof p = gen_profile(g), p2;
  if(g.flip()) p = gen_profile(g); // selected anew
  L q = p.q, r0 = 1 - q;
  auto shape = [&](L r) -> L { return p.kind == 0 ? 1 : p.kind == 1 ? 1 - r * r : r < r0 ? 1 : 1 - (r - r0) * (r - r0) / (q * q); };
  std::vector<L> kink{r0};
  L norm = 1 / num_mass(shape, 1, kink);
  double r = g.pick({0.0, 1.0, 0.5, (double)r0, 0.9999});
  if(g.u(4)) r = g.unit();
  g.note("%s, rim %.17g, r = %.17g", p.name.c_str(), p.q, r);
  g.label(p.kind == 0 ? "constant" : p.kind == 1 ? "parabolic" : "mesa");
  g.nontrivial(r > 0 && r < 1);
  double rho = den::spherical_density_profile(r), m = den::spherical_mass_profile(r), dr = den::spherical_drho_dr(r);
  L e = 1e-11L / q, want = norm * shape(r), wm = norm * num_mass(shape, r, kink);
  // the outermost 1e-4 of the mesa may be cut off
  bool rim = p.kind == 2 && r >= .9999;
  PBT_CHECK(g, rho >= -1e-15, "density %g is negative", rho);
  PBT_CHECK(g, fabsl(rho - want) <= e * norm || (rim && rho == 0), "density %.17g instead of %.17Lg", rho, want);
  PBT_CHECK(g, fabsl(m - wm) <= e, "mass %.17g instead of %.17Lg", m, wm);
  L d = p.kind == 0 ? 0 : p.kind == 1 ? -2 * norm * r : r > r0 ? -2 * norm * (r - r0) / (q * q) : 0;
  PBT_CHECK(g, fabsl(dr - d) <= 1e-11L * norm / (q * q) || (rim && dr == 0), "slope of the density %.17g instead of %.17Lg", dr, d);
  double a = g.unit();
  if(a > r) { double ma = den::spherical_mass_profile(a); PBT_CHECK(g, ma >= m - 1e-13 / p.q, "mass falls from %.17g to %.17g between %.17g and %.17g", m, ma, r, a); }
  PBT_CHECK(g, fabs(den::spherical_mass_profile(1.0) - 1) < 1e-12 / p.q && fabs(den::spherical_mass_profile(0.0)) < 1e-15, "mass %.17g at the centre, %.17g at the edge", den::spherical_mass_profile(0), den::spherical_mass_profile(1));
  if(p.kind == 2) { double o = 1 + g.real(1e-9, 3); PBT_CHECK(g, den::spherical_density_profile(o) == 0 && den::spherical_drho_dr(o) == 0, "density outside of the sphere"); }
}
PROPERTY(profile_from_file, 1500, 60000) {
  int N = 4 + (int)g.u(g.flip() ? 4 : 40), deg = g.u(5);
  std::vector<double> x, c[3], y[3];
  double a = g.pick({0.0, 0.0, 1e-3, 0.2}), span = 0;
  for(int i = 0; i < N; ++i) { x.push_back(a + span); span += .05 + g.unit(); }
  for(auto & v : x) v = a + (v - a) / (x.back() - a) * (1 - a);
  double scale[3];
  for(int k = 0; k < 3; ++k) {
    scale[k] = g.pick({1.0, 1.0, 1e-5, 1e20, 1e-60, 1e70});
    for(int i = 0; i < 4; ++i) c[k].push_back(i < deg ? g.real(-1, 1) : 0);
    for(int i = 0; i < N; ++i) y[k].push_back(scale[k] * (deg == 4 ? g.real(-1, 1) : c[k][0] + x[i] * (c[k][1] + x[i] * (c[k][2] + x[i] * c[k][3]))));
  }
  std::string name = "profile." + std::to_string(getpid());
  {
    std::ofstream o(name);
    o << std::setprecision(17);
    for(int i = g.u(4); i > 0; --i) o << (g.flip() ? "# r rho m slope 1 2 3\n" : "  # 1:r\n");
    for(int i = 0; i < N; ++i) {
      if(g.u(10) == 0) o << g.pick({"\n", "   \n", "# in between\n"});
      o << std::string(g.u(4), ' ') << std::scientific << x[i];
      for(int k = 0; k < 3; ++k) o << std::string(1 + g.u(3), g.u(6) ? ' ' : '\t') << y[k][i];
      o << "\n";
    }
  }
  setstr(param::_density_profile, g.pick({"from file", "From File", "FROM FILE"}));
  setstr(param::_input_density_file, name);
  try { den::select(); } catch(Exit &) { unlink(name.c_str()); g.fail("the file is refused"); }
  unlink(name.c_str());
  den::radial_function_t f[3] = {den::spherical_density_profile, den::spherical_mass_profile, den::spherical_drho_dr};
  g.note("%d points from %.17g, %s", N, a, deg == 4 ? "random" : "polynomial");
  g.nontrivial(true);
  for(int i = 0; i < N; ++i) for(int k = 0; k < 3; ++k) {
    double v = f[k](x[i]);
    PBT_CHECK(g, fabs(v - y[k][i]) <= 1e-11 * scale[k], "column %d at point %d is %.17g instead of %.17g", k + 2, i, v, y[k][i]);
  }
  if(deg < 4) for(int t = 0; t < 10; ++t) {
    double r = a + (1 - a) * g.unit();
    for(int k = 0; k < 3; ++k) {
      double v = f[k](r), w = scale[k] * (c[k][0] + r * (c[k][1] + r * (c[k][2] + r * c[k][3])));
      PBT_CHECK(g, fabs(v - w) <= 1e-8 * scale[k], "column %d at %.17g is %.17g instead of %.17g", k + 2, r, v, w);
    }
  }
  else for(int t = 0; t < 10; ++t) { // cubic through four neighbouring points around r
    double r = a + (1 - a) * g.unit();
    int j = 0;
    while(j + 2 < N && x[j + 1] < r) ++j;
    for(int k = 0; k < 3; ++k) {
      double v = f[k](r);
      bool ok = false;
      L near = 1e300L;
      for(int b = std::max(0, j - 2); b <= j && b + 4 <= N; ++b) { // any four that enclose the interval
        if(b + 3 < j + 1) continue;
        L w = 0, sum = 0;
        for(int m = b; m < b + 4; ++m) { L t = y[k][m]; for(int n = b; n < b + 4; ++n) if(n != m) t *= ((L)r - x[n]) / ((L)x[m] - x[n]); w += t; sum += fabsl(t); }
        near = std::min(near, fabsl(v - w));
        ok |= fabsl(v - w) <= 1e-12L * sum;
      }
      PBT_CHECK(g, ok, "column %d at %.17g is %.17g, no cubic of the neighbouring points (off by %Lg)", k + 2, r, v, near);
    }
  }
  double out = g.flip() ? 1 + g.lreal(1e-9, 2) : a * (1 - g.lreal(1e-9, 1));
  if(out > 1 || out < a) { g.label(out > 1 ? "outside" : "below the first point"); for(int k = 0; k < 3; ++k) PBT_CHECK(g, f[k](out) == 0, "column %d outside of the table, at %.17g, is %.17g", k + 2, out, f[k](out)); }
}
PROPERTY(profile_unknown, 300, 5000) {
  static const char * N[] = {"constant", "parabolic", "mesa", "from file"};
  std::string s = N[g.u(4)];
  switch(g.u(4)) {
    case 0: s.erase(g.u(s.size()), 1); break;
    case 1: s.insert(g.u(s.size() + 1), 1, "ax _-"[g.u(5)]); break;
    case 2: s[g.u(s.size())] = 'z'; break;
    default: s = g.flip() ? "" : "uniform";
  }
  g.note("'%s'", s.c_str());
  setstr(param::_density_profile, s);
  setstr(param::_input_density_file, "no such file");
  g.nontrivial(true);
  try { den::select(); } catch(Exit & e) { PBT_CHECK(g, e.code != 0, "an unknown profile ends with success"); return; }
  g.fail("the unknown profile '%s' is accepted", s.c_str());
}
PROPERTY(profile_missing_file, 20, 100) {
  setstr(param::_density_profile, "from file");
  setstr(param::_input_density_file, "no such file");
  g.nontrivial(true);
  try { den::select(); } catch(Exit & e) { PBT_CHECK(g, e.code != 0, "a missing table ends with success"); return; }
  g.fail("a missing table is accepted");
}

#if EXT_GDIMENSION == 3
//! shells and random points follow the selected profile
static void check_distribution(Gen & g, const Lat & l, double R, double off, const char * what) {
  std::vector<double> r;
  for(auto & q : l.p) { double s = 0; for(int k = 0; k < 3; ++k) { double c = q.v[k] - .5 * (l.lo[k] + l.hi[k]); s += c * c; } r.push_back(sqrt(s) / R); }
  std::sort(r.begin(), r.end());
  double worst = 0, at = 0;
  for(size_t i = 0; i < r.size(); ++i) {
    if(i + 1 < r.size() && r[i + 1] - r[i] < 1e-9) continue; // amid a shell
    double m = den::spherical_mass_profile(std::min(1.0, r[i])), d = std::min(fabs((i + 1.0) / r.size() - m), fabs((double)i / r.size() - m));
    if(d > worst) { worst = d; at = r[i]; }
  }
  PBT_CHECK(g, worst < off, "%s: %.4f of the particles misplaced at radius %.4f (bound %.4f)", what, worst, at, off);
}
PROPERTY(icosahedral, 700, 6000) {
  Lat l;
  param::_lattice_type = l.type = 3;
  l.dom = g.u(2);
  Prof p = gen_profile(g);
  gen_box(g, l, true, 4);
  double R = .5 * (l.hi[0] - l.lo[0]);
  int K = 1 + (int)g.u(g.flip() ? 5 : 14);
  l.sep = R / (K - .5); // K shells
  note_lat(g, l);
  g.note(" %s rim %g, %d shells", p.name.c_str(), p.q, K);
  fill_lat(g, l);
  check_inside(g, l);
  int64_t sum = 1;
  PBT_CHECK(g, lat::npart_icosahedral_shell(0) == 1 && lat::npart_icosahedral_sphere(0) == 1, "a sphere without shells is one particle");
  for(int k = 1; k <= K; ++k) {
    int64_t s = 10LL * k * k + 2;
    sum += s;
    PBT_CHECK(g, lat::npart_icosahedral_shell(k) == s, "shell %d has %lld particles instead of %lld", k, (long long)lat::npart_icosahedral_shell(k), (long long)s);
    PBT_CHECK(g, lat::npart_icosahedral_sphere(k) == sum, "%d shells have %lld particles instead of %lld", k, (long long)lat::npart_icosahedral_sphere(k), (long long)sum);
  }
  PBT_CHECK(g, (int64_t)l.p.size() == sum, "%zu particles instead of %lld in %d shells", l.p.size(), (long long)sum, K);
  // shells: 1, 12, 42 ... particles at one radius each, growing, centred
  std::vector<double> r;
  L cm[3] = {0, 0, 0};
  for(auto & q : l.p) { double s = 0; for(int k = 0; k < 3; ++k) { double c = q.v[k] - .5 * (l.lo[k] + l.hi[k]); s += c * c; cm[k] += c; } r.push_back(sqrt(s) / R); }
  for(int k = 0; k < 3; ++k) PBT_CHECK(g, fabsl(cm[k]) < 1e-9L * R * l.p.size(), "the sphere is off its centre by %Lg", cm[k] / l.p.size());
  std::sort(r.begin(), r.end());
  size_t at = 1;
  double before = 0;
  double scale = 0;
  for(int k = 0; k < 3; ++k) scale = std::max(scale, std::max(fabs(l.lo[k]), fabs(l.hi[k])) / R);
  for(int k = 1; k <= K; ++k) {
    size_t n = 10 * k * k + 2;
    PBT_CHECK(g, r[at + n - 1] - r[at] < 1e-13 + 1e-14 * scale, "shell %d extends from %.17g to %.17g", k, r[at], r[at + n - 1]);
    PBT_CHECK(g, r[at] > before + 1e-3 / K, "shell %d at %.9g is not outside of the one before, at %.9g", k, r[at], before);
    before = r[at];
    at += n;
  }
  // evenly spread over the shell: the second moments of a shell are those of a sphere
  at = 1;
  L mom[6] = {0};
  std::map<double, int> order;
  for(auto & q : l.p) { L c[3]; for(int k = 0; k < 3; ++k) c[k] = (q.v[k] - .5L * (l.lo[k] + l.hi[k])) / R; mom[0] += c[0] * c[0]; mom[1] += c[1] * c[1]; mom[2] += c[2] * c[2]; mom[3] += c[0] * c[1]; mom[4] += c[1] * c[2]; mom[5] += c[0] * c[2]; }
  L tr = (mom[0] + mom[1] + mom[2]) / 3;
  for(int k = 0; k < 6; ++k) PBT_CHECK(g, fabsl(mom[k] - (k < 3 ? tr : 0)) < 1e-6L * tr + 1e-12L * scale, "the sphere is not round: moment %d is off by %Lg of %Lg", k, mom[k] - (k < 3 ? tr : 0), tr);
  // no two particles closer than a fraction of the mean distance on their shell
  Lat w = l;
  double mind = 1e300;
  for(size_t i = 0; i < l.p.size() && l.p.size() < 1500; ++i) for(size_t j = 0; j < i; ++j) { double s = 0; for(int k = 0; k < 3; ++k) s += (l.p[i].v[k] - l.p[j].v[k]) * (l.p[i].v[k] - l.p[j].v[k]); mind = std::min(mind, s); }
  PBT_CHECK(g, sqrt(mind) > .1 * R / K, "two particles at distance %g of the radius", sqrt(mind) / R);
  check_distribution(g, l, R, std::min(.95, 3.5 / K), "shells");
  g.nontrivial(K > 1);
}
PROPERTY(random_sphere, 400, 3000) {
  Lat l;
  param::_lattice_type = l.type = 4;
  l.dom = g.u(2);
  Prof p = gen_profile(g);
  gen_box(g, l, true, 4);
  double R = .5 * (l.hi[0] - l.lo[0]);
  int n = 3 + g.u(14);
  l.sep = 2 * R / (n - .5);
  note_lat(g, l);
  g.note(" %s rim %g", p.name.c_str(), p.q);
  fill_lat(g, l);
  check_inside(g, l);
  double want = pow(n + .5, 3);
  PBT_CHECK(g, l.p.size() == (size_t)want || fabs(l.p.size() - want) <= 1, "%zu particles instead of %.1f", l.p.size(), want);
  if(l.dom == 1) check_distribution(g, l, R, 3.5 / sqrt((double)l.p.size()), "random points");
  g.nontrivial(l.dom == 1);
}
#endif
