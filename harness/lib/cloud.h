// Random particle clouds, shared by the distributed harnesses.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <map>

inline std::vector<double> attrs(body & b) {
  std::vector<double> a;
  auto v = [&](const point_t & p) { for(size_t d = 0; d < gdimension; ++d) a.push_back(p[d]); };
  v(b.coordinates()); v(b.getVelocity()); v(b.getVelocityhalf()); v(b.getAcceleration()); v(b.getGAcceleration());
  for(double x : {b.mass(), b.radius(), b.getGPotential(), b.getDensity(), b.getPressure(), b.getEntropy(), b.getElectronfraction(), b.getTemperature(),
        b.getSoundspeed(), b.getInternalenergy(), b.getTotalenergy(), b.getDudt(), b.getDedt(), b.getAdiabatic(), b.getDadt(), b.getDt(), b.getAlpha(),
        b.getDivergenceV(), b.getDdivvdt(), b.getTrigger(), b.getXi(), b.getTraceSS(), b.getGradV(), b.getPressuremin(), b.getSignalspeed()})
    a.push_back(x);
  a.push_back((double)b.getType()); a.push_back((double)b.state()); a.push_back((double)b.getNeighbors()); a.push_back((double)b.id());
  return a;
}
// every attribute distinct and derived from (id,salt)
inline void fill_attrs(body & b, size_t id, uint64_t salt) {
  uint64_t s = pbt::mix64(id * 977 + salt);
  auto n = [&] { s = pbt::mix64(s + 1); return (double)(s >> 40) / 65536.0 + 1; };
  auto v = [&] { point_t p; for(size_t d = 0; d < gdimension; ++d) p[d] = n() - 100; return p; };
  b.setVelocity(v()); b.setVelocityhalf(v()); b.setAcceleration(v()); b.setGAcceleration(v());
  b.setGPotential(n()); b.setDensity(n()); b.setPressure(n()); b.setEntropy(n()); b.setElectronfraction(n()); b.setTemperature(n()); b.setSoundspeed(n());
  b.setInternalenergy(n()); b.setTotalenergy(n()); b.setDudt(n()); b.setDedt(n()); b.setAdiabatic(n()); b.setDadt(n()); b.setDt(n()); b.setAlpha(n());
  b.setDivergenceV(n()); b.setDdivvdt(n()); b.setTrigger(n()); b.setXi(n()); b.setTraceSS(n()); b.setGradV(n()); b.setPressuremin(n()); b.setSignalspeed(n());
  b.setType(s & 1 ? WALL : NORMAL); b.set_state((int)(s >> 1) % 4); b.setNeighbors(s % 91); b.set_owner(0);
}

struct Cloud {
  std::vector<body> p; // in id order
  double scale = 1;
};
//! positions on a 2^-17 grid of the unit box (then scaled), all in different
//! finest cells of the curve
inline Cloud gen_cloud(pbt::Gen & g, size_t n, bool equal_h, bool small_h = false) {
  Cloud c;
  const double G = 131072;
  int kind = g.u(7);
  int hk = equal_h ? 0 : 1 + g.u(3);
  c.scale = g.pick({1.0, 1.0, 1e-3, 1e4, 1e10});
  point_t off = {};
  if(g.flip()) for(size_t d = 0; d < gdimension; ++d) off[d] = c.scale * (double)g.i(-3, 3);
  // mean separation sets the smoothing scale
  double sep = 1.0 / std::pow((double)n, 1.0 / gdimension);
  double h0 = small_h ? sep * g.pick({0.5, 1.0, 1.7}) : sep * g.pick({0.05, 0.5, 1.2, 2.0, 3.0, 30.0});
  uint64_t s = g.u(1ull << 32), salt = g.u(1000);
  pbt::Rng r(s + 1);
  auto coord = [&] { return (double)r.below((uint64_t)G + 1) / G; };
  std::vector<point_t> centre;
  int nc = 1 + (int)g.u(4);
  for(int i = 0; i < nc; ++i) { point_t q; for(size_t d = 0; d < gdimension; ++d) q[d] = coord(); centre.push_back(q); }
  int shrink = 1 + (int)g.u(10);
  size_t side = (size_t)std::ceil(std::pow((double)n, 1.0 / gdimension) - 1e-9);
  std::map<std::vector<long>, int> used;
  for(size_t i = 0; i < n; ++i) {
    point_t q;
    for(int tries = 0;; ++tries) {
      switch(kind) {
        case 0: case 1: for(size_t d = 0; d < gdimension; ++d) q[d] = coord(); break;
        case 2: case 3: { // clusters
          auto & z = centre[r.below(nc)];
          for(size_t d = 0; d < gdimension; ++d) { q[d] = z[d] + std::round((coord() - .5) * G / (1 << shrink)) / G; q[d] = std::min(1.0, std::max(0.0, q[d])); }
          break;
        }
        case 4: { // regular lattice
          size_t k = i + (tries ? r.below(100000) : 0);
          for(size_t d = 0; d < gdimension; ++d) { q[d] = std::round(((double)(k % side) + .5 * (kind == 5)) / side * G) / G; k /= side; if(d + 1 == gdimension && tries) q[d] = coord(); }
          break;
        }
        case 5: // on a line through the box
          for(size_t d = 0; d < gdimension; ++d) q[d] = d == 0 ? coord() : 0.25;
          break;
        default: // very uneven: geometric towards a corner
          for(size_t d = 0; d < gdimension; ++d) q[d] = std::round(coord() * G / (double)(1 << r.below(12))) / G;
      }
      std::vector<long> k;
      for(size_t d = 0; d < gdimension; ++d) k.push_back((long)(q[d] * G));
      if(used.emplace(k, 1).second) break;
      if(tries > 40) for(size_t d = 0; d < gdimension; ++d) q[d] = coord(), kind = 0;
    }
    body b;
    fill_attrs(b, i, salt);
    double h = h0;
    double f = (double)r.below(1001) / 1000;
    if(hk == 1) h *= 0.5 + f;
    if(hk == 2) h *= std::pow(10., 2 * f - 1);
    if(hk == 3) h *= r.below(8) == 0 ? 6 : 0.5;
    b.set_coordinates(q * c.scale + off);
    b.set_mass(0.1 + (double)r.below(1000) / 100);
    b.set_id(i);
    b.set_radius(std::min(h, 3.0) * c.scale);
    b.set_key(key_type(0));
    c.p.push_back(b);
  }
  g.note("cloud(n=%zu kind=%d h0=%.3g hk=%d scale=%g seed=%llu) ", n, kind, h0, hk, c.scale, (unsigned long long)s);
  return c;
}
//! particles the tree cannot tell apart (same finest cell) are outside of the domain
inline void drop_coincident(std::vector<body> & p) {
  std::array<point_t, 2> r;
  for(size_t d = 0; d < gdimension; ++d) {
    r[0][d] = 1e300; r[1][d] = -1e300;
    for(auto & b : p) { r[0][d] = std::min(r[0][d], b.coordinates()[d] - b.radius()); r[1][d] = std::max(r[1][d], b.coordinates()[d] + b.radius()); }
  }
  std::map<std::vector<long>, int> seen;
  const double cells = std::pow(2., (sizeof(key_type_t) * 8 - 1) / gdimension);
  std::vector<body> out;
  for(auto & b : p) {
    bool ok = true;
    std::vector<long> k;
    for(size_t d = 0; d < gdimension; ++d) k.push_back((long)std::floor((b.coordinates()[d] - r[0][d]) / (r[1][d] - r[0][d]) * std::min(cells, 1048576.0)));
    if(seen.emplace(k, 1).second) out.push_back(b);
  }
  p = out;
}
//! balanced (counts differ by at most one) random distribution
inline std::vector<std::vector<body>> deal(pbt::Gen & g, const std::vector<body> & p, int n) {
  std::vector<std::vector<body>> out(n);
  std::vector<size_t> idx(p.size());
  for(size_t i = 0; i < idx.size(); ++i) idx[i] = i;
  int how = g.u(5);
  uint64_t s = g.u(1000);
  pbt::Rng r(s);
  if(how) for(size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r.below(i)]);
  std::vector<size_t> cnt(n, p.size() / n);
  int extra = (int)(p.size() % n), rot = how == 2 ? (int)r.below(n) : 0;
  for(int i = 0; i < extra; ++i) cnt[(i + rot) % n]++;
  if(how >= 3) { // any shares, empty ones included
    std::fill(cnt.begin(), cnt.end(), 0);
    for(size_t i = 0, k = 0; i < p.size(); ++i) { if(how == 3 || r.below(6) == 0) k = r.below(n); cnt[k]++; }
  }
  size_t k = 0;
  for(int i = 0; i < n; ++i) for(size_t j = 0; j < cnt[i]; ++j) out[i].push_back(p[idx[k++]]);
  g.note("deal(%d,%llu) ", how, (unsigned long long)s);
  return out;
}
inline double dist2(const point_t & a, const point_t & b) { double s = 0; for(size_t d = 0; d < gdimension; ++d) s += (a[d] - b[d]) * (a[d] - b[d]); return s; }
inline int gen_ranks(pbt::Gen & g) { return g.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 2, 3, 4, 5, 6, 12, 13}); }
inline size_t gen_n(pbt::Gen & g, int ranks, size_t big = 600) {
  size_t n;
  switch(g.u(6)) { case 0: case 1: n = 1 + g.u(8); break; case 2: case 3: n = 1 + g.u(60); break; case 4: n = 1 + g.u(200); break; default: n = 1 + g.u(big); }
  return std::max<size_t>(n, 1) + ranks;
}
