// Space filling curves: keys of points, decoding, cells, curve geometry.
#include <cassert>
#include <array>
#include <cmath>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <limits>
#include "tree_topology/filling_curve.h"
#include "pbt.h"
using namespace flecsi;
using pbt::Gen;

template<size_t D> using pt = space_vector_u<double, D>;
template<size_t D> using rg = std::array<pt<D>, 2>;

template<size_t D> rg<D> gen_range(Gen & g) {
  rg<D> r;
  int kind = g.u(4);
  for(size_t d = 0; d < D; ++d) {
    double lo, w;
    if(kind == 0) { lo = 0; w = 1; }
    else if(kind == 1) { lo = -(double)g.u(8); w = 1 + (double)g.u(16); }
    else if(kind == 2) { lo = g.real(-100, 100); w = g.lreal(1e-3, 1e3); }
    else { lo = g.real(-1, 1) * g.lreal(1e-6, 1e6); w = std::fabs(lo) * g.lreal(1e-3, 10) + g.lreal(1e-9, 1e3); }
    r[0][d] = lo;
    r[1][d] = lo + w;
  }
  return r;
}
// a point inside the range; corners, cell faces and random positions
template<size_t D> pt<D> gen_point(Gen & g, const rg<D> & r) {
  pt<D> p;
  for(size_t d = 0; d < D; ++d) {
    double t;
    switch(g.u(5)) {
      case 0: t = (double)g.u(3) / 2; break; // corners and middle
      case 1: t = (double)g.u(65) / 64; break;
      case 2: { int k = 1 + g.u(20); t = (double)g.u((1ull << k) + 1) / (double)(1ull << k); break; }
      default: t = g.unit();
    }
    double v = r[0][d] + t * (r[1][d] - r[0][d]);
    if(g.chance(1, 8)) v = std::nextafter(v, g.flip() ? r[1][d] : r[0][d]);
    if(v < r[0][d]) v = r[0][d];
    if(v > r[1][d]) v = r[1][d];
    p[d] = v;
  }
  return p;
}
template<size_t D> void show(Gen & g, const char * n, const pt<D> & p) {
  g.note("%s=(", n);
  for(size_t d = 0; d < D; ++d) g.note("%s%.17g", d ? "," : "", p[d]);
  g.note(") ");
}

// ---- round trip ------------------------------------------------------------
template<size_t D, class K, class I> void round_trip(Gen & g, const char * nm) {
  auto r = gen_range<D>(g);
  auto p = gen_point<D>(g, r);
  g.note("%s D=%zu bits=%zu ", nm, D, sizeof(I) * 8);
  show<D>(g, "lo", r[0]); show<D>(g, "hi", r[1]); show<D>(g, "p", p);
  const size_t md = K::max_depth();
  K k(r, p);
  PBT_CHECK(g, md == (sizeof(I) * 8 - 1) / D, "max depth is %zu", md);
  PBT_CHECK(g, k >= K::min() && k <= K::max(), "key of an interior point is outside [min,max]");
  PBT_CHECK(g, k.depth() == md, "key depth %zu instead of %zu", k.depth(), md);
  pt<D> q;
  k.coordinates(r, q);
  bool interior = true;
  for(size_t d = 0; d < D; ++d) {
    double w = r[1][d] - r[0][d];
    double cell = w / std::pow(2., (double)md);
    double tol = 2.0 * cell + 8e-16 * (std::fabs(r[0][d]) + std::fabs(r[1][d]) + w);
    PBT_CHECK(g, std::fabs(q[d] - p[d]) <= tol, "decoding the key gives %.17g for component %zu, point has %.17g (cell %.3g)", q[d], d, p[d], cell);
    PBT_CHECK(g, q[d] >= r[0][d] - tol && q[d] <= r[1][d] + tol, "decoded point outside of the range");
    if(p[d] <= r[0][d] || p[d] >= r[1][d]) interior = false;
  }
  g.nontrivial(interior);
  if(interior) g.label("strictly inside"); else g.label("on the boundary");
}

// ---- depth limited keys are prefixes; range() contains the point ---------------
template<size_t D, class K, class I> void prefixes(Gen & g, const char * nm) {
  auto r = gen_range<D>(g);
  auto p = gen_point<D>(g, r);
  const size_t md = K::max_depth();
  size_t depth = g.flip() ? g.u(std::min<size_t>(md, 6) + 1) : g.u(md + 1);
  g.note("%s D=%zu depth=%zu ", nm, D, depth);
  show<D>(g, "lo", r[0]); show<D>(g, "hi", r[1]); show<D>(g, "p", p);
  K full(r, p), part(r, p, depth), cut(full);
  cut.truncate(depth);
  PBT_CHECK(g, cut.depth() == depth, "truncating to depth %zu gives depth %zu", depth, cut.depth());
  PBT_CHECK(g, part.depth() == depth, "key requested at depth %zu has depth %zu", depth, part.depth());
  PBT_CHECK(g, part == cut, "key generated at depth %zu differs from the truncated full key", depth);
  g.nontrivial(depth > 0 && depth < md);
}
template<size_t D, class I> void morton_cells(Gen & g) {
  using K = morton_curve_u<D, I>;
  auto r = gen_range<D>(g);
  auto p = gen_point<D>(g, r);
  g.note("D=%zu ", D);
  show<D>(g, "lo", r[0]); show<D>(g, "hi", r[1]); show<D>(g, "p", p);
  K full(r, p);
  size_t md = K::max_depth();
  auto prev = r;
  size_t top = std::min<size_t>(md, 40);
  for(size_t depth = 0; depth <= top; ++depth) {
    K k(full);
    k.truncate(depth);
    auto c = k.range(r);
    for(size_t d = 0; d < D; ++d) {
      double w = r[1][d] - r[0][d];
      double eps = 4e-16 * (std::fabs(r[0][d]) + std::fabs(r[1][d])) * (depth + 2) + w * 1e-15;
      double cell = w / std::pow(2., (double)depth);
      PBT_CHECK(g, std::fabs((c[1][d] - c[0][d]) - cell) <= 2 * eps, "depth %zu: cell width %.17g, expected %.17g", depth, c[1][d] - c[0][d], cell);
      PBT_CHECK(g, p[d] >= c[0][d] - eps && p[d] <= c[1][d] + eps, "depth %zu: point %.17g outside of its cell [%.17g,%.17g]", depth, p[d], c[0][d], c[1][d]);
      PBT_CHECK(g, c[0][d] >= prev[0][d] - eps && c[1][d] <= prev[1][d] + eps, "depth %zu: cell is not inside its parent cell", depth);
    }
    prev = c;
  }
  g.nontrivial();
}
// the key is an order of the interleaved grid coordinates (Morton order)
template<size_t D, class I> void morton_order(Gen & g) {
  using K = morton_curve_u<D, I>;
  rg<D> r;
  for(size_t d = 0; d < D; ++d) { r[0][d] = -(double)(1 << g.u(4)); r[1][d] = r[0][d] + (double)(1 << g.u(6)); }
  size_t depth = 1 + g.u(std::min<size_t>(K::max_depth(), 16));
  uint64_t n = 1ull << depth;
  I want[2];
  K k[2];
  g.note("D=%zu depth=%zu ", D, depth);
  for(int a = 0; a < 2; ++a) {
    pt<D> p;
    uint64_t c[D];
    for(size_t d = 0; d < D; ++d) {
      c[d] = g.u(n);
      if(a == 1 && g.flip()) c[d] = 0;
      double f = g.pick({0.0, 0.25, 0.5, 0.75});
      p[d] = r[0][d] + (r[1][d] - r[0][d]) * (((double)c[d] + f) / (double)n);
    }
    show<D>(g, "p", p);
    want[a] = 1;
    for(int b = (int)depth - 1; b >= 0; --b) {
      I dig = 0;
      for(size_t d = 0; d < D; ++d) dig |= (I)((c[d] >> b) & 1) << d;
      want[a] = (want[a] << D) | dig;
    }
    k[a] = K(r, p);
    k[a].truncate(depth);
    PBT_CHECK(g, k[a].value() == want[a], "key at depth %zu is %llu, bit interleaving of the cell gives %llu", depth, (unsigned long long)k[a].value(), (unsigned long long)want[a]);
  }
  PBT_CHECK(g, (k[0] < k[1]) == (want[0] < want[1]) && (k[0] == k[1]) == (want[0] == want[1]) && (k[0] <= k[1]) == (want[0] <= want[1]) &&
    (k[0] > k[1]) == (want[0] > want[1]) && (k[0] >= k[1]) == (want[0] >= want[1]) && (k[0] != k[1]) == (want[0] != want[1]), "comparison operators disagree with the key values");
  g.nontrivial(want[0] != want[1]);
}
// at a given depth the curve visits every cell exactly once; successive Hilbert
// cells share a face and children of a cell are contiguous
template<size_t D, class K, class I> void visits(Gen & g, const char * nm, bool adjacent) {
  auto r = gen_range<D>(g);
  size_t maxd = D == 1 ? 9 : D == 2 ? 5 : 3;
  size_t depth = 1 + g.u(maxd);
  uint64_t n = 1ull << depth, total = 1;
  for(size_t d = 0; d < D; ++d) total *= n;
  double f[3] = {0.25 + 0.5 * g.unit(), 0.25 + 0.5 * g.unit(), 0.25 + 0.5 * g.unit()};
  g.note("%s D=%zu depth=%zu offset in cell (%.3f,%.3f,%.3f) ", nm, D, depth, f[0], f[1], f[2]);
  show<D>(g, "lo", r[0]); show<D>(g, "hi", r[1]);
  std::vector<int64_t> owner(total, -1);
  for(uint64_t idx = 0; idx < total; ++idx) {
    uint64_t m = idx;
    pt<D> p;
    for(size_t d = 0; d < D; ++d) {
      p[d] = r[0][d] + (r[1][d] - r[0][d]) * (((double)(m % n) + f[d]) / (double)n);
      m /= n;
    }
    K k(r, p);
    k.truncate(depth);
    uint64_t v = (uint64_t)k.value();
    PBT_CHECK(g, v >= total && v < 2 * total, "key %llu at depth %zu is not in [%llu,%llu)", (unsigned long long)v, depth, (unsigned long long)total, (unsigned long long)(2 * total));
    PBT_CHECK(g, owner[v - total] < 0, "cells %lld and %llu share key %llu", (long long)owner[v - total], (unsigned long long)idx, (unsigned long long)v);
    owner[v - total] = (int64_t)idx;
  }
  if(adjacent)
    for(uint64_t a = 0; a + 1 < total; ++a) {
      uint64_t x = owner[a], y = owner[a + 1];
      int diff = 0;
      for(size_t d = 0; d < D; ++d) { diff += std::abs((int)(x % n) - (int)(y % n)); x /= n; y /= n; }
      PBT_CHECK(g, diff == 1, "cells number %llu and %llu of the curve are not neighbours", (unsigned long long)a, (unsigned long long)a + 1);
    }
  g.nontrivial(depth > 1);
}

#define FOR_DIMS(g, fn, ...)                                                  \
  switch((g).u(3)) {                                                          \
    case 0: fn(1); break;                                                     \
    case 1: fn(2); break;                                                     \
    default: fn(3);                                                           \
  }

PROPERTY(morton_round_trip, 600000, 12000000) {
  bool w = g.u(4) == 3;
#define F(D) { if(w) round_trip<D, morton_curve_u<D, uint32_t>, uint32_t>(g, "morton"); else round_trip<D, morton_curve_u<D, uint64_t>, uint64_t>(g, "morton"); }
  FOR_DIMS(g, F)
#undef F
}
PROPERTY(hilbert_round_trip, 600000, 12000000) {
  bool w = g.u(4) == 3;
#define F(D) { if(w) round_trip<D, hilbert_curve_u<D, uint32_t>, uint32_t>(g, "hilbert"); else round_trip<D, hilbert_curve_u<D, uint64_t>, uint64_t>(g, "hilbert"); }
  FOR_DIMS(g, F)
#undef F
}
PROPERTY(morton_prefix, 300000, 6000000) {
#define F(D) prefixes<D, morton_curve_u<D, uint64_t>, uint64_t>(g, "morton")
  FOR_DIMS(g, F)
#undef F
}
PROPERTY(hilbert_prefix, 300000, 6000000) {
#define F(D) prefixes<D, hilbert_curve_u<D, uint64_t>, uint64_t>(g, "hilbert")
  FOR_DIMS(g, F)
#undef F
}
PROPERTY(morton_range, 100000, 2500000) {
#define F(D) morton_cells<D, uint64_t>(g)
  FOR_DIMS(g, F)
#undef F
}
PROPERTY(morton_interleave, 600000, 12000000) {
#define F(D) morton_order<D, uint64_t>(g)
  FOR_DIMS(g, F)
#undef F
}
PROPERTY(morton_visits, 15000, 400000) {
#define F(D) visits<D, morton_curve_u<D, uint64_t>, uint64_t>(g, "morton", D == 1)
  FOR_DIMS(g, F)
#undef F
}
PROPERTY(hilbert_visits, 15000, 400000) {
#define F(D) visits<D, hilbert_curve_u<D, uint64_t>, uint64_t>(g, "hilbert", true)
  FOR_DIMS(g, F)
#undef F
}

// ---- stateful: a key as a path of digits -----------------------------------------
template<size_t D, class K> void path(Gen & g, const char * nm) {
  const size_t md = K::max_depth();
  std::vector<int> model;
  K k = K::root();
  int ops = 1 + g.size(0, 60);
  g.note("%s D=%zu ops:", nm, D);
  size_t deepest = 0;
  auto value = [&](const std::vector<int> & m) { uint64_t v = 1; for(int x : m) v = (v << D) | (uint64_t)x; return v; };
  for(int o = 0; o < ops; ++o) {
    switch(g.u(7)) {
      case 0: case 1: case 2: {
        int reps = g.chance(1, 6) ? (int)md : 1;
        for(int q = 0; q < reps && model.size() < md; ++q) {
          int dig = g.u(1 << D);
          k.push(dig); model.push_back(dig);
          g.note(" push%d", dig);
        }
        break;
      }
      case 3:
        if(!model.empty()) {
          g.note(" pop_value");
          int v = k.pop_value();
          PBT_CHECK(g, v == model.back(), "pop_value returned %d, last digit is %d", v, model.back());
          model.pop_back();
        }
        break;
      case 4:
        if(!model.empty()) {
          size_t n = 1 + g.u(model.size());
          g.note(" pop(%zu)", n);
          if(n == 1) k.pop(); else k.pop(n);
          model.resize(model.size() - n);
        }
        break;
      case 5: {
        size_t to = g.u(md + 1);
        g.note(" truncate(%zu)", to);
        k.truncate(to);
        if(to < model.size()) model.resize(to);
        break;
      }
      default:
        if(!model.empty()) {
          g.note(" parent");
          auto pk = k.parent();
          std::vector<int> m(model.begin(), model.end() - 1);
          PBT_CHECK(g, (uint64_t)pk.value() == value(m), "parent is not the key without its last digit");
        }
    }
    deepest = std::max(deepest, model.size());
    PBT_CHECK(g, (uint64_t)k.value() == value(model), "value %llu, path gives %llu", (unsigned long long)k.value(), (unsigned long long)value(model));
    PBT_CHECK(g, k.depth() == model.size(), "depth %zu, path has %zu digits", k.depth(), model.size());
    if(!model.empty()) PBT_CHECK(g, k.last_value() == model.back(), "last_value %d, last digit %d", k.last_value(), model.back());
    PBT_CHECK(g, (k == K::root()) == model.empty(), "root test wrong");
    PBT_CHECK(g, !k.is_null(), "a path reported as null key");
    PBT_CHECK(g, K::null().is_null() && !(k == K::null()) && K::null() != k && K::null() < k, "the null key is not told from a path");
    std::ostringstream os;
    os << k << 10; // the stream's base must be left alone
    std::string want = "1";
    for(int x : model) want += std::to_string(x);
    PBT_CHECK(g, os.str() == want + "10", "printed as %s, digits are %s", os.str().c_str(), want.c_str());
    // all keys of that depth lie between min and max once completed
    K lo(k), hi(k);
    while(lo.depth() < md) { lo.push(0); hi.push((1 << D) - 1); }
    PBT_CHECK(g, lo >= K::min() && hi <= K::max() && lo <= hi, "descendants leave [min,max]");
    if(model.empty()) PBT_CHECK(g, lo == K::min() && hi == K::max(), "root's descendants do not span [min,max]");
  }
  // depth of the deepest common ancestor of two full keys
  {
    size_t common = g.u(md + 1);
    K a = K::root(), b = K::root();
    bool split = false;
    for(size_t i = 0; i < md; ++i) {
      int da = g.u(1 << D), db = da;
      if(i == common) { db = da ^ (1 + (int)g.u((1 << D) - 1)); split = true; }
      else if(i > common) db = g.u(1 << D);
      a.push(da); b.push(db);
    }
    int cd = a.conflict_depth(a, b);
    PBT_CHECK(g, cd == (int)common, "conflict depth %d of keys with %zu common digits", cd, common);
    (void)split;
  }
  g.nontrivial(deepest >= 2);
}
PROPERTY(key_path, 30000, 800000) {
#define F(D) { if(g.flip()) path<D, morton_curve_u<D, uint64_t>>(g, "morton"); else path<D, hilbert_curve_u<D, uint64_t>>(g, "hilbert"); }
  FOR_DIMS(g, F)
#undef F
}
