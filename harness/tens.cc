// Tensors and vectors against plain component arrays.
#include <cassert>
#include <cmath>
#include <sstream>
#include <vector>
#include "space_vector.h"
#include "pbt.h"
using namespace flecsi;
using pbt::Gen;

// ---- access: symbolic index, multi-index and flat storage ---------------------
template<class T, size_t... I> static double & at_(T & t, const int * m, std::index_sequence<I...>) { return t((size_t)m[I]...); }
template<class T, size_t... I> static double atc_(const T & t, const int * m, std::index_sequence<I...>) { return t((size_t)m[I]...); }
template<size_t R, class T> double & at(T & t, const int * m) { return at_(t, m, std::make_index_sequence<R>()); }
template<size_t R, class T> double atc(const T & t, const int * m) { return atc_(t, m, std::make_index_sequence<R>()); }
template<size_t R> struct sym;
template<> struct sym<1> { using type = tensor_indices::rank1_index; };
template<> struct sym<2> { using type = tensor_indices::rank2_index; };
template<> struct sym<3> { using type = tensor_indices::rank3_index; };
template<> struct sym<4> { using type = tensor_indices::rank4_index; };

static const char * name4[] = {"x", "y", "z", "t"};

template<size_t R, size_t D, class T> void access(Gen & g, bool symm, const char * what) {
  T t(0.0);
  // model: values by canonical multi-index
  std::map<std::vector<int>, double> model;
  auto canon = [&](const int * m) { std::vector<int> v(m, m + R); if(symm) std::sort(v.begin(), v.end()); return v; };
  g.note("%s rank %zu dim %zu:", what, R, D);
  int writes = 1 + g.u(12);
  for(int w = 0; w < writes; ++w) {
    int m[R]; int flat4 = 0;
    for(size_t r = 0; r < R; ++r) { m[r] = g.u(D); flat4 = flat4 * 4 + m[r]; }
    double v = 1 + g.u(1000);
    bool bysym = g.flip();
    g.note(" %s[", bysym ? "sym" : "idx");
    for(size_t r = 0; r < R; ++r) g.note("%s", name4[m[r]]);
    g.note("]=%g", v);
    if(bysym) t[(typename sym<R>::type)flat4] = v; else at<R>(t, m) = v;
    model[canon(m)] = v;
  }
  // every component, by every access path
  size_t total = 1;
  for(size_t r = 0; r < R; ++r) total *= D;
  const T & ct = t;
  std::map<std::vector<int>, const double *> addr;
  for(size_t i = 0; i < total; ++i) {
    int m[R]; size_t q = i; int flat4 = 0;
    for(size_t r = 0; r < R; ++r) { m[r] = q % D; q /= D; }
    std::string nm;
    for(size_t r = 0; r < R; ++r) { flat4 = flat4 * 4 + m[r]; nm += name4[m[r]]; }
    auto it = model.find(canon(m));
    double want = it == model.end() ? 0.0 : it->second;
    double a = at<R>(t, m), b = atc<R>(ct, m), c = t[(typename sym<R>::type)flat4];
    PBT_CHECK(g, a == want, "component %s is %g through (i,j,..), last written %g", nm.c_str(), a, want);
    PBT_CHECK(g, b == want, "component %s is %g through const (i,j,..), last written %g", nm.c_str(), b, want);
    PBT_CHECK(g, c == want, "component %s is %g through its symbolic name, last written %g", nm.c_str(), c, want);
    const double * p = &at<R>(t, m);
    PBT_CHECK(g, p >= &t[(size_t)0] && p < &t[(size_t)0] + T::size(), "component %s is stored outside of the tensor", nm.c_str());
    auto ins = addr.emplace(canon(m), p);
    PBT_CHECK(g, ins.first->second == p, "equivalent components are stored twice (%s)", nm.c_str());
  }
  PBT_CHECK(g, addr.size() == (size_t)T::size(), "%zu independent components, size() is %zu", addr.size(), (size_t)T::size());
  std::set<const double *> u;
  for(auto & x : addr) u.insert(x.second);
  PBT_CHECK(g, u.size() == addr.size(), "two independent components share storage");
  PBT_CHECK(g, (size_t)T::RANK == R, "rank");
  g.nontrivial(T::size() > 1);
}
// symmetric tensors only exist for rank >= 2
#define GEN(R) { switch(d) { case 0: access<R, 1, GENT(R, 1)>(g, false, "generic"); break; case 1: access<R, 2, GENT(R, 2)>(g, false, "generic"); break; case 2: access<R, 3, GENT(R, 3)>(g, false, "generic"); break; default: access<R, 4, GENT(R, 4)>(g, false, "generic"); } }
#define SYM(R) { switch(d) { case 0: access<R, 1, SYMT(R, 1)>(g, true, "symmetric"); break; case 1: access<R, 2, SYMT(R, 2)>(g, true, "symmetric"); break; case 2: access<R, 3, SYMT(R, 3)>(g, true, "symmetric"); break; default: access<R, 4, SYMT(R, 4)>(g, true, "symmetric"); } }
template<symmetry_type S, size_t R, size_t D> struct mk;
template<symmetry_type S, size_t D> struct mk<S, 1, D> { using type = tensor_u<double, S, D>; };
template<symmetry_type S, size_t D> struct mk<S, 2, D> { using type = tensor_u<double, S, D, D>; };
template<symmetry_type S, size_t D> struct mk<S, 3, D> { using type = tensor_u<double, S, D, D, D>; };
template<symmetry_type S, size_t D> struct mk<S, 4, D> { using type = tensor_u<double, S, D, D, D, D>; };
#define GENT(R, D) typename mk<symmetry_type::generic, R, D>::type
#define SYMT(R, D) typename mk<symmetry_type::symmetric, R, D>::type

PROPERTY(tensor_access, 120000, 3000000) {
  int k = g.u(7), d = g.u(4);
  switch(k) {
    case 0: GEN(1) break;
    case 1: GEN(2) break;
    case 2: GEN(3) break;
    case 3: GEN(4) break;
    case 4: SYM(2) break;
    case 5: SYM(3) break;
    default: SYM(4)
  }
}

// ---- arithmetic: a program over a few variables, with aliasing --------------------
template<class T> void program(Gen & g, const char * what) {
  constexpr size_t N = T::size();
  constexpr int V = 3;
  using A = std::array<double, N>;
  std::vector<T> t;
  std::vector<A> m(V);
  g.note("%s size %zu:", what, N);
  for(int v = 0; v < V; ++v) {
    t.emplace_back(T(0.0));
    for(size_t i = 0; i < N; ++i) { double x = (double)((int)g.u(33) - 16) / 4; t[v][i] = x; m[v][i] = x; }
  }
  int steps = 1 + g.u(12);
  bool alias = false;
  for(int s = 0; s < steps; ++s) {
    int a = g.u(V), b = g.u(V), c = g.u(V);
    double k = g.pick({0.5, 2.0, -1.0, 0.25, 3.0, 4.0, -8.0});
    int op = g.u(13);
    alias = alias || a == b;
    A old = m[a];
    switch(op) {
      case 0: g.note(" v%d+=v%d", a, b); t[a] += t[b]; for(size_t i = 0; i < N; ++i) m[a][i] = old[i] + m[b][i]; break;
      case 1: g.note(" v%d-=v%d", a, b); t[a] -= t[b]; { A o = m[b]; for(size_t i = 0; i < N; ++i) m[a][i] = old[i] - o[i]; } break;
      case 2: g.note(" v%d*=%g", a, k); t[a] *= k; for(auto & x : m[a]) x *= k; break;
      case 3: g.note(" v%d/=%g", a, k); t[a] /= k; for(auto & x : m[a]) x /= k; break;
      case 4: g.note(" v%d+=%g", a, k); t[a] += k; for(auto & x : m[a]) x += k; break;
      case 5: g.note(" v%d-=%g", a, k); t[a] -= k; for(auto & x : m[a]) x -= k; break;
      case 6: { g.note(" v%d=v%d+v%d", a, b, c); A x; for(size_t i = 0; i < N; ++i) x[i] = m[b][i] + m[c][i]; t[a] = t[b] + t[c]; m[a] = x; break; }
      case 7: { g.note(" v%d=v%d-v%d", a, b, c); A x; for(size_t i = 0; i < N; ++i) x[i] = m[b][i] - m[c][i]; t[a] = t[b] - t[c]; m[a] = x; break; }
      case 8: { g.note(" v%d=v%d*%g", a, b, k); A x; for(size_t i = 0; i < N; ++i) x[i] = m[b][i] * k; t[a] = t[b] * k; m[a] = x; break; }
      case 9: { g.note(" v%d=%g*v%d", a, k, b); A x; for(size_t i = 0; i < N; ++i) x[i] = m[b][i] * k; t[a] = k * t[b]; m[a] = x; break; }
      case 10: { g.note(" v%d=v%d/%g", a, b, k); A x; for(size_t i = 0; i < N; ++i) x[i] = m[b][i] / k; const T & cb = t[b]; t[a] = cb / k; m[a] = x; break; }
      case 11: g.note(" v%d=v%d", a, b); t[a] = t[b]; m[a] = m[b]; break;
      default: g.note(" v%d=%g", a, k); t[a] = k; for(auto & x : m[a]) x = k;
    }
    for(int v = 0; v < V; ++v)
      for(size_t i = 0; i < N; ++i)
        PBT_CHECK(g, std::fabs(t[v][i] - m[v][i]) <= 1e-12 * (1 + std::fabs(m[v][i])), "after the last step component %zu of v%d is %.17g, componentwise %.17g", i, v, t[v][i], m[v][i]);
    bool eq = m[a] == m[b];
    PBT_CHECK(g, (t[a] == t[b]) == eq && (t[a] != t[b]) == !eq, "comparison of v%d and v%d", a, b);
    for(auto & x : m[a]) if(std::fabs(x) > 1e6) { t[a] = 1.0; for(auto & y : m[a]) y = 1.0; break; }
  }
  if(alias) g.label("a variable used on both sides");
  g.nontrivial(steps > 1);
}
PROPERTY(tensor_arithmetic, 250000, 6000000) {
  switch(g.u(7)) {
    case 0: program<space_vector_u<double, 1>>(g, "vector"); break;
    case 1: program<space_vector_u<double, 2>>(g, "vector"); break;
    case 2: program<space_vector_u<double, 3>>(g, "vector"); break;
    case 3: program<GENT(2, 2)>(g, "generic"); break;
    case 4: program<SYMT(2, 3)>(g, "symmetric"); break;
    case 5: program<GENT(3, 3)>(g, "generic"); break;
    default: program<SYMT(4, 2)>(g, "symmetric");
  }
}

// ---- vector functions ----------------------------------------------------------
template<size_t D> void vectors(Gen & g) {
  using V = space_vector_u<double, D>;
  using ld = long double;
  V v[3];
  int lat = g.flip();
  double sc = g.pick({1.0, 1e-4, 1e4});
  for(int k = 0; k < 3; ++k) { g.note("%c=(", 'a' + k); for(size_t d = 0; d < D; ++d) { v[k][d] = lat ? sc * ((int)g.u(9) - 4) : sc * g.real(-3, 3); g.note("%.17g ", v[k][d]); } g.note(") "); }
  V &a = v[0], &b = v[1], &c = v[2];
  ld dd = 0, ab = 0, aa = 0;
  for(size_t d = 0; d < D; ++d) { dd += ((ld)a[d] - b[d]) * ((ld)a[d] - b[d]); ab += (ld)a[d] * b[d]; aa += (ld)a[d] * a[d]; }
  double e1 = 1e-13 * sc, e2 = 1e-12 * sc * sc;
  PBT_CHECK(g, std::fabs(flecsi::distance(a, b) - (double)sqrtl(dd)) <= e1, "distance %.17g, expected %.17g", flecsi::distance(a, b), (double)sqrtl(dd));
  PBT_CHECK(g, std::fabs(dot(a, b) - (double)ab) <= e2, "dot %.17g, expected %.17g", dot(a, b), (double)ab);
  PBT_CHECK(g, std::fabs(magnitude(a) - (double)sqrtl(aa)) <= e1, "magnitude %.17g, expected %.17g", magnitude(a), (double)sqrtl(aa));
  V mid = midpoint(a, b);

  std::vector<V> pts;
  int n = 1 + g.u(6);
  ld sum[3] = {0, 0, 0};
  for(int k = 0; k < n; ++k) { V p = v[g.u(3)]; pts.push_back(p); for(size_t d = 0; d < D; ++d) sum[d] += p[d]; }
  V cen = centroid<std::vector, double, D>(pts);
  for(size_t d = 0; d < D; ++d) {
    PBT_CHECK(g, std::fabs(mid[d] - 0.5 * (a[d] + b[d])) <= e1, "midpoint component %zu", d);
    PBT_CHECK(g, std::fabs(cen[d] - (double)(sum[d] / n)) <= 10 * e1, "centroid component %zu", d);
  }
  V x = cross(a, b);
  ld w[3] = {0, 0, 0}, area = 0;
  if constexpr(D == 3) {
    w[0] = (ld)a[1] * b[2] - (ld)a[2] * b[1]; w[1] = (ld)a[2] * b[0] - (ld)a[0] * b[2]; w[2] = (ld)a[0] * b[1] - (ld)a[1] * b[0];
    area = sqrtl(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
    V nn = normal(a, b);
    for(int d = 0; d < 3; ++d) PBT_CHECK(g, std::fabs(nn[d] - (double)w[d]) <= e2, "normal component %d", d);
    PBT_CHECK(g, std::fabs(dot(a, x)) <= 40 * e2 * sc && std::fabs(dot(b, x)) <= 40 * e2 * sc, "cross product is not orthogonal to its arguments");
  }
  if constexpr(D == 2) {
    area = fabsl((ld)a[0] * b[1] - (ld)a[1] * b[0]);
    V nn = normal(a, b);
    PBT_CHECK(g, std::fabs(nn[0] * (b[0] - a[0]) + nn[1] * (b[1] - a[1])) <= 10 * e2 && std::fabs(magnitude(nn) - (double)sqrtl(dd)) <= e1 && nn[1] == b[0] - a[0], "normal of segment");
  }
  for(size_t d = 0; d < D; ++d) PBT_CHECK(g, std::fabs(x[d] - (double)w[d]) <= e2, "cross component %zu is %.17g, expected %.17g", d, x[d], (double)w[d]);
  PBT_CHECK(g, std::fabs(cross_magnitude(a, b) - (double)area) <= e2, "cross_magnitude %.17g, expected %.17g", cross_magnitude(a, b), (double)area);
  (void)c;
  g.nontrivial(dd > 0 && aa > 0);
}
PROPERTY(vector_functions, 300000, 8000000) {
  switch(g.u(3)) { case 0: vectors<1>(g); break; case 1: vectors<2>(g); break; default: vectors<3>(g); }
}
