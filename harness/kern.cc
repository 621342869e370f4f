// C13: kernels against long-double reference shapes, quadrature and numeric
// differentiation.  C14: selection by name.
#include <cassert>
#include "pbt.h"
#include "mockmpi.h"
#include "user.h"
#include "space_vector.h"
#include "physics/kernels.h"
using namespace pbt;
typedef long double L;
static const int D = gdimension;
static const L PI = 3.14159265358979323846264338327950288L;

enum { CUBIC, QUINTIC, WC2, WC4, WC6, GAUSS, SUPER, SINC, NK };
struct KD { const char * name; kernels::kernel_function_t w; kernels::kernel_gradient_t g; double width; };
#define KK(K) kernels::kernel<param::K, gdimension>, kernels::kernel_gradient<param::K, gdimension>
static const KD kd[NK] = {
  {"cubic_spline", KK(cubic_spline), 2.0}, {"quintic_spline", KK(quintic_spline), 3.0},
  {"wendland_c2", KK(wendland_c2), 2.0}, {"wendland_c4", KK(wendland_c4), 2.0}, {"wendland_c6", KK(wendland_c6), 2.0},
  {"gaussian", KK(gaussian), 3.0}, {"super_gaussian", KK(super_gaussian), 3.0}, {"sinc_ker", KK(sinc_ker), 2.0}};

static L p(L x, int n) { L r = 1; while(n-- > 0) r *= x; return r; }
// unnormalised shape of q = r/h in [0,1], and its derivative in q
static L shape(int k, L q, L n) {
  switch(k) {
    case CUBIC: { L x = 2 * q; return x < 1 ? 1 - 1.5L * x * x + .75L * x * x * x : x < 2 ? p(2 - x, 3) / 4 : 0; }
    case QUINTIC: { L x = 3 * q; return (x < 3 ? p(3 - x, 5) : 0) - (x < 2 ? 6 * p(2 - x, 5) : 0) + (x < 1 ? 15 * p(1 - x, 5) : 0); }
    case WC2: return q >= 1 ? 0 : D == 1 ? p(1 - q, 3) * (1 + 3 * q) : p(1 - q, 4) * (1 + 4 * q);
    case WC4: return q >= 1 ? 0 : D == 1 ? p(1 - q, 5) * (1 + 5 * q + 8 * q * q) : p(1 - q, 6) * (1 + 6 * q + 35 * q * q / 3);
    case WC6: return q >= 1 ? 0 : D == 1 ? p(1 - q, 7) * (1 + 7 * q + 19 * q * q + 21 * p(q, 3)) : p(1 - q, 8) * (1 + 8 * q + 25 * q * q + 32 * p(q, 3));
    case GAUSS: return q > 1 ? 0 : expl(-9 * q * q);
    case SUPER: return q >= 1 ? 0 : expl(-9 * q * q) * (D / 2.0L + 1 - 9 * q * q);
    case SINC: return q >= 1 ? 0 : q == 0 ? 1 : powl(sinl(PI * q) / (PI * q), n);
  }
  return 0;
}
static L dshape(int k, L q, L n) {
  if(q >= 1) return 0;
  switch(k) {
    case CUBIC: { L x = 2 * q; return 2 * (x < 1 ? -3 * x + 2.25L * x * x : -.75L * p(2 - x, 2)); }
    case QUINTIC: { L x = 3 * q; return 3 * (-5 * p(3 - x, 4) + (x < 2 ? 30 * p(2 - x, 4) : 0) - (x < 1 ? 75 * p(1 - x, 4) : 0)); }
    case WC2: return D == 1 ? -12 * q * p(1 - q, 2) : -20 * q * p(1 - q, 3);
    case WC4: return D == 1 ? -14 * q * p(1 - q, 4) * (1 + 4 * q) : -56 * q * p(1 - q, 5) * (1 + 5 * q) / 3;
    case WC6: return D == 1 ? -6 * q * p(1 - q, 6) * (3 + 18 * q + 35 * q * q) : -22 * q * p(1 - q, 7) * (1 + 7 * q + 16 * q * q);
    case GAUSS: return -18 * q * expl(-9 * q * q);
    case SUPER: return expl(-9 * q * q) * (-18 * q * (D / 2.0L + 1 - 9 * q * q) - 18 * q);
    case SINC: { if(q == 0) return 0; L x = PI * q, s = sinl(x) / x;
      L ds = x < 1e-5L ? -x / 3 + x * x * x / 30 : (cosl(x) - s) / x; return n * powl(s, n - 1) * ds * PI; }
  }
  return 0;
}
// composite Simpson over [0,1] with nodes on every breakpoint (multiples of 1/6)
template<class F> static L integrate(F f, int m = 600) {
  L s = 0, hh = 1.0L / m;
  for(int i = 0; i <= m; ++i) s += f(i * hh) * (i == 0 || i == m ? 1 : i % 2 ? 4 : 2);
  return s * hh / 3;
}
static L vol(L q) { return D == 1 ? 2 : D == 2 ? 2 * PI * q : 4 * PI * q * q; }
static L norm_of(int k, L n) {
  static std::map<int, L> c;
  if(k != SINC) { auto it = c.find(k); if(it != c.end()) return it->second; }
  // stay just inside of the support at the end point
  L I = integrate([&](L q) { return shape(k, q >= 1 ? (k == GAUSS || k == SUPER ? 1 - 1e-15L : q) : q, n) * vol(q); }, k == SINC ? 900 : 6000);
  return c[k] = 1 / I;
}
static void set_si(double n) { param::_sph_sinc_index = n; kernels::set_sinc_kernel_normalization(n); }
// relative accuracy of the tabulated normalisation: published fits for sinc
static L norm_tol(int k) { return k == SINC ? 2e-3L : k == GAUSS || k == SUPER ? 1e-9L : 1e-10L; }

struct Case { int k; double n, h; };
static Case gen_case(Gen & g) {
  Case c;
  c.k = g.u(NK);
  c.n = g.flip() ? (double)g.i(3, 12) : g.real(3., 12.);
  c.h = g.pick({0, 1, 2}) ? g.lreal(1e-12, 1e12) : g.pick({1.0, 0.5, 2.0, 0.1});
  set_si(c.n);
  g.note("%s D=%d h=%.17g n=%.17g", kd[c.k].name, D, c.h, c.n);
  g.label(kd[c.k].name);
  return c;
}
static double gen_q(Gen & g) {
  switch(g.u(8)) {
    case 0: return 0;
    case 1: return g.pick({0.5, 1. / 3., 2. / 3., 1.0, 0.25, 0.75});
    case 2: return 1 + g.pick({1e-12, 1e-9, 1e-3, 1.0, 1e3});
    case 3: return 1 - g.pick({1e-12, 1e-9, 1e-6, 1e-3});
    case 4: return g.lreal(1e-14, 1e-2);
    case 5: return g.real(1, 3);
    default: return g.unit();
  }
}
static point_t direction(Gen & g, L dir[3]) {
  point_t u = 0.0;
  L m = 0;
  for(int i = 0; i < D; ++i) { dir[i] = g.real(-1, 1); if(g.u(5) == 0) dir[i] = 0; m += dir[i] * dir[i]; }
  if(m < 1e-6L) { for(int i = 0; i < D; ++i) dir[i] = 0; dir[g.u(D)] = g.flip() ? -1 : 1; m = 1; }
  m = sqrtl(m);
  for(int i = 0; i < D; ++i) { dir[i] /= m; u[i] = (double)dir[i]; }
  return u;
}

PROPERTY(kernel_value, 60000, 3000000) {
  Case c = gen_case(g);
  double q = gen_q(g), r = q * c.h;
  g.note(" q=%.17g", q);
  L qq = (L)r / c.h; // what the kernel is really asked
  double w = kd[c.k].w(r, c.h);
  PBT_CHECK(g, std::isfinite(w), "W is %g", w);
  bool cut = fabsl(qq - 1) < 1e-14L; // on the support's edge
  L N = norm_of(c.k, c.n), hd = p(c.h, D), ref = shape(c.k, qq, c.n) * N / hd;
  L scale = std::max({shape(c.k, 0, c.n) * N / hd});
  L w0 = kd[c.k].w(0.0, c.h);
  PBT_CHECK(g, w0 > 0, "W(0) = %Lg", w0);
  PBT_CHECK(g, fabsl(w0 - scale) <= norm_tol(c.k) * scale, "W(0,h) = %.12Lg, normalised kernel has %.12Lg", w0, scale);
  if(qq > 1 + 1e-14L) PBT_CHECK(g, w == 0, "W = %g beyond the support", w);
  if(!cut) PBT_CHECK(g, fabsl(w - ref / scale * w0) <= 4e-13L * w0, "W = %.15g, reference shape gives %.15Lg", w, ref / scale * w0);
  else PBT_CHECK(g, fabsl(w) <= 1.3e-4L * 8 * w0, "W = %g at the edge", w);
  if(c.k != SUPER) PBT_CHECK(g, w >= 0, "W = %g is negative", w);
  // scaling: W(r,h) = h^-D W(r/h,1)
  double w1 = kd[c.k].w((double)qq, 1.0);
  if(!cut) PBT_CHECK(g, fabsl(w1 - w * hd) <= 1e-12L * kd[c.k].w(0.0, 1.0), "W(r,h) h^D = %.15Lg but W(r/h,1) = %.15g", w * hd, w1);
  g.nontrivial(qq > 0 && qq < 1);
}
PROPERTY(kernel_monotone, 40000, 2000000) {
  Case c = gen_case(g);
  double a = gen_q(g), b = gen_q(g);
  if(a > b) std::swap(a, b);
  g.note(" q1=%.17g q2=%.17g", a, b);
  double wa = kd[c.k].w(a * c.h, c.h), wb = kd[c.k].w(b * c.h, c.h), w0 = kd[c.k].w(0., c.h);
  // the super-Gaussian turns at r = h/3 sqrt(D/2+2)
  if(c.k == SUPER && 9 * b * b > D / 2. + 2) { g.label("past the turning point"); return; }
  PBT_CHECK(g, wb <= wa + 1e-13 * w0, "W grows with distance: %.17g at q=%.17g, %.17g at q=%.17g", wa, a, wb, b);
  g.nontrivial(a > 0 && a < 1 && b > a);
}
PROPERTY(kernel_integral, 1500, 40000) {
  Case c = gen_case(g);
  L I = integrate([&](L q) {
    double r = q >= 1 ? c.h * (1 - 1e-12) : (double)(q * c.h);
    return (L)kd[c.k].w(r, c.h) * vol(q); }) * p(c.h, D);
  L tol = c.k == SINC ? 2e-3L : 2e-6L;
  PBT_CHECK(g, fabsl(I - 1) <= tol, "integral over space is %.10Lg", I);
  g.nontrivial();
}
PROPERTY(kernel_grad, 60000, 3000000) {
  Case c = gen_case(g);
  L dir[3];
  point_t u = direction(g, dir);
  double q = gen_q(g);
  point_t v = u * (q * c.h), mv = u * (-q * c.h);
  point_t G = kd[c.k].g(v, c.h), M = kd[c.k].g(mv, c.h);
  L rr = 0;
  for(int i = 0; i < D; ++i) rr += (L)v[i] * v[i];
  rr = sqrtl(rr);
  L qq = rr / c.h;
  g.note(" q=%.17Lg dir=%.6Lg,%.6Lg,%.6Lg", qq, dir[0], D > 1 ? dir[1] : 0, D > 2 ? dir[2] : 0);
  bool cut = fabsl(qq - 1) < 1e-14L;
  L w0 = kd[c.k].w(0.0, c.h), s0 = shape(c.k, 0, c.n);
  L scale = w0 / c.h; // natural size of the gradient
  L ref = dshape(c.k, qq, c.n) * scale / s0;
  for(int i = 0; i < D; ++i) {
    PBT_CHECK(g, std::isfinite(G[i]), "gradient is %g", G[i]);
    PBT_CHECK(g, G[i] == -M[i], "gradient is not antisymmetric: %.17g and %.17g", G[i], M[i]);
    if(rr == 0) { PBT_CHECK(g, G[i] == 0, "gradient %g at zero separation", G[i]); continue; }
    if(qq > 1 + 1e-14L) { PBT_CHECK(g, G[i] == 0, "gradient %g beyond the support", G[i]); continue; }
    L e = ref * (L)v[i] / rr;
    L tol = cut ? 0.01L * scale : 1e-12L * scale + (c.k == SINC ? 1e-15L * c.n / qq * scale : 0); // cancellation in sin(x)/x - cos(x)
    PBT_CHECK(g, fabsl(G[i] - e) <= tol, "gradient component %d is %.15g, derivative is %.15Lg", i, G[i], e);
    if(c.k != SUPER || 9 * qq * qq < D / 2. + 2)
      PBT_CHECK(g, G[i] * v[i] <= 1e-12L * scale * fabsl(v[i]), "gradient does not point to the other particle");
  }
  // centred difference of the kernel itself
  if(qq > 1e-3L && qq < 0.999L) {
    double e = 1e-5 * c.h, r = (double)rr;
    double d = (kd[c.k].w(r + e, c.h) - kd[c.k].w(r - e, c.h)) / (2 * e);
    L gr = 0;
    for(int i = 0; i < D; ++i) gr += (L)G[i] * v[i] / rr;
    PBT_CHECK(g, fabsl(gr - d) <= 3e-4L * scale, "radial gradient %.10Lg, difference quotient of the kernel %.10g", gr, d);
  }
  g.nontrivial(qq > 0 && qq < 1);
}

// ---- C14 -------------------------------------------------------------------
static std::string respell(Gen & g, const char * n) {
  std::string s = n, o;
  int st = g.u(4); // as is, upper, title, random case
  bool sp = g.flip();
  for(size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if(ch == '_' && sp) ch = ' ';
    bool up = st == 1 || (st == 2 && (i == 0 || s[i - 1] == '_')) || (st == 3 && g.flip());
    o += up ? (char)toupper(ch) : ch;
  }
  switch(g.u(4)) { case 1: return "\"" + o + "\""; case 2: return "'" + o + "'"; case 3: return o + "   # a comment"; }
  return o;
}
PROPERTY(select_by_name, 4000, 200000) {
  int steps = g.size(1, 6);
  for(int s = 0; s < steps; ++s) {
    int k = g.u(NK);
    double n = g.real(3, 12), h = g.lreal(1e-3, 1e3);
    std::string v = respell(g, kd[k].name);
    char b[64];
    snprintf(b, 64, "%.17g", n);
    bool first = g.flip();
    g.note("%s; ", v.c_str());
    g.label(kd[k].name);
    if(first) param::set_param("sph_sinc_index", b);
    param::set_param("sph_kernel", v);
    if(!first) param::set_param("sph_sinc_index", b);
    kernels::select();
    PBT_CHECK(g, kernels::kernel_width == kd[k].width, "%s: support width %g, expected %g", kd[k].name, kernels::kernel_width, kd[k].width);
    PBT_CHECK(g, kernels::sph_kernel_function && kernels::sph_kernel_gradient, "nothing selected");
    L N = norm_of(k, n);
    for(int t = 0; t < 6; ++t) {
      L dir[3];
      point_t u = direction(g, dir);
      double q = t == 0 ? 0.4 : g.unit() * 1.2;
      point_t x = u * (q * h);
      double w = kernels::sph_kernel_function(q * h, h), w0 = kernels::sph_kernel_function(0., h);
      L s0 = shape(k, 0, n), ref = shape(k, q, n) * N / p(h, D);
      if(fabs(q - 1) < 1e-12) continue;
      PBT_CHECK(g, fabsl(w - ref) <= (norm_tol(k) + 1e-12L) * (s0 * N / p(h, D)), "%s: selected function gives %.12g at q=%.12g, the named kernel %.12Lg", kd[k].name, w, q, ref);
      point_t G = kernels::sph_kernel_gradient(x, h);
      L e = dshape(k, q, n) / s0 * w0 / h;
      L gr = 0;
      for(int i = 0; i < D; ++i) gr += (L)G[i] * dir[i];
      PBT_CHECK(g, fabsl(gr - e) <= 1e-9L * w0 / h, "%s: selected gradient is %.12Lg at q=%.12g, the named kernel's %.12Lg", kd[k].name, gr, q, e);
    }
  }
  g.nontrivial(steps > 1);
}
static bool is_name(std::string s) {
  for(char & ch : s) ch = ch == ' ' ? '_' : (char)tolower(ch);
  for(auto & k : kd) if(s == k.name) return true;
  return false;
}
PROPERTY(select_unknown, 400, 12000) {
  std::string s = kd[g.u(NK)].name;
  int m = g.size(1, 3);
  for(int i = 0; i < m; ++i) {
    size_t at = g.u(s.size() + 1);
    char ch = "abcdefghijklmnopqrstuvwxyz0123456789_-. "[g.u(40)];
    switch(g.u(3)) {
      case 0: s.insert(at, 1, ch); break;
      case 1: if(!s.empty()) s.erase(at % s.size(), 1); break;
      case 2: if(!s.empty()) s[at % s.size()] = ch; break;
    }
  }
  while(!s.empty() && s[0] == ' ') s.erase(0, 1);
  while(!s.empty() && s.back() == ' ') s.pop_back();
  if(s.empty() || is_name(s)) g.discard();
  g.note("sph_kernel = %s", s.c_str());
  fflush(stdout);
  int pid = fork();
  if(pid == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    param::set_param("sph_kernel", s);
    _exit(0); // accepted
  }
  int st = 0;
  waitpid(pid, &st, 0);
  PBT_CHECK(g, WIFEXITED(st) ? WEXITSTATUS(st) != 0 : WTERMSIG(st) == SIGABRT, "unknown kernel name %s: \"%s\"", WIFEXITED(st) ? "accepted" : "crashes", s.c_str());
  g.nontrivial();
}
