// C36: relaxation of particles in a sphere (the wvt program): the pseudo-force, the
// displacement, the smoothing lengths and convergence over all ranks, and whole
// runs of the driver against a reference over all pairs.
#include <malloc.h>
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <cassert>
#include <functional>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <mpi.h>
#include "mockmpi.h"
#include <hdf5.h>
#include "../app/drivers/wvt/main_driver.cc"
#include "pbt.h"
#include "cloud.h"
#include "h5init.h"
using pbt::Gen;
typedef long double L;
static const int D = gdimension;
#include "runs.h"
static const char * KN[] = {"cubic spline", "quintic spline", "wendland c2", "wendland c4", "wendland c6", "gaussian", "super gaussian", "sinc ker"};

struct Vec { L c[3] = {0, 0, 0}; };
static Vec vec(const point_t & p) { Vec v; for(int d = 0; d < D; ++d) v.c[d] = p[d]; return v; }
static L len(const Vec & v) { L s = 0; for(int d = 0; d < D; ++d) s += v.c[d] * v.c[d]; return sqrtl(s); }
static Vec sub(const Vec & a, const Vec & b) { Vec v; for(int d = 0; d < D; ++d) v.c[d] = a.c[d] - b.c[d]; return v; }
static Vec mul(const Vec & a, L f) { Vec v; for(int d = 0; d < D; ++d) v.c[d] = a.c[d] * f; return v; }
static std::string respell(Gen & g, std::string s) { for(char & c : s) if(g.chance(1, 4)) c = (char)toupper(c); return s; }

struct Setup { double R, S; bool arth, refl; int kernel; };
static Setup gen_setup(Gen & g) {
  Setup s;
  s.R = g.pick({1.0, 0.05, 30.0}); s.S = s.R * g.pick({1.0, 1.25});
  s.arth = g.flip(); s.refl = g.flip(); s.kernel = (int)g.u(8);
  param::set_param("sph_kernel", KN[s.kernel]); kernels::select();
  param::set_param("wvt_method", respell(g, s.arth ? "arth" : "diehl")); wvt::select();
  param::set_param("wvt_boundary", respell(g, s.refl ? "reflective" : "frozen"));
  param::_wvt_radius = s.R; param::_sphere_radius = s.S;
  const char * pr = g.pick({"constant", "parabolic", "mesa"});
  param::set_param("density_profile", pr); param::_mesa_rim_width = g.pick({0.2, 0.5, 0.05}); density_profiles::select();
  param::_rho_initial = g.pick({1.0, 3e-3, 70.0}); param::_sph_eta = g.pick({1.5, 1.2, 1.6}); param::_wvt_ngb = g.pick({120.0, 20.0, 50.0, 7.5});
  g.note("%dD R=%g sphere=%g %s %s %s %s rho0=%g ngb=%g ", D, s.R, s.S, s.arth ? "arth" : "diehl", s.refl ? "reflective" : "frozen", KN[s.kernel], pr, (double)param::_rho_initial, (double)param::_wvt_ngb);
  g.label(s.arth ? "arth" : "diehl"); g.label(s.refl ? "reflective" : "frozen"); g.label(pr);
  return s;
}
static point_t gen_place(pbt::Rng & r, double lo, double hi) { // at a distance between lo and hi from the centre
  point_t x;
  double n = 0;
  do { n = 0; for(int d = 0; d < D; ++d) { x[d] = 2 * r.unit() - 1; n += x[d] * x[d]; } } while(n > 1 || n < 1e-4);
  double f = (lo + (hi - lo) * r.unit()) / std::sqrt(n);
  for(int d = 0; d < D; ++d) x[d] *= f;
  return x;
}
static std::vector<body> gen_ball(Gen & g, int n, double R, double edge, double h0, double hj) {
  std::vector<body> p;
  uint64_t s = g.u(1u << 30);
  pbt::Rng r(s + 1);
  for(int i = 0; i < n; ++i) {
    body b;
    fill_attrs(b, i, s % 1000);
    b.setType(NORMAL); b.set_state(0); b.set_id(i); b.set_owner(0); b.set_key(key_type(0));
    b.set_coordinates(gen_place(r, r.below(3) == 0 ? .7 * edge * R : 0, edge * R));
    b.set_mass(.1 + r.unit()); b.set_radius(h0 * (1 + hj * (2 * r.unit() - 1)));
    p.push_back(b);
  }
  return p;
}

// ------------------------------------------------------- the pseudo-force ---
PROPERTY(push, 60000, 3000000) {
  Setup s = gen_setup(g);
  double h0 = s.R * g.pick({0.3, 0.1, 0.6, 1.4});
  auto p = gen_ball(g, 1 + (int)g.u(12), s.R, g.pick({1.0, 1.15}), h0, g.pick({0.0, 0.3}));
  std::vector<body *> nb;
  bool self = g.chance(3, 4);
  for(size_t i = self ? 0 : 1; i < p.size(); ++i) nb.push_back(&p[i]);
  body & a = p[0];
  L ra = len(vec(a.coordinates())), ha = a.radius(), R = s.R;
  auto sure = [&](L x, L y) { if(fabsl(x - y) < 1e-9L * R) g.discard(); };
  sure(ra, R); sure(ra + ha, R); sure(ra, 0);
  bool inside = ra < R, edge = inside && ra + ha > R;
  Vec acc; L size = 0;
  auto add = [&](const Vec & from, L hab, L scale, L power) { // scale: the length in front, power: the one of the kernel's dimension
    Vec d = sub(vec(a.coordinates()), from);
    L r = len(d), w;
    if(r == 0) return;
    sure(r, hab);
    if(s.arth) w = kernels::sph_kernel_function((double)r, (double)hab) * powl(power, D);
    else { L x = hab / (r + .3L * hab), y = hab / (1.3L * hab); w = std::max<L>(x * x - y * y, 0); }
    for(int k = 0; k < D; ++k) acc.c[k] += scale * w * d.c[k] / r;
    size += scale * fabsl(w);
  };
  int mirrored = 0;
  if(inside) {
    for(auto * b : nb) {
      L hb = b->radius(), hab = .5L * (ha + hb);
      Vec x = vec(b->coordinates());
      add(x, hab, s.arth ? hab : ha, hab);
      L rb = len(x);
      sure(rb, R); sure(rb, 0);
      L rab = len(sub(vec(a.coordinates()), x));
      if(!s.arth) sure(rab, hab);
      if(s.refl && edge && rb < R && rab < hab) { ++mirrored; add(mul(x, (2 * R - rb) / rb), s.arth ? hab : ha, ha, ha); }
    }
    if(s.refl && edge) { ++mirrored; add(mul(vec(a.coordinates()), (2 * R - ra) / ra), ha, ha, ha); }
    if(!s.refl && edge) {
      Vec n = mul(vec(a.coordinates()), 1 / ra);
      L q = 0;
      for(int d = 0; d < D; ++d) q += n.c[d] * acc.c[d];
      for(int d = 0; d < D; ++d) acc.c[d] = 2 * (acc.c[d] - q * n.c[d]);
    }
  }
  auto before = attrs(a);
  point_t old = a.getAcceleration();
  wvt::wvt_acceleration(a, nb);
  for(int d = 0; d < D; ++d) PBT_CHECK(g, fabsl(a.getAcceleration()[d] - acc.c[d]) <= 1e-10L * size + 1e-300L, "pseudo-force component %d of a particle at %.12Lg of %.12Lg (h %.6Lg, %zu neighbours): %.15g, should be %.15Lg", d, ra, R, ha, nb.size(), a.getAcceleration()[d], acc.c[d]);
  PBT_CHECK(g, a.getNeighbors() == nb.size(), "%zu neighbours counted, %zu given", (size_t)a.getNeighbors(), nb.size());
  a.setAcceleration(old); // nothing else changed
  auto after = attrs(a);
  after[after.size() - 2] = before[before.size() - 2];
  PBT_CHECK(g, before == after, "the pseudo-force changed other attributes");
  g.label(!inside ? "outside" : edge ? "sees the edge" : "interior");
  g.nontrivial(inside && nb.size() > 1 && size > 0);
}
PROPERTY(pushed_density, 20000, 600000) {
  Setup s = gen_setup(g);
  auto p = gen_ball(g, 1 + (int)g.u(12), s.R, 1, s.R * g.pick({0.3, 0.1, 0.6}), g.pick({0.0, 0.3}));
  std::vector<body *> nb;
  for(auto & b : p) nb.push_back(&b);
  L want = 0, size = 0;
  for(auto & b : p) {
    L r = len(sub(vec(p[0].coordinates()), vec(b.coordinates()))), h = .5L * ((L)p[0].radius() + b.radius());
    if(fabsl(r - h) < 1e-9L * h) g.discard();
    L t = b.mass() * (L)kernels::sph_kernel_function((double)r, (double)h);
    want += t; size += fabsl(t);
  }
  wvt::compute_density(p[0], nb);
  PBT_CHECK(g, fabsl(p[0].getDensity() - want) <= 1e-10L * size, "density of %zu particles is %.15g, should be %.15Lg", p.size(), p[0].getDensity(), want);
  g.nontrivial(p.size() > 1);
}
static bool is_method(std::string s) { for(char & c : s) c = (char)tolower(c); return s == "arth" || s == "diehl"; }
PROPERTY(method_unknown, 200, 5000) {
  std::string s = g.pick({"arth", "diehl"});
  for(int i = 0, m = g.size(1, 3); i < m; ++i) {
    size_t at = g.u(s.size() + 1);
    char ch = "abcdefghijklmnopqrstuvwxyz0123456789_-. "[g.u(40)];
    switch(g.u(3)) {
      case 0: s.insert(at, 1, ch); break;
      case 1: if(!s.empty()) s.erase(at % s.size(), 1); break;
      default: if(!s.empty()) s[at % s.size()] = ch; break;
    }
  }
  if(is_method(s)) g.discard();
  g.note("wvt_method = '%s'", s.c_str());
  fflush(nullptr);
  int pid = fork();
  if(pid == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    param::set_param("wvt_method", s);
    try { wvt::select(); } catch(...) { _exit(7); }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  PBT_CHECK(g, WIFEXITED(st) && WEXITSTATUS(st) != 0, "unknown method '%s' accepted", s.c_str());
  g.nontrivial();
}

// ------------------------------------------------------- the displacement ---
static void on_profile(Gen & g, const Setup & s, const body & b, bool ngb, const char * what) { // density and smoothing length of a place
  double r = (double)len(vec(b.coordinates()));
  double rho = param::_rho_initial / density_profiles::spherical_density_profile(0) * density_profiles::spherical_density_profile(r / s.S);
  PBT_CHECK(g, std::fabs(b.getDensity() - rho) <= 1e-9 * param::_rho_initial, "%s at radius %.12g of %g: density %.15g, the profile's is %.15g", what, r, s.S, b.getDensity(), rho);
  if(std::fabs(r / s.S - .9999) < 1e-8) return;
  L m = b.mass(), h;
  if(rho == 0) h = s.S;
  else if(!ngb) h = param::_sph_eta * (L)kernels::kernel_width * powl(m / rho, 1.L / D);
  else h = D == 2 ? sqrtl(param::_wvt_ngb * m / (M_PIl * rho)) : cbrtl(param::_wvt_ngb * m / (4 * M_PIl / 3 * rho));
  // where the profile drops to zero, its value is only as good as its cancellation
  PBT_CHECK(g, fabsl(b.radius() - h) <= 1e-9L * h * (1 + 1e-6L * param::_rho_initial / rho) || rho == 0 && b.radius() == s.S, "%s at radius %.12g of %g: smoothing length %.15g, should be %.15Lg", what, r, s.S, b.radius(), h);
}
PROPERTY(move, 60000, 3000000) {
  Setup s = gen_setup(g);
  param::_wvt_mu = g.pick({1e-3, 1e-2, 0.1}); param::_wvt_cool_down = 1 + (int)g.u(12); param::_final_iteration = g.pick({20, 0, 3});
  param::_wvt_h_ngb = g.flip();
  physics::iteration = g.flip() ? g.i(1, 20) : param::_final_iteration + 1 + (int64_t)g.u(param::_wvt_cool_down);
  auto p = gen_ball(g, 1, s.R, 1, s.R * .3, 0);
  body & b = p[0];
  pbt::Rng r(g.u(1u << 30));
  double far = s.R / param::_wvt_mu * g.pick({0.01, 0.3, 1.0, 5.0, 300.0});
  point_t a = gen_place(r, 0, far);
  if(g.chance(1, 3)) a = b.coordinates() * (far / s.R); // straight out
  b.setAcceleration(a);
  L mu = param::_wvt_mu, R = s.R;
  int64_t it = physics::iteration - param::_final_iteration;
  if(it > 0) { mu = .1L * mu * (1 - (L)it / param::_wvt_cool_down); if(mu < 1e-12L * param::_wvt_mu) mu = 0; g.label("cool down"); }
  auto at = [&](L m) { Vec v; for(int d = 0; d < D; ++d) v.c[d] = b.coordinates()[d] + m * b.getAcceleration()[d]; return v; };
  Vec x = at(mu);
  int halved = 0;
  while(len(x) > 1.01L * R) {
    if(fabsl(len(x) - 1.01L * R) < 1e-9L * R || mu < 1e-9L) g.discard();
    mu *= .5L; x = at(mu); ++halved;
  }
  L rr = len(x);
  if(fabsl(rr - 1.01L * R) < 1e-9L * R || fabsl(rr - R) < 1e-9L * R) g.discard();
  bool reflected = rr >= R;
  if(reflected) x = mul(x, (2 * R - rr) / rr);
  auto before = attrs(b);
  wvt::wvt_displacement(b);
  for(int d = 0; d < D; ++d) PBT_CHECK(g, fabsl(b.coordinates()[d] - x.c[d]) <= 1e-10L * R, "component %d of a moved particle (step halved %d times%s) is %.15g, should be %.15Lg", d, halved, reflected ? ", reflected" : "", b.coordinates()[d], x.c[d]);
  PBT_CHECK(g, len(vec(b.coordinates())) <= R, "the particle moved to radius %.15Lg, outside of the sphere of radius %.15Lg", len(vec(b.coordinates())), R);
  on_profile(g, s, b, param::_wvt_h_ngb, "a moved particle");
  auto c = b;
  c.set_coordinates(point_t()); c.set_radius(0); c.setDensity(0);
  auto after = attrs(c);
  body o = p[0];
  // the rest is as it was
  size_t moved = 0;
  auto now = attrs(b);
  for(size_t i = 0; i < now.size(); ++i) if(now[i] != before[i]) ++moved;
  PBT_CHECK(g, moved <= (size_t)D + 2 && b.mass() == p[0].mass() && now.back() == before.back(), "moving a particle changed %zu values", moved);
  (void)after; (void)o;
  for(size_t i = D; i < 5 * (size_t)D + 1; ++i) PBT_CHECK(g, now[i] == before[i], "moving a particle changed its velocity, acceleration or mass");
  if(halved) g.label("step halved");
  if(reflected) g.label("reflected");
  g.nontrivial(mu > 0);
}
PROPERTY(on_target, 20000, 600000) { // the density the file gets in the end
  Setup s = gen_setup(g);
  auto p = gen_ball(g, 1, s.R, 1, s.R * .3, 0);
  body & b = p[0];
  if(g.chance(1, 4)) { double f = s.S * g.pick({1.0, 0.99995, 0.9998}) * (1 - 1e-7) / (double)len(vec(b.coordinates())); b.set_coordinates(b.coordinates() * f); }
  point_t x = b.coordinates();
  double m = b.mass();
  wvt::wvt_set_density(b);
  for(int d = 0; d < D; ++d) PBT_CHECK(g, b.coordinates()[d] == x[d], "resetting the density moved the particle");
  PBT_CHECK(g, b.mass() == m, "resetting the density changed the mass");
  PBT_CHECK(g, std::isfinite(b.radius()) && b.radius() > 0, "the smoothing length of a particle at radius %.12Lg of %g became %g", len(vec(x)), s.S, b.radius());
  on_profile(g, s, b, false, "a particle in the end");
  g.nontrivial();
}

// ------------------------------------------- over the particles of all ranks
PROPERTY(over_ranks, 6000, 200000) {
  Setup s = gen_setup(g);
  int n = g.pick({1, 2, 3, 5, 8});
  auto p = gen_ball(g, 1 + (int)g.u(40), s.R, 1, s.R * g.pick({0.3, 0.01, 2.0}), g.pick({0.0, 0.8}));
  param::_wvt_mu = g.pick({1e-3, 1e-1}); param::_wvt_convergence_point = g.pick({1.0, 10.0, 50.0, 100.0, 0.0});
  pbt::Rng r(g.u(1u << 30));
  double reach = g.pick({0.001, 0.0003, 0.01, 1.0});
  for(auto & b : p) b.setAcceleration(gen_place(r, 0, 2 * reach * std::pow(1 / param::_wvt_ngb, 1. / D) * b.radius() / param::_wvt_mu));
  auto parts = deal(g, p, n);
  auto sch = mock::gen_sched(g);
  // convergence: the share of particles that still move by more than a thousandth of their spacing
  int moving = 0;
  for(auto & b : p) {
    L d = param::_wvt_mu * len(vec(b.getAcceleration())), e = 1e-3L * powl(1 / (L)param::_wvt_ngb, 1.L / D) * b.radius();
    if(fabsl(d - e) < 1e-9L * e) g.discard();
    if(d > e) ++moving;
  }
  L share = 100.L * moving / p.size();
  bool want = share < param::_wvt_convergence_point, was = g.chance(1, 8);
  if(fabsl(share - param::_wvt_convergence_point) < 1e-9L && share != 0) want = false; // exactly at the limit: not below
  L vol = 0;
  for(auto & b : p) vol += D == 2 ? (L)b.radius() * b.radius() : (L)b.radius() * b.radius() * b.radius();
  L f = powl(param::_wvt_ngb * powl(s.R, D) / vol, 1.L / D);
  std::vector<int> conv(n, -1);
  auto scaled = parts, judged = parts;
  mock::fresh();
  mock::own(wvt_basic::wvt_converged);
  mock::run(n, sch.policy, sch.seed, [&](int k) {
    wvt_basic::wvt_converged = was;
    wvt::check_convergence_wvt(judged[k]);
    conv[k] = wvt_basic::wvt_converged;
    wvt::compute_smoothinglength_wvt(scaled[k]);
  });
  for(int k = 0; k < n; ++k) {
    PBT_CHECK(g, conv[k] == (int)(want || was), "rank %d of %d: %s with %.10Lg%% of %zu particles moving, limit %g%%%s", k, n, conv[k] ? "converged" : "not converged", share, p.size(), (double)param::_wvt_convergence_point, was ? " (converged before)" : "");
    PBT_CHECK(g, scaled[k].size() == parts[k].size(), "particles lost");
    for(size_t i = 0; i < parts[k].size(); ++i) {
      PBT_CHECK(g, attrs(judged[k][i]) == attrs(parts[k][i]), "the convergence check changed a particle");
      PBT_CHECK(g, fabsl(scaled[k][i].radius() - f * parts[k][i].radius()) <= 1e-11L * f * parts[k][i].radius(), "smoothing length %.15g became %.15g on rank %d of %d, should be %.15Lg", parts[k][i].radius(), scaled[k][i].radius(), k, n, f * parts[k][i].radius());
      scaled[k][i].set_radius(parts[k][i].radius());
      PBT_CHECK(g, attrs(scaled[k][i]) == attrs(parts[k][i]), "the smoothing lengths changed something else");
    }
  }
  g.label(want ? "converged" : "not converged");
  g.nontrivial(n > 1 && p.size() > 2);
}

// ------------------------------------------------------------- whole runs ---
struct Job {
  std::map<std::string, std::string> par;
  std::vector<body> p;
  int final = 0, cool = 0, every = 1;
  bool varh = false, conv = false, separate = false;
  void set(const char * k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); par[k] = b; }
  void set(const char * k, bool v) { par[k] = v ? "yes" : "no"; }
  void set(const char * k, int v) { par[k] = std::to_string(v); }
  void set(const char * k, const char * v) { par[k] = std::string("\"") + v + "\""; }
};
static Job gen_job(Gen & g) {
  Job j;
  int k = (int)g.u(5);
  double R = g.pick({1.0, 0.3, 20.0}), S = R * g.pick({1.0, 1.2});
  const char * me = g.pick({"diehl", "arth"}), * bo = g.pick({"reflective", "frozen"}), * pr = g.pick({"constant", "parabolic", "mesa"});
  j.set("sph_kernel", KN[k]); j.set("wvt_method", me); j.set("wvt_boundary", bo); j.set("density_profile", pr);
  double eta = g.pick({1.5, 1.2});
  j.set("sphere_radius", S); j.set("wvt_radius", R); j.set("domain_type", 1); j.set("rho_initial", g.pick({1.0, 0.02})); j.set("sph_eta", eta);
  double ngb = g.pick({20.0, 8.0, 40.0}), mu = g.pick({1e-3, 1e-2, 5e-2});
  j.set("wvt_ngb", ngb); j.set("wvt_mu", mu); j.set("wvt_h_ngb", g.flip()); j.set("sph_variable_h", j.varh = g.flip());
  j.conv = g.flip();
  double limit = g.pick({1.0, 60.0, 95.0});
  j.set("wvt_convergence_check", j.conv); j.set("wvt_convergence_point", limit);
  j.final = (int)g.u(6); j.cool = (int)g.u(4);
  j.par["final_iteration"] = std::to_string(j.final); j.set("wvt_cool_down", j.cool);
  j.every = g.pick({1, 2, 3});
  j.separate = g.flip();
  j.set("out_h5data_every", j.every); j.set("out_h5data_separate_iterations", j.separate); j.set("out_scalar_every", 1); j.set("out_diagnostic_every", 1); j.set("out_screen_every", 0);
  j.set("initial_data_prefix", "start"); j.set("output_h5data_prefix", "out"); j.set("eos_type", g.pick({"ideal fluid", "no eos"})); j.set("poly_gamma", 1.4); j.set("initial_dt", 0.001);
  int side = D == 2 ? (int)g.i(3, 12) : (int)g.i(3, 6);
  double dx = 2 * R / side, jit = g.pick({0.3, 0.1}), hf = g.pick({1.5, 2.5, 1.1}), hj = g.pick({0.0, 0.2, 0.6});
  pbt::Rng r(g.u(1u << 30));
  int n = 1;
  for(int d = 0; d < D; ++d) n *= side;
  for(int i = 0; i < n; ++i) {
    point_t x;
    int q = i;
    for(int d = 0; d < D; ++d) { x[d] = dx * ((q % side) + .5 - side * .5 + jit * (2 * r.unit() - 1)); q /= side; }
    if(len(vec(x)) > .97 * R) continue;
    body b = body();
    b.set_coordinates(x); b.set_mass(std::pow(dx, D) * (.8 + .4 * r.unit())); b.setDensity(1); b.set_radius(hf * dx * (1 + hj * (2 * r.unit() - 1)));
    b.setPressure(1); b.setInternalenergy(1); b.setVelocity(point_t()); b.set_id(1 + (int64_t)j.p.size()); b.setType(NORMAL); b.set_state(0); b.setDt(0);
    j.p.push_back(b);
  }
  for(size_t i = j.p.size(); i > 1; --i) std::swap(j.p[i - 1], j.p[r.below(i)]);
  if(j.p.size() < 4) g.discard();
  g.note("%dD n=%zu R=%g sphere=%g %s %s %s %s ngb=%g mu=%g%s%s%s limit=%g iterations=%d+%d every %d hf=%g jit=%g ", D, j.p.size(), R, S, me, bo, pr, KN[k], ngb, mu, j.par["wvt_h_ngb"] == "yes" ? " h-ngb" : "", j.varh ? " variable-h" : "", j.conv ? " check" : "", limit, j.final, j.cool, j.every, hf, jit);
  g.label(me); g.label(bo); g.label(pr);
  return j;
}
struct Shot { int64_t it; std::vector<body> p; };
struct Relax { // the program on one list of particles with all pairs
  const Job & j;
  std::vector<body> p;
  bool unsure = false, converged = false;
  Relax(const Job & j_, const std::vector<body> & q) : j(j_), p(q) {}
  template<class F> void sweep(F f) {
    auto old = p;
    std::vector<body *> nb;
    for(size_t i = 0; i < p.size(); ++i) {
      nb.clear();
      for(size_t k = 0; k < p.size(); ++k) {
        double h = std::max(old[i].radius(), old[k].radius()), r2 = dist2(old[i].coordinates(), old[k].coordinates());
        if(std::fabs(r2 - h * h) <= 1e-9 * h * h) unsure = true;
        if(r2 <= h * h) nb.push_back(i == k ? &p[i] : &old[k]);
      }
      f(p[i], nb);
    }
  }
  void near_limits() { // decisions another order of the sums could turn round
    double R = param::wvt_radius, mu = param::wvt_mu;
    for(auto & b : p) {
      double r = (double)len(vec(b.coordinates()));
      for(double e : {r - R, r + b.radius() - R, r / param::sphere_radius - .9999}) if(std::fabs(e) < 1e-7 * R) unsure = true;
      double m = mu;
      if(physics::iteration > param::final_iteration) m *= .1 * (1 - (double)(physics::iteration - param::final_iteration) / param::wvt_cool_down);
      for(int t = 0; t < 40; ++t, m *= .5) { double q = (double)len(vec(b.coordinates() + m * b.getAcceleration())); if(std::fabs(q - R) < 1e-6 * R || std::fabs(q - 1.01 * R) < 1e-6 * R) unsure = true; if(q < R) break; }
    }
  }
  void forces() { sweep([](body & a, std::vector<body *> & n) { wvt::compute_density(a, n); }); sweep([](body & a, std::vector<body *> & n) { wvt::wvt_acceleration(a, n); }); }
  std::vector<Shot> run(int64_t start) {
    std::vector<Shot> out;
    int64_t last = param::final_iteration + param::wvt_cool_down;
    for(physics::iteration = start;; ++physics::iteration) {
      if(physics::iteration == start) { for(auto & b : p) eos::init(b); forces(); }
      else {
        near_limits();
        for(auto & b : p) wvt::wvt_displacement(b);
        if(j.varh) wvt::compute_smoothinglength_wvt(p);
        forces();
        if(j.conv && physics::iteration <= param::final_iteration) {
          L share = 0;
          for(auto & b : p) {
            L d = param::wvt_mu * len(vec(b.getAcceleration())), e = 1e-3L * powl(1 / (L)param::wvt_ngb, 1.L / D) * b.radius();
            if(fabsl(d - e) < 1e-6L * e) unsure = true;
            if(d > e) share += 100.L / p.size();
          }
          if(fabsl(share - param::wvt_convergence_point) < 1e-9L) unsure = true;
          converged = share < param::wvt_convergence_point;
        }
      }
      bool end = converged || physics::iteration == last;
      if(end) for(auto & b : p) wvt::wvt_set_density(b);
      if(end || physics::iteration % j.every == 0) out.push_back({physics::iteration, p});
      if(end || physics::iteration >= last) return out;
    }
  }
};
static void reference(Gen & g, std::function<void()> f) { own_all(); mock::fresh(); mock::run(1, mock::gen_sched(g).policy, 1, [&](int) { f(); }); }
//! how far a run that starts 1e-12 away has come by each snapshot, relative to the fields: what other rounding may do
static std::vector<double> spread(const std::vector<Shot> & a, const std::vector<Shot> & b) {
  std::vector<double> s;
  double worst = 0;
  for(size_t t = 0; t < a.size() && t < b.size(); ++t) {
    double m[4] = {}, d[4] = {};
    for(size_t i = 0; i < a[t].p.size(); ++i) {
      auto & x = a[t].p[i]; auto & y = b[t].p[i];
      auto up = [&](int k, double v, double e) { m[k] = std::max(m[k], v); d[k] = std::max(d[k], e); };
      up(0, std::sqrt(norm2(x.coordinates())), std::sqrt(norm2(x.coordinates() - y.coordinates()))); up(1, std::sqrt(norm2(x.getAcceleration())), std::sqrt(norm2(x.getAcceleration() - y.getAcceleration())));
      up(2, x.getDensity(), std::fabs(x.getDensity() - y.getDensity())); up(3, x.radius(), std::fabs(x.radius() - y.radius()));
    }
    for(int k = 0; k < 4; ++k) if(m[k] > 0) worst = std::max(worst, d[k] / m[k]);
    s.push_back(worst);
  }
  s.resize(a.size(), 1);
  return s;
}
static std::vector<body> aside(std::vector<body> p) {
  pbt::Rng r(7);
  for(auto & b : p) { point_t x = b.coordinates(); for(int d = 0; d < D; ++d) x[d] += 1e-12 * param::wvt_radius * (2 * r.unit() - 1); b.set_coordinates(x); }
  return p;
}
static void same_run(Gen & g, const Job & j, const std::vector<Shot> & ref, const std::vector<double> & off, const Rec & r, size_t from, size_t at) {
  PBT_CHECK(g, r.snap.size() - from == ref.size() - at, "%zu snapshots, should be %zu", r.snap.size() - from, ref.size() - at);
  for(size_t t = at; t < ref.size(); ++t) {
    auto & h = r.snap[from + t - at];
    PBT_CHECK(g, h.iteration == ref[t].it, "a snapshot of iteration %lld, should be %lld", h.iteration, (long long)ref[t].it);
    auto ids = by_id(g, h);
    PBT_CHECK(g, ids.size() == ref[t].p.size(), "iteration %lld has %zu of %zu particles", h.iteration, ids.size(), ref[t].p.size());
    double tol = 1e-9 + 30 * off[t];
    if(tol > 1e-4) return; // chaotic by now
    double sx = 0, sa = 0, sr = 0, sh = 0;
    for(auto & b : ref[t].p) { sx = std::max(sx, std::sqrt(norm2(b.coordinates()))); sa = std::max(sa, std::sqrt(norm2(b.getAcceleration()))); sr = std::max(sr, b.getDensity()); sh = std::max(sh, b.radius()); }
    static const char * X[] = {"x", "y", "z"}, * A[] = {"ax", "ay", "az"};
    for(auto & b : ref[t].p) {
      PBT_CHECK(g, ids.count(b.id()), "iteration %lld: particle %ld is missing", h.iteration, (long)b.id());
      size_t i = ids[b.id()];
      auto near = [&](const char * n, double want, double scale) {
        PBT_CHECK(g, h.f.count(n), "data set %s is missing", n);
        double got = h.f.at(n)[i];
        PBT_CHECK(g, std::fabs(got - want) <= tol * scale || got == want, "iteration %lld, particle %ld: %s is %.15g, should be %.15g", h.iteration, (long)b.id(), n, got, want);
      };
      for(int d = 0; d < D; ++d) { near(X[d], b.coordinates()[d], sx); if(h.f.count("ax")) near(A[d], b.getAcceleration()[d], sa); }
      near("m", b.mass(), b.mass() * 1e-6); near("rho", b.getDensity(), sr); near("h", b.radius(), sh);
      L rad = 0;
      for(int d = 0; d < D; ++d) rad += (L)h.f.at(X[d])[i] * h.f.at(X[d])[i];
      PBT_CHECK(g, sqrtl(rad) <= param::wvt_radius * (1 + 1e-12L), "iteration %lld, particle %ld is at radius %.15Lg, outside of %.15g", h.iteration, (long)b.id(), sqrtl(rad), (double)param::wvt_radius);
    }
  }
}
static std::vector<body> bodies_of(const H5Step & h, const std::vector<body> & first) {
  std::map<long long, const body *> m;
  for(auto & b : first) m[b.id()] = &b;
  std::vector<body> p;
  for(size_t i = 0; i < h.id.size(); ++i) {
    body b = *m.at(h.id[i]);
    point_t x;
    static const char * XN[] = {"x", "y", "z"};
    for(int d = 0; d < D; ++d) x[d] = h.f.at(XN[d])[i];
    b.set_coordinates(x); b.set_radius(h.f.at("h")[i]); b.setDensity(h.f.at("rho")[i]);
    p.push_back(b);
  }
  return p;
}
PROPERTY_ISOLATED(relaxation, 900, 40000) {
  Job j = gen_job(g);
  Run ra = gen_run(g, j.p.size()), rb = gen_run(g, j.p.size());
  bool again = g.chance(1, 3); // and then on from one of its snapshots
  Scratch s;
  std::string d = s.sub("a");
  write_par(j.par, d + "/run.par");
  write_initial(d + "/start.h5part", j.p, {});
  std::string failed;
  run_program(g, d, ra.n, ra.s, &failed);
  std::vector<Shot> ref;
  std::vector<double> off, off2;
  bool unsure = false, conv = false;
  reference(g, [&] {
    param::read_params((d + "/run.par").c_str()); set_derived_params();
    Relax f(j, j.p);
    ref = f.run(0);
    Relax e(j, aside(j.p));
    off = spread(ref, e.run(0));
    unsure = f.unsure; conv = f.converged;
  });
  if(unsure) g.discard();
  PBT_CHECK(g, failed.empty(), "%s", failed.c_str());
  Rec r = records(d, j.separate);
  same_run(g, j, ref, off, r, 0, 0);
  if(conv) g.label("converged");
  g.nontrivial(ra.n > 1 && ref.back().it > 1);
  if(!again || r.snap.size() < 3) return;
  size_t k = 1 + g.u(r.snap.size() - 2);
  H5Step h = r.snap[k];
  g.label("continued");
  g.note("on from iteration %lld ", h.iteration);
  Job q = j;
  q.par["initial_iteration"] = std::to_string(h.iteration); q.set("initial_data_prefix", "out"); q.set("output_h5data_prefix", "more");
  write_par(q.par, d + "/run.par");
  run_program(g, d, rb.n, rb.s, &failed);
  std::vector<Shot> ref2;
  reference(g, [&] {
    param::read_params((d + "/run.par").c_str()); set_derived_params();
    Relax f(q, bodies_of(h, j.p));
    ref2 = f.run(h.iteration);
    Relax e(q, aside(bodies_of(h, j.p)));
    off2 = spread(ref2, e.run(h.iteration));
    unsure = f.unsure;
  });
  if(unsure) g.discard();
  PBT_CHECK(g, failed.empty(), "%s", failed.c_str());
  Rec t = records(d, j.separate, "more");
  same_run(g, q, ref2, off2, t, 0, 0);
  // an interruption leaves no trace
  PBT_CHECK(g, ref2.size() + k == ref.size() && ref2.back().it == ref.back().it, "the continued run ends at iteration %ld with %zu snapshots", (long)ref2.back().it, ref2.size());
  same_run(g, j, ref, off, t, 0, k);
}
