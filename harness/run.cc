// C31-C33: whole runs of the drivers.  A run of the real main loop on simulated
// ranks with real HDF5 files is compared with the same run on other ranks and
// schedules (C31), with a reference integrator over all pairs (C32), and with
// conservation laws and the run's own records (C33).
#include <malloc.h>
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <cassert>
#include <functional>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <mpi.h>
#include "mockmpi.h"
#include <hdf5.h>
#ifdef DRIVER_NEWTONIAN
#include "../app/drivers/newtonian/main_driver.cc"
#else
#include "../app/drivers/hydro/main_driver.cc"
#endif
#include "pbt.h"
#include "cloud.h"
#include "h5init.h"
using pbt::Gen;
typedef long double L;
static const int D = gdimension;
#include "runs.h"
// ------------------------------------------------------------ a problem ----
struct Conf {
  std::map<std::string, std::string> par;
  std::vector<body> p;
  bool periodic = false, cullen = false, adaptive = false, by_time = false, fmm = false, thermo = false, evolve = false, varh = false, unih = false, polytrope = false, separate = false;
  bool conservative = false; // no drag, no external force
  int passes = 1, relax = 0, steps = 0;
  double dx = 0, dt0 = 0, box[3] = {0, 0, 0};
  void set(const char * k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); par[k] = b; }
  void set(const char * k, bool v) { par[k] = v ? "yes" : "no"; }
  void set(const char * k, int v) { par[k] = std::to_string(v); }
  void set(const char * k, const char * v) { par[k] = std::string("\"") + v + "\""; }
};
static const char * KN[] = {"cubic spline", "quintic spline", "wendland c2", "wendland c4", "wendland c6", "gaussian", "super gaussian", "sinc ker"};

static Conf gen_conf(Gen & g, bool any, bool isolated = false) { // isolated: no drag, no walls, no external force
  Conf c;
  int k = any ? (int)g.u(8) : (int)g.u(5);
  c.set("sph_kernel", KN[k]);
  double eta = g.pick({1.2, 1.5, 1.0});
  c.set("sph_eta", eta);
#ifdef DRIVER_NEWTONIAN
  c.fmm = D == 3 && g.chance(2, 3);
  c.set("enable_fmm", c.fmm); c.set("fmm_macangle", 0.0); c.set("gravitational_constant", g.pick({1.0, 0.1, 0.0}));
#endif
  c.evolve = g.chance(3, 4); c.thermo = g.flip(); c.polytrope = g.chance(1, 3);
  c.set("evolve_internal_energy", c.evolve); c.set("thermokinetic_formulation", c.thermo);
  c.set("eos_type", c.polytrope ? "polytropic" : "ideal fluid");
  double gamma = g.pick({1.4, 5. / 3, 2.0});
  c.set("poly_gamma", gamma);
  c.passes = 1 + (int)g.u(2); c.set("pressure_updates_number", c.passes);
  c.adaptive = g.flip();
  int pd = 0;
  if(D < 3 && !isolated && g.chance(1, 4)) pd = 1 + (int)g.u(D == 2 ? 3 : 1);
  c.periodic = pd;
  c.cullen = !c.periodic && g.flip();
  c.set("sph_viscosity", c.cullen ? "cullen" : "constant");
  c.set("sph_viscosity_alpha", g.pick({1.0, 0.5, 0.0})); c.set("sph_viscosity_beta", g.pick({2.0, 1.0, 0.0})); c.set("sph_viscosity_epsilon", g.pick({0.01, 0.1}));
  c.set("sph_viscosity_alpha_max", g.pick({1.0, 2.0})); c.set("sph_viscosity_l", g.pick({0.05, 0.1})); c.set("sph_viscosity_delta", g.pick({0.05, 1.0}));
  c.relax = !isolated && g.chance(1, 4) ? 1 + (int)g.u(3) : 0;
  c.set("relaxation_steps", c.relax); c.set("relaxation_beta", g.pick({0.0, 0.5})); c.set("relaxation_gamma", g.pick({0.0, 0.2})); c.set("relaxation_repulsion_radius", g.pick({0.25, 0.7})); c.set("relaxation_repulsion_gamma", g.pick({0.0, 1e-3}));
  int hk = g.u(3);
  c.varh = hk == 1; c.unih = hk == 2 && !c.periodic;
  c.set("sph_variable_h", c.varh); c.set("sph_update_uniform_h", c.unih);
  bool grav = !c.periodic && !isolated && g.chance(1, 4);
  c.set("external_force_type", grav ? "gravity" : "none"); c.set("gravity_acceleration_constant", g.pick({1.0, -2.0}));
  c.conservative = !grav && !c.relax;
  // particles: a jittered lattice with gaps
  int side = D == 1 ? (int)g.i(2, 40) : D == 2 ? (int)g.i(2, 9) : (int)g.i(2, 4);
  double width = k == 0 ? 2 : 2; // support is chosen through hf below
  double hf = g.pick({1.0, 1.4, 0.7});
  bool big = !pd && g.chance(1, 10); // leaves of the tree hold up to 128 particles
  if(big) side = D == 1 ? (int)g.i(129, 220) : D == 2 ? (int)g.i(12, 15) : 6;
  if(D > 1 && pd) side = 14;
  if(D == 1 && pd) side = (int)g.i(16, 40);
  double dx = g.pick({0.05, 1.0, 0.1}); c.dx = dx;
  for(int d = 0; d < 3; ++d) c.box[d] = d < D ? dx * side : 1.0;
  bool px = pd & 1, py = pd & 2;
  c.set("periodic_boundary_x", px); c.set("periodic_boundary_y", py); c.set("periodic_boundary_z", false);
  c.set("box_length", c.box[0]); c.set("box_width", c.box[1]); c.set("box_height", c.box[2]);
  double cs = 1, vel = g.pick({0.3, 0.0, 0.8, 0.05}), jit = g.pick({0.2, 0.05}), hj = g.pick({0.0, 0.1, 0.3});
  if(c.periodic) { hf = g.pick({1.0, 1.3}); hj = 0; }
  bool holes = !c.periodic && g.chance(1, 3), shock = g.flip();
  int64_t id0 = c.periodic ? 0 : g.pick({(int64_t)1, (int64_t)0, (int64_t)1000});
  pbt::Rng r(g.u(1u << 30));
  int n = 1;
  for(int d = 0; d < D; ++d) n *= side;
  double off = c.periodic ? 0 : g.pick({0.0, 3.0, -7.0});
  for(int i = 0; i < n; ++i) {
    if(holes && r.below(4) == 0 && (int)c.p.size() + (n - i) > 3) continue;
    body b = body();
    point_t x, v;
    int q = i;
    for(int d = 0; d < D; ++d) { x[d] = off + dx * ((q % side) + .5 - side * .5 + jit * (2 * r.unit() - 1)); q /= side; }
    for(int d = 0; d < D; ++d) v[d] = vel * (2 * r.unit() - 1) - (shock ? vel * (x[d] > off ? 1 : -1) : 0);
    double rho = (shock && x[0] > off ? .5 : 1) * (.9 + .2 * r.unit()), u = cs * cs * (.7 + .6 * r.unit());
    b.set_coordinates(x); b.setVelocity(v);
    b.set_mass(rho * std::pow(dx, D)); b.setDensity(rho); b.setInternalenergy(u); b.setPressure((gamma - 1) * rho * u);
    b.set_radius(dx * eta * width * hf * (1 + hj * (2 * r.unit() - 1)));
    b.setDt(0); b.set_id(id0 + (int64_t)c.p.size()); b.setType(NORMAL); b.set_state(0);
    c.p.push_back(b);
  }
  c.dt0 = dx * g.pick({0.02, 0.004, 0.001});
  c.set("initial_dt", c.dt0); c.set("timestep_cfl_factor", g.pick({0.25, 0.1})); c.set("adaptive_timestep", c.adaptive);
  c.steps = 1 + (int)g.u(big ? 2 : 5);
  if(!big && n < 50 && g.chance(1, 12)) { c.steps = 10 + (int)g.u(15); g.label("many steps"); }
  if(big) g.label("more than 128 particles");
  c.set("initial_data_prefix", "start"); c.set("output_h5data_prefix", "out");
  c.separate = g.flip(); c.set("out_h5data_separate_iterations", c.separate);
  c.set("out_h5data_every", 1); c.set("out_scalar_every", 1); c.set("out_diagnostic_every", 1); c.set("out_screen_every", 0);
  c.by_time = c.adaptive && g.chance(1, 3);
  if(c.by_time) { c.set("out_h5data_dt", dx * g.pick({0.11, 0.03})); c.set("out_scalar_dt", dx * g.pick({0.07, 0.03})); }
  int64_t start = 0;
  c.par["initial_iteration"] = "0"; c.par["final_iteration"] = std::to_string(start + c.steps);
  // file order is not key order
  for(size_t i = c.p.size(); i > 1; --i) std::swap(c.p[i - 1], c.p[r.below(i)]);
  g.note("%dD n=%zu %s eta=%g gamma=%g%s%s%s passes=%d %s%s %s periodic=%d%s relax=%d dx=%g hf=%g hj=%g vel=%g jit=%g shock=%d id0=%ld steps=%d dt0=%g%s%s ", D, c.p.size(), KN[k], eta, gamma, c.polytrope ? " polytropic" : "", c.evolve ? " evolve" : "", c.thermo ? " thermokinetic" : "", c.passes, c.cullen ? "cullen" : "constant", c.adaptive ? " adaptive" : "", c.varh ? "variable-h" : c.unih ? "uniform-h" : "fixed-h", pd, grav ? " gravity" : "", c.relax, dx, hf, hj, vel, jit, shock, (long)id0, c.steps, c.dt0, c.by_time ? " by-time" : "", c.fmm ? " fmm" : "");
  g.label(c.cullen ? "cullen" : "constant viscosity"); g.label(c.adaptive ? "adaptive" : "fixed step"); if(c.periodic) g.label("periodic"); if(c.fmm) g.label("gravitation"); if(c.relax) g.label("relaxation"); if(c.by_time) g.label("output by time");
  g.label(!c.evolve ? "no energy" : c.thermo ? "de/dt" : "du/dt"); g.label(c.varh ? "variable h" : c.unih ? "uniform h" : "fixed h");
  return c;
}

// ---------------------------------------------------------------- C31 -------
PROPERTY_ISOLATED(processes, 900, 40000) { // another number of processes, another schedule, another file order
  Conf c = gen_conf(g, true);
  Run ra = gen_run(g, c.p.size()), rb = gen_run(g, c.p.size(), 2);
  Scratch s;
  std::string da = s.sub("a"), db = s.sub("b");
  g.nontrivial(rb.n != ra.n);
  auto q = c.p;
  if(g.flip()) std::reverse(q.begin(), q.end());
  write_par(c.par, da + "/run.par"); write_par(c.par, db + "/run.par");
  write_initial(da + "/start.h5part", c.p, {}); write_initial(db + "/start.h5part", q, {});
  bool oka = run_program(g, da, ra.n, ra.s), okb = run_program(g, db, rb.n, rb.s);
  PBT_CHECK(g, oka == okb, "the run gave up on one number of processes only (%d on %d, %d on %d)", oka, ra.n, okb, rb.n);
  if(!oka) g.discard();
  Rec a = records(da, c.separate), b = records(db, c.separate);
  if(!finite(a) && !finite(b)) g.discard(); // too long a time step for this state
  PBT_CHECK(g, a.snap.size() == b.snap.size(), "%zu snapshots on %d ranks, %zu on %d", a.snap.size(), ra.n, b.snap.size(), rb.n);
  PBT_CHECK(g, !a.snap.empty() && (c.by_time || a.snap.size() == (size_t)c.steps + 1), "%zu snapshots of iterations 0 to %d", a.snap.size(), c.steps);
  bool edge = false; // values at the edge of a discontinuous kernel are not judged
  int k = -1;
  for(int i = 0; i < 8; ++i) if(c.par["sph_kernel"] == std::string("\"") + KN[i] + "\"") k = i;
  double tol = k >= 5 ? 1e-7 : 1e-8;
  (void)edge;
  for(size_t t = 0; t < a.snap.size(); ++t) {
    auto & x = a.snap[t]; auto & y = b.snap[t];
    PBT_CHECK(g, x.iteration == y.iteration, "snapshot %zu is of iteration %lld and %lld", t, x.iteration, y.iteration);
    PBT_CHECK(g, std::fabs(x.time - y.time) <= tol * (std::fabs(x.time) + c.dt0), "iteration %lld is at time %.17g on %d ranks, at %.17g on %d", x.iteration, x.time, ra.n, y.time, rb.n);
    auto ia = by_id(g, x), ib = by_id(g, y);
    PBT_CHECK(g, ia.size() == c.p.size() && ib.size() == c.p.size(), "iteration %lld has %zu and %zu of %zu particles", x.iteration, ia.size(), ib.size(), c.p.size());
    for(auto & f : x.f) {
      double big = 0;
      std::string n = f.first;
      std::vector<std::string> grp = {n};
      if(n == "x" || n == "y" || n == "z") grp = {"x", "y", "z", "h"};
      if(n[0] == 'v') grp = {"vx", "vy", "vz"};
      if(n[0] == 'a') grp = {"ax", "ay", "az"};
      for(auto & q : grp) for(double v : x.f[q]) if(std::isfinite(v)) big = std::max(big, std::fabs(v));
      if(n[0] == 'v') big += 1e-3;
      if(n[0] == 'a') big += 1e-3 / c.dx;
      PBT_CHECK(g, y.f.count(n), "data set %s is missing", n.c_str());
      for(auto & i : ia) {
        PBT_CHECK(g, ib.count(i.first), "iteration %lld: particle %lld is missing on %d ranks", x.iteration, i.first, rb.n);
        double u = f.second[i.second], w = y.f[n][ib[i.first]];
        PBT_CHECK(g, std::fabs(u - w) <= tol * big || (u == w), "iteration %lld, particle %lld: %s is %.17g on %d ranks and %.17g on %d", x.iteration, i.first, n.c_str(), u, ra.n, w, rb.n);
      }
    }
  }
  same_tables(g, "scalar_reductions.dat", a.scal, b.scal, std::max(tol, 1e-8), {});
  same_tables(g, "diagnostic.dat", a.diag, b.diag, std::max(tol, 1e-5), {5, 6, 7, 8, 9, 13}); // neighbours and ghosts are per process
}

// ---------------------------------------------------------------- C32 -------
struct Unphysical {};
struct RefSnap { int64_t iter; double time, dt; std::vector<body> p; std::vector<double> scal; };
//! the equations of the drivers, on one list of particles with all pairs
struct Ref {
  const Conf & c;
  std::vector<body> p;
  bool unsure = false;
  Ref(const Conf & c_, const std::vector<body> & q) : c(c_), p(q) {}
  // f(a, neighbours) for all; everybody sees the values from before the sweep
  template<class F> void sweep(F f) {
    auto old = p;
    std::vector<body *> nb;
    for(size_t i = 0; i < p.size(); ++i) {
      nb.clear();
      for(size_t j = 0; j < p.size(); ++j) {
        double h = std::max(old[i].radius(), old[j].radius()), r2 = dist2(old[i].coordinates(), old[j].coordinates());
        if(std::fabs(r2 - h * h) <= 1e-12 * h * h) unsure = true;
        if(r2 <= h * h) nb.push_back(i == j ? &p[i] : &old[j]);
      }
      f(p[i], nb);
    }
  }
  template<class F> void all(F f) { for(auto & b : p) f(b); }
  void images() {
    if(!c.periodic) return;
    boundary::pboundary_clean(p);
    double h = 0;
    for(auto & b : p) h = std::max(h, b.radius());
    boundary::pboundary_generate(p, 2.5 * h);
  }
  void kick_v() { for(auto & b : p) b.setVelocity(b.getVelocity() + .5 * physics::dt * (b.getAcceleration() + b.getGAcceleration())); }
  void kick_energy() {
    if(!c.evolve) return;
    for(auto & b : p) if(c.thermo) b.setTotalenergy(b.getTotalenergy() + .5 * physics::dt * b.getDedt()); else b.setInternalenergy(b.getInternalenergy() + .5 * physics::dt * b.getDudt());
  }
  void gravity() {
    if(!c.fmm) return;
    double G = param::gravitational_constant;
    for(auto & a : p) {
      L f[3] = {0, 0, 0}, phi = 0;
      for(auto & b : p) if(b.id() != a.id()) {
        L d[3], r2 = 0;
        for(int k = 0; k < D; ++k) { d[k] = (L)b.coordinates()[k] - a.coordinates()[k]; r2 += d[k] * d[k]; }
        L r = sqrtl(r2);
        for(int k = 0; k < D; ++k) f[k] += G * b.mass() * d[k] / (r2 * r);
        phi -= G * b.mass() / r;
      }
      point_t x;
      for(int k = 0; k < D; ++k) x[k] = (double)f[k];
      a.setGAcceleration(x); a.setGPotential((double)phi);
    }
  }
  //! no energy left: a longer time step than the state allows
  void usable() {
    for(auto & b : p) {
      double u = c.thermo && c.evolve ? b.getTotalenergy() - .5 * norm2(b.getVelocity()) - external_force::potential(b.coordinates()) : b.getInternalenergy();
      if(!(u > 0) || !std::isfinite(norm2(b.coordinates()))) throw Unphysical();
    }
  }
  void density() { usable(); sweep([](body & a, std::vector<body *> & n) { physics::compute_density_pressure_soundspeed(a, n); }); }
  void alpha() { if(c.cullen) sweep([](body & a, std::vector<body *> & n) { viscosity::compute_alpha(a, n); }); }
  void acceleration() {
    sweep([](body & a, std::vector<body *> & n) { physics::compute_acceleration(a, n); });
    gravity();
    if(physics::iteration < c.relax) {
      all(physics::add_drag_acceleration);
      sweep([](body & a, std::vector<body *> & n) { physics::add_short_range_repulsion(a, n); });
    }
  }
  void energy_rates() {
    if(!c.evolve) return;
    for(int m = 0; m < c.passes; ++m) {
      if(c.thermo) {
        sweep([](body & a, std::vector<body *> & n) { physics::compute_dedt(a, n); });
        if(physics::iteration < c.relax) all(physics::add_drag_dedt);
        usable();
        all(physics::recompute_pressure_soundspeed_thermokinetic);
      } else {
        sweep([](body & a, std::vector<body *> & n) { physics::compute_dudt(a, n); });
        if(physics::iteration < c.relax) all(physics::add_drag_dudt);
        all(physics::recompute_pressure_soundspeed);
      }
    }
  }
  void timestep() { if(!c.adaptive) return; all(physics::compute_dt); physics::set_adaptive_timestep(p); }
  void first() {
    images();
    all(eos::init);
    if(c.thermo) all(physics::set_total_energy);
    if(c.cullen) for(auto & b : p) b.setAlpha(0);
    density();
    for(auto & b : p) b.setVelocityhalf(b.getVelocity());
    alpha();
    acceleration();
    if(c.fmm && c.thermo) all(physics::set_total_energy);
    timestep();
    energy_rates();
  }
  void step() {
    kick_energy(); kick_v();
    for(auto & b : p) { b.setVelocityhalf(b.getVelocity()); b.set_coordinates(b.coordinates() + physics::dt * b.getVelocity()); }
    images();
    density(); alpha(); acceleration();
    kick_v();
    energy_rates();
    kick_energy(); usable();
    if(c.evolve && c.thermo) all(physics::recover_internal_energy);
  }
  void lengths() {
    if(c.varh) physics::compute_smoothinglength(p);
    else if(c.unih) physics::compute_average_smoothinglength(p, (int64_t)p.size());
  }
  std::vector<double> reductions() {
    L m = 0, e = 0, ek = 0, ei = 0, eg = 0;
    for(auto & b : p) if(b.getType() == NORMAL) {
      L v2 = 0; for(int d = 0; d < D; ++d) v2 += (L)b.getVelocity()[d] * b.getVelocity()[d];
      m += b.mass(); ek += .5L * b.mass() * v2; ei += (L)b.mass() * b.getInternalenergy(); eg += .5L * b.mass() * b.getGPotential();
      e += b.mass() * (c.thermo ? (L)b.getTotalenergy() : .5L * v2 + b.getInternalenergy() + external_force::potential(b.coordinates()));
    }
    if(c.fmm) e += eg;
    return {(double)physics::iteration, physics::totaltime, physics::dt, (double)m, (double)e, (double)ek, (double)(c.fmm && !c.evolve ? eg : ei)};
  }
  //! from the given start to the end of the run
  std::vector<RefSnap> run(int64_t start, double time, double dt) {
    std::vector<RefSnap> out;
    physics::iteration = start; physics::totaltime = time; physics::dt = dt; physics::dt_saved = 0;
    auto next = [&](double every) { double t = every * (int64_t)(time / every); return t < time ? time : t; };
    if(param::out_screen_dt > 0) physics::t_screen_output = next(param::out_screen_dt);
    if(param::out_scalar_dt > 0) physics::t_scalar_output = next(param::out_scalar_dt);
    if(param::out_h5data_dt > 0) physics::t_h5data_output = next(param::out_h5data_dt);
    for(;;) {
      if(physics::iteration == start) first(); else step();
      lengths();
      RefSnap s{physics::iteration, physics::totaltime, physics::dt, p, {}};
      s.scal = reductions();
      out.push_back(s);
      timestep();
      ++physics::iteration;
      physics::totaltime = c.adaptive ? physics::totaltime_next : physics::totaltime + physics::dt;
      if(physics::iteration > param::final_iteration) return out;
    }
  }
};
static void near_field(Gen & g, const RefSnap & s, long long id, const char * n, double got, double want, double scale, double tol) {
  PBT_CHECK(g, std::fabs(got - want) <= tol * scale, "iteration %lld, particle %lld: %s is %.17g, should be %.17g", (long long)s.iter, id, n, got, want);
}
static void compare(Gen & g, const Conf & c, const std::vector<RefSnap> & ref, const Rec & r, size_t from, double tol, int64_t start, size_t kept = 0) {
  // which iterations have snapshots
  std::map<int64_t, const RefSnap *> m;
  for(auto & s : ref) m[s.iter] = &s;
  size_t k = from;
  PBT_CHECK(g, r.snap.size() > from || c.by_time, "no snapshot was written");
  for(; k < r.snap.size(); ++k) {
    auto & h = r.snap[k];
    PBT_CHECK(g, m.count(h.iteration), "a snapshot of iteration %lld, which is not one of %lld to %lld", h.iteration, (long long)start, (long long)ref.back().iter);
    auto & s = *m[h.iteration];
    PBT_CHECK(g, std::fabs(h.time - s.time) <= tol * (std::fabs(s.time) + c.dt0), "iteration %lld is at time %.17g, should be at %.17g", h.iteration, h.time, s.time);
    auto ids = by_id(g, h);
    size_t normal = 0;
    double X = c.dx, V = 1e-3, A = 1e-3 / c.dx, U = 0, R = 0, P = 0;
    for(auto & b : s.p) for(int d = 0; d < D; ++d) { X = std::max(X, std::fabs(b.coordinates()[d])); V = std::max(V, std::fabs(b.getVelocity()[d])); A = std::max(A, std::fabs(b.getAcceleration()[d] + b.getGAcceleration()[d])); U = std::max(U, std::fabs(b.getInternalenergy())); R = std::max(R, b.getDensity()); P = std::max(P, std::fabs(b.getPressure())); }
    for(auto & b0 : s.p) {
      body & b = const_cast<body &>(b0);
      if(b.getType() != NORMAL) continue;
      ++normal;
      PBT_CHECK(g, ids.count(b.id()), "iteration %lld: particle %lld is missing", h.iteration, (long long)b.id());
      size_t i = ids[b.id()];
      static const char * XN[] = {"x", "y", "z"}, * VN[] = {"vx", "vy", "vz"}, * AN[] = {"ax", "ay", "az"};
      auto f = [&](const char * n) { auto it = h.f.find(n); PBT_CHECK(g, it != h.f.end(), "no data set %s", n); return it->second[i]; };
      for(int d = 0; d < D; ++d) {
        near_field(g, s, b.id(), XN[d], f(XN[d]), b.coordinates()[d], X, tol);
        near_field(g, s, b.id(), VN[d], f(VN[d]), b.getVelocity()[d], V, tol);
        near_field(g, s, b.id(), AN[d], f(AN[d]), b.getAcceleration()[d] + b.getGAcceleration()[d], A, 10 * tol);
      }
      PBT_CHECK(g, f("m") == b.mass(), "iteration %lld: the mass of particle %lld changed", h.iteration, (long long)b.id());
      near_field(g, s, b.id(), "rho", f("rho"), b.getDensity(), R, tol);
      near_field(g, s, b.id(), "h", f("h"), b.radius(), b.radius(), tol);
      near_field(g, s, b.id(), "u", f("u"), b.getInternalenergy(), U, tol);
      near_field(g, s, b.id(), "P", f("P"), b.getPressure(), P, tol);
      if(c.adaptive && h.iteration > start) near_field(g, s, b.id(), "dt", f("dt"), b.getDt(), b.getDt(), 10 * tol);
    }
    PBT_CHECK(g, ids.size() == normal, "iteration %lld has %zu particles instead of %zu", h.iteration, ids.size(), normal);
  }
  if(!c.by_time) PBT_CHECK(g, r.snap.size() - from == ref.size() - kept, "%zu snapshots of %zu iterations", r.snap.size() - from, ref.size() - kept);
  // reductions
  std::vector<double> scale;
  for(auto & s : ref) for(size_t i = 0; i < s.scal.size(); ++i) { if(scale.size() <= i) scale.resize(i + 1, 0); scale[i] = std::max(scale[i], std::fabs(s.scal[i])); }
  double E = std::max({scale[4], scale[5], scale[6]});
  if(!c.by_time) PBT_CHECK(g, r.scal.size() == ref.size(), "scalar_reductions.dat has %zu lines of %zu iterations", r.scal.size(), ref.size());
  for(auto & row : r.scal) {
    PBT_CHECK(g, m.count((int64_t)row[0]), "scalar_reductions.dat has a line of iteration %g", row[0]);
    auto & s = *m[(int64_t)row[0]];
    for(size_t i = 1; i < s.scal.size(); ++i) {
      double sc = i >= 4 ? E : scale[i] + (i < 3 ? c.dt0 : 0);
      PBT_CHECK(g, std::fabs(row[i] - s.scal[i]) <= std::max(tol, 1e-9) * sc, "scalar_reductions.dat: iteration %g, column %zu is %.13g, should be %.13g", row[0], i + 1, row[i], s.scal[i]);
    }
  }
}
static void load_par(const std::string & f) { param::read_params(f.c_str()); set_derived_params(); }
static std::vector<body> bodies_of(const H5Step & h) {
  std::vector<body> p;
  for(size_t i = 0; i < h.id.size(); ++i) {
    body b = body();
    point_t x, v;
    static const char * XN[] = {"x", "y", "z"}, * VN[] = {"vx", "vy", "vz"};
    for(int d = 0; d < D; ++d) { x[d] = h.f.at(XN[d])[i]; v[d] = h.f.at(VN[d])[i]; }
    b.set_coordinates(x); b.setVelocity(v); b.set_mass(h.f.at("m")[i]); b.setDensity(h.f.at("rho")[i]); b.set_radius(h.f.at("h")[i]); b.setPressure(h.f.at("P")[i]); b.setInternalenergy(h.f.at("u")[i]); b.setDt(h.f.at("dt")[i]);
    b.set_id(h.id[i]); b.setType((particle_type_t)h.type[i]); b.set_state(0);
    p.push_back(b);
  }
  return p;
}
static void in_reference(Gen & g, std::function<void()> f) { own_all(); mock::fresh(); mock::run(1, mock::gen_sched(g).policy, 1, [&](int) { f(); }); }
PROPERTY_ISOLATED(trajectory, 900, 40000) {
  Conf c = gen_conf(g, false);
  Run ra = gen_run(g, c.p.size());
  Scratch s;
  std::string d = s.sub("a");
  write_par(c.par, d + "/run.par");
  write_initial(d + "/start.h5part", c.p, {});
  g.nontrivial(c.steps >= 2 && c.p.size() > 4);
  std::string failed;
  bool done = run_program(g, d, ra.n, ra.s, &failed);
  std::vector<RefSnap> ref;
  bool usable = true;
  in_reference(g, [&] {
    load_par(d + "/run.par");
    Ref f(c, c.p);
    try { ref = f.run(0, 0, c.dt0); } catch(Unphysical &) { usable = false; }
    if(f.unsure) usable = false;
  });
  if(!usable) g.discard();
  PBT_CHECK(g, done, "the run on %d ranks stopped although there is internal energy left", ra.n);
  PBT_CHECK(g, failed.empty(), "%s", failed.c_str());
  compare(g, c, ref, records(d, c.separate), 0, 1e-9, 0);
}

// ---------------------------------------------------------------- C33 -------
PROPERTY_ISOLATED(restart, 700, 30000) { // the run in two parts, on other ranks, from a snapshot of the first
  Conf c = gen_conf(g, false);
  Run ra = gen_run(g, c.p.size()), rb = gen_run(g, c.p.size());
  bool same = g.flip(), drop = c.separate && same && g.flip();
  int more = 1 + (int)g.u(4);
  g.note("%s, %d more ", same ? "same files" : "other files", more);
  g.label(same ? "same output prefix" : "other output prefix");
  Scratch s;
  std::string d = s.sub("a");
  write_par(c.par, d + "/run.par");
  write_initial(d + "/start.h5part", c.p, {});
  std::string failed;
  if(!run_program(g, d, ra.n, ra.s, &failed)) g.discard();
  PBT_CHECK(g, failed.empty(), "%s", failed.c_str());
  Rec r = records(d, c.separate);
  if(!finite(r)) g.discard();
  size_t k = r.snap.size() - 1;
  if(drop && k > 1) { --k; g.label("later snapshots dropped"); }
  if(k == 0 || r.snap[k].iteration == 0) g.discard();
  const H5Step h = r.snap[k];
  if(same && !c.separate && k + 1 != r.snap.size()) g.discard();
  g.nontrivial(ra.n != rb.n);
  Conf q = c;
  q.par["initial_iteration"] = std::to_string(h.iteration); q.par["final_iteration"] = std::to_string(h.iteration + more);
  q.set("initial_data_prefix", "out"); q.set("output_h5data_prefix", same ? "out" : "more");
  write_par(q.par, d + "/run.par");
  rename((d + "/scalar_reductions.dat").c_str(), (d + "/first.dat").c_str());
  bool done = run_program(g, d, rb.n, rb.s, &failed);
  std::vector<RefSnap> ref;
  bool usable = true;
  in_reference(g, [&] {
    load_par(d + "/run.par");
    Ref f(q, bodies_of(h));
    try { ref = f.run(h.iteration, h.time, h.dt); } catch(Unphysical &) { usable = false; }
    if(f.unsure) usable = false;
  });
  if(!usable) g.discard();
  PBT_CHECK(g, done, "the second part on %d ranks stopped although there is internal energy left", rb.n);
  PBT_CHECK(g, failed.empty(), "%s", failed.c_str());
  Rec t = records(d, c.separate, same ? "out" : "more");
  size_t at = same ? k : 0;
  if(same) {
    PBT_CHECK(g, t.snap.size() > k, "%zu snapshots after the restart from number %zu", t.snap.size(), k);
    for(size_t i = 0; i < k; ++i) PBT_CHECK(g, t.snap[i].iteration == r.snap[i].iteration && t.snap[i].f == r.snap[i].f, "the snapshot of iteration %lld changed with the restart from iteration %lld", r.snap[i].iteration, h.iteration);
  }
  // the snapshot of the restart is there already: kept, or written again
  bool kept = same && t.snap[k].iteration == h.iteration && t.snap[k].f == h.f;
  compare(g, q, ref, t, at + kept, 1e-9, h.iteration, kept);
  // the state at the restart is the one that was saved
  PBT_CHECK(g, !t.scal.empty() && t.scal[0][0] == h.iteration, "the first line of scalar_reductions.dat is not of iteration %lld", h.iteration);
  for(auto & row : r.scal) if(row[0] == h.iteration) {
    double E = std::fabs(row[5]) + std::fabs(row[6]), M = 0;
    for(size_t i = 0; i < h.id.size(); ++i) { double v = 0; for(int j = 0; j < D; ++j) v += std::fabs(h.f.at(j == 0 ? "vx" : j == 1 ? "vy" : "vz")[i]); M += h.f.at("m")[i] * v; }
    PBT_CHECK(g, std::fabs(t.scal[0][3] - row[3]) <= 1e-11 * row[3], "the restart changed the mass from %.13g to %.13g", row[3], t.scal[0][3]);
    PBT_CHECK(g, std::fabs(t.scal[0][5] - row[5]) <= 1e-11 * E, "the restart changed the kinetic energy from %.13g to %.13g", row[5], t.scal[0][5]);
    if(c.evolve && !c.fmm) PBT_CHECK(g, std::fabs(t.scal[0][4] - row[4]) <= 1e-11 * (E + std::fabs(row[4])), "the restart changed the total energy from %.13g to %.13g", row[4], t.scal[0][4]);
    if(c.evolve && !c.fmm) PBT_CHECK(g, std::fabs(t.scal[0][6] - row[6]) <= 1e-11 * E, "the restart changed the internal energy from %.13g to %.13g", row[6], t.scal[0][6]);
    for(int i = 0; i < D; ++i) PBT_CHECK(g, std::fabs(t.scal[0][7 + i] - row[7 + i]) <= 1e-11 * M, "the restart changed the momentum from %.13g to %.13g", row[7 + i], t.scal[0][7 + i]);
  }
}

// ---------------------------------------------------------------- C34 -------
PROPERTY_ISOLATED(conserved, 900, 40000) { // mass, momentum, angular momentum and energy of an isolated system over a whole run
  Conf c = gen_conf(g, true, true);
  Run ra = gen_run(g, c.p.size());
  Scratch s;
  std::string d = s.sub("a");
  write_par(c.par, d + "/run.par");
  write_initial(d + "/start.h5part", c.p, {});
  std::string failed;
  if(!run_program(g, d, ra.n, ra.s, &failed)) g.discard();
  PBT_CHECK(g, failed.empty(), "%s", failed.c_str());
  Rec r = records(d, c.separate);
  if(!finite(r)) g.discard();
  g.nontrivial(ra.n > 1 && c.steps > 1);
  // from the snapshots, and what the run recorded of itself
  L M0 = 0, P0[3] = {}, J0[3] = {}, E0 = 0;
  bool first = true;
  for(auto & h : r.snap) {
    L M = 0, P[3] = {}, J[3] = {}, EK = 0, EI = 0, pm = 0, jm = 0, pa = 0;
    L X = 0;
    for(size_t i = 0; i < h.id.size(); ++i) {
      static const char * XN[] = {"x", "y", "z"}, * VN[] = {"vx", "vy", "vz"}, * AN[] = {"ax", "ay", "az"};
      L x[3] = {}, v[3] = {}, m = h.f.at("m")[i], v2 = 0, r2 = 0, a2 = 0;
      for(int j = 0; j < D; ++j) { x[j] = h.f.at(XN[j])[i]; v[j] = h.f.at(VN[j])[i]; v2 += v[j] * v[j]; r2 += x[j] * x[j]; a2 += (L)h.f.at(AN[j])[i] * h.f.at(AN[j])[i]; }
      M += m; EK += .5L * m * v2; EI += m * h.f.at("u")[i];
      for(int j = 0; j < D; ++j) P[j] += m * v[j];
      if(D == 2) J[0] += m * (x[0] * v[1] - x[1] * v[0]);
      if(D == 3) for(int j = 0; j < 3; ++j) J[j] += m * (x[(j + 1) % 3] * v[(j + 2) % 3] - x[(j + 2) % 3] * v[(j + 1) % 3]);
      L q = sqrtl(v2) + c.steps * .02L * c.dx * sqrtl(a2); // what changed hands
      pm += m * q; X = std::max(X, sqrtl(r2)); pa += m * sqrtl(r2) * q;
    }
    jm = pa;
    int it = (int)h.iteration;
    if(first) { M0 = M; for(int j = 0; j < 3; ++j) { P0[j] = P[j]; J0[j] = J[j]; } }
    PBT_CHECK(g, fabsl(M - M0) <= 1e-13L * M0, "iteration %d: the mass is %.17Lg, was %.17Lg", it, M, M0);
    for(int j = 0; j < D; ++j) PBT_CHECK(g, fabsl(P[j] - P0[j]) <= 1e-10L * (pm + 1e-6L * M), "iteration %d: the momentum is %.17Lg, was %.17Lg", it, P[j], P0[j]);
    for(int j = 0; j < (D == 2 ? 1 : D == 3 ? 3 : 0); ++j) PBT_CHECK(g, fabsl(J[j] - J0[j]) <= 1e-10L * (jm + 1e-6L * M * X), "iteration %d: the angular momentum is %.17Lg, was %.17Lg", it, J[j], J0[j]);
    if(c.evolve && c.thermo && !c.fmm) {
      if(first) E0 = EK + EI;
      PBT_CHECK(g, fabsl(EK + EI - E0) <= 1e-10L * (EK + EI), "iteration %d: the energy is %.17Lg, was %.17Lg", it, EK + EI, E0);
    }
    first = false;
    for(auto & row : r.scal) if((long long)row[0] == h.iteration) {
      PBT_CHECK(g, fabsl(row[3] - M) <= 1e-11L * M, "scalar_reductions.dat: iteration %d has mass %.13g, the snapshot %.13Lg", it, row[3], M);
      PBT_CHECK(g, fabsl(row[5] - EK) <= 1e-11L * (EK + EI), "scalar_reductions.dat: iteration %d has kinetic energy %.13g, the snapshot %.13Lg", it, row[5], EK);
      if(c.evolve && !c.fmm) PBT_CHECK(g, fabsl(row[6] - EI) <= 1e-11L * (EK + EI), "scalar_reductions.dat: iteration %d has internal energy %.13g, the snapshot %.13Lg", it, row[6], EI);
      if(c.evolve && !c.fmm) PBT_CHECK(g, fabsl(row[4] - EK - EI) <= 1e-11L * (EK + EI), "scalar_reductions.dat: iteration %d has total energy %.13g, the snapshot %.13Lg", it, row[4], EK + EI);
      for(int j = 0; j < D; ++j) PBT_CHECK(g, fabsl(row[7 + j] - P[j]) <= 1e-10L * (pm + 1e-6L * M), "scalar_reductions.dat: iteration %d has momentum %.13g, the snapshot %.13Lg", it, row[7 + j], P[j]);
      PBT_CHECK(g, fabsl(row[1] - h.time) <= 1e-11L * (fabsl(h.time) + c.dt0), "scalar_reductions.dat: iteration %d is at %.13g, the snapshot at %.13g", it, row[1], h.time);
    }
  }
}
