// C20-C23: integrators, equations of state, external forces and periodic
// boundaries against long-double models.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <cassert>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <mpi.h>
#include "mockmpi.h"
#include "bodies_system.h"
#include "default_physics.h"
#include "integration.h"
#include "analysis.h"
#include "pbt.h"
#include "cloud.h"
using pbt::Gen;
typedef long double L;
static const int D = gdimension;
using System = body_system<double, gdimension>;

static void unchanged(Gen & g, const char * what, body & before, body & after, std::function<void(body &, body &)> copy) {
  body x = before;
  copy(x, after);
  auto p = attrs(x), q = attrs(after);
  for(size_t i = 0; i < p.size(); ++i) PBT_CHECK(g, memcmp(&p[i], &q[i], 8) == 0, "%s changed attribute %zu of the particle from %.17g to %.17g", what, i, p[i], q[i]);
}
static body some_body(Gen & g, double len = 1, double vel = 1) {
  body b;
  fill_attrs(b, g.u(100000), 17);
  point_t x, v, a, ga;
  for(int d = 0; d < D; ++d) { x[d] = len * g.real(-1, 1); v[d] = vel * g.real(-1, 1); a[d] = g.real(-1, 1); ga[d] = g.flip() ? g.real(-1, 1) : 0; }
  b.set_coordinates(x); b.setVelocity(v); b.setAcceleration(a); b.setGAcceleration(ga);
  b.set_mass(g.lreal(1e-3, 1e3)); b.set_radius(g.lreal(1e-2, 10)); b.set_id(g.u(1000)); b.set_key(key_type(1));
  return b;
}
#define NEAR(got, want, bound, what) PBT_CHECK(g, fabsl((L)(got) - (L)(want)) <= (L)(bound) + 1e-290L, "%s is %.17g, should be %.17Lg", what, (double)(got), (L)(want))

// ---------------------------------------------------------------- C20 -------
PROPERTY(updates, 60000, 6000000) {
  body b = some_body(g, g.pick({1.0, 1e9, 1e-5}), g.pick({1.0, 1e6, 0.0}));
  physics::dt = g.pick({1e-3, 1.0, 0.0, -1e-3}) * (1 + g.unit());
  b.setInternalenergy(g.lreal(1e-3, 1e10)); b.setTotalenergy(g.real(-1e3, 1e3)); b.setDudt(g.real(-10, 10)); b.setDedt(g.real(-10, 10));
  b.setAdiabatic(g.lreal(1e-3, 1e3)); b.setDadt(g.real(-10, 10));
  int what = g.u(6);
  static const char * name[] = {"leapfrog_kick_v", "leapfrog_kick_u", "leapfrog_kick_e", "leapfrog_drift", "save_velocityhalf", "dadt_integration"};
  g.label(name[what]);
  g.note("%s dt=%g ", name[what], physics::dt);
  g.nontrivial(physics::dt != 0);
  body o = b;
  const L dt = physics::dt, U = 4e-16L;
  switch(what) {
    case 0: integration::leapfrog_kick_v(b);
      for(int d = 0; d < D; ++d) { L a = (L)o.getAcceleration()[d] + o.getGAcceleration()[d]; NEAR(b.getVelocity()[d], o.getVelocity()[d] + .5L * dt * a, U * (fabsl(o.getVelocity()[d]) + fabsl(dt) * (fabsl(o.getAcceleration()[d]) + fabsl(o.getGAcceleration()[d]))), "velocity"); }
      unchanged(g, name[what], o, b, [](body & x, body & y) { x.setVelocity(y.getVelocity()); });
      break;
    case 1: integration::leapfrog_kick_u(b);
      NEAR(b.getInternalenergy(), o.getInternalenergy() + .5L * dt * o.getDudt(), U * (fabsl(o.getInternalenergy()) + fabsl(dt * o.getDudt())), "internal energy");
      unchanged(g, name[what], o, b, [](body & x, body & y) { x.setInternalenergy(y.getInternalenergy()); });
      break;
    case 2: integration::leapfrog_kick_e(b);
      NEAR(b.getTotalenergy(), o.getTotalenergy() + .5L * dt * o.getDedt(), U * (fabsl(o.getTotalenergy()) + fabsl(dt * o.getDedt())), "total energy");
      unchanged(g, name[what], o, b, [](body & x, body & y) { x.setTotalenergy(y.getTotalenergy()); });
      break;
    case 3: integration::leapfrog_drift(b);
      for(int d = 0; d < D; ++d) NEAR(b.coordinates()[d], o.coordinates()[d] + dt * o.getVelocity()[d], U * (fabsl(o.coordinates()[d]) + fabsl(dt * o.getVelocity()[d])), "position");
      unchanged(g, name[what], o, b, [](body & x, body & y) { x.set_coordinates(y.coordinates()); });
      break;
    case 4: integration::save_velocityhalf(b);
      for(int d = 0; d < D; ++d) PBT_CHECK(g, b.getVelocityhalf()[d] == o.getVelocity()[d], "half step velocity");
      unchanged(g, name[what], o, b, [](body & x, body & y) { x.setVelocityhalf(y.getVelocityhalf()); });
      break;
    default: integration::dadt_integration(b);
      NEAR(b.getAdiabatic(), o.getAdiabatic() + dt * o.getDadt(), U * (fabsl(o.getAdiabatic()) + fabsl(dt * o.getDadt())), "adiabatic invariant");
      unchanged(g, name[what], o, b, [](body & x, body & y) { x.setAdiabatic(y.getAdiabatic()); });
  }
}
static void kdk(body & b, const std::function<void(body &)> & rates) {
  integration::leapfrog_kick_u(b);
  integration::leapfrog_kick_e(b);
  integration::leapfrog_kick_v(b);
  integration::save_velocityhalf(b);
  integration::leapfrog_drift(b);
  rates(b);
  integration::leapfrog_kick_v(b);
  integration::leapfrog_kick_u(b);
  integration::leapfrog_kick_e(b);
}
PROPERTY(constant_acceleration, 20000, 2000000) { // exact for any sequence of steps
  body b = some_body(g);
  b.setInternalenergy(5); b.setTotalenergy(-3); b.setDudt(g.real(-1, 1)); b.setDedt(g.real(-1, 1));
  body o = b;
  int n = 1 + (int)g.u(60);
  L t = 0, at = 0;
  for(int i = 0; i < n; ++i) { physics::dt = g.real(-.3, 1); t += physics::dt; at += fabsl(physics::dt); kdk(b, [](body &) {}); }
  g.note("%d steps to t=%g", n, (double)t);
  g.nontrivial(n > 1);
  const L U = 2e-16L * 8 * (n + 2);
  for(int d = 0; d < D; ++d) {
    L a = (L)o.getAcceleration()[d] + o.getGAcceleration()[d], v = o.getVelocity()[d], x = o.coordinates()[d];
    NEAR(b.getVelocity()[d], v + a * t, U * (fabsl(v) + 2 * at), "velocity under constant acceleration");
    NEAR(b.coordinates()[d], x + v * t + .5L * a * t * t, U * (1 + at * fabsl(v) + 2 * at * at), "position under constant acceleration");
  }
  NEAR(b.getInternalenergy(), 5 + t * o.getDudt(), U * (5 + at), "internal energy at constant rate");
  NEAR(b.getTotalenergy(), -3 + t * o.getDedt(), U * (5 + at), "total energy at constant rate");
}
PROPERTY(reversible, 10000, 1000000) { // and the discrete oscillator's own energy is conserved
  body b = some_body(g);
  double k[3]; // harmonic in every direction, time reversible rate of the energies
  for(double & x : k) x = g.real(0, 4);
  int n = 1 + (int)g.u(200);
  double h = g.lreal(1e-3, .5);
  auto rates = [&](body & p) {
    point_t a, ga;
    for(int d = 0; d < D; ++d) { a[d] = -.75 * k[d] * p.coordinates()[d]; ga[d] = -.25 * k[d] * p.coordinates()[d]; }
    p.setAcceleration(a); p.setGAcceleration(ga);
    p.setDudt(p.coordinates()[0]); p.setDedt(std::sin(p.coordinates()[0]));
  };
  rates(b);
  b.setInternalenergy(1); b.setTotalenergy(1);
  body o = b;
  auto H = [&](body & p, int d) { L v = p.getVelocity()[d], x = p.coordinates()[d]; return .5L * v * v + .5L * k[d] * x * x * (1 - (L)k[d] * h * h / 4); };
  g.note("%d steps of %g, k=%g,%g,%g", n, h, k[0], k[1], k[2]);
  g.nontrivial(n > 1);
  physics::dt = h;
  for(int i = 0; i < n; ++i) {
    kdk(b, rates);
    for(int d = 0; d < D; ++d) NEAR(H(b, d), H(o, d), 1e-13L * (n + 10), "energy of the discrete oscillator");
  }
  physics::dt = -h;
  for(int i = 0; i < n; ++i) kdk(b, rates);
  for(int d = 0; d < D; ++d) {
    NEAR(b.coordinates()[d], o.coordinates()[d], 1e-13L * (n + 10), "position after going back");
    NEAR(b.getVelocity()[d], o.getVelocity()[d], 1e-13L * (n + 10), "velocity after going back");
  }
  NEAR(b.getInternalenergy(), 1, 1e-13L * (n + 10), "internal energy after going back");
  NEAR(b.getTotalenergy(), 1, 1e-13L * (n + 10), "total energy after going back");
}
PROPERTY(every_particle_once, 3000, 300000) { // apply_all, get_all on all ranks
  int n = 1 + (int)g.u(6);
  std::vector<std::vector<body>> loc(n);
  size_t id = 0;
  for(auto & l : loc) { int m = (int)g.u(30); for(int i = 0; i < m; ++i) { body b; fill_attrs(b, id, 3); b.set_id(id++); l.push_back(b); } }
  auto before = loc;
  auto sch = mock::gen_sched(g);
  g.note("ranks=%d n=%zu", n, id);
  g.nontrivial(id > 1);
  physics::dt = .25;
  std::vector<std::vector<body>> after(n);
  std::vector<std::map<size_t, int>> calls(n);
  std::vector<size_t> got(n);
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    System bs;
    bs.getLocalbodies() = loc[r];
    bs.apply_all(integration::leapfrog_kick_v);
    bs.apply_all([&](body & b) { ++calls[r][b.id()]; });
    bs.get_all([&](std::vector<body> & v) { got[r] = v.size(); });
    after[r] = bs.getLocalbodies();
  });
  for(int r = 0; r < n; ++r) {
    PBT_CHECK(g, after[r].size() == before[r].size() && got[r] == before[r].size() && calls[r].size() == before[r].size(), "rank %d: number of particles", r);
    for(size_t i = 0; i < after[r].size(); ++i) {
      PBT_CHECK(g, calls[r][before[r][i].id()] == 1, "rank %d: particle %zu visited %d times", r, (size_t)before[r][i].id(), calls[r][before[r][i].id()]);
      body e = before[r][i];
      integration::leapfrog_kick_v(e);
      unchanged(g, "apply_all", e, after[r][i], [](body &, body &) {});
    }
  }
}

// ---------------------------------------------------------------- C21 -------
static const param::eos_type_keyword EOS[] = {param::eos_ideal, param::eos_polytropic, param::eos_ppt, param::eos_wd, param::eos_no_eos};
static const char * EN[] = {"ideal", "polytropic", "piecewise polytropic", "white dwarf", "none"};
static const L WA = 6.00233181e22L, WB = 9.73932099e5L, CC = 2.99792458e10L;
static L psi(L x) {
  if(x < .1L) { // series of x(2x^2-3)sqrt(1+x^2)+3 asinh x = int 8 x^4/sqrt(1+x^2)
    L s = 0, c = 1, p = x * x * x * x * x;
    for(int k = 0; k < 12; ++k) { s += 8 * c * p / (2 * k + 5); c *= -(2 * k + 1) / (2.0L * (k + 1)); p *= x * x; }
    return s;
  }
  return x * (2 * x * x - 3) * sqrtl(1 + x * x) + 3 * asinhl(x);
}
struct Gas { int e; L K, g1, g2, thr; };
static L pres(const Gas & q, L rho, L u, L ye) {
  switch(q.e) {
    case 0: return (q.g1 - 1) * rho * u;
    case 1: return q.K * powl(rho, q.g1);
    case 2: return rho < q.thr ? q.K * powl(rho, q.g1) : q.K * powl(q.thr, q.g1) * powl(rho / q.thr, q.g2);
    default: return WA * psi(cbrtl(rho * ye / WB));
  }
}
static L cold_energy(const Gas & q, L rho, L ye) { // integral of P/rho^2
  L a = q.K * powl(rho, q.g1 - 1) / (q.g1 - 1);
  if(q.e == 3) { // d(eps)/d(rho) = P/rho^2
    L x = cbrtl(rho * ye / WB), y = x * x;
    L s = sqrtl(1 + y);
    return WA / rho * (8 * x * y * (y / (1 + s)) - psi(x));
  }
  if(q.e != 2 || rho < q.thr) return a;
  L K2 = q.K * powl(q.thr, q.g1 - q.g2);
  return q.K * powl(q.thr, q.g1 - 1) / (q.g1 - 1) + K2 * (powl(rho, q.g2 - 1) - powl(q.thr, q.g2 - 1)) / (q.g2 - 1);
}
static Gas gen_gas(Gen & g, int e) {
  Gas q;
  q.e = e;
  param::_poly_gamma = g.pick({1.4, 5.0 / 3, 2.0, 1.1, 4.0 / 3, 3.0});
  param::_poly_gamma2 = g.pick({2.5, 2.75, 1.5, 1.2});
  param::_ppt_density_thr = g.pick({1.0, 5e14, 1e-3});
  param::_eos_type = EOS[e];
  q.g1 = param::poly_gamma; q.g2 = param::poly_gamma2; q.thr = param::ppt_density_thr;
  return q;
}
static L wd_err(L x) { return 4e-16L * WA * (6 * x + 20 * powl(x, 4)); } // cancellation of the closed form
PROPERTY(eos_state, 60000, 6000000) {
  int prev = -1, steps = 1 + (int)g.u(3);
  for(int s = 0; s < steps; ++s) {
    int e = (int)g.u(5);
    Gas q = gen_gas(g, e);
    eos::select();
    body b = some_body(g);
    double ye = g.pick({.5, .46, .1, 1.0}), rho, u = g.lreal(1e-6, 1e18), p0 = g.lreal(1e-6, 1e6);
    if(e == 3) rho = WB * powl(g.lreal(2e-2, 1e3), 3) / ye;
    else if(e == 2) rho = param::ppt_density_thr * g.pick({g.lreal(1e-3, 1), g.lreal(1, 1e3), 1.0, 0.999999, 1.000001});
    else rho = g.lreal(1e-6, 1e6);
    b.setDensity(rho); b.setElectronfraction(ye); b.setInternalenergy(u); b.setPressure(p0);
    g.note("%s gamma=%g,%g rho=%.9g u=%g P=%g;", EN[e], (double)q.g1, (double)q.g2, rho, u, p0);
    g.label(EN[e]);
    g.nontrivial(e != 4);
    if(prev >= 0 && prev != e) g.label("reselected");
    prev = e;
    body o = b;
    eos::init(b);
    if(e == 4) {
      eos::compute_pressure(b); eos::compute_soundspeed(b); eos::compute_internal_energy(b);
      unchanged(g, "no eos", o, b, [](body &, body &) {});
      continue;
    }
    const L T = 2e-13L;
    L x = cbrtl((L)rho * ye / WB);
    if(e == 3) {
      L u0 = cold_energy(q, rho, ye);
      NEAR(b.getInternalenergy(), u0, 1e-12L * fabsl(u0) + 8e-16L * WA / rho * (6 * x + 40 * powl(x, 4)), "initial internal energy");
      unchanged(g, "init", o, b, [](body & m, body & y) { m.setInternalenergy(y.getInternalenergy()); });
    }
    else {
      unchanged(g, "init", o, b, [](body & m, body & y) { m.setAdiabatic(y.getAdiabatic()); });
      // the adiabatic invariant reproduces the initial pressure
      if(e == 2 && rho >= q.thr) q.K = p0 / (powl(q.thr, q.g1) * powl(rho / q.thr, q.g2));
      else q.K = p0 / powl(rho, q.g1);
      NEAR(b.getAdiabatic(), q.K, T * q.K * 10, "adiabatic invariant");
    }
    o = b;
    eos::compute_pressure(b);
    unchanged(g, "compute_pressure", o, b, [](body & m, body & y) { m.setPressure(y.getPressure()); });
    L p = pres(q, rho, u, ye);
    NEAR(b.getPressure(), p, e == 3 ? wd_err(x) + T * p : 10 * T * p, "pressure");
    if(e == 1 || e == 2) NEAR(b.getPressure(), p0, 10 * T * p0, "pressure computed back from the invariant");
    o = b;
    eos::compute_soundspeed(b);
    unchanged(g, "compute_soundspeed", o, b, [](body & m, body & y) { m.setSoundspeed(y.getSoundspeed()); });
    L c = e == 0 ? sqrtl(q.g1 * (q.g1 - 1) * u) : e == 3 ? CC * x / sqrtl(3 * (1 + x * x)) : sqrtl((e == 2 && rho >= q.thr ? q.g2 : q.g1) * p / rho);
    NEAR(b.getSoundspeed(), c, e == 3 ? c * (T + 4e-15L / powl(x, 4)) + CC * 1e-13L : 10 * T * c, "sound speed");
    PBT_CHECK(g, b.getSoundspeed() >= 0, "sound speed %g", b.getSoundspeed());
    o = b;
    eos::compute_internal_energy(b);
    unchanged(g, "compute_internal_energy", o, b, [](body & m, body & y) { m.setInternalenergy(y.getInternalenergy()); });
    if(e != 3) {
      L ce = cold_energy(q, rho, ye);
      NEAR(b.getInternalenergy(), ce, 20 * T * (ce + 2 * q.K * powl(q.thr, q.g1 - 1) * (e == 2)) + (e == 2 ? 20 * T * ce : 0), "internal energy");
      if(e == 0) { // round trip: the energy of the invariant gives the initial pressure
        eos::compute_pressure(b);
        NEAR(b.getPressure(), p0, 20 * T * p0, "pressure of the energy of the invariant");
      }
    }
  }
}
PROPERTY(eos_first_law, 20000, 2000000) { // du = P/rho^2 drho and c^2 = dP/drho along an adiabat, from the code's own functions
  int e = (int)g.u(4);
  Gas q = gen_gas(g, e);
  eos::select();
  body b = some_body(g);
  b.setElectronfraction(.5);
  double rho = e == 3 ? 2 * WB * std::pow(g.lreal(.1, 100), 3) : e == 2 ? param::ppt_density_thr * g.pick({g.lreal(1e-2, .9), g.lreal(1.1, 1e2)}) : g.lreal(1e-3, 1e3);
  b.setDensity(rho); b.setPressure(g.lreal(1e-3, 1e3)); b.setInternalenergy(1);
  g.note("%s gamma=%g,%g rho=%g", EN[e], (double)q.g1, (double)q.g2, rho);
  g.label(EN[e]);
  g.nontrivial();
  eos::init(b);
  auto at = [&](double r, L & p, L & u) { body x = b; x.setDensity(r); eos::compute_internal_energy(x); eos::compute_pressure(x); p = x.getPressure(); u = x.getInternalenergy(); };
  const double h = 1e-4;
  double r1 = rho * (1 - h), r2 = rho * (1 + h), r3 = rho * (1 - 2 * h), r4 = rho * (1 + 2 * h);
  L p, u, p1, u1, p2, u2, p3, u3, p4, u4;
  at(rho, p, u); at(r1, p1, u1); at(r2, p2, u2); at(r3, p3, u3); at(r4, p4, u4);
  L du = (8 * (u2 - u1) - (u4 - u3)) / 6 / ((L)r2 - r1), dp = (8 * (p2 - p1) - (p4 - p3)) / 6 / ((L)r2 - r1);
  L x = cbrtl(rho * .5L / WB), tol = e == 3 ? 1e-8L + 1e-11L / powl(x, 4) * 3 : 1e-8L;
  NEAR(du, p / ((L)rho * rho), tol * p / ((L)rho * rho) + 1e-10L * fabsl(u) / rho, "slope of the internal energy");
  body s = b;
  eos::compute_internal_energy(s); eos::compute_pressure(s); eos::compute_soundspeed(s);
  if(e != 3) NEAR((L)s.getSoundspeed() * s.getSoundspeed(), dp, 1e-8L * dp, "squared sound speed");
  else { // relativistic electrons: dP/d(energy density)
    PBT_CHECK(g, s.getSoundspeed() > 0 && s.getSoundspeed() <= CC / sqrtl(3) * (1 + 1e-12L), "sound speed %g", s.getSoundspeed());
  }
}
PROPERTY(half_step_pressure, 20000, 2000000) { // pressure half a step ahead, energies untouched
  int e = g.flip() ? 0 : (int)g.u(4);
  Gas q = gen_gas(g, e);
  eos::select();
  bool ext = g.flip();
  param::_gravity_acceleration_constant = g.real(-1, 1);
  external_force::select(ext ? "gravity" : "none");
  body b = some_body(g);
  double rho = e == 3 ? 2 * WB * std::pow(g.lreal(.1, 100), 3) : g.lreal(1e-3, 1e3);
  b.setDensity(rho); b.setElectronfraction(.5); b.setPressure(2);
  b.setInternalenergy(g.real(1, 10)); b.setDudt(g.real(-1, 1)); b.setDedt(g.real(-1, 1));
  L ek = 0, va = 0;
  point_t fe = external_force::acceleration(b); // its work is part of the total energy
  for(int d = 0; d < D; ++d) { ek += .5L * b.getVelocity()[d] * b.getVelocity()[d]; va += (L)b.getVelocity()[d] * ((L)b.getAcceleration()[d] + b.getGAcceleration()[d] - fe[d]); }
  L ep = external_force::potential(b.coordinates());
  physics::dt = g.real(0, .3);
  b.setTotalenergy(b.getInternalenergy() + ek + ep);
  eos::init(b);
  b.setTotalenergy(b.getInternalenergy() + ek + ep);
  body o = b;
  bool tk = g.flip();
  g.note("%s %s dt=%g rho=%g", EN[e], tk ? "thermokinetic" : "internal", physics::dt, rho);
  g.nontrivial(e == 0);
  L u = o.getInternalenergy();
  L ua = tk ? u + .5L * physics::dt * (o.getDedt() - va) : u + .5L * physics::dt * o.getDudt();
  tk ? physics::recompute_pressure_soundspeed_thermokinetic(b) : physics::recompute_pressure_soundspeed(b);
  q.K = o.getAdiabatic();
  body x = o;
  x.setInternalenergy(ua); eos::compute_pressure(x); eos::compute_soundspeed(x);
  ek += fabsl(ep);
  NEAR(b.getPressure(), x.getPressure(), 1e-12L * fabsl(x.getPressure()) * (1 + ek / ua), "pressure half a step ahead");
  NEAR(b.getSoundspeed(), x.getSoundspeed(), 1e-12L * fabsl(x.getSoundspeed()) * (1 + ek / ua), "sound speed half a step ahead");
  NEAR(b.getInternalenergy(), u, 1e-14L * (u + ek), "internal energy");
  unchanged(g, "recompute_pressure", o, b, [](body & m, body & y) { m.setPressure(y.getPressure()); m.setSoundspeed(y.getSoundspeed()); m.setInternalenergy(y.getInternalenergy()); });
}
static bool rejected(std::function<void()> f) { // by an exception or by ending the program with an error
  fflush(stdout);
  int pid = fork();
  if(pid == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    try { f(); } catch(std::exception &) { _exit(3); }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 99 : WTERMSIG(st) == SIGABRT;
}
PROPERTY(eos_names, 1200, 20000) {
  struct Nm { const char * n; int e; };
  static const Nm names[] = {{"ideal fluid", 0}, {"polytropic", 1}, {"white dwarf", 3}, {"piecewise polytropic", 2}, {"no eos", 4}};
  int k = (int)g.u(5);
  std::string s = names[k].n;
  bool wrong = g.u(4) == 0;
  if(wrong) s += g.pick({"x", " 2", "_"});
  std::string q = g.flip() ? "\"" + s + "\"" : s;
  g.note("%s", q.c_str());
  g.nontrivial();
  param::_eos_type = EOS[(k + 1) % 5];
  if(wrong) { PBT_CHECK(g, rejected([&] { param::set_param("eos_type", q); }), "unknown equation of state %s is accepted", q.c_str()); return; }
  PBT_CHECK(g, !rejected([&] { param::set_param("eos_type", q); }), "equation of state %s is rejected", q.c_str());
  param::set_param("eos_type", q);
  PBT_CHECK(g, param::eos_type == EOS[names[k].e], "%s selects another equation of state", q.c_str());
}

// ---------------------------------------------------------------- C22 -------
struct Du { L v = 0, d[3] = {0, 0, 0}; Du(L x = 0) : v(x) {} };
static Du chain(const Du & a, L v, L f) { Du r(v); for(int i = 0; i < 3; ++i) r.d[i] = f * a.d[i]; return r; }
static Du operator+(Du a, const Du & b) { a.v += b.v; for(int i = 0; i < 3; ++i) a.d[i] += b.d[i]; return a; }
static Du operator-(const Du & a) { return chain(a, -a.v, -1); }
static Du operator-(const Du & a, const Du & b) { return a + (-b); }
static Du operator*(const Du & a, const Du & b) { Du r(a.v * b.v); for(int i = 0; i < 3; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
static Du Pow(const Du & a, L n) { return chain(a, powl(a.v, n), n * powl(a.v, n - 1)); }
static Du Sqrt(const Du & a) { return chain(a, sqrtl(a.v), .5L / sqrtl(a.v)); }
static Du Sin(const Du & a) { return chain(a, sinl(a.v), cosl(a.v)); }

struct Part { std::string name; double mag = 0; bool judge = true; };
static L radius2(const Du * x) { L s = 0; for(int d = 0; d < D; ++d) s += x[d].v * x[d].v; return s; }
static std::string low(std::string s) { for(char & c : s) c = tolower(c); return s; }
//! potential of one force in the reference model
static Du potential_of(const std::string & nm, const Du * x, bool & judge) {
  using namespace param;
  std::string s = low(nm);
  Du r(0);
  for(int d = 0; d < D; ++d) r = r + x[d] * x[d];
  bool centre = radius2(x) == 0;
  Du rad = centre ? Du(0) : Sqrt(r);
  const L n = extforce_wall_powerindex, A = extforce_wall_steepness;
  auto wall = [&]() -> Du { return rad.v > sphere_radius ? Du(A) * Pow(rad - Du(sphere_radius), n) : Du(0); };
  if(s == "spherical wall") return wall();
  if(s == "gravity") return Du(gravity_acceleration_constant) * x[D > 1 ? 1 : 0];
  if(s == "poison") return Du(zero_potential_poison_value);
  if(s.substr(0, 6) == "walls:") {
    Du p(0);
    const double box[3] = {.5 * box_length, .5 * box_width, .5 * box_height};
    for(char c : s.substr(6)) { int d = c - 'x'; L o = fabsl(x[d].v) - box[d]; if(o > 0) p = p + Du(A) * Pow((x[d].v > 0 ? x[d] : -x[d]) - Du(box[d]), n); }
    return p;
  }
  if(s == "spherical density support") {
    std::string pr = density_profile;
    L X = rad.v / sphere_radius;
    if(X < 1e-11L && X > 0) judge = false;
    Du rho(0), y = rad * Du(1.0L / sphere_radius);
    if(pr == "constant") rho = Du(rho_initial);
    if(pr == "parabolic") rho = Du(rho_initial) * (Du(1) - r * Du(1 / ((L)sphere_radius * sphere_radius)));
    if(pr == "mesa") {
      L q = mesa_rim_width;
      if(fabsl(X - .9999L) < 1e-9L) judge = false;
      if(X < 1 - q) rho = Du(rho_initial);
      else if(X < .9999L) rho = Du(rho_initial) * (Du(1) - (y - Du(1 - q)) * (y - Du(1 - q)) * Du(1 / (q * q)));
    }
    if(centre) rho = Du(rho_initial);
    if(fabsl(rho.v) < 1e-7L * rho_initial) judge = false; // density vanishes: powers amplify rounding
    L K = pressure_initial / powl(rho_initial, poly_gamma);
    Du p = wall();
    if(rho.v > 0) p = p - Du(K * poly_gamma / (poly_gamma - 1.0L)) * Pow(rho, poly_gamma - 1.0L);
    return p;
  }
  if(s == "airfoil") {
    L al = airfoil_attack_angle * M_PI / 180.0L;
    Du X = (x[0] - Du(airfoil_anchor_x)) * Du(cosl(al)) + (x[1] - Du(airfoil_anchor_y)) * Du(sinl(al));
    Du Y = (x[1] - Du(airfoil_anchor_y)) * Du(cosl(al)) - (x[0] - Du(airfoil_anchor_x)) * Du(sinl(al));
    auto close = [&](L a, L b) { if(fabsl(a - b) < 1e-9L * (1 + fabsl(b))) judge = false; };
    close(fabsl(Y.v), 5.0L * airfoil_thickness); close(X.v, -airfoil_size * .02L); close(X.v, airfoil_size * 1.02L); close(X.v, airfoil_size);
    bool in = fabsl(Y.v) < 5.0L * airfoil_thickness && X.v > -airfoil_size * .02L && X.v < airfoil_size;
    if(!in) return Du(0);
    Du up2 = Du((L)airfoil_thickness * airfoil_thickness) * X * X * (Du((L)airfoil_size * airfoil_size) - X * X);
    Du c = Du(airfoil_camber) * Sin(Du(M_PI / 2) * X);
    Du f = up2 - (Y - c) * (Y - c) + Du(.002L);
    return f.v > 0 ? Du(A) * Pow(f, n) : Du(0);
  }
  if(s == "orbit") {
    L G = gravitational_constant, a = orbital_separation, mn = mass_neutron_star, mt = (L)mass_neutron_star + mass_white_dwarf;
    Du dd = (x[0] - Du(a)) * (x[0] - Du(a)) + x[1] * x[1];
    if(D > 2) dd = dd + x[2] * x[2];
    Du e = x[0] - Du(a * mn / mt);
    return Du(-G * mn) * Pow(dd, -.5L) - Du(.5L * G * mt / (a * a * a)) * (e * e + x[1] * x[1]);
  }
  return Du(0);
}
static void set_str(char * dst, const char * s) { strcpy(dst, s); }
static void gen_force_params(Gen & g) {
  param::_box_length = g.lreal(.1, 10); param::_box_width = g.lreal(.1, 10); param::_box_height = g.lreal(.1, 10);
  param::_sphere_radius = g.lreal(.3, 3);
  param::_extforce_wall_powerindex = g.pick({5.0, 2.0, 3.0, 2.5, 4.0});
  param::_extforce_wall_steepness = g.pick({1.0, 1e12, 1e3});
  param::_gravity_acceleration_constant = g.pick({9.81, 1.0, -2.0});
  param::_zero_potential_poison_value = g.real(-5, 5);
  param::_gravitational_constant = g.pick({1.0, .5}); param::_orbital_separation = g.lreal(.5, 4);
  param::_mass_neutron_star = g.lreal(.5, 2); param::_mass_white_dwarf = g.lreal(.5, 2);
  param::_rho_initial = g.lreal(.1, 10); param::_pressure_initial = g.lreal(.1, 10); param::_poly_gamma = g.pick({1.4, 5.0 / 3, 2.0, 3.0});
  param::_mesa_rim_width = g.pick({.2, .5, .05});
  param::_airfoil_size = g.pick({2.0, 1.0}); param::_airfoil_thickness = g.pick({.05, .1}); param::_airfoil_camber = g.pick({.1, 0.0, .2});
  param::_airfoil_anchor_x = g.real(-1, 1); param::_airfoil_anchor_y = g.real(-1, 1); param::_airfoil_attack_angle = g.pick({0.0, 10.0, -30.0, 90.0});
  set_str(param::_density_profile, g.pick({"parabolic", "constant", "mesa"}));
}
static std::string gen_force(Gen & g) {
  std::vector<std::string> all = {"spherical wall", "gravity", "poison", "spherical density support", "walls:"};
  if(D > 1) { all.push_back("airfoil"); all.push_back("orbit"); }
  std::string s = g.pick(all);
  if(s == "walls:") { int n = 1 + (int)g.u(D); int f = (int)g.u(D); for(int i = 0; i < n; ++i) s += (char)('x' + (f + i) % D); }
  if(g.u(4) == 0) for(char & c : s) if(g.flip()) c = toupper(c);
  return s;
}
static point_t gen_pos(Gen & g, const std::vector<std::string> & fs) {
  point_t x;
  std::string s = low(g.pick(fs));
  if(s == "airfoil") { // near the foil
    L al = param::airfoil_attack_angle * M_PI / 180.0L, X = param::airfoil_size * g.real(-.05, 1.1), Y = param::airfoil_thickness * g.real(-6, 6) * g.unit();
    x[0] = param::airfoil_anchor_x + X * cosl(al) - Y * sinl(al);
    if(D > 1) x[1] = param::airfoil_anchor_y + X * sinl(al) + Y * cosl(al);
    for(int d = 2; d < D; ++d) x[d] = g.real(-1, 1);
    return x;
  }
  double sc = s == "spherical wall" || s == "spherical density support" ? param::sphere_radius * 1.5 / std::sqrt((double)D) : g.pick({1.0, 5.0, .2, 0.0});
  for(int d = 0; d < D; ++d) x[d] = sc * g.real(-1, 1);
  return x;
}
PROPERTY_ISOLATED(force_is_gradient, 6000, 300000) {
  gen_force_params(g);
  int n = 1 + (int)g.u(4);
  std::vector<std::string> fs;
  for(int i = 0; i < n; ++i) fs.push_back(gen_force(g));
  std::string list;
  for(auto & s : fs) list += (list.empty() ? "" : ",") + s;
  if(g.u(6) == 0) external_force::select(gen_force(g)); // an earlier choice is replaced
  external_force::select(list);
  g.note("\"%s\" %s ", list.c_str(), (const char *)param::density_profile);
  for(int rep = 0; rep < 6; ++rep) {
    body b = some_body(g);
    b.set_coordinates(gen_pos(g, fs));
    point_t x = b.coordinates();
    Du X[3];
    for(int d = 0; d < D; ++d) { X[d] = Du(x[d]); X[d].d[d] = 1; }
    Du tot(0);
    L mag = 0, gm = 0;
    bool judge = true;
    for(auto & s : fs) {
      Du p = potential_of(s, X, judge);
      tot = tot + p; mag += fabsl(p.v);
      for(int d = 0; d < D; ++d) gm += fabsl(p.d[d]);
      if(p.v != 0) g.label(low(s).substr(0, 5) == "walls" ? "walls" : low(s));
    }
    if(!judge) continue;
    // cancellation in the distance to a wall limits the relative accuracy
    L ex = 0, eg = 0;
    { Du Y[3]; bool j = true; for(int k = 0; k < D; ++k) for(int sg = -1; sg <= 1; sg += 2) { for(int d = 0; d < D; ++d) Y[d] = X[d]; Y[k].v += sg * 3e-15L * (1 + fabsl(X[k].v) + param::sphere_radius + param::box_length + param::box_width + param::box_height);
        Du t(0); for(auto & s : fs) t = t + potential_of(s, Y, j); ex = std::max(ex, fabsl(t.v - tot.v)); for(int d = 0; d < D; ++d) eg = std::max(eg, fabsl(t.d[d] - tot.d[d])); } if(!j) continue; }
    body o = b;
    point_t a = external_force::acceleration(b);
    double phi = external_force::potential(x);
    unchanged(g, "acceleration", o, b, [](body &, body &) {});
    g.note("at %g,%g,%g; ", x[0], D > 1 ? x[1] : 0.0, D > 2 ? x[D - 1] : 0.0);
    g.nontrivial(gm > 0);
    PBT_CHECK(g, fabsl(phi - tot.v) <= 1e-11L * mag + 4 * ex, "potential is %.15g, should be %.15Lg", phi, tot.v);
    for(int d = 0; d < D; ++d) PBT_CHECK(g, fabsl(a[d] + tot.d[d]) <= 1e-10L * gm + 4 * eg, "acceleration %d is %.15g, minus the slope of the potential is %.15Lg", d, a[d], -tot.d[d]);
  }
}
PROPERTY_ISOLATED(force_sum, 3000, 150000) { // any order, same sum; "none" is none
  gen_force_params(g);
  int n = 2 + (int)g.u(4);
  std::vector<std::string> fs;
  for(int i = 0; i < n; ++i) fs.push_back(gen_force(g));
  auto join = [](const std::vector<std::string> & v) { std::string s; for(auto & x : v) s += (s.empty() ? "" : ",") + x; return s; };
  g.note("\"%s\"", join(fs).c_str());
  body b = some_body(g);
  b.set_coordinates(gen_pos(g, fs));
  bool judge = true;
  { Du X[3]; for(int d = 0; d < D; ++d) X[d] = Du(b.coordinates()[d]); for(auto & s : fs) potential_of(s, X, judge); }
  L sum[3] = {0, 0, 0}, mag = 0, phi = 0, pm = 0;
  for(auto & s : fs) {
    external_force::select(s);
    point_t a = external_force::acceleration(b);
    double p = external_force::potential(b.coordinates());
    phi += p; pm += fabsl(p);
    for(int d = 0; d < D; ++d) { sum[d] += a[d]; mag += fabsl(a[d]); }
  }
  g.nontrivial(mag > 0);
  if(!(mag < INFINITY && pm < INFINITY)) g.discard();
  for(int k = 0; k < 3; ++k) {
    external_force::select(join(fs));
    point_t a = external_force::acceleration(b);
    NEAR(external_force::potential(b.coordinates()), phi, 1e-14L * pm, "potential of the list");
    for(int d = 0; d < D; ++d) NEAR(a[d], sum[d], 1e-14L * mag, "acceleration of the list");
    std::swap(fs[g.u(n)], fs[g.u(n)]);
  }
  external_force::select(g.pick({"none", "zero", "None"}));
  point_t a = external_force::acceleration(b);
  for(int d = 0; d < D; ++d) PBT_CHECK(g, a[d] == 0, "acceleration without external force");
  PBT_CHECK(g, external_force::potential(b.coordinates()) == 0, "potential without external force");
}
PROPERTY(force_unknown, 4000, 100000) {
  std::vector<std::string> fs;
  int n = 1 + (int)g.u(3);
  for(int i = 0; i < n; ++i) fs.push_back(gen_force(g));
  int k = (int)g.u(n);
  std::string bad = fs[k];
  if(low(bad).substr(0, 6) == "walls:") bad = "walls:" + std::string(1, (char)('a' + g.u(20)));
  else switch(g.u(4)) { case 0: bad += "x"; break; case 1: bad = bad.substr(1); break; case 2: bad = ""; break; default: bad[g.u(bad.size())] = '#'; }
  fs[k] = bad;
  std::string list;
  for(auto & s : fs) list += (&s == &fs[0] ? "" : ",") + s;
  g.note("\"%s\"", list.c_str());
  g.nontrivial(n > 1);
  bool thrown = false;
  try { external_force::select(list); } catch(std::exception &) { thrown = true; }
  PBT_CHECK(g, thrown, "unknown external force in \"%s\" is accepted", list.c_str());
}
PROPERTY(drag, 20000, 500000) { // opposes the motion; power of the drag equals the loss of energy
  body b = some_body(g, 1, g.pick({1.0, 1e3}));
  param::_relaxation_beta = g.pick({1e-6, 1.0, 0.0}); param::_relaxation_gamma = g.pick({0.0, .5});
  body o = b;
  L v2 = 0;
  for(int d = 0; d < D; ++d) v2 += (L)b.getVelocity()[d] * b.getVelocity()[d];
  L f = param::relaxation_beta + param::relaxation_gamma * v2;
  g.nontrivial(f != 0);
  g.note("beta=%g gamma=%g v2=%Lg", (double)param::relaxation_beta, (double)param::relaxation_gamma, v2);
  physics::add_drag_acceleration(b);
  for(int d = 0; d < D; ++d) NEAR(b.getAcceleration()[d], o.getAcceleration()[d] - f * o.getVelocity()[d], 1e-14L * (1 + fabsl(f * o.getVelocity()[d])), "acceleration with drag");
  unchanged(g, "add_drag_acceleration", o, b, [](body & x, body & y) { x.setAcceleration(y.getAcceleration()); });
  o = b;
  physics::add_drag_dedt(b);
  NEAR(b.getDedt(), o.getDedt() - f * v2, 1e-14L * (fabsl(o.getDedt()) + f * v2), "energy rate with drag");
  unchanged(g, "add_drag_dedt", o, b, [](body & x, body & y) { x.setDedt(y.getDedt()); });
}

// ---------------------------------------------------------------- C23 -------
struct Box { double l[3]; bool per[3]; };
static Box gen_box(Gen & g) {
  Box b;
  for(double & x : b.l) x = g.pick({1.0, 3.0, .1, 1e5, 2.0});
  if(g.flip()) b.l[1] = b.l[2] = b.l[0];
  for(bool & p : b.per) p = g.u(3) > 0;
  bool any = false;
  for(int d = 0; d < D; ++d) any = any || b.per[d];
  if(!any) b.per[g.u(D)] = true;
  param::_box_length = b.l[0]; param::_box_width = b.l[1]; param::_box_height = b.l[2];
  param::_periodic_boundary_x = b.per[0]; param::_periodic_boundary_y = b.per[1]; param::_periodic_boundary_z = b.per[2];
  g.note("box %g,%g,%g periodic %d%d%d ", b.l[0], b.l[1], b.l[2], b.per[0], b.per[1], b.per[2]);
  return b;
}
PROPERTY(wrap_and_images, 12000, 1200000) {
  Box q = gen_box(g);
  int n = 1 + (int)g.u(6), rounds = 1 + (int)g.u(3);
  double lmin = 1e300;
  for(int d = 0; d < D; ++d) if(q.per[d]) lmin = std::min(lmin, q.l[d]);
  double halo = lmin * g.pick({.1, .3, .49, .01, .0});
  pbt::Rng r(g.u(1u << 30));
  std::vector<std::vector<body>> loc(n);
  size_t N = 0;
  for(auto & l : loc) { int m = 1 + (int)r.below(12); for(int i = 0; i < m; ++i) { body b; fill_attrs(b, N, 5); b.setType(NORMAL); b.set_id(N++); b.set_mass(1 + b.id());
    point_t x; for(int d = 0; d < D; ++d) { x[d] = q.l[d] * (r.unit() - .5); int k = (int)r.below(12); if(k == 0) x[d] = q.l[d] * .5; if(k == 1) x[d] = -q.l[d] * .5; if(k == 2) x[d] *= .02; if(k == 3) x[d] = q.l[d] * (.5 - 1e-3); } b.set_coordinates(x); l.push_back(b); } }
  auto sch = mock::gen_sched(g);
  g.note("ranks=%d halo=%g n=%zu rounds=%d ", n, halo, N, rounds);
  size_t images = 0, corners = 0;
  for(int rd = 0; rd < rounds; ++rd) {
    // move by less than one box length; non-periodic axes freely
    for(auto & l : loc) for(auto & b : l) if(r.below(2)) { point_t x = b.coordinates(); for(int d = 0; d < D; ++d) if(r.below(2)) x[d] += q.l[d] * (2 * r.unit() - 1) * .7; b.set_coordinates(x); }
    auto before = loc;
    bool first = rd == 0;
    mock::run(n, sch.policy, sch.seed + rd, [&](int k) {
      boundary::pboundary_generate(loc[k], halo);
    });
    std::set<size_t> ids;
    size_t total = 0;
    for(int k = 0; k < n; ++k) {
      size_t m = before[k].size();
      PBT_CHECK(g, loc[k].size() >= m, "rank %d: particles vanished", k);
      std::map<double, std::vector<body>> wall; // by mass
      std::map<double, std::vector<body>> norm;
      for(auto & b : loc[k]) { (b.getType() == WALL ? wall : norm)[b.mass()].push_back(b); ++total; PBT_CHECK(g, ids.insert(b.id()).second, "round %d: id %zu is used twice", rd, (size_t)b.id()); }
      for(auto & o : before[k]) {
        auto & v = norm[o.mass()];
        PBT_CHECK(g, v.size() == 1, "round %d rank %d: particle %zu is there %zu times", rd, k, (size_t)o.id(), v.size());
        body & b = v[0];
        unchanged(g, "pboundary_generate", o, b, [](body & x, body & y) { x.set_coordinates(y.coordinates()); });
        std::vector<int> side(D, 0), maybe(D, 0);
        for(int d = 0; d < D; ++d) {
          double x = b.coordinates()[d], y = o.coordinates()[d], h = q.l[d] / 2;
          if(!q.per[d]) { PBT_CHECK(g, x == y, "round %d: particle %zu moved from %.17g to %.17g along the open axis %d", rd, (size_t)o.id(), y, x, d); continue; }
          PBT_CHECK(g, fabs(x) <= h * (1 + 1e-15), "round %d: particle %zu is at %.17g outside of the box, half length %g, axis %d", rd, (size_t)o.id(), x, h, d);
          double want = y > h ? y - q.l[d] : y <= -h ? y + q.l[d] : y;
          PBT_CHECK(g, fabs(x - want) <= 4e-16 * q.l[d], "round %d: particle %zu went from %.17g to %.17g, axis %d", rd, (size_t)o.id(), y, x, d);
          if(fabs(fabs(x) + halo - h) <= 1e-14 * q.l[d]) maybe[d] = 1; // on the edge of the halo
          side[d] = x + halo > h ? -1 : x - halo <= -h ? 1 : 0;
        }
        bool unclear = false;
        for(int m : maybe) unclear = unclear || m;
        // every non-empty set of axes near an edge
        std::vector<std::vector<double>> want;
        for(int s = 1; s < (1 << D); ++s) {
          bool ok = true;
          std::vector<double> x(D);
          for(int d = 0; d < D; ++d) { x[d] = b.coordinates()[d]; if(s >> d & 1) { ok = ok && side[d]; x[d] += side[d] * q.l[d]; } }
          if(ok) { want.push_back(x); ++images; if(s & (s - 1)) ++corners; }
        }
        if(unclear) continue;
        auto & w = wall[o.mass()];
        PBT_CHECK(g, w.size() == want.size(), "round %d rank %d: particle at %.17g,%.17g,%.17g has %zu images instead of %zu", rd, k, b.coordinates()[0], D > 1 ? b.coordinates()[1] : 0.0, D > 2 ? b.coordinates()[D - 1] : 0.0, w.size(), want.size());
        std::vector<bool> used(w.size());
        for(auto & x : want) {
          bool hit = false;
          for(size_t i = 0; i < w.size() && !hit; ++i) if(!used[i]) {
            bool same = true;
            for(int d = 0; d < D; ++d) same = same && fabs(w[i].coordinates()[d] - x[d]) <= 1e-14 * q.l[d] + 1e-15 * fabs(x[d]);
            if(same) { used[i] = hit = true; unchanged(g, "image", b, w[i], [](body & a, body & c) { a.set_coordinates(c.coordinates()); a.setType(c.getType()); a.set_id(c.id()); }); }
          }
          PBT_CHECK(g, hit, "round %d rank %d: image at %.17g,%.17g,%.17g is missing", rd, k, x[0], D > 1 ? x[1] : 0.0, D > 2 ? x[D - 1] : 0.0);
        }
      }
      PBT_CHECK(g, norm.size() == m, "round %d rank %d: %zu particles, had %zu", rd, k, norm.size(), m);
    }
    PBT_CHECK(g, ids.empty() || *ids.rbegin() == total - 1, "round %d: identifiers are not consecutive", rd);
    (void)first;
    auto with = loc;
    mock::run(n, sch.policy, sch.seed + rd, [&](int k) { boundary::pboundary_clean(loc[k]); });
    for(int k = 0; k < n; ++k) {
      std::vector<body> keep;
      for(auto & b : with[k]) if(b.getType() != WALL) keep.push_back(b);
      PBT_CHECK(g, keep.size() == loc[k].size(), "round %d rank %d: %zu particles after removing the images, should be %zu", rd, k, loc[k].size(), keep.size());
      for(size_t i = 0; i < keep.size(); ++i) unchanged(g, "pboundary_clean", keep[i], loc[k][i], [](body &, body &) {});
    }
  }
  g.nontrivial(images > 0);
  if(corners) g.label("corner images");
}
// whole domain updates: every particle sees its periodic neighbours
PROPERTY(periodic_neighbours, 1500, 150000) {
  Box q = gen_box(g);
  for(int d = 0; d < D; ++d) q.l[d] = q.l[0];
  param::_box_width = param::_box_height = q.l[0];
  double Lx = q.l[0];
  int n = g.pick({1, 1, 2, 3, 4, 5});
  size_t N = 4 + n * 3 + g.u(40);
  double hmax = Lx * g.pick({.05, .15, .19, .02});
  pbt::Rng r(g.u(1u << 30));
  std::vector<body> all;
  std::set<std::vector<long>> used;
  const double G = 65536;
  for(size_t i = 0; i < N; ++i) {
    body b;
    fill_attrs(b, i, 9);
    point_t x;
    std::vector<long> k;
    do { k.clear(); for(int d = 0; d < D; ++d) k.push_back(r.below((uint64_t)G - 2) + 1); } while(!used.insert(k).second);
    for(int d = 0; d < D; ++d) x[d] = Lx * (k[d] / G - .5);
    b.set_coordinates(x); b.set_mass(1 + i); b.set_id(i); b.set_radius(hmax * (.3 + .7 * r.unit())); b.setType(NORMAL); b.set_key(key_type(0));
    all.push_back(b);
  }
  all[0].set_radius(hmax);
  auto parts = deal(g, all, n);
  auto sch = mock::gen_sched(g);
  int sweeps = 1 + (int)g.u(3);
  g.note("ranks=%d n=%zu hmax=%g sweeps=%d", n, N, hmax, sweeps);
  g.nontrivial(n > 1);
  g.label("ranks" + std::to_string(n));
  std::vector<std::map<int, std::vector<std::pair<int, point_t>>>> seen(n);
  std::vector<std::vector<body>> fin(n);
  mock::run(n, sch.policy, sch.seed, [&](int k) {
    System bs;
    bs.getLocalbodies() = parts[k];
    for(int s = 0; s < sweeps; ++s) {
      bs.update_iteration();
      seen[k].clear();
      bs.apply_in_smoothinglength([&](body & b, std::vector<body *> & nb) {
        if(b.getType() == WALL) return;
        auto & v = seen[k][(int)b.mass()];
        v.emplace_back(0, b.coordinates());
        for(auto * o : nb) v.emplace_back((int)o->mass(), o->coordinates());
      });
    }
    fin[k] = bs.getLocalbodies();
  });
  std::map<int, const std::vector<std::pair<int, point_t>> *> by;
  for(auto & s : seen) for(auto & kv : s) PBT_CHECK(g, by.emplace(kv.first, &kv.second).second, "particle %d is on two ranks", kv.first);
  PBT_CHECK(g, by.size() == N, "%zu of %zu particles after the updates", by.size(), N);
  for(auto & a : all) {
    auto & v = *by[(int)a.mass()];
    for(int d = 0; d < D; ++d) PBT_CHECK(g, v[0].second[d] == a.coordinates()[d], "particle moved");
    std::map<int, int> got;
    for(size_t i = 1; i < v.size(); ++i) { double dd = std::sqrt(dist2(v[i].second, a.coordinates())); const body & o = all[v[i].first - 1]; if(dd < .5 * (a.radius() + o.radius())) got[v[i].first]++; }
    for(auto & o : all) {
      int want = 0;
      bool edge = false;
      for(int s = 0; s < (D == 1 ? 3 : D == 2 ? 9 : 27); ++s) {
        int t = s; L dd = 0; bool ok = true;
        for(int d = 0; d < D; ++d) { int m = t % 3 - 1; t /= 3; if(m && !q.per[d]) ok = false; L x = (L)o.coordinates()[d] + m * (L)Lx - a.coordinates()[d]; dd += x * x; }
        if(!ok) continue;
        dd = sqrtl(dd); L h = .5L * ((L)a.radius() + o.radius());
        if(fabsl(dd - h) < 1e-10L * Lx) edge = true;
        if(dd < h) ++want;
      }
      if(!edge) PBT_CHECK(g, got[(int)o.mass()] == want, "particle %d sees particle %d %d times within the support, periodic distance says %d", (int)a.mass() - 1, (int)o.mass() - 1, got[(int)o.mass()], want);
    }
  }
}
