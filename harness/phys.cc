// C15-C19: density, forces, energy rates, viscosity and time step against
// long-double pair sums, conservation laws and symmetries.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <cassert>
#include <mpi.h>
#include "mockmpi.h"
#include "bodies_system.h"
#include "default_physics.h"
#include "analysis.h"
#include "pbt.h"
#include "cloud.h"
using pbt::Gen;
typedef long double L;
static const int D = gdimension;
using System = body_system<double, gdimension>;

struct V { L x[3] = {0, 0, 0}; };
static V vec(const point_t & p) { V v; for(int d = 0; d < D; ++d) v.x[d] = p[d]; return v; }
static V operator-(V a, V b) { for(int d = 0; d < 3; ++d) a.x[d] -= b.x[d]; return a; }
static V operator+(V a, V b) { for(int d = 0; d < 3; ++d) a.x[d] += b.x[d]; return a; }
static V operator*(L s, V a) { for(int d = 0; d < 3; ++d) a.x[d] *= s; return a; }
static L dot(const V & a, const V & b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static L mag(const V & a) { return sqrtl(dot(a, a)); }

static const param::sph_kernel_keyword_enum KERN[] = {param::cubic_spline, param::quintic_spline, param::wendland_c2, param::wendland_c4, param::wendland_c6, param::gaussian, param::super_gaussian, param::sinc_ker};
static const char * KN[] = {"cubic_spline", "quintic_spline", "wendland_c2", "wendland_c4", "wendland_c6", "gaussian", "super_gaussian", "sinc_ker"};

struct Cfg { int k; bool cullen; };
static Cfg gen_cfg(Gen & g, bool smooth = false) {
  Cfg c;
  c.k = smooth ? (int)g.u(5) : (int)g.u(8);
  param::_sph_kernel = KERN[c.k];
  if(c.k == 7) param::_sph_sinc_index = (double)g.i(3, 8);
  kernels::select();
  c.cullen = g.flip();
  param::_sph_viscosity = c.cullen ? param::visc_cullen : param::visc_constant;
  viscosity::select();
  param::_sph_viscosity_alpha = g.pick({1.0, 0.0, 0.5, 2.0});
  param::_sph_viscosity_beta = g.pick({2.0, 0.0, 1.0, 4.0});
  param::_sph_viscosity_epsilon = g.pick({0.01, 0.0, 0.1});
  param::_sph_viscosity_alpha_max = g.pick({2.0, 1.0, 0.5});
  param::_sph_viscosity_l = g.pick({0.05, 0.1});
  param::_sph_viscosity_delta = g.pick({0.05, 0.25});
  param::_relaxation_steps = 0;
  param::_evolve_internal_energy = true;
  param::_thermokinetic_formulation = false;
  physics::iteration = 0;
  physics::dt = 0.01;
  external_force::select("none");
  g.note("%dD %s %s alpha=%g beta=%g eps=%g ", D, KN[c.k], c.cullen ? "cullen" : "constant", (double)param::sph_viscosity_alpha, (double)param::sph_viscosity_beta, (double)param::sph_viscosity_epsilon);
  g.label(KN[c.k]); g.label(c.cullen ? "cullen" : "constant");
  return c;
}

struct State { std::vector<body> p; double len, vel; };
//! a closed set of particles with every quantity that enters the rates
static State gen_state(Gen & g, int nmax, bool same_half = false) {
  State s;
  int n = (int)g.size(1, nmax);
  s.len = g.pick({1.0, 1e-6, 1e9, 3.0});
  s.vel = g.pick({1.0, 0.0, 1e-5, 1e7});
  int hk = g.u(4), pk = g.u(4);
  double sep = s.len / std::pow((double)n, 1.0 / D), hf = g.pick({2.5, 1.0, 6.0, 0.2});
  bool half = !same_half && g.flip();
  double mscale = g.pick({1.0, 1e-20, 1e30}), cscale = g.pick({1.0, 1e5, 1e-3});
  pbt::Rng r(g.u(1u << 30));
  for(int i = 0; i < n; ++i) {
    body b;
    fill_attrs(b, i, r.below(1000));
    point_t x, v, w;
    for(int d = 0; d < D; ++d) {
      x[d] = s.len * (pk == 3 ? 1e-3 * std::floor(r.unit() * 5) : r.unit());
      v[d] = s.vel * (2 * r.unit() - 1);
      w[d] = v[d] + (half ? .3 * s.vel * (2 * r.unit() - 1) : 0);
    }
    if(pk == 2 && i && r.below(4) == 0) { x = s.p[r.below(i)].coordinates(); for(int d = 0; d < D; ++d) x[d] *= 1 + 1e-6 * r.unit(); } // close pairs
    if(pk == 1 && i && r.below(4) == 0) x = s.p[r.below(i)].coordinates();                                                               // coincident
    double h = sep * hf;
    if(hk == 1) h *= .5 + r.unit();
    if(hk == 2) h *= std::pow(10., 2 * r.unit() - 1);
    b.set_coordinates(x); b.setVelocity(v); b.setVelocityhalf(w);
    b.set_radius(h);
    b.set_mass(mscale * (.1 + 9.9 * r.unit()));
    b.setDensity(b.mass() / std::pow(sep, D) * (.1 + 2 * r.unit()));
    b.setSoundspeed(cscale * (.1 + r.unit()));
    b.setPressure(r.below(8) ? b.getDensity() * b.getSoundspeed() * b.getSoundspeed() / 1.4 : 0);
    b.setAlpha(r.unit() * param::sph_viscosity_alpha_max);
    b.setInternalenergy(cscale * cscale * (.01 + r.unit()));
    b.setDivergenceV((r.unit() - .5) * (s.vel + 1e-3) / s.len);
    b.set_id(i); b.setType(NORMAL); b.set_key(key_type(0));
    s.p.push_back(b);
  }
  g.note("n=%d len=%g vel=%g hk=%d hf=%g pk=%d half=%d m=%g c=%g ", n, s.len, s.vel, hk, hf, pk, half, mscale, cscale);
  return s;
}
static std::vector<body *> all_of(std::vector<body> & p) { std::vector<body *> n; for(auto & b : p) n.push_back(&b); return n; }
// the value of a discontinuous kernel exactly on its edge is not judged
static bool on_edge(const std::vector<body> & p) {
  for(auto & a : p) for(auto & b : p) {
    double q = std::sqrt(dist2(a.coordinates(), b.coordinates())) / (.5 * (a.radius() + b.radius()));
    if(std::fabs(q - 1) < 1e-9) return true;
  }
  return false;
}

// ---- reference rates -------------------------------------------------------
struct Pair { V grad; L pi, pimax, mu; };
static Pair pair_of(const Cfg & c, const body & a, const body & b) {
  Pair r;
  point_t xab = a.coordinates() - b.coordinates();
  double h = .5 * (a.radius() + b.radius());
  r.grad = vec(kernels::sph_kernel_gradient(xab, h));
  V x = vec(a.coordinates()) - vec(b.coordinates()), v = vec(a.getVelocityhalf()) - vec(b.getVelocityhalf());
  L vx = dot(v, x), den = dot(x, x) + (L)param::sph_viscosity_epsilon * h * h;
  L vm = mag(vec(a.getVelocityhalf())) + mag(vec(b.getVelocityhalf()));
  r.mu = vx < 0 ? h * vx / den : 0;
  L mumax = den > 0 ? h * vm * mag(x) / den : 0;
  L rho = .5L * ((L)a.getDensity() + b.getDensity()), cs = .5L * ((L)a.getSoundspeed() + b.getSoundspeed()), al = .5L * ((L)a.getAlpha() + b.getAlpha());
  if(c.cullen) { r.pi = -al * (cs - 2 * r.mu) * r.mu / rho; r.pimax = al * (cs + 2 * mumax) * mumax / rho; }
  else { r.pi = (-(L)param::sph_viscosity_alpha * cs + (L)param::sph_viscosity_beta * r.mu) * r.mu / rho;
         r.pimax = ((L)param::sph_viscosity_alpha * cs + (L)param::sph_viscosity_beta * mumax) * mumax / rho; }
  return r;
}
struct Rates { V acc; L accb = 0, dudt = 0, dudtb = 0, dedt = 0, dedtb = 0, visc = 0, viscb = 0, rho = 0, rhob = 0, divv = 0, divvb = 0; };
static Rates rates_of(const Cfg & c, const body & a, const std::vector<body *> & nbs) {
  Rates r;
  L pa = (L)a.getPressure() / ((L)a.getDensity() * a.getDensity());
  V va = vec(a.getVelocity());
  for(auto * b : nbs) {
    double dx = flecsi::distance(a.coordinates(), b->coordinates());
    L w = kernels::sph_kernel_function(dx, .5 * (a.radius() + b->radius()));
    r.rho += b->mass() * w; r.rhob += b->mass() * fabsl(w);
    if(a.coordinates() == b->coordinates()) continue;
    Pair q = pair_of(c, a, *b);
    L m = b->mass(), pb = (L)b->getPressure() / ((L)b->getDensity() * b->getDensity());
    V vb = vec(b->getVelocity()), vab = va - vb;
    L G = mag(q.grad), vm = mag(va) + mag(vb);
    r.acc = r.acc - (m * (pa + pb + q.pi)) * q.grad;
    r.accb += m * (fabsl(pa) + fabsl(pb) + q.pimax) * G;
    r.visc += .5L * m * q.pi * dot(vab, q.grad);
    r.viscb += .5L * m * q.pimax * vm * G;
    r.dudt += m * (pa + .5L * q.pi) * dot(vab, q.grad);
    r.dudtb += m * (fabsl(pa) + .5L * q.pimax) * vm * G;
    r.dedt -= m * (pa * dot(vb, q.grad) + pb * dot(va, q.grad) + .5L * q.pi * (dot(va, q.grad) + dot(vb, q.grad)));
    r.dedtb += m * (fabsl(pa) + fabsl(pb) + q.pimax) * vm * G;
    r.divv -= m / a.getDensity() * dot(vab, q.grad);
    r.divvb += m / a.getDensity() * vm * G;
  }
  return r;
}
static const L REL = 4e-13L; // times the sum of the magnitudes of the terms
static void near_v(Gen & g, const char * what, const point_t & got, const V & want, L bound, L rel = REL) {
  for(int d = 0; d < D; ++d) PBT_CHECK(g, fabsl((L)got[d] - want.x[d]) <= rel * bound + 1e-290L, "%s: component %d is %.17g, should be %.17Lg (terms add up to %.3Lg)", what, d, got[d], want.x[d], bound);
}
static void near_s(Gen & g, const char * what, double got, L want, L bound, L rel = REL) {
  PBT_CHECK(g, fabsl((L)got - want) <= rel * bound + 1e-290L, "%s is %.17g, should be %.17Lg (terms add up to %.3Lg)", what, got, want, bound);
}
//! quantities not computed by the step must keep their value
static void unchanged(Gen & g, const char * what, body & before, body & after, std::function<void(body &, body &)> copy) {
  body x = before;
  copy(x, after);
  auto p = attrs(x), q = attrs(after);
  for(size_t i = 0; i < p.size(); ++i) PBT_CHECK(g, memcmp(&p[i], &q[i], 8) == 0, "%s changed attribute %zu of the particle from %.17g to %.17g", what, i, p[i], q[i]);
}
static bool informative(const State & s) {
  for(auto & a : s.p) for(auto & b : s.p) if(a.id() != b.id() && dist2(a.coordinates(), b.coordinates()) < .25 * (a.radius() + b.radius()) * (a.radius() + b.radius())) return true;
  return false;
}

// ---------------------------------------------------------------- C15 -------
PROPERTY(density, 40000, 4000000) {
  Cfg c = gen_cfg(g);
  State s = gen_state(g, 40);
  if(on_edge(s.p)) g.discard();
  g.nontrivial(informative(s));
  auto before = s.p;
  auto nbs = all_of(s.p);
  if(g.flip()) std::reverse(nbs.begin(), nbs.end());
  for(auto & b : s.p) {
    Rates r = rates_of(c, b, nbs);
    if(c.k == 6 && r.rho <= 1e-12L * r.rhob) continue; // super gaussian: partly negative
    physics::compute_density(b, nbs);
    near_s(g, "density", b.getDensity(), r.rho, r.rhob);
    PBT_CHECK(g, b.getDensity() > 0, "density %g", b.getDensity());
    unchanged(g, "compute_density", before[b.id()], b, [](body & x, body & y) { x.setDensity(y.getDensity()); });
    // self contribution
    if(c.k != 6) PBT_CHECK(g, b.getDensity() >= b.mass() * kernels::sph_kernel_function(0, b.radius()) * (1 - 1e-13), "density %g is below the particle's own part", b.getDensity());
  }
}
PROPERTY(density_order, 20000, 2000000) { // exchange, translation, scaling
  gen_cfg(g, true);
  State s = gen_state(g, 40);
  g.nontrivial(informative(s));
  int mode = g.u(4);
  g.note("relation %d", mode);
  auto t = s.p;
  double f = 1, df = 1, tol = 1e-12;
  if(mode == 0) std::reverse(t.begin(), t.end());
  if(mode == 1) { f = g.pick({2.0, 0.5, 1024.0}); df = std::pow(f, -D); for(auto & b : t) { b.set_coordinates(b.coordinates() * f); b.set_radius(b.radius() * f); } }
  if(mode == 2) { df = 4; for(auto & b : t) b.set_mass(b.mass() * 4); }
  if(mode == 3) for(auto & b : t) { point_t x = b.coordinates(); for(int d = 0; d < D; ++d) x[d] = -b.coordinates()[(d + 1) % D]; b.set_coordinates(x); }
  auto n1 = all_of(s.p), n2 = all_of(t);
  for(auto & b : s.p) physics::compute_density(b, n1);
  for(auto & b : t) physics::compute_density(b, n2);
  std::map<size_t, double> want;
  for(auto & b : s.p) want[b.id()] = b.getDensity();
  for(auto & b : t) PBT_CHECK(g, std::fabs(b.getDensity() - want[b.id()] * df) <= tol * want[b.id()] * df, "density %.17g, by symmetry %.17g", b.getDensity(), want[b.id()] * df);
}
PROPERTY(smoothing_length, 20000, 2000000) {
  gen_cfg(g);
  param::_sph_eta = g.pick({1.5, 1.2, 1.9, 1.0});
  int n = 1 + (int)g.u(6);
  State s = gen_state(g, 60);
  if((int)s.p.size() < n) g.discard();
  g.nontrivial(s.p.size() > 1);
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, s.p, n);
  auto before = s.p;
  bool avg = g.flip();
  g.note("ranks=%d eta=%g average=%d", n, (double)param::sph_eta, avg);
  g.label(avg ? "average" : "individual");
  auto out = parts;
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    if(avg) physics::compute_average_smoothinglength(out[r], (int64_t)before.size());
    else physics::compute_smoothinglength(out[r]);
  });
  L sum = 0;
  auto hof = [&](const body & b) { return param::sph_eta * kernels::kernel_width * powl((L)b.mass() / b.getDensity(), 1.0L / D); };
  for(auto & b : before) sum += hof(b);
  for(auto & v : out) for(auto & b : v) {
    L want = avg ? sum / before.size() : hof(before[b.id()]);
    PBT_CHECK(g, fabsl(b.radius() - want) <= 1e-13L * want, "smoothing length %.17g, should be %.17Lg", b.radius(), want);
    unchanged(g, "compute_smoothinglength", before[b.id()], b, [](body & x, body & y) { x.set_radius(y.radius()); });
  }
}

// ---------------------------------------------------------- C16 / C17 -------
PROPERTY(rates, 40000, 4000000) {
  Cfg c = gen_cfg(g);
  State s = gen_state(g, 40);
  if(on_edge(s.p)) g.discard();
  bool grav = g.chance(1, 4);
  if(grav) external_force::select("gravity");
  param::_relaxation_steps = g.pick({0, 0, 0, 5});
  physics::iteration = g.u(8);
  g.note("gravity=%d relax=%d it=%ld", grav, (int)param::relaxation_steps, (long)physics::iteration);
  g.nontrivial(informative(s) && s.vel > 0);
  auto before = s.p;
  auto nbs = all_of(s.p);
  if(g.flip()) std::reverse(nbs.begin(), nbs.end());
  for(auto & b : s.p) {
    Rates r = rates_of(c, b, nbs);
    V ext; if(grav) ext.x[D > 1 ? 1 : 0] = -param::gravity_acceleration_constant;
    V gacc = vec(b.getGAcceleration());
    body b0 = b;
    physics::compute_dedt(b, nbs);
    near_s(g, "dedt", b.getDedt(), r.dedt + dot(gacc, vec(b.getVelocity())), r.dedtb + mag(gacc) * mag(vec(b.getVelocity())));
    physics::compute_dudt(b, nbs);
    if(physics::iteration < param::relaxation_steps) PBT_CHECK(g, b.getDudt() == 0, "du/dt is %g during relaxation", b.getDudt());
    else near_s(g, "dudt", b.getDudt(), r.dudt, r.dudtb);
    physics::compute_acceleration(b, nbs);
    near_v(g, "acceleration", b.getAcceleration(), r.acc + ext, r.accb + mag(ext));
    PBT_CHECK(g, dist2(b.getGAcceleration(), point_t{}) == 0 && b.getGPotential() == 0, "gravity is not reset");
    unchanged(g, "the rates", b0, b, [](body & x, body & y) { x.setDedt(y.getDedt()); x.setDudt(y.getDudt()); x.setAcceleration(y.getAcceleration()); x.setGAcceleration(y.getGAcceleration()); x.setGPotential(y.getGPotential()); x.setSignalspeed(y.getSignalspeed()); });
  }
}
// the extra push between close pairs while the particles are being relaxed
PROPERTY(repulsion, 20000, 2000000) {
  gen_cfg(g);
  State s = gen_state(g, 20);
  L rad = param::_relaxation_repulsion_radius = g.pick({.25, 1.0, .6, 1.7, 0.0});
  L gam = param::_relaxation_repulsion_gamma = g.pick({1.0, 0.0, 1e-3, 1e4});
  g.note("radius=%Lg gamma=%Lg ", rad, gam);
  auto nbs = all_of(s.p);
  if(g.flip()) std::reverse(nbs.begin(), nbs.end());
  if(g.chance(1, 4) && nbs.size() > 1) nbs.pop_back();
  auto within = [&](const body & a, const body & b, bool & edge) {
    L r = mag(vec(a.coordinates()) - vec(b.coordinates())), h = .5L * ((L)a.radius() + b.radius()) * rad;
    if(fabsl(r - h) <= 1e-9L * h || r == 0) edge = true;
    return r < h;
  };
  bool edge = false, some = false, out = false;
  for(auto & a : s.p) for(auto * b : nbs) if(a.id() != b->id()) (within(a, *b, edge) ? some : out) = true;
  if(edge) g.discard();
  g.nontrivial(some && out && gam > 0);
  if(some) g.label("close pairs");
  for(auto & a : s.p) {
    V want; L bound = 0;
    for(auto * b : nbs) {
      if(a.id() == b->id() || !within(a, *b, edge)) continue;
      V d = vec(a.coordinates()) - vec(b->coordinates());
      L r = mag(d), f = gam * b->mass() / (r * r * r);
      want = want + f * d;
      // coordinates are rounded before they are subtracted
      bound += f * r * (1 + 1e-3L * (mag(vec(a.coordinates())) + mag(vec(b->coordinates()))) / r);
    }
    body b0 = a;
    physics::add_short_range_repulsion(a, nbs);
    near_v(g, "acceleration with repulsion", a.getAcceleration(), vec(b0.getAcceleration()) + want, mag(vec(b0.getAcceleration())) + bound);
    unchanged(g, "add_short_range_repulsion", b0, a, [](body & x, body & y) { x.setAcceleration(y.getAcceleration()); });
  }
}
PROPERTY(momentum, 30000, 3000000) {
  Cfg c = gen_cfg(g);
  State s = gen_state(g, 40);
  if(on_edge(s.p)) g.discard();
  g.nontrivial(informative(s));
  auto nbs = all_of(s.p);
  V f, t; L fb = 0, tb = 0;
  for(auto & b : s.p) {
    physics::compute_acceleration(b, nbs);
    Rates r = rates_of(c, b, nbs);
    V a = (L)b.mass() * vec(b.getAcceleration()), x = vec(b.coordinates());
    f = f + a; fb += b.mass() * r.accb;
    V q; q.x[0] = x.x[1] * a.x[2] - x.x[2] * a.x[1]; q.x[1] = x.x[2] * a.x[0] - x.x[0] * a.x[2]; q.x[2] = x.x[0] * a.x[1] - x.x[1] * a.x[0];
    t = t + q; tb += mag(x) * b.mass() * r.accb;
  }
  PBT_CHECK(g, mag(f) <= REL * fb + 1e-290L, "net force %.6Lg of pair forces of total size %.6Lg", mag(f), fb);
  PBT_CHECK(g, mag(t) <= REL * tb + 1e-290L, "net torque %.6Lg of pair torques of total size %.6Lg", mag(t), tb);
}
// internal energy from total energy, and the end of the run when there is none left
PROPERTY(recovered_energy, 20000, 2000000) {
  gen_cfg(g);
  if(g.flip()) external_force::select("gravity");
  State s = gen_state(g, 1);
  body b = s.p[0];
  L kin = .5L * dot(vec(b.getVelocity()), vec(b.getVelocity())), pot = external_force::potential(b.coordinates());
  L sc = kin + fabsl(pot);
  double e = (double)((kin + pot) + (sc + 1e-3) * g.real(-1, 1) * g.pick({1., 1e-3, 1e3, 0.}));
  L want = e - kin - pot;
  b.setTotalenergy(e);
  b.setInternalenergy(g.lreal(1e-6, 1e6));
  g.note("etot=%.17g ekin=%.17Lg epot=%.17Lg", e, kin, pot);
  if(fabsl(want) <= 1e-14L * (sc + fabsl(e)) && want != 0) g.discard();
  body b0 = b;
  if(want > 0) {
    g.label("left"); g.nontrivial();
    physics::recover_internal_energy(b);
    PBT_CHECK(g, fabsl(b.getInternalenergy() - want) <= 1e-15L * 8 * (sc + fabsl(e)), "internal energy %.17g, should be %.17Lg", b.getInternalenergy(), want);
    unchanged(g, "recover_internal_energy", b0, b, [](body & x, body & y) { x.setInternalenergy(y.getInternalenergy()); });
    return;
  }
  if(g.u(40)) g.discard(); // a process each
  g.label("used up"); g.nontrivial();
  fflush(nullptr);
  pid_t pid = fork();
  if(pid < 0) abort();
  if(pid == 0) {
    if(!freopen("/dev/null", "w", stderr)) _exit(9);
    std::cerr.setstate(std::ios::failbit);
    bool aborted = false;
    try { mock::run(1, 0, 0, [&](int) { physics::recover_internal_energy(b); }); }
    catch(pbt::Failure & f) { aborted = f.msg.find("MPI_Abort") != std::string::npos; }
    _exit(aborted ? 0 : 1);
  }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
  PBT_CHECK(g, WIFEXITED(st) && WEXITSTATUS(st) == 0, "the run goes on without internal energy (total %g, kinetic %Lg, potential %Lg)", e, kin, pot);
}
PROPERTY(energy, 30000, 3000000) {
  Cfg c = gen_cfg(g);
  State s = gen_state(g, 40);
  if(on_edge(s.p)) g.discard();
  g.nontrivial(informative(s) && s.vel > 0);
  auto nbs = all_of(s.p);
  for(auto & b : s.p) { b.setGAcceleration(0); }
  L de = 0, dt = 0, bound = 0;
  for(auto & b : s.p) {
    physics::compute_acceleration(b, nbs);
    physics::compute_dudt(b, nbs);
    physics::compute_dedt(b, nbs);
    Rates r = rates_of(c, b, nbs);
    L va = dot(vec(b.getVelocity()), vec(b.getAcceleration())), bb = r.dedtb + r.dudtb;
    PBT_CHECK(g, fabsl(va + b.getDudt() - b.getDedt()) <= REL * bb + 1e-290L, "v.a + du/dt = %.17Lg but de/dt = %.17g", va + b.getDudt(), b.getDedt());
    de += b.mass() * (va + b.getDudt()); dt += b.mass() * (L)b.getDedt(); bound += b.mass() * bb;
  }
  PBT_CHECK(g, fabsl(de) <= REL * bound + 1e-290L, "energy changes at the rate %.6Lg (terms %.6Lg)", de, bound);
  PBT_CHECK(g, fabsl(dt) <= REL * bound + 1e-290L, "sum of de/dt is %.6Lg (terms %.6Lg)", dt, bound);
}
// rotated, reflected, shifted and boosted systems evolve alike
PROPERTY(frames, 20000, 2000000) {
  Cfg c = gen_cfg(g, true);
  State s = gen_state(g, 30);
  if(s.len < 1e-3 || s.len > 1e3) g.label("scaled");
  g.nontrivial(informative(s) && s.vel > 0);
  int mode = g.u(4);
  g.note("relation %d", mode);
  auto t = s.p;
  point_t boost = {};
  if(mode == 3) for(int d = 0; d < D; ++d) boost[d] = s.vel * (double)g.i(-4, 4);
  auto turn = [&](point_t x) { // reflect or permute axes (exact)
    point_t y = x;
    if(mode == 0) for(int d = 0; d < D; ++d) y[d] = -x[(d + 1) % D];
    if(mode == 1) y[0] = -x[0];
    return y;
  };
  for(auto & b : t) { b.set_coordinates(turn(b.coordinates())); b.setVelocity(turn(b.getVelocity()) + boost); b.setVelocityhalf(turn(b.getVelocityhalf()) + boost); b.setGAcceleration(0); }
  for(auto & b : s.p) b.setGAcceleration(0);
  if(mode == 2) std::reverse(t.begin(), t.end());
  auto n1 = all_of(s.p), n2 = all_of(t);
  auto work = [&](body & b, std::vector<body *> & n) { physics::compute_dudt(b, n); physics::compute_divv(b, n); physics::compute_signalspeed(b, n); physics::compute_acceleration(b, n); };
  std::map<size_t, body> w;
  std::map<size_t, Rates> rr;
  for(auto & b : s.p) { work(b, n1); w[b.id()] = b; }
  for(auto & b : t) {
    Rates r = rates_of(c, b, n2), q = rates_of(c, s.p[b.id()], n1);
    work(b, n2);
    body & o = w[b.id()];
    near_v(g, "acceleration in the other frame", b.getAcceleration(), vec(turn(o.getAcceleration())), r.accb + q.accb, 2 * REL);
    near_s(g, "du/dt in the other frame", b.getDudt(), o.getDudt(), r.dudtb + q.dudtb, 2 * REL);
    near_s(g, "velocity divergence in the other frame", b.getDivergenceV(), o.getDivergenceV(), r.divvb + q.divvb, 2 * REL);
    if(s.p.size() > 1) near_s(g, "signal speed in the other frame", b.getSignalspeed(), o.getSignalspeed(), fabsl(o.getSignalspeed()) + 10 * s.vel, 1e-9L);
  }
}

// ---------------------------------------------------------------- C18 -------
PROPERTY(viscosity_pair, 200000, 20000000) {
  Cfg c = gen_cfg(g, true);
  double h = g.lreal(1e-8, 1e8);
  double vs = g.pick({1.0, 1e-9, 1e9});
  point_t x, v; double sep = h * g.lreal(1e-4, 1.5);
  for(int d = 0; d < D; ++d) { x[d] = sep * g.real(-1, 1); v[d] = vs * g.real(-1, 1); }
  double rho = g.lreal(1e-9, 1e9), cs = g.lreal(1e-6, 1e6), al = g.unit();
  V X = vec(x), W = vec(v);
  L vx = dot(W, X);
  g.note("h=%g sep=%g vs=%g rho=%g cs=%g al=%g v.x=%Lg", h, sep, vs, rho, cs, al, vx);
  double mu = viscosity::mu(h, v, x), mu2 = viscosity::mu(h, -1. * v, -1. * x);
  PBT_CHECK(g, mu == mu2, "mu is %.17g for the pair and %.17g for the exchanged pair", mu, mu2);
  PBT_CHECK(g, mu <= 0, "mu = %g is positive", mu);
  bool decided = fabsl(vx) > 1e-14L * mag(X) * mag(W);
  g.nontrivial(decided && vx < 0);
  if(!decided) return;
  if(vx > 0) PBT_CHECK(g, mu == 0, "mu = %g for a receding pair", mu);
  else {
    L want = h * vx / (dot(X, X) + (L)param::sph_viscosity_epsilon * h * h);
    near_s(g, "mu", mu, want, h * mag(X) * mag(W) / (dot(X, X) + (L)param::sph_viscosity_epsilon * h * h), 1e-13L);
    PBT_CHECK(g, mu < 0, "mu = %g for an approaching pair", mu);
  }
  double pi = viscosity::sph_artificial_viscosity(al, rho, cs, mu);
  L want = c.cullen ? -(L)al * (cs - 2 * (L)mu) * mu / rho : (-(L)param::sph_viscosity_alpha * cs + (L)param::sph_viscosity_beta * mu) * mu / rho;
  PBT_CHECK(g, fabsl(pi - want) <= 1e-14L * fabsl(want), "viscosity %.17g, should be %.17Lg", pi, want);
  PBT_CHECK(g, vx > 0 ? pi == 0 : pi >= 0, "viscosity %g for v.x = %Lg", pi, vx);
  if(vx < 0 && (c.cullen ? al > 0 : param::sph_viscosity_alpha + param::sph_viscosity_beta > 0)) PBT_CHECK(g, pi > 0, "no viscosity for an approaching pair");
}
PROPERTY(viscous_heating, 30000, 3000000) {
  Cfg c = gen_cfg(g, true);
  State s = gen_state(g, 40, true);
  for(auto & b : s.p) b.setPressure(0);
  auto nbs = all_of(s.p);
  bool heated = false;
  for(auto & b : s.p) {
    Rates r = rates_of(c, b, nbs);
    physics::compute_dudt(b, nbs);
    PBT_CHECK(g, b.getDudt() >= -1e-15L * r.dudtb, "viscosity cools a particle: %g", b.getDudt());
    near_s(g, "viscous heating", b.getDudt(), r.visc, r.viscb);
    heated = heated || b.getDudt() > 0;
  }
  g.nontrivial(heated);
}
PROPERTY(divergence, 30000, 3000000) {
  Cfg c = gen_cfg(g);
  State s = gen_state(g, 40);
  if(on_edge(s.p)) g.discard();
  physics::dt = g.lreal(1e-6, 10);
  if(g.chance(1, 6)) for(auto & b : s.p) if(g.chance(1, 2)) b.setDivergenceV(0); // as in the first iteration
  g.nontrivial(informative(s) && s.vel > 0);
  auto nbs = all_of(s.p);
  auto before = s.p;
  for(auto & b : s.p) {
    Rates r = rates_of(c, b, nbs);
    body b0 = b;
    physics::compute_divv(b, nbs);
    near_s(g, "velocity divergence", b.getDivergenceV(), r.divv, r.divvb);
    L dd = (r.divv - (L)b0.getDivergenceV()) / physics::dt;
    near_s(g, "its rate", b.getDdivvdt(), dd, (r.divvb + fabsl(b0.getDivergenceV())) / physics::dt);
    unchanged(g, "compute_divv", b0, b, [](body & x, body & y) { x.setDivergenceV(y.getDivergenceV()); x.setDdivvdt(y.getDdivvdt()); });
  }
}
PROPERTY(alpha_switch, 30000, 3000000) {
  Cfg c = gen_cfg(g, true);
  State s = gen_state(g, 30);
  if(on_edge(s.p)) g.discard();
  physics::dt = s.len / (s.vel + 1) * g.lreal(1e-6, 10);
  for(auto & b : s.p) b.setDdivvdt(g.real(-1, 1) * (s.vel + 1) * (s.vel + 1) / s.len / s.len);
  if(g.chance(1, 4)) for(auto & b : s.p) if(g.chance(1, 3)) b.setDivergenceV(0);
  auto nbs = all_of(s.p);
  for(auto & b : s.p) physics::compute_density(b, nbs);
  bool moved = false;
  for(auto & b : s.p) {
    body b0 = b;
    double a0 = b.getAlpha();
    viscosity::compute_alpha(b, nbs);
    double a = b.getAlpha(), xi = b.getXi();
    PBT_CHECK(g, a >= 0 && a <= std::max(a0, (double)param::sph_viscosity_alpha_max) * (1 + 1e-15), "alpha %g is outside of [0,%g]", a, (double)param::sph_viscosity_alpha_max);
    PBT_CHECK(g, xi >= 0 && xi <= 1, "limiter %g is outside of [0,1]", xi);
    // limiter and target from the pair sums
    L R = 0, vs = 0; L G[3][3] = {}, Gb = 0;
    for(auto * o : nbs) {
      double dx = flecsi::distance(b.coordinates(), o->coordinates()), hab = .5 * (b.radius() + o->radius());
      L dv = o->getDivergenceV();
      R += (dv > 0 ? 1 : dv < 0 ? -1 : 0) * (L)o->mass() * kernels::sph_kernel_function(dx, hab);
      V gr = vec(kernels::sph_kernel_gradient(b.coordinates() - o->coordinates(), hab)), dvv = vec(o->getVelocity()) - vec(b.getVelocity());
      for(int i = 0; i < D; ++i) for(int j = 0; j < D; ++j) { G[i][j] += o->mass() * dvv.x[i] * gr.x[j] / b.getDensity(); }
      Gb += o->mass() * (mag(vec(o->getVelocity())) + mag(vec(b.getVelocity()))) * mag(gr) / b.getDensity();
      if(o->coordinates() != b.coordinates() && dx < hab) {
        V x = vec(b.coordinates()) - vec(o->coordinates());
        vs = std::max(vs, std::max((L)b.getSoundspeed(), (L)o->getSoundspeed()) - std::min(-dot(dvv, x) / mag(x), 0.0L));
      }
    }
    R /= b.getDensity();
    L ss = 0, dv = b.getDivergenceV();
    for(int i = 0; i < D; ++i) for(int j = 0; j < D; ++j) { L q = .5L * (G[i][j] + G[j][i]) - (i == j ? dv / D : 0); ss += q * q; }
    L y = 2 * powl(1 - R, 4) * dv; y *= y;
    // the limiter is judged where it does not hang on cancellation
    bool firm = fabsl(1 - R) > 1e-3L && (y > 1e-12L) && (y + ss) > 1e-9L * (Gb * Gb);
    L wxi = y < 1e-16L ? 0 : y / (y + ss);
    if(firm) PBT_CHECK(g, fabsl(xi - wxi) <= 1e-7L, "limiter %.12g, should be %.12Lg", xi, wxi);
    L A = (L)xi * std::max(-(L)b0.getDdivvdt(), 0.0L);
    L al = A == 0 ? 0 : param::sph_viscosity_alpha_max * A / (param::sph_viscosity_delta * (vs / b.radius()) * (vs / b.radius()) + A);
    if(al >= a0 * (1 + 1e-10L)) { moved = true; PBT_CHECK(g, fabsl(a - al) <= 1e-8L * al, "alpha rises to %.12g, should be %.12Lg", a, al); }
    else if(al <= a0 * (1 - 1e-10L)) {
      PBT_CHECK(g, a <= a0, "alpha rises from %g to %g although the trigger asks for %Lg", a0, a, al);
      L ex = (a0 - al) * 2 * param::sph_viscosity_l * vs / b.radius() * physics::dt; // decay time h/(2 l v_sig)
      if(ex < 600) PBT_CHECK(g, fabsl(a - a0 * expl(-ex)) <= 1e-8L * a0 * expl(-ex) * (1 + ex), "alpha decays from %.12g to %.12g, should be %.12Lg", a0, a, a0 * expl(-ex));
    }
    if(dv == 0) PBT_CHECK(g, xi == 0, "limiter %g without divergence", xi);
    PBT_CHECK(g, fabsl((L)b.getTraceSS() - ss) <= 1e-9L * (Gb * Gb + dv * dv), "shear %.12g, should be %.12Lg", b.getTraceSS(), ss);
    unchanged(g, "compute_alpha", b0, b, [](body & x, body & y) { x.setAlpha(y.getAlpha()); x.setXi(y.getXi()); x.setTrigger(y.getTrigger()); x.setTraceSS(y.getTraceSS()); x.setGradV(y.getGradV()); });
  }
  g.nontrivial(moved);
}
PROPERTY(alpha_start, 5000, 200000) {
  Cfg c = gen_cfg(g);
  State s = gen_state(g, 10);
  g.nontrivial();
  for(auto & b : s.p) { viscosity::initialize_alpha(b); PBT_CHECK(g, b.getAlpha() == (c.cullen ? 0.0 : (double)param::sph_viscosity_alpha), "initial alpha %g", b.getAlpha()); }
}
PROPERTY(signal_speed, 30000, 3000000) {
  gen_cfg(g);
  State s = gen_state(g, 30);
  if(on_edge(s.p)) g.discard();
  auto nbs = all_of(s.p);
  bool any = false;
  for(auto & b : s.p) {
    L want = 0;
    for(auto * o : nbs) if(o->coordinates() != b.coordinates() && flecsi::distance(b.coordinates(), o->coordinates()) < .5 * (b.radius() + o->radius())) { // which others are found depends on the tree
      V x = vec(b.coordinates()) - vec(o->coordinates()), v = vec(b.getVelocity()) - vec(o->getVelocity());
      want = std::max(want, std::max((L)b.getSoundspeed(), (L)o->getSoundspeed()) - std::min(dot(v, x) / mag(x), 0.0L));
    }
    if(want > 0) any = true;
    body b0 = b;
    physics::compute_signalspeed(b, nbs);
    near_s(g, "signal speed", b.getSignalspeed(), want, want + 2 * s.vel, 1e-9L);
    unchanged(g, "compute_signalspeed", b0, b, [](body & x, body & y) { x.setSignalspeed(y.getSignalspeed()); });
  }
  g.nontrivial(any && s.vel > 0);
}

// ---------------------------------------------------------------- C19 -------
PROPERTY(step_of_particle, 60000, 6000000) {
  gen_cfg(g);
  param::_sph_eta = g.pick({1.5, 1.2, 1.9});
  param::_timestep_cfl_factor = g.pick({0.3, 0.1, 1.0, 0.01});
  param::_thermokinetic_formulation = g.flip();
  param::_evolve_internal_energy = !g.chance(1, 4);
  bool grav = g.flip();
  if(grav) external_force::select("gravity");
  State s = gen_state(g, 1);
  body b = s.p[0];
  auto rv = [&](double sc) { point_t p; for(int d = 0; d < D; ++d) p[d] = sc * g.real(-1, 1); return p; };
  double as = g.pick({1.0, 0.0, 1e-9, 1e9, 1e3});
  b.setAcceleration(rv(as)); b.setGAcceleration(rv(as * g.pick({0.0, 1.0, 1e-3})));
  b.setSignalspeed(g.pick({1.0, 0.0, 1e6, 1e-6}) * g.unit());
  b.setInternalenergy(g.lreal(1e-6, 1e6));
  L dx = (L)b.radius() / (param::sph_eta * kernels::kernel_width);
  L vn = mag(vec(b.getVelocity())), an = mag(vec(b.getAcceleration()) + vec(b.getGAcceleration()));
  L amax = mag(vec(b.getAcceleration())) + mag(vec(b.getGAcceleration()));
  L tv = dx / (vn + 1e-24L), ta = sqrtl(dx / (an + 1e-24L)), tc = dx / (1e-24L + (L)b.getSignalspeed() * (1 + .6L * param::sph_viscosity_alpha));
  L want = param::timestep_cfl_factor * std::min(std::min(tv, ta), tc);
  bool tk = param::evolve_internal_energy && param::thermokinetic_formulation;
  int cuts = 0;
  bool unsure = an < 1e-9L * amax;
  if(tk) {
    V v = vec(b.getVelocity());
    L gc = grav ? (L)param::gravity_acceleration_constant : 0, gr = dot(v, vec(b.getGAcceleration()));
    for(; cuts < 20; ++cuts) {
      L dp = want * gc * v.x[D > 1 ? 1 : 0] - want * gr, lim = .5L * b.getInternalenergy();
      L noise = gc * fabsl(b.coordinates()[D > 1 ? 1 : 0]) * 1e-15L + 1e-12L * (fabsl(want * gr) + fabsl(want * gc * v.x[D > 1 ? 1 : 0]));
      if(fabsl(dp - lim) <= noise) unsure = true;
      if(dp < lim) break;
      want *= .25L;
    }
    if(cuts >= 20) g.discard();
  }
  if(unsure) g.discard();
  body b0 = b;
  physics::compute_dt(b);
  g.note("v=%Lg a=%Lg dx=%Lg sig=%g tk=%d cuts=%d", vn, an, dx, b.getSignalspeed(), tk, cuts);
  g.label(tv < ta && tv < tc ? "velocity" : ta < tc ? "acceleration" : "signal");
  if(cuts) g.label("energy");
  g.nontrivial(an > 0 && vn > 0 && b.getSignalspeed() > 0);
  PBT_CHECK(g, b.getDt() > 0, "time step %g", b.getDt());
  PBT_CHECK(g, fabsl(b.getDt() - want) <= 1e-7L * want, "time step %.15g, the criteria allow %.15Lg (velocity %Lg, acceleration %Lg, signal %Lg)", b.getDt(), want, tv, ta, tc);
  unchanged(g, "compute_dt", b0, b, [](body & x, body & y) { x.setDt(y.getDt()); });
}
// histories of steps: stable, common to all ranks, outputs neither missed nor passed over
PROPERTY(step_history, 6000, 600000) {
  int n = 1 + (int)g.u(5);
  double base = g.pick({1e-3, 1.0, 1e-6});
  double od[3];
  for(double & o : od) o = g.pick({0, 1, 1, 1}) ? base * g.pick({1.0, 10.0, 100.0, 7.3, 33.0, 1000.0, 3.0}) : 0;
  int steps = 5 + (int)g.u(120);
  double t0 = g.pick({0, 0, 1}) ? base * g.real(0, 500) : 0;
  param::_initial_time = t0; param::_initial_iteration = g.pick({0, 0, 17});
  param::_initial_dt = base * g.pick({1.0, 100.0, 1e-3});
  param::_out_screen_dt = od[0]; param::_out_scalar_dt = od[1]; param::_out_h5data_dt = od[2];
  param::_adaptive_timestep = true;
  // stable step of the whole system along the run
  std::vector<double> lim(steps);
  { double v = base; int mode = g.u(3); for(auto & x : lim) { if(mode == 1) v *= g.pick({1.0, 1.1, 0.9}); if(mode == 2) v = base * g.lreal(1e-2, 30); x = v; } }
  std::vector<int> holder(steps);
  for(auto & h : holder) h = (int)g.u(n);
  auto sch = mock::gen_sched(g);
  bool twice = g.flip();
  g.note("ranks=%d base=%g out=%g,%g,%g t0=%g steps=%d twice=%d", n, base, od[0], od[1], od[2], t0, steps, twice);
  g.nontrivial(n > 1 && od[0] + od[1] + od[2] > 0);
  static bool once = (mock::own_namespaces({"physics"}), true);
  (void)once;
  struct Fresh { ~Fresh() { mock::fresh(); } } fresh_after;
  analysis::set_initial_time_iteration();
  PBT_CHECK(g, physics::totaltime == t0 && physics::iteration == param::initial_iteration && physics::dt == param::initial_dt, "initial time or iteration");
  mock::fresh();
  double * due[3] = {&physics::t_screen_output, &physics::t_scalar_output, &physics::t_h5data_output};
  double next[3], first[3]; // the first scheduled output not before the start
  for(int k = 0; k < 3; ++k) { next[k] = first[k] = *due[k]; if(od[k] > 0) PBT_CHECK(g, *due[k] >= t0, "first output at %g, start at %g", *due[k], t0); }
  double t = t0;
  long it = param::initial_iteration;
  double prevdt = param::initial_dt;
  for(int s = 0; s < steps; ++s) {
    // only one process holds the particle with the smallest step
    std::vector<std::vector<body>> bs(n);
    for(int r = 0; r < n; ++r) for(int j = 0; j < 2; ++j) { body b; fill_attrs(b, j, r + 3 * s); b.setDt(lim[s] * (1 + 3.0 * j + (r != holder[s]))); bs[r].push_back(b); }
    if(n > 1 && s % 5 == 3) bs[(holder[s] + 1) % n].clear(); // a process may be empty
    const double mn = lim[s];
    std::vector<double> rdt(n), rtn(n);
    mock::run(n, sch.policy, sch.seed + s, [&](int r) {
      for(int rep = 0; rep < (twice && s == 0 ? 2 : 1); ++rep) physics::set_adaptive_timestep(bs[r]);
      rdt[r] = physics::dt; rtn[r] = physics::totaltime_next;
    });
    for(int r = 0; r < n; ++r) PBT_CHECK(g, rdt[r] == rdt[0] && rtn[r] == rtn[0], "step %d: rank %d takes %.17g, rank 0 %.17g", s, r, rdt[r], rdt[0]);
    double dt = physics::dt, tn = physics::totaltime_next;
    PBT_CHECK(g, tn > t, "step %d: the next time %.17g is not after %.17g", s, tn, t);
    PBT_CHECK(g, dt > 0 && std::fabs(dt - (tn - t)) <= 1e-15 * std::fabs(tn), "step %d: step %.17g, but time goes from %.17g to %.17g", s, dt, t, tn);
    PBT_CHECK(g, dt <= 1.1 * mn * (1 + 1e-9) + 4e-16 * tn, "step %d of length %.9g exceeds the stable step %.9g", s, dt, mn);
    for(int k = 0; k < 3; ++k) if(od[k] > 0) {
      if(next[k] == t) next[k] = t + od[k] == *due[k] ? *due[k] : next[k] + od[k];
      PBT_CHECK(g, *due[k] == next[k], "step %d: output %d is due at %.17g, scheduled %.17g", s, k, *due[k], next[k]);
      PBT_CHECK(g, tn <= next[k], "step %d passes over the output %d due at %.17g (from %.17g to %.17g)", s, k, next[k], t, tn);
      if(tn == next[k]) g.label("hit");
    }
    // without an output in reach the step follows the stable step as soon as it may (halving, doubling)
    bool cut = false;
    for(int k = 0; k < 3; ++k) if(od[k] > 0 && tn == next[k]) cut = true;
    if(!cut) PBT_CHECK(g, dt >= std::min(mn, prevdt) / (twice && s == 0 ? 4 : 2) * (1 - 1e-9), "step %d shrinks from %g to %g, %g is stable", s, prevdt, dt, mn);
    if(!cut && mn > 2 * prevdt) PBT_CHECK(g, dt >= 2 * prevdt * (1 - 1e-9) || mn < dt * (1 + 1e-9), "step %d: does not grow: %g -> %g, stable %g", s, prevdt, dt, mn);
    mock::run(n, 0, 0, [&](int) { physics::advance_time(); });
    ++it;
    PBT_CHECK(g, physics::totaltime == tn && physics::iteration == it, "time %.17g iteration %ld after the step, should be %.17g %ld", physics::totaltime, (long)physics::iteration, tn, it);
    t = tn;
    prevdt = dt;
  }
}
PROPERTY(end_of_run, 20000, 1000000) {
  param::_final_iteration = g.pick({0, 10, 3});
  param::_final_time = g.pick({0.0, 1.0, 0.25});
  param::_adaptive_timestep = false;
  physics::iteration = g.u(14); physics::totaltime = g.u(12) * 0.125; physics::dt = g.pick({0.125, 0.5});
  double t = physics::totaltime; int64_t it = physics::iteration;
  physics::advance_time();
  PBT_CHECK(g, physics::iteration == it + 1 && physics::totaltime == t + physics::dt, "fixed step: %g + %g gave %g", t, physics::dt, physics::totaltime);
  bool want = (param::final_iteration > 0 && physics::iteration > param::final_iteration) || (param::final_time > 0 && physics::totaltime > param::final_time);
  g.nontrivial(param::final_iteration > 0 || param::final_time > 0);
  g.note("it=%ld/%ld t=%g/%g", (long)physics::iteration, (long)param::final_iteration, physics::totaltime, (double)param::final_time);
  PBT_CHECK(g, physics::termination_criteria() == want, "run %s", want ? "does not end" : "ends early");
}

// ------------------------------------------------- whole pipeline, ranks ----
struct Out { double rho, p, c, dedt, dudt, e; V acc; double vs; };
enum { REFERENCE, MOMENTUM, ENERGY };
static void run_pipeline(Gen & g, int judge) {
  int n = gen_ranks(g);
  param::_sph_kernel = KERN[g.u(5)];
  kernels::select();
  param::_sph_viscosity = param::visc_constant; viscosity::select();
  param::_sph_viscosity_alpha = 1; param::_sph_viscosity_beta = 2; param::_sph_viscosity_epsilon = .01;
  param::_evolve_internal_energy = true;
  param::_thermokinetic_formulation = g.flip();
  param::_relaxation_steps = 0; param::_poly_gamma = g.pick({1.4, 5.0 / 3});
  physics::iteration = 0; physics::dt = 1e-3;
  param::_eos_type = param::eos_ideal;
  eos::select();
  external_force::select(g.flip() && judge == REFERENCE ? "gravity" : "none");
  auto c = gen_cloud(g, gen_n(g, n, 250), g.flip());
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  for(auto & b : c.p) {
    b.setType(NORMAL); b.setInternalenergy(1 + (b.id() % 7)); b.setVelocity(b.getVelocity() * .01);
    b.setAlpha(1);
  }
  int sweeps = 1 + (int)g.u(2);
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, c.p, n);
  g.note("ranks=%d kernel=%d thermokinetic=%d sweeps=%d", n, (int)param::sph_kernel, (int)param::thermokinetic_formulation, sweeps);
  g.label("ranks" + std::to_string(n));
  g.nontrivial(n > 1);
  std::map<size_t, Out> got;
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    System bs;
    bs.getLocalbodies() = parts[r];
    for(int s = 0; s < sweeps; ++s) {
      bs.update_iteration();
      bs.apply_all(eos::init);
      if(param::thermokinetic_formulation) bs.apply_all(physics::set_total_energy);
      bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
      bs.apply_all(integration::save_velocityhalf);
      bs.reset_ghosts();
      bs.apply_in_smoothinglength(physics::compute_acceleration);
      if(param::thermokinetic_formulation) bs.apply_in_smoothinglength(physics::compute_dedt);
      else bs.apply_in_smoothinglength(physics::compute_dudt);
    }
    for(auto & b : bs.getLocalbodies()) got[b.id()] = {b.getDensity(), b.getPressure(), b.getSoundspeed(), b.getDedt(), b.getDudt(), b.getTotalenergy(), vec(b.getAcceleration()), b.getSignalspeed()};
  });
  PBT_CHECK(g, got.size() == c.p.size(), "%zu of %zu particles", got.size(), c.p.size());
  if(judge != REFERENCE) { // conservation of what was computed on all ranks
    V mom; L momb = 0, en = 0, enb = 0;
    // the density is that of the run, pair terms bound the rounding
    std::vector<body> q = c.p;
    for(auto & b : q) { auto & o = got[b.id()]; b.setVelocityhalf(b.getVelocity()); b.setDensity(o.rho); b.setPressure(o.p); b.setSoundspeed(o.c); }
    auto all = all_of(q);
    for(auto & b : q) {
      auto & o = got[b.id()];
      Rates r = rates_of(Cfg{0, false}, b, all);
      mom = mom + b.mass() * o.acc; momb += b.mass() * r.accb;
      en += b.mass() * (param::thermokinetic_formulation ? o.dedt : o.dudt + dot(vec(b.getVelocity()), o.acc));
      enb += b.mass() * (param::thermokinetic_formulation ? r.dedtb : r.dudtb + r.accb * mag(vec(b.getVelocity())));
    }
    if(judge == MOMENTUM) PBT_CHECK(g, mag(mom) <= 1e-11L * momb + 1e-290L, "total force is %.6Lg over all ranks (terms %.3Lg)", mag(mom), momb);
    else PBT_CHECK(g, fabsl(en) <= 1e-11L * enb + 1e-290L, "total energy changes by %.6Lg over all ranks (terms %.3Lg)", en, enb);
    return;
  }
  // the same from all pairs
  auto ref = c.p;
  auto nbs = all_of(ref);
  Cfg cf{0, false};
  std::vector<L> rho(ref.size()), rb(ref.size());
  for(auto & b : ref) { b.setVelocityhalf(b.getVelocity()); Rates r; L s = 0;
    for(auto * o : nbs) s += (L)o->mass() * kernels::sph_kernel_function(flecsi::distance(b.coordinates(), o->coordinates()), .5 * (b.radius() + o->radius()));
    rho[b.id()] = s; }
  for(auto & b : ref) { L r = rho[b.id()]; b.setDensity(r); b.setPressure((param::poly_gamma - 1.0L) * r * b.getInternalenergy()); b.setSoundspeed(sqrtl((L)param::poly_gamma * (param::poly_gamma - 1.0L) * b.getInternalenergy())); b.setGAcceleration(0); }
  const L T = 1e-9L; // thermokinetic: internal energy is recovered by a difference
  for(auto & b : ref) {
    auto & o = got[b.id()];
    auto near = [&](const char * w, L a, L v, L bound) { PBT_CHECK(g, fabsl(a - v) <= T * bound + 1e-290L, "%s of particle %zu is %.12Lg, all pairs give %.12Lg (terms %.3Lg)", w, b.id(), a, v, bound); };
    Rates r = rates_of(cf, b, nbs);
    near("density", o.rho, b.getDensity(), b.getDensity());
    L ek = .5L * dot(vec(b.getVelocity()), vec(b.getVelocity())), ep = external_force::potential(b.coordinates());
    L cond = param::thermokinetic_formulation ? 1e-6L * (fabsl(ek) + fabsl(ep)) / b.getInternalenergy() : 0; // difference of large energies
    if(cond > 1) continue;
    L amp = 1 + cond;
    near("pressure", o.p, b.getPressure(), b.getPressure() * amp);
    near("sound speed", o.c, b.getSoundspeed(), b.getSoundspeed() * amp);
    V ext = vec(external_force::acceleration(b));
    L vs = 0;
    for(auto * q : nbs) if(q->coordinates() != b.coordinates() && flecsi::distance(b.coordinates(), q->coordinates()) < .5 * (b.radius() + q->radius())) {
      V x = vec(b.coordinates()) - vec(q->coordinates()), v = vec(b.getVelocity()) - vec(q->getVelocity());
      vs = std::max(vs, std::max((L)b.getSoundspeed(), (L)q->getSoundspeed()) - std::min(dot(v, x) / mag(x), 0.0L));
    }
    near("signal speed", o.vs, vs, (vs + mag(vec(b.getVelocity()))) * amp);
    for(int d = 0; d < D; ++d) near("acceleration", o.acc.x[d], r.acc.x[d] + ext.x[d], (r.accb + mag(ext)) * amp);
    if(param::thermokinetic_formulation) { near("de/dt", o.dedt, r.dedt, r.dedtb * amp); near("total energy", o.e, ek + b.getInternalenergy() + ep, ek + b.getInternalenergy() + fabsl(ep)); }
    else near("du/dt", o.dudt, r.dudt, r.dudtb);
  }
}
PROPERTY(pipeline, 1200, 120000) { run_pipeline(g, REFERENCE); }
PROPERTY(pipeline_momentum, 1200, 120000) { run_pipeline(g, MOMENTUM); }
PROPERTY(pipeline_energy, 1200, 120000) { run_pipeline(g, ENERGY); }
