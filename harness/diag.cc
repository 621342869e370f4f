// C29: global diagnostics (scalar_reductions.dat, diagnostic.dat) against sums,
// minima and maxima over all particles, on any distribution over ranks.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <cassert>
#include <unistd.h>
#include <sys/stat.h>
#include <mpi.h>
#include "mockmpi.h"
#include <hdf5.h>
#include "bodies_system.h"
#include "default_physics.h"
#include "analysis.h"
#include "diagnostic.h"
#include "pbt.h"
#include "cloud.h"
#include "h5init.h"
using pbt::Gen;
typedef long double L;
static const int D = gdimension;
using System = body_system<double, gdimension>;

struct Scratch { // own directory, removed at the end
  std::string dir;
  char back[4096];
  Scratch() {
    if(!getcwd(back, sizeof back)) abort();
    dir = std::string(back) + "/diag." + std::to_string(getpid());
    mkdir(dir.c_str(), 0755);
    if(chdir(dir.c_str())) abort();
    clean();
  }
  void clean() { unlink("start.h5part"); mockh5::reset(dir); unlink("scalar_reductions.dat"); unlink("diagnostic.dat"); }
  ~Scratch() { clean(); if(chdir(back)) abort(); rmdir(dir.c_str()); }
};
//! the particles enter as initial data, then take the generated places
static void load(System & bs, const std::vector<body> & all, const std::vector<body> & mine, int r) {
  if(r == 0) { param::_out_h5data_separate_iterations = false; write_initial("start.h5part", all, {}); }
  MPI_Barrier(MPI_COMM_WORLD);
  bs.read_bodies("start", "none", 0);
  bs.getLocalbodies() = mine;
}
struct Table { std::map<std::string, int> col; std::vector<std::vector<std::string>> rows; bool exists = false; };
static Table read_table(Gen & g, const char * name) {
  Table t;
  std::ifstream in(name);
  t.exists = bool(in);
  std::string line;
  while(std::getline(in, line)) {
    std::istringstream is(line);
    std::string w;
    if(line.size() && line[0] == '#') {
      is.get();
      while(is >> w) {
        auto c = w.find(':');
        if(c == std::string::npos || !isdigit(w[0]) || c + 1 == w.size() && !(is >> w)) continue;
        t.col[c + 1 < w.size() && w.find(':') != std::string::npos ? w.substr(c + 1) : w] = (int)t.col.size();
      }
      continue;
    }
    t.rows.emplace_back();
    while(is >> w) t.rows.back().push_back(w);
    PBT_CHECK(g, t.rows.back().size() == t.col.size(), "%s has a line of %zu values below a header of %zu columns: %s", name, t.rows.back().size(), t.col.size(), line.c_str());
  }
  return t;
}
static L value(Gen & g, const Table & t, size_t row, const std::string & name) {
  auto it = t.col.find(name);
  PBT_CHECK(g, it != t.col.end(), "there is no column '%s'", name.c_str());
  char * e;
  auto & s = t.rows[row][it->second];
  L v = strtold(s.c_str(), &e);
  PBT_CHECK(g, !*e, "column '%s' holds '%s'", name.c_str(), s.c_str());
  return v;
}
struct Shot { int64_t it; double t, dt; std::map<std::string, std::pair<L, L>> scalar, diag; }; // value, magnitude of the terms
struct Stat {
  L lo = 1e4000L, hi = -1e4000L, sum = 0, mag = 0;
  size_t n = 0;
  void add(L x) { lo = std::min(lo, x); hi = std::max(hi, x); sum += x; mag += fabsl(x); ++n; }
};
static void own_all() {
  static bool done = false;
  if(done) return;
  done = true;
  mock::own_namespaces({"io", "physics", "analysis", "diagnostic"});
}
static void change(body & b, uint64_t salt, int what) {
  pbt::Rng r(pbt::mix64(b.id() * 7919 + salt));
  double vs = what == 0 ? 0 : what == 1 ? 1 : what == 2 ? 1e-8 : 1e8;
  point_t v;
  for(int d = 0; d < D; ++d) v[d] = vs * (2 * r.unit() - 1);
  if(what == 3 && b.id() == 0) v = v * 100.;
  b.setVelocity(v);
  b.set_mass((.1 + r.unit()) * (what == 2 ? 1e20 : 1));
  b.setInternalenergy(vs * vs * r.unit());
  b.setTotalenergy(vs * vs * (r.unit() - .3));
  b.setGPotential(-vs * vs * r.unit());
  b.setNeighbors(r.below(3) ? r.below(200) : r.below(99999));
  b.setType(r.below(5) ? NORMAL : WALL);
}
static Shot expect(std::vector<body> & p, const std::vector<L> & com) {
  Shot s;
  Stat m, e, ek, ei, eg, N, h, V, mom[3], ang[3];
  for(auto & b : p) {
    point_t x = b.coordinates(), v = b.getVelocity();
    L v2 = 0;
    for(int d = 0; d < D; ++d) v2 += (L)v[d] * v[d];
    N.add(b.getNeighbors()); h.add(b.radius()); V.add(sqrtl(v2));
    if(b.type() != NORMAL) continue;
    L M = b.mass();
    m.add(M); ek.add(.5L * M * v2); ei.add(M * (L)b.getInternalenergy()); eg.add(.5L * M * b.getGPotential());
    if(param::thermokinetic_formulation) e.add(M * b.getTotalenergy());
    else { e.add(.5L * M * v2); e.add(M * b.getInternalenergy()); e.add(M * external_force::potential(x)); }
    if(param::enable_fmm) e.add(.5L * M * b.getGPotential());
    for(int d = 0; d < D; ++d) mom[d].add(M * v[d]);
    if(D > 1) for(int d = 0; d < 3; ++d) { int a = (d + 1) % 3, c = (d + 2) % 3; if(a < D && c < D) { ang[d].add(M * x[a] * v[c]); ang[d].add(-M * x[c] * v[a]); } }
  }
  auto put = [&](const std::string & n, const Stat & q) { s.scalar[n] = {q.sum, q.mag}; };
  put("total_mass", m); put("total_energy", e); put("kinetic_energy", ek);
  if(D == 3 && param::enable_fmm && !param::evolve_internal_energy) put("gravitational_energy", eg);
  else put("internal_energy", ei);
  static const char * X[] = {"x", "y", "z"};
  for(int d = 0; d < D; ++d) put(std::string("mom_") + X[d], mom[d]);
  if(D == 2) put("ang_mom_z", ang[2]);
  if(D == 3) for(int d = 0; d < 3; ++d) { put(std::string("ang_mom_") + X[d], ang[d]); s.scalar[std::string("com_") + X[d]] = {com[d], com[3 + d]}; }
  s.diag["h_min"] = {h.lo, 0}; s.diag["h_max"] = {h.hi, 0}; s.diag["h_avg"] = {h.sum / h.n, h.mag / h.n};
  s.diag["V_min"] = {V.lo, V.lo * .01}; s.diag["V_max"] = {V.hi, V.hi * .01}; s.diag["V_avg"] = {V.sum / V.n, V.mag / V.n};
  s.diag["N_min"] = {N.lo, 0}; s.diag["N_max"] = {N.hi, 0}; s.diag["N_avg"] = {floorl(N.sum / N.n), 0};
  return s;
}
static void compare(Gen & g, const char * file, const std::vector<Shot> & shots, bool scalar, size_t n) {
  Table t = read_table(g, file);
  for(auto a : {"and_mom_z"}) if(t.col.count(a)) t.col["ang_mom_z"] = t.col[a]; // the header's own spelling
  PBT_CHECK(g, t.rows.size() == shots.size(), "%s has %zu lines instead of %zu", file, t.rows.size(), shots.size());
  for(size_t i = 0; i < shots.size(); ++i) {
    auto & s = shots[i];
    auto chk = [&](const std::string & name, L want, L mag) {
      L v = value(g, t, i, name);
      PBT_CHECK(g, fabsl(v - want) <= 6e-13L * fabsl(want) + 3e-16L * (n + 10) * mag, "%s, line %zu: %s is %.13Lg instead of %.13Lg (terms %.3Lg)", file, i + 1, name.c_str(), v, want, mag);
    };
    chk("iteration", s.it, 0); chk("time", s.t, 0);
    if(scalar) chk("timestep", s.dt, 0);
    for(auto & q : scalar ? s.scalar : s.diag) chk(q.first, q.second.first, q.second.second);
  }
}
PROPERTY_ISOLATED(reports, 2000, 40000) {
  Scratch dir;
  own_all();
  int n = gen_ranks(g);
  param::_thermokinetic_formulation = g.flip();
  param::_enable_fmm = D == 3 && g.u(3) == 0; // gravity exists in 3D
  param::_evolve_internal_energy = g.flip();
  param::_initial_iteration = g.pick({0, 0, 7});
  param::_out_scalar_every = g.pick({1, 1, 2, 3, 0, -1});
  param::_out_scalar_dt = g.u(3) == 0 ? 0.25 : 0;
  param::_out_diagnostic_every = g.pick({1, 1, 2, 3, 0});
  external_force::select(g.flip() ? "gravity" : "none");
  auto c = gen_cloud(g, gen_n(g, n, 200), g.flip());
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  int steps = 1 + (int)g.u(4);
  struct St { int64_t it; double t, dt, tout; uint64_t salt; int what; bool rebuild; };
  std::vector<St> st;
  int64_t it = param::initial_iteration;
  double t = it * .1;
  for(int i = 0; i < steps; ++i) {
    st.push_back({it, t, g.pick({.1, 1e-5, 3.0}), g.flip() ? t : t + .1, g.u(1000), (int)g.u(4), i == 0 || g.flip()});
    it += 1 + g.u(3); t += g.pick({.1, .25, 1e-3});
  }
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, c.p, n);
  g.note("%dD ranks=%d steps=%d thermokinetic=%d fmm=%d evolve=%d every=%d dt=%g diagnostic=%d", D, n, steps, (int)param::thermokinetic_formulation, (int)param::enable_fmm, (int)param::evolve_internal_energy, (int)param::out_scalar_every, (double)param::out_scalar_dt, (int)param::out_diagnostic_every);
  std::vector<Shot> scalar, diag;
  std::vector<L> com(6);
  for(auto & s : st) {
    std::vector<body> all;
    for(auto & q : parts) for(auto & b : q) all.push_back(b);
    for(auto & b : all) change(b, s.salt, s.what);
    if(s.rebuild) {
      L m = 0;
      for(auto & x : com) x = 0;
      for(auto & b : all) { m += b.mass(); for(int d = 0; d < D; ++d) { com[d] += b.mass() * (L)b.coordinates()[d]; com[3 + d] += b.mass() * fabsl(b.coordinates()[d]); } }
      for(auto & x : com) x /= m;
    }
    Shot e = expect(all, com);
    e.it = s.it; e.t = s.t; e.dt = s.dt;
    bool by_time = param::out_scalar_dt > 0;
    if(by_time ? s.t >= s.tout || s.it == param::initial_iteration : param::out_scalar_every > 0 && s.it % param::out_scalar_every == 0) scalar.push_back(e);
    if(param::out_diagnostic_every > 0 && s.it % param::out_diagnostic_every == 0) diag.push_back(e);
  }
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    System bs;
    load(bs, c.p, parts[r], r);
    for(auto & s : st) {
      physics::iteration = s.it; physics::totaltime = s.t; physics::dt = s.dt; physics::t_scalar_output = s.tout;
      for(auto & b : bs.getLocalbodies()) change(b, s.salt, s.what);
      if(s.rebuild) bs.update_iteration();
      analysis::scalar_output(bs, r);
      diagnostic::output(bs, r);
      MPI_Barrier(MPI_COMM_WORLD);
    }
  });
  g.label("ranks" + std::to_string(n));
  g.nontrivial(n > 1 && !(scalar.empty() && diag.empty()));
  compare(g, "scalar_reductions.dat", scalar, true, c.p.size());
  compare(g, "diagnostic.dat", diag, false, c.p.size());
}
//! distances between neighbours that the diagnostics report
static void sweep(Gen & g, int n, std::vector<body> & p) {
  param::_sph_kernel = param::wendland_c2;
  kernels::select();
  param::_eos_type = param::eos_ideal;
  eos::select();
  param::_out_diagnostic_every = 1;
  param::_thermokinetic_formulation = false;
  external_force::select("none");
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, p, n);
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    System bs;
    load(bs, p, parts[r], r);
    bs.update_iteration();
    bs.apply_in_smoothinglength(physics::compute_density_pressure_soundspeed);
    diagnostic::output(bs, r);
  });
}
PROPERTY_ISOLATED(closest_pair, 60, 1000) {
  Scratch dir;
  own_all();
  int n = gen_ranks(g);
  auto c = gen_cloud(g, gen_n(g, n, 60), true);
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  L d2 = 1e4000L;
  for(auto & a : c.p) for(auto & b : c.p) if(a.id() != b.id()) d2 = std::min<L>(d2, dist2(a.coordinates(), b.coordinates()));
  if(!(sqrtl(d2) < .9L * c.p[0].radius())) g.discard(); // not neighbours
  sweep(g, n, c.p);
  Table t = read_table(g, "diagnostic.dat");
  g.nontrivial(true);
  L v = value(g, t, 0, "min_dist"), w = sqrtl(d2);
  PBT_CHECK(g, fabsl(v - w) < 1e-6L * w || fabsl(v * c.p[0].radius() - w) < 1e-6L * w, "min_dist is %.9Lg, the closest pair is at %.9Lg", v, w);
}
//! a recorded violation of a conservation law is noticed, exact conservation is not reported as one
static void conservation(Gen & g, bool broken) {
  Scratch dir;
  own_all();
  param::_enable_fmm = false; param::_thermokinetic_formulation = false;
  param::_out_scalar_every = 1; param::_out_scalar_dt = 0;
  external_force::select("none");
  auto c = gen_cloud(g, 2 + g.u(30), true);
  drop_coincident(c.p);
  for(auto & b : c.p) change(b, 3, 1);
  int steps = 2 + (int)g.u(4), at = 1 + (int)g.u(steps - 1), what = g.u(3);
  std::vector<std::vector<body>> parts{c.p};
  std::unique_ptr<System> bs_;
  mock::run(1, 0, 1, [&](int r) {
    bs_.reset(new System);
    System & bs = *bs_;
    load(bs, c.p, c.p, r);
    bs.update_iteration();
    for(int i = 0; i < steps; ++i) {
      physics::iteration = i;
      if(i == at && broken) for(auto & b : bs.getLocalbodies()) {
        if(what == 0) b.set_mass(2 * b.mass());
        if(what == 1) b.setInternalenergy(3 * b.getInternalenergy() + 1);
        if(what == 2) { point_t v = b.getVelocity(); v[0] += 10; b.setVelocity(v); }
      }
      analysis::scalar_output(bs, r);
    }
  });
  bool any = false;
  for(auto & b : bs_->getLocalbodies()) any |= b.type() == NORMAL;
  if(!any) g.discard();
  bool ok = false;
  mock::run(1, 0, 1, [&](int) { ok = analysis::check_conservation({what == 0 ? analysis::MASS : what == 1 ? analysis::ENERGY : analysis::MOMENTUM}); });
  g.note("%s %s", what == 0 ? "mass" : what == 1 ? "energy" : "momentum", broken ? "changes" : "stays");
  g.nontrivial(true);
  if(broken) PBT_CHECK(g, !ok, "a change of the %s is not noticed", what == 0 ? "mass" : what == 1 ? "energy" : "momentum");
  else PBT_CHECK(g, ok, "a constant %s is reported as changed", what == 0 ? "mass" : what == 1 ? "energy" : "momentum");
}
PROPERTY_ISOLATED(conservation_kept, 100, 2000) { conservation(g, false); }
PROPERTY_ISOLATED(conservation_broken, 100, 2000) { conservation(g, true); }
