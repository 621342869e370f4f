// Gravity by multipoles against the direct sum, on simulated ranks.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <cassert>
#include <mpi.h>
#include "mockmpi.h"
#include "bodies_system.h"
#include "pbt.h"
#include "cloud.h"
using pbt::Gen;
using System = body_system<double, gdimension>;
struct Grav { point_t a; double p; };
struct Ref { point_t a = {}; double p = 0, amag = 0, pmag = 0; };

//! separate compact groups, coordinates with full precision
static Cloud gen_groups(Gen & g, size_t n) {
  Cloud c;
  c.scale = g.pick({1.0, 1.0, 1e-4, 1e8});
  int ng = 2 + (int)g.u(6);
  double size = g.pick({1e-3, 1e-2, 0.05, 0.3});
  uint64_t s = g.u(1u << 30);
  pbt::Rng r(s + 5);
  std::vector<point_t> z(ng);
  for(auto & q : z) for(size_t d = 0; d < gdimension; ++d) q[d] = r.unit() * 2 - 1;
  for(size_t i = 0; i < n; ++i) {
    body b;
    fill_attrs(b, i, s);
    point_t q = z[r.below(ng)];
    for(size_t d = 0; d < gdimension; ++d) q[d] += size * (r.unit() - .5);
    b.set_coordinates(q * c.scale);
    b.set_mass(g.flip() ? 1.0 : 0.1 + 9 * r.unit());
    b.set_id(i);
    b.set_radius(0.05 * c.scale);
    b.set_key(key_type(0));
    c.p.push_back(b);
  }
  g.note("groups(n=%zu groups=%d size=%g scale=%g seed=%llu) ", n, ng, size, c.scale, (unsigned long long)s);
  return c;
}
static std::vector<Ref> direct(const std::vector<body> & p) {
  std::vector<Ref> r(p.size());
  for(size_t i = 0; i < p.size(); ++i)
    for(size_t j = 0; j < p.size(); ++j) if(i != j) {
      point_t x = p[i].coordinates() - p[j].coordinates();
      double d2 = dist2(p[i].coordinates(), p[j].coordinates()), d = std::sqrt(d2), w = fmm::gc * p[j].mass();
      for(size_t k = 0; k < gdimension; ++k) r[i].a[k] -= w * x[k] / (d2 * d);
      r[i].p -= w / d;
      r[i].amag += std::fabs(w) / d2; r[i].pmag += std::fabs(w) / d;
    }
  return r;
}
//! several gravity sweeps; each must give the field anew
static std::vector<std::map<size_t, Grav>> run_fmm(Gen & g, int n, mock::Sched sch, const std::vector<std::vector<body>> & parts, double theta, int sweeps, int mode) {
  std::vector<std::vector<std::map<size_t, Grav>>> got(n, std::vector<std::map<size_t, Grav>>(sweeps));
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    System bs;
    bs.getLocalbodies() = parts[r];
    bs.setMacangle(theta);
    bs.update_iteration();
    for(int s = 0; s < sweeps; ++s) {
      if(s) bs.reset_ghosts();
      auto zero = [](body & b) { b.setGAcceleration(point_t{}); b.setGPotential(0); };
      // as the drivers do: the hydrodynamic sweep zeroes the fields
      if(mode) bs.apply_in_smoothinglength([&](body & a, std::vector<body *> &) { zero(a); });
      else bs.apply_all(zero);
      bs.gravitation_fmm();
      for(auto & b : bs.getLocalbodies()) {
        PBT_CHECK(g, !got[r][s].count(b.id()), "particle %zu twice on a rank", b.id());
        got[r][s][b.id()] = {b.getGAcceleration(), b.getGPotential()};
      }
    }
  });
  std::vector<std::map<size_t, Grav>> all(sweeps);
  for(int s = 0; s < sweeps; ++s)
    for(int r = 0; r < n; ++r) for(auto & kv : got[r][s]) { PBT_CHECK(g, !all[s].count(kv.first), "particle %zu on two ranks", kv.first); all[s].insert(kv); }
  return all;
}
static double norm(const point_t & a) { double s = 0; for(size_t d = 0; d < gdimension; ++d) s += a[d] * a[d]; return std::sqrt(s); }
static void compare(Gen & g, const std::vector<body> & p, const std::vector<Ref> & ref, const std::map<size_t, Grav> & got, double theta, int n, int sweep) {
  double ab = 0, pb = 0;
  if(theta > 0) {
    double q = (1 - theta) * (1 - theta) * (1 - theta);
    ab = 2 * theta * (1 + theta) * (1 + theta) / q;
    pb = theta * theta * (1 + theta) / q;
  }
  double eps = 1e-13 * (10 + p.size());
  for(size_t i = 0; i < p.size(); ++i) {
    auto it = got.find(p[i].id());
    PBT_CHECK(g, it != got.end(), "particle %zu lost", p[i].id());
    double e = norm(it->second.a - ref[i].a), pe = std::fabs(it->second.p - ref[i].p);
    PBT_CHECK(g, e <= (ab + eps) * ref[i].amag, "ranks=%d sweep %d angle %g: acceleration of particle %zu is off by %.3g of the summed pull (allowed %.3g)", n, sweep, theta, p[i].id(), e / ref[i].amag, ab + eps);
    PBT_CHECK(g, pe <= (pb + eps) * ref[i].pmag, "ranks=%d sweep %d angle %g: potential of particle %zu is off by %.3g of its value (allowed %.3g)", n, sweep, theta, p[i].id(), pe / ref[i].pmag, pb + eps);
  }
}
static Cloud make(Gen & g, int n, size_t big, bool precise = false) {
  Cloud c = precise || g.flip() ? gen_groups(g, gen_n(g, n, big)) : gen_cloud(g, gen_n(g, n, big), true);
  drop_coincident(c.p);
  if((int)c.p.size() < n || c.p.size() < 2) g.discard();
  return c;
}
PROPERTY(fmm_exact, 3000, 300000) {
  int n = gen_ranks(g);
  auto c = make(g, n, 200);
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, c.p, n);
  int sweeps = 1 + (int)g.u(2), mode = (int)g.u(2);
  fmm::gc = g.pick({1.0, 6.67e-8, 2.5});
  g.note("ranks=%d sweeps=%d mode=%d", n, sweeps, mode);
  g.label("ranks" + std::to_string(n));
  g.nontrivial(c.p.size() > 2);
  auto ref = direct(c.p);
  auto got = run_fmm(g, n, sch, parts, 0, sweeps, mode);
  for(int s = 0; s < sweeps; ++s) compare(g, c.p, ref, got[s], 0, n, s);
}
PROPERTY(fmm_bound, 3000, 300000) {
  int n = gen_ranks(g);
  auto c = make(g, n, 250);
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, c.p, n);
  int sweeps = 1 + (int)g.u(2), mode = (int)g.u(2);
  double theta = g.pick({0.7, 0.5, 0.3, 0.1, 0.03, 0.01, 0.003});
  fmm::gc = g.pick({1.0, 6.67e-8, 2.5});
  g.note("ranks=%d sweeps=%d mode=%d angle=%g", n, sweeps, mode, theta);
  g.label("ranks" + std::to_string(n));
  auto ref = direct(c.p);
  auto got = run_fmm(g, n, sch, parts, theta, sweeps, mode);
  double dev = 0;
  for(size_t i = 0; i < c.p.size(); ++i) dev = std::max(dev, norm(got[0][c.p[i].id()].a - ref[i].a) / ref[i].amag);
  g.nontrivial(dev > 1e-12); // a cell was opened as a multipole
  if(dev > 1e-12) g.label("multipoles used");
  for(int s = 0; s < sweeps; ++s) compare(g, c.p, ref, got[s], theta, n, s);
}
//! cells interact in symmetric pairs: no net force, whatever the angle
PROPERTY(fmm_momentum, 1500, 150000) {
  int n = gen_ranks(g);
  auto c = make(g, n, 200, true);
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, c.p, n);
  double theta = g.pick({1.0, 0.7, 0.5, 0.3, 0.1, 0.0});
  fmm::gc = g.pick({1.0, 6.67e-8});
  g.note("ranks=%d angle=%g", n, theta);
  g.nontrivial(theta > 0);
  auto got = run_fmm(g, n, sch, parts, theta, 1, 0);
  point_t f = {};
  double mag = 0;
  for(auto & b : c.p) { auto & a = got[0][b.id()].a; f += b.mass() * a; mag += b.mass() * norm(a); }
  auto ref = direct(c.p);
  for(size_t i = 0; i < c.p.size(); ++i) mag += c.p[i].mass() * ref[i].amag;
  PBT_CHECK(g, norm(f) <= 1e-13 * (10 + c.p.size()) * mag, "net gravitational force is %.3g of the summed forces", norm(f) / mag);
}
//! same system: other ranks, distribution and schedule
PROPERTY(fmm_schedules, 1000, 100000) {
  int n = g.pick({2, 3, 4, 5, 6, 7, 8, 9});
  auto c = make(g, n, 150);
  double theta = g.pick({0.0, 0.5, 0.3, 0.1, 0.03});
  fmm::gc = 1;
  auto ref = direct(c.p);
  auto parts = deal(g, c.p, n);
  auto s1 = mock::gen_sched(g), s2 = mock::gen_sched(g);
  g.note("ranks=%d angle=%g", n, theta);
  g.nontrivial(true);
  auto a = run_fmm(g, n, s1, parts, theta, 1, 1), b = run_fmm(g, n, s2, parts, theta, 1, 0);
  for(size_t i = 0; i < c.p.size(); ++i) {
    auto & x = a[0][c.p[i].id()]; auto & y = b[0][c.p[i].id()];
    PBT_CHECK(g, norm(x.a - y.a) <= 1e-13 * (10 + c.p.size()) * ref[i].amag, "acceleration of particle %zu differs between two schedules by %.3g", c.p[i].id(), norm(x.a - y.a) / ref[i].amag);
    PBT_CHECK(g, std::fabs(x.p - y.p) <= 1e-13 * (10 + c.p.size()) * ref[i].pmag, "potential of particle %zu differs between two schedules", c.p[i].id());
  }
  compare(g, c.p, ref, a[0], theta, n, 0);
  compare(g, c.p, ref, b[0], theta, n, 0);
}
