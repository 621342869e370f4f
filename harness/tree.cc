// Distributed particle system: redistribution, tree construction, neighbour
// sweeps, radius search, on simulated ranks with generated schedules.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <cassert>
#include <mpi.h>
#include "mockmpi.h"
#include "bodies_system.h"
#include "pbt.h"
#include "cloud.h"
using pbt::Gen;
using System = body_system<double, gdimension>;

static const double EPS = 1e-12;
static void same_particle(Gen & g, const char * what, body & a, const std::vector<double> & want) {
  auto x = attrs(a);
  for(size_t i = 0; i < want.size(); ++i)
    PBT_CHECK(g, x[i] == want[i], "%s: attribute #%zu of particle %zu is %.17g, was %.17g", what, i, a.id(), x[i], want[i]);
}

// ---------------------------------------------------------------- C07 -------
static void check_distribution(Gen & g, std::vector<std::vector<body>> & got, std::vector<std::array<point_t, 2>> & rng, const std::vector<body> & ref0) {
  auto ref = ref0;
  std::map<size_t, std::vector<double>> want;
  std::array<point_t, 2> box;
  for(size_t d = 0; d < gdimension; ++d) { box[0][d] = 1e300; box[1][d] = -1e300; }
  for(auto & b : ref) {
    want[b.id()] = attrs(b);
    for(size_t d = 0; d < gdimension; ++d) { box[0][d] = std::min(box[0][d], b.coordinates()[d] - b.radius()); box[1][d] = std::max(box[1][d], b.coordinates()[d] + b.radius()); }
  }
  size_t lo = SIZE_MAX, hi = 0, total = 0;
  std::map<size_t, int> seen;
  bool have = false;
  key_type last(0);
  for(size_t r = 0; r < got.size(); ++r) {
    lo = std::min(lo, got[r].size()); hi = std::max(hi, got[r].size()); total += got[r].size();
    for(size_t d = 0; d < gdimension; ++d)
      PBT_CHECK(g, rng[r][0][d] == box[0][d] && rng[r][1][d] == box[1][d], "rank %zu: domain [%.17g,%.17g] in dimension %zu, particles with smoothing lengths span [%.17g,%.17g]", r, rng[r][0][d], rng[r][1][d], d, box[0][d], box[1][d]);
    for(auto & b : got[r]) {
      PBT_CHECK(g, want.count(b.id()), "rank %zu has unknown particle %zu", r, b.id());
      PBT_CHECK(g, seen[b.id()]++ == 0, "particle %zu exists twice (rank %zu)", b.id(), r);
      same_particle(g, "redistribution", b, want[b.id()]);
      key_type k(rng[r], b.coordinates());
      PBT_CHECK(g, b.key() == k, "particle %zu carries a key that is not that of its position", b.id());
      PBT_CHECK(g, !have || !(k < last), "particle %zu on rank %zu is out of order along the curve", b.id(), r);
      last = k; have = true;
    }
  }
  PBT_CHECK(g, total == ref.size(), "%zu particles before, %zu after", ref.size(), total);
  PBT_CHECK(g, hi - lo <= 1, "loads between %zu and %zu", lo, hi);
}
static void move(Gen & g, std::vector<body> & p, uint64_t seed, double amp) {
  for(auto & b : p) {
    pbt::Rng r(pbt::mix64(seed * 1315423911u + b.id()));
    point_t q = b.coordinates();
    for(size_t d = 0; d < gdimension; ++d) q[d] += amp * ((double)r.below(4097) / 4096 - .5);
    b.set_coordinates(q);
    fill_attrs(b, b.id(), seed);
  }
}
PROPERTY(redistribute, 4000, 400000) {
  int n = gen_ranks(g);
  auto c = gen_cloud(g, gen_n(g, n), g.flip());
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  int steps = 1 + (int)g.u(3);
  uint64_t seed = g.u(1000);
  double amp = c.scale * g.pick({0.01, 0.3, 2.0});
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, c.p, n);
  g.note("ranks=%d steps=%d amp=%g", n, steps, amp);
  g.nontrivial(n > 1);
  g.label("ranks" + std::to_string(n));
  if(steps > 1) g.label("moved");
  // what the particles are at each step
  std::vector<std::vector<body>> ref(steps);
  ref[0] = c.p;
  for(int s = 1; s < steps; ++s) {
    ref[s] = ref[s - 1];
    move(g, ref[s], seed + s, amp);
    auto chk = ref[s];
    drop_coincident(chk);
    if(chk.size() != ref[s].size()) { steps = s; break; }
  }
  std::vector<std::vector<std::vector<body>>> got(steps, std::vector<std::vector<body>>(n));
  std::vector<std::vector<std::array<point_t, 2>>> rng(steps, std::vector<std::array<point_t, 2>>(n));
  std::vector<std::vector<double>> hmax(steps, std::vector<double>(n));
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    System bs;
    bs.getLocalbodies() = parts[r];
    for(int s = 0; s < steps; ++s) {
      if(s) move(g, bs.getLocalbodies(), seed + s, amp);
      hmax[s][r] = bs.getSmoothinglength();
      rng[s][r] = bs.getRange();
      for(int k = 0; k < 2; ++k) for(int d = 0; d < gdimension; ++d) {
        double e = k ? -1e300 : 1e300;
        for(auto & b : ref[s]) e = k ? std::max(e, b.coordinates()[d] + b.radius()) : std::min(e, b.coordinates()[d] - b.radius());
        if(rng[s][r][k][d] != e) throw pbt::Failure{"range of the system in direction " + std::to_string(d) + " is " + std::to_string(rng[s][r][k][d]) + ", should be " + std::to_string(e)};
      }
      bs.update_iteration();
      got[s][r] = bs.getLocalbodies();
      rng[s][r] = bs.tree()->range();
      if(bs.nbodies() != got[s][r].size() || bs.getNLocalBodies() != (int64_t)got[s][r].size()) throw pbt::Failure{"count of local particles"};
      size_t all = 0;
      bs.apply_all([&](body &) { ++all; });
      bs.get_all([&](std::vector<body> & v) { all += &v == &bs.getLocalbodies() ? 0 : 1; });
      if(all != got[s][r].size()) throw pbt::Failure{"apply_all visits " + std::to_string(all) + " of " + std::to_string(got[s][r].size()) + " particles"};
    }
  });
  for(int s = 0; s < steps; ++s) {
    double h = 0;
    for(auto & b : ref[s]) h = std::max<double>(h, b.radius());
    for(int r = 0; r < n; ++r) PBT_CHECK(g, hmax[s][r] == h, "step %d: largest smoothing length is %.17g on rank %d, should be %.17g", s, hmax[s][r], r, h);
    check_distribution(g, got[s], rng[s], ref[s]);
  }
}

// ---------------------------------------------------------------- C08 -------
struct NodeAgg { long count = 0; double mass = 0; point_t m1 = {}; point_t lo, hi; std::vector<const body *> p; };
using Aggs = std::unordered_map<uint64_t, NodeAgg>;
static uint64_t kv(key_type k) { return (uint64_t)k.value(); }
//! what is below each possible cell, from the particles alone
static Aggs aggregate(const std::array<point_t, 2> & range, const std::vector<body> & all) {
  Aggs m;
  for(auto & b : all) {
    key_type k(range, b.coordinates());
    for(int depth = 0; depth < 80; ++depth, k.pop()) {
      auto it = m.find(kv(k));
      if(it == m.end()) {
        it = m.emplace(kv(k), NodeAgg()).first;
        for(size_t d = 0; d < gdimension; ++d) { it->second.lo[d] = 1e300; it->second.hi[d] = -1e300; }
      }
      NodeAgg & a = it->second;
      ++a.count; a.mass += b.mass(); a.m1 += b.mass() * b.coordinates(); a.p.push_back(&b);
      for(size_t d = 0; d < gdimension; ++d) { a.lo[d] = std::min(a.lo[d], b.coordinates()[d] - b.radius() / 2.); a.hi[d] = std::max(a.hi[d], b.coordinates()[d] + b.radius() / 2.); }
      if(k == key_type::root()) break;
    }
  }
  return m;
}
static void check_tree(Gen & g, int rank, int n, System & bs, const std::vector<body> & all, Aggs & aggs) {
  auto * t = bs.tree();
  using hc = tree_topology_t::hcell_t;
  if(aggs.empty()) aggs = aggregate(t->range(), all); // same domain on all ranks (C07)
  auto under = [&](key_type k) -> const NodeAgg & {
    auto it = aggs.find(kv(k));
    PBT_CHECK(g, it != aggs.end(), "rank %d: the tree has a cell without any particle", rank);
    return it->second;
  };
  std::map<size_t, int> leaf;
  std::map<size_t, const body *> byid;
  for(auto & b : all) byid[b.id()] = &b;
  size_t visited = 0, remote = 0;
  std::map<size_t, int> covered; // particles accounted for by leaves or closed nodes
  t->traversal(t->root(), [&](hc * c) {
    ++visited;
    PBT_CHECK(g, !c->is_unset(), "rank %d: a cell of the tree has neither particle nor summary", rank);
    if(c->is_node()) {
      node * nd = t->get_node(c);
      const NodeAgg & a = under(c->key());
      PBT_CHECK(g, nd->sub_entities() == a.count, "rank %d/%d: node claims %d particles, %ld are below it (%s)", rank, n, nd->sub_entities(), a.count, c->is_shared() ? "shared" : "local");
      PBT_CHECK(g, std::fabs(nd->mass() - a.mass) <= EPS * a.mass, "rank %d: node mass %.17g, particles below weigh %.17g", rank, nd->mass(), a.mass);
      double ext = 0, rmax = 0, lmax = 0;
      for(size_t d = 0; d < gdimension; ++d) ext = std::max(ext, std::fabs(a.lo[d]) + std::fabs(a.hi[d]));
      for(size_t d = 0; d < gdimension; ++d) {
        PBT_CHECK(g, std::fabs(nd->coordinates()[d] - a.m1[d] / a.mass) <= 1e-11 * ext, "rank %d: node centre of mass %.17g, should be %.17g", rank, nd->coordinates()[d], a.m1[d] / a.mass);
        PBT_CHECK(g, nd->bmin()[d] <= a.lo[d] + EPS * ext && nd->bmax()[d] >= a.hi[d] - EPS * ext, "rank %d: node bounds [%.17g,%.17g] do not enclose particles [%.17g,%.17g]", rank, nd->bmin()[d], nd->bmax()[d], a.lo[d], a.hi[d]);
        PBT_CHECK(g, nd->bmin()[d] >= a.lo[d] - EPS * ext && nd->bmax()[d] <= a.hi[d] + EPS * ext, "rank %d: node bounds [%.17g,%.17g] exceed those of its particles [%.17g,%.17g]", rank, nd->bmin()[d], nd->bmax()[d], a.lo[d], a.hi[d]);
      }
      for(auto * b : a.p) { double ds = std::sqrt(dist2(nd->coordinates(), b->coordinates())); rmax = std::max(rmax, ds); lmax = std::max(lmax, ds + b->radius()); }
      PBT_CHECK(g, nd->radius() >= rmax - EPS * ext, "rank %d: node radius %.17g, farthest particle at %.17g", rank, nd->radius(), rmax);
      PBT_CHECK(g, nd->lap() >= lmax - EPS * ext, "rank %d: node reach %.17g, smoothing spheres reach %.17g", rank, nd->lap(), lmax);
      if(c->is_empty_node()) {
        PBT_CHECK(g, c->owner() != rank && c->owner() >= 0 && c->owner() < n, "rank %d: closed node owned by %d", rank, c->owner());
        ++remote;
        for(auto * b : a.p) { PBT_CHECK(g, covered[b->id()]++ == 0, "rank %d: particle %zu is below two cells", rank, b->id()); }
        return false;
      }
      return true;
    }
    body * b = t->get_entity(c);
    PBT_CHECK(g, byid.count(b->id()), "rank %d: unknown particle in the tree", rank);
    PBT_CHECK(g, covered[b->id()]++ == 0, "rank %d: particle %zu is below two cells", rank, b->id());
    auto & below = under(c->key());
    PBT_CHECK(g, below.count == 1 && below.p[0]->id() == b->id(), "rank %d: particle %zu sits in a cell that is not its own", rank, b->id());
    auto ref = *byid[b->id()];
    same_particle(g, "tree leaf", *b, attrs(ref));
    return false;
  });
  PBT_CHECK(g, covered.size() == all.size(), "rank %d/%d: %zu of %zu particles are below the root", rank, n, covered.size(), all.size());
  for(auto & b : bs.getLocalbodies()) PBT_CHECK(g, covered[b.id()] == 1, "rank %d: local particle %zu is not in the tree", rank, b.id());
}
PROPERTY(tree_nodes, 2500, 250000) {
  int n = gen_ranks(g);
  auto c = gen_cloud(g, gen_n(g, n, 300), g.flip());
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  auto sch = mock::gen_sched(g);
  auto parts = deal(g, c.p, n);
  int mode = (int)g.u(3); // fresh, rebuilt, after a sweep
  g.note("ranks=%d mode=%d", n, mode);
  g.nontrivial(n > 1);
  g.label("ranks" + std::to_string(n));
  Aggs aggs;
  mock::run(n, sch.policy, sch.seed, [&](int r) {
    System bs;
    bs.getLocalbodies() = parts[r];
    bs.update_iteration();
    if(mode == 1) bs.reset_ghosts();
    if(mode == 2) bs.apply_in_smoothinglength([](body &, std::vector<body *> &) {});
    check_tree(g, r, n, bs, c.p, aggs);
  });
}

// ---------------------------------------------------------------- C09 -------
PROPERTY(radius_search, 2500, 250000) {
  size_t N = gen_n(g, 1, 400);
  auto c = gen_cloud(g, N, g.flip());
  drop_coincident(c.p);
  int nq = 1 + (int)g.u(6);
  struct Q { point_t c; double r; };
  std::vector<Q> qs;
  for(int i = 0; i < nq; ++i) {
    Q q;
    point_t base = c.p[g.u(c.p.size())].coordinates();
    int k = g.u(3);
    for(size_t d = 0; d < gdimension; ++d) q.c[d] = k == 0 ? base[d] : k == 1 ? base[d] + c.scale * g.real(-.1, .1) : c.scale * g.real(-4, 5);
    q.r = c.scale * g.pick({0.0, 1e-3, 0.05, 0.3, 1.0, 10.0});
    g.note("query(r=%g kind %d) ", q.r, k);
    qs.push_back(q);
  }
  long found = 0;
  mock::run(1, 0, 0, [&](int) {
    System bs;
    bs.getLocalbodies() = c.p;
    bs.update_iteration();
    for(auto & q : qs) {
      auto res = bs.tree()->find_in_radius(q.c, q.r, [] {});
      std::map<size_t, int> got;
      for(auto * e : res) PBT_CHECK(g, got[e->id()]++ == 0, "particle %zu returned twice", e->id());
      for(auto & b : c.p) {
        double d = std::sqrt(dist2(q.c, b.coordinates())), want = std::max(q.r, b.radius());
        double tol = 1e-9 * (want + d);
        // distances are formed from coordinates whose rounding scales with the box
        if(std::fabs(d - want) <= tol) continue;
        if(d < want) { PBT_CHECK(g, got.count(b.id()), "particle %zu at distance %.17g (own length %.17g) missing for radius %.17g", b.id(), d, b.radius(), q.r); ++found; }
        else PBT_CHECK(g, !got.count(b.id()), "particle %zu at distance %.17g (own length %.17g) returned for radius %.17g", b.id(), d, b.radius(), q.r);
      }
    }
  });
  g.nontrivial(found > 0 && found < (long)(nq * c.p.size()));
}

// ---------------------------------------------------------------- C10 -------
struct Sweep { // per rank, per sweep
  std::map<size_t, std::vector<size_t>> nb;
};
static std::vector<std::vector<double>> final_attrs;
static void check_sweep(Gen & g, const std::vector<std::vector<Sweep>> & sw, int step, const std::vector<body> & all, long & cross, const std::vector<std::vector<size_t>> & local) {
  std::map<size_t, const std::vector<size_t> *> lists;
  std::map<size_t, int> rank_of;
  for(size_t r = 0; r < sw.size(); ++r) {
    for(auto id : local[r]) rank_of[id] = (int)r;
    PBT_CHECK(g, sw[r][step].nb.size() == local[r].size(), "rank %zu owns %zu particles, %zu were processed", r, local[r].size(), sw[r][step].nb.size());
    for(auto & kv : sw[r][step].nb) lists[kv.first] = &kv.second;
  }
  PBT_CHECK(g, lists.size() == all.size(), "%zu of %zu particles were processed", lists.size(), all.size());
  for(auto & a : all) {
    auto & l = *lists[a.id()];
    std::map<size_t, int> got;
    for(auto id : l) PBT_CHECK(g, got[id]++ == 0, "particle %zu appears twice in the list of %zu", id, a.id());
    for(auto & b : all) {
      double d = std::sqrt(dist2(a.coordinates(), b.coordinates()));
      double sup = .5 * (a.radius() + b.radius()), mx = std::max(a.radius(), b.radius());
      double ext = 0;
      for(size_t k = 0; k < gdimension; ++k) ext += std::fabs(a.coordinates()[k]);
      double tol = 1e-12 * (mx + ext);
      if(d <= sup - tol) { PBT_CHECK(g, got.count(b.id()), "particle %zu (rank %d) misses neighbour %zu (rank %d) at %.17g, pair support %.17g", a.id(), rank_of[a.id()], b.id(), rank_of[b.id()], d, sup); if(rank_of[a.id()] != rank_of[b.id()]) ++cross; }
      else if(d > mx + tol) PBT_CHECK(g, !got.count(b.id()), "particle %zu got %zu at %.17g as neighbour, smoothing lengths %.17g and %.17g", a.id(), b.id(), d, a.radius(), b.radius());
    }
  }
}
static void neighbours_case(Gen & g, int n, Cloud & c, int steps, int sched_pairs) {
  uint64_t seed = g.u(1000);
  auto parts = deal(g, c.p, n);
  g.note("ranks=%d sweeps=%d", n, steps);
  g.label("ranks" + std::to_string(n));
  g.label(c.p.size() > 128 ? "n>128" : "n<=128");
  std::map<size_t, const body *> byid;
  std::vector<std::vector<Sweep>> first;
  for(int rep = 0; rep < sched_pairs; ++rep) {
    auto sch = mock::gen_sched(g);
    std::vector<std::vector<Sweep>> sw(n, std::vector<Sweep>(steps));
    std::vector<std::vector<size_t>> local(n);
    auto cur = c.p;
    std::vector<std::map<size_t, std::vector<double>>> want(steps);
    for(int s = 0; s < steps; ++s) for(auto b : c.p) { if(s) { point_t q = b.coordinates(); double m = b.mass(), h = b.radius(); fill_attrs(b, b.id(), seed + s); } want[s][b.id()] = attrs(b); }
    auto st = mock::run(n, sch.policy, sch.seed, [&](int r) {
      System bs;
      bs.getLocalbodies() = parts[r];
      bs.update_iteration();
      for(auto & b : bs.getLocalbodies()) local[r].push_back(b.id());
      for(int s = 0; s < steps; ++s) {
        if(s) {
          for(auto & b : bs.getLocalbodies()) fill_attrs(b, b.id(), seed + s);
          bs.reset_ghosts();
        }
        bs.apply_in_smoothinglength([&](body & a, std::vector<body *> & nb) {
          PBT_CHECK(g, !sw[r][s].nb.count(a.id()), "particle %zu processed twice in a sweep (rank %d)", a.id(), r);
          auto & l = sw[r][s].nb[a.id()];
          bool mine = false;
          for(auto & b : bs.getLocalbodies()) if(&b == &a) mine = true;
          PBT_CHECK(g, mine, "rank %d processed particle %zu which it does not own", r, a.id());
          for(auto * e : nb) {
            PBT_CHECK(g, want[s].count(e->id()), "unknown neighbour");
            if(l.size() < 400) same_particle(g, "neighbour", *e, want[s][e->id()]);
            l.push_back(e->id());
          }
          std::sort(l.begin(), l.end());
        });
      }
    });
    if(st.messages > 200) g.label("messages>200");
    if(st.delayed > 0) g.label("delayed deliveries");
    long cross = 0;
    for(int s = 0; s < steps; ++s) check_sweep(g, sw, s, c.p, cross, local);
    g.nontrivial(n == 1 ? c.p.size() > 1 : cross > 0);
    if(cross) g.label("remote neighbours");
    if(rep == 0) first = sw;
    else
      for(int r = 0; r < n; ++r) for(int s = 0; s < steps; ++s)
        PBT_CHECK(g, sw[r][s].nb == first[r][s].nb, "neighbour lists of rank %d differ between two schedules", r);
  }
}
PROPERTY(neighbours, 3000, 300000) {
  int n = gen_ranks(g);
  auto c = gen_cloud(g, gen_n(g, n), g.flip());
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  neighbours_case(g, n, c, 1 + (int)g.u(3), 1);
}
//! many particles per rank: groups of more than 128, more than 99 messages
PROPERTY(neighbours_big, 120, 12000) {
  int n = 1 + (int)g.u(9);
  auto c = gen_cloud(g, 700 + g.u(1800), g.flip(), true);
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  neighbours_case(g, n, c, 1, 1);
}
// ---------------------------------------------------------------- C11 -------
PROPERTY(schedules_sweep, 2500, 250000) {
  int n = g.pick({2, 3, 4, 5, 6, 7, 8, 9});
  auto c = gen_cloud(g, n + gen_n(g, n, 120), g.flip());
  drop_coincident(c.p);
  if((int)c.p.size() < n) g.discard();
  neighbours_case(g, n, c, 1 + (int)g.u(3), 2 + (int)g.u(2));
}
