// Tree cells and the cell lookup table against plain models.
#include <iostream>
#include <iomanip>
#include <numeric>
#include <fstream>
#include <cassert>
#include <mpi.h>
#include "mockmpi.h"
#include "user.h"
#include "tree.h"
#include "tree_topology/hashtable.h"
#include "pbt.h"
#include "cloud.h"
using pbt::Gen;
using hc = tree_topology_t::hcell_t;
constexpr int NC = 1 << gdimension;

struct Model {
  uint64_t key; std::set<int> child; int node = -1, ent = -1, owner, recv = 0; bool shared = false, requested = false;
};
static void same(Gen & g, hc & c, const Model & m, int rank, const char * op) {
  PBT_CHECK(g, (uint64_t)c.key().value() == m.key, "after %s: key changed", op);
  for(int i = 0; i < NC; ++i) PBT_CHECK(g, c.get_child(i) == (m.child.count(i) > 0), "after %s: child %d is %s", op, i, c.get_child(i) ? "reported but was never added" : "lost");
  PBT_CHECK(g, c.nchildren() == (int)m.child.size(), "after %s: %d children, %zu were added", op, c.nchildren(), m.child.size());
  PBT_CHECK(g, c.has_child() == !m.child.empty(), "after %s: has_child() is %d with %zu children", op, (int)c.has_child(), m.child.size());
  PBT_CHECK(g, c.node_idx() == m.node && c.entity_idx() == m.ent, "after %s: indices (%d,%d), were set to (%d,%d)", op, c.node_idx(), c.entity_idx(), m.node, m.ent);
  PBT_CHECK(g, c.owner() == m.owner && c.iam_owner() == (m.owner == rank), "after %s: owner %d (mine: %d), set to %d on rank %d", op, c.owner(), (int)c.iam_owner(), m.owner, rank);
  PBT_CHECK(g, c.is_shared() == m.shared, "after %s: shared is %d", op, (int)c.is_shared());
  PBT_CHECK(g, c.requested() == m.requested, "after %s: requested is %d", op, (int)c.requested());
  PBT_CHECK(g, c.nchildren_to_receive() == m.recv, "after %s: children to receive %d, set to %d", op, c.nchildren_to_receive(), m.recv);
  PBT_CHECK(g, c.is_unset() == (m.node == -1 && m.ent == -1), "after %s: is_unset() is %d", op, (int)c.is_unset());
  if(m.node != -1 || m.ent != -1) {
    PBT_CHECK(g, c.is_node() == (m.node != -1) && c.is_entity() == (m.node == -1), "after %s: node/particle kind is wrong", op);
    bool empty = m.node != -1 && (m.child.empty() || m.recv > (int)m.child.size());
    PBT_CHECK(g, c.is_empty_node() == empty, "after %s: is_empty_node() is %d, %zu children of %d", op, (int)c.is_empty_node(), m.child.size(), m.recv);
  }
}
PROPERTY(cell_updates, 60000, 6000000) {
  int n = 1 + (int)g.u(8), me = (int)g.u(n), steps = 1 + (int)g.u(40);
  uint64_t k = 1 + g.u(1ull << 40);
  int ent0 = g.flip() ? (int)g.u(1000) : -1;
  struct Op { int k, a; };
  std::vector<Op> ops;
  for(int i = 0; i < steps; ++i) ops.push_back({(int)g.u(8), (int)g.u(1u << 20)});
  g.note("rank %d/%d key=%llu entity=%d ops:", me, n, (unsigned long long)k, ent0);
  for(auto & o : ops) g.note(" %d(%d)", o.k, o.a);
  std::set<int> kinds;
  for(auto & o : ops) kinds.insert(o.k);
  g.nontrivial(kinds.size() > 2);
  mock::run(n, 0, 0, [&](int r) {
    if(r != me) return;
    hc c = ent0 >= 0 ? hc(key_type(k), ent0) : hc(key_type(k));
    Model m;
    m.key = k; m.ent = ent0; m.owner = me;
    same(g, c, m, me, "construction");
    for(auto & o : ops) {
      const char * name = "";
      switch(o.k) {
        case 0: case 1: name = "add_child"; c.add_child(o.a % NC); m.child.insert(o.a % NC); break;
        case 2: // a cell is a node or holds a particle
          if(m.ent == -1) { name = "set_node_idx"; c.set_node_idx(o.a); m.node = o.a; }
          else { name = "set_entity_idx"; c.set_entity_idx(o.a); m.ent = o.a; }
          break;
        case 3: if(m.node == -1) { name = "set_entity_idx"; c.set_entity_idx(o.a % 3 ? o.a : -1); m.ent = o.a % 3 ? o.a : -1; } break;
        case 4: name = "set_owner"; c.set_owner(o.a % (n + 1) ); m.owner = o.a % (n + 1); break;
        case 5: name = "set_shared"; c.set_shared(); m.shared = true; break;
        case 6: if(o.a % 3) { name = "set_requested"; c.set_requested(); m.requested = true; } else { name = "unset_requested"; c.unset_requested(); m.requested = false; } break;
        case 7: name = "set_nchildren_to_receive"; c.set_nchildren_to_receive(o.a % (NC + 1)); m.recv = o.a % (NC + 1); break;
      }
      same(g, c, m, me, name);
      hc d = c; // cells are copied around by the table
      same(g, d, m, me, "copy");
    }
  });
}

using table = hashtable<key_type, hc>;
static table & shared_table() { static table t; return t; }
PROPERTY(table_map, 2000, 60000) {
  table & t = shared_table();
  t.~table(); // every case starts from a new table
  new(&t) table;
  mock::run(1, 0, 0, [&](int) {
    int rounds = 1 + (int)g.u(2), total = 0, coll = 0;
    for(int rd = 0; rd < rounds; ++rd) {
      if(rd) { t.clear(); g.label("cleared"); }
      std::map<uint64_t, int> model;
      std::map<uint64_t, int> bucket;
      PBT_CHECK(g, t.size() == 0, "emptied table has %zu elements", t.size());
      int nb = 1 + (int)g.u(6), n = 1 + (int)g.u(g.flip() ? 30 : 400);
      std::vector<uint64_t> low;
      for(int i = 0; i < nb; ++i) low.push_back(g.u(4) == 0 ? g.pick({0ull, 1ull, (1ull << 22) - 1, 1ull << 21}) : g.u(1ull << 22));
      g.note("round %d: %d buckets, %d operations;", rd, nb, n);
      for(int i = 0; i < n; ++i) {
        uint64_t k = low[g.u(nb)] | (g.u(g.flip() ? 4 : 1ull << 41) << 22);
        if(g.u(8) == 0) k = g.u(1ull << 62);
        if(g.u(5) < 3 && !model.count(k)) {
          int idx = (int)g.u(1u << 20);
          t.emplace(key_type(k), hc(key_type(k), idx));
          model[k] = idx;
          if(bucket[k & ((1ull << 22) - 1)]++) ++coll;
        }
        auto it = t.find(key_type(k));
        bool has = it != t.end();
        PBT_CHECK(g, has == (model.count(k) > 0), "key %llu is %s", (unsigned long long)k, has ? "found but was never inserted" : "lost");
        if(has) {
          PBT_CHECK(g, (uint64_t)it->first.value() == k && (uint64_t)it->second.key().value() == k && it->second.entity_idx() == model[k], "key %llu leads to another cell", (unsigned long long)k);
          if(g.u(4) == 0) { int v = (int)g.u(1000); it->second.set_entity_idx(v); model[k] = v; } // update in place
        }
        PBT_CHECK(g, t.size() == model.size(), "table reports %zu elements, %zu were inserted", t.size(), model.size());
      }
      for(auto & kv : model) {
        auto it = t.find(key_type(kv.first));
        PBT_CHECK(g, it != t.end() && it->second.entity_idx() == kv.second, "key %llu lost or changed", (unsigned long long)kv.first);
      }
      total += (int)model.size();
    }
    if(coll) g.label("collisions");
    g.nontrivial(total > 1 && coll > 0);
  });
}
//! a table on dirty memory is empty
PROPERTY(table_fresh, 16, 60) {
  int fill = (int)g.u(256);
  g.note("memory filled with %d", fill);
  g.nontrivial(fill);
  void * m = malloc(sizeof(table));
  memset(m, fill, sizeof(table));
  table * t = new(m) table;
  size_t n = t->size();
  t->~table();
  free(m);
  PBT_CHECK(g, n == 0, "a new table reports %zu elements", n);
}

//! nodes and particles are copied around by the tree and sent between ranks: a copy is the same record
template<int ORDER>
static void node_copy(Gen & g) {
  using node = node_u<key_type, ORDER>;
  uint64_t k = 1 + g.u(1ull << 40), salt = g.u(1u << 20);
  pbt::Rng r(salt);
  auto num = [&] { return (double)r.below(1u << 30) / 1024 - 5000; };
  auto pt = [&] { point_t p; for(int d = 0; d < gdimension; ++d) p[d] = num(); return p; };
  auto fill = [&](auto & t) { double * d = reinterpret_cast<double *>(&t); for(size_t i = 0; i < sizeof(t) / sizeof(double); ++i) d[i] = num(); };
  node n{key_type(k)};
  PBT_CHECK(g, (uint64_t)n.key().value() == k && n.mass() == 0 && n.radius() == 0 && n.sub_entities() == 0 && flecsi::magnitude(n.coordinates()) == 0 && !n.affected(), "a new node is not empty");
  point_t x = pt(), lo = pt(), hi = pt(), f = pt();
  double m = num(), rad = num(), lap = num(), pc = num();
  int sub = (int)r.below(1u << 30);
  bool aff = r.below(2);
  n.set_coordinates(x); n.set_bmin(lo); n.set_bmax(hi); n.set_mass(m); n.set_radius(rad); n.set_lap(lap); n.set_sub_entities(sub); n.set_affected(aff);
  n.pc() = pc; n.fc() = f;
  if constexpr(ORDER >= 2) { fill(n.quad()); fill(n.dfcdr()); }
  if constexpr(ORDER >= 3) { fill(n.octo()); fill(n.dfcdrdr()); }
  if constexpr(ORDER >= 4) { fill(n.hexa()); fill(n.dfcdrdrdr()); }
  std::unique_ptr<node> o;
  char junk = (char)g.u(256);
  void * mem = ::operator new(sizeof(node));
  memset(mem, junk, sizeof(node)); // nothing must be left as it was
  node & c = *(new(mem) node(n));
  auto same = [&](auto & a, auto & b) { return memcmp(&a, &b, sizeof(a)) == 0; };
  bool ok = (uint64_t)c.key().value() == k && c.coordinates() == x && c.bmin() == lo && c.bmax() == hi && c.mass() == m && c.radius() == rad && c.lap() == lap && c.sub_entities() == sub && c.affected() == aff && c.pc() == pc && c.fc() == f;
  if constexpr(ORDER >= 2) ok = ok && same(c.quad(), n.quad()) && same(c.dfcdr(), n.dfcdr());
  if constexpr(ORDER >= 3) ok = ok && same(c.octo(), n.octo()) && same(c.dfcdrdr(), n.dfcdrdr());
  if constexpr(ORDER >= 4) ok = ok && same(c.hexa(), n.hexa()) && same(c.dfcdrdrdr(), n.dfcdrdrdr());
  PBT_CHECK(g, ok, "the copy of a node (expansion of order %d) differs from it", ORDER);
  c.~node();
  ::operator delete(mem);
}
PROPERTY(record_copy, 20000, 1000000) {
  int order = 1 + (int)g.u(4);
  g.note("order %d ", order);
  g.nontrivial();
  if(order == 1) node_copy<1>(g);
  if(order == 2) node_copy<2>(g);
  if(order == 3) node_copy<3>(g);
  if(order == 4) node_copy<4>(g);
  body b;
  int steps = 1 + (int)g.u(10);
  point_t x = b.coordinates();
  double m = b.mass(), h = b.radius();
  uint64_t key = 0; size_t id = b.id(); int owner = b.owner();
  b.set_key(key_type(0));
  for(int i = 0; i < steps; ++i) {
    switch(g.u(7)) {
      case 0: for(int d = 0; d < gdimension; ++d) x[d] = g.lreal(1e-300, 1e300); b.set_coordinates(x); break;
      case 1: m = g.lreal(1e-300, 1e300); b.set_mass(m); break;
      case 2: h = g.lreal(1e-300, 1e300); b.set_radius(h); break;
      case 3: key = g.u(~0ull); b.set_key(key_type(key)); break;
      case 4: id = g.u(~0ull); b.set_id(id); break;
      case 5: owner = (int)g.u(1u << 31); b.set_owner(owner); break;
      case 6: { uint64_t s = g.u(1000); fill_attrs(b, id, s); owner = b.owner(); break; }
    }
    body c;
    if(g.flip()) c = b; else { body d(b); c = d; }
    PBT_CHECK(g, c.coordinates() == x && c.mass() == m && c.radius() == h && (uint64_t)c.key().value() == key && c.id() == id && c.owner() == owner, "a particle is not what it was set to");
    auto p = attrs(b), q = attrs(c);
    for(size_t k = 0; k < p.size(); ++k) PBT_CHECK(g, memcmp(&p[k], &q[k], 8) == 0, "attribute %zu of a copied particle is %.17g, was %.17g", k, q[k], p[k]);
  }
}
//! every attribute of a particle is kept on its own
PROPERTY(record_fields, 5000, 100000) {
  body b;
  b.set_id(g.u(100)); b.set_mass(3); b.set_radius(2);
  uint64_t salt = g.u(1u << 20);
  fill_attrs(b, b.id(), salt);
  g.nontrivial();
  auto before = attrs(b);
  double v = g.real(1, 2);
  int which = (int)g.u(34);
  g.note("setter %d to %g", which, v);
  point_t p; for(int d = 0; d < gdimension; ++d) p[d] = v + d;
  int n = gdimension, at = 0; // position of the attribute in attrs()
  bool vec = which < 5;
  if(vec) { at = which * n; } else at = 5 * n + (which - 5);
  double want = v;
  switch(which) {
    case 0: b.set_coordinates(p); break; case 1: b.setVelocity(p); break; case 2: b.setVelocityhalf(p); break;
    case 3: b.setAcceleration(p); break; case 4: b.setGAcceleration(p); break;
    case 5: b.set_mass(v); break; case 6: b.set_radius(v); break; case 7: b.setGPotential(v); break; case 8: b.setDensity(v); break;
    case 9: b.setPressure(v); break; case 10: b.setEntropy(v); break; case 11: b.setElectronfraction(v); break; case 12: b.setTemperature(v); break;
    case 13: b.setSoundspeed(v); break; case 14: b.setInternalenergy(v); break; case 15: b.setTotalenergy(v); break; case 16: b.setDudt(v); break;
    case 17: b.setDedt(v); break; case 18: b.setAdiabatic(v); break; case 19: b.setDadt(v); break; case 20: b.setDt(v); break; case 21: b.setAlpha(v); break;
    case 22: b.setDivergenceV(v); break; case 23: b.setDdivvdt(v); break; case 24: b.setTrigger(v); break; case 25: b.setXi(v); break;
    case 26: b.setTraceSS(v); break; case 27: b.setGradV(v); break; case 28: b.setPressuremin(v); break; case 29: b.setSignalspeed(v); break;
    case 30: b.setType(want = (int)b.getType() ? 0 : 1); break; case 31: want = (int)g.u(4); b.set_state((int)want); break;
    case 32: want = (double)g.u(1u << 20); b.setNeighbors((size_t)want); break; case 33: want = (double)g.u(1u << 20); b.set_id((size_t)want); break;
  }
  auto after = attrs(b);
  for(size_t i = 0; i < before.size(); ++i) {
    double e = before[i];
    if(vec && (int)i >= at && (int)i < at + n) e = v + (i - at);
    if(!vec && (int)i == at) e = want;
    PBT_CHECK(g, after[i] == e, "after setting attribute %d, attribute %zu is %.17g, should be %.17g", which, i, after[i], e);
  }
}
