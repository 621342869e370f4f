// Scheduler and network of the in-process MPI.  Include once, in the driver.
//
// Every rank is a fibre.  Each MPI call that can interact with another rank is
// a scheduling point.  A generated policy decides which rank runs next and
// when a message in flight becomes visible (per pair of ranks messages stay in
// order, as MPI demands).  Synchronous sends transfer the data when they are
// matched, so a buffer that is reused or freed too early is really corrupted.
// When no rank can run and nothing is in flight: deadlock.  When ranks only
// poll and nothing happens for a long time: livelock.  Both fail the case.
#pragma once
#include "mpi.h"
#include "pbt.h"
#include <deque>
#include <memory>
#include <ucontext.h>
#include <functional>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define MOCK_ASAN 1
#endif

struct mock_req {
  bool done = false, is_recv = false;
  int rank = 0;
  // receive
  void * buf = nullptr; long cap = 0; int src = 0, tag = 0;
  MPI_Status st{};
};

namespace mock {
struct Msg { int src, dst, tag; const void * buf; std::vector<char> copy; bool eager; long bytes; mock_req * req; };
enum Kind { BARRIER, BCAST, REDUCE, ALLREDUCE, GATHER, GATHERV, ALLGATHER, ALLGATHERV, ALLTOALL, ALLTOALLV, SCATTER, SCAN, EXSCAN };
static const char * kname[] = {"Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Gatherv", "Allgather", "Allgatherv", "Alltoall", "Alltoallv", "Scatter", "Scan", "Exscan"};
struct CArgs { Kind k; const void * s; void * r; int sc, rc; MPI_Datatype st, rt; MPI_Op op; int root; const int *scv, *sd, *rcv, *rd; };
struct Coll { std::vector<CArgs> a; std::vector<bool> in; int n = 0; bool done = false; };
struct Rank {
  ucontext_t ctx;
  char * stack = nullptr;
  bool finished = false;
  std::function<bool()> pred; // empty: runnable
  size_t colls = 0;
  int prio = 0;
  void * fake = nullptr;
};
constexpr size_t STACK = 4 << 20;

struct World {
  int n = 1, cur = 0, live = -1;
  std::vector<Rank> r;
  ucontext_t sched;
  std::vector<std::deque<Msg *>> ch; // [src*n+dst]
  std::vector<size_t> vis;           // visible prefix of each channel
  std::deque<Coll> colls;
  size_t coll_base = 0;
  std::vector<std::deque<mock_req *>> posted; // irecv per rank
  std::string error;
  uint64_t events = 0, steps = 0, messages = 0, delayed = 0, collectives = 0;
  int policy = 0, slow = 0, floor = 0;
  pbt::Rng rng{1};
  std::function<void(int)> body;
  std::vector<int> dsize;
  void * sched_fake = nullptr; const void * sched_bottom = nullptr; size_t sched_sz = 0;
};
inline World *& W() { static World * w = nullptr; return w; }
inline std::vector<char *> & stack_pool() { static std::vector<char *> p; return p; }

inline void to_sched() {
  World & w = *W();
  Rank & me = w.r[w.cur];
#ifdef MOCK_ASAN
  __sanitizer_start_switch_fiber(me.finished ? nullptr : &me.fake, w.sched_bottom, w.sched_sz);
#endif
  swapcontext(&me.ctx, &w.sched);
#ifdef MOCK_ASAN
  __sanitizer_finish_switch_fiber(me.fake, nullptr, nullptr);
#endif
}
inline void block(std::function<bool()> p) { W()->r[W()->cur].pred = std::move(p); to_sched(); }
inline void yield() { to_sched(); }
[[noreturn]] inline void die(const std::string & m) {
  World & w = *W();
  if(w.error.empty()) w.error = "rank " + std::to_string(w.cur) + ": " + m;
  w.r[w.cur].pred = [] { return false; };
  while(true) to_sched();
}
inline void entry() {
  World & w = *W();
  int me = w.cur;
#ifdef MOCK_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &w.sched_bottom, &w.sched_sz);
#endif
  try { w.body(me); }
  catch(std::exception & e) { if(w.error.empty()) w.error = "rank " + std::to_string(me) + ": exception " + e.what(); }
  catch(pbt::Failure & f) { if(w.error.empty()) w.error = "rank " + std::to_string(me) + ": " + f.msg; }
  w.r[me].finished = true;
  ++w.events;
  while(true) to_sched();
}

inline long tsize(MPI_Datatype t) {
  switch(t) {
    case MPI_CHAR: case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: case MPI_UINT8_T: case MPI_CXX_BOOL: case MPI_C_BOOL: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG_DOUBLE: return sizeof(long double);
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG_INT: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: return 8;
    default:
      if(t >= MOCK_FIRST_DERIVED && t - MOCK_FIRST_DERIVED < (int)W()->dsize.size()) return W()->dsize[t - MOCK_FIRST_DERIVED];
      die("unknown MPI datatype " + std::to_string(t));
  }
}
inline void check_args(int peer, int count, const char * who) {
  World & w = *W();
  if(peer < 0 || peer >= w.n) die(std::string(who) + " with invalid rank " + std::to_string(peer) + " of " + std::to_string(w.n));
  if(count < 0) die(std::string(who) + " with negative count " + std::to_string(count));
}
inline Msg * find(int dst, int src, int tag) {
  World & w = *W();
  std::vector<Msg *> c;
  for(int s = 0; s < w.n; ++s) {
    if(src != MPI_ANY_SOURCE && s != src) continue;
    auto & q = w.ch[s * w.n + dst];
    size_t v = w.vis[s * w.n + dst];
    for(size_t i = 0; i < v; ++i) if(tag == MPI_ANY_TAG || q[i]->tag == tag) { c.push_back(q[i]); break; }
  }
  if(c.empty()) return nullptr;
  return c.size() == 1 || w.policy == 0 ? c[0] : c[w.rng.below(c.size())];
}
inline void unlink_msg(Msg * m) {
  World & w = *W();
  auto & q = w.ch[m->src * w.n + m->dst];
  for(size_t i = 0; i < q.size(); ++i) if(q[i] == m) { q.erase(q.begin() + i); --w.vis[m->src * w.n + m->dst]; return; }
}
//! Global variables of the code under test: every rank has its own copy, as
//! separate processes do.  own(x) declares one; the copies persist from one run
//! to the next with the same number of ranks until fresh() is called.
struct Globals {
  std::vector<std::pair<char *, size_t>> reg;
  std::vector<std::vector<char>> copy;
  std::vector<char> get() { std::vector<char> v; for(auto & q : reg) v.insert(v.end(), q.first, q.first + q.second); return v; }
  void set(const std::vector<char> & v) { size_t o = 0; for(auto & q : reg) { memcpy(q.first, v.data() + o, q.second); o += q.second; } }
};
inline Globals & globals() { static Globals g; return g; }
template<class T> void own(T & x) { globals().reg.emplace_back((char *)&x, sizeof(T)); }
//! own() for every variable of these namespaces and of the functions in them,
//! found in the symbol table
inline void own_namespaces(std::initializer_list<const char *> ns) {
  pbt::NewStatics::each([&](const std::string & n, char * p, size_t s) {
    for(const char * q : ns) {
      std::string in = std::to_string(strlen(q)) + q;
      bool var = n.compare(0, 3 + in.size(), "_ZN" + in) == 0 && n.back() == 'E';
      for(const char * pre : {"_ZZN", "_ZGVZN"}) var = var || n.compare(0, strlen(pre) + in.size(), pre + in) == 0;
      if(var) globals().reg.emplace_back(p, s);
    }
  });
}
inline void fresh() { pbt::new_statics().reset(); globals().copy.clear(); }
//! make the copy of one rank the current one
inline void look_at(int rank) { if((size_t)rank < globals().copy.size()) globals().set(globals().copy[rank]); }

//! where a variable of a rank is at this moment: the running rank's are in place,
//! the others' in their copies
inline void * at(int rank, const void * p) {
  Globals & g = globals();
  World & w = *W();
  if(g.reg.empty() || p == MPI_IN_PLACE || rank == w.live || (size_t)rank >= g.copy.size()) return (void *)p;
  size_t o = 0;
  for(auto & q : g.reg) {
    if((const char *)p >= q.first && (const char *)p < q.first + q.second) return g.copy[rank].data() + o + ((const char *)p - q.first);
    o += q.second;
  }
  return (void *)p;
}

inline void deliver_to(Msg * m, void * buf, long cap, MPI_Status * st) {
  buf = at(m->dst, buf);
  World & w = *W();
  if(m->bytes > cap) die("message of " + std::to_string(m->bytes) + " bytes truncated by a receive of " + std::to_string(cap));
  if(m->bytes) memcpy(buf, m->eager ? m->copy.data() : (const char *)at(m->src, m->buf), m->bytes);
  if(st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->mock_bytes = m->bytes; }
  if(m->req) m->req->done = true;
  unlink_msg(m);
  delete m;
  ++w.events;
}
inline mock_req * post_send(const void * b, int count, MPI_Datatype t, int dst, int tag, bool sync, bool want_req) {
  World & w = *W();
  check_args(dst, count, "send");
  if(tag < 0) die("send with negative tag");
  Msg * m = new Msg{w.cur, dst, tag, b, {}, false, count * tsize(t), nullptr};
  m->eager = !sync && (w.policy == 0 || w.rng.below(2));
  mock_req * q = new mock_req;
  q->rank = w.cur;
  m->req = q;
  if(m->eager) { m->copy.assign((const char *)b, (const char *)b + m->bytes); q->done = true; m->req = nullptr; }
  w.ch[w.cur * w.n + dst].push_back(m);
  if(w.policy == 0) ++w.vis[w.cur * w.n + dst];
  ++w.events; ++w.messages;
  return q;
}
inline bool try_recv(mock_req * q) {
  Msg * m = find(q->rank, q->src, q->tag);
  if(!m) return false;
  deliver_to(m, q->buf, q->cap, &q->st);
  q->done = true;
  return true;
}
inline void progress_posted(int rank) {
  World & w = *W();
  auto & p = w.posted[rank];
  for(size_t i = 0; i < p.size();) if(p[i]->done || try_recv(p[i])) p.erase(p.begin() + i); else ++i;
}

inline void reduce_into(char * acc, const char * in, int n, MPI_Datatype t, MPI_Op op) {
  auto go = [&](auto z) {
    using T = decltype(z);
    T * a = (T *)acc; const T * b = (const T *)in;
    for(int i = 0; i < n; ++i) {
      T x, y; memcpy(&x, a + i, sizeof x); memcpy(&y, b + i, sizeof y);
      switch(op) { case MPI_SUM: x = x + y; break; case MPI_MIN: x = y < x ? y : x; break; case MPI_MAX: x = x < y ? y : x; break; case MPI_PROD: x = x * y; break;
        case MPI_LAND: x = x && y; break; case MPI_LOR: x = x || y; break; default: die("unsupported reduction"); }
      memcpy(a + i, &x, sizeof x);
    }
  };
  switch(t) {
    case MPI_INT: case MPI_INT32_T: go(int()); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: go(unsigned()); break;
    case MPI_LONG: case MPI_LONG_LONG_INT: case MPI_INT64_T: go(int64_t()); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: go(uint64_t()); break;
    case MPI_DOUBLE: go(double()); break;
    case MPI_FLOAT: go(float()); break;
    case MPI_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_SIGNED_CHAR: go((signed char)0); break;
    case MPI_CXX_BOOL: case MPI_C_BOOL: case MPI_UINT8_T: case MPI_UNSIGNED_CHAR: go((unsigned char)0); break;
    default: die("reduction on unsupported type");
  }
}

inline void finish_coll(Coll & c) {
  World & w = *W();
  int n = w.n;
  CArgs & a0 = c.a[0];
  for(int i = 1; i < n; ++i) {
    CArgs & a = c.a[i];
    if(a.k != a0.k || a.root != a0.root || a.op != a0.op) die(std::string("mismatched collectives: rank 0 in ") + kname[a0.k] + ", rank " + std::to_string(i) + " in " + kname[a.k]);
  }
  auto S = [&](int i) { return (const char *)at(i, c.a[i].s); };
  auto R = [&](int i) { return (char *)at(i, c.a[i].r); };
  auto need = [&](long x, long y) { if(x != y) die(std::string(kname[a0.k]) + ": ranks disagree on sizes (" + std::to_string(x) + " and " + std::to_string(y) + " bytes)"); };
  switch(a0.k) {
    case BARRIER: break;
    case BCAST:
      for(int i = 0; i < n; ++i) if(i != a0.root) {
        need((long)c.a[i].rc * tsize(c.a[i].rt), (long)c.a[a0.root].rc * tsize(c.a[a0.root].rt));
        memcpy(R(i), R(a0.root), (long)c.a[i].rc * tsize(c.a[i].rt));
      }
      break;
    case REDUCE: case ALLREDUCE: {
      long b = (long)a0.rc * tsize(a0.rt);
      std::vector<char> acc;
      for(int i = 0; i < n; ++i) {
        need((long)c.a[i].rc * tsize(c.a[i].rt), b);
        const char * in = S(i) == MPI_IN_PLACE ? R(i) : S(i);
        if(i == 0) acc.assign(in, in + b); else reduce_into(acc.data(), in, a0.rc, a0.rt, a0.op);
      }
      for(int i = 0; i < n; ++i) if(a0.k == ALLREDUCE || i == a0.root) memcpy(R(i), acc.data(), b);
      break;
    }
    case SCAN: case EXSCAN: {
      long b = (long)a0.rc * tsize(a0.rt);
      std::vector<char> acc;
      for(int i = 0; i < n; ++i) {
        const char * in = S(i) == MPI_IN_PLACE ? R(i) : S(i);
        std::vector<char> mine(in, in + b);
        if(a0.k == EXSCAN && i > 0) memcpy(R(i), acc.data(), b);
        if(i == 0) acc = mine; else reduce_into(acc.data(), mine.data(), a0.rc, a0.rt, a0.op);
        if(a0.k == SCAN) memcpy(R(i), acc.data(), b);
      }
      break;
    }
    case ALLGATHER: case GATHER: case ALLGATHERV: case GATHERV:
      for(int d = 0; d < n; ++d) {
        if((a0.k == GATHER || a0.k == GATHERV) && d != a0.root) continue;
        bool v = a0.k == ALLGATHERV || a0.k == GATHERV;
        long rt = tsize(c.a[d].rt);
        for(int s = 0; s < n; ++s) {
          long cnt = v ? c.a[d].rcv[s] : c.a[d].rc;
          long off = v ? c.a[d].rd[s] : (long)s * c.a[d].rc;
          if(S(s) == MPI_IN_PLACE) {
            // contribution already sits at its place in the sender's receive buffer
            long so = v ? c.a[s].rd[s] : (long)s * c.a[s].rc;
            if(s != d) memcpy(R(d) + off * rt, R(s) + so * tsize(c.a[s].rt), cnt * rt);
          }
          else {
            need((long)c.a[s].sc * tsize(c.a[s].st), cnt * rt);
            memcpy(R(d) + off * rt, S(s), cnt * rt);
          }
        }
      }
      break;
    case ALLTOALL:
      for(int d = 0; d < n; ++d)
        for(int s = 0; s < n; ++s) {
          if(S(s) == MPI_IN_PLACE) die("Alltoall in place is not modelled");
          long b = (long)c.a[d].rc * tsize(c.a[d].rt);
          need((long)c.a[s].sc * tsize(c.a[s].st), b);
          memcpy(R(d) + s * b, S(s) + d * b, b);
        }
      break;
    case ALLTOALLV:
      for(int d = 0; d < n; ++d)
        for(int s = 0; s < n; ++s) {
          long b = (long)c.a[d].rcv[s] * tsize(c.a[d].rt);
          need((long)c.a[s].scv[d] * tsize(c.a[s].st), b);
          if(b) memcpy(R(d) + (long)c.a[d].rd[s] * tsize(c.a[d].rt), S(s) + (long)c.a[s].sd[d] * tsize(c.a[s].st), b);
        }
      break;
    case SCATTER:
      for(int d = 0; d < n; ++d) { long b = (long)c.a[d].rc * tsize(c.a[d].rt); memcpy(R(d), S(a0.root) + d * b, b); }
      break;
  }
}
inline void coll(CArgs a) {
  World & w = *W();
  yield();
  size_t id = w.r[w.cur].colls++;
  while(w.colls.size() + w.coll_base <= id) { w.colls.emplace_back(); w.colls.back().a.resize(w.n); }
  Coll & c = w.colls[id - w.coll_base];
  c.a[w.cur] = a;
  ++c.n; ++w.events;
  if(c.n == w.n) { finish_coll(c); c.done = true; ++w.collectives; return; }
  block([id] { World & w = *W(); return w.colls[id - w.coll_base].done; });
}

//! Run body(rank) on n ranks; throws pbt::Failure on deadlock, misuse, ...
struct Stats { uint64_t messages, steps, delayed; };
inline Stats run(int n, int policy, uint64_t seed, std::function<void(int)> body) {
  World w;
  w.n = n; w.policy = policy; w.rng = pbt::Rng(seed); w.body = body;
  w.r.resize(n); w.ch.resize(n * n); w.vis.assign(n * n, 0); w.posted.resize(n);
  w.slow = (int)w.rng.below(n);
  W() = &w;
  auto & pool = stack_pool();
  while((int)pool.size() < n) pool.push_back((char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for(int i = 0; i < n; ++i) {
    getcontext(&w.r[i].ctx);
    w.r[i].stack = pool[i];
    w.r[i].ctx.uc_stack.ss_sp = pool[i];
    w.r[i].ctx.uc_stack.ss_size = STACK;
    w.r[i].ctx.uc_link = nullptr;
    w.r[i].prio = (int)w.rng.below(1000);
    makecontext(&w.r[i].ctx, (void (*)())entry, 0);
  }
  Globals & G = globals();
  pbt::NewStatics & ns = pbt::new_statics();
  if(!ns.on_reset && !ns.reg.empty()) {
    for(auto & q : ns.reg) G.reg.push_back(q);
    G.copy.clear();
    ns.on_reset = [] { globals().copy.clear(); };
  }
  const bool own_globals = !G.reg.empty();
  if(own_globals && (int)G.copy.size() != n) G.copy.assign(n, G.get());
  uint64_t last_events = 0, idle = 0;
  int rr = 0;
  std::vector<int> run, chs;
  while(true) {
    if(!w.error.empty()) break;
    // deliveries
    chs.clear();
    for(int c = 0; c < n * n; ++c) if(w.vis[c] < w.ch[c].size()) chs.push_back(c);
    for(int i = 0; i < n; ++i) if(!w.posted[i].empty()) progress_posted(i);
    run.clear();
    bool all = true;
    for(int i = 0; i < n; ++i) {
      if(w.r[i].finished) continue;
      all = false;
      if(!w.r[i].pred || w.r[i].pred()) run.push_back(i);
    }
    if(all) break;
    if(!chs.empty()) {
      bool d;
      if(run.empty()) d = true;
      else switch(w.policy) { case 1: d = w.rng.below(chs.size() + run.size()) < chs.size(); break; case 2: d = w.rng.below(5) == 0; break; case 3: d = w.rng.below(30) == 0; break; default: d = w.rng.below(3) == 0; }
      if(d) { int c = chs[w.rng.below(chs.size())]; size_t k = 1 + (w.rng.below(3) == 0 ? w.rng.below(w.ch[c].size() - w.vis[c]) : 0); w.vis[c] += std::min(k, w.ch[c].size() - w.vis[c]); ++w.events; continue; }
      ++w.delayed;
    }
    if(run.empty()) {
      w.error = "deadlock:";
      for(int i = 0; i < n; ++i) w.error += std::string(" rank ") + std::to_string(i) + (w.r[i].finished ? " finished" : " blocked") + " after " + std::to_string(w.r[i].colls) + " collectives;";
      break;
    }
    int pick;
    switch(w.policy) {
      case 0: { pick = run[0]; for(int k = 0; k < n; ++k) { int c = (rr + k) % n; bool ok = false; for(int x : run) ok = ok || x == c; if(ok) { pick = c; break; } } rr = pick + 1; break; }
      case 2: { pick = run[0]; for(int x : run) if(w.r[x].prio > w.r[pick].prio) pick = x; if(w.rng.below(12) == 0) w.r[pick].prio = --w.floor; break; }
      case 4: { pick = run[w.rng.below(run.size())]; if(pick == w.slow && run.size() > 1 && w.rng.below(25)) while(pick == w.slow) pick = run[w.rng.below(run.size())]; break; }
      default: pick = run[w.rng.below(run.size())];
    }
    w.cur = pick;
    w.r[pick].pred = nullptr;
    ++w.steps;
    if(w.events != last_events) { last_events = w.events; idle = 0; }
    else if(++idle > 400000) { w.error = "livelock: ranks keep polling, nothing is in flight or completed"; break; }
#ifdef MOCK_ASAN
    __sanitizer_start_switch_fiber(&w.sched_fake, pool[pick], STACK);
#endif
    if(own_globals) G.set(G.copy[pick]);
    w.live = pick;
    swapcontext(&w.sched, &w.r[pick].ctx);
    w.live = -1;
    if(own_globals) G.copy[pick] = G.get();
#ifdef MOCK_ASAN
    __sanitizer_finish_switch_fiber(w.sched_fake, nullptr, nullptr);
#endif
  }
  Stats st{w.messages, w.steps, w.delayed};
  std::string err = w.error;
  if(err.empty())
    for(int c = 0; c < n * n; ++c) if(!w.ch[c].empty()) err = "message from rank " + std::to_string(c / n) + " to rank " + std::to_string(c % n) + " (tag " + std::to_string(w.ch[c][0]->tag) + ") was never received";
  W() = nullptr;
  if(own_globals) G.set(G.copy[0]);
  if(!err.empty()) throw pbt::Failure{err};
  return st;
}
//! generated scheduling policy
struct Sched { int policy; uint64_t seed; };
inline Sched gen_sched(pbt::Gen & g) {
  Sched s;
  s.policy = (int)g.u(5);
  s.seed = s.policy ? g.u(1u << 20) : 0;
  g.note("schedule(policy %d,%llu) ", s.policy, (unsigned long long)s.seed);
  return s;
}
} // namespace mock

extern "C" {
using namespace mock;
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int r, int * p) { if(p) *p = r; return 0; }
int MPI_Initialized(int * f) { *f = 1; return 0; }
int MPI_Finalized(int * f) { *f = 0; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int c) { if(W()) die("MPI_Abort(" + std::to_string(c) + ")"); exit(c ? c : 1); }
int MPI_Comm_rank(MPI_Comm, int * r) { *r = W() ? W()->cur : 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int * s) { *s = W() && c != MPI_COMM_SELF ? W()->n : 1; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm * d) { *d = c; return 0; }
int MPI_Comm_free(MPI_Comm *) { return 0; }
double MPI_Wtime() { return pbt::now(); }
int MPI_Get_processor_name(char * b, int * n) { strcpy(b, "mock"); *n = 4; return 0; }
int MPI_Type_contiguous(int c, MPI_Datatype t, MPI_Datatype * o) { long s = (long)c * tsize(t); W()->dsize.push_back((int)s); *o = MOCK_FIRST_DERIVED + (int)W()->dsize.size() - 1; return 0; }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype * t) { *t = 0; return 0; }
int MPI_Type_size(MPI_Datatype t, int * s) { *s = (int)tsize(t); return 0; }
static void finish_send(mock_req * q) { if(!q->done) block([q] { return q->done; }); delete q; }
int MPI_Send(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { yield(); if(d == MPI_PROC_NULL) return 0; finish_send(post_send(b, c, t, d, tag, false, true)); return 0; }
int MPI_Ssend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { yield(); if(d == MPI_PROC_NULL) return 0; finish_send(post_send(b, c, t, d, tag, true, true)); return 0; }
int MPI_Isend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) { yield(); *r = nullptr; if(d == MPI_PROC_NULL) return 0; *r = post_send(b, c, t, d, tag, false, true); return 0; }
int MPI_Issend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) { yield(); *r = nullptr; if(d == MPI_PROC_NULL) return 0; *r = post_send(b, c, t, d, tag, true, true); return 0; }
int MPI_Recv(void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status * st) {
  yield();
  if(s == MPI_PROC_NULL) { if(st) { st->MPI_SOURCE = s; st->MPI_TAG = MPI_ANY_TAG; st->mock_bytes = 0; } return 0; }
  if(s != MPI_ANY_SOURCE) check_args(s, c, "receive");
  int me = W()->cur;
  long cap = (long)c * tsize(t);
  block([=] { return find(me, s, tag) != nullptr; });
  deliver_to(find(me, s, tag), b, cap, st);
  return 0;
}
int MPI_Irecv(void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request * r) {
  yield();
  *r = nullptr;
  if(s == MPI_PROC_NULL) return 0;
  mock_req * q = new mock_req;
  q->is_recv = true; q->rank = W()->cur; q->buf = b; q->cap = (long)c * tsize(t); q->src = s; q->tag = tag;
  W()->posted[W()->cur].push_back(q);
  *r = q;
  return 0;
}
int MPI_Sendrecv(const void * sb, int sc, MPI_Datatype st, int d, int stag, void * rb, int rc, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status * status) {
  yield();
  mock_req * q = d == MPI_PROC_NULL ? nullptr : post_send(sb, sc, st, d, stag, false, true);
  MPI_Recv(rb, rc, rt, s, rtag, c, status);
  if(q) finish_send(q);
  return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status * st) {
  yield();
  int me = W()->cur;
  block([=] { return find(me, s, tag) != nullptr; });
  Msg * m = find(me, s, tag);
  if(st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->mock_bytes = m->bytes; }
  return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm, int * flag, MPI_Status * st) {
  yield();
  Msg * m = find(W()->cur, s, tag);
  *flag = m != nullptr;
  if(m && st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->mock_bytes = m->bytes; }
  return 0;
}
int MPI_Get_count(const MPI_Status * st, MPI_Datatype t, int * n) { long z = tsize(t); *n = st->mock_bytes % z ? MPI_UNDEFINED : (int)(st->mock_bytes / z); return 0; }
static void retire(MPI_Request * r, MPI_Status * st) { if(st && (*r)->is_recv) *st = (*r)->st; delete *r; *r = nullptr; }
int MPI_Test(MPI_Request * r, int * flag, MPI_Status * st) {
  yield();
  if(!*r) { *flag = 1; return 0; }
  *flag = (*r)->done;
  if(*flag) retire(r, st);
  return 0;
}
int MPI_Testall(int n, MPI_Request * r, int * flag, MPI_Status * st) {
  yield();
  *flag = 1;
  for(int i = 0; i < n; ++i) if(r[i] && !r[i]->done) *flag = 0;
  if(*flag) for(int i = 0; i < n; ++i) if(r[i]) retire(&r[i], st ? st + i : nullptr);
  return 0;
}
int MPI_Wait(MPI_Request * r, MPI_Status * st) {
  yield();
  if(!*r) return 0;
  mock_req * q = *r;
  if(!q->done) block([q] { return q->done; });
  retire(r, st);
  return 0;
}
int MPI_Waitall(int n, MPI_Request * r, MPI_Status * st) { for(int i = 0; i < n; ++i) MPI_Wait(&r[i], st ? st + i : nullptr); return 0; }
int MPI_Barrier(MPI_Comm) { coll({BARRIER}); return 0; }
int MPI_Bcast(void * b, int c, MPI_Datatype t, int root, MPI_Comm) { coll({BCAST, b, b, c, c, t, t, 0, root}); return 0; }
int MPI_Reduce(const void * s, void * r, int c, MPI_Datatype t, MPI_Op o, int root, MPI_Comm) { coll({REDUCE, s, r, c, c, t, t, o, root}); return 0; }
int MPI_Allreduce(const void * s, void * r, int c, MPI_Datatype t, MPI_Op o, MPI_Comm) { coll({ALLREDUCE, s, r, c, c, t, t, o, 0}); return 0; }
int MPI_Scan(const void * s, void * r, int c, MPI_Datatype t, MPI_Op o, MPI_Comm) { coll({SCAN, s, r, c, c, t, t, o, 0}); return 0; }
int MPI_Exscan(const void * s, void * r, int c, MPI_Datatype t, MPI_Op o, MPI_Comm) { coll({EXSCAN, s, r, c, c, t, t, o, 0}); return 0; }
int MPI_Gather(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, int root, MPI_Comm) { coll({GATHER, s, r, sc, rc, st, rt, 0, root}); return 0; }
int MPI_Gatherv(const void * s, int sc, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, int root, MPI_Comm) { coll({GATHERV, s, r, sc, 0, st, rt, 0, root, nullptr, nullptr, rc, rd}); return 0; }
int MPI_Allgather(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, MPI_Comm) { coll({ALLGATHER, s, r, sc, rc, st, rt, 0, 0}); return 0; }
int MPI_Allgatherv(const void * s, int sc, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, MPI_Comm) { coll({ALLGATHERV, s, r, sc, 0, st, rt, 0, 0, nullptr, nullptr, rc, rd}); return 0; }
int MPI_Alltoall(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, MPI_Comm) { coll({ALLTOALL, s, r, sc, rc, st, rt, 0, 0}); return 0; }
int MPI_Alltoallv(const void * s, const int * sc, const int * sd, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, MPI_Comm) { coll({ALLTOALLV, s, r, 0, 0, st, rt, 0, 0, sc, sd, rc, rd}); return 0; }
int MPI_Scatter(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, int root, MPI_Comm) { coll({SCATTER, s, r, sc, rc, st, rt, 0, root}); return 0; }
}
