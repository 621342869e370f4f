// Distributed sort and communication helpers on simulated ranks.
#include <iostream>
#include <iomanip>
#include <numeric>
#include <fstream>
#include <cassert>
#include <climits>
#include <stdexcept>
#include <mpi.h>
#include "mockmpi.h"
#include "user.h"
#include "tree.h"
#include "utils.h"
#include "psort.h"
#include "pbt.h"
using pbt::Gen;

static std::vector<size_t> gen_counts(Gen & g, int n, size_t big) {
  std::vector<size_t> c(n);
  int kind = g.u(6);
  size_t m = 1 + g.u(kind < 3 ? 12 : big);
  for(int i = 0; i < n; ++i) switch(kind) {
    case 0: case 3: c[i] = g.u(m + 1); break;              // any, zeros included
    case 1: case 4: c[i] = m + (i < (int)(m % n)); break;  // balanced
    case 2: c[i] = g.u(3) == 0 ? g.u(m + 1) : 0; break;    // mostly empty
    default: c[i] = i == (int)(m % n) ? m : g.u(3);        // one heavy
  }
  return c;
}
static int gen_ranks(Gen & g) { return g.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16}); }

struct Rec { uint64_t key; uint32_t id; double payload[3]; };
template<class T> struct Wrap { T v; };

static void sort_case(Gen & g, bool empties) {
  int n = gen_ranks(g);
  auto cnt = gen_counts(g, n, 300);
  if(!empties) for(auto & c : cnt) c = std::max<size_t>(c, 1);
  size_t total = std::accumulate(cnt.begin(), cnt.end(), (size_t)0);
  if(total == 0) { cnt[n - 1] = 1; total = 1; }
  int keyk = g.u(6);
  uint64_t range = g.pick({1ull, 2ull, 3ull, 7ull, 100ull, 1ull << 40, ~0ull});
  bool byid = g.flip();
  uint64_t s = g.u(1u << 30);
  auto sch = mock::gen_sched(g);
  pbt::Rng r(s);
  auto want = cnt;
  bool other = g.u(3) == 0; // another distribution is asked for
  if(other) {
    if(g.flip()) for(int i = 0; i < n; ++i) want[i] = total / n + (i < (int)(total % n));
    else { std::fill(want.begin(), want.end(), 0); for(size_t i = 0; i < total; ++i) want[r.below(n)]++; }
    g.label("other distribution");
  }
  std::vector<std::vector<Rec>> in(n), out(n);
  uint32_t id = 0;
  for(int i = 0; i < n; ++i) for(size_t j = 0; j < cnt[i]; ++j, ++id) {
    Rec x;
    x.id = id;
    switch(keyk) { case 0: case 1: x.key = r.below(range); break; case 2: x.key = id; break; case 3: x.key = total - id; break; case 4: x.key = (id * 7919) % (total + 1); break; default: x.key = (uint64_t)i; }
    for(int k = 0; k < 3; ++k) x.payload[k] = (double)pbt::mix64(id * 3 + k);
    in[i].push_back(x);
  }
  g.note("ranks=%d keys=%d range=%llu byid=%d seed=%llu counts:", n, keyk, (unsigned long long)range, byid, (unsigned long long)s);
  bool zero = false;
  for(auto c : cnt) { g.note(" %zu", c); zero = zero || c == 0; }
  g.label("ranks" + std::to_string(n));
  if(zero) g.label("a rank without records");
  g.nontrivial(n > 1 && total > (size_t)n);
  mock::run(n, sch.policy, sch.seed, [&](int me) {
    auto v = in[me];
    std::vector<int> dist(cnt.begin(), cnt.end()), to(want.begin(), want.end());
    auto sort = [&](auto comp) { if(other) psort::psort(v, comp, dist.data(), to.data()); else psort::psort(v, comp, dist.data()); };
    if(byid) sort([](auto & a, auto & b) { return a.key != b.key ? a.key < b.key : a.id < b.id; });
    else sort([](auto & a, auto & b) { return a.key < b.key; });
    for(int i = 0; i < n; ++i) PBT_CHECK(g, dist[i] == (int)cnt[i], "the caller's counts were changed");
    out[me] = v;
  });
  std::vector<int> seen(total, 0);
  std::vector<const Rec *> flat(total);
  for(auto & v : in) for(auto & x : v) flat[x.id] = &x;
  const Rec * last = nullptr;
  for(int i = 0; i < n; ++i) {
    PBT_CHECK(g, out[i].size() == want[i], "rank %d of %d has %zu records after the sort instead of %zu", i, n, out[i].size(), want[i]);
    for(auto & x : out[i]) {
      PBT_CHECK(g, x.id < total, "record that was not in the input");
      PBT_CHECK(g, seen[x.id]++ == 0, "record %u twice after the sort", x.id);
      PBT_CHECK(g, x.key == flat[x.id]->key && !memcmp(x.payload, flat[x.id]->payload, sizeof x.payload), "record %u changed", x.id);
      if(last) PBT_CHECK(g, last->key < x.key || (last->key == x.key && (!byid || last->id < x.id)), "record %u (rank %d) out of order: key %llu after %llu", x.id, i, (unsigned long long)x.key, (unsigned long long)last->key);
      last = &x;
    }
  }
}
PROPERTY(sort_nonempty, 12000, 1500000) { sort_case(g, false); }
PROPERTY(sort_any, 12000, 1500000) { sort_case(g, true); }

// ------------------------------------------------------------------ C30 ----
struct Elem { int src, dst, idx; double x; bool operator==(const Elem & o) const { return src == o.src && dst == o.dst && idx == o.idx && x == o.x; } };
static Elem el(int s, int d, int i) { return Elem{s, d, i, (double)pbt::mix64(s * 1000003 + d * 10007 + i)}; }
struct Byte3 { char c[3]; };
static std::vector<std::vector<int>> gen_matrix(Gen & g, int n) {
  std::vector<std::vector<int>> m(n, std::vector<int>(n));
  int kind = g.u(5), top = 1 + (int)g.u(g.flip() ? 4 : 60);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) switch(kind) {
    case 0: m[i][j] = (int)g.u(top + 1); break;
    case 1: m[i][j] = g.u(4) == 0 ? (int)g.u(top + 1) : 0; break;
    case 2: m[i][j] = i == j ? top : 0; break;
    case 3: m[i][j] = j == (i + 1) % n ? top : 0; break;
    default: m[i][j] = i == top % n ? (int)g.u(top + 1) : 0;
  }
  return m;
}
//! one helper per case; all are called one after the other in some cases
static void exchange_case(Gen & g, int which) {
  int n = gen_ranks(g);
  auto m = gen_matrix(g, n);
  int rounds = 1 + (int)g.u(3);
  auto sch = mock::gen_sched(g);
  g.note("helper %d ranks=%d rounds=%d matrix:", which, n, rounds);
  long tot = 0, self = 0;
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { g.note(" %d", m[i][j]); tot += m[i][j]; if(i == j) self += m[i][j]; }
  g.label("ranks" + std::to_string(n));
  if(self) g.label("data for oneself");
  g.nontrivial(tot > 0 && n > 1);
  mock::run(n, sch.policy, sch.seed, [&](int me) {
    for(int round = 0; round < rounds; ++round) {
      int sh = round * 100;
      std::vector<int> sc(n);
      std::vector<std::vector<Elem>> sb(n), rb(n);
      std::vector<Elem> flat, rflat;
      if(g.rec_.size() % 2) { rflat.resize(3); }
      for(int d = 0; d < n; ++d) { sc[d] = m[me][(d + round) % n]; for(int i = 0; i < sc[d]; ++i) { sb[d].push_back(el(me, d, i + sh)); flat.push_back(el(me, d, i + sh)); } }
      std::vector<Elem> want;
      for(int s = 0; s < n; ++s) for(int i = 0; i < m[s][(me + round) % n]; ++i) want.push_back(el(s, me, i + sh));
      if(which == 0) {
        auto c = sc;
        mpi_utils::mpi_alltoallv(c, flat, rflat);
        PBT_CHECK(g, rflat == want, "mpi_alltoallv: rank %d received %zu elements, %zu were addressed to it (or content/order differs)", me, rflat.size(), want.size());
      }
      else if(which == 1) {
        auto c = sc;
        mpi_utils::mpi_alltoallv_p2p(c, flat, rflat);
        PBT_CHECK(g, rflat == want, "mpi_alltoallv_p2p: rank %d received %zu elements, %zu were addressed to it (or content/order differs)", me, rflat.size(), want.size());
      }
      else if(which == 2) {
        auto c = sc;
        mpi_utils::mpi_alltoallv_p2p(c, sb, rb);
        std::vector<Elem> all;
        for(int s = 0; s < n; ++s) {
          PBT_CHECK(g, (int)rb[s].size() == m[s][(me + round) % n], "mpi_alltoallv_p2p (buckets): rank %d got %zu elements from %d instead of %d", me, rb[s].size(), s, m[s][(me + round) % n]);
          for(auto & e : rb[s]) all.push_back(e);
        }
        PBT_CHECK(g, all == want, "mpi_alltoallv_p2p (buckets): rank %d: wrong content", me);
      }
      else {
        std::vector<int> cnt;
        if(round) cnt.assign(round * 5, 77);
        std::vector<Elem> mine = sb[0], w2;
        mpi_utils::mpi_allgatherv(mine, rflat, cnt);
        for(int s = 0; s < n; ++s) for(int i = 0; i < m[s][round % n]; ++i) w2.push_back(el(s, 0, i + sh));
        PBT_CHECK(g, (int)cnt.size() == n, "mpi_allgatherv: %zu counts for %d ranks", cnt.size(), n);
        for(int s = 0; s < n; ++s) PBT_CHECK(g, cnt[s] == m[s][round % n], "mpi_allgatherv: rank %d: count of rank %d is %d, sent %d", me, s, cnt[s], m[s][round % n]);
        PBT_CHECK(g, rflat == w2, "mpi_allgatherv: rank %d gathered %zu elements, %zu were sent (or content/order differs)", me, rflat.size(), w2.size());
      }
      for(int d = 0; d < n; ++d) for(size_t i = 0; i < sb[d].size(); ++i) PBT_CHECK(g, sb[d][i] == el(me, d, (int)i + sh), "send buffer was modified");
    }
  });
}
PROPERTY(alltoallv, 4000, 400000) { exchange_case(g, 0); }
PROPERTY(alltoallv_p2p, 4000, 400000) { exchange_case(g, 1); }
PROPERTY(alltoallv_buckets, 4000, 400000) { exchange_case(g, 2); }
PROPERTY(allgatherv, 4000, 400000) { exchange_case(g, 3); }

template<class T> static T gen_val(Gen & g) {
  if constexpr(std::is_floating_point<T>::value) {
    switch(g.u(4)) { case 0: return (T)g.i(-5, 5); case 1: return (T)g.real(-1, 1); case 2: return (T)(g.real(-1, 1) * g.lreal(1e-30, 1e30)); default: return (T)g.pick({0.0, -0.0, 1e30, -1e30, 1e-30}); }
  }
  else if constexpr(std::is_same<T, int>::value) return g.u(3) == 0 ? (int)g.i(-100000000, 100000000) : (int)g.i(-4, 4);
  else return g.u(3) == 0 ? g.u64() : g.u(10);
}
template<class T> static void reduce_case(Gen & g) {
  int n = gen_ranks(g), op = g.u(3);
  std::vector<T> v;
  for(int i = 0; i < n; ++i) v.push_back(gen_val<T>(g));
  auto sch = mock::gen_sched(g);
  g.note("op=%d ranks=%d values:", op, n);
  for(auto x : v) g.note(" %.17g", (double)x);
  T lo = v[0], hi = v[0];
  long double sum = 0, mag = 0;
  uint64_t usum = 0;
  for(auto x : v) { lo = std::min(lo, x); hi = std::max(hi, x); sum += (long double)x; mag += std::fabs((long double)x); usum += (uint64_t)(int64_t)x; }
  g.nontrivial(lo != hi);
  mock::run(n, sch.policy, sch.seed, [&](int me) {
    T x = v[me];
    if(op == 0) { mpi_utils::reduce_min(x); PBT_CHECK(g, x == lo, "rank %d: minimum %.17g instead of %.17g", me, (double)x, (double)lo); }
    else if(op == 1) { mpi_utils::reduce_max(x); PBT_CHECK(g, x == hi, "rank %d: maximum %.17g instead of %.17g", me, (double)x, (double)hi); }
    else {
      mpi_utils::reduce_sum(x);
      if constexpr(std::is_floating_point<T>::value) PBT_CHECK(g, std::fabs((long double)x - sum) <= 4 * n * (long double)std::numeric_limits<T>::epsilon() * mag, "rank %d: sum %.17g instead of %.17Lg", me, (double)x, sum);
      else if constexpr(std::is_same<T, int>::value) PBT_CHECK(g, x == (int)sum, "rank %d: sum %d instead of %d", me, (int)x, (int)sum);
      else { uint64_t w = 0; for(auto y : v) w += y; PBT_CHECK(g, (uint64_t)x == w, "rank %d: sum %llu instead of %llu", me, (unsigned long long)x, (unsigned long long)w); }
    }
  });
}
PROPERTY(reductions, 12000, 1200000) {
  switch(g.u(4)) { case 0: g.label("double"); reduce_case<double>(g); break; case 1: g.label("float"); reduce_case<float>(g); break; case 2: g.label("int"); reduce_case<int>(g); break; default: g.label("uint64"); reduce_case<uint64_t>(g); }
}
// only the value itself is reduced
PROPERTY(reduce_in_place, 4000, 400000) {
  int n = gen_ranks(g), what = g.u(3), type = g.u(4);
  auto sch = mock::gen_sched(g);
  g.note("ranks=%d op=%d type=%d", n, what, type);
  g.nontrivial(n > 1);
  auto body = [&](int me, auto zero) {
    typedef decltype(zero) T;
    T a[5];
    for(int i = 0; i < 5; ++i) a[i] = T(10 * i + me + 1);
    if(what == 0) mpi_utils::reduce_min(a[2]); else if(what == 1) mpi_utils::reduce_sum(a[2]); else mpi_utils::reduce_max(a[2]);
    T want = what == 0 ? T(21) : what == 2 ? T(20 + n) : T(20 * n + n * (n + 1) / 2);
    PBT_CHECK(g, a[2] == want, "rank %d: reduced to %g instead of %g", me, (double)a[2], (double)want);
    for(int i = 0; i < 5; ++i) if(i != 2) PBT_CHECK(g, a[i] == T(10 * i + me + 1), "rank %d: element %d next to the reduced one changes to %g", me, i, (double)a[i]);
  };
  mock::run(n, sch.policy, sch.seed, [&](int me) { if(type == 0) body(me, 0.0); else if(type == 1) body(me, 0.0f); else if(type == 2) body(me, 0); else body(me, (uint64_t)0); });
}
PROPERTY(reduce_vector, 3000, 300000) {
  int n = gen_ranks(g);
  std::vector<point_t> v(n);
  std::array<long double, gdimension> s{}, m{};
  for(auto & p : v) for(size_t d = 0; d < gdimension; ++d) { p[d] = g.real(-1, 1) * g.pick({1., 1e10, 1e-10}); s[d] += p[d]; m[d] += std::fabs(p[d]); }
  auto sch = mock::gen_sched(g);
  g.note("ranks=%d", n);
  g.nontrivial(n > 1);
  mock::run(n, sch.policy, sch.seed, [&](int me) {
    point_t x = v[me];
    mpi_utils::reduce_sum(x);
    for(size_t d = 0; d < gdimension; ++d) PBT_CHECK(g, std::fabs(x[d] - s[d]) <= 1e-15L * 4 * n * m[d], "rank %d: component %zu of the sum is %.17g instead of %.17Lg", me, d, x[d], s[d]);
  });
}
// a failed assertion ends the run on whatever processes it fails, and only then
PROPERTY_ISOLATED(failed_assertion, 1500, 100000) {
  int n = gen_ranks(g);
  std::vector<char> ok(n, 1);
  bool bad = false;
  if(g.chance(3, 4)) for(auto & x : ok) if(g.u(n) == 0) { x = 0; bad = true; }
  int rounds = 1 + g.u(3), when = g.u(rounds);
  auto sch = mock::gen_sched(g);
  g.note("ranks=%d fails=%d round=%d/%d", n, (int)bad, when, rounds);
  g.label(bad ? "fails" : "holds");
  g.nontrivial(bad);
  if(!freopen("/dev/null", "w", stderr)) abort();
  std::string why;
  int past = 0;
  try {
    mock::run(n, sch.policy, sch.seed, [&](int me) {
      for(int k = 0; k < rounds; ++k) {
        int v = 1;
        MPI_Allreduce(MPI_IN_PLACE, &v, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        mpi_assert(k != when || ok[me]);
        if(k == when && !ok[me]) ++past;
      }
    });
  } catch(pbt::Failure & f) { why = f.msg; }
  PBT_CHECK(g, past == 0, "%d processes carry on after a failed assertion", past);
  if(bad) PBT_CHECK(g, why.find("MPI_Abort") != std::string::npos, "a failed assertion does not abort the run: %s", why.c_str());
  else PBT_CHECK(g, why.empty(), "assertions that hold end the run: %s", why.c_str());
}
