// Small property-based-testing engine (choice-sequence based, Hypothesis style).
//
// A property is a function void(pbt::Gen&).  All randomness of a case comes
// from Gen, which records a sequence of bounded integers ("choices").  A case
// is replayed by feeding the same choices back and is shrunk by simplifying
// the choice sequence (delete / zero / halve) and keeping what still fails.
// Cases run in forked worker processes: assertion failures, sanitizer reports,
// crashes, exit() calls and runaway CPU time in the code under test are all
// failures of the case that provoked them.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <signal.h>

#include "statics.h"

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

class Gen {
public:
  Gen(uint64_t seed) : rng_(seed), replay_(false) {}
  Gen(const std::vector<uint64_t> & c) : rng_(0), replay_(true), in_(c) {}

  //! Uniform integer in [0,n); 0 is the simplest value.
  uint64_t u(uint64_t n) {
    uint64_t v;
    if(n == 0) n = 1;
    if(replay_) v = pos_ < in_.size() ? in_[pos_] % n : 0;
    else v = rng_.next() % n;
    ++pos_;
    rec_.push_back(v);
    if(mirror_ && rec_.size() < mirror_cap_) { mirror_[rec_.size()] = v; mirror_[0] = rec_.size(); }
    return v;
  }
  //! Integer in [lo,hi], shrinking to lo.
  int64_t i(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)(hi - lo) + 1); }
  //! Size in [lo,hi] with small sizes favoured.
  int64_t size(int64_t lo, int64_t hi) {
    uint64_t k = u(4);
    int64_t span = hi - lo;
    int64_t m = k == 0 ? std::min<int64_t>(span, 4) : k == 1 ? std::min<int64_t>(span, 24) : k == 2 ? (span + 2) / 3 : span;
    return lo + (int64_t)u((uint64_t)m + 1);
  }
  uint64_t u64() {
    uint64_t hi = u(1ull << 32);
    return (hi << 32) | u(1ull << 32);
  }
  bool chance(int num, int den) { return (int)u(den) >= den - num; }
  bool flip() { return u(2) == 1; }
  //! Unit real in [0,1)
  double unit() { return (double)u(1ull << 44) / (double)(1ull << 44); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  //! log-uniform
  double lreal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
  template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + u(l.size())); }
  template<class T> const T & pick(const std::vector<T> & l) { return l[u(l.size())]; }

  // ---- case description -------------------------------------------------
  void note(const char * fmt, ...) __attribute__((format(printf, 2, 3))) {
    if(text_.size() > 6000) return;
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    text_ += b;
  }
  void label(const std::string & l) { labels_.insert(l); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void fail(const char * fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    throw Failure{b};
  }
  [[noreturn]] void discard() { throw Discard{}; }

  Rng rng_;
  bool replay_;
  std::vector<uint64_t> in_, rec_;
  size_t pos_ = 0;
  std::string text_;
  std::set<std::string> labels_;
  bool nontrivial_ = false;
  uint64_t * mirror_ = nullptr; // shared copy of rec_, survives a crash
  size_t mirror_cap_ = 0;
};

#define PBT_CHECK(g, cond, ...)                                               \
  do {                                                                        \
    if(!(cond)) (g).fail(__VA_ARGS__);                                        \
  } while(0)

using PropFn = void (*)(Gen &);
struct Prop {
  const char * name;
  PropFn fn;
  bool isolate; // one process per case
  long quick, thorough;
  double cpu_limit;
};
inline std::vector<Prop> & props() { static std::vector<Prop> p; return p; }
struct Reg {
  Reg(const char * n, PropFn f, bool iso, long q, long t, double cpu = 60) { // CPU seconds a case may take (a third of it in the quick tier)
    props().push_back({n, f, iso, q, t, cpu});
  }
};
#define PROPERTY(name, quick, thorough)                                       \
  static void name(pbt::Gen & g);                                             \
  static pbt::Reg reg_##name(#name, name, false, quick, thorough);            \
  static void name(pbt::Gen & g)
#define PROPERTY_ISOLATED(name, quick, thorough)                              \
  static void name(pbt::Gen & g);                                             \
  static pbt::Reg reg_##name(#name, name, true, quick, thorough);             \
  static void name(pbt::Gen & g)

// ---- execution ------------------------------------------------------------
enum Outcome { OK = 0, FAIL = 10, DISCARD = 11, CRASH = 12 };

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline double cpu() { // of this process and its children that ended
  double t = 0;
  for(int who : {RUSAGE_SELF, RUSAGE_CHILDREN}) { rusage r; getrusage(who, &r); t += r.ru_utime.tv_sec + r.ru_stime.tv_sec + 1e-6 * (r.ru_utime.tv_usec + r.ru_stime.tv_usec); }
  return t;
}

inline std::string jstr(const std::string & s) {
  std::string o = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Shared { // in shared memory, one per worker
  volatile uint64_t cur;
  volatile uint64_t done, nontrivial, discarded;
  double longest; // CPU seconds of a case
};

struct Engine {
  struct Result {
    std::string name;
    uint64_t cases = 0, nontrivial = 0, distinct = 0, discarded = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    bool failed = false;
    std::string msg, text;
    std::vector<uint64_t> choices;
    int shrinks = 0;
    double wall = 0, longest = 0;
  };

  uint64_t seed = 1;
  int workers = 4;
  double max_s = 60;
  double scale = 1;
  std::string tier = "quick", out, tmp;
  int shrink_max = 250;
  double shrink_s = 40;
  double limit(const Prop & p) const { return tier == "thorough" ? p.cpu_limit : p.cpu_limit / 3; }
  std::vector<Result> * sofar = nullptr; // results of earlier properties

  static Outcome run_one(const Prop & p, Gen & g, std::string & msg) {
    as_new_process();
    try { p.fn(g); }
    catch(Failure & f) { msg = f.msg; return FAIL; }
    catch(Discard &) { return DISCARD; }
    catch(std::exception & e) { msg = std::string("unexpected exception: ") + e.what(); return FAIL; }
    return OK;
  }
  static void arm(double s) {
    itimerval t{};
    t.it_value.tv_sec = (long)s;
    t.it_value.tv_usec = (long)((s - (long)s) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
  }
  void silence(const std::string & f) {
    int fd = open(f.c_str(), O_CREAT | O_RDWR | O_APPEND | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    int z = open("/dev/null", O_RDONLY);
    dup2(z, 0);
    close(z);
  }
  static uint64_t case_seed(uint64_t seed, const char * name, uint64_t idx) {
    uint64_t h = seed * 0x100000001b3ULL + 77;
    for(const char * c = name; *c; ++c) h = mix64(h ^ (unsigned char)*c);
    return mix64(h ^ mix64(idx + 1));
  }
  static void wr(FILE * f, const std::vector<uint64_t> & c) {
    uint64_t n = c.size();
    fwrite(&n, 8, 1, f);
    fwrite(c.data(), 8, n, f);
  }

  //! Run a case in a child process; returns outcome, message, choices, text.
  Outcome isolated(const Prop & p, Gen & g0, std::string & msg,
    std::vector<uint64_t> & choices, std::string & text,
    std::set<std::string> * labels = nullptr, bool * nt = nullptr) {
    std::string base = tmp + "/iso." + std::to_string(getpid());
    std::string rf = base + ".res", lf = base + ".log";
    // choices are recorded in shared memory so that they survive a crash
    const size_t CAP = 1 << 20;
    pid_t pid = fork();
    if(pid == 0) {
      silence(lf);
      arm(limit(p));
      Gen g = g0;
      std::string m;
      Outcome o = run_one(p, g, m);
      FILE * f = fopen(rf.c_str(), "w");
      wr(f, g.rec_);
      auto ws = [&](const std::string & s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); };
      ws(m);
      ws(g.text_);
      ws(g.nontrivial_ ? "1" : "0");
      std::string l;
      for(auto & x : g.labels_) l += x + "\n";
      ws(l);
      fclose(f);
      _exit(o);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if(WIFEXITED(st) && (WEXITSTATUS(st) == OK || WEXITSTATUS(st) == FAIL || WEXITSTATUS(st) == DISCARD)) {
      o = (Outcome)WEXITSTATUS(st);
      FILE * f = fopen(rf.c_str(), "r");
      bool got = false;
      if(f) {
        uint64_t n = 0;
        if(fread(&n, 8, 1, f) == 1 && n < CAP * 16) {
          got = true;
          choices.resize(n);
          if(n && fread(choices.data(), 8, n, f) != n) got = false;
        }
        auto rs = [&](std::string & s) { uint64_t k = 0; if(fread(&k, 8, 1, f) != 1) return; s.resize(k); if(k && fread(&s[0], 1, k, f) != k) s.clear(); };
        std::string b, l;
        rs(msg); rs(text); rs(b); rs(l);
        if(nt) *nt = b == "1";
        if(labels) { size_t a = 0, e; while((e = l.find('\n', a)) != std::string::npos) { labels->insert(l.substr(a, e - a)); a = e + 1; } }
        fclose(f);
      }
      if(!got) { o = CRASH; msg = "process of the case called exit(" + std::to_string(WEXITSTATUS(st)) + ")"; choices = g0.replay_ ? g0.in_ : std::vector<uint64_t>(); }
    }
    else {
      o = CRASH;
      if(WIFSIGNALED(st)) msg = WTERMSIG(st) == SIGPROF ? "case did not terminate within " + std::to_string((int)limit(p)) + " s of CPU time" : std::string("killed by signal ") + strsignal(WTERMSIG(st));
      else msg = "process of the case called exit(" + std::to_string(WEXITSTATUS(st)) + ")";
      // last lines of output: the assertion or sanitizer report
      FILE * f = fopen(lf.c_str(), "r");
      if(f) {
        fseek(f, 0, SEEK_END);
        long n = ftell(f);
        // prefer the beginning of a sanitizer report
        std::string s(std::min<long>(n, 200000), 0);
        fseek(f, n - (long)s.size(), SEEK_SET);
        size_t r = fread(&s[0], 1, s.size(), f);
        s.resize(r);
        fclose(f);
        size_t k = s.find("ERROR: AddressSanitizer");
        if(k == std::string::npos) k = s.find("runtime error:") == std::string::npos ? std::string::npos : s.rfind('\n', s.find("runtime error:"));
        if(k == std::string::npos) k = s.size() > 500 ? s.size() - 500 : 0;
        msg += ": " + s.substr(k, 500);
      }
      choices = g0.replay_ ? g0.in_ : std::vector<uint64_t>();
    }
    unlink(rf.c_str());
    unlink(lf.c_str());
    return o;
  }

  // A failure that needs what earlier cases left behind (static state of the
  // code under test) is replayed as the history of cases of its worker.
  static const uint64_t HISTORY = 0x68697374ull << 32;
  Outcome history(const Prop & p, const std::vector<uint64_t> & h, std::string & msg, std::string & text) {
    // h: HISTORY, seed, workers, first index, last index
    std::string rf = tmp + "/hist." + std::to_string(getpid()), lf = rf + ".log";
    pid_t pid = fork();
    if(pid == 0) {
      silence(lf);
      for(uint64_t idx = h[3]; idx <= h[4]; idx += h[2]) {
        Gen g(case_seed(h[1], p.name, idx));
        std::string m;
        FILE * f = fopen(rf.c_str(), "w");
        fprintf(f, "failed in a history of cases, at case %llu", (unsigned long long)idx);
        fclose(f);
        arm(limit(p));
        Outcome o = run_one(p, g, m);
        arm(0);
        if(o == FAIL) {
          f = fopen(rf.c_str(), "w");
          fprintf(f, "%s\n%s", m.c_str(), g.text_.c_str());
          fclose(f);
          _exit(FAIL);
        }
      }
      _exit(OK);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string all;
    if(FILE * f = fopen(rf.c_str(), "r")) { char b[4096]; size_t r; while((r = fread(b, 1, sizeof b, f)) > 0) all.append(b, r); fclose(f); }
    unlink(rf.c_str());
    unlink(lf.c_str());
    size_t k = all.find('\n');
    msg = "(after " + std::to_string((h[4] - h[3]) / h[2]) + " earlier cases in the same process) " + all.substr(0, k);
    text = k == std::string::npos ? "" : all.substr(k + 1);
    if(WIFEXITED(st) && WEXITSTATUS(st) == OK) return OK;
    return WIFEXITED(st) && WEXITSTATUS(st) == FAIL ? FAIL : CRASH;
  }

  // Choices of a case that crashes cannot be read back from the child: they
  // are regenerated by running with a Gen that mirrors into shared memory.
  static std::vector<uint64_t> regen(Engine & e, const Prop & p, uint64_t cs) {
    const size_t CAP = 1 << 21;
    uint64_t * m = (uint64_t *)mmap(nullptr, CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if(pid == 0) {
      e.silence("/dev/null");
      arm(e.limit(p));
      Gen g(cs);
      g.mirror_ = m;
      g.mirror_cap_ = CAP - 1;
      std::string msg;
      run_one(p, g, msg);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    std::vector<uint64_t> c(m + 1, m + 1 + m[0]);
    munmap(m, CAP * 8);
    return c;
  }

  Result run(const Prop & p) {
    Result R;
    R.name = p.name;
    double t0 = now();
    long want = (long)((tier == "thorough" ? p.thorough : p.quick) * scale);
    if(want < 1) want = 1;
    int W = (int)std::max<long>(1, std::min<long>(workers, want));
    Shared * sh = (Shared *)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile int * stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(W);
    double deadline = t0 + max_s;
    for(int w = 0; w < W; ++w) {
      sh[w].cur = ~0ull;
      pids[w] = fork();
      if(pids[w] == 0) {
        worker(p, w, W, want, deadline, sh[w], stop);
        _exit(0);
      }
    }
    int64_t bad = -1;
    bool crashed = false;
    for(int k = 0; k < W; ++k) {
      int st;
      pid_t q = wait(&st);
      for(int w = 0; w < W; ++w)
        if(pids[w] == q) {
          if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            *stop = 1;
            bool cr = !(WIFEXITED(st) && WEXITSTATUS(st) == 13);
            if(bad < 0 || (int64_t)sh[w].cur < bad) { bad = (int64_t)sh[w].cur; crashed = cr; }
          }
        }
    }
    std::set<uint64_t> hashes;
    for(int w = 0; w < W; ++w) {
      R.cases += sh[w].done;
      R.nontrivial += sh[w].nontrivial;
      R.discarded += sh[w].discarded;
      R.longest = std::max(R.longest, sh[w].longest);
      std::string hf = tmp + "/w" + std::to_string(w) + ".hash";
      if(FILE * f = fopen(hf.c_str(), "r")) {
        uint64_t h;
        while(fread(&h, 8, 1, f) == 1) hashes.insert(h);
        fclose(f);
        unlink(hf.c_str());
      }
      std::string lf = tmp + "/w" + std::to_string(w) + ".lab";
      if(FILE * f = fopen(lf.c_str(), "r")) {
        char b[512]; unsigned long long n;
        while(fscanf(f, "%llu %500[^\n]\n", &n, b) == 2) R.labels[b] += n;
        fclose(f);
        unlink(lf.c_str());
      }
      std::string sf = tmp + "/w" + std::to_string(w) + ".smp";
      if(FILE * f = fopen(sf.c_str(), "r")) {
        std::string cur; char b[8192];
        while(fgets(b, sizeof b, f)) { if(!strcmp(b, "\x1e\n")) { if(R.samples.size() < 6) R.samples.push_back(cur); cur.clear(); } else cur += b; }
        fclose(f);
        unlink(sf.c_str());
      }
      unlink((tmp + "/w" + std::to_string(w) + ".log").c_str());
    }
    R.distinct = hashes.size();
    if(bad >= 0) {
      R.failed = true;
      uint64_t cs = case_seed(seed, p.name, (uint64_t)bad);
      std::vector<uint64_t> c = regen(*this, p, cs);
      std::string msg, text;
      std::vector<uint64_t> got;
      Outcome o = isolated(p, *std::make_unique<Gen>(c), msg, got, text);
      if(o != FAIL && o != CRASH) {
        R.msg = "case " + std::to_string(bad) + (crashed ? " crashed" : " failed") + " in a worker but not when re-run alone (state carried over between cases or nondeterminism)";
        R.choices = c;
        // repeat what the worker did before, shortest history first
        if(!p.isolate)
          for(uint64_t back = 1;; back *= 4) {
            uint64_t k = (uint64_t)bad / W, first = back > k ? (uint64_t)bad % W : (uint64_t)bad - back * W;
            std::vector<uint64_t> h{HISTORY, seed, (uint64_t)W, first, (uint64_t)bad};
            std::string m, t;
            if(history(p, h, m, t) != OK) { R.choices = h; R.msg = m; R.text = t; break; }
            if(back > k || now() - t0 > max_s + shrink_s) break;
          }
      }
      else {
        R.msg = msg; R.text = text;
        R.choices = c;
        if(sofar && !out.empty()) { auto part = *sofar; part.push_back(R); emit(part); }
        R.choices = shrink(p, c, R);
      }
    }
    munmap(sh, sizeof(Shared) * W);
    munmap((void *)stop, 4096);
    R.wall = now() - t0;
    return R;
  }

  std::vector<uint64_t> shrink(const Prop & p, std::vector<uint64_t> best, Result & R) {
    double t0 = now();
    int tries = 0;
    auto attempt = [&](std::vector<uint64_t> c) {
      if(tries >= shrink_max || now() - t0 > shrink_s) return false;
      ++tries;
      std::string m, t;
      std::vector<uint64_t> rec;
      Gen g(c);
      Outcome o = isolated(p, g, m, rec, t);
      if(o != FAIL && o != CRASH) return false;
      R.msg = m;
      if(!t.empty()) R.text = t;
      if(o == FAIL && rec.size() <= c.size()) c = rec;
      while(!c.empty() && c.back() == 0) c.pop_back();
      best = c;
      ++R.shrinks;
      return true;
    };
    bool progress = true;
    while(progress && tries < shrink_max && now() - t0 < shrink_s) {
      progress = false;
      for(size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
        for(size_t a = 0; a + blk <= best.size();) {
          std::vector<uint64_t> c = best;
          c.erase(c.begin() + a, c.begin() + a + blk);
          if(c.size() < best.size() && attempt(c)) progress = true;
          else {
            bool allzero = true;
            for(size_t k = a; k < std::min(a + blk, best.size()); ++k) if(best[k]) allzero = false;
            if(!allzero) {
              c = best;
              for(size_t k = a; k < a + blk; ++k) c[k] = 0;
              if(attempt(c)) progress = true;
            }
            a += blk;
          }
          if(tries >= shrink_max) break;
        }
        if(blk == 1) break;
      }
      for(size_t a = 0; a < best.size() && tries < shrink_max; ++a) {
        uint64_t lo = 0, v = best[a];
        int it = 0;
        while(lo + 1 < v && it++ < 12 && a < best.size()) {
          std::vector<uint64_t> c = best;
          uint64_t mid = lo + (v - lo) / 2;
          c[a] = mid;
          if(attempt(c)) { v = mid; progress = true; if(a >= best.size()) break; }
          else lo = mid;
        }
      }
    }
    return best;
  }

  void worker(const Prop & p, int w, int W, long want, double deadline, Shared & s, volatile int * stop) {
    std::string base = tmp + "/w" + std::to_string(w);
    silence(base + ".log");
    FILE * hf = fopen((base + ".hash").c_str(), "w");
    FILE * sf = fopen((base + ".smp").c_str(), "w");
    std::map<std::string, uint64_t> labels;
    int samples = 0;
    int rc = 0;
    uint64_t k = 0;
    double start = now();
    for(uint64_t idx = w; idx < (uint64_t)want; idx += W, ++k) {
      if(*stop || now() > deadline) break;
      s.cur = idx;
      Gen g(case_seed(seed, p.name, idx));
      std::string msg;
      Outcome o;
      if(p.isolate) {
        std::vector<uint64_t> ch;
        std::string text;
        bool nt = false;
        std::set<std::string> lb;
        o = isolated(p, g, msg, ch, text, &lb, &nt);
        g.rec_ = ch; g.text_ = text; g.labels_ = lb; g.nontrivial_ = nt;
      }
      else {
        double c0 = cpu();
        arm(limit(p));
        o = run_one(p, g, msg);
        arm(0);
        s.longest = std::max(s.longest, cpu() - c0);
      }
      if(o == DISCARD) { ++s.discarded; continue; }
      ++s.done;
      if(o == FAIL || o == CRASH) { FILE * mf = fopen((base + ".msg").c_str(), "w"); fprintf(mf, "%s\n%s\n", msg.c_str(), g.text_.c_str()); fclose(mf); rc = 13; break; }
      for(auto & l : g.labels_) ++labels[l];
      if(g.nontrivial_) {
        ++s.nontrivial;
        uint64_t h = 1469598103934665603ull;
        for(uint64_t c : g.rec_) h = mix64(h ^ c);
        fwrite(&h, 8, 1, hf);
        if(samples < 2 && k % 7 == 3 && !g.text_.empty()) { ++samples; fprintf(sf, "%s\n\x1e\n", g.text_.substr(0, 700).c_str()); }
      }
      if((k & 63) == 0) { fflush(stdout); if(ftruncate(1, 0)) {} }
    }
    (void)start;
    fclose(hf);
    fclose(sf);
    FILE * lf = fopen((base + ".lab").c_str(), "w");
    for(auto & l : labels) fprintf(lf, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
    fclose(lf);
    _exit(rc);
  }

  void emit(const std::vector<Result> & rs) {
    FILE * f = fopen(out.c_str(), "w");
    fprintf(f, "[");
    for(size_t i = 0; i < rs.size(); ++i) {
      const Result & r = rs[i];
      fprintf(f, "%s{\"name\":%s,\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"discarded\":%llu,\"wall\":%.3f,\"longest\":%.3f,\"failed\":%s,\"shrinks\":%d",
        i ? "," : "", jstr(r.name).c_str(), (unsigned long long)r.cases, (unsigned long long)r.nontrivial, (unsigned long long)r.distinct,
        (unsigned long long)r.discarded, r.wall, r.longest, r.failed ? "true" : "false", r.shrinks);
      fprintf(f, ",\"labels\":{");
      bool first = true;
      for(auto & l : r.labels) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second); first = false; }
      fprintf(f, "},\"samples\":[");
      for(size_t k = 0; k < r.samples.size(); ++k) fprintf(f, "%s%s", k ? "," : "", jstr(r.samples[k]).c_str());
      fprintf(f, "],\"msg\":%s,\"text\":%s,\"choices\":[", jstr(r.msg).c_str(), jstr(r.text).c_str());
      for(size_t k = 0; k < r.choices.size(); ++k) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)r.choices[k]);
      fprintf(f, "]}");
    }
    fprintf(f, "]\n");
    fclose(f);
  }
};

inline int engine_main(int argc, char ** argv) {
  Engine e;
  std::string only, replay;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if(a == "--seed") e.seed = strtoull(val().c_str(), 0, 10);
    else if(a == "--workers") e.workers = atoi(val().c_str());
    else if(a == "--max-s") e.max_s = atof(val().c_str());
    else if(a == "--scale") e.scale = atof(val().c_str());
    else if(a == "--tier") e.tier = val();
    else if(a == "--out") e.out = val();
    else if(a == "--tmp") e.tmp = val();
    else if(a == "--prop") only = val();
    else if(a == "--replay") replay = val();
    else if(a == "--statics") { NewStatics::each([](const std::string & n, char *, size_t) { printf("%s\n", n.c_str()); }); return 0; }
    else if(a == "--list") { for(auto & p : props()) printf("%s\n", p.name); return 0; }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  if(e.tmp.empty()) { char t[] = "/tmp/pbtXXXXXX"; e.tmp = mkdtemp(t); }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  new_statics();
  std::vector<Engine::Result> rs;
  if(!replay.empty()) { // file: choices separated by blanks
    std::vector<uint64_t> c;
    FILE * f = fopen(replay.c_str(), "r");
    unsigned long long v;
    while(f && fscanf(f, "%llu", &v) == 1) c.push_back(v);
    if(f) fclose(f);
    for(auto & p : props())
      if(only == p.name) {
        std::string msg, text;
        std::vector<uint64_t> got;
        Gen g(c);
        Outcome o = c.size() == 5 && c[0] == Engine::HISTORY ? e.history(p, c, msg, text) : e.isolated(p, g, msg, got, text);
        Engine::Result r;
        r.name = p.name;
        r.cases = 1;
        r.failed = o == FAIL || o == CRASH;
        r.msg = msg; r.text = text; r.choices = c;
        rs.push_back(r);
        printf("%s: %s\n%s\n%s\n", p.name, r.failed ? "FAILS" : "passes", text.c_str(), msg.c_str());
        if(!e.out.empty()) e.emit(rs);
        return r.failed ? 1 : 0;
      }
    fprintf(stderr, "no such property function\n");
    return 2;
  }
  bool failed = false;
  int left = 0;
  auto wanted = [&](const Prop & p) { return only.empty() || only.find(std::string(",") + p.name + ",") != std::string::npos || only == p.name; };
  for(auto & p : props()) left += wanted(p);
  double t_end = now() + e.max_s;
  for(auto & p : props()) {
    if(!wanted(p)) continue;
    e.max_s = std::max(1.0, (t_end - now()) / std::max(1, left--));

    e.sofar = &rs;
    auto one = e.run(p);
    rs.push_back(one);
    failed = failed || rs.back().failed;
    if(!e.out.empty()) e.emit(rs);
    auto & r = rs.back();
    printf("%-34s cases=%llu nontrivial=%llu distinct=%llu discarded=%llu %.1fs longest=%.2fs %s\n", r.name.c_str(), (unsigned long long)r.cases,
      (unsigned long long)r.nontrivial, (unsigned long long)r.distinct, (unsigned long long)r.discarded, r.wall, r.longest, r.failed ? "FAILED" : "ok");
    if(r.failed) printf("  %s\n  %s\n", r.msg.c_str(), r.text.substr(0, 1500).c_str());
    for(auto & l : r.labels) printf("    %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    fflush(stdout);
  }
  return failed ? 1 : 0;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char ** argv) { return pbt::engine_main(argc, argv); }
#endif
