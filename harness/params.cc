// C24: parameter files against a table of (name, kind) and a plain model of
// the file format.
#include <cassert>
#include <cstdint>
#include "pbt.h"
#include "mockmpi.h"
#include "user.h"
#include "params.h"
using namespace pbt;

enum PKind { KB, KI, KF, KS, KK };
struct Ent { const char * name; PKind kind; void * p; int bits; bool sgn; };
template<class T> Ent num(const char * n, T & v) {
  if constexpr(std::is_same<T, bool>::value) return {n, KB, &v, 1, false};
  else if constexpr(std::is_floating_point<T>::value) return {n, KF, &v, (int)sizeof(T) * 8, true};
  else return {n, KI, &v, (int)sizeof(T) * 8, std::is_signed<T>::value};
}
static std::vector<Ent> table() {
  std::vector<Ent> t;
#define P_B(n) t.push_back(num(#n, param::_##n));
#define P_I(n) P_B(n)
#define P_F(n) P_B(n)
#define P_S(n) t.push_back({#n, KS, param::_##n, 0, false});
#include "params.inc"
#undef P_B
#undef P_I
#undef P_F
#undef P_S
  return t;
}
static const std::vector<Ent> T = table();
// what the rest of the code sees: the read-only references
struct Val { bool b = false; int64_t i = 0; double f = 0; std::string s; };
static Val get(const Ent & e) {
  Val v;
  switch(e.kind) {
    case KB: v.b = *(bool *)e.p; break;
    case KF: v.f = *(double *)e.p; break;
    case KS: v.s = (const char *)e.p; break;
    case KI: v.i = e.bits == 64 ? *(int64_t *)e.p : e.bits == 32 ? *(int32_t *)e.p : e.sgn ? *(int16_t *)e.p : *(uint16_t *)e.p; break;
    default: break;
  }
  return v;
}
static void put(const Ent & e, const Val & v) {
  switch(e.kind) {
    case KB: *(bool *)e.p = v.b; break;
    case KF: *(double *)e.p = v.f; break;
    case KS: strcpy((char *)e.p, v.s.c_str()); break;
    case KI: if(e.bits == 64) *(int64_t *)e.p = v.i; else if(e.bits == 32) *(int32_t *)e.p = v.i; else *(int16_t *)e.p = v.i; break;
    default: break;
  }
}
static bool same(PKind k, const Val & a, const Val & b) { return k == KB ? a.b == b.b : k == KI ? a.i == b.i : k == KF ? a.f == b.f : a.s == b.s; }
static std::string show(PKind k, const Val & a) { char b[64]; if(k == KB) return a.b ? "yes" : "no"; if(k == KS) return "\"" + a.s + "\""; if(k == KI) snprintf(b, 64, "%lld", (long long)a.i); else snprintf(b, 64, "%.17g", a.f); return b; }
struct State { std::vector<Val> v; int kern, eos, visc; };
static State current() { State s; for(auto & e : T) s.v.push_back(get(e)); s.kern = param::_sph_kernel; s.eos = param::_eos_type; s.visc = param::_sph_viscosity; return s; }
static const State defaults = current();
static void restore() {
  for(size_t i = 0; i < T.size(); ++i) put(T[i], defaults.v[i]);
  param::_sph_kernel = (param::sph_kernel_keyword)defaults.kern;
  param::_eos_type = (param::eos_type_keyword)defaults.eos;
  param::_sph_viscosity = (param::sph_viscosity_keyword)defaults.visc;
}
struct KW { const char * param; const char * word; int val; };
static const KW kws[] = {
  {"sph_kernel", "cubic_spline", param::cubic_spline}, {"sph_kernel", "quintic_spline", param::quintic_spline}, {"sph_kernel", "wendland_c2", param::wendland_c2},
  {"sph_kernel", "wendland_c4", param::wendland_c4}, {"sph_kernel", "wendland_c6", param::wendland_c6}, {"sph_kernel", "gaussian", param::gaussian},
  {"sph_kernel", "super_gaussian", param::super_gaussian}, {"sph_kernel", "sinc_ker", param::sinc_ker},
  {"eos_type", "ideal_fluid", param::eos_ideal}, {"eos_type", "polytropic", param::eos_polytropic}, {"eos_type", "wd", param::eos_wd}, {"eos_type", "white_dwarf", param::eos_wd},
  {"eos_type", "ppt", param::eos_ppt}, {"eos_type", "piecewise_polytropic", param::eos_ppt}, {"eos_type", "no_eos", param::eos_no_eos}, {"eos_type", "none", param::eos_no_eos},
  {"sph_viscosity", "constant", param::visc_constant}, {"sph_viscosity", "cullen", param::visc_cullen}};

static std::string blanks(Gen & g) { std::string s; for(int n = g.u(4) ? g.u(3) : g.u(12); n > 0; --n) s += g.flip() ? ' ' : '\t'; return s; }
static std::string junk(Gen & g) {
  static const char cs[] = "abcXYZ019 =#'\".,:;+-_/\\()[]\t%&!";
  std::string s;
  for(int n = g.size(0, 30); n > 0; --n) s += cs[g.u(sizeof cs - 1)];
  return s;
}
static std::string text(Gen & g, int maxlen) {
  static const char cs[] = "abcdefgXYZ0123456789_-./:,=+*()[] ";
  std::string s;
  int n = g.u(12) == 0 ? g.i(maxlen > 20 ? maxlen - 20 : 0, maxlen) : g.size(0, 40);
  for(; n > 0; --n) s += cs[g.u(sizeof cs - 1)];
  return s;
}
static std::string quote(Gen & g, const std::string & s) { const char * q = g.flip() ? "\"" : "'"; return q + s + q; }
static std::string number(Gen & g, const Ent & e, Val & v) {
  char b[80];
  if(e.kind == KI) {
    int64_t lim = e.bits == 64 ? INT64_MAX : e.bits == 32 ? INT32_MAX : e.sgn ? INT16_MAX : UINT16_MAX;
    int64_t lo = e.sgn ? -lim : 0;
    switch(g.u(5)) {
      case 0: v.i = g.i(0, 9); break;
      case 1: v.i = g.pick({lim, lo, lim - 1}); break;
      case 2: v.i = (int64_t)(g.u64() >> 1) % lim; break;
      default: v.i = g.i(std::max<int64_t>(lo, -1000), 30000);
    }
    snprintf(b, 80, g.u(6) == 0 && v.i >= 0 ? "+%lld" : "%lld", (long long)v.i);
  } else {
    double x = g.flip() ? g.real(-10, 10) : (g.flip() ? -1 : 1) * pow(10, g.real(-300, 300));
    static const char * f[] = {"%.17g", "%.3g", "%.0e", "%.12E", "%g", "%.5f"};
    if(fabs(x) > 1e30) snprintf(b, 80, f[g.u(4)], x); else snprintf(b, 80, f[g.u(6)], x);
    std::string s = b;
    if(g.u(8) == 0) { // "1." and ".5" and "1.e-4"
      snprintf(b, 80, "%d.e%d", (int)g.i(-99, 99), (int)g.i(-20, 20));
    } else if(g.u(8) == 0) snprintf(b, 80, ".%d", (int)g.i(0, 999));
    v.f = strtod(b, nullptr);
  }
  return b;
}
struct File { std::string text; State want; };
static std::string assign(Gen & g, const std::string & n, const std::string & v, bool comment_ok = true) {
  std::string l = blanks(g) + n + blanks(g) + "=" + blanks(g) + v + blanks(g);
  if(comment_ok && g.u(3) == 0) l += "#" + junk(g);
  return l + "\n";
}
static void valid_line(Gen & g, File & f, int maxlen = 510) {
  switch(g.u(10)) {
    case 0: f.text += blanks(g) + "\n"; return;
    case 1: f.text += blanks(g) + "#" + junk(g) + "\n"; return;
    case 2: {
      const KW & k = kws[g.u(sizeof kws / sizeof *kws)];
      std::string w = k.word;
      for(auto & c : w) { if(c == '_' && g.flip()) c = ' '; else if(g.u(4) == 0) c = toupper(c); }
      if(g.flip()) w = quote(g, w);
      f.text += assign(g, k.param, w);
      (k.param[0] == 'e' ? f.want.eos : k.param[4] == 'k' ? f.want.kern : f.want.visc) = k.val;
      return;
    }
  }
  size_t i = g.u(T.size());
  const Ent & e = T[i];
  Val v;
  std::string s;
  if(e.kind == KB) { v.b = g.flip(); s = v.b ? (g.flip() ? "yes" : "true") : (g.flip() ? "no" : "false"); if(g.u(4) == 0) s = quote(g, s); }
  else if(e.kind == KS) {
    v.s = text(g, maxlen);
    bool plain = !v.s.empty() && v.s[0] != ' ' && v.s.back() != ' ' && v.s[0] != '\'' && v.s[0] != '"';
    s = plain && g.u(3) == 0 ? v.s : quote(g, v.s);
  } else { s = number(g, e, v); if(g.u(10) == 0) s = quote(g, s); }
  f.text += assign(g, e.name, s);
  f.want.v[i] = v;
}
static std::string write(const std::string & t) {
  static int n = 0;
  char nm[64];
  snprintf(nm, 64, "p_%d_%d.par", (int)getpid(), n++ % 4);
  FILE * o = fopen(nm, "w");
  fwrite(t.data(), 1, t.size(), o);
  fclose(o);
  return nm;
}
static void compare(Gen & g, const State & w) {
  State c = current();
  for(size_t i = 0; i < T.size(); ++i)
    PBT_CHECK(g, same(T[i].kind, c.v[i], w.v[i]), "%s is %s, expected %s", T[i].name, show(T[i].kind, c.v[i]).substr(0, 200).c_str(), show(T[i].kind, w.v[i]).substr(0, 200).c_str());
  PBT_CHECK(g, c.kern == w.kern && c.eos == w.eos && c.visc == w.visc, "keyword parameters are %d %d %d, expected %d %d %d", c.kern, c.eos, c.visc, w.kern, w.eos, w.visc);
  // the public read-only names see the stored values
#define P_B(n) PBT_CHECK(g, (const void *)&param::n == (const void *)&param::_##n, #n " does not refer to its value");
#define P_I(n) P_B(n)
#define P_F(n) P_B(n)
#define P_S(n) PBT_CHECK(g, param::n == param::_##n, #n " does not refer to its value");
#include "params.inc"
#undef P_B
#undef P_I
#undef P_F
#undef P_S
}
PROPERTY(read_back, 12000, 600000) {
  restore();
  File f; f.want = defaults;
  int files = g.u(6) == 0 ? 2 : 1, total = 0;
  for(int k = 0; k < files; ++k) {
    f.text.clear();
    int n = g.size(1, 40);
    for(int i = 0; i < n; ++i) valid_line(g, f);
    if(g.u(4) == 0 && !f.text.empty()) f.text.pop_back(); // no final newline
    g.note("%s\n--\n", f.text.substr(0, 3000).c_str());
    std::string nm = write(f.text);
    int ranks = g.u(4) == 0 ? g.i(2, 6) : 1;
    if(ranks == 1) param::read_params(nm.c_str());
    else {
      auto sch = mock::gen_sched(g);
      mock::run(ranks, sch.policy, sch.seed, [&](int rank) { param::mpi_read_params(rank == 0 ? nm.c_str() : nullptr); });
      g.label("several ranks");
    }
    unlink(nm.c_str());
    total += n;
  }
  compare(g, f.want);
  g.nontrivial(total >= 3);
}
// what a parameter is when no file sets it: part of the interface, as every
// published parameter file relies on it
struct Def { const char * name, * value; };
static const Def DEFAULTS[] = {
#include "params_default.inc"
};
PROPERTY(unset, 2000, 20000) {
  const Def & d = DEFAULTS[g.u(sizeof DEFAULTS / sizeof *DEFAULTS)];
  for(size_t i = 0; i < T.size(); ++i)
    if(!strcmp(T[i].name, d.name)) {
      g.note("%s unset", d.name);
      g.nontrivial();
      PBT_CHECK(g, show(T[i].kind, defaults.v[i]) == d.value, "%s is %s when it is not set, should be %s", d.name, show(T[i].kind, defaults.v[i]).c_str(), d.value);
      return;
    }
  int k = !strcmp(d.name, "sph_kernel") ? defaults.kern : !strcmp(d.name, "eos_type") ? defaults.eos : defaults.visc;
  g.note("%s unset", d.name);
  for(auto & w : kws) if(!strcmp(w.param, d.name) && !strcmp(w.word, d.value)) { PBT_CHECK(g, k == w.val, "%s is %d when it is not set, should be %s", d.name, k, d.value); return; }
  g.fail("no keyword %s", d.value);
}
PROPERTY(every_parameter, 3000, 100000) {
  restore();
  size_t i = g.u(T.size());
  const Ent & e = T[i];
  File f; f.want = defaults;
  // the others are set first, so that a crossed name shows as well
  Val v; std::string s;
  if(e.kind == KB) { v.b = !defaults.v[i].b; s = v.b ? "yes" : "no"; }
  else if(e.kind == KS) { v.s = "x" + text(g, 30) + "x"; s = "\"" + v.s + "\""; }
  else s = number(g, e, v);
  param::set_param(e.name, s);
  f.want.v[i] = v;
  g.note("%s = %s", e.name, s.c_str());
  g.label(e.kind == KB ? "boolean" : e.kind == KS ? "string" : e.kind == KI ? "integer" : "real");
  compare(g, f.want);
  g.nontrivial(!same(e.kind, v, defaults.v[i]));
}
static bool known(const std::string & s) {
  for(auto & e : T) if(s == e.name) return true;
  for(auto & k : kws) if(s == k.param) return true;
  return false;
}
PROPERTY(bad_lines, 1500, 40000) {
  restore();
  File f; f.want = defaults;
  int n = g.size(0, 8), at = g.u(n + 1);
  const char * what = "";
  for(int i = 0; i <= n; ++i) {
    if(i != at) { valid_line(g, f); continue; }
    const Ent * e = &T[g.u(T.size())];
    std::string l;
    switch(g.u(7)) {
      case 0: { what = "no '='"; l = blanks(g) + e->name + " 1.0\n"; break; }
      case 1: { what = "no name"; l = blanks(g) + "=" + blanks(g) + "1\n"; break; }
      case 2: { what = "no value"; l = blanks(g) + e->name + blanks(g) + "=" + blanks(g) + "\n"; break; }
      case 3: {
        what = "unknown name";
        std::string s = e->name;
        size_t p = g.u(s.size());
        switch(g.u(4)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, "abcdefgxyz_0"[g.u(12)]); break; case 2: s[p] = toupper(s[p]); break; case 3: s = s + "_" + "abc"; }
        if(known(s) || s.empty()) g.discard();
        l = assign(g, s, g.flip() ? "1" : "yes"); break;
      }
      case 4: {
        what = "not a number";
        while(e->kind != KI && e->kind != KF) e = &T[g.u(T.size())];
        Val v;
        std::string s;
        switch(g.u(4)) {
          case 0: s = "abc"; break;
          case 1: s = number(g, *e, v) + "x"; break;
          case 2: s = "yes"; break;
          case 3: s = e->kind == KI ? "1e5" : "1.0.0"; break;
        }
        l = assign(g, e->name, s); break;
      }
      case 5: {
        what = "unknown keyword";
        const KW & k = kws[g.u(sizeof kws / sizeof *kws)];
        std::string s = std::string(k.word) + "x";
        l = assign(g, k.param, g.flip() ? quote(g, s) : s); break;
      }
      case 6: {
        what = "string too long";
        while(e->kind != KS) e = &T[g.u(T.size())];
        l = assign(g, e->name, quote(g, std::string(511 + g.size(0, 2000), 'a')), true); break;
      }
    }
    f.text += l;
  }
  g.label(what);
  g.note("%s: %s", what, f.text.substr(0, 1500).c_str());
  std::string nm = write(f.text);
  int pid = fork();
  if(pid == 0) {
    int o = open("/dev/null", O_WRONLY); dup2(o, 1); dup2(o, 2);
    param::read_params(nm.c_str());
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  unlink(nm.c_str());
  PBT_CHECK(g, WIFEXITED(st) && WEXITSTATUS(st) != 99, "%s: the reader crashes (signal %d)", what, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  PBT_CHECK(g, WEXITSTATUS(st) != 0, "%s: file accepted", what);
  g.nontrivial();
}
