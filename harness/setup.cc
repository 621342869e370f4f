// C35: the initial data generators.  The real generator programs, each run in a
// process of its own on simulated ranks with a generated parameter file; the
// particles in the file they leave are judged against the problem they are for.
#include <malloc.h>
#include <bits/stdc++.h>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <cassert>
#include <algorithm>
#include <random>
#include <numeric>
#include <functional>
#include <dirent.h>
#include <unistd.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <mpi.h>
#include "mockmpi.h"
#include <hdf5.h>
#include "density_profiles.h"
#include "io.h"
#include "kernels.h"
#include "lattice.h"
#include "params.h"
#include "user.h"
#include "bodies_system.h"
#define main generator_main
#define GENERATORS "../app/id_generators/"
namespace gen_sodtube {
#include "../app/id_generators/sodtube/main.cc"
}
namespace gen_sedov {
#include "../app/id_generators/sedov/main.cc"
}
namespace gen_noh {
#include "../app/id_generators/noh/main.cc"
}
#if EXT_GDIMENSION > 1
namespace gen_implosion {
#include "../app/id_generators/implosion/main.cc"
}
namespace gen_wtunnel {
#include "../app/id_generators/wtunnel/main.cc"
}
namespace gen_KH {
#include "../app/id_generators/KH/main.cc"
}
namespace gen_RT {
#include "../app/id_generators/RT/main.cc"
}
namespace gen_fluid {
#include "../app/id_generators/fluid/main.cc"
}
#endif
#if EXT_GDIMENSION == 3
namespace gen_collapse {
#include "../app/id_generators/collapse/main.cc"
}
#endif
#undef main
#include "pbt.h"
#include "h5init.h"
using pbt::Gen;
typedef long double L;
static const int D = gdimension;

static void wipe(const std::string & d) {
  DIR * h = opendir(d.c_str());
  if(!h) return;
  while(auto * e = readdir(h)) {
    std::string n = e->d_name;
    if(n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
  closedir(h);
}
struct Scratch { // own directory, removed at the end
  std::string dir;
  Scratch() { char b[4096]; if(!getcwd(b, sizeof b)) abort(); dir = std::string(b) + "/gen." + std::to_string(getpid()); mkdir(dir.c_str(), 0755); wipe(dir); }
  ~Scratch() { wipe(dir); rmdir(dir.c_str()); }
};
struct Par {
  std::map<std::string, std::string> t;
  std::map<std::string, double> v;
  double num(Gen & g, const char * n, double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); t[n] = b; return v[n] = x; }
  int whole(const char * n, int x) { t[n] = std::to_string(x); v[n] = x; return x; }
  bool yes(const char * n, bool x) { t[n] = x ? "yes" : "no"; v[n] = x; return x; }
  void text(const char * n, const std::string & x) { t[n] = "\"" + x + "\""; }
  std::string all() const { std::string s; for(auto & k : t) s += k.first + "=" + k.second + " "; return s; }
};
typedef int (*Main)(int, char **);
//! the generator in a process of its own; the parameters it ends with
static std::map<std::string, double> run_generator(Gen & g, const std::string & dir, const Par & P, Main prog, int n, const mock::Sched & sch) {
  { std::ofstream o(dir + "/gen.par"); for(auto & k : P.t) o << "  " << k.first << " = " << k.second << "\n"; }
  fflush(nullptr);
  pid_t pid = fork();
  if(pid < 0) abort();
  if(pid == 0) {
    struct rlimit rl = {30, 30};
    setrlimit(RLIMIT_CPU, &rl);
    if(chdir(dir.c_str())) _exit(9);
    if(!freopen("stdout.txt", "w", stdout) || !freopen("stderr.txt", "w", stderr)) _exit(9);
    std::string why;
    std::array<double, 4> end = {};
    static const int fill[4] = {0x00, 0xff, 0x40, 0xc0};
    mallopt(M_PERTURB, fill[pbt::mix64(sch.seed * 16 + n) % 4] ^ 0xff);
    try {
      mock::own_namespaces({"io"});
      mock::fresh();
      mkdir(".h5", 0755);
      mockh5::reset(dir + "/.h5");
      // what a generator changes as it goes
      mock::own(param::_box_length); mock::own(param::_box_width); mock::own(param::_box_height);
      mock::run(n, sch.policy, sch.seed, [&](int rank) { static char a[] = "generator", b[] = "gen.par"; char * v[] = {a, b, nullptr}; prog(2, v); if(rank == 0) end = {param::box_length, param::box_width, param::box_height, param::sph_separation}; });
      mockh5::reset(dir + "/.h5");
    } catch(std::exception & e) { why = std::string("exception: ") + e.what(); }
    catch(pbt::Failure & f) { why = f.msg; }
    catch(...) { why = "exception"; }
    std::ofstream o("end.txt");
    o << std::setprecision(17) << end[0] << " " << end[1] << " " << end[2] << " " << end[3] << " " << (why.empty() ? "ok" : why);
    o.close();
    fflush(nullptr);
    _exit(0);
  }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
  std::map<std::string, double> r;
  std::ifstream in(dir + "/end.txt");
  std::string why;
  in >> r["box_length"] >> r["box_width"] >> r["box_height"] >> r["sep"];
  in.get();
  std::getline(in, why);
  std::ifstream e(dir + "/stderr.txt");
  std::string err((std::istreambuf_iterator<char>(e)), {});
  PBT_CHECK(g, WIFEXITED(st) && WEXITSTATUS(st) == 0 && why == "ok", "the generator on %d ranks ended with %s %d %s %s", n, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), why.c_str(), err.substr(0, 300).c_str());
  unlink((dir + "/end.txt").c_str());
  return r;
}
//! what a generator left
struct Data {
  size_t n;
  std::vector<std::array<double, 3>> x, v;
  std::vector<double> m, rho, h, P, u;
};
static Data take(Gen & g, const std::string & dir, bool attrs, bool vacuum = false) {
  H5Step s;
  std::string f = dir + "/id.h5part";
  PBT_CHECK(g, read_step(f, 0, s), "no initial data in id.h5part");
  Data d;
  d.n = s.id.size();
  PBT_CHECK(g, d.n > 0, "no particles");
  for(const char * k : {"x", "m", "rho", "h", "P", "u", "vx"}) PBT_CHECK(g, s.f.count(k) && s.f[k].size() == d.n, "%zu values of %s for %zu particles", s.f.count(k) ? s.f[k].size() : 0, k, d.n);
  for(const char * k : {"y", "z", "vy", "vz"}) if(!s.f.count(k)) s.f[k].assign(d.n, 0.0);
  if(vacuum) for(double q : s.f["rho"]) if(q == 0) g.discard(); // a particle on the surface, where there is no matter
  for(auto & k : s.f) { PBT_CHECK(g, k.second.size() == d.n, "%zu values of %s for %zu particles", k.second.size(), k.first.c_str(), d.n); for(double q : k.second) PBT_CHECK(g, std::isfinite(q), "%s is %g", k.first.c_str(), q); }
  int dim = 0; long long np = -1;
  if(read_attr(f, "dimension", H5T_NATIVE_INT, &dim)) PBT_CHECK(g, dim == D, "dimension %d", dim);
  else PBT_CHECK(g, false, "no dimension recorded");
  if(attrs) { PBT_CHECK(g, read_attr(f, "nparticles", H5T_NATIVE_LLONG, &np), "no number of particles recorded"); PBT_CHECK(g, np == (long long)d.n, "%lld particles recorded, %zu in the file", np, d.n); }
  std::vector<size_t> ord(d.n);
  std::iota(ord.begin(), ord.end(), 0);
  std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return s.id[a] < s.id[b]; });
  for(size_t k = 1; k < d.n; ++k) PBT_CHECK(g, s.id[ord[k]] != s.id[ord[k - 1]], "identifier %lld twice among %zu particles", s.id[ord[k]], d.n);
  for(size_t i : ord) {
    d.x.push_back({s.f["x"][i], s.f["y"][i], s.f["z"][i]}); d.v.push_back({s.f["vx"][i], s.f["vy"][i], s.f["vz"][i]});
    d.m.push_back(s.f["m"][i]); d.rho.push_back(s.f["rho"][i]); d.h.push_back(s.f["h"][i]); d.P.push_back(s.f["P"][i]); d.u.push_back(s.f["u"][i]);
    for(int k = D; k < 3; ++k) PBT_CHECK(g, d.x.back()[k] == 0 && d.v.back()[k] == 0, "component %d of a %dD problem is not zero", k, D);
  }
  return d;
}
static bool near(L a, L b, L tol) { return fabsl(a - b) <= tol * std::max(fabsl(a), fabsl(b)); }
static L ipow(L x, int n) { L r = 1; while(n--) r *= x; return r; }
static const char * KERN[] = {"cubic spline", "quintic spline", "wendland c2", "wendland c4", "wendland c6", "gaussian", "super gaussian"};
static const double KW[] = {2, 3, 2, 2, 2, 3, 3};
struct Case { Par P; int ltype, nx; double gamma, eta, kw, rho, p; int n; mock::Sched sch; Scratch dir; };
static void common(Gen & g, Case & c, int maxtype, bool par) {
  c.P.text("initial_data_prefix", "id");
  c.ltype = c.P.whole("lattice_type", g.u(maxtype + 1));
  c.nx = c.P.whole("lattice_nx", D == 1 ? 4 + g.u(100) : D == 2 ? 5 + g.u(26) : 4 + g.u(9));
  c.gamma = c.P.num(g, "poly_gamma", g.pick({1.4, 5. / 3, 2.0, 1.1}));
  c.eta = c.P.num(g, "sph_eta", g.pick({1.2, 1.5, 1.9, 1.3}));
  int k = g.u(7);
  c.P.text("sph_kernel", KERN[k]);
  c.kw = KW[k];
  c.rho = c.P.num(g, "rho_initial", g.pick({1.0, 2.0, 0.125, 37.5}));
  c.p = c.P.num(g, "pressure_initial", g.pick({1.0, 1e-7, 2.5, 1e3}));
  c.P.num(g, "initial_dt", g.pick({1e-3, 1.0}));
  c.P.num(g, "timestep_cfl_factor", 0.25);
  c.n = par ? g.pick({1, 1, 1, 2, 3, 5}) : 1;
  c.sch = mock::gen_sched(g);
  g.label("lattice " + std::to_string(c.ltype));
  if(c.n > 1) g.label("several ranks");
}
static void box(Gen & g, Case & c, double & bl, double & bw, double & bh) {
  bl = c.P.num(g, "box_length", g.pick({3.0, 1.0, 0.5, 2.0, 1e-3, 700.0}));
  bw = c.P.num(g, "box_width", bl * g.pick({1.0, 1. / 3, 0.5, 2.0, 0.7}));
  bh = c.P.num(g, "box_height", bl * g.pick({1.0, 1. / 3, 0.5, 2.0, 0.7}));
  if(D == 3 && bw * bh > 2 * bl * bl) bh = c.P.num(g, "box_height", bl * 0.5);
}
static L cell(int ltype, L dx) { return ipow(dx, D) * (ltype == 0 || D == 1 ? 1.0L : D == 2 ? sqrtl(3) / 2 : 1 / sqrtl(2)); }
//! volume per particle of a lattice of rows (along x), layers (along z), whatever it is stretched by; 0: too small to tell
static L lattice_cell(const std::vector<std::array<double, 3>> & p) {
  if(p.size() < 4) return 0;
  double ext = 0;
  for(int k = 0; k < D; ++k) { double a = p[0][k], b = a; for(auto & q : p) { a = std::min(a, q[k]); b = std::max(b, q[k]); } ext = std::max(ext, b - a); }
  double tol = 1e-7 * ext;
  auto spacing = [&](std::vector<double> v) { // of equally spaced values
    std::sort(v.begin(), v.end());
    std::vector<double> u;
    for(double q : v) if(u.empty() || q - u.back() > tol) u.push_back(q);
    if(u.size() < 2) return 0.0;
    double d = u[1] - u[0];
    for(size_t i = 1; i < u.size(); ++i) d = std::min(d, u[i] - u[i - 1]);
    return d;
  };
  std::vector<std::array<double, 3>> layer, row;
  double z0 = p[p.size() / 2][2], dz = 1, dy = 1;
  for(auto & q : p) if(fabs(q[2] - z0) < tol) layer.push_back(q);
  double y0 = layer[layer.size() / 2][1];
  for(auto & q : layer) if(fabs(q[1] - y0) < tol) row.push_back(q);
  std::vector<double> c;
  if(D == 3) { for(auto & q : p) c.push_back(q[2]); dz = spacing(c); c.clear(); }
  if(D >= 2) { for(auto & q : layer) c.push_back(q[1]); dy = spacing(c); c.clear(); }
  for(auto & q : row) c.push_back(q[0]);
  return (L)spacing(c) * dy * dz;
}
static void distinct(Gen & g, const Data & d, L scale, const std::array<double, 3> & period) {
  // by cells of the scale
  std::map<std::array<long, 3>, std::vector<size_t>> grid;
  auto key = [&](const std::array<double, 3> & q) { return std::array<long, 3>{(long)floor(q[0] / scale), (long)floor(q[1] / scale), (long)floor(q[2] / scale)}; };
  for(size_t i = 0; i < d.n; ++i) grid[key(d.x[i])].push_back(i);
  for(size_t i = 0; i < d.n; ++i)
    for(int s = 0; s < 27; ++s) {
      std::array<double, 3> q = d.x[i];
      int sh[3] = {s % 3 - 1, s / 3 % 3 - 1, s / 9 - 1};
      bool skip = false;
      for(int k = 0; k < 3; ++k) { if(sh[k] && period[k] == 0) skip = true; q[k] += sh[k] * period[k]; }
      if(skip) continue;
      auto c = key(q);
      for(int t = 0; t < 27; ++t) {
        auto it = grid.find({c[0] + t % 3 - 1, c[1] + t / 3 % 3 - 1, c[2] + t / 9 - 1});
        if(it == grid.end()) continue;
        for(size_t j : it->second) {
          if(j == i && !sh[0] && !sh[1] && !sh[2]) continue;
          L r2 = 0;
          for(int k = 0; k < 3; ++k) r2 += ((L)q[k] - d.x[j][k]) * ((L)q[k] - d.x[j][k]);
          PBT_CHECK(g, r2 > scale * scale, "particles %zu and %zu%s are only %Lg apart", i, j, sh[0] || sh[1] || sh[2] ? " (periodic image)" : "", sqrtl(r2));
        }
      }
    }
}
static void inside(Gen & g, const Data & d, const std::array<double, 3> & lo, const std::array<double, 3> & hi, L slack) {
  for(size_t i = 0; i < d.n; ++i) for(int k = 0; k < D; ++k) PBT_CHECK(g, d.x[i][k] >= lo[k] - slack && d.x[i][k] <= hi[k] + slack, "particle %zu: coordinate %d is %g, outside of [%g,%g]", i, k, d.x[i][k], lo[k], hi[k]);
}
static void gas(Gen & g, const Data & d, const Case & c, bool smoothing = true) {
  for(size_t i = 0; i < d.n; ++i) {
    PBT_CHECK(g, d.m[i] > 0 && d.rho[i] > 0 && d.h[i] > 0, "particle %zu: mass %g, density %g, smoothing length %g", i, d.m[i], d.rho[i], d.h[i]);
    PBT_CHECK(g, near(d.P[i], (L)(c.gamma - 1) * d.rho[i] * d.u[i], 1e-13L), "particle %zu: pressure %.17g, but density %g and energy %g", i, d.P[i], d.rho[i], d.u[i]);
    if(smoothing) PBT_CHECK(g, near(d.h[i], (L)c.eta * c.kw * powl((L)d.m[i] / d.rho[i], 1.0L / D), 1e-13L), "particle %zu: smoothing length %.17g, should be %.17Lg", i, d.h[i], (L)c.eta * c.kw * powl((L)d.m[i] / d.rho[i], 1.0L / D));
  }
}
static void at_rest(Gen & g, const Data & d) { for(size_t i = 0; i < d.n; ++i) for(double q : d.v[i]) PBT_CHECK(g, q == 0, "particle %zu moves", i); }
static void total_mass(Gen & g, const Data & d, L want) {
  L s = 0;
  for(double q : d.m) { s += q; PBT_CHECK(g, q == d.m[0], "masses %g and %g", q, d.m[0]); }
  PBT_CHECK(g, near(s, want, 1e-12L), "total mass %.15Lg, should be %.15Lg", s, want);
}
//! the mass of a particle is the density times the volume of a cell of the lattice
static void lattice_mass(Gen & g, const Data & d, const char * where, std::function<int(size_t)> sel, L tol) {
  std::vector<std::array<double, 3>> p;
  std::vector<size_t> w;
  for(size_t i = 0; i < d.n; ++i) if(sel(i)) { p.push_back(d.x[i]); w.push_back(i); }
  L V = lattice_cell(p);
  if(V == 0) return;
  g.label("lattice cell measured");
  for(size_t i : w) PBT_CHECK(g, near(d.m[i], V * d.rho[i], tol), "%s, particle %zu: mass %.12g, but density %g times the volume %.12Lg of a lattice cell is %.12Lg", where, i, d.m[i], d.rho[i], V, V * d.rho[i]);
}
//! the evolution programs can read it
static void readable(Gen & g, const Case & c, const Data & d) {
  int n = 1 + g.u(3);
  if(d.n < (size_t)n) n = 1;
  fflush(nullptr);
  pid_t pid = fork();
  if(pid < 0) abort();
  if(pid == 0) {
    if(chdir(c.dir.dir.c_str())) _exit(9);
    if(!freopen("stdout.txt", "w", stdout) || !freopen("stderr.txt", "w", stderr)) _exit(9);
    std::string why;
    try {
      mock::own_namespaces({"io"});
      mock::fresh();
      mkdir(".h5", 0755);
      mockh5::reset(c.dir.dir + "/.h5");
      std::vector<int> seen(d.n, 0);
      param::_initial_iteration = 0;
      mock::run(n, 0, 1, [&](int) {
        body_system<double, gdimension> bs;
        bs.read_bodies("id", "evolved", 0);
        PBT_CHECK(g, (size_t)bs.getNBodies() == d.n, "%ld particles read, %zu written", (long)bs.getNBodies(), d.n);
        for(auto & b : bs.getLocalbodies()) {
          size_t i = b.id();
          PBT_CHECK(g, i < d.n && !seen[i]++, "particle %zu read twice", i);
          bool same = b.mass() == d.m[i] && b.radius() == d.h[i] && b.getDensity() == d.rho[i] && b.getPressure() == d.P[i] && b.getInternalenergy() == d.u[i] && b.getType() == NORMAL;
          for(int k = 0; k < D; ++k) same = same && b.coordinates()[k] == d.x[i][k] && b.getVelocity()[k] == d.v[i][k];
          PBT_CHECK(g, same, "particle %zu is read differently", i);
        }
      });
    } catch(std::exception & e) { why = std::string("exception: ") + e.what(); }
    catch(pbt::Failure & f) { why = f.msg; }
    std::ofstream("end.txt") << (why.empty() ? "ok" : why);
    fflush(nullptr);
    _exit(0);
  }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
  std::ifstream in(c.dir.dir + "/end.txt");
  std::string why;
  std::getline(in, why);
  PBT_CHECK(g, WIFEXITED(st) && WEXITSTATUS(st) == 0 && why == "ok", "reading the initial data on %d ranks: status %d, %s", n, st, why.c_str());
}
static void old_file(Gen & g, const Case & c) { // an older file of that name is replaced
  if(!g.chance(1, 4)) return;
  std::vector<body> p(3 + g.u(50));
  for(auto & b : p) { b.set_mass(1); b.set_id(&b - p.data()); }
  write_initial(c.dir.dir + "/id.h5part", p, {});
  g.label("replaces a file");
}

// ------------------------------------------------------------- shock tube ---
PROPERTY(sodtube, 400, 100000) {
  Case c;
  common(g, c, 2, true);
  double bl, bw, bh;
  box(g, c, bl, bw, bh);
  int test = c.P.whole("sodtest_num", 1 + g.u(6));
  bool em = c.P.yes("equal_mass", !g.chance(1, 3)), px = c.P.yes("periodic_boundary_x", g.flip()), py = c.P.yes("periodic_boundary_y", g.flip()), pz = c.P.yes("periodic_boundary_z", g.flip());
  c.P.num(g, "lattice_mismatch_tolerance", g.pick({0.05, 0.2}));
  int nx = (c.nx - 1) / 3 * 3 + 1;
  double sep = bl / (nx - 1);
  if(nx < 4 || (D > 1 && bw < 4 * sep) || (D > 2 && bh < 4 * sep)) g.discard();
  g.note("%s ranks=%d", c.P.all().c_str(), c.n);
  g.label("test " + std::to_string(test)); g.label(em ? "equal mass" : "equal separation");
  old_file(g, c);
  auto r = run_generator(g, c.dir.dir, c.P, gen_sodtube::generator_main, c.n, c.sch);
  Data d = take(g, c.dir.dir, true);
  g.nontrivial(d.n > 20);
  static const double T[6][6] = {{1, .125, 1, .1, 0, 0}, {1, 1, .4, .4, -2, 2}, {1, 1, 1000, .01, 0, 0}, {1, 1, .01, 100, 0, 0}, {5.99924, 5.99242, 460.894, 46.095, 19.5975, -6.19633}, {1, 1, 1e-6, 1e-6, 1, -1}};
  const double * s = T[test - 1];
  size_t mid = 0;
  for(size_t i = 0; i < d.n; ++i) {
    double e = fabs(d.x[i][0]) - bl / 6;
    bool m = d.rho[i] == s[0] && d.P[i] == s[2] && d.v[i][0] == s[4], o = d.rho[i] == s[1] && d.P[i] == s[3] && d.v[i][0] == s[5];
    PBT_CHECK(g, m || o, "particle %zu at x=%g: density %g, pressure %g, velocity %g is neither state of test %d", i, d.x[i][0], d.rho[i], d.P[i], d.v[i][0], test);
    if(e < -1e-3 * sep) PBT_CHECK(g, m, "particle %zu at x=%g is inside but has the outer state", i, d.x[i][0]);
    if(e > 1e-3 * sep) PBT_CHECK(g, o, "particle %zu at x=%g is outside but has the inner state", i, d.x[i][0]);
    PBT_CHECK(g, d.v[i][1] == 0 && d.v[i][2] == 0, "particle %zu moves sideways", i);
    mid += e < -1e-3 * sep;
  }
  if(nx >= 7) PBT_CHECK(g, mid && mid < d.n, "%zu of %zu particles in the middle", mid, d.n);
  gas(g, d, c);
  if(!em) { r["box_length"] = bl; }
  inside(g, d, {-r["box_length"] / 2, -r["box_width"] / 2, -r["box_height"] / 2}, {r["box_length"] / 2, r["box_width"] / 2, r["box_height"] / 2}, 1e-5 * std::max(bl, std::max(r["box_width"], r["box_height"])));
  L lr = em ? sep * powl((L)s[0] / s[1], 1.0L / D) : sep;
  lattice_mass(g, d, "middle", [&](size_t i) { return fabs(d.x[i][0]) < bl / 6 - 1e-3 * sep; }, 1e-6L);
  lattice_mass(g, d, "right", [&](size_t i) { return d.x[i][0] > bl / 6 + 1e-3 * sep; }, 1e-6L);
  lattice_mass(g, d, "left", [&](size_t i) { return d.x[i][0] < -bl / 6 - 1e-3 * sep; }, 1e-6L);
  for(size_t i = 0; i < d.n; ++i) { bool in = d.rho[i] == s[0]; PBT_CHECK(g, near(d.m[i], (in ? s[0] : s[1]) * cell(c.ltype, in ? (L)sep : lr), 1e-12L) || s[0] == s[1], "particle %zu: mass %.12g", i, d.m[i]); }
  if(em) for(double q : d.m) PBT_CHECK(g, near(q, s[0] * cell(c.ltype, sep), 1e-12L), "mass %.15g instead of %.15Lg", q, s[0] * cell(c.ltype, sep));
  distinct(g, d, 1e-9 * sep, {0, 0, 0});
  readable(g, c, d);
}

//! particles of a lattice with this cell fill a box to within a layer of the lattice
static void fills(Gen & g, L count, L V, L dx, std::vector<L> size) {
  L lo = 1, hi = 1, box = 1;
  for(L q : size) { lo *= std::max(0.0L, 1 - 1.6L * dx / q); hi *= 1 + 1.6L * dx / q; box *= q; }
  PBT_CHECK(g, count * V >= lo * box && count * V <= hi * box, "%.0Lf particles of volume %Lg do not fill a volume of %Lg", count, V, box);
}
struct Blob { int type; double r, bl, bw, bh, sep; L vol; std::array<double, 3> lo, hi; };
static Blob blob(Gen & g, Case & c, int sphere) {
  Blob b;
  b.type = c.P.whole("domain_type", sphere);
  b.r = c.P.num(g, "sphere_radius", g.pick({1.0, 0.5, 2.5, 1e-4, 300.0}));
  box(g, c, b.bl, b.bw, b.bh);
  double s[3] = {b.bl, b.bw, b.bh};
  b.sep = (b.type ? 2 * b.r : b.bl) / (c.nx - 1);
  b.vol = 1;
  for(int k = 0; k < 3; ++k) { b.hi[k] = k < D ? (b.type ? b.r : s[k] / 2) : 0; b.lo[k] = -b.hi[k]; }
  if(!b.type) for(int k = 0; k < D; ++k) { b.vol *= s[k]; if(s[k] < 3 * b.sep) g.discard(); }
  else b.vol = D == 1 ? 2 * (L)b.r : D == 2 ? M_PIl * b.r * b.r : 4 * M_PIl / 3 * b.r * b.r * b.r;
  g.label(b.type ? "sphere" : "box");
  return b;
}
static L radius(const Data & d, size_t i) { L r2 = 0; for(int k = 0; k < D; ++k) r2 += (L)d.x[i][k] * d.x[i][k]; return sqrtl(r2); }
//! number of particles: those of the lattice in the volume
static void count(Gen & g, const Data & d, const Case & c, const Blob & b) {
  if(b.type) for(size_t i = 0; i < d.n; ++i) PBT_CHECK(g, radius(d, i) <= b.r * (1 + 1e-6L), "particle %zu is outside of the sphere, at %Lg of %g", i, radius(d, i), b.r);
  if(c.ltype > 2) return;
  L V = cell(c.ltype, b.sep), n = b.vol / V;
  if(b.type) { L s = 1.6L * b.sep / b.r; PBT_CHECK(g, d.n <= n * ipow(1 + s, D) && d.n >= n * ipow(std::max(0.0L, 1 - s), D), "%zu particles, the volume is for %.1Lf", d.n, n); }
  else { std::vector<L> s; for(int k = 0; k < D; ++k) s.push_back(b.hi[k] - b.lo[k]); fills(g, d.n, V, b.sep, s); }
}

// ----------------------------------------------------------- Sedov, Noh -----
static const char * PROFILES[] = {"constant", "parabolic", "mesa"};
static void blast(Gen & g, bool sedov) {
  Case c;
  common(g, c, D == 3 ? 4 : 2, false);
  if(D == 3 && c.nx > 10) c.nx = c.P.whole("lattice_nx", 10);
  int sphere = c.ltype > 2 ? 1 : g.u(2);
  Blob b = blob(g, c, sphere);
  int kind = sphere && sedov && g.flip() ? 1 + g.u(2) : 0;
  c.P.text("density_profile", PROFILES[kind]);
  L w = c.P.num(g, "mesa_rim_width", g.pick({0.2, 0.5}));
  double E = c.P.num(g, "sedov_blast_energy", g.pick({1.0, 0.05, 300.0})), rb = c.P.num(g, "sedov_blast_radius", g.pick({1.001, 2.5, 3.3}) * b.sep), vin = c.P.num(g, "noh_infall_velocity", g.pick({0.1, 1.0, 25.0}));
  double A = c.P.num(g, "lattice_perturbation_amplitude", g.chance(1, 3) ? 0.02 : 0.0);
  bool modify = g.chance(1, 3);
  g.note("%s", c.P.all().c_str());
  g.label(PROFILES[kind]);
  if(A > 0) g.label("perturbed");
  old_file(g, c);
  run_generator(g, c.dir.dir, c.P, sedov ? gen_sedov::generator_main : gen_noh::generator_main, 1, c.sch);
  Data d = take(g, c.dir.dir, false, kind == 1 || kind == 2);
  g.nontrivial(d.n > 20);
  auto profile = [&](L q) -> L { return kind == 0 ? 1 : kind == 1 ? 1 - q * q : q < 1 - w ? 1 : 1 - (q - (1 - w)) * (q - (1 - w)) / (w * w); }; // 1 in the centre
  auto judge = [&](const Data & d, bool check_profile, L E, bool moved) {
    gas(g, d, c);
    L dep = 0, noise = 0;
    size_t sure = 0;
    for(size_t i = 0; i < d.n; ++i) {
      L r = radius(d, i), K0 = (L)c.p / powl(c.rho, c.gamma), u0 = K0 * powl(d.rho[i], (L)c.gamma - 1) / ((L)c.gamma - 1);
      if(check_profile && !moved) PBT_CHECK(g, fabsl(d.rho[i] - c.rho * profile(r / b.r)) < 1e-9L * c.rho, "particle %zu at %Lg: density %.15g instead of %.15Lg", i, r, d.rho[i], c.rho * profile(r / b.r));
      L margin = moved ? 8 * A * d.h[i] * sqrtl(D) : 1e-9L * rb;
      if(!sedov || r > rb + margin) PBT_CHECK(g, near(d.u[i], u0, 1e-12L), "particle %zu at %Lg: energy %.15g instead of %.15Lg", i, r, d.u[i], u0);
      else if(r < rb - margin) { ++sure; if(u0 < 1e-6L * E / (d.m[i] * (L)d.n)) PBT_CHECK(g, d.u[i] > u0, "particle %zu at %Lg got no energy", i, r); }
      dep += d.m[i] * ((L)d.u[i] - u0);
      noise += d.m[i] * fabsl(d.u[i]);
      if(!sedov && !moved) {
        L v2 = 0, dot = 0;
        for(int k = 0; k < D; ++k) { v2 += (L)d.v[i][k] * d.v[i][k]; dot += (L)d.v[i][k] * d.x[i][k]; }
        if(r > 1e-9L * b.sep) PBT_CHECK(g, near(sqrtl(v2), vin, 1e-12L) && near(dot, -vin * r, 1e-12L), "particle %zu at %Lg moves with %.15Lg, inwards with %.15Lg", i, r, sqrtl(v2), -dot / r);
        else PBT_CHECK(g, near(sqrtl(v2), vin, 1e-9L) || v2 == 0, "the particle in the centre moves with %Lg", sqrtl(v2));
      }
    }
    if(!sedov) return;
    at_rest(g, d);
    if(sure) { g.label("blast"); PBT_CHECK(g, fabsl(dep - E) < 1e-12L * (noise + E), "%.15Lg of the blast energy %.15Lg was deposited", dep, E); }
  };
  L frac = 0; // mass in units of central density and volume; exact for polynomials of degree 5
  for(int piece = 0; piece < 2; ++piece) {
    L a = piece ? 1 - w : 0, e = piece ? 1 : 1 - w, W[5] = {7, 32, 12, 32, 7};
    for(int k = 0; k < 5; ++k) { L q = a + (e - a) * k / 4; frac += (e - a) * W[k] / 90 * D * ipow(q, D - 1) * profile(q); }
  }
  total_mass(g, d, c.rho * b.vol * frac);
  judge(d, true, E, A > 0);
  if(A == 0) { count(g, d, c, b); inside(g, d, b.lo, b.hi, 1e-6 * (b.hi[0] - b.lo[0])); distinct(g, d, 1e-6 * b.sep, {0, 0, 0}); }
  else { // moved by a fraction of the smoothing length from the lattice
    auto Q = c.P;
    Q.num(g, "lattice_perturbation_amplitude", 0);
    run_generator(g, c.dir.dir, Q, sedov ? gen_sedov::generator_main : gen_noh::generator_main, 1, c.sch);
    Data e = take(g, c.dir.dir, false);
    PBT_CHECK(g, e.n == d.n || c.ltype == 4, "%zu particles with, %zu without perturbation", d.n, e.n);
    L s = 0, s2 = 0, n = 0;
    if(c.ltype == 4) g.label("random");
    else for(size_t i = 0; i < d.n; ++i) for(int k = 0; k < D; ++k) { L q = ((L)d.x[i][k] - e.x[i][k]) / (A * d.h[i]); PBT_CHECK(g, fabsl(q) < 8, "particle %zu was moved by %Lg standard deviations", i, q); s += q; s2 += q * q; n += 1; }
    if(n >= 50) PBT_CHECK(g, fabsl(s / n) < 6 / sqrtl(n) && fabsl(s2 / n - 1) < 10 / sqrtl(n), "mean %Lg and variance %Lg of %Lg displacements in units of the amplitude", s / n, s2 / n, n);
    if(c.ltype != 4) for(size_t i = 0; i < d.n; ++i) PBT_CHECK(g, d.m[i] == e.m[i] && d.rho[i] == e.rho[i] && d.h[i] == e.h[i], "particle %zu: the perturbation changes more than its position", i);
    d = e; // the file is now the one without
  }
  readable(g, c, d);
  if(!sedov || !modify) return;
  // applied to the particles that are there; the parameters may be for others
  g.label("modified");
  auto Q = c.P;
  Q.yes("modify_initial_data", true);
  Q.num(g, "lattice_perturbation_amplitude", 0);
  Q.whole("lattice_nx", c.nx + g.u(3));
  double E2 = Q.num(g, "sedov_blast_energy", E * g.pick({1.0, 2.0}));
  run_generator(g, c.dir.dir, Q, gen_sedov::generator_main, 1, c.sch);
  Data e = take(g, c.dir.dir, false);
  PBT_CHECK(g, e.n == d.n, "%zu particles became %zu", d.n, e.n);
  for(size_t i = 0; i < d.n; ++i) PBT_CHECK(g, e.x[i] == d.x[i] && e.m[i] == d.m[i] && e.rho[i] == d.rho[i] && e.h[i] == d.h[i], "particle %zu: position, mass, density or smoothing length was changed", i);
  judge(e, false, E2, false);
}
PROPERTY(sedov, 200, 50000) { blast(g, true); }
PROPERTY(noh, 200, 50000) { blast(g, false); }

#if EXT_GDIMENSION > 1
// ---------------------------------------------------- implosion, collapse ---
static void uniform(Gen & g, bool implosion) {
  Case c;
  common(g, c, 2, true);
  if(D == 3 && c.nx > 10) c.nx = c.P.whole("lattice_nx", 10);
  Blob b = blob(g, c, implosion ? g.chance(3, 4) : g.flip());
  g.note("%s ranks=%d", c.P.all().c_str(), c.n);
  old_file(g, c);
#if EXT_GDIMENSION == 3
  run_generator(g, c.dir.dir, c.P, implosion ? gen_implosion::generator_main : gen_collapse::generator_main, c.n, c.sch);
#else
  run_generator(g, c.dir.dir, c.P, gen_implosion::generator_main, c.n, c.sch);
#endif
  Data d = take(g, c.dir.dir, true);
  g.nontrivial(d.n > 20);
  gas(g, d, c);
  at_rest(g, d);
  total_mass(g, d, c.rho * b.vol);
  count(g, d, c, b);
  inside(g, d, b.lo, b.hi, 1e-6 * (b.hi[0] - b.lo[0]));
  distinct(g, d, 1e-6 * b.sep, {0, 0, 0});
  L u0 = (L)c.p / (c.rho * ((L)c.gamma - 1));
  for(size_t i = 0; i < d.n; ++i) {
    PBT_CHECK(g, d.rho[i] == c.rho, "particle %zu: density %g", i, d.rho[i]);
    L r = radius(d, i) / b.r, want = 1 + (1e4L - 1) * (r - 0.8L) / 0.2L;
    if(!implosion || r < 0.8L - 1e-9L) PBT_CHECK(g, near(d.u[i], u0, 1e-12L), "particle %zu at %Lg of the radius: energy %.15g instead of %.15Lg", i, r, d.u[i], u0);
    else if(r > 0.8L + 1e-9L) PBT_CHECK(g, fabsl(d.u[i] - want) < 1e-10L * std::max(1e4L, want), "particle %zu at %Lg of the radius: energy %.12g, which rises from 1 at 0.8 to 10000 at 1, to %.12Lg", i, r, d.u[i], want);
  }
  readable(g, c, d);
}
PROPERTY(implosion, 200, 50000) { uniform(g, true); }
#if EXT_GDIMENSION == 3
PROPERTY(collapse, 200, 50000) { uniform(g, false); }
#endif

// ------------------------------------------------------------ wind tunnel ---
PROPERTY(wtunnel, 200, 50000) {
  Case c;
  common(g, c, 2, true);
  double bl, bw, bh;
  box(g, c, bl, bw, bh);
  double sep = bl / (c.nx - 1);
  if(bw < 3 * sep || (D > 2 && bh < 3 * sep)) g.discard();
  double v = c.P.num(g, "flow_velocity", g.pick({1.0, 0.0, 0.3}));
  g.note("%s ranks=%d", c.P.all().c_str(), c.n);
  old_file(g, c);
  run_generator(g, c.dir.dir, c.P, gen_wtunnel::generator_main, c.n, c.sch);
  Data d = take(g, c.dir.dir, true);
  g.nontrivial(d.n > 20);
  gas(g, d, c, false);
  total_mass(g, d, c.rho * (L)bl * bw * (D == 3 ? bh : 1));
  inside(g, d, {bw / 2, -bw / 2, -bh / 2}, {bw / 2 + bl, bw / 2, bh / 2}, 1e-6 * bl);
  distinct(g, d, 1e-6 * sep, {0, 0, 0});
  fills(g, d.n, cell(c.ltype, sep), sep, D == 3 ? std::vector<L>{bl, bw, bh} : std::vector<L>{bl, bw});
  for(size_t i = 0; i < d.n; ++i) PBT_CHECK(g, d.v[i][0] == -v && d.v[i][1] == 0 && d.v[i][2] == 0 && d.rho[i] == c.rho && near(d.P[i], c.p, 1e-14L) && near(d.h[i], (D == 2 ? 4 : 3) * (L)sep, 1e-13L), "particle %zu: velocity %g %g %g, density %g, pressure %g, smoothing length %g", i, d.v[i][0], d.v[i][1], d.v[i][2], d.rho[i], d.P[i], d.h[i]);
  readable(g, c, d);
}

// ------------------------------------------------------------------ fluid ---
PROPERTY(fluid, 200, 50000) {
  Case c;
  common(g, c, 2, true);
  double bl, bw, bh;
  c.P.whole("domain_type", 0);
  box(g, c, bl, bw, bh);
  double sep = bl / (c.nx - 1), grav = c.P.num(g, "gravity_acceleration_constant", g.pick({9.81, 0.5, 0.0}));
  if(bl < 8 * sep || bw < 4 * sep || (D > 2 && bh < 3 * sep)) g.discard();
  g.note("%s ranks=%d", c.P.all().c_str(), c.n);
  old_file(g, c);
  run_generator(g, c.dir.dir, c.P, gen_fluid::generator_main, c.n, c.sch);
  Data d = take(g, c.dir.dir, true);
  g.nontrivial(d.n > 20);
  gas(g, d, c);
  at_rest(g, d);
  total_mass(g, d, c.rho * (L)bl / 4 * bw / 2 * (D == 3 ? bh : 1));
  inside(g, d, {-bl / 2, -bw / 2, -bh / 2}, {-bl / 4, 0, bh / 2}, 1e-6 * bl);
  distinct(g, d, 1e-6 * sep, {0, 0, 0});
  fills(g, d.n, cell(c.ltype, sep), sep, D == 3 ? std::vector<L>{(L)bl / 4, (L)bw / 2, bh} : std::vector<L>{(L)bl / 4, (L)bw / 2});
  for(size_t i = 0; i < d.n; ++i) PBT_CHECK(g, d.rho[i] == c.rho && near(d.P[i], 2.5L - (L)c.rho * grav * d.x[i][1], 1e-13L), "particle %zu at height %g: density %g, pressure %.15g is not hydrostatic", i, d.x[i][1], d.rho[i], d.P[i]);
  readable(g, c, d);
}

// ------------------------------------------------- Kelvin-Helmholtz (KH) ----
PROPERTY(kelvin_helmholtz, 300, 60000) {
  Case c;
  common(g, c, 2, true);
  c.P.whole("domain_type", 0);
  double bl = c.P.num(g, "box_length", g.pick({1.0, 0.5, 2.0})), bw = c.P.num(g, "box_width", bl * g.pick({1.0, 1.5, 2.0, 0.8})), bh = c.P.num(g, "box_height", bl * g.pick({1.0, 0.5, 0.7}));
  c.P.yes("equal_mass", true);
  c.nx = c.P.whole("lattice_nx", D == 2 ? 10 + g.u(31) : 8 + g.u(10));
  double dr = c.P.num(g, "density_ratio", g.pick({2.0, 1.0, 4.0, 1.5, 0.5})), v = c.P.num(g, "flow_velocity", dr == 1 ? 0.7 : g.pick({0.0, 1.0, 0.3})), A = c.P.num(g, "KH_A", g.pick({0.025, 0.3})), lam = c.P.num(g, "KH_lambda", g.pick({1. / 6, 0.5}));
  double sm = bl / c.nx, st = sm * pow(dr, 1.0 / D), f = c.ltype ? sqrt(3.0) : 1, fz = c.ltype == 0 ? 1 : (c.ltype + 1) * sqrt(2. / 3);
  double wm = floor(bw / (3 * f * sm)) * f * sm, gap = std::min(sm, st) * f / 2, wt = floor((bw / 2 - wm / 2 - gap) / (f * st)) * f * st;
  if(wm < 0.9 * f * sm || wt < 0.9 * f * st || bl < 3 * st || (D == 3 && bh < 1.01 * fz * std::max(sm, st))) g.discard();
  g.note("%s ranks=%d", c.P.all().c_str(), c.n);
  old_file(g, c);
  run_generator(g, c.dir.dir, c.P, gen_KH::generator_main, c.n, c.sch);
  Data d = take(g, c.dir.dir, true);
  g.nontrivial(d.n > 20);
  gas(g, d, c);
  double rm = c.rho * dr, mid = 0, out = 1e300, ylo = 1e300, yhi = -1e300;
  std::vector<int> in(d.n);
  for(size_t i = 0; i < d.n; ++i) {
    double y = d.x[i][1];
    in[i] = dr != 1 ? d.rho[i] == rm : d.v[i][0] > 0;
    PBT_CHECK(g, d.rho[i] == (in[i] ? rm : c.rho), "particle %zu: density %g", i, d.rho[i]);
    PBT_CHECK(g, near(d.P[i], c.p, 1e-14L), "particle %zu: pressure %g", i, d.P[i]);
    PBT_CHECK(g, d.v[i][0] == (in[i] ? v / 2 : -v / 2) && d.v[i][2] == 0, "particle %zu: velocity %g %g %g", i, d.v[i][0], d.v[i][1], d.v[i][2]);
    PBT_CHECK(g, d.m[i] == d.m[0], "masses %g and %g", d.m[i], d.m[0]);
    if(in[i]) mid = std::max(mid, fabs(y)); else out = std::min(out, fabs(y));
    ylo = std::min(ylo, y); yhi = std::max(yhi, y);
    double a = fabs(y), e = 1e-9;
    L want = -(L)A * sinl(2 * M_PIl * ((L)d.x[i][0] + 0.5L) / lam) * (y > 0 ? 1 : -1);
    if(a < 0.25 - e && a > 0.225 + e) { g.label("perturbed strip"); PBT_CHECK(g, fabsl(d.v[i][1] - want) < 1e-12L * A * (1 + bl / lam), "particle %zu in the perturbed strip: velocity %g instead of %Lg", i, d.v[i][1], want); }
    else if(a > 0.25 + e || a < 0.225 - e) PBT_CHECK(g, d.v[i][1] == 0, "particle %zu at height %g is perturbed", i, y);
  }
  PBT_CHECK(g, mid < out, "the middle reaches to %g, the outside begins at %g", mid, out);
  // a third of the box, to within the layers
  double slack = f * (sm + st) / bw;
  PBT_CHECK(g, mid < bw / 6 * (1 + 3 * slack) && mid > bw / 6 - 1.2 * f * sm, "the middle of a box of width %g ends at %g", bw, mid);
  PBT_CHECK(g, fabs(ylo + bw / 2) < 1e-6 * bw && yhi < bw / 2 && yhi > bw / 2 - 1.5 * f * (sm + st), "particles between %g and %g in a box of width %g", ylo, yhi, bw);
  inside(g, d, {-bl / 2, -bw / 2, -bh / 2}, {bl / 2, bw / 2, bh / 2}, 1e-6 * bl);
  distinct(g, d, 0.3 * std::min(sm, st), {bl, bw, D == 3 ? bh : 0});
  lattice_mass(g, d, "middle", [&](size_t i) { return in[i]; }, 1e-6L);
  lattice_mass(g, d, "top", [&](size_t i) { return !in[i] && d.x[i][1] > 0; }, 1e-6L);
  lattice_mass(g, d, "bottom", [&](size_t i) { return !in[i] && d.x[i][1] < 0; }, 1e-6L);
  readable(g, c, d);
}

// --------------------------------------------------- Rayleigh-Taylor (RT) ---
PROPERTY(rayleigh_taylor, 300, 60000) {
  Case c;
  common(g, c, 2, true);
  c.P.whole("domain_type", 0);
  double bl = c.P.num(g, "box_length", g.pick({0.5, 1.0, 3.0})), bw = c.P.num(g, "box_width", bl * g.pick({3.0, 1.0, 1.7})), bh = c.P.num(g, "box_height", bl * g.pick({1.0, 0.5, 2.0}));
  c.nx = c.P.whole("lattice_nx", D == 2 ? 6 + g.u(20) : 5 + g.u(5));
  double dr = c.P.num(g, "density_ratio", g.pick({2.0, 1.0, 3.0, 1.5})), grav = c.P.num(g, "gravity_acceleration_constant", g.pick({0.5, 9.81, 0.0})), A = c.P.num(g, "rt_perturbation_amplitude", g.pick({0.2, 0.01})), W = c.P.num(g, "rt_perturbation_stripe_width", g.pick({0.1, 0.4})), mode = c.P.num(g, "rt_perturbation_mode", g.pick({1.0, 2.0}));
  c.P.num(g, "lattice_mismatch_tolerance", D == 3 ? 0.2 : g.pick({0.05, 0.2, 0.01}));
  bool px = c.P.yes("periodic_boundary_x", g.flip()), pz = c.P.yes("periodic_boundary_z", D == 3 && g.flip());
  double sb = bl / (c.nx - 1), st = sb / pow(dr, 1.0 / D), f = c.ltype ? sqrt(3.0) : 1, fz = c.ltype == 0 ? 1 : (c.ltype + 1) * sqrt(2. / 3);
  if(bw / 2 < 2.2 * f * sb || (D == 3 && bh < 3.2 * fz * sb)) g.discard();
  g.note("%s ranks=%d", c.P.all().c_str(), c.n);
  if(px) g.label("periodic x");
  if(pz) g.label("periodic z");
  old_file(g, c);
  auto r = run_generator(g, c.dir.dir, c.P, gen_RT::generator_main, c.n, c.sch);
  Data d = take(g, c.dir.dir, true);
  g.nontrivial(d.n > 20);
  double NL = r["box_length"], NH = r["box_height"];
  gas(g, d, c);
  if(!px) PBT_CHECK(g, NL == bl, "length changed from %g to %g", bl, NL);
  if(!pz) PBT_CHECK(g, NH == bh, "height changed from %g to %g", bh, NH);
  // a periodic box is made to fit, beginning near the size that was asked for
  if(px) PBT_CHECK(g, NL > bl - 2.5 * sb && (dr != 1 || NL < bl + 1.5 * sb), "length %g became %g, particle distance %g", bl, NL, sb);
  if(pz) PBT_CHECK(g, NH > bh - 2.5 * fz * sb && (dr != 1 || NH < bh + 1.5 * fz * sb), "height %g became %g, particle distance %g", bh, NH, sb);
  inside(g, d, {-NL / 2, -bw / 2, -NH / 2}, {NL / 2, bw / 2, NH / 2}, 1e-6 * std::max(NL, bw));
  distinct(g, d, 1e-6 * sb, {0, 0, 0});
  size_t nt = 0, nb = 0;
  for(size_t i = 0; i < d.n; ++i) {
    double y = d.x[i][1];
    bool top = y >= -1e-9 * bw;
    (top ? nt : nb)++;
    double rho = top ? c.rho * dr : c.rho;
    PBT_CHECK(g, d.rho[i] == rho, "particle %zu at height %g: density %g", i, y, d.rho[i]);
    L P = 2.5L + (L)grav * (top ? c.rho * (L)dr * ((L)bw / 2 - y) : c.rho * ((L)dr * bw / 2 - y));
    PBT_CHECK(g, near(d.P[i], P, 1e-12L), "particle %zu at height %g: pressure %.15g, the weight above it makes %.15Lg", i, y, d.P[i], P);
    PBT_CHECK(g, d.v[i][0] == 0 && d.v[i][2] == 0 && d.m[i] == d.m[0], "particle %zu: velocity %g %g %g, mass %g", i, d.v[i][0], d.v[i][1], d.v[i][2], d.m[i]);
    L a = fabsl(y), base = -A * (1 + cosl(2 * M_PIl * d.x[i][0] / NL * mode)) * cosl(M_PIl * y / W), w1 = base, w2 = base;
    if(D == 3) { w1 *= 1 + cosl(2 * M_PIl * d.x[i][2] / NL * mode); w2 *= 1 + cosl(2 * M_PIl * d.x[i][2] / NH * mode); }
    if(a < 0.5L * W * (1 - 1e-12L)) { g.label("perturbed strip"); PBT_CHECK(g, fabsl(d.v[i][1] - w1) < 1e-11L * A || fabsl(d.v[i][1] - w2) < 1e-11L * A, "particle %zu in the perturbed strip: velocity %g instead of %Lg", i, d.v[i][1], w1); }
    else if(a > 0.5L * W * (1 + 1e-12L)) PBT_CHECK(g, d.v[i][1] == 0, "particle %zu at height %g is perturbed", i, y);
  }
  lattice_mass(g, d, "top", [&](size_t i) { return d.x[i][1] >= -1e-9 * bw; }, 1e-6L);
  lattice_mass(g, d, "bottom", [&](size_t i) { return d.x[i][1] < -1e-9 * bw; }, 1e-6L);
  std::vector<L> room = {NL, (L)bw / 2};
  if(D == 3) room.push_back(NH);
  fills(g, nt, cell(c.ltype, st), st * 1.1, room);
  fills(g, nb, cell(c.ltype, sb), sb * 1.4, room);
  readable(g, c, d);
}
#endif
