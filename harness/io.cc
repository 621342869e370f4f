// C25, C26: snapshots and restart.  Simulated ranks, real HDF5 files in a
// scratch directory of the case.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <cassert>
#include <algorithm>
#include <dirent.h>
#include <libgen.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <mpi.h>
#include "mockmpi.h"
#include <hdf5.h>
#include "default_physics.h"
#include "params.h"
#include "pbt.h"
#include "cloud.h"
using pbt::Gen;
static const int D = gdimension;

// ending the program is an event of the rank, removal is limited to the scratch directory
struct Exit { int code; };
static std::string scratch;
static bool finalized = false;
static std::vector<std::string> strayed;
static int io_remove(const char * n) {
  char d[PATH_MAX], r[PATH_MAX];
  snprintf(d, sizeof d, "%s", n);
  if(!realpath(dirname(d), r)) { errno = ENOENT; return -1; }
  std::string full = r;
  if(full.compare(0, scratch.size(), scratch) || (full.size() > scratch.size() && full[scratch.size()] != '/')) { strayed.push_back(n); errno = EPERM; return -1; }
  return ::remove(n);
}
[[noreturn]] static void io_exit(int c) { throw Exit{c}; }
#define exit(c) io_exit(c)
#define remove(n) io_remove(n)
#define MPI_Finalize() (finalized = true, 0)
#include "io.h"
#undef exit
#undef remove
#undef MPI_Finalize

static void own_all() {
  static bool done = false;
  if(done) return;
  done = true;
  mock::own_namespaces({"io", "physics"});
  mock::own(finalized);
}
static std::vector<char> pristine;
static void new_process() { // globals as at the start of the program, nothing open
  own_all();
  auto & G = mock::globals();
  if(pristine.empty()) pristine = G.get();
  G.set(pristine);
  mock::fresh();
  mockh5::reset(scratch + "/.h5");
}
static void wipe(const std::string & d) {
  DIR * h = opendir(d.c_str());
  if(!h) return;
  while(auto * e = readdir(h)) {
    std::string n = e->d_name;
    if(n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
  closedir(h);
}
struct Scratch {
  std::string back;
  Scratch() {
    char b[PATH_MAX];
    if(!getcwd(b, sizeof b)) abort();
    back = b;
    scratch = back + "/io." + std::to_string(getpid());
    mkdir(scratch.c_str(), 0755);
    wipe(scratch);
    mkdir((scratch + "/.h5").c_str(), 0755);
    if(chdir(scratch.c_str())) abort();
    strayed.clear();
  }
  ~Scratch() { mockh5::reset(scratch + "/.h5"); if(chdir(back.c_str())) abort(); wipe(scratch); rmdir(scratch.c_str()); }
};
static std::set<std::string> listing(const std::string & d = ".", const std::string & pre = "") {
  std::set<std::string> s;
  DIR * h = opendir(d.c_str());
  if(!h) return s;
  while(auto * e = readdir(h)) {
    std::string n = e->d_name;
    if(n[0] == '.') continue;
    struct stat st;
    stat((d + "/" + n).c_str(), &st);
    if(S_ISDIR(st.st_mode)) { s.insert(pre + n + "/"); for(auto & x : listing(d + "/" + n, pre + n + "/")) s.insert(x); }
    else s.insert(pre + n);
  }
  closedir(h);
  return s;
}
static std::string slurp(const std::string & f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), {}); }

// ------------------------------------------------------------ particles ----
static double odd(pbt::Rng & r, bool special) { // any double, bit patterns matter
  if(!special || r.below(6)) return (r.unit() - .5) * std::pow(10., (double)r.below(21) - 10);
  static const double v[] = {0.0, -0.0, INFINITY, -INFINITY, 5e-324, -2.2e-308, 1.7976931348623157e308, 1.0 / 3, 1e-300};
  return v[r.below(9)];
}
static body gen_body(pbt::Rng & r, int64_t id, bool special) {
  body b;
  fill_attrs(b, id, r.next());
  auto v = [&] { point_t p; for(int d = 0; d < D; ++d) p[d] = odd(r, special); return p; };
  b.set_coordinates(v()); b.setVelocity(v()); b.setAcceleration(v()); b.setGAcceleration(v());
  b.set_mass(odd(r, special)); b.set_radius(odd(r, special)); b.setDensity(odd(r, special)); b.setPressure(odd(r, special)); b.setInternalenergy(odd(r, special)); b.setDt(odd(r, special));
  b.set_id(id); b.setNeighbors(r.below(1000));
  return b;
}
using Parts = std::vector<std::vector<body>>; // of each rank
static Parts gen_parts(Gen & g, int n, size_t max = 40) {
  pbt::Rng r(g.u(1u << 30));
  int kind = g.u(4);
  bool special = g.flip();
  int64_t id0 = g.pick({(int64_t)1, (int64_t)0, (int64_t)1 << 40, (int64_t)1000});
  Parts p(n);
  size_t tot = 0;
  for(int i = 0; i < n; ++i) {
    size_t m = kind == 0 ? r.below(max) : kind == 1 ? 5 : kind == 2 ? (r.below(2) ? 0 : r.below(max)) : (i == (int)(max % n) ? max : r.below(3));
    for(size_t k = 0; k < m; ++k) p[i].push_back(gen_body(r, id0 + (int64_t)tot++, special));
  }
  if(!tot) p[0].push_back(gen_body(r, id0, special));
  return p;
}
static std::vector<body> flat(const Parts & p) { std::vector<body> v; for(auto & q : p) v.insert(v.end(), q.begin(), q.end()); return v; }
static bool eq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
//! what a snapshot has to preserve
static void same_saved(Gen & g, const char * what, body & w, body & r) {
  auto cmp = [&](const char * n, double a, double b) { PBT_CHECK(g, eq(a, b), "%s: particle %lld: %s was %.17g, is %.17g", what, (long long)w.id(), n, a, b); };
  PBT_CHECK(g, w.id() == r.id(), "%s: particle %lld became %lld", what, (long long)w.id(), (long long)r.id());
  for(int d = 0; d < D; ++d) { cmp("position", w.coordinates()[d], r.coordinates()[d]); cmp("velocity", w.getVelocity()[d], r.getVelocity()[d]); }
  cmp("mass", w.mass(), r.mass()); cmp("smoothing length", w.radius(), r.radius()); cmp("density", w.getDensity(), r.getDensity()); cmp("pressure", w.getPressure(), r.getPressure());
  cmp("internal energy", w.getInternalenergy(), r.getInternalenergy()); cmp("time step", w.getDt(), r.getDt());
  cmp("type", w.getType(), r.getType()); cmp("state", w.state(), r.state());
}
struct Snap { int64_t iter; double time, dt; std::vector<body> p; };

//! one run of the program on n ranks: optional input, then outputs
struct Input { std::string in, out; int64_t start; };
struct Run {
  std::vector<int> code;                 // -1: went on
  Parts read;
  std::vector<int64_t> tot, loc;
  std::vector<double> time, dt;
  bool rejected() const { for(int c : code) if(c == -1) return false; return true; }
};
static void str_param(char * d, const std::string & s) { strcpy(d, s.c_str()); }
static Run run_process(Gen & g, int n, const mock::Sched & s, const Input * in, const std::string & out, bool separate, const std::vector<std::pair<Snap, Parts>> & outs) {
  new_process();
  param::_out_h5data_separate_iterations = separate;
  param::_initial_iteration = in ? in->start : 0;
  Run R;
  R.code.assign(n, -1); R.read.resize(n); R.tot.assign(n, -1); R.loc.assign(n, -1); R.time.assign(n, 0); R.dt.assign(n, 0);
  mock::run(n, s.policy, s.seed, [&](int r) {
    physics::dt = -7; physics::totaltime = -8;
    try {
      if(in) {
        io::inputDataHDF5(R.read[r], in->in.c_str(), in->out.c_str(), R.tot[r], R.loc[r], (int)in->start);
        if(finalized) throw Exit{255};
        R.time[r] = physics::totaltime; R.dt[r] = physics::dt;
      }
      for(auto & o : outs) {
        physics::dt = o.first.dt; physics::totaltime = o.first.time;
        auto mine = o.second[r];
        io::outputDataHDF5(mine, out.c_str(), o.first.iter, o.first.time);
        PBT_CHECK(g, mine.size() == o.second[r].size(), "output changed the number of particles of a rank");
        for(size_t i = 0; i < mine.size(); ++i) { auto a = attrs(mine[i]); body w = o.second[r][i]; auto b = attrs(w); for(size_t k = 0; k < a.size(); ++k) PBT_CHECK(g, eq(a[k], b[k]), "output changed a particle"); }
      }
    } catch(Exit & e) { R.code[r] = finalized && e.code == 0 ? 255 : e.code; }
  });
  PBT_CHECK(g, strayed.empty(), "removal of %s, outside of the output directory", strayed.empty() ? "" : strayed[0].c_str());
  int ended = 0;
  for(int c : R.code) ended += c != -1;
  PBT_CHECK(g, ended == 0 || ended == n, "only %d of %d ranks ended the program", ended, n);
  return R;
}

#include "h5init.h"
// what is in a file, read with HDF5 itself
#pragma push_macro("H5Fopen")
#pragma push_macro("H5Fclose")
#pragma push_macro("H5Gopen")
#pragma push_macro("H5Gclose")
#pragma push_macro("H5Dopen")
#pragma push_macro("H5Dclose")
#pragma push_macro("H5Dread")
#pragma push_macro("H5Dwrite")
#pragma push_macro("H5Dcreate")
#pragma push_macro("H5Aopen")
#pragma push_macro("H5Aclose")
#pragma push_macro("H5Fcreate")
#pragma push_macro("H5Gcreate")
#pragma push_macro("H5Acreate")
#pragma push_macro("H5Awrite")
#undef H5Fopen
#undef H5Fclose
#undef H5Gopen
#undef H5Gclose
#undef H5Dopen
#undef H5Dclose
#undef H5Dread
#undef H5Dwrite
#undef H5Dcreate
#undef H5Aopen
#undef H5Aclose
#undef H5Fcreate
#undef H5Gcreate
#undef H5Acreate
#undef H5Awrite
template<class T> static T attribute(Gen & g, hid_t o, const char * n, hid_t t, const std::string & where) {
  T v{};
  hid_t a = H5Aopen(o, n, H5P_DEFAULT);
  PBT_CHECK(g, a >= 0, "%s has no attribute %s", where.c_str(), n);
  PBT_CHECK(g, H5Aread(a, t, &v) >= 0, "attribute %s of %s cannot be read", n, where.c_str());
  H5Aclose(a);
  return v;
}
static std::vector<double> dataset(Gen & g, hid_t o, const char * n, size_t want, const std::string & where, std::vector<long long> * ints = nullptr) {
  hid_t d = H5Dopen2(o, n, H5P_DEFAULT);
  PBT_CHECK(g, d >= 0, "%s has no data set %s", where.c_str(), n);
  hid_t s = H5Dget_space(d);
  hsize_t k = 0;
  H5Sget_simple_extent_dims(s, &k, nullptr);
  H5Sclose(s);
  PBT_CHECK(g, k == want, "%s: data set %s has %zu elements instead of %zu", where.c_str(), n, (size_t)k, want);
  std::vector<double> v(k);
  if(ints) { ints->resize(k); H5Dread(d, H5T_NATIVE_LLONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, ints->data()); }
  else H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
  H5Dclose(d);
  return v;
}
static std::set<std::string> steps_of(const std::string & file) {
  std::set<std::string> s;
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if(f < 0) return s;
  hid_t r = H5Gopen2(f, "/", H5P_DEFAULT);
  hsize_t k = 0;
  H5Gget_num_objs(r, &k);
  for(hsize_t i = 0; i < k; ++i) { char b[300]; H5Gget_objname_by_idx(r, i, b, sizeof b); s.insert(b); }
  H5Gclose(r);
  H5Fclose(f);
  return s;
}
static void check_file(Gen & g, const std::string & file, int step, Snap & s) {
  std::string where = file + " Step#" + std::to_string(step);
  hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  PBT_CHECK(g, f >= 0, "%s cannot be opened", file.c_str());
  PBT_CHECK(g, attribute<int>(g, f, "dimension", H5T_NATIVE_INT, file) == D, "%s: dimension", file.c_str());
  hid_t q = H5Gopen2(f, ("/Step#" + std::to_string(step)).c_str(), H5P_DEFAULT);
  PBT_CHECK(g, q >= 0, "%s is missing", where.c_str());
  int64_t it = attribute<int64_t>(g, q, "iteration", H5T_NATIVE_LLONG, where);
  double t = attribute<double>(g, q, "time", H5T_NATIVE_DOUBLE, where), dt = attribute<double>(g, q, "timestep", H5T_NATIVE_DOUBLE, where);
  PBT_CHECK(g, it == s.iter && eq(t, s.time) && eq(dt, s.dt), "%s holds iteration %lld, time %.17g, step %.17g instead of %lld, %.17g, %.17g", where.c_str(), (long long)it, t, dt, (long long)s.iter, s.time, s.dt);
  size_t N = s.p.size();
  std::vector<long long> id, type, state, nb, none;
  dataset(g, q, "id", N, where, &id); dataset(g, q, "type", N, where, &type); dataset(g, q, "state", N, where, &state); dataset(g, q, "neighbors", N, where, &nb);
  std::map<std::string, std::vector<double>> v;
  for(const char * n : {"x", "y", "z", "vx", "vy", "vz", "ax", "ay", "az", "gradV", "h", "rho", "u", "P", "m", "dt", "traceSS", "alpha", "divergenceV", "dDivVdt", "trigger", "xi"}) v[n] = dataset(g, q, n, N, where);
  for(size_t i = 0; i < N; ++i) {
    body & b = s.p[i];
    auto c = [&](const char * n, double w) { PBT_CHECK(g, eq(v[n][i], w), "%s: %s of element %zu is %.17g instead of %.17g", where.c_str(), n, i, v[n][i], w); };
    static const char * X[] = {"x", "y", "z"}, * V[] = {"vx", "vy", "vz"}, * A[] = {"ax", "ay", "az"};
    for(int d = 0; d < 3; ++d) { c(X[d], d < D ? b.coordinates()[d] : 0); c(V[d], d < D ? b.getVelocity()[d] : 0); c(A[d], d < D ? b.getAcceleration()[d] + b.getGAcceleration()[d] : 0); }
    c("gradV", b.getGradV()); c("h", b.radius()); c("rho", b.getDensity()); c("u", b.getInternalenergy()); c("P", b.getPressure()); c("m", b.mass()); c("dt", b.getDt()); c("traceSS", b.getTraceSS());
    c("alpha", b.getAlpha()); c("divergenceV", b.getDivergenceV()); c("dDivVdt", b.getDdivvdt()); c("trigger", b.getTrigger()); c("xi", b.getXi());
    PBT_CHECK(g, id[i] == (long long)b.id() && type[i] == b.getType() && state[i] == b.state() && nb[i] == (long long)b.getNeighbors(), "%s: element %zu: id, type, state, neighbours %lld, %lld, %lld, %lld instead of %lld, %d, %d, %lld", where.c_str(), i, id[i], type[i], state[i], nb[i], (long long)b.id(), (int)b.getType(), (int)b.state(), (long long)b.getNeighbors());
  }
  H5Gclose(q);
  H5Fclose(f);
}
#pragma pop_macro("H5Fopen")
#pragma pop_macro("H5Fclose")
#pragma pop_macro("H5Gopen")
#pragma pop_macro("H5Gclose")
#pragma pop_macro("H5Dopen")
#pragma pop_macro("H5Dclose")
#pragma pop_macro("H5Dread")
#pragma pop_macro("H5Dwrite")
#pragma pop_macro("H5Dcreate")
#pragma pop_macro("H5Aopen")
#pragma pop_macro("H5Aclose")
#pragma pop_macro("H5Fcreate")
#pragma pop_macro("H5Gcreate")
#pragma pop_macro("H5Acreate")
#pragma pop_macro("H5Awrite")

static std::string name_of(const std::string & prefix, bool separate, int step) {
  char b[16];
  snprintf(b, sizeof b, "_%05d", step);
  return prefix + (separate ? b : "") + ".h5part";
}
static int gen_n(Gen & g) { return g.pick({1, 2, 3, 4, 5, 7}); }
static std::vector<std::pair<Snap, Parts>> gen_outputs(Gen & g, int n, int count, int64_t & iter, bool at_start) {
  std::vector<std::pair<Snap, Parts>> v;
  for(int i = 0; i < count; ++i) {
    if(i || !at_start) iter += 1 + g.u(20);
    Snap s;
    s.iter = iter; s.time = g.pick({iter * .01, iter * 1e-7 + 1.0 / 3, (double)g.u64()}); s.dt = g.lreal(1e-12, 10);
    Parts p = gen_parts(g, n);
    s.p = flat(p);
    v.emplace_back(s, p);
  }
  return v;
}
static void check_read(Gen & g, Run & R, Snap & s, bool clock) {
  int n = (int)R.code.size();
  size_t N = s.p.size(), at = 0;
  for(int r = 0; r < n; ++r) {
    size_t want = N / n + (r < (int)(N % n));
    PBT_CHECK(g, R.code[r] == -1, "rank %d ended with %d instead of reading", r, R.code[r]);
    PBT_CHECK(g, R.tot[r] == (int64_t)N && R.loc[r] == (int64_t)R.read[r].size(), "rank %d: total %lld, local %lld, has %zu of %zu particles", r, (long long)R.tot[r], (long long)R.loc[r], R.read[r].size(), N);
    PBT_CHECK(g, R.read[r].size() == want, "rank %d of %d reads %zu of %zu particles", r, n, R.read[r].size(), N);
    for(auto & b : R.read[r]) { same_saved(g, "read back", s.p[at], b); ++at; }
    if(clock) PBT_CHECK(g, eq(R.time[r], s.time) && eq(R.dt[r], s.dt), "rank %d: time and step %.17g, %.17g instead of %.17g, %.17g", r, R.time[r], R.dt[r], s.time, s.dt);
  }
}

// ------------------------------------------------------------------ C25 ----
PROPERTY(round_trip, 3000, 60000) {
  Scratch sc;
  int n = gen_n(g), m = gen_n(g), count = 1 + (int)g.u(3);
  bool separate = g.flip();
  auto s1 = mock::gen_sched(g), s2 = mock::gen_sched(g);
  int64_t iter = g.pick({(int64_t)0, (int64_t)1, (int64_t)999});
  auto outs = gen_outputs(g, n, count, iter, true);
  g.note("%d ranks write %d snapshots %s, %d read", n, count, separate ? "in files" : "in one file", m);
  g.label(separate ? "file per snapshot" : "single file");
  g.nontrivial(n > 1 || m > 1);
  run_process(g, n, s1, nullptr, "sim", separate, outs);
  auto files = listing();
  std::set<std::string> want;
  for(int k = 0; k < count; ++k) want.insert(name_of("sim", separate, k));
  PBT_CHECK(g, files == want, "%zu files instead of %zu", files.size(), want.size());
  mockh5::reset(scratch + "/.h5");
  for(int k = 0; k < count; ++k) check_file(g, name_of("sim", separate, k), k, outs[k].first);
  std::map<std::string, std::string> before;
  for(auto & f : files) before[f] = slurp(f);
  int k = (int)g.u(count);
  Input in{"sim", "other", outs[k].first.iter};
  if(in.start == 0 && separate) in.in = "sim_00000"; // as initial data
  Run R = run_process(g, m, s2, &in, "other", separate, {});
  check_read(g, R, outs[k].first, in.start != 0);
  for(auto & f : before) PBT_CHECK(g, slurp(f.first) == f.second, "reading changed %s", f.first.c_str());
}
PROPERTY(initial_data, 3000, 60000) { // files of the generators: fields may be missing
  Scratch sc;
  int m = gen_n(g);
  pbt::Rng r(g.u(1u << 30));
  size_t N = 1 + g.u(60);
  std::vector<body> p;
  for(size_t i = 0; i < N; ++i) p.push_back(gen_body(r, 7 * i + 3, false));
  std::set<std::string> leave;
  static const char * opt[] = {"id", "dt", "type", "state", "u", "P", "vx", "rho", "h"};
  for(auto * o : opt) if(g.u(3) == 0) leave.insert(o);
  for(auto * o : {"vy", "vz"}) if(leave.count("vx")) leave.insert(o);
  write_initial("init.h5part", p, leave);
  auto s = mock::gen_sched(g);
  Input in{"init", "sim", 0};
  g.note("%zu particles, %d ranks, without:", N, m);
  for(auto & l : leave) g.note(" %s", l.c_str());
  g.nontrivial(m > 1);
  if(leave.count("id")) g.label("no identifiers");
  Run R = run_process(g, m, s, &in, "sim", false, {});
  Snap want;
  want.p = p;
  for(size_t i = 0; i < N; ++i) {
    body & b = want.p[i];
    if(leave.count("id")) b.set_id(i + 1);
    if(leave.count("dt")) b.setDt(0);
    if(leave.count("type")) b.setType(NORMAL);
    if(leave.count("state")) b.set_state(NONE);
    if(leave.count("u")) b.setInternalenergy(0);
    if(leave.count("P")) b.setPressure(0);
    if(leave.count("rho")) b.setDensity(0);
    if(leave.count("h")) b.set_radius(0);
    if(leave.count("vx")) { point_t z; for(int d = 0; d < D; ++d) z[d] = 0; b.setVelocity(z); }
  }
  check_read(g, R, want, false);
}

// ------------------------------------------------------------------ C26 ----
static void put(const std::string & f, const std::string & c) { std::ofstream(f, std::ios::binary) << c; }
struct Series { bool separate; std::vector<Snap> s; }; // snapshots with one prefix
PROPERTY(restart_history, 3000, 30000) {
  Scratch sc;
  mkdir("out", 0755); mkdir("out/deep", 0755);
  std::string pad(g.pick({60, 120, 200}), 'q');
  mkdir(pad.c_str(), 0755);
  std::vector<std::string> pre = {"sim", "out/sim", "sim2", "out/deep/x", pad + "/long" + pad, "sim_00001x"};
  std::map<std::string, Series> M;
  for(auto & p : pre) M[p].separate = g.flip();
  pbt::Rng r(g.u(1u << 30));
  Snap init;
  init.iter = 0;
  for(int64_t i = 0, N = 1 + r.below(40); i < N; ++i) init.p.push_back(gen_body(r, i + 1, false));
  write_initial("init.h5part", init.p, {});
  int decoys = g.u(5);
  for(int i = 0; i < decoys; ++i) {
    const std::string & p = pre[g.u(pre.size())];
    std::string dir = p.substr(0, p.find('/') == std::string::npos ? 0 : p.rfind('/') + 1), base = p.substr(dir.size());
    static const char * end[] = {"_0001.h5part", "_000001.h5part", "x_00001.h5part", "_00001.h5part.bak", ".txt", "_0000a.h5part", "_00001.h5", "-00001.h5part", "_00001_x.h5part"};
    if(g.u(6) == 0) put(dir + "x" + base + "_00001.h5part", "keep");
    else put(p + end[g.u(9)], "keep");
  }
  int runs = 2 + (int)g.u(4), restarts = 0, refused = 0;
  bool slow = false;
  for(int k = 0; k < runs; ++k) {
    int n = gen_n(g);
    auto sched = mock::gen_sched(g);
    std::vector<std::string> have;
    for(auto & m : M) if(!m.second.s.empty()) have.push_back(m.first);
    enum Kind { Fresh, Restart, Absent, Missing, Zero };
    Kind kind = have.empty() ? (g.u(8) == 0 ? Missing : Fresh) : g.pick({Restart, Restart, Restart, Restart, Restart, Restart, Fresh, Fresh, Absent, Missing, Zero});
    Input in;
    Snap * from = nullptr;
    size_t at = 0;
    bool refuse = false;
    in.out = pre[g.u(pre.size())];
    if(kind == Fresh) { in.in = "init"; in.start = 0; from = &init; }
    else if(kind == Missing) {
      in.start = g.u(3) ? 1 + g.u(20) : 0;
      in.in = g.flip() ? "nothing" : in.out;
      if(in.in == in.out && !M[in.in].s.empty()) in.in = "out/nothing";
      refuse = true;
    }
    else {
      in.in = have[g.u(have.size())];
      if(g.flip()) in.out = in.in;
      auto & S = M[in.in];
      if(kind == Zero) { // the same files again, from the start
        in.out = in.in; in.start = 0;
        if(!S.separate) continue;
        refuse = true;
      }
      else {
        at = g.flip() ? S.s.size() - 1 : g.u(S.s.size());
        in.start = S.s[at].iter;
        if(in.start == 0) continue; // is initial data then
        from = &S.s[at];
        if(kind == Absent) {
          if(!S.separate && (slow || n > 3)) continue;
          slow |= !S.separate;
          in.start = 1 + g.u(60);
          for(auto & s : S.s) if(s.iter == in.start) in.start = 1000;
          refuse = true;
        }
        else if(in.in == in.out && !S.separate && at + 1 != S.s.size()) refuse = true;
      }
    }
    auto & O = M[in.out];
    // snapshots of this run
    int64_t iter = in.start;
    bool same = in.in == in.out, first = g.flip();
    int count = g.u(4);
    if(n <= 3 && !slow && g.chance(1, 8)) { count = 7 + (int)g.u(6); slow = true; g.label("many snapshots"); } // numbers of two digits
    auto outs = gen_outputs(g, n, count, iter, first);
    if(kind == Restart && count && first) { // the state that was read
      auto & o = outs[0];
      o.first = *from;
      size_t b = 0, N = from->p.size();
      for(int i = 0; i < n; ++i) { size_t m = N / n + (i < (int)(N % n)); o.second[i].assign(from->p.begin() + b, from->p.begin() + b + m); b += m; }
    }
    g.note("\nrun %d: %d ranks, %s iteration %lld to %s (%s), %d outputs%s%s", k, n, in.in.substr(0, 20).c_str(), (long long)in.start, in.out.substr(0, 20).c_str(), O.separate ? "files" : "one file", count, count && first ? " from the first iteration" : "", refuse ? ", to be refused" : "");
    auto before = listing();
    std::map<std::string, std::string> bytes;
    for(auto & f : before) if(f.back() != '/') bytes[f] = slurp(f);
    bytes["init.h5part"] = slurp("init.h5part");
    Snap want;
    if(from) want = *from;
    Run R = run_process(g, n, sched, &in, in.out, O.separate, outs);
    mockh5::reset(scratch + "/.h5");
    if(refuse) {
      ++refused;
      for(int i = 0; i < n; ++i) PBT_CHECK(g, R.code[i] != -1, "rank %d goes on with %zu particles although the restart is impossible", i, R.read[i].size());
      for(int i = 0; i < n; ++i) PBT_CHECK(g, R.code[i] != 0, "rank %d reports success although the restart is impossible", i);
      auto now = listing();
      for(auto & f : now) PBT_CHECK(g, before.count(f), "a refused restart created %s", f.c_str());
      for(auto & f : before) PBT_CHECK(g, now.count(f), "a refused restart removed %s", f.c_str());
      for(auto & b : bytes) PBT_CHECK(g, slurp(b.first) == b.second, "a refused restart changed %s", b.first.c_str());
      g.label(kind == Absent ? "absent iteration" : kind == Missing ? "missing input" : kind == Zero ? "same files from the start" : "not the last step");
      continue;
    }
    check_read(g, R, want, in.start != 0);
    if(kind == Restart) { ++restarts; g.label(same ? "restart into the same files" : "restart into other files"); }
    // what has to be there now
    std::vector<Snap> old = O.s;
    if(same) O.s.resize(at + 1); else O.s.clear();
    for(auto & o : outs) if(!(same && &o == &outs[0] && first)) O.s.push_back(o.first);
    std::set<std::string> expect;
    for(auto & f : before) expect.insert(f);
    if(O.separate) { for(size_t i = 0; i < old.size(); ++i) expect.erase(name_of(in.out, true, i)); for(size_t i = 0; i < O.s.size(); ++i) expect.insert(name_of(in.out, true, i)); }
    else { expect.erase(in.out + ".h5part"); if(!O.s.empty()) expect.insert(in.out + ".h5part"); }
    auto now = listing();
    for(auto & f : now) PBT_CHECK(g, expect.count(f), "%s should not exist", f.c_str());
    for(auto & f : expect) PBT_CHECK(g, now.count(f), "%s is missing", f.c_str());
    if(!O.separate && !O.s.empty()) PBT_CHECK(g, steps_of(in.out + ".h5part").size() == O.s.size(), "%s holds %zu steps instead of %zu", in.out.c_str(), steps_of(in.out + ".h5part").size(), O.s.size());
    for(size_t i = 0; i < O.s.size(); ++i) check_file(g, name_of(in.out, O.separate, i), i, O.s[i]);
    for(auto & b : bytes) {
      bool own = b.first == in.out + ".h5part" && !O.separate;
      if(O.separate) for(size_t i = 0; i < std::max(old.size(), O.s.size()); ++i) own |= b.first == name_of(in.out, true, i);
      if(!own) PBT_CHECK(g, slurp(b.first) == b.second, "%s of another series was changed", b.first.c_str());
    }
  }
  g.nontrivial(restarts + refused > 0);
}

//! long series of files of which some were deleted by hand: any step number may occur
PROPERTY(long_series, 3000, 30000) {
  Scratch sc;
  mkdir("out", 0755);
  std::string pre = g.pick<std::string>({"sim", "out/sim", "out/s_00010"});
  pbt::Rng r(g.u(1u << 30));
  std::map<int, Snap> S; // by step
  int k = 1 + (int)g.u(6);
  int64_t iter = 0;
  std::set<int> steps;
  for(int i = 0; i < k; ++i) steps.insert(g.flip() ? (int)g.u(99990) : (int)g.pick({9, 10, 19, 99, 100, 101, 999, 1000, 9999, 10000, 10009, 90000}) + (int)g.u(3));
  g.note("%s: files", pre.c_str());
  for(int s : steps) {
    Snap n;
    n.iter = iter += 1 + g.u(500); n.time = r.unit(); n.dt = r.unit();
    for(int64_t i = 0, N = 1 + r.below(12); i < N; ++i) n.p.push_back(gen_body(r, i + 1, false));
    long long it = n.iter;
    write_initial(name_of(pre, true, s), n.p, {}, s, &it, n.time, n.dt);
    g.note(" %d (iteration %lld)", s, it);
    S[s] = n;
  }
  auto at = S.begin();
  std::advance(at, g.u(S.size()));
  bool same = g.chance(3, 4), absent = g.chance(1, 5);
  int n = g.pick({1, 2, 3});
  auto sched = mock::gen_sched(g);
  Input in{pre, same ? pre : "other", absent ? iter + 1 : at->second.iter};
  auto before = listing();
  std::map<std::string, std::string> bytes;
  for(auto & f : before) if(f.back() != '/') bytes[f] = slurp(f);
  int64_t it = in.start;
  int count = g.u(3);
  auto outs = gen_outputs(g, n, count, it, false);
  g.note("; %d ranks restart from iteration %lld to %s, %d outputs", n, (long long)in.start, in.out.c_str(), count);
  g.nontrivial(S.size() > 1);
  Run R = run_process(g, n, sched, &in, in.out, true, outs);
  mockh5::reset(scratch + "/.h5");
  auto now = listing();
  if(absent) {
    g.label("absent iteration");
    for(int c : R.code) PBT_CHECK(g, c != -1 && c != 0, "a rank goes on although the iteration is not there");
    PBT_CHECK(g, now == before, "a refused restart created or removed files");
  }
  else {
    check_read(g, R, at->second, true);
    std::set<std::string> want = before;
    std::map<std::string, std::pair<int, Snap *>> neu;
    int step = same ? at->first : -1;
    if(same) for(auto & s : S) if(s.first > at->first) { want.erase(name_of(pre, true, s.first)); bytes.erase(name_of(pre, true, s.first)); }
    for(auto & o : outs) { ++step; want.insert(name_of(in.out, true, step)); neu[name_of(in.out, true, step)] = {step, &o.first}; }
    for(auto & f : now) PBT_CHECK(g, want.count(f), "%s should not exist", f.c_str());
    for(auto & f : want) PBT_CHECK(g, now.count(f), "%s is missing", f.c_str());
    for(auto & f : neu) check_file(g, f.first, f.second.first, *f.second.second);
    if(same) g.label("continued");
  }
  for(auto & b : bytes) PBT_CHECK(g, slurp(b.first) == b.second, "%s was changed", b.first.c_str());
}

//! one file with many steps, of which some were deleted by hand
PROPERTY(long_file, 1500, 20000) {
  Scratch sc;
  mkdir("out", 0755);
  std::string pre = g.pick<std::string>({"sim", "out/sim"});
  pbt::Rng r(g.u(1u << 30));
  int k = 1 + (int)g.u(5);
  int64_t iter = 0;
  std::set<int> steps;
  for(int i = 0; i < k; ++i) steps.insert((g.flip() ? (int)g.u(3000) : (int)g.pick({9, 99, 254, 999, 1000, 4095, 10000, 32767})) + (int)g.u(3));
  g.note("%s.h5part: steps", pre.c_str());
  std::map<int, Snap> S;
  for(int s : steps) {
    Snap n;
    n.iter = iter += 1 + g.u(500); n.time = r.unit(); n.dt = r.unit();
    for(int64_t i = 0, N = 1 + r.below(12); i < N; ++i) n.p.push_back(gen_body(r, i + 1, false));
    long long it = n.iter;
    write_initial(pre + ".h5part", n.p, {}, s, &it, n.time, n.dt, !S.empty());
    g.note(" %d (iteration %lld)", s, it);
    S[s] = n;
  }
  bool same = g.flip();
  auto at = S.begin();
  if(same) at = std::prev(S.end()); else std::advance(at, g.u(S.size()));
  int n = g.pick({1, 2, 3});
  auto sched = mock::gen_sched(g);
  Input in{pre, same ? pre : "other", at->second.iter};
  std::string bytes = slurp(pre + ".h5part");
  int64_t it = in.start;
  int count = g.u(3);
  auto outs = gen_outputs(g, n, count, it, false);
  g.note("; %d ranks restart from iteration %lld to %s, %d outputs", n, (long long)in.start, in.out.c_str(), count);
  g.nontrivial(at->first > 0);
  Run R = run_process(g, n, sched, &in, in.out, false, outs);
  mockh5::reset(scratch + "/.h5");
  check_read(g, R, at->second, true);
  int step = same ? at->first : -1;
  std::set<std::string> want;
  if(same) for(auto & s : S) want.insert("Step#" + std::to_string(s.first));
  for(auto & o : outs) { ++step; want.insert("Step#" + std::to_string(step)); check_file(g, in.out + ".h5part", step, o.first); }
  if(same || count) PBT_CHECK(g, steps_of(in.out + ".h5part") == want, "%s.h5part holds %zu steps instead of %zu", in.out.c_str(), steps_of(in.out + ".h5part").size(), want.size());
  if(!same) PBT_CHECK(g, slurp(pre + ".h5part") == bytes, "the file that was read was changed");
  else g.label("continued");
}
