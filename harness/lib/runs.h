// Whole runs of a driver in a process of their own, on simulated ranks, and the
// files they leave. Included after the main_driver.cc under test.
#pragma once
static double norm2(const point_t & v) { double s = 0; for(int d = 0; d < gdimension; ++d) s += v[d] * v[d]; return s; }

static void wipe(const std::string & d) {
  DIR * h = opendir(d.c_str());
  if(!h) return;
  while(auto * e = readdir(h)) {
    std::string n = e->d_name;
    if(n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
  closedir(h);
}
struct Scratch { // own directory, removed at the end
  std::string dir;
  Scratch() { char b[4096]; if(!getcwd(b, sizeof b)) abort(); dir = std::string(b) + "/run." + std::to_string(getpid()); mkdir(dir.c_str(), 0755); wipe(dir); }
  std::string sub(const char * n) { std::string s = dir + "/" + n; mkdir(s.c_str(), 0755); return s; }
  ~Scratch() { wipe(dir); rmdir(dir.c_str()); }
};
static void own_all() {
  mock::own_namespaces({"io", "physics", "analysis", "diagnostic", "wvt_basic"});
}

static void write_par(const std::map<std::string, std::string> & par, const std::string & file) {
  std::ofstream o(file);
  o << "# generated\n";
  for(auto & kv : par) o << "  " << kv.first << " = " << kv.second << "\n";
}
//! the program, in a process of its own with dir as working directory; false if it gave up on a state without internal energy
static bool run_program(Gen & g, const std::string & dir, int n, const mock::Sched & sch, std::string * failed = nullptr) {
  fflush(nullptr);
  pid_t pid = fork();
  if(pid < 0) abort();
  if(pid == 0) {
    struct rlimit rl = {30, 30};
    setrlimit(RLIMIT_CPU, &rl);
    if(chdir(dir.c_str())) _exit(9);
    if(!freopen("stdout.txt", "w", stdout) || !freopen("stderr.txt", "w", stderr)) _exit(9);
    std::string why;
    static const int fill[4] = {0x00, 0xff, 0x40, 0xc0}; // what fresh memory happens to hold: zero, not a number, 32.5, -8256
    mallopt(M_PERTURB, fill[pbt::mix64(sch.seed * 16 + n) % 4] ^ 0xff);
    try {
      own_all();
      mock::fresh();
      mkdir(".h5", 0755);
      mockh5::reset(dir + "/.h5");
      mock::run(n, sch.policy, sch.seed, [&](int) {
        char prog[] = "program", par[] = "run.par";
        char * argv[] = {prog, par, nullptr};
        flecsi::execution::specialization_tlt_init(2, argv);
      });
      mockh5::reset(dir + "/.h5");
    } catch(std::exception & e) { why = std::string("exception: ") + e.what(); }
    catch(pbt::Failure & f) { why = f.msg; }
    catch(...) { why = "exception"; }
    std::ofstream("why.txt") << (why.empty() ? "ok" : why);
    fflush(nullptr);
    _exit(0);
  }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
  std::ifstream w(dir + "/why.txt");
  std::string why((std::istreambuf_iterator<char>(w)), {});
  std::ifstream e(dir + "/stderr.txt");
  std::string err((std::istreambuf_iterator<char>(e)), {});
  // the time step was too long for this state: the program stops
  if(err.find("internal energy non-positive") != std::string::npos && why.find("MPI_Abort") != std::string::npos) return false;
  bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && why == "ok";
  if(!ok && failed) { *failed = "the run on " + std::to_string(n) + " ranks ended with " + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st))) + " " + why + " " + err.substr(0, 400); return true; }
  PBT_CHECK(g, ok, "the run on %d ranks ended with %s %d %s %s", n, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), why.c_str(), err.substr(0, 400).c_str());
  return true;
}
struct Rec { std::vector<H5Step> snap; std::vector<std::vector<double>> scal, diag; };
static std::vector<std::vector<double>> read_dat(const std::string & f) {
  std::vector<std::vector<double>> t;
  std::ifstream in(f);
  std::string l;
  while(std::getline(in, l)) {
    if(l.empty() || l[0] == '#') continue;
    std::istringstream is(l);
    t.emplace_back();
    std::string w;
    while(is >> w) t.back().push_back(strtod(w.c_str(), nullptr));
  }
  return t;
}
static Rec records(const std::string & dir, bool separate, const char * prefix = "out", int from = 0) {
  Rec r;
  for(int s = from;; ++s) {
    char b[32];
    snprintf(b, sizeof b, "_%05d", s);
    H5Step h;
    if(!read_step(dir + "/" + prefix + (separate ? b : "") + ".h5part", s, h)) break;
    r.snap.push_back(h);
  }
  r.scal = read_dat(dir + "/scalar_reductions.dat"); r.diag = read_dat(dir + "/diagnostic.dat");
  return r;
}
static bool finite(const Rec & r) {
  for(auto & s : r.snap) for(auto & f : s.f) for(double v : f.second) if(!std::isfinite(v)) return false;
  return true;
}
static std::map<long long, size_t> by_id(Gen & g, const H5Step & s, bool all = false) {
  std::map<long long, size_t> m;
  for(size_t i = 0; i < s.id.size(); ++i) if(all || s.type[i] == NORMAL) PBT_CHECK(g, m.emplace(s.id[i], i).second, "iteration %lld: particle %lld appears twice", s.iteration, s.id[i]);
  return m;
}
struct Run { int n; mock::Sched s; };
static Run gen_run(Gen & g, size_t np, int lo = 1) {
  Run r;
  r.n = std::min<int>(g.pick({1, 2, 3, 4, 5, 7}), (int)np);
  if(r.n < lo) r.n = std::min<int>(lo, (int)np);
  r.s = mock::gen_sched(g);
  g.note("ranks=%d ", r.n);
  return r;
}

static void same_tables(Gen & g, const char * what, const std::vector<std::vector<double>> & a, const std::vector<std::vector<double>> & b, double tol, const std::vector<int> & skip) {
  PBT_CHECK(g, a.size() == b.size(), "%s has %zu lines, with the other processes %zu", what, a.size(), b.size());
  std::vector<double> scale;
  for(auto & row : a) for(size_t i = 0; i < row.size(); ++i) { if(scale.size() <= i) scale.resize(i + 1, 0); scale[i] = std::max(scale[i], std::fabs(row[i])); }
  for(size_t k = 0; k < a.size(); ++k) {
    PBT_CHECK(g, a[k].size() == b[k].size(), "%s: line %zu has %zu columns, with the other processes %zu", what, k, a[k].size(), b[k].size());
    for(size_t i = 0; i < a[k].size(); ++i) {
      if(std::count(skip.begin(), skip.end(), (int)i)) continue;
      double s = scale[i];
      if(!strcmp(what, "scalar_reductions.dat") && i >= 7) for(size_t j = 7; j < scale.size(); ++j) s = std::max(s, scale[j]);
      if(!strcmp(what, "scalar_reductions.dat") && i >= 3) s = std::max({s, scale[4], scale[5], scale[6]});
      PBT_CHECK(g, std::fabs(a[k][i] - b[k][i]) <= tol * (s + 1e-6), "%s: line %zu, column %zu: %.13g on one number of processes, %.13g on another", what, k, i + 1, a[k][i], b[k][i]);
    }
  }
}
