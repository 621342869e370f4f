// C29: the progress lines the programs print while they run.
#include <iostream>
#include <numeric>
#include <iomanip>
#include <fstream>
#include <cassert>
#include <fcntl.h>
#include <mpi.h>
#include "mockmpi.h"
#include "bodies_system.h"
#include "default_physics.h"
#include "analysis.h"
#include "pbt.h"
#include "cloud.h"
using pbt::Gen;

PROPERTY(screen, 3000, 100000) {
  int n = 1 + (int)g.u(5);
  bool bytime = g.chance(2, 5);
  double base = g.pick({1e-3, 1.0, 1e-7, 1e3});
  int every = g.pick({1, 1, 2, 3, 10, 0, -1});
  double od = bytime ? base * g.pick({1.0, 10.0, 7.3, 33.0, 3.0}) : 0;
  int steps = 1 + (int)g.u(bytime ? 120 : 60);
  double t0 = g.pick({0, 0, 1}) ? base * g.real(0, 500) : 0;
  int64_t it0 = g.pick({0, 0, 1, 17, 100000});
  param::_initial_time = t0; param::_initial_iteration = it0;
  param::_initial_dt = base; param::_out_screen_dt = od; param::_out_screen_every = every;
  param::_out_scalar_dt = 0; param::_out_h5data_dt = 0;
  param::_adaptive_timestep = bytime || g.flip();
  auto sch = mock::gen_sched(g);
  std::vector<double> lim(steps);
  for(auto & x : lim) x = base * g.lreal(1e-1, 10);
  g.note("%d ranks, every %d iterations / %g time, %d steps from iteration %lld, time %g, step %g", n, every, od, steps, (long long)it0, t0, base);
  static bool once = (mock::own_namespaces({"physics", "analysis"}), true);
  (void)once;
  struct Fresh { ~Fresh() { mock::fresh(); } } fresh_after;
  analysis::set_initial_time_iteration();
  mock::fresh();
  log_set_output_rank(0);
  std::vector<std::pair<long, double>> want;
  std::string name = "screen." + std::to_string(getpid());
  const char * file = name.c_str();
  fflush(stderr);
  int keep = dup(2), fd = open(file, O_RDWR | O_CREAT | O_TRUNC, 0644);
  dup2(fd, 2); close(fd);
  std::string fail;
  try {
    mock::run(n, sch.policy, sch.seed, [&](int r) {
      double next = od > 0 ? od * std::floor(t0 / od) : 0;
      if(next < t0) next = t0;
      for(int s = 0; s < steps; ++s) {
        if(r == 0) {
          double t = physics::totaltime;
          bool due = od > 0 ? t >= next : every > 0 && physics::iteration % every == 0;
          if(due) want.emplace_back(physics::iteration, t);
          if(od > 0 && t == next) next += od;
        }
        analysis::screen_output(r);
        MPI_Barrier(MPI_COMM_WORLD);
        if(param::adaptive_timestep) {
          std::vector<body> v(1);
          v[0].setDt(lim[s] * (1 + r));
          physics::set_adaptive_timestep(v);
        }
        physics::advance_time();
      }
    });
  } catch(...) { dup2(keep, 2); close(keep); throw; }
  fflush(stderr);
  dup2(keep, 2); close(keep);
  std::ifstream in(file);
  std::string l;
  size_t at = 0, plain = 0, heads = 0;
  while(std::getline(in, l)) {
    if(l.find("#-- iteration:") != std::string::npos) { plain = 0; ++heads; continue; }
    size_t b = l.find("] ");
    if(b == std::string::npos) continue;
    std::string q;
    for(size_t i = b + 2; i < l.size(); ++i) { // without colours
      if(l[i] == 27) { while(i < l.size() && l[i] != 'm') ++i; continue; }
      q += l[i];
    }
    std::istringstream is(q);
    long long it; std::string t, more;
    PBT_CHECK(g, (is >> it >> t) && !(is >> more), "line \"%s\"", q.c_str());
    PBT_CHECK(g, at < want.size(), "iteration %lld is printed after all %zu that were due", it, want.size());
    char e[64];
    snprintf(e, sizeof e, "%.12e", want[at].second);
    PBT_CHECK(g, it == want[at].first && t == e, "line %zu shows iteration %lld time %s, due is iteration %ld time %s", at, it, t.c_str(), want[at].first, e);
    ++at; ++plain;
    PBT_CHECK(g, plain <= 40, "%zu lines without a heading", plain);
  }
  unlink(file);
  PBT_CHECK(g, at == want.size(), "%zu lines were printed, %zu were due", at, want.size());
  g.nontrivial(n > 1 && want.size() > 1);
  g.label(od > 0 ? "by time" : every > 0 ? "by iteration" : "off");
  if(heads) g.label("heading");
}
