// Driver: seeded exploration over runs, replay, and minimisation.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "core.hh"
#include "hooks.hh"
#include "san.hh"

using namespace sim;

struct Outcome {
  std::string cls, msg;  // cls empty: held
  uint64_t hash = 0;
  bool nontrivial = false;
};
static int cpu_limit_s = 60;

static void arm_cpu(int s) {
  struct itimerval it = {};
  it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static Outcome execute(World& w, const Plan& p, Stats& st, bool verbose) {
  Outcome o;
  Ctx c;
  c.prop = p.prop;
  c.stats = &st;
  c.verbose = verbose;
  arm_cpu(cpu_limit_s);
  exit_throws = true;
  io = IoState();
  vclock_reset(1000);
  try {
    w.run(p, c);
  } catch (const Violation& v) {
    o.cls = v.cls;
    o.msg = v.msg;
  } catch (const SimExit& e) {
    o.cls = "exit";
    o.msg = strf("the code under test called exit(%d)", e.code);
  } catch (const std::exception& e) {
    o.cls = "exception";
    o.msg = std::string("uncaught exception: ") + e.what();
  }
  st.sim_time += vclock.t / 1e6;
  vclock.on = false;
  exit_throws = false;
  arm_cpu(0);
  o.hash = mix(c.hash, hash_str(o.cls));
  o.nontrivial = c.nontrivial;
  return o;
}

static std::string oneline(std::string s) {
  for (auto& c : s)
    if (c == '\n' || c == '\r') c = ' ';
  return s;
}
static void send_outcome(int fd, const Outcome& o) {
  std::string t = strf("%llu %d\n", (unsigned long long)o.hash, (int)o.nontrivial) + o.cls + "\n" + oneline(o.msg) + "\n";
  size_t off = 0;
  while (off < t.size()) {
    ssize_t r = syscall(SYS_write, fd, t.data() + off, t.size() - off);
    if (r <= 0) break;
    off += r;
  }
}

static void quiet_stdout() {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
}

// One execution in a fresh process.
static Outcome run_fresh(const Plan& p, bool verbose = false) {
  int pp[2];
  if (pipe(pp)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]);
    if (!verbose) quiet_stdout();
    san_install();
    static int back = pp[1];
    san_on_death = [](const SanReport& r) {
      Outcome o;
      o.cls = r.cls;
      o.msg = r.msg;
      o.hash = hash_str(o.cls);
      send_outcome(back, o);
    };
    std::unique_ptr<World> w = make_world(p.prop);
    Stats st;
    Outcome o = execute(*w, p, st, verbose);
    send_outcome(pp[1], o);
    fflush(nullptr);
    _exit(0);
  }
  close(pp[1]);
  std::string t;
  char b[4096];
  ssize_t r;
  while ((r = read(pp[0], b, sizeof b)) > 0) t.append(b, r);
  close(pp[0]);
  int ws = 0;
  waitpid(pid, &ws, 0);
  Outcome o;
  if (WIFSIGNALED(ws)) {
    o.cls = WTERMSIG(ws) == SIGPROF ? "hang" : strf("signal%d", WTERMSIG(ws));
    o.msg = o.cls == "hang" ? strf("no progress: more than %d s of CPU time in one run", cpu_limit_s)
                            : strf("process died of signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
    return o;
  }
  if (t.empty()) {
    o.cls = strf("exit%d", WEXITSTATUS(ws));
    o.msg = WEXITSTATUS(ws) == 99 ? "sanitizer report (see replay output)" : "process ended early";
    return o;
  }
  std::istringstream in(t);
  std::string l;
  std::getline(in, l);
  unsigned long long h;
  int nt;
  sscanf(l.c_str(), "%llu %d", &h, &nt);
  o.hash = h;
  o.nontrivial = nt;
  std::getline(in, o.cls);
  std::getline(in, o.msg);
  return o;
}

static Plan make_plan(World& w, const std::string& prop, uint64_t seed, uint64_t run, int tier) {
  Plan p;
  p.prop = prop;
  p.seed = seed;
  p.run = run;
  Rng g(mix(mix(seed, hash_str(prop)), run));
  w.generate(g, p, tier);
  return p;
}

static std::string slurp(const std::string& f) {
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

// Two violations are the same finding when their class matches.
static Plan minimise(const Plan& p0, const std::string& cls, double budget_s) {
  double t0 = wall_now();
  Plan best = p0;
  auto same = [&](const Plan& p) { return run_fresh(p).cls == cls; };
  size_t chunk = std::max<size_t>(1, best.steps.size() / 2);
  while (wall_now() - t0 < budget_s) {
    bool any = false;
    for (size_t i = 0; i < best.steps.size() && wall_now() - t0 < budget_s;) {
      Plan q = best;
      size_t e = std::min(best.steps.size(), i + chunk);
      q.steps.erase(q.steps.begin() + i, q.steps.begin() + e);
      if (!q.steps.empty() && same(q)) {
        best = q;
        any = true;
      } else
        i += chunk;
    }
    if (chunk == 1 && !any) break;
    if (chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
    else if (!any) break;
  }
  return best;
}

struct Shared {
  volatile int64_t cur[64];
  volatile int64_t viols;
};

static void write_file(const std::string& f, const std::string& s) {
  std::ofstream o(f);
  o << s;
}

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR_DONE")) {
    // Same addresses on every execution, where the kernel allows it.
    if (personality(ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOASLR_DONE", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  if (argc < 2) return 2;
  if (getenv("SIM_CPU_LIMIT")) cpu_limit_s = atoi(getenv("SIM_CPU_LIMIT"));
  std::string cmd = argv[1];
  if (cmd == "gen") {
    auto w = make_world(argv[2]);
    std::cout << make_plan(*w, argv[2], std::stoull(argv[3]), std::stoull(argv[4]), atoi(argv[5])).text();
    return 0;
  }
  if (cmd == "replay") {
    Plan p = Plan::parse(slurp(argv[2]));
    bool v = argc > 3;
    Outcome o = run_fresh(p, v);
    std::cout << "class=" << (o.cls.empty() ? "held" : o.cls) << " hash=" << o.hash << "\n";
    if (!o.msg.empty()) std::cout << o.msg << "\n";
    return o.cls.empty() ? 0 : 1;
  }
  if (cmd == "minimise") {  // in out budget
    Plan p = Plan::parse(slurp(argv[2]));
    Outcome a = run_fresh(p), b = run_fresh(p);
    if (a.cls.empty() || a.cls != b.cls || a.hash != b.hash) {
      std::cout << "unstable " << a.cls << " " << a.hash << " / " << b.cls << " " << b.hash << "\n";
      return 3;
    }
    Plan q = minimise(p, a.cls, atof(argv[4]));
    Outcome c = run_fresh(q), d = run_fresh(q);
    if (c.cls != a.cls || d.cls != a.cls || c.hash != d.hash) {
      q = p;
      c = a;
    }
    std::ostringstream t;
    t << "# class " << c.cls << "\n# hash " << c.hash << "\n# " << c.msg << "\n# steps " << p.steps.size() << " -> "
      << q.steps.size() << "\n" << q.text();
    write_file(argv[3], t.str());
    std::cout << "class " << c.cls << "\n" << c.msg << "\n";
    return 0;
  }
  if (cmd == "info") {
    auto w = make_world(argv[2]);
    std::cout << "runs " << w->default_runs(atoi(argv[3])) << "\nrule " << w->rule() << "\n";
    for (auto& s : w->real_components()) std::cout << "real " << s << "\n";
    for (auto& s : w->stub_components()) std::cout << "stub " << s << "\n";
    return 0;
  }
  if (cmd != "explore") return 2;
  // explore prop seed tier runs workers maxsec outdir
  std::string prop = argv[2];
  uint64_t seed = std::stoull(argv[3]);
  int tier = atoi(argv[4]);
  int64_t runs = atoll(argv[5]);
  int W = atoi(argv[6]);
  double maxsec = atof(argv[7]);
  std::string out = argv[8];
  std::set<std::string> known;
  if (argc > 9)
    for (auto& k : split(argv[9], '\x1f')) known.insert(k);
  double t0 = wall_now();
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pid(W, 0);
  std::vector<int> gen(W, 0);
  auto spawn = [&](int w, int64_t from) {
    fflush(nullptr);
    pid_t c = fork();
    if (c != 0) {
      pid[w] = c;
      ++gen[w];
      return;
    }
    quiet_stdout();
    if (san_enabled()) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 2);
    }
    san_install();
    auto world = make_world(prop);
    static Shared* shared = sh;
    static int me = w;
    static std::string dir = out, pname = prop;
    static uint64_t seed0 = seed;
    static int tier0 = tier;
    san_on_death = [](const SanReport& r) {
      int64_t run = shared->cur[me];
      auto w2 = make_world(pname);
      write_file(strf("%s/viol_%lld.plan", dir.c_str(), (long long)run),
                 std::string("# class ") + r.cls + "\n# " + oneline(r.msg) + "\n" + make_plan(*w2, pname, seed0, run, tier0).text());
      __sync_fetch_and_add(&shared->viols, 1);
    };
    Stats st;
    std::vector<uint64_t> hashes;
    uint64_t evals = 0, nontriv = 0, viols = 0;
    int64_t capped = -1;
    for (int64_t r = from; r < runs; r += W) {
      if (wall_now() - t0 > maxsec) {
        capped = r;
        break;
      }
      if (sh->viols > 40) break;
      sh->cur[w] = r;
      Plan p = make_plan(*world, prop, seed, r, tier);
      Outcome o = execute(*world, p, st, false);
      ++evals;
      if (o.nontrivial) {
        ++nontriv;
        hashes.push_back(o.hash);
      }
      if (!o.cls.empty()) {
        st.n[(known.count(o.cls) ? "known." : "viol.") + o.cls]++;
        if (!known.count(o.cls)) {
          ++viols;
          __sync_fetch_and_add(&sh->viols, 1);
          write_file(strf("%s/viol_%lld.plan", out.c_str(), (long long)r),
                     "# class " + o.cls + "\n# " + oneline(o.msg) + "\n" + p.text());
          if (viols >= 6) break;
        }
      }
    }
    sh->cur[w] = -1;
    std::ostringstream s;
    s << "evals " << evals << "\nnontriv " << nontriv << "\nsimtime " << fmt_d(st.sim_time) << "\ncapped " << capped << "\n";
    for (auto& [k, v] : st.n) s << "n " << k << " " << v << "\n";
    for (auto h : hashes) s << "h " << h << "\n";
    for (auto h : st.states) s << "s " << h << "\n";
    write_file(strf("%s/w%d_%d.txt", out.c_str(), w, gen[w]), s.str());
    fflush(nullptr);
    _exit(0);
  };
  for (int w = 0; w < W; ++w) {
    sh->cur[w] = w;
    spawn(w, w);
  }
  int live = W, crashes = 0;
  while (live > 0) {
    int ws;
    pid_t c = waitpid(-1, &ws, 0);
    if (c < 0) break;
    int w = -1;
    for (int i = 0; i < W; ++i)
      if (pid[i] == c) w = i;
    if (w < 0) continue;
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) {
      --live;
      continue;
    }
    int64_t r = sh->cur[w];
    std::string cls = WIFSIGNALED(ws) ? (WTERMSIG(ws) == SIGPROF ? "hang" : strf("signal%d", WTERMSIG(ws)))
                                      : strf("exit%d", WEXITSTATUS(ws));
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 99 && r >= 0) {
      std::string f = strf("%s/viol_%lld.plan", out.c_str(), (long long)r), l;
      std::ifstream in(f);
      std::getline(in, l);
      if (l.size() > 8) {
        if (known.count(l.substr(8))) unlink(f.c_str());
        cls.clear();
      }
    }
    if (r >= 0 && !cls.empty() && !known.count(cls)) {
      auto world = make_world(prop);
      Plan p = make_plan(*world, prop, seed, r, tier);
      write_file(strf("%s/viol_%lld.plan", out.c_str(), (long long)r), "# class " + cls + "\n# worker died\n" + p.text());
    }
    if (++crashes > 12 || r < 0) {
      --live;
      continue;
    }
    spawn(w, r + W);
  }
  // sample cases
  auto world = make_world(prop);
  for (int i = 0; i < 2; ++i) write_file(strf("%s/sample_%d.plan", out.c_str(), i), make_plan(*world, prop, seed, i, tier).text());
  printf("wall %.3f\n", wall_now() - t0);
  return 0;
}
