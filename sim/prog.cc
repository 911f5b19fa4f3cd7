#include "prog.hh"

#include <alloca.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>
#include <sstream>

#include "core.hh"
#include "san.hh"
#include "gendb.hh"
#include "hirm.hh"

int hirm_main_entry(int, char**);
int pclean_main_entry(int, char**);

namespace fs = std::filesystem;
namespace sim {
namespace {
struct Shared {
  uint64_t reads, writes, opens_r, opens_w, closes_w, allocs, work, clock_readings;
  char fired[400];
  SanReport san;
  char probe[1 << 16];
};
Shared* sh;
bool probing = false;
std::set<int>* probe_rows = nullptr;
__attribute__((noinline)) void fill_stack(int byte, size_t n) {
  volatile char* p = (volatile char*)alloca(n);
  for (size_t i = 0; i < n; ++i) p[i] = (char)byte;
}
void publish() {
  sh->reads = io.reads;
  sh->writes = io.writes;
  sh->opens_r = io.opens_r;
  sh->opens_w = io.opens_w;
  sh->closes_w = io.closes_w;
  sh->allocs = alloc_count;
  sh->work = vclock.work;
  sh->clock_readings = vclock.readings;
  io.on = false;
  alloc_fail_at = -1;
  std::string f;
  for (auto& [k, v] : io.fired) f += k + " " + std::to_string(v) + " ";
  if (alloc_failed) f += "alloc.fail " + std::to_string(alloc_failed) + " ";
  snprintf(sh->fired, sizeof sh->fired, "%s", f.c_str());
}
void on_kill() { publish(); }
}  // namespace
void probe_say(const std::string& s) {
  size_t l = strlen(sh->probe);
  if (l + s.size() + 2 < sizeof sh->probe) strcpy(sh->probe + l, (s + "\n").c_str());
}
std::string last_san_cls, last_san_msg;
std::function<void(HIRM*, IRM*, const T_encoding&, const T_observations&)> held_probe;
std::function<void(GenDB*, const std::pair<int, std::map<std::string, ObservationVariant>>&, bool)> row_probe;
std::function<std::string()> end_probe;

std::string scratch_dir() {
  static int n = 0;
  const char* b = getenv("SIM_SCRATCH");
  std::string base = b && *b ? b : "/tmp/sim_scratch";
  std::string d = base + "/p" + std::to_string(getpid()) + "_" + std::to_string(n++);
  remove_dir(d);
  fs::create_directories(d);
  return d;
}
void remove_dir(const std::string& d) {
  if (d.find("scratch/p") == std::string::npos) return;
  std::error_code ec;
  fs::remove_all(d, ec);
}
void write_file(const std::string& path, const std::string& text) {
  fs::create_directories(fs::path(path).parent_path());
  std::ofstream(path, std::ios::binary) << text;
}
std::map<std::string, std::string> read_dir(const std::string& dir) {
  std::map<std::string, std::string> m;
  for (auto& e : fs::recursive_directory_iterator(dir))
    if (e.is_regular_file()) {
      std::ifstream f(e.path(), std::ios::binary);
      std::stringstream s;
      s << f.rdbuf();
      m[fs::relative(e.path(), dir).string()] = s.str();
    }
  return m;
}

ProgResult run_child(const std::string& dir, const std::function<std::string()>& f, const ProgEnv& e) {
  if (!sh) sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, offsetof(Shared, probe) + 1);
  std::string outfile = dir + ".out";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    [&]() noexcept {
      exit_throws = false;
      exit_leaves = true;
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      rl = {60, 60};
      setrlimit(RLIMIT_CPU, &rl);
      struct rlimit fl = {64 << 20, 64 << 20};
      setrlimit(RLIMIT_FSIZE, &fl);
      signal(SIGPROF, SIG_DFL);
      if (chdir(dir.c_str())) _exit(120);
      int fd = (int)syscall(SYS_openat, AT_FDCWD, outfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(fd, 1);
      dup2(fd, 2);
      for (auto& [k, v] : e.vars) setenv(k.c_str(), v.c_str(), 1);
      std::vector<void*> held;
      for (int i = 0; i < e.preallocate; ++i) {
        held.push_back(malloc(16 + (i * 37) % 400));
        if (i % 3 == 0) free(held.back()), held.back() = nullptr;
      }
#ifndef SIM_ASAN
      if (e.perturb) mallopt(M_PERTURB, e.perturb);
#endif
      if (e.stack_fill) fill_stack(e.stack_fill, 200000);
      vclock_reset(e.clock_step);
      vclock.t = e.clock_base;
      vclock.base = e.clock_base;
      vclock.by_work = e.by_work;
      vclock.per_unit = e.per_unit;
      vclock.jumps = e.clock_jumps;
      vclock.work_jumps = e.work_jumps;
      io = IoState();
      io.root = dir;
      io.faults = e.faults;
      io.short_reads = e.short_reads;
      io.short_writes = e.short_writes;
      io.eintr_every = e.eintr_every;
      io.rs = e.rs;
      io.on_kill = on_kill;
      san_jump = nullptr;
      san_on_death = [](const SanReport& r) { sh->san = r; };
      probing = true;
      std::set<int> rows;
      probe_rows = &rows;
      alloc_count = alloc_failed = 0;
      alloc_kill_at = e.alloc_kill;
      alloc_fail_at = e.alloc_fail;
      io.on = true;
      std::string s = f();
      alloc_kill_at = -1;
      publish();
      probing = false;
      probe_say(s);
      fflush(nullptr);
      _exit(0);
    }();
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0) {
  }
  ProgResult r;
  r.rc = WIFSIGNALED(ws) ? 128 + WTERMSIG(ws) : WEXITSTATUS(ws);
  r.reads = sh->reads, r.writes = sh->writes, r.opens_r = sh->opens_r, r.opens_w = sh->opens_w;
  r.closes_w = sh->closes_w, r.allocs = sh->allocs, r.work = sh->work, r.clock_readings = sh->clock_readings;
  std::istringstream fi(sh->fired);
  std::string k;
  uint64_t v;
  while (fi >> k >> v) r.fired[k] = v;
  if (sh->san.hit) {
    r.san_cls = last_san_cls = sh->san.cls;
    r.san_msg = last_san_msg = sh->san.msg;
  }
  r.probe = sh->probe;
  while (!r.probe.empty() && r.probe.back() == '\n') r.probe.pop_back();
  {
    std::ifstream fo(outfile, std::ios::binary);
    std::stringstream s;
    s << fo.rdbuf();
    r.out = s.str();
  }
  unlink(outfile.c_str());
  r.files = read_dir(dir);
  return r;
}
void program_exit_hook() { publish(); }

ProgResult run_prog(const std::string& dir, int entry, const std::vector<std::string>& args, const ProgEnv& e) {
  return run_child(
      dir,
      [&]() -> std::string {
        std::vector<std::string> a = {entry ? "pclean" : "hirm"};
        a.insert(a.end(), args.begin(), args.end());
        std::vector<char*> av;
        for (auto& s : a) av.push_back(s.data());
        av.push_back(nullptr);
        int rc = entry ? pclean_main_entry((int)a.size(), av.data()) : hirm_main_entry((int)a.size(), av.data());
        alloc_kill_at = -1;
        publish();
        if (end_probe) probe_say(end_probe());
        fflush(nullptr);
        _exit(rc & 255);
      },
      e);
}
}  // namespace sim

// ---- probes: every record row is a new one, and no cell is sampled twice.
using namespace sim;
#define PRNG std::mt19937*
#define SAR _ZN4HIRM31sample_and_incorporate_relationEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKSt6vectorIiSaIiEE
#define GIN _ZN5GenDB11incorporateEPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EERKSt4pairIiSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt7variantIJbdiSA_EESt4lessISA_ESaIS3_IKSA_SC_EEEEb
#define HLP _Z4logpPSt23mersenne_twister_engineImLm32ELm624ELm397ELm31ELm2567483615ELm11ELm4294967295ELm7ELm2636928640ELm15ELm4022730752ELm18ELm1812433253EESt7variantIJP3IRMP4HIRMEERKSt4pairISt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES9_ISF_iSt4lessISF_ESaIS8_IKSF_iEEESH_SaIS8_ISI_SL_EEES9_ISF_S9_IiSF_SG_IiESaIS8_IKiSF_EEESH_SaIS8_ISI_ST_EEEERKSt13unordered_mapISF_St6vectorISt5tupleIJS11_ISF_SaISF_EESF_EESaIS15_EESt4hashISF_ESt8equal_toISF_ESaIS8_ISI_S17_EEE
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" {
// weak: a differently shaped repository simply has no probe.
std::string CAT(__real_, SAR)(HIRM*, PRNG, const std::string&, const T_items&) __attribute__((weak));
void CAT(__real_, GIN)(GenDB*, PRNG, const std::pair<int, std::map<std::string, ObservationVariant>>&, bool) __attribute__((weak));
double CAT(__real_, HLP)(PRNG, std::variant<IRM*, HIRM*>, const T_encoding&, const T_observations&) __attribute__((weak));
}
static void probe_sample(HIRM* h, const std::string& r, const T_items& items) {
  auto it = h->schema.find(r);
  if (it == h->schema.end()) return;
  bool has = std::visit([&](auto* x) { return x->get_data().contains(items); }, h->get_relation(r));
  if (has) probe_say("cell-sampled-twice " + r + " [" + ints(items) + "]");
  bool obs = std::visit([](auto& t) { return t.is_observed; }, it->second);
  if (obs && probe_rows && probe_rows->count(items.back())) probe_say("sample-collides " + r + " row " + std::to_string(items.back()));
}
extern "C" {
// A member function and a free function with the object as first parameter
// have the same calling convention here.
std::string CAT(__wrap_, SAR)(HIRM* h, PRNG prng, const std::string& r, const T_items& items) {
  if (probing) probe_sample(h, r, items);
  return CAT(__real_, SAR)(h, prng, r, items);
}
void CAT(__wrap_, GIN)(GenDB* d, PRNG prng, const std::pair<int, std::map<std::string, ObservationVariant>>& row, bool u) {
  if (probing && probe_rows && !probe_rows->insert(row.first).second) probe_say("row-reused " + std::to_string(row.first));
  if (probing && row_probe) row_probe(d, row, false);
  CAT(__real_, GIN)(d, prng, row, u);
  if (probing && row_probe) row_probe(d, row, true);
}
double CAT(__wrap_, HLP)(PRNG prng, std::variant<IRM*, HIRM*> m, const T_encoding& e, const T_observations& o) {
  if (probing && held_probe)
    std::visit([&](auto* x) {
      if constexpr (std::is_same_v<decltype(x), HIRM*>) held_probe(x, nullptr, e, o);
      else held_probe(nullptr, x, e, o);
    }, m);
  return CAT(__real_, HLP)(prng, m, e, o);
}
}
