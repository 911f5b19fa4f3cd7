// Core of the simulator: seeded generator, plans (one plan = one exactly
// repeatable execution), violations, statistics.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

// splitmix64 stream.  Never shared with the code under test.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below(hi - lo + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  template <class V> const typename V::value_type& pick(const V& v) {
    return v[below(v.size())];
  }
};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const std::string& s);

struct Step {
  std::string op;
  std::vector<std::string> a;
  uint64_t seed = 0;
  int i(size_t k) const { return k < a.size() ? std::stoi(a[k]) : 0; }
  double d(size_t k) const { return k < a.size() ? std::stod(a[k]) : 0.0; }
  const std::string& s(size_t k) const {
    static const std::string e;
    return k < a.size() ? a[k] : e;
  }
};

struct Plan {
  std::string prop;
  uint64_t seed = 0, run = 0;
  std::vector<Step> steps;
  std::string text() const;
  static Plan parse(const std::string& text);
  void add(Rng& g, const std::string& op, std::vector<std::string> args = {}) {
    Step s;
    s.op = op;
    s.a = std::move(args);
    s.seed = g.next();
    steps.push_back(std::move(s));
  }
};

struct Violation : std::exception {
  std::string cls, msg;
  Violation(std::string c, std::string m) : cls(std::move(c)), msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

struct Stats {
  std::map<std::string, uint64_t> n;       // named counters
  std::unordered_set<uint64_t> states;     // distinct state fingerprints
  double sim_time = 0;                     // simulated seconds
  void merge(const Stats& o) {
    for (auto& [k, v] : o.n) n[k] += v;
    states.insert(o.states.begin(), o.states.end());
    sim_time += o.sim_time;
  }
};

struct Ctx {
  std::string prop;
  Stats* stats;
  uint64_t hash = 1469598103934665603ull;  // running hash of the event log
  bool verbose = false;
  bool nontrivial = false;  // set by a world when the run exercised what the property is about
  void count(const std::string& k, uint64_t d = 1) { stats->n[k] += d; }
  void state(uint64_t h) {
    if (stats->states.size() < 400000) stats->states.insert(h);
  }
  void log(const std::string& s);
  [[noreturn]] void fail(const std::string& cls, const std::string& msg) {
    throw Violation(cls, msg);
  }
};

struct World {
  virtual ~World() = default;
  // tier: 0 quick, 1 thorough
  virtual void generate(Rng& g, Plan& plan, int tier) = 0;
  virtual void run(const Plan& plan, Ctx& ctx) = 0;
  virtual std::vector<std::string> real_components() = 0;
  virtual std::vector<std::string> stub_components() { return {}; }
  virtual std::string rule() = 0;
  virtual int default_runs(int tier) = 0;
};
std::unique_ptr<World> make_world(const std::string& prop);

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string fmt_d(double x);  // %.17g
std::vector<std::string> split(const std::string& s, char c);
std::string join(const std::vector<std::string>& v, const std::string& c);
std::string ints(const std::vector<int>& v);
std::vector<int> parse_ints(const std::string& s);

// A frequency test that looks suspicious (one in a hundred does when nothing
// is wrong) is repeated on fresh and many more samples, which decide.
struct Scrutiny {
  bool suspect = false;
  size_t factor = 1;
};
extern Scrutiny scrutiny;
void scrutinise(size_t factor, const std::function<void()>& probe);

inline std::mt19937 step_prng(const Step& s) {
  return std::mt19937((uint32_t)(s.seed ^ (s.seed >> 32)) + 7919 * (uint32_t)(scrutiny.factor - 1));
}
// Relative/absolute closeness for scores.
bool close(double a, double b, double tol = 1e-6);

// Goodness of fit of counts against probabilities.  Returns 2*K*KL; expected
// order df.  ok() uses a threshold that a correct sampler exceeds with
// probability far below 1e-12.
double g_stat(const std::vector<uint64_t>& counts, const std::vector<double>& p);
bool g_ok(const std::vector<uint64_t>& counts, const std::vector<double>& p, std::string* why = nullptr);

double wall_now();  // real clock, driver only
}  // namespace sim
