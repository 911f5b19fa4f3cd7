// P22: the histories of the other worlds, and a leak check, in a build whose
// memory accesses and arithmetic are checked.  What the other worlds would say
// about results is ignored here.
#include "hooks.hh"
#include "prog.hh"
#include "san.hh"
#include "worlds.hh"

namespace sim {
namespace {
struct Sub {
  const char* prop;
  int weight;
  bool program;
};
const Sub kSubs[] = {{"P01", 6, false}, {"P02", 3, false}, {"P03", 6, false}, {"P06", 4, false},  {"P07", 2, false},
                     {"P09", 1, false}, {"P14", 6, false}, {"P15", 5, false}, {"P16", 3, false},  {"P18", 3, false},
                     {"P19", 3, false}, {"P20", 3, false}, {"P10", 3, true},  {"P11", 2, true},   {"P12", 3, true},
                     {"P13", 1, true},  {"P17", 2, true},   {"P27", 2, true}, {"P28", 1, true}};

struct Mixed : World {
  std::map<std::string, std::unique_ptr<World>> w;
  World& sub(const std::string& p) {
    auto& x = w[p];
    if (!x) x = make_world(p);
    return *x;
  }
  void generate(Rng& g, Plan& plan, int tier) override {
    int total = 0;
    for (auto& s : kSubs) total += s.weight;
    int k = (int)g.below(total);
    const Sub* s = kSubs;
    while (k >= s->weight) k -= s->weight, ++s;
    Plan q;
    q.prop = s->prop;
    q.seed = plan.seed;
    q.run = plan.run;
    sub(s->prop).generate(g, q, tier);
    plan.add(g, "world", {s->prop, s->program || !g.chance(0.4) ? "plain" : "leak"});
    for (auto& x : q.steps) plan.steps.push_back(x);
  }
  // Returns whether the run ended normally.
  bool once(const Plan& q, Ctx& c) {
    io = IoState();
    vclock_reset(1000);
    World& x = sub(q.prop);
    jmp_buf out;
    if (setjmp(out)) {
      san_jump = nullptr;
      SanReport r = san_take();
      throw Violation(r.cls, r.msg);
    }
    san_jump = &out;
    try {
      x.run(q, c);
      san_jump = nullptr;
      return true;
    } catch (const Violation& v) {
      c.log(v.cls);
    } catch (const SimExit& e) {
      c.log(strf("exit %d", e.code));
    } catch (const std::exception& e) {
      c.log("exception");
    }
    san_jump = nullptr;
    return false;
  }
  void run(const Plan& plan, Ctx& c) override {
    if (plan.steps.empty() || plan.steps[0].op != "world") return;
    const Step& s = plan.steps[0];
    Plan q;
    q.prop = s.s(0);
    q.seed = plan.seed;
    q.run = plan.run;
    q.steps.assign(plan.steps.begin() + 1, plan.steps.end());
    bool known = false;
    for (auto& x : kSubs) known |= q.prop == x.prop;
    if (!known || q.steps.empty()) return;
    last_san_cls.clear();
    // The bigram noise model's undefined scores are a known finding.
    std::string text = q.text();
    bool bg = text.find("bigram") != text.npos ||
              (text.find(" class ") != text.npos && (text.find("typo") != text.npos || text.find(" string") != text.npos));
    snprintf(san_context, sizeof san_context, "%s", bg ? ":bigram" : "");
    std::string prop = c.prop;
    c.prop = q.prop;
    c.count("histories of " + q.prop);
    bool ok = once(q, c);
    c.prop = prop;
    c.nontrivial |= ok && q.steps.size() > 2;
    if (!last_san_cls.empty()) c.fail(last_san_cls, "in a simulated program run: " + last_san_msg);
    if (ok && s.s(1) == "leak" && san_enabled()) {
      // The first pass filled every cache; a repetition must release all it took.
      int64_t left[2];
      for (int k = 0; k < 2; ++k) {
        Stats* st = new Stats;
        Ctx* d = new Ctx;
        d->prop = q.prop;
        d->stats = st;
        san_live = 0;
        san_count = true;
        bool again = once(q, *d);
        // What the harness itself keeps is released before counting ends.
        for (auto& x : st->n) (void)x;
        san_count = false;
        int64_t held = san_live;
        san_live = 0;
        san_count = true;
        delete d;
        delete st;
        san_count = false;
        left[k] = again ? held + san_live + 2 : 0;
        san_live = 0;
      }
      c.count("leak checks");
      if (left[0] > 0 && left[1] > 0)
        c.fail("leak", strf("repeating this history leaves %lld allocations behind, again %lld the next time", (long long)left[0], (long long)left[1]));
    }
  }
  std::vector<std::string> real_components() override {
    return {"the whole library, hirm and pclean, built with AddressSanitizer, UndefinedBehaviorSanitizer and container precondition checks; every world of the other properties"};
  }
  std::vector<std::string> stub_components() override {
    return {"processor clock (virtual)", "open/read/write/close (real files in a scratch directory behind an injector)", "operator new (injector in front of the sanitizer's)"};
  }
  std::string rule() override { return "a run is non-trivial if the borrowed history has more than two steps and ran to its end"; }
  int default_runs(int) override { return 1000; }
};
}  // namespace
std::unique_ptr<World> make_mixed_world(const std::string&) { return std::make_unique<Mixed>(); }
}  // namespace sim
