// P09: the inference time budget under a simulated processor clock.
#include <cmath>

#include "hooks.hh"
#include "pc_db.hh"
#include "worlds.hh"

namespace sim {
struct TimeWorld : World {
  void generate(Rng& g, Plan& p, int tier) override {
    bool db = g.chance(0.35);
    if (db) {
      PcOpts o;
      o.max_classes = 3;
      o.strings = g.chance(0.2);
      PcGen s = pc_generate(g, o);
      pc_steps(g, p, s);
      p.add(g, "build", {g.chance(0.25) ? "1" : "0", g.chance(0.6) ? "1" : "0"});
      int rows = g.range(2, 4), id = 0;
      bool uniq = g.chance(0.5);
      for (int i = 0; i < rows; ++i) db_gen_row(g, p, s, uniq, &id);
    } else {
      GenOpts o;
      GenState s;
      p.add(g, "kind", {g.chance(0.6) ? "hirm" : "irm"});
      o.max_clean = 2;
      o.max_noisy = 2;
      o.max_domains = 2;
      o.max_entities = 3;
      o.heavy = false;
      o.strings = g.chance(0.3);
      gen_schema(g, p, s, o);
      int n = g.range(3, 10);
      for (int i = 0; i < n; ++i) gen_obs(g, p, s);
    }
    // sweeps, inner sweeps, budget in seconds, time the run would need,
    // verbose, clock base, then jumps as (fraction of the work in 1/1000,
    // milliseconds).
    int n = g.range(1, tier ? 6 : 4);
    int budget = g.chance(0.15) ? 0 : g.chance(0.8) ? g.range(1, 5) : g.range(6, 100000);
    double total = g.chance(0.1) ? 0 : (budget ? budget : 3) * 1000.0 * (0.2 + 3 * g.unit());
    if (g.chance(0.1)) total *= 1000;
    std::vector<std::string> a = {std::to_string(n), std::to_string(g.range(0, 3)), std::to_string(budget),
                                  std::to_string((long)total), g.chance(0.3) ? "1" : "0",
                                  g.chance(0.1) ? "broken" : g.chance(0.5) ? "0" : std::to_string(g.below(1ull << 41))};
    int jumps = g.chance(0.5) ? 0 : g.range(1, 4);
    for (int i = 0; i < jumps; ++i) {
      a.push_back(std::to_string(g.range(0, 1000)));
      a.push_back(std::to_string((long)((budget ? budget : 3) * 1000.0 * 1.6 * g.unit())));
    }
    p.add(g, "run", a);
  }

  struct Live {
    Model m;
    Db d;
    bool ok() const { return d.db || m.built(); }
    std::string digest(std::mt19937& prng) const {
      std::string s;
      if (d.db) s = db_digest(d) + partition_digest(d.view) + data_digest(d.view);
      else s = partition_digest(m) + data_digest(m);
      std::mt19937 q = prng;
      return s + strf("|%.15g %u %u", score(), (unsigned)q(), (unsigned)q());
    }
    double score() const { return d.db ? d.db->logp_score() : m.score(); }
    void infer(std::mt19937* prng, int n, int inner, int budget, bool verbose) {
      if (d.db) inference_gendb(prng, d.db.get(), n, inner, budget, verbose);
      else if (m.is_hirm) inference_hirm(prng, m.h.get(), n, budget, verbose);
      else inference_irm(prng, m.m.get(), n, budget, verbose);
    }
  };
  void build(Live& l, const Plan& p, Ctx& c) {
    l.d.gen = pc_from_steps(p);
    bool db = !l.d.gen.classes.empty();
    for (auto& s : p.steps) {
      if (s.op == "run" || s.op == "class" || s.op == "field") continue;
      if (db) db_apply(l.d, s, c);
      else l.m.apply(s, c);
    }
  }
  struct Mark {
    std::string digest;
    uint64_t work, score_work;
  };
  void run(const Plan& p, Ctx& c) override {
    const Step* rs = nullptr;
    for (auto& s : p.steps)
      if (s.op == "run") rs = &s;
    if (!rs) return;
    int n = rs->i(0), inner = rs->i(1), budget = rs->i(2);
    bool verbose = rs->i(4);
    vclock_reset(0);
    bool db;
    {
      Live l;
      build(l, p, c);
      if (!l.ok()) return;
      db = (bool)l.d.db;
    }
    // What the model looks like after each sweep when nothing stops it, and
    // how much work it took to get there.
    int per = db ? inner + 1 : 1, total = n * per;
    std::vector<Mark> marks;
    for (int k = 0; k <= total; ++k) {
      Live l;
      build(l, p, c);
      std::mt19937 prng = step_prng(*rs);
      vclock.work = 0;
      int outer = k / per, rest = k % per;
      l.infer(&prng, outer, inner, 0, verbose);
      if (rest) inference_hirm(&prng, l.d.db->hirm, rest, 0, verbose);
      Mark m;
      m.work = vclock.work;
      l.score();
      m.score_work = vclock.work - m.work;
      m.digest = l.digest(prng);
      marks.push_back(m);
    }
    uint64_t W = std::max<uint64_t>(marks.back().work, 1);
    auto set_clock = [&]() {
      vclock_reset(0);
      vclock.by_work = true;
      if (rs->s(5) == "broken") vclock.broken = true, ++c.stats->n["fault.no_clock"];
      else vclock.base = std::stoull(rs->s(5));
      vclock.per_unit = rs->d(3) * 1000 / W;
      for (size_t k = 6; k + 1 < rs->a.size(); k += 2)
        vclock.work_jumps.push_back({(uint64_t)(rs->i(k) / 1000.0 * W), (uint64_t)(rs->d(k + 1) * 1000)});
    };
    set_clock();
    for (auto& j : vclock.work_jumps) c.count("fault.clock_jump"), (void)j;
    if (vclock.per_unit == 0) c.count("fault.clock_stalled");
    auto elapsed = [&](uint64_t w) { return vclock.broken ? 0.0 : (vclock.work_time(w) - vclock.work_time(0)) / 1e6; };
    Live l;
    set_clock();  // the clock of the build is of no interest
    build(l, p, c);
    std::mt19937 prng = step_prng(*rs);
    vclock.work = 0;
    l.infer(&prng, n, inner, budget, verbose);
    uint64_t end = vclock.work;
    double sim_t = elapsed(end);
    c.stats->sim_time += sim_t;
    std::string dg = l.digest(prng);
    vclock.by_work = false;
    if (db) check_structure(l.d.view, c);
    else check_structure(l.m, c);
    // A sweep may change nothing at all, so several counts can fit.
    std::vector<int> fits;
    for (int k = 0; k <= total; ++k)
      if (marks[k].digest == dg) fits.push_back(k);
    int at = fits.empty() ? -1 : fits.back();
    c.log(strf("stopped after %d of %d sweeps, %.6f s, budget %d ", at, total, sim_t, budget) + dg);
    c.state(hash_str(strf("%d %d %d", at, total, budget)));
    if (at < 0) c.fail("half-sweep", strf("the model after %d of its budget of %d s (%d sweeps asked, %d x %d) is not the result of any number of whole sweeps", (int)sim_t, budget, total, n, per));
    set_clock();
    // Where each sweep's start lies: after the work of the sweeps before it,
    // plus at most a few evaluations of the score.
    auto late = [&](int k) { return marks[k].work + 4 * marks[k].score_work; };
    std::string cls, msg;
    for (int k : fits) {
      cls.clear();
      if (budget == 0) {
        if (k != total) cls = "stopped-early", msg = strf("without a budget only %d of %d sweeps ran", k, total);
      } else if (k > 0 && elapsed(marks[k - 1].work) > budget) {
        cls = "budget-overrun", msg = strf("sweep %d of %d started %.3f s into the run although the budget is %d s", k, total, elapsed(marks[k - 1].work), budget);
      } else if (k < total && elapsed(late(k)) <= budget) {
        cls = "stopped-early", msg = strf("only %d of %d sweeps ran in %.3f s although the budget is %d s", k, total, elapsed(late(k)), budget);
      }
      if (cls.empty()) break;
    }
    if (!cls.empty()) c.fail(cls, msg);
    if (budget && at < total) c.count("stopped_by_budget");
    vclock.by_work = false;
    c.nontrivial = budget > 0 && rs->s(5) != "broken";
    if (at < total) c.count("runs_cut_short");
  }
  std::vector<std::string> real_components() override { return {"inference.cc", "irm.cc", "hirm.cc", "gendb.cc", "relations", "distributions", "emissions"}; }
  std::vector<std::string> stub_components() override { return {"processor clock (virtual, advanced by the work done)", "random numbers (seeded)"}; }
  std::string rule() override {
    return "one case = one random model, sweep count, budget and clock behaviour; the result is matched with the results of whole numbers of sweeps; non-trivial when a budget is set";
  }
  int default_runs(int tier) override { return tier ? 60000 : 6000; }
};
std::unique_ptr<World> make_time_world(const std::string&) { return std::make_unique<TimeWorld>(); }
}  // namespace sim
