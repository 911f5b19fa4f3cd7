// P14, P15: entity references of a GenDB and the observed rows behind them.
#include <algorithm>
#include <cmath>

#include "pc_db.hh"
#include "worlds.hh"

namespace sim {
namespace {
void check_refs(const Db& d, Ctx& x) {
  std::map<std::string, std::set<int>> alive;
  alive[d.gen.record()] = d.rows;
  for (auto& [c, crp] : d.db->entity_crps)
    for (auto& [t, s] : crp.tables) alive[c].insert(t);
  std::map<std::string, std::map<int, int>> pop;
  for (auto& [c, m] : d.db->reference_values) {
    auto vs = d.vars(c);
    for (auto& [k, v] : m) {
      auto& [f, item] = k;
      if (!vs.count(f)) x.fail("reference-unknown", c + " has no field " + f);
      ++pop[vs[f]][v];
      if (!alive[c].count(item))
        x.fail("reference-dangling", strf("%s %d is gone but its reference %s to %s %d is still kept", c.c_str(), item, f.c_str(), vs[f].c_str(), v));
    }
  }
  for (auto& [c, crp] : d.db->entity_crps) {
    std::map<int, int> n;
    int tot = 0;
    std::set<int> seen;
    for (auto& [t, s] : crp.tables) {
      n[t] = s.size();
      tot += s.size();
      for (int id : s) {
        if (!seen.insert(id).second) x.fail("counted-twice", c + ": one reference is counted at two entities");
        auto a = crp.assignments.find(id);
        if (a == crp.assignments.end() || a->second != t) x.fail("count-index", c + ": population index disagrees with its tables");
      }
    }
    if ((int)crp.assignments.size() != tot || std::fabs(crp.N - tot) > 1e-9) x.fail("count-index", c + strf(": population N=%g, %d references at its entities", (double)crp.N, tot));
    for (auto& [e, k] : pop[c])
      if (n[e] != k) x.fail("count-wrong", strf("%s %d is named by %d references but counted %d times", c.c_str(), e, k, n[e]));
    for (auto& [e, k] : n)
      if (k && !pop[c].count(e)) x.fail("count-wrong", strf("%s %d is counted %d times but no reference names it", c.c_str(), e, k));
  }
  for (auto& [r, sp] : d.view.specs) {
    std::visit(
        [&](auto* q) {
          for (auto& [items, v] : q->get_data()) {
            std::string own;
            auto ex = d.expected(r, items.back(), &own, x);
            if (!alive[own].count(items.back()))
              x.fail("cell-dead", r + ": the cell [" + ints(items) + strf("] belongs to %s %d, which nothing refers to", own.c_str(), items.back()));
            if (ex != items) x.fail("cell-misplaced", r + ": a cell of " + own + " " + std::to_string(items.back()) + " is stored under [" + ints(items) + "], its references name [" + ints(ex) + "]");
          }
        },
        d.view.rel(r));
  }
}

// The score of the whole: its entity partitions and its relational model.
void check_score(const Db& d, Ctx& x) {
  double e = d.db->hirm->logp_score();
  for (auto& [c, crp] : d.db->entity_crps) {
    double n = 0;
    for (auto& [t, s] : crp.tables) {
      e += std::log(crp.alpha) + std::lgamma((double)s.size());
      n += s.size();
    }
    e += std::lgamma(crp.alpha) - std::lgamma(crp.alpha + n);
  }
  double l = d.db->logp_score();
  if (std::isfinite(e) && !(std::fabs(l - e) <= 1e-6 * std::max(1.0, std::fabs(e))))
    x.fail("score", strf("the score of the model is %.9g; that of its entity partitions and its relational model is %.9g", l, e));
}
// The entities on the paths of the columns of a row that was to have entities
// of its own: none was there before, and no two are the same.
void check_own(const Db& d, const Step& s, const std::map<std::string, std::set<int>>& before, Ctx& x) {
  std::map<std::pair<std::string, int>, std::string> got;  // entity -> path
  for (size_t k = 2; k + 1 < s.a.size(); k += 2)
    for (auto& [f, path] : d.gen.fields) {
      if (f != s.a[k]) continue;
      auto cls = d.gen.path_classes(path);
      auto vs = split(path, '.');
      int e = s.i(0);
      std::string pre;
      for (size_t i = 0; i + 1 < cls.size(); ++i) {
        e = d.ref(cls[i], vs[i], e, x);
        pre += vs[i] + ".";
        auto b = before.find(cls[i + 1]);
        x.count("own_entities");
        if (b != before.end() && b->second.count(e))
          x.fail("not-its-own", strf("row %d was added with entities of its own, but its %s is %s %d, which was there before", s.i(0), pre.c_str(), cls[i + 1].c_str(), e));
        auto [it, fresh] = got.try_emplace({cls[i + 1], e}, pre);
        if (!fresh && it->second != pre)
          x.fail("not-its-own", strf("row %d was added with entities of its own, but its %s and %s are both %s %d", s.i(0), it->second.c_str(), pre.c_str(), cls[i + 1].c_str(), e));
      }
    }
}

void check_rows(const Db& d, Ctx& x) {
  for (auto& [f, path] : d.gen.fields) {
    std::map<int, int> n;
    auto it = d.given.find(f);
    static const std::map<int, ObservationVariant> none;
    auto& g = it == d.given.end() ? none : it->second;
    std::visit(
        [&](auto* q) {
          for (auto& [items, v] : q->get_data()) {
            int row = items.back();
            if (++n[row] > 1) x.fail("cell-duplicated", f + strf(": row %d has two values", row));
            auto gi = g.find(row);
            if (gi == g.end()) x.fail("cell-invented", f + strf(": row %d was never given a value", row));
            if (!(gi->second == ObservationVariant(v))) x.fail("cell-changed", f + strf(": row %d changed from ", row) + from_value(gi->second) + " to " + from_value(v));
          }
        },
        d.view.rel(f));
    for (auto& [row, v] : g)
      if (!n.count(row)) x.fail("cell-lost", f + strf(": the value of row %d is gone", row));
  }
}
}  // namespace

struct GendbWorld : World {
  std::string prop;
  explicit GendbWorld(std::string p) : prop(std::move(p)) {}
  void generate(Rng& g, Plan& p, int tier) override {
    PcOpts o;
    o.heavy = g.chance(0.12);
    o.strings = g.chance(0.4);
    PcGen s = pc_generate(g, o);
    pc_steps(g, p, s);
    p.add(g, "build", {g.chance(0.25) ? "1" : "0", g.chance(0.6) ? "1" : "0"});
    bool uniq = g.chance(0.5);
    int rows = g.range(2, tier ? 9 : 6), id = 0;
    int ops = g.range(2, tier ? 18 : 9);
    auto row = [&]() { db_gen_row(g, p, s, uniq, &id); };
    for (int i = 0; i < rows; ++i) row();
    for (int i = 0; i < ops; ++i) {
      double u = g.unit();
      if (u < 0.15) row();
      else if (u < 0.55) p.add(g, "tref");
      else if (u < 0.75) p.add(g, "transall");
      else if (u < 0.9) p.add(g, "hirm", {std::to_string(g.range(1, 2))});
      else p.add(g, "infer", {std::to_string(g.range(1, 2)), std::to_string(g.range(0, 2))});
    }
  }
  void run(const Plan& p, Ctx& c) override {
    Db d;
    d.gen = pc_from_steps(p);
    if (d.gen.classes.empty()) return;
    std::string before;
    for (auto& s : p.steps) {
      std::map<std::string, std::set<int>> there;
      bool own = prop == "P14" && d.db && s.op == "row" && s.i(1);
      if (own)
        for (auto& [cl, crp] : d.db->entity_crps)
          for (auto& [t, m] : crp.tables) there[cl].insert(t);
      if (!db_apply(d, s, c)) continue;
      c.count("op." + s.op);
      if (!d.db) continue;
      if (prop == "P15") check_rows(d, c);
      else {
        check_refs(d, c);
        if (own) check_own(d, s, there, c);
        check_score(d, c);
        check_structure(d.view, c);
      }
      std::string g = db_digest(d);
      if (g != before) c.count("reference_changes");
      before = g;
      c.state(hash_str(g));
      c.log(s.op + strf(" %.9g ", d.db->logp_score()) + g);
    }
  }
  std::vector<std::string> real_components() override {
    return {"gendb.cc", "hirm.cc", "irm.cc", "relations", "pclean/io.cc", "pclean/get_joint_relations.cc", "distributions", "emissions", "inference.cc"};
  }
  std::vector<std::string> stub_components() override { return {"clock (virtual)", "random numbers (seeded per step)"}; }
  std::string rule() override {
    return "one case = one random class schema with a seeded history of added rows, reference moves and inference; non-trivial when rows were added";
  }
  int default_runs(int tier) override { return tier ? 60000 : 6000; }
};
std::unique_ptr<World> make_gendb_world(const std::string& p) { return std::make_unique<GendbWorld>(p); }
}  // namespace sim
