// P24: moves of entity references keep the joint distribution.
//
// From a random reached state s the real move of one reference is executed
// many times (each in a forked copy of the simulator with its own seed), and
// again from the states s' it leads to.  A move that keeps the distribution
// pi(state) ~ exp(score) and treats its candidates alike satisfies
// P(s -> s') pi(s) = P(s' -> s) pi(s').
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <functional>

#include "pc_db.hh"
#include "worlds.hh"

namespace sim {
namespace {
// The state up to the names of entities and clusters.
struct Canon {
  const Db& d;
  std::map<std::string, std::map<int, int>> id;  // class -> entity -> canonical
  std::string refs;
  explicit Canon(const Db& dd) : d(dd) {
    for (int r : d.rows) walk(d.gen.record(), r);
  }
  int name(const std::string& c, int e) {
    auto& m = id[c];
    auto it = m.find(e);
    return it == m.end() ? -1 : it->second;
  }
  void walk(const std::string& c, int e) {
    auto& m = id[c];
    if (m.count(e)) return;
    int k = m.size();
    m[e] = k;
    for (auto& [v, t] : d.vars(c)) {
      if (!is_class_type(t)) continue;
      auto it = d.db->reference_values.at(c).find({v, e});
      if (it == d.db->reference_values.at(c).end()) {
        refs += strf("%s%d.%s>? ", c.c_str(), k, v.c_str());
        continue;
      }
      walk(t, it->second);
      refs += strf("%s%d.%s>%d ", c.c_str(), k, v.c_str(), id[t][it->second]);
    }
  }
  std::string text() {
    std::string o = refs;
    for (auto& [r, sp] : d.view.specs) {
      std::set<std::string> cells;
      std::visit(
          [&](auto* q) {
            for (auto& [items, v] : q->get_data()) {
              std::string s;
              for (size_t i = 0; i < items.size(); ++i) s += strf("%d,", name(sp.domains[i], items[i]));
              cells.insert(s + "=" + from_value(ObservationVariant(v)));
            }
          },
          d.view.rel(r));
      o += "|" + r;
      for (auto& c : cells) o += " " + c;
    }
    for (auto& [code, irm] : d.db->hirm->irms) {
      o += strf("|irm%d", code);
      for (auto& [dn, dom] : irm->domains) {
        std::set<std::string> parts;
        for (auto& [t, s] : dom->crp.tables) {
          std::set<int> m;
          for (int e : s) m.insert(name(dn, e));
          std::string q;
          for (int e : m) q += strf("%d,", e);
          parts.insert(q);
        }
        o += " " + dn + ":";
        for (auto& q : parts) o += q + ";";
      }
    }
    return o;
  }
};
struct Slot {
  uint64_t key;
  double score;
  int ok;
};
struct Tally {
  std::map<uint64_t, std::pair<uint64_t, double>> n;  // key -> (count, score)
  std::map<uint64_t, int> first;                      // key -> a trial that led there
  int failed = 0;
};
struct Arena {
  Slot* s;
  size_t n;
  explicit Arena(size_t k) : n(k) {
    s = (Slot*)mmap(nullptr, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) throw std::runtime_error("mmap");
  }
  ~Arena() { munmap(s, n * sizeof(Slot)); }
};
struct Target {
  std::string cls, field;
  int item;
};
void one(Db& d, const Target& t, uint64_t seed, Slot* out) {
  std::mt19937 prng((uint32_t)(seed ^ (seed >> 32)));
  d.db->transition_reference(&prng, t.cls, t.field, t.item);
  if (out) {
    out->key = hash_str(Canon(d).text());
    out->score = d.db->logp_score();
    out->ok = 1;
  }
}
// Runs the move n times from the present state.
Tally trials(Db& d, const Target& t, uint64_t seed, int n, Slot* s) {
  memset(s, 0, n * sizeof(Slot));
  for (int i = 0; i < n; ++i) {
    pid_t c = fork();
    if (c == 0) {
      alarm(30);
      one(d, t, mix(seed, i), s + i);
      _exit(0);
    }
    int st;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  }
  Tally r;
  for (int i = 0; i < n; ++i) {
    if (!s[i].ok) {
      ++r.failed;
      continue;
    }
    auto& e = r.n[s[i].key];
    ++e.first;
    e.second = s[i].score;
    r.first.emplace(s[i].key, i);
  }
  return r;
}
}  // namespace

struct RefsWorld : World {
  int trials_n = 1500;
  void generate(Rng& g, Plan& p, int tier) override {
    PcGen s;
    // Record class with one or two references, the referenced classes with a
    // reference of their own at times; truth values with exact noise only.
    int shape = g.below(7);
    auto scal = [&](PcClass& c, int lo, int hi) {
      int k = g.range(lo, hi);
      for (int j = 0; j < k; ++j) c.vars.push_back({strf("s%d", j), "bool"});
    };
    PcClass a{"City", {}}, b{"School", {}}, z{"Zone", {}}, r{"Rec", {}};
    bool own = g.chance(0.3);
    if (shape <= 1) {
      scal(a, 1, 2);
      r.vars.push_back({"c", "City"});
      if (shape == 1) r.vars.push_back({"d", "City"});
      s.classes = {a};
    } else if (shape <= 3) {
      scal(a, 1, 1);
      b.vars.push_back({"c", "City"});
      scal(b, 0, 1);
      r.vars.push_back({"h", "School"});
      if (shape == 3) r.vars.push_back({"c", "City"});
      s.classes = {a, b};
    } else if (shape <= 5) {
      scal(a, 1, 1);
      scal(z, 1, 1);
      if (shape == 5) {
        // two parents
        b.vars = {{"c", "City"}, {"z", "Zone"}};
        r.vars.push_back({"h", "School"});
        s.classes = {a, z, b};
      } else {
        r.vars = {{"c", "City"}, {"z", "Zone"}};
        s.classes = {a, z};
      }
    } else {
      // three levels
      scal(z, 1, 1);
      a.vars.push_back({"z", "Zone"});
      scal(a, 0, 1);
      b.vars.push_back({"c", "City"});
      r.vars.push_back({"h", "School"});
      s.classes = {z, a, b};
    }
    if (own) scal(r, 1, 1);
    s.classes.push_back(r);
    // every attribute is observed, so that every entity is complete
    std::vector<std::string> paths;
    std::function<void(const std::string&, const std::string&)> walk = [&](const std::string& c, const std::string& pre) {
      for (auto& [v, t] : s.find(c)->vars)
        if (is_class_type(t)) walk(t, pre + v + ".");
        else paths.push_back(pre + v);
    };
    walk(s.record(), "");
    for (size_t i = 0; i < paths.size(); ++i) s.fields.push_back({strf("F%d", (int)i), paths[i]});
    pc_steps(g, p, s);
    p.add(g, "build", {g.chance(0.5) ? "1" : "0", g.chance(0.7) ? "1" : "0"});
    int alphas = g.below(3);
    if (alphas == 0) p.add(g, "alphas");
    // with many rows there are many candidates for one reference
    int rows = g.chance(0.25) && shape <= 3 ? g.range(5, 8) : g.range(2, 4);
    bool uniq = g.chance(0.5);
    for (int i = 0; i < rows; ++i) {
      std::vector<std::string> a = {std::to_string(i), uniq ? "1" : "0"};
      for (auto& [f, path] : s.fields) {
        a.push_back(f);
        a.push_back(pc_value(g, "bool"));
      }
      p.add(g, "row", a);
    }
    int k = g.range(0, 2);
    for (int i = 0; i < k; ++i) p.add(g, g.chance(0.6) ? "transall" : "structure");
    p.add(g, "probe", {std::to_string(tier ? 4000 : 1500)});
    (void)tier;
  }
  void probe(Db& d, const Step& s, Ctx& c) {
    int n = std::max(10, s.i(0));
    std::vector<Target> all;
    for (auto& [cl, m] : d.db->reference_values)
      for (auto& [k, v] : m) all.push_back({cl, k.first, k.second});
    if (all.empty()) return;
    Target t = all[s.seed % all.size()];
    // a move leaves the state complete and cleaned up
    one(d, t, s.seed + 1, nullptr);
    Arena ar(n), ar2(n);
    uint64_t k0 = hash_str(Canon(d).text());
    double l0 = d.db->logp_score();
    std::string t0 = c.verbose ? Canon(d).text() : "";
    Tally f = trials(d, t, s.seed, n, ar.s);
    c.count("trials", n);
    if (f.failed) c.fail("move-crashed", strf("%d of %d moves of %s.%s ended the program", f.failed, n, t.cls.c_str(), t.field.c_str()));
    std::vector<std::pair<uint64_t, uint64_t>> order;
    for (auto& [k, e] : f.n)
      if (k != k0) order.push_back({e.first, k});
    std::sort(order.rbegin(), order.rend());
    c.count("destinations", order.size());
    c.log(strf("probe %zu %.9g", order.size(), l0));
    for (size_t i = 0; i < order.size() && i < 3; ++i) {
      auto [cnt, k1] = order[i];
      double l1 = f.n[k1].second;
      memset(ar2.s, 0, n * sizeof(Slot));
      pid_t ch = fork();
      if (ch == 0) {
        one(d, t, mix(s.seed, f.first[k1]), nullptr);
        if (hash_str(Canon(d).text()) != k1) _exit(3);
        if (c.verbose) fprintf(stderr, "from %.6f %s\nto   %.6f %s\n", l0, t0.c_str(), l1, Canon(d).text().c_str());
        trials(d, t, s.seed + 77 + i, n, ar2.s);
        _exit(0);
      }
      int st;
      while (waitpid(ch, &st, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("move-not-repeatable", "the same move with the same seed led elsewhere");
      uint64_t back = 0;
      for (int j = 0; j < n; ++j) back += ar2.s[j].ok && ar2.s[j].key == k0;
      c.count("trials", n);
      c.count("pairs");
      c.nontrivial = true;
      // cnt ~ Bin(n, a), back ~ Bin(n, b) with a = b * exp(l1 - l0).
      double r = std::exp(l1 - l0);
      // maximum likelihood of b under the constraint, by bisection
      auto ll = [&](double b) {
        double a = b * r;
        auto term = [&](double m, double q) { return (m > 0 ? m * std::log(q) : 0) + (n - m > 0 ? (n - m) * std::log1p(-q) : 0); };
        return term(cnt, a) + term(back, b);
      };
      double hi = std::min(1.0, 1.0 / r) * (1 - 1e-12), lo = 1e-12;
      for (int it = 0; it < 200; ++it) {
        double m1 = lo + (hi - lo) * 0.382, m2 = lo + (hi - lo) * 0.618;
        if (ll(m1) < ll(m2)) lo = m1;
        else hi = m2;
      }
      auto free_ll = [&](double m) { return (m > 0 ? m * std::log(m / n) : 0) + (m < n ? (n - m) * std::log1p(-m / n) : 0); };
      double stat = 2 * (free_ll(cnt) + free_ll(back) - ll((lo + hi) / 2));
      if (c.verbose) fprintf(stderr, "there %llu back %llu of %d, ratio of scores %.4g, statistic %.1f\n", (unsigned long long)cnt, (unsigned long long)back, n, r, stat);
      if (stat > 60)
        c.fail("unbalanced", strf("moving %s %d's %s leads from one state to another %llu times in %d and back %llu times in %d, but the second is %.4g times as probable as the first",
                                  t.cls.c_str(), t.item, t.field.c_str(), (unsigned long long)cnt, n, (unsigned long long)back, n, r));
    }
  }
  void run(const Plan& p, Ctx& c) override {
    Db d;
    d.gen = pc_from_steps(p);
    if (d.gen.classes.empty()) return;
    for (auto& s : p.steps) {
      if (s.op == "probe") {
        if (d.db) probe(d, s, c);
        continue;
      }
      if (d.db && s.op == "alphas") {
        // Concentrations as an earlier move of theirs could have left them.
        Rng g(s.seed);
        for (auto& [cl, crp] : d.db->entity_crps) crp.alpha = 0.3 * g.range(1, 10);
        for (auto& [code, irm] : d.db->hirm->irms)
          for (auto& [dn, dom] : irm->domains) dom->crp.alpha = 0.3 * g.range(1, 10);
      } else if (d.db && s.op == "structure") {
        // Moves of relations and of entities between clusters; hyperparameters
        // keep their defaults, since a cluster that a reference move empties
        // and another recreates has these.
        std::mt19937 prng = step_prng(s);
        d.db->hirm->transition_cluster_assignments_all(&prng);
        for (auto& [code, irm] : d.db->hirm->irms) irm->transition_cluster_assignments_all(&prng);
      } else if (!db_apply(d, s, c)) continue;
      c.count("op." + s.op);
      if (!d.db) continue;
      std::string g = db_digest(d);
      c.state(hash_str(g));
      c.log(s.op + strf(" %.9g ", d.db->logp_score()) + g);
    }
  }
  std::vector<std::string> real_components() override {
    return {"gendb.cc", "hirm.cc", "irm.cc", "relations", "pclean/io.cc", "distributions", "emissions"};
  }
  std::vector<std::string> stub_components() override { return {"random numbers (seeded per trial)"}; }
  std::string rule() override {
    return "one case = one random class schema with truth values, seeded rows and moves, and one reference whose move is executed 1500 (thorough 4000) times from a reached state and again from up to three of the states it leads to; non-trivial when there was another state";
  }
  int default_runs(int tier) override { return tier ? 3000 : 120; }
};
std::unique_ptr<World> make_refs_world(const std::string&) { return std::make_unique<RefsWorld>(); }
}  // namespace sim
