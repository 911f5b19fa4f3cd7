// P04: entity moves against the exactly enumerated conditional.
// P05: invariance of, and convergence to, the exactly enumerated posterior.
#include <algorithm>
#include <cmath>
#include <functional>

#include "hirm.hh"
#include "model.hh"
#include "worlds.hh"

namespace sim {
namespace {
double crp_score(const std::vector<int>& sizes, double alpha) {
  double l = 0;
  int n = 0;
  for (int k : sizes) {
    if (!k) continue;
    l += std::log(alpha) + std::lgamma((double)k);
    n += k;
  }
  return l + std::lgamma(alpha) - std::lgamma(alpha + n);
}
std::vector<double> normalise(std::vector<double> l) {
  double m = *std::max_element(l.begin(), l.end()), s = 0;
  for (double& x : l) s += x = std::exp(x - m);
  for (double& x : l) x /= s;
  return l;
}

// Remembers the hyperparameters of every cluster of one relation.
struct Hypers {
  std::vector<std::function<void()>> back;
  void save(const RelationVariant& rv, bool clean) {
    with_clean(rv, clean, [&](auto* cr, auto) {
      using T = typename std::remove_pointer_t<decltype(cr)>::ValueType;
      auto m = std::make_shared<std::map<std::vector<int>, std::unique_ptr<Distribution<T>>>>();
      for (auto& [z, cl] : cr->clusters) (*m)[z].reset(fresh_like<T>(*cr, cl));
      back.push_back([m, cr]() {
        for (auto& [z, cl] : cr->clusters) {
          auto it = m->find(z);
          if (it != m->end()) copy_hypers<T>(it->second.get(), cl);
        }
      });
    });
  }
  void restore() {
    for (auto& f : back) f();
  }
};

void move_item(IRM* im, const std::string& d, int item, int table) {
  Domain* dom = im->domains.at(d);
  if (dom->get_cluster_assignment(item) == table) return;
  std::mt19937 prng(1);
  for (const std::string& r : im->domain_to_relations.at(d))
    std::visit(
        [&](auto rel) {
          if (rel->has_observation(*dom, item)) rel->set_cluster_assignment_gibbs(*dom, item, table, &prng);
        },
        im->relations.at(r));
  dom->set_cluster_assignment_gibbs(item, table);
}
}  // namespace

struct GibbsWorld : World {
  void generate(Rng& g, Plan& p, int tier) override {
    GenOpts o;
    o.nonconj = false;
    o.heavy = g.chance(0.2);
    o.max_entities = 6;
    o.repeated_domains = g.chance(0.5);
    GenState s;
    p.add(g, "kind", {g.chance(0.4) ? "hirm" : "irm"});
    if (g.chance(0.5)) o.max_domains = 1;
    gen_schema(g, p, s, o);
    int burst = g.range(5, tier ? 40 : 22);
    for (int i = 0; i < burst; ++i) gen_obs(g, p, s);
    int ops = g.range(0, 10);
    for (int i = 0; i < ops; ++i) {
      const RelSpec& r = s.rels[g.below(s.rels.size())];
      double u = g.unit();
      if (u < 0.3) p.add(g, "irmall", {r.name});
      else if (u < 0.45) p.add(g, "domalpha", {r.name});
      else if (u < 0.6 && !o.repeated_domains) p.add(g, "hparams", {r.name, "1"});
      else if (u < 0.75) p.add(g, "move", {r.name});
      else if (u < 0.9) p.add(g, "item", {r.name, g.pick(r.domains), std::to_string(g.below(s.entities))});
      else gen_obs(g, p, s);
    }
    int probes = g.range(1, 3);
    for (int i = 0; i < probes; ++i) {
      const RelSpec& r = s.rels[g.below(s.rels.size())];
      p.add(g, "probe", {r.name, g.pick(r.domains), std::to_string(g.below(s.entities)), tier ? "4000" : "1200"});
    }
  }
  void probe(Model& m, const Step& s, Ctx& c) {
    if (!m.has(s.s(0))) return;
    IRM* im = m.irm_of(s.s(0));
    const std::string d = s.s(1);
    int item = s.i(2), n = s.i(3) * (int)scrutiny.factor;
    auto dit = im->domains.find(d);
    if (dit == im->domains.end() || !dit->second->items.contains(item)) return;
    Domain* dom = dit->second;
    bool inexact = false, repeated = false;
    for (const std::string& r : im->domain_to_relations.at(d)) {
      const RelSpec& sp = m.specs.at(r);
      if (sp.dist.rfind("sometimes_categorical", 0) == 0 || (!sp.clean && sp.dist == "bigram")) inexact = true;
      for (size_t i = 0; i < sp.domains.size(); ++i)
        for (size_t j = 0; j < i; ++j) repeated |= sp.domains[i] == sp.domains[j];
    }
    if (inexact) return;
    int cur = dom->get_cluster_assignment(item);
    std::map<int, int> others;
    int fresh = cur;
    for (auto& [e, t] : dom->crp.assignments)
      if (e != item) ++others[t];
    std::vector<int> tables;
    for (auto& [t, k] : others) tables.push_back(t);
    if (others.count(cur)) fresh = 1000003;
    tables.push_back(fresh);
    if (tables.size() < 2) return;
    auto target_scores = [&]() {
      std::vector<double> l;
      for (int t : tables) {
        auto o2 = others;
        ++o2[t];
        std::vector<int> sz;
        for (auto& [q, k] : o2) sz.push_back(k);
        double sc = crp_score(sz, dom->crp.alpha);
        for (const std::string& r : im->domain_to_relations.at(d))
          sc += rebuild_relation_score(
              im->relations.at(r), m.specs.at(r).clean,
              [&](const std::string& dn, int e) { return dn == d && e == item ? t : im->domains.at(dn)->crp.assignments.at(e); }, nullptr);
        l.push_back(sc);
      }
      return l;
    };
    std::vector<double> p = normalise(target_scores());
    Hypers hy;
    for (const std::string& r : im->domain_to_relations.at(d)) hy.save(im->relations.at(r), m.specs.at(r).clean);
    std::mt19937 prng = step_prng(s);
    std::vector<uint64_t> cnt(tables.size());
    for (int i = 0; i < n; ++i) {
      im->transition_cluster_assignment_item(&prng, d, item);
      int t = dom->get_cluster_assignment(item);
      size_t k = std::find(tables.begin(), tables.end(), t) - tables.begin();
      if (k >= tables.size()) {
        k = tables.size() - 1;  // a table of its own
        for (auto& [e, u] : dom->crp.assignments)
          if (e != item && u == t) c.fail("odd-table", "the entity joined a table that did not exist before");
      }
      ++cnt[k];
      if (!repeated && t != cur) {
        move_item(im, d, item, cur);
        hy.restore();
      }
    }
    c.count("kernel_draws", n);
    c.count("conditionals_enumerated");
    c.count(strf("candidates.%zu", tables.size()));
    std::string why;
    if (!g_ok(cnt, p, &why))
      c.fail("conditional", strf("entity %d of domain %s (alpha %.3g): ", item, d.c_str(), dom->crp.alpha) + why);
    double mn = 1;
    for (double q : p) mn = std::min(mn, 1 - q);
    c.nontrivial |= mn > 0.01;
    std::string lg;
    for (auto k : cnt) lg += std::to_string(k) + " ";
    c.log("probe " + lg);
    c.state(hash_str(partition_digest(m) + d + std::to_string(item)));
  }
  void run(const Plan& p, Ctx& c) override {
    Model m;
    for (const Step& s : p.steps) {
      if (s.op == "probe") {
        if (m.built()) scrutinise(12, [&] { probe(m, s, c); });
        continue;
      }
      if (m.apply(s, c)) c.count("op." + s.op);
    }
  }
  std::vector<std::string> real_components() override {
    return {"irm.cc entity kernel", "clean and noisy relations", "domains and CRP", "all distributions and emissions with order-free scores"};
  }
  std::vector<std::string> stub_components() override { return {"random numbers (seeded per step)"}; }
  std::string rule() override {
    return "one case = one random model brought to a random state, in which the kernel of randomly chosen entities is run on the same "
           "conditional many times and its choices are compared (likelihood-ratio test, false alarm below 1e-12) with the conditional "
           "enumerated from scores rebuilt from scratch; non-trivial when no candidate has more than 99 % of the mass";
  }
  int default_runs(int tier) override { return tier ? 60000 : 3000; }
};

// ------------------------------------------------------------------ P05
namespace {
// All set partitions of n elements as restricted growth strings.
void partitions(int n, std::vector<std::vector<int>>* out) {
  std::vector<int> a(n, 0);
  std::function<void(int, int)> rec = [&](int i, int k) {
    if (i == n) {
      out->push_back(a);
      return;
    }
    for (int t = 0; t <= k; ++t) {
      a[i] = t;
      rec(i + 1, std::max(k, t + 1));
    }
  };
  rec(0, 0);
}
struct State {
  std::vector<int> blocks;                                               // relation -> block
  std::map<std::pair<int, std::string>, std::map<int, int>> z;          // (block, domain) -> entity -> table
  double score = 0;
};
std::string key_of(const std::vector<std::string>& rels, const std::function<int(const std::string&)>& block,
                   const std::function<std::map<std::string, std::map<int, int>>(const std::string&)>& parts) {
  std::string s;
  std::map<int, int> ren;
  std::map<int, std::string> rep;
  for (auto& r : rels) {
    int b = block(r);
    if (!ren.count(b)) {
      int k = ren.size();
      ren[b] = k;
      rep[b] = r;
    }
    s += std::to_string(ren[b]);
  }
  std::map<int, std::string> byk;
  for (auto& [b, k] : ren) {
    std::string q;
    for (auto& [d, z] : parts(rep[b])) {
      if (z.empty()) continue;
      q += " " + d + ":";
      std::map<int, int> rt;
      for (auto& [e, t] : z) {
        if (!rt.count(t)) {
          int n = rt.size();
          rt[t] = n;
        }
        q += strf("%d%c", e, 'a' + rt[t]);
      }
    }
    byk[k] = q;
  }
  for (auto& [k, q] : byk) s += "|" + q;
  return s;
}
}  // namespace

struct PosteriorWorld : World {
  void generate(Rng& g, Plan& p, int tier) override {
    GenState s;
    bool hirm = g.chance(0.7);
    bool weak = g.chance(0.35);
    p.add(g, "kind", {hirm ? "hirm" : "irm"});
    int nd = g.range(1, 2);
    for (int i = 0; i < nd; ++i) s.doms.push_back("D" + std::to_string(i));
    s.entities = nd == 1 ? g.range(2, hirm ? 3 : 4) : 2;
    GenOpts o;
    o.nonconj = false;
    o.heavy = false;
    o.strings = !weak && g.chance(0.3);
    o.continuous = !weak;
    o.max_arity = g.chance(0.5) ? 1 : 2;
    o.noisy_of_noisy = true;
    int nr = hirm ? g.range(2, 3) : g.range(1, 2);
    for (int i = 0; i < nr; ++i) {
      RelSpec r;
      if (i && g.chance(0.3) && gen_noisy(g, s, o, &r) && r.dist.rfind("sometimes_categorical", 0) != 0) {
      } else
        r = gen_clean(g, s, o);
      s.rels.push_back(r);
    }
    for (auto& r : s.rels) {
      r.observed = true;
      p.add(g, "rel", rel_args(r));
    }
    int cells = g.range(3, weak ? 6 : 11);
    for (int i = 0; i < cells; ++i) gen_obs(g, p, s);
    for (auto& r : s.rels)
      for (int t = 0; t < 6 && s.cells[r.name].empty(); ++t) gen_obs(g, p, s);
    static const char* alphas[] = {"0.3", "1", "1", "2.5"};
    p.add(g, "alpha", {alphas[g.below(4)], hirm ? "1" : alphas[g.below(4)]});
    static const std::vector<std::string> hk = {"rels", "rels", "sweep", "items", "relone", "relcrp"}, ik = {"items", "doms", "itemcrp"};
    // mode 0: from the exact posterior; mode 1: from its least likely state
    if (weak) p.add(g, "check", {hirm ? "sweep" : "items", "1", "60", tier ? "3000" : "500"});
    else p.add(g, "check", {hirm ? g.pick(hk) : g.pick(ik), "0", std::to_string(g.range(1, 4)), tier ? "12000" : "2500"});
  }
  void kernel(Model& m, const std::string& k, const std::vector<std::string>& rels, Rng& g, std::mt19937* prng) {
    auto items = [&]() {
      if (m.is_hirm)
        for (auto& [t, im] : m.irms()) im->transition_cluster_assignments_all(prng);
      else
        m.m->transition_cluster_assignments_all(prng);
    };
    if (k == "items") items();
    else if (k == "doms") {
      std::vector<std::string> ds;
      for (auto& [d, _] : m.m->domains) ds.push_back(d);
      m.m->transition_cluster_assignments(prng, ds);
    } else if (k == "itemcrp") {
      for (auto& [d, dm] : m.m->domains) dm->crp.transition_alpha(prng);
      items();
    } else if (k == "rels") m.h->transition_cluster_assignments_all(prng);
    else if (k == "relone") m.h->transition_cluster_assignments(prng, {rels[g.below(rels.size())]});
    else if (k == "relcrp") {
      m.h->crp.transition_alpha(prng);
      m.h->transition_cluster_assignments_all(prng);
    } else {
      m.h->transition_cluster_assignments_all(prng);
      items();
    }
  }
  // The grid the concentration moves use, with the score of the partition of
  // n customers under every value averaged in for the marginal of a partition.
  static std::vector<double> grid(int n) {
    std::vector<double> v;
    double a = std::log(1.0 / n), b = std::log(n + 1.0);
    for (int i = 0; i < 20; ++i) v.push_back(std::exp(a + (b - a) * i / 19.0));
    return v;
  }
  void run(const Plan& p, Ctx& c) override {
    Model m;
    double ra = 1, da = 1;
    for (const Step& s : p.steps) {
      if (s.op == "alpha") {
        ra = s.d(0), da = s.d(1);
        continue;
      }
      if (s.op != "check") {
        m.apply(s, c);
        continue;
      }
      if (!m.built()) return;
      scrutinise(s.i(1) == 1 ? 1 : 6, [&] { check(m, s, ra, da, c); });  // chains from a bad state need not have arrived
    }
  }
  void check(Model& m, const Step& s, double ra, double da, Ctx& c) {
    if (m.is_hirm && da != 1) return;
    std::vector<std::string> rels;
    std::map<std::string, std::map<std::string, std::set<int>>> ents;  // relation -> domain -> entities
    for (auto& [r, sp] : m.specs) {
      rels.push_back(r);
      for (auto& [items, v] : m.given[r])
        for (size_t i = 0; i < items.size(); ++i) ents[r][sp.domains[i]].insert(items[i]);
    }
    std::string kern = s.s(0);
    bool hi_rel = kern == "relcrp", hi_dom = kern == "itemcrp";
    if (!m.is_hirm && (kern == "rels" || kern == "sweep" || kern == "relone" || kern == "relcrp")) return;
    if (m.is_hirm && (kern == "doms" || kern == "itemcrp")) return;
    // Score of one relation given tables, cached.
    std::map<std::string, double> cache;
    auto rel_score = [&](const std::string& r, const std::map<std::string, std::map<int, int>>& z) {
      std::string k = r;
      for (auto& [d, es] : ents[r]) {
        k += " " + d;
        for (int e : es) k += strf(",%d", z.at(d).at(e));
      }
      auto it = cache.find(k);
      if (it != cache.end()) return it->second;
      return cache[k] = rebuild_relation_score(m.rel(r), m.specs.at(r).clean,
                                               [&](const std::string& d, int e) { return z.at(d).at(e); }, nullptr);
    };
    auto crp_marginal = [&](const std::vector<int>& sizes, double alpha, bool over_grid) {
      int n = 0;
      for (int k : sizes) n += k;
      if (!over_grid || n == 0) return crp_score(sizes, alpha);
      double t = 0;
      for (double a : grid(n)) t += std::exp(crp_score(sizes, a));
      return std::log(t);
    };
    // Enumerate.
    std::vector<std::vector<int>> rparts;
    if (m.is_hirm) partitions(rels.size(), &rparts);
    else rparts.push_back(std::vector<int>(rels.size(), 0));
    std::vector<State> st;
    const size_t LIM = 450;
    for (auto& rp : rparts) {
      int nb = *std::max_element(rp.begin(), rp.end()) + 1;
      std::vector<std::pair<int, std::string>> slots;
      std::vector<std::vector<int>> es;
      std::vector<std::vector<std::vector<int>>> ps;
      double combos = 1;
      for (int b = 0; b < nb; ++b) {
        std::map<std::string, std::set<int>> u;
        for (size_t i = 0; i < rels.size(); ++i)
          if (rp[i] == b)
            for (auto& [d, x] : ents[rels[i]]) u[d].insert(x.begin(), x.end());
        for (auto& [d, x] : u) {
          slots.push_back({b, d});
          es.push_back(std::vector<int>(x.begin(), x.end()));
          ps.push_back({});
          if (x.size() > 5) return;
          partitions(x.size(), &ps.back());
          combos *= ps.back().size();
        }
      }
      if (combos + st.size() > LIM) {
        c.count("too_large");
        return;
      }
      std::vector<int> rs(nb);
      for (int b : rp) ++rs[b];
      double base = m.is_hirm ? crp_marginal(rs, ra, hi_rel) : 0;
      std::vector<size_t> ix(slots.size(), 0);
      while (true) {
        State q;
        q.blocks = rp;
        q.score = base;
        std::vector<std::map<std::string, std::map<int, int>>> zb(nb);
        for (size_t i = 0; i < slots.size(); ++i) {
          std::vector<int> sz(es[i].size());
          for (size_t k = 0; k < es[i].size(); ++k) {
            int t = ps[i][ix[i]][k];
            q.z[slots[i]][es[i][k]] = t;
            zb[slots[i].first][slots[i].second][es[i][k]] = t;
            ++sz[t];
          }
          q.score += crp_marginal(sz, da, hi_dom);
        }
        for (size_t i = 0; i < rels.size(); ++i) q.score += rel_score(rels[i], zb[rp[i]]);
        st.push_back(std::move(q));
        size_t k = 0;
        while (k < slots.size() && ++ix[k] == ps[k].size()) ix[k++] = 0;
        if (k == slots.size()) break;
      }
    }
    std::vector<double> l;
    for (auto& q : st) l.push_back(q.score);
    std::vector<double> pr = normalise(l);
    std::map<std::string, size_t> index;
    for (size_t i = 0; i < st.size(); ++i) {
      auto& q = st[i];
      std::string k = key_of(
          rels, [&](const std::string& r) { return q.blocks[std::find(rels.begin(), rels.end(), r) - rels.begin()]; },
          [&](const std::string& r) {
            int b = q.blocks[std::find(rels.begin(), rels.end(), r) - rels.begin()];
            std::map<std::string, std::map<int, int>> o;
            for (auto& [sl, z] : q.z)
              if (sl.first == b) o[sl.second] = z;
            return o;
          });
      index[k] = i;
    }
    auto live_key = [&]() {
      return key_of(
          rels, [&](const std::string& r) { return m.is_hirm ? m.h->relation_to_table(r) : 0; },
          [&](const std::string& r) {
            std::map<std::string, std::map<int, int>> o;
            for (auto& [d, dm] : m.irm_of(r)->domains)
              for (auto& [e, t] : dm->crp.assignments) o[d][e] = t;
            return o;
          });
    };
    std::mt19937 prng = step_prng(s);
    Rng g((s.seed ^ 0x5bd1e995) + (scrutiny.factor - 1));
    int next_id = 1000;
    auto put = [&](const State& q, size_t qi) {
      std::map<int, int> ids;
      if (m.is_hirm)
        for (size_t i = 0; i < rels.size(); ++i) {
          if (!ids.count(q.blocks[i])) ids[q.blocks[i]] = next_id++;
          m.h->set_cluster_assignment_gibbs(&prng, rels[i], ids[q.blocks[i]]);
        }
      for (auto& [sl, z] : q.z) {
        IRM* im = m.is_hirm ? m.h->irms.at(ids[sl.first]) : m.m.get();
        std::map<int, int> tid;
        for (auto& [e, t] : z) {
          if (!tid.count(t)) tid[t] = next_id++;
          move_item(im, sl.second, e, tid[t]);
        }
      }
      auto pick_alpha = [&](CRP& crp, double fixed, bool over) {
        if (!over || crp.N == 0) {
          crp.alpha = fixed;
          return;
        }
        std::map<int, int> n;
        for (auto& [e, t] : crp.assignments) ++n[t];
        std::vector<int> sz;
        for (auto& [t, k] : n) sz.push_back(k);
        std::vector<double> gr = grid(crp.assignments.size()), lw;
        for (double a : gr) lw.push_back(crp_score(sz, a));
        lw = normalise(lw);
        double u = g.unit();
        size_t i = 0;
        while (i + 1 < lw.size() && u >= lw[i]) u -= lw[i++];
        crp.alpha = gr[i];
      };
      if (m.is_hirm) pick_alpha(m.h->crp, ra, hi_rel);
      for (auto& [t, im] : m.irms())
        for (auto& [d, dm] : im->domains) pick_alpha(dm->crp, da, hi_dom);
      auto it = index.find(live_key());
      if (it == index.end() || it->second != qi) c.fail("place", "setting cluster assignments did not lead to the requested state: " + live_key());
    };
    bool from_worst = s.i(1) == 1;
    int k = s.i(2), n = s.i(3) * (int)scrutiny.factor;
    size_t worst = std::min_element(pr.begin(), pr.end()) - pr.begin();
    if (from_worst && pr[worst] < 1e-7) return;
    std::vector<uint64_t> cnt(st.size());
    uint64_t moved = 0;
    for (int i = 0; i < n; ++i) {
      size_t b = 0;
      if (from_worst) b = worst;
      else {
        double u = g.unit();
        while (b + 1 < pr.size() && u >= pr[b]) u -= pr[b++];
      }
      put(st[b], b);
      for (int j = 0; j < k; ++j) kernel(m, kern, rels, g, &prng);
      auto it = index.find(live_key());
      if (it == index.end()) c.fail("unknown-state", "inference reached " + live_key() + ", which is not a partition of the data");
      ++cnt[it->second];
      moved += it->second != b;
    }
    c.count("kernel." + kern + (from_worst ? ".from_worst" : ".from_posterior"));
    c.count("kernel_applications", (uint64_t)n * k);
    c.count("states_enumerated", st.size());
    // Full joint when it is small; always the partition of relations and
    // each relation's own entity partition.
    auto verify = [&](const std::string& what, const std::function<std::string(const State&)>& f) {
      std::map<std::string, std::pair<uint64_t, double>> ag;
      for (size_t i = 0; i < st.size(); ++i) {
        auto& x = ag[f(st[i])];
        x.first += cnt[i];
        x.second += pr[i];
      }
      if (ag.size() < 2 || ag.size() > 80) return;
      std::vector<uint64_t> o;
      std::vector<double> e;
      std::string names;
      for (auto& [q, x] : ag) {
        o.push_back(x.first), e.push_back(x.second);
        if (names.size() < 300) names += " [" + q + "]";
      }
      std::string why;
      if (!g_ok(o, e, &why))
        c.fail("posterior." + what, "kernel " + kern + strf(" x%d, %d runs, ", k, n) + what + " over" + names + ": " + why);
    };
    verify("joint", [&](const State& q) {
      std::string o;
      for (int b : q.blocks) o += std::to_string(b);
      for (auto& [sl, z] : q.z) {
        o += strf(" %d%s:", sl.first, sl.second.c_str());
        for (auto& [e, t] : z) o += std::to_string(t);
      }
      return o;
    });
    verify("relations", [&](const State& q) {
      std::string o;
      for (int b : q.blocks) o += std::to_string(b);
      return o;
    });
    verify("blocks", [&](const State& q) {
      size_t o = 0;
      for (auto& [sl, z] : q.z) {
        std::set<int> t;
        for (auto& [e, x] : z) t.insert(x);
        o += t.size();
      }
      return std::to_string(o);
    });
    for (auto& r : rels)
      verify("entities-of-" + r, [&](const State& q) {
        std::string o;
        int b = q.blocks[std::find(rels.begin(), rels.end(), r) - rels.begin()];
        for (auto& [d, es] : ents[r]) {
          std::map<int, int> ren;
          o += d;
          for (int e : es) {
            int t = q.z.at({b, d}).at(e);
            if (!ren.count(t)) {
              int y = ren.size();
              ren[t] = y;
            }
            o += std::to_string(ren[t]);
          }
        }
        return o;
      });
    if (n > 100 && (kern != "items" || !m.is_hirm))
      if (moved == 0 && pr[std::max_element(pr.begin(), pr.end()) - pr.begin()] < 0.9)
        c.fail("stuck", "kernel " + kern + " never left its state");
    c.nontrivial = st.size() > 2;
    c.state(hash_str(strf("%zu %.9g %s", st.size(), pr[worst], kern.c_str())));
    std::string lg;
    for (auto x : cnt) lg += std::to_string(x) + " ";
    c.log(kern + " " + lg);
  }
  std::vector<std::string> real_components() override {
    return {"hirm.cc relation moves", "irm.cc entity moves", "relations", "domains and CRP", "distributions and emissions with order-free scores"};
  }
  std::vector<std::string> stub_components() override { return {"random numbers (seeded)"}; }
  std::string rule() override {
    return "one case = one small model whose every partition of relations and entities is enumerated and scored from scratch; the model is "
           "put into states drawn from that posterior (or, for weak data, into its least likely state), a kernel is run, and the states it ends in "
           "are compared with the posterior (likelihood-ratio test, false alarm below 1e-12); non-trivial when there are more than two states";
  }
  int default_runs(int tier) override { return tier ? 8000 : 500; }
};
std::unique_ptr<World> make_gibbs_world(const std::string& p) {
  if (p == "P04") return std::make_unique<GibbsWorld>();
  return std::make_unique<PosteriorWorld>();
}
}  // namespace sim
