// P06: latent values: coherence after the move, and the frequencies of the
// proposed values against scores rebuilt from scratch.
#include <algorithm>
#include <cmath>

#include "model.hh"
#include "transition_latent_value.hh"
#include "worlds.hh"

namespace sim {
namespace {
// Score of a relation with the value of base cell `cell` of relation `base`
// replaced by v wherever it occurs: in the base relation's own data, and as
// the clean side of the noisy pairs over it.
template <class V>
double score_with(Model& m, const std::string& r, const std::string& base, const std::vector<int>& cell, const V& v) {
  const RelSpec& sp = m.specs.at(r);
  double total = 0;
  with_clean(m.rel(r), sp.clean, [&](auto* cr, auto) {
    using T = typename std::remove_pointer_t<decltype(cr)>::ValueType;
    std::map<std::vector<int>, std::vector<std::pair<std::vector<int>, T>>> groups;
    for (auto& [items, x0] : cr->data) {
      T x = x0;
      if (r == base) {
        if (items == cell) {
          if constexpr (std::is_same_v<T, V>) x = v;
          if constexpr (std::is_same_v<T, std::pair<V, V>>) x.second = v;
        }
      } else if (sp.base == base && std::equal(cell.begin(), cell.end(), items.begin())) {
        if constexpr (std::is_same_v<T, std::pair<V, V>>) x.first = v;
      }
      std::vector<int> z;
      for (size_t i = 0; i < items.size(); ++i) z.push_back(cr->domains[i]->crp.assignments.at(items[i]));
      groups[z].push_back({items, x});
    }
    for (auto& [z, vs] : groups) {
      std::sort(vs.begin(), vs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      std::mt19937 tmp(7);
      std::unique_ptr<Distribution<T>> f(cr->make_new_distribution(&tmp));
      auto it = cr->clusters.find(z);
      if (it != cr->clusters.end()) copy_hypers<T>(it->second, f.get());
      for (auto& [i, x] : vs) f->incorporate(x);
      total += f->logp_score();
    }
  });
  return total;
}
bool near(const std::string& a, const std::string& b) { return a == b; }
bool near(double a, double b) { return std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a)); }
bool near(int a, int b) { return a == b; }
bool near(bool a, bool b) { return a == b; }
}  // namespace

struct LatentWorld : World {
  void generate(Rng& g, Plan& p, int tier) override {
    GenOpts o;
    GenState s;
    o.nonconj = false;
    o.heavy = g.chance(0.25);
    bool focus = g.chance(0.65);
    p.add(g, "kind", {g.chance(0.7) ? "hirm" : "irm"});
    if (!focus) {
      gen_schema(g, p, s, o);
      for (int i = 0; i < 25; ++i) gen_obs(g, p, s);
    } else {
      o.max_arity = 2;
      s.entities = g.range(1, 4);
      int nd = g.range(1, 2);
      for (int i = 0; i < nd; ++i) s.doms.push_back("D" + std::to_string(i));
      RelSpec b;
      b.name = std::string(1, 'a' + g.below(26)) + "0";
      b.clean = true;
      b.dist = "normal";
      b.type = ObservationEnum::double_type;
      b.observed = false;
      for (int i = g.range(1, 2); i > 0; --i) b.domains.push_back(g.pick(s.doms));
      s.names = 1;
      s.rels.push_back(b);
      int nn = g.range(2, 4);
      for (int i = 0; i < nn; ++i) {
        RelSpec r;
        r.name = std::string(1, 'a' + g.below(26)) + std::to_string(s.names++);
        r.clean = false;
        r.base = g.chance(0.12) ? s.rels.back().name : b.name;
        if (r.base != b.name) s.rels.back().observed = false;
        r.type = ObservationEnum::double_type;
        r.domains = s.find(r.base)->domains;
        if (r.domains.size() < 3 && g.chance(0.5)) r.domains.push_back(g.pick(s.doms));
        r.dist = g.chance(0.5) ? "gaussian" : "sometimes_gaussian";
        s.rels.push_back(r);
      }
      if (g.chance(0.3)) s.rels.push_back(gen_clean(g, s, o));
      for (auto& r : s.rels) p.add(g, "rel", rel_args(r));
      std::vector<std::string> vals = {"0.5", "2", "-1.25"};
      int cells = g.range(6, 22);
      for (int i = 0; i < cells; ++i) {
        size_t at = p.steps.size();
        gen_obs(g, p, s);
        for (; at < p.steps.size(); ++at)
          if (s.find(p.steps[at].a[0])->type == ObservationEnum::double_type && g.chance(0.9))
            p.steps[at].a[2] = g.chance(0.6) ? vals[0] : vals[g.below(3)];
      }
    }
    int ops = g.range(0, 8);
    for (int i = 0; i < ops; ++i) {
      const RelSpec& r = s.rels[g.below(s.rels.size())];
      double u = g.unit();
      if (u < 0.25) p.add(g, "irmall", {r.name});
      else if (u < 0.4) p.add(g, "hparams", {r.name, "1"});
      else if (u < 0.6) p.add(g, "move", {r.name});
      else if (u < 0.7) p.add(g, "unobs", {r.name, "0"});
      else p.add(g, "latent", {r.clean || s.has_children(r.name) ? r.name : r.base});
    }
    for (int i = g.range(1, 4); i > 0; --i) {
      std::vector<std::string> bs;
      for (auto& r : s.rels)
        if (s.has_children(r.name) && !r.observed) bs.push_back(r.name);
      if (bs.empty()) break;
      p.add(g, "probe", {g.pick(bs), std::to_string(g.below(16)), tier ? "4000" : "1000"});
    }
  }
  template <class V>
  void probe(Model& m, const Step& s, Relation<V>* base, Ctx& c) {
    const std::string& b = s.s(0);
    std::vector<std::vector<int>> cells;
    for (auto& [items, v] : base->get_data()) cells.push_back(items);
    std::sort(cells.begin(), cells.end());
    if (cells.empty()) return;
    std::vector<int> cell = cells[s.i(1) % cells.size()];
    std::unordered_map<std::string, NoisyRelation<V>*> noisy;
    std::vector<std::pair<std::vector<int>, V>> obs;
    std::vector<std::pair<NoisyRelation<V>*, std::vector<int>>> held;
    bool inexact = false;
    for (auto& [n, sp] : m.specs)
      if (!sp.clean && sp.base == b) {
        auto* nr = dynamic_cast<NoisyRelation<V>*>(std::get<Relation<V>*>(m.rel(n)));
        noisy[n] = nr;
        inexact |= sp.dist == "bigram" || sp.dist.rfind("sometimes_categorical", 0) == 0;
        for (auto& [items, v] : nr->get_data())
          if (std::equal(cell.begin(), cell.end(), items.begin())) {
            obs.push_back({items, v});
            held.push_back({nr, items});
          }
      }
    if (!m.specs.at(b).clean && (m.specs.at(b).dist == "bigram" || m.specs.at(b).dist.rfind("sometimes_categorical", 0) == 0)) inexact = true;
    std::mt19937 prng = step_prng(s);
    if (noisy.empty()) return;
    if (obs.empty()) {
      V before = base->get_value(cell);
      transition_latent_value(&prng, cell, base, noisy);
      if (!near(before, base->get_value(cell))) c.fail("latent-unseen", b + "[" + ints(cell) + "]: changed although nothing observes it");
      return;
    }
    if (inexact) {
      for (int i = 0; i < 3; ++i) transition_latent_value(&prng, cell, base, noisy);
      return;
    }
    // What each noise cluster proposes, for several orders of the evidence;
    // where the order matters the proposal is not determined and the cell is
    // only checked for coherence.
    std::vector<V> cand;
    bool ambiguous = false;
    for (auto& [nr, items] : held) nr->unincorporate_from_cluster(items);
    for (auto& [n, nr] : noisy)
      for (auto& [z, em] : nr->get_emission_clusters()) {
        std::vector<V> vs;
        for (auto& o : obs) vs.push_back(o.second);
        std::sort(vs.begin(), vs.end());
        bool first = true;
        V p0{};
        Rng g(s.seed);
        for (int k = 0; k < 8; ++k) {
          V q = base->nearest(&prng, em->propose_clean(vs, &prng), cell);
          if (first) p0 = q;
          else if (!near(p0, q)) ambiguous = true;
          first = false;
          if (k == 0) std::reverse(vs.begin(), vs.end());
          else
            for (size_t i = vs.size(); i > 1; --i) {
              size_t j = g.below(i);
              V t = vs[i - 1];
              vs[i - 1] = vs[j];
              vs[j] = t;
            }
        }
        cand.push_back(p0);
      }
    for (size_t i = 0; i < held.size(); ++i) held[i].first->incorporate_to_cluster(held[i].second, obs[i].second);
    std::vector<V> uniq;
    std::vector<double> lp;
    for (auto q : cand) {
      size_t k = 0;
      while (k < uniq.size() && !near(V(uniq[k]), V(q))) ++k;
      if (k == uniq.size()) {
        uniq.push_back(q);
        double sc = score_with<V>(m, b, b, cell, V(q));
        for (auto& [n, nr] : noisy) sc += score_with<V>(m, n, b, cell, V(q));
        lp.push_back(sc);
      } else
        continue;
    }
    for (size_t k = 0; k < uniq.size(); ++k) {
      int mult = 0;
      for (auto q : cand) mult += near(V(q), V(uniq[k]));
      lp[k] += std::log((double)mult);
    }
    double mx = *std::max_element(lp.begin(), lp.end()), tot = 0;
    std::vector<double> pr;
    for (double x : lp) tot += std::exp(x - mx);
    for (double x : lp) pr.push_back(std::exp(x - mx) / tot);
    int n = uniq.size() > 1 && !ambiguous ? s.i(2) * (int)scrutiny.factor : 4;
    std::vector<uint64_t> cnt(uniq.size());
    for (int i = 0; i < n; ++i) {
      transition_latent_value(&prng, cell, base, noisy);
      V got = base->get_value(cell);
      size_t k = 0;
      while (k < uniq.size() && !near(V(uniq[k]), got)) ++k;
      if (k == uniq.size()) {
        if (ambiguous) continue;
        c.fail("latent-foreign", b + "[" + ints(cell) + "]: took value " + vstr(got) + ", which no noise cluster proposes");
      }
      ++cnt[k];
    }
    c.count("kernel_draws", n);
    c.count(ambiguous ? "probe.ambiguous" : strf("probe.candidates%zu", std::min<size_t>(uniq.size(), 4)));
    if (!ambiguous && uniq.size() > 1) {
      std::string why, nm;
      for (auto q : uniq) nm += " " + vstr(V(q));
      if (!g_ok(cnt, pr, &why)) c.fail("latent-conditional", b + "[" + ints(cell) + "], candidates" + nm + ": " + why);
      double top = *std::max_element(pr.begin(), pr.end());
      c.nontrivial |= top < 0.99;
    }
    c.log("probe " + b + " " + ints(cell) + strf(" %zu %.6g", uniq.size(), pr[0]));
    c.state(hash_str(strf("%zu %.9g", uniq.size(), pr[0])));
  }
  void run(const Plan& p, Ctx& c) override {
    Model m;
    for (const Step& s : p.steps) {
      bool latent = s.op == "latent" || s.op == "probe";
      std::map<std::string, std::map<std::vector<int>, std::string>> before;
      if (latent && m.built())
        for (auto& [n, sp] : m.specs)
          if (n != s.s(0))
            for (auto& [items, v] : m.given[n]) before[n][items] = from_value(m.value(n, items));
      bool done;
      if (s.op == "probe") {
        done = m.built() && m.specs.count(s.s(0)) && m.has_children(s.s(0)) && !m.specs.at(s.s(0)).observed;
        if (done) {
          scrutinise(12, [&] { std::visit([&](auto* rel) { probe(m, s, rel, c); }, m.rel(s.s(0))); });
        }
      } else
        done = m.apply(s, c);
      if (!done) continue;
      c.count("op." + s.op);
      if (!latent) continue;
      for (auto& [n, cells] : before)
        for (auto& [items, v] : cells)
          if (from_value(m.value(n, items)) != v) c.fail("latent-bystander", n + "[" + ints(items) + "] changed while " + s.s(0) + " was resampled");
      check_data(m, c);
      check_structure(m, c);
      check_stats(m, c);
      if (s.op == "latent") {
        c.nontrivial = true;
        c.log("latent " + data_digest(m));
        c.state(hash_str(data_digest(m)));
      }
    }
  }
  std::vector<std::string> real_components() override {
    return {"transition_latent_value.hh", "noisy and clean relations", "hirm.cc / irm.cc", "all emissions", "distributions"};
  }
  std::vector<std::string> stub_components() override { return {"random numbers (seeded per step)"}; }
  std::string rule() override {
    return "one case = one random model with latent base relations brought to a random state; latent values are resampled, after every move "
           "base, noisy pairs and all statistics are rebuilt and compared, and chosen cells are resampled many times and compared with the "
           "enumerated conditional over their proposals (false alarm below 1e-12); non-trivial when a latent sweep ran or a cell had several live candidates";
  }
  int default_runs(int tier) override { return tier ? 60000 : 3000; }
};
std::unique_ptr<World> make_latent_world(const std::string&) { return std::make_unique<LatentWorld>(); }
}  // namespace sim
