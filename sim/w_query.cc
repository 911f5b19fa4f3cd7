// P16 forward sampling, P18 held-out scoring.
#include <algorithm>
#include <cmath>

#include "distributions/dirichlet_categorical.hh"
#include "distributions/skellam.hh"
#include "distributions/stringcat.hh"
#include "held.hh"
#include "model.hh"
#include "worlds.hh"

namespace sim {
namespace {
typedef std::map<std::string, std::map<std::vector<int>, ObservationVariant>> Data;
Data data_of(const Model& m) {
  Data d;
  for (auto& [r, sp] : m.specs) {
    auto& x = d[r];
    std::visit([&](auto* q) { for (auto& [i, v] : q->get_data()) x[i] = ObservationVariant(v); }, m.rel(r));
  }
  return d;
}
// Values a discrete relation can take; empty when they cannot be listed.
std::vector<std::string> domain_of(const RelSpec& r) {
  if (!r.clean) return {};
  if (r.dist.rfind("bernoulli", 0) == 0) return {"0", "1"};
  if (r.dist.rfind("categorical", 0) == 0) {
    std::vector<std::string> v;
    int k = std::stoi(r.dist.substr(r.dist.find("k=") + 2));
    for (int i = 0; i < k; ++i) v.push_back(std::to_string(i));
    return v;
  }
  if (r.dist.rfind("stringcat", 0) == 0) {
    auto a = r.dist.find("strings=") + 8;
    return split(r.dist.substr(a, r.dist.find_first_of(",)", a) - a), ' ');
  }
  return {};
}
std::string in_support(const RelSpec& root, const ObservationVariant& v, bool clean) {
  if (auto* d = std::get_if<double>(&v)) return std::isfinite(*d) ? "" : "a number that is not finite";
  if (!clean) return "";
  std::string s = std::get_if<std::string>(&v) ? std::get<std::string>(v) : std::get_if<bool>(&v) ? (std::get<bool>(v) ? "1" : "0") : std::to_string(std::get<int>(v));
  auto dom = domain_of(root);
  if (!dom.empty()) return std::find(dom.begin(), dom.end(), s) == dom.end() ? "a value outside its domain" : "";
  if (auto* t = std::get_if<std::string>(&v)) {
    bool nat = root.dist.rfind("string_nat", 0) == 0;
    size_t lim = nat ? 20 : root.dist.rfind("bigram", 0) == 0 ? 80 : 1000;
    auto p = root.dist.find("maxlength=");
    if (p != std::string::npos) lim = std::stoul(root.dist.substr(p + 10));
    if (t->size() > lim) return "a string longer than its maximum length";
    for (char ch : *t)
      if (nat ? !isdigit(ch) : (ch < ' ' || ch > '~')) return strf("a character (code %d) outside its alphabet", (int)ch);
  }
  return "";
}
bool reported(const std::string& s, const ObservationVariant& v) {
  if (auto* d = std::get_if<double>(&v)) {
    if (!std::isfinite(*d)) return true;
    double x = strtod(s.c_str(), nullptr);
    return std::fabs(x - *d) <= 1e-4 * (1e-300 + std::fabs(*d)) + 1e-300;
  }
  if (auto* t = std::get_if<std::string>(&v)) return s == *t;
  if (auto* t = std::get_if<bool>(&v)) return s == (*t ? "1" : "0");
  return s == std::to_string(std::get<int>(v));
}
// Undoing the bigram string emission is not exact (P20), which would show here.
bool scores_exact(const Model& m) {
  for (auto& [r, sp] : m.specs)
    if (!sp.clean && sp.dist.rfind("bigram", 0) == 0) return false;
  return true;
}
std::map<std::string, double> hypers_of(const Model& m) {
  std::map<std::string, double> o;
  for (auto& [t, im] : m.irms()) {
    for (auto& [d, p] : im->domains) o[std::to_string(t) + d] = p->crp.alpha;
    for (auto& [r, rv] : im->relations) {
      if (!m.specs.at(r).clean && m.specs.at(r).dist.rfind("bigram", 0) == 0) continue;
      with_clean(rv, m.specs.at(r).clean, [&](auto* cr, auto) {
        for (auto& [z, cl] : cr->clusters) o[r + "[" + ints(z) + "]"] = cl->logp_score();
        return 0;
      });
    }
  }
  return o;
}
bool same(const std::map<std::string, double>& a, const std::map<std::string, double>& b) {
  if (a.size() != b.size()) return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
    if (i->first != j->first || !(close(i->second, j->second, 1e-9) || (std::isnan(i->second) && std::isnan(j->second)))) return false;
  return true;
}
}  // namespace

struct QueryWorld : World {
  std::string prop;
  explicit QueryWorld(std::string p) : prop(std::move(p)) {}

  void generate(Rng& g, Plan& p, int tier) override {
    GenOpts o;
    GenState s;
    bool sample = prop == "P16";
    p.add(g, "kind", {sample || g.chance(0.6) ? "hirm" : "irm"});
    o.noisy = g.chance(sample ? 0.7 : 0.4);
    o.heavy = g.chance(sample ? 0.25 : 0.1);
    o.nonconj = sample;
    if (!sample && g.chance(0.5)) o.max_domains = 1;
    gen_schema(g, p, s, o);
    HistOpts ho;
    gen_history(g, p, s, o, g.range(4, tier ? 40 : 18), ho);
    for (int i = g.range(1, 4); i > 0; --i) {
      if (sample) p.add(g, "fsample", {std::to_string(g.chance(0.1) ? 0 : g.range(1, 6))});
      else p.add(g, "ask", {std::to_string(g.range(2, 8))});
      if (s.rels.empty()) break;
      // more history, including the sampled cells
      Plan q;
      HistOpts h2;
      h2.grow = g.chance(0.3);
      gen_history(g, q, s, o, g.range(1, 6), h2);
      size_t cut = q.steps.size() > 8 ? q.steps.size() - 8 : 0;
      for (size_t k = cut; k < q.steps.size(); ++k) p.steps.push_back(q.steps[k]);
    }
    if (sample) p.add(g, "fsample", {std::to_string(g.range(1, 5))});
  }

  // ------------------------------------------------------------ P16
  void fsample(Model& m, const Step& s, Ctx& c) {
    std::mt19937 prng = step_prng(s);
    int n = s.i(0);
    Data a = data_of(m);
    T_encoded_observations obs = m.h->sample_and_incorporate(&prng, n);
    Data b = data_of(m);
    std::map<std::string, std::set<std::vector<int>>> fresh;
    for (auto& [r, x] : a)
      for (auto& [i, v] : x) {
        auto f = b[r].find(i);
        if (f == b[r].end()) c.fail("cell-lost", r + ": sampling removed the cell [" + ints(i) + "]");
        if (!(f->second == v)) c.fail("value-changed", r + ": sampling changed the value at [" + ints(i) + "] from " + from_value(v) + " to " + from_value(f->second));
      }
    for (auto& [r, x] : b)
      for (auto& [i, v] : x)
        if (!a[r].count(i)) fresh[r].insert(i);
    std::map<std::string, std::set<std::vector<int>>> need;
    // Needs propagate from leaves to bases; names are processed until stable.
    for (auto& [r, sp] : m.specs) {
      bool leaf = !m.has_children(r);
      if (leaf) {
        if ((int)fresh[r].size() != n) c.fail("sample-count", r + strf(": %d new cells were asked for, %zu appeared", n, fresh[r].size()));
        if ((int)obs[r].size() != n) c.fail("sample-count", r + strf(": %d new cells were asked for, %zu are reported", n, obs[r].size()));
        std::set<std::vector<int>> rep;
        for (auto& [items, v] : obs[r]) {
          if (!rep.insert(items).second) c.fail("sample-report", r + ": [" + ints(items) + "] is reported twice");
          if (!fresh[r].count(items)) c.fail("sample-report", r + ": [" + ints(items) + "] is reported but not new");
          if (!reported(v, b[r].at(items))) c.fail("sample-report", r + ": reported value " + v + ", stored " + from_value(b[r].at(items)));
        }
      } else if (obs.count(r) && !obs[r].empty()) c.fail("sample-report", r + ": a relation others depend on is reported");
    }
    bool again = true;
    while (again) {
      again = false;
      for (auto& [r, sp] : m.specs) {
        if (sp.clean) continue;
        std::set<std::vector<int>> src = m.has_children(r) ? need[r] : fresh[r];
        size_t w = m.specs.at(sp.base).domains.size();
        for (auto& i : src) {
          std::vector<int> bi(i.begin(), i.begin() + w);
          if (!a[sp.base].count(bi) && need[sp.base].insert(bi).second) again = true;
        }
      }
    }
    for (auto& [r, sp] : m.specs) {
      if (!m.has_children(r)) continue;
      if (fresh[r] != need[r])
        c.fail("base-cells", r + strf(": %zu base cells were needed, %zu were added", need[r].size(), fresh[r].size()));
    }
    for (auto& [r, x] : fresh) {
      const RelSpec* root = &m.specs.at(r);
      while (!root->clean) root = &m.specs.at(root->base);
      for (auto& i : x) {
        auto why = in_support(*root, b[r].at(i), m.specs.at(r).clean);
        if (!why.empty()) {
          bool dof = why.find("finite") != std::string::npos && m.specs.at(r).dist.find("gaussian") != std::string::npos;
          c.fail(dof ? "sample-support:gaussian" : "sample-support", r + " (" + m.specs.at(r).dist + "): sampled " + why + ": " + from_value(b[r].at(i)));
        }
      }
      if (!x.empty()) c.nontrivial = true;
      c.count("cells_sampled", x.size());
    }
    for (auto& [r, x] : b) m.given[r] = x;
    scrutinise(12, [&] { frequencies(m, s, c); });
  }
  // Values sampled at a cell follow the predictive probabilities of the
  // cluster the cell falls in (its own prior when there is none).
  void frequencies(Model& m, const Step& s, Ctx& c) {
    Rng g(s.seed ^ 3);
    for (auto& [r, sp] : m.specs) {
      auto dom = domain_of(sp);
      if (dom.empty() || !g.chance(0.3)) continue;
      std::visit(
          [&](auto* q) {
            using T = typename std::remove_pointer_t<decltype(q)>::ValueType;
            auto* cr = dynamic_cast<CleanRelation<T>*>(q);
            if (!cr) return;
            std::vector<int> items, z;
            for (auto* d : cr->domains) {
              std::vector<int> es(d->items.begin(), d->items.end());
              if (es.empty()) return;
              std::sort(es.begin(), es.end());
              items.push_back(g.pick(es));
              z.push_back(d->crp.assignments.at(items.back()));
            }
            std::mt19937 tmp(7);
            std::unique_ptr<Distribution<T>> f(cr->make_new_distribution(&tmp));
            auto it = cr->clusters.find(z);
            if (it != cr->clusters.end()) {
              copy_hypers<T>(it->second, f.get());
              for (auto& [i, v] : cr->data) {
                std::vector<int> zz;
                for (size_t k = 0; k < i.size(); ++k) zz.push_back(cr->domains[k]->crp.assignments.at(i[k]));
                if (zz == z) f->incorporate(v);
              }
            }
            std::vector<double> p;
            for (auto& v : dom) p.push_back(std::max(1e-9, std::exp(f->logp(std::get<T>(to_value(sp.type, v))))));
            std::vector<uint64_t> n(dom.size(), 0);
            std::mt19937 prng((uint32_t)g.next() + 7919 * (uint32_t)(scrutiny.factor - 1));
            for (int k = 0; k < 1500 * (int)scrutiny.factor; ++k) {
              T v = cr->sample_at_items(&prng, items);
              for (size_t j = 0; j < dom.size(); ++j)
                if (std::get<T>(to_value(sp.type, dom[j])) == v) ++n[j];
            }
            std::string why;
            c.count("frequency_tests");
            if (!g_ok(n, p, &why)) c.fail("sample-frequency", r + ": values sampled at [" + ints(items) + "] do not follow their cluster: " + why);
          },
          m.rel(r));
    }
  }

  // ------------------------------------------------------------ P18
  double ask_logp(Model& m, const std::vector<std::tuple<std::string, std::vector<int>, ObservationVariant>>& o, uint64_t seed) {
    std::mt19937 prng((uint32_t)seed);
    return m.is_hirm ? m.h->logp(o, &prng) : m.m->logp(o, &prng);
  }
  // Own computation for one observation with at most one new entity per domain.
  double expect(Model& m, const std::string& r, const std::vector<int>& items, const std::string& val) {
    const RelSpec& sp = m.specs.at(r);
    double total = 0;
    std::visit(
        [&](auto* q) {
          using T = typename std::remove_pointer_t<decltype(q)>::ValueType;
          auto* cr = dynamic_cast<CleanRelation<T>*>(q);
          T v = std::get<T>(to_value(sp.type, val));
          // candidate tables of each distinct (domain, entity)
          std::vector<std::pair<Domain*, int>> keys;
          std::vector<std::vector<std::pair<int, double>>> cand;
          for (size_t k = 0; k < items.size(); ++k) {
            Domain* d = cr->domains[k];
            std::pair<Domain*, int> key{d, items[k]};
            if (std::find(keys.begin(), keys.end(), key) != keys.end()) continue;
            keys.push_back(key);
            std::vector<std::pair<int, double>> ts;
            auto it = d->crp.assignments.find(items[k]);
            if (it != d->crp.assignments.end()) ts.push_back({it->second, 1.0});
            else {
              double Z = d->crp.assignments.size() + d->crp.alpha;
              std::map<int, int> n;
              for (auto& [e, t] : d->crp.assignments) ++n[t];
              for (auto& [t, kk] : n) ts.push_back({t, kk / Z});
              ts.push_back({-7, d->crp.alpha / Z});
            }
            cand.push_back(ts);
          }
          std::vector<size_t> idx(keys.size(), 0);
          while (true) {
            double w = 1;
            for (size_t k = 0; k < keys.size(); ++k) w *= cand[k][idx[k]].second;
            std::vector<int> z;
            for (size_t k = 0; k < items.size(); ++k) {
              size_t j = std::find(keys.begin(), keys.end(), std::pair<Domain*, int>{cr->domains[k], items[k]}) - keys.begin();
              z.push_back(cand[j][idx[j]].first);
            }
            std::mt19937 tmp(7);
            std::unique_ptr<Distribution<T>> f(cr->make_new_distribution(&tmp));
            auto it = cr->clusters.find(z);
            if (it != cr->clusters.end()) {
              copy_hypers<T>(it->second, f.get());
              for (auto& [i, x] : cr->data) {
                std::vector<int> zz;
                for (size_t k = 0; k < i.size(); ++k) zz.push_back(cr->domains[k]->crp.assignments.at(i[k]));
                if (zz == z) f->incorporate(x);
              }
            }
            total += w * std::exp(f->logp(v));
            size_t k = 0;
            while (k < idx.size() && ++idx[k] == cand[k].size()) idx[k++] = 0;
            if (k == idx.size()) break;
          }
        },
        m.rel(r));
    return std::log(total);
  }
  void ask(Model& m, const Step& s, Ctx& c, const GenState& gs) {
    Rng g(s.seed);
    std::vector<std::string> rs;
    for (auto& [r, sp] : m.specs)
      if (sp.clean && sp.dist.rfind("skellam", 0) != 0 && sp.dist.rfind("string_skellam", 0) != 0) rs.push_back(r);
    if (rs.empty()) return;
    std::string digest = partition_digest(m) + data_digest(m);
    auto hyp = hypers_of(m);
    double score = m.score();
    auto rnd_items = [&](const RelSpec& sp, int fresh) {
      std::vector<int> it;
      for (size_t k = 0; k < sp.domains.size(); ++k) it.push_back(fresh && g.chance(0.5) ? 100 + (int)g.below(2) : (int)g.below(6));
      return it;
    };
    std::string did;
    for (int q = s.i(0); q > 0; --q) {
      const RelSpec& sp = m.specs.at(g.pick(rs));
      auto items = rnd_items(sp, g.chance(0.5));
      IRM* im = m.irm_of(sp.name);
      std::map<std::string, std::set<int>> news;
      for (size_t k = 0; k < items.size(); ++k)
        if (!im->domains.at(sp.domains[k])->crp.assignments.count(items[k])) news[sp.domains[k]].insert(items[k]);
      size_t most = 0;
      for (auto& [d, x] : news) most = std::max(most, x.size());
      auto dom = domain_of(sp);
      if (!dom.empty()) {
        double tot = 0;
        for (auto& v : dom) tot += std::exp(ask_logp(m, {{sp.name, items, to_value(sp.type, v)}}, s.seed + q));
        if (std::fabs(tot - 1) > 1e-7)
          c.fail("not-normalised", sp.name + " at [" + ints(items) + strf("]: probabilities of all values of one cell sum to %.9g", tot));
        // the relation's own answer
        tot = 0;
        for (auto& v : dom)
          tot += std::exp(std::visit([&](auto* x) {
            using T = typename std::remove_pointer_t<decltype(x)>::ValueType;
            std::mt19937 prng(5);
            return x->logp(items, std::get<T>(to_value(sp.type, v)), &prng);
          }, m.rel(sp.name)));
        if (std::fabs(tot - 1) > 1e-7)
          c.fail("not-normalised", sp.name + " at [" + ints(items) + strf("]: probabilities of all values by Relation::logp sum to %.9g", tot));
        c.count("normalisations");
        // two held-out cells at once
        const RelSpec& s2 = m.specs.at(g.pick(rs));
        auto dom2 = domain_of(s2);
        auto items2 = rnd_items(s2, g.chance(0.5));
        if (!dom2.empty() && !(s2.name == sp.name && items2 == items)) {
          tot = 0;
          for (auto& v : dom)
            for (auto& w : dom2)
              tot += std::exp(ask_logp(m, {{sp.name, items, to_value(sp.type, v)}, {s2.name, items2, to_value(s2.type, w)}}, s.seed + q));
          if (std::fabs(tot - 1) > 1e-6)
            c.fail("not-normalised", sp.name + strf(" and another cell: joint probabilities of all values sum to %.9g", tot));
          c.count("normalisations");
        }
      }
      std::string v = dom.empty() ? gen_value(g, sp, gs) : g.pick(dom);
      double lp = ask_logp(m, {{sp.name, items, to_value(sp.type, v)}}, s.seed + q);
      if (!std::isfinite(lp) && sp.dist.rfind("normal", 0) != 0) c.fail("logp-undefined", sp.name + strf(": held-out log probability is %g", lp));
      if (most <= 1) {
        double ex = expect(m, sp.name, items, v);
        if (!close(lp, ex, 1e-6))
          c.fail(news.empty() ? "predictive" : "predictive-new", sp.name + " at [" + ints(items) + "] value " + v + strf(": log probability %.12g, from its cluster%s %.12g", lp, news.empty() ? "" : "s", ex));
        c.count("predictives");
      }
      c.nontrivial = true;
    }
    // Several cells at once, over all sub-models.
    for (int q = g.range(1, 3); q > 0; --q) {
      std::vector<HeldLine> lines;
      std::vector<std::tuple<std::string, T_items, ObservationVariant>> o;
      std::set<std::pair<std::string, std::vector<int>>> had;
      bool fresh = g.chance(0.3);
      for (int k = g.range(2, 7); k > 0; --k) {
        const RelSpec& sp = m.specs.at(g.pick(rs));
        auto items = rnd_items(sp, fresh && g.chance(0.3));
        auto dom = domain_of(sp);
        if (!had.insert({sp.name, items}).second) continue;
        std::string v = dom.empty() ? gen_value(g, sp, gs) : g.pick(dom);
        lines.push_back({sp.name, items, to_value(sp.type, v)});
        o.push_back({sp.name, items, to_value(sp.type, v)});
      }
      std::map<std::string, std::set<int>> news;
      size_t combos = 1;
      for (auto& l : lines)
        for (size_t k = 0; k < l.items.size(); ++k) {
          auto& dm = m.specs.at(l.relation).domains[k];
          auto& crp = m.irm_of(l.relation)->domains.at(dm)->crp;
          if (!crp.assignments.count(l.items[k]) && news[dm + "/" + std::to_string(m.is_hirm ? m.h->relation_to_code.at(l.relation) : 0)].insert(l.items[k]).second) combos *= crp.tables.size() + 1;
        }
      if (combos > 5000) continue;
      double lp = ask_logp(m, o, s.seed + q);
      if (std::isnan(lp)) continue;
      for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.below(i)]);
      double other = ask_logp(m, o, s.seed + q);
      if (!close(lp, other, 1e-9)) c.fail("batch-order", strf("the log probability of %zu held-out cells is %.12g, in another order %.12g", o.size(), lp, other));
      bool exact = true;
      double e = held_reference([&](const std::string& r) { return m.irm_of(r); }, lines, &exact);
      c.count("batches");
      if (!exact) continue;
      c.count("exact_batches");
      if (!close(lp, e, 1e-6)) c.fail("batch", strf("the log probability of %zu held-out cells is %.12g, from their clusters %.12g", o.size(), lp, e));
    }
    if (partition_digest(m) + data_digest(m) != digest || !same(hyp, hypers_of(m))) c.fail("query-changed", "scoring held-out data changed the model");
    if (scores_exact(m) && !close(m.score(), score, 1e-9)) c.fail("query-changed", strf("scoring held-out data changed the score from %.12g to %.12g", score, m.score()));
  }

  void run(const Plan& p, Ctx& c) override {
    Model m, twin;
    GenState gs;
    for (auto& s : p.steps)
      if (s.op == "rel") gs.rels.push_back(rel_parse(s));
    for (auto& s : p.steps) {
      if (s.op == "fsample") {
        if (!m.built() || !m.is_hirm) continue;
        fsample(m, s, c);
        c.count("op.fsample");
      } else if (s.op == "ask") {
        if (!m.built()) continue;
        ask(m, s, c, gs);
        c.count("op.ask");
      } else {
        bool a = m.apply(s, c);
        if (prop == "P18") {
          twin.apply(s, c);
          // The twin was never asked anything.
          if (a && m.built()) {
            if (partition_digest(m) != partition_digest(twin) || data_digest(m) != data_digest(twin) || (scores_exact(m) && !close(m.score(), twin.score(), 1e-9)))
              c.fail("query-visible", "after " + s.op + " the model that was asked for held-out scores differs from one that was not");
          }
        }
        if (!a) continue;
        c.count("op." + s.op);
      }
      if (m.built()) {
        std::string d = partition_digest(m) + data_digest(m);
        c.state(hash_str(d));
        c.log(s.op + strf(" %.9g ", m.score()) + d);
      }
    }
  }
  std::vector<std::string> real_components() override {
    return {"hirm.cc", "irm.cc", "relations", "domains and CRP", "all distributions", "all emissions", "inference.cc"};
  }
  std::vector<std::string> stub_components() override { return {"clock (virtual)", "random numbers (seeded per step)"}; }
  std::string rule() override {
    return prop == "P16" ? "one case = one seeded history with forward sampling at several points; non-trivial when cells were sampled"
                         : "one case = one seeded history with held-out queries at several points, run beside a twin that is never asked; non-trivial when something was asked";
  }
  int default_runs(int tier) override { return tier ? 60000 : 6000; }
};
std::unique_ptr<World> make_query_world(const std::string& p) { return std::make_unique<QueryWorld>(p); }
}  // namespace sim
