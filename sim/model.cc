#include "model.hh"

#include <cmath>

#include "distributions/adapter.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "inference.hh"

namespace sim {
std::string vstr(const std::string& s) { return "'" + s + "'"; }
std::string vstr(double d) { return fmt_d(d); }
std::string vstr(int i) { return std::to_string(i); }
std::string vstr(bool b) { return b ? "1" : "0"; }

ObservationEnum dist_type(const std::string& d) {
  auto is = [&](const char* p) { return d.rfind(p, 0) == 0; };
  if (is("bernoulli")) return ObservationEnum::bool_type;
  if (is("categorical") || is("skellam")) return ObservationEnum::int_type;
  if (is("normal")) return ObservationEnum::double_type;
  return ObservationEnum::string_type;
}
std::vector<std::string> rel_args(const RelSpec& r) {
  return {r.name, r.clean ? "C" : "N", r.observed ? "1" : "0", r.dist, join(r.domains, ","), r.base,
          std::to_string((int)r.type)};
}
RelSpec rel_parse(const Step& s) {
  RelSpec r;
  r.name = s.s(0);
  r.clean = s.s(1) == "C";
  r.observed = s.s(2) == "1";
  r.dist = s.s(3);
  r.domains = split(s.s(4), ',');
  r.base = s.s(5);
  r.type = (ObservationEnum)s.i(6);
  return r;
}
T_relation to_relation(const RelSpec& r) {
  if (r.clean) {
    T_clean_relation t;
    t.domains = r.domains;
    t.is_observed = r.observed;
    t.distribution_spec = DistributionSpec(r.dist);
    return t;
  }
  T_noisy_relation t;
  t.domains = r.domains;
  t.is_observed = r.observed;
  auto parts = split(r.dist, ':');
  std::map<std::string, std::string> args;
  if (parts.size() > 1) args["k"] = parts[1];
  t.emission_spec = EmissionSpec(parts[0], args);
  t.base_relation = r.base;
  return t;
}
ObservationVariant to_value(ObservationEnum t, const std::string& s) {
  switch (t) {
    case ObservationEnum::bool_type: return s == "1";
    case ObservationEnum::int_type: return (int)std::stoi(s);
    case ObservationEnum::double_type: return std::stod(s);
    default: return s;
  }
}
std::string from_value(const ObservationVariant& v) {
  return std::visit([](const auto& x) { return vstr(x); }, v);
}

// ------------------------------------------------------------ generation
const RelSpec* GenState::find(const std::string& n) const {
  for (auto& r : rels)
    if (r.name == n) return &r;
  return nullptr;
}
bool GenState::has_children(const std::string& n) const {
  for (auto& r : rels)
    if (!r.clean && r.base == n) return true;
  return false;
}
const std::string& root_dist(const GenState& s, const RelSpec& r) {
  const RelSpec* p = &r;
  while (!p->clean) p = s.find(p->base);
  return p->dist;
}
static std::string fresh_name(Rng& g, GenState& s) {
  return std::string(1, (char)('a' + g.below(26))) + std::to_string(s.names++);
}
RelSpec gen_clean(Rng& g, GenState& s, const GenOpts& o) {
  RelSpec r;
  r.name = fresh_name(g, s);
  int ar = 1 + (int)g.below(o.max_arity);
  if (ar == 3 && g.chance(0.6)) ar = 2;
  for (int i = 0; i < ar; ++i) {
    std::string d = s.doms[g.below(s.doms.size())];
    if (!o.repeated_domains) {
      bool dup = false;
      for (auto& x : r.domains) dup |= x == d;
      if (dup) continue;
    }
    r.domains.push_back(d);
  }
  std::vector<std::string> ds = {"bernoulli", "bernoulli", "bernoulli", strf("categorical(k=%d)", g.range(2, 4)),
                                 strf("categorical(k=%d)", g.range(2, 4))};
  if (o.continuous) ds.insert(ds.end(), {"normal", "normal"});
  if (o.nonconj) ds.insert(ds.end(), {"skellam"});
  if (o.strings) ds.insert(ds.end(), {"stringcat(strings=a bb ccc)", "stringcat(strings=a bb ccc)"});
  if (o.strings && o.continuous) ds.insert(ds.end(), {"string_normal"});
  if (o.strings && o.nonconj && g.chance(0.5)) ds.insert(ds.end(), {"string_skellam"});
  if (o.heavy && g.chance(0.35)) ds.insert(ds.end(), {"bigram", "bigram(maxlength=12)", "string_nat", "string_nat(maxlength=6)"});
  r.dist = g.pick(ds);
  r.type = dist_type(r.dist);
  return r;
}
bool gen_noisy(Rng& g, GenState& s, const GenOpts& o, RelSpec* out) {
  std::vector<size_t> cand;
  for (size_t i = 0; i < s.rels.size(); ++i) {
    const RelSpec& b = s.rels[i];
    if (!b.clean && !o.noisy_of_noisy) continue;
    const std::string& d = root_dist(s, b);
    if (d == "skellam" || d == "string_skellam") continue;
    if (b.type == ObservationEnum::string_type && !o.heavy && d.rfind("stringcat", 0) != 0 && d != "string_normal") continue;
    cand.push_back(i);
  }
  if (cand.empty()) return false;
  RelSpec& b = s.rels[cand[g.below(cand.size())]];
  RelSpec r;
  r.name = fresh_name(g, s);
  r.clean = false;
  r.base = b.name;
  r.type = b.type;
  r.domains = b.domains;
  int extra = g.chance(0.5) ? 1 : 0;
  if ((int)r.domains.size() >= 3) extra = 0;
  for (int i = 0; i < extra; ++i) {
    std::string d = s.doms[g.below(s.doms.size())];
    bool dup = false;
    for (auto& x : r.domains) dup |= x == d;
    if (dup && !o.repeated_domains) continue;
    r.domains.push_back(d);
  }
  const std::string d = root_dist(s, b);
  switch (r.type) {
    case ObservationEnum::bool_type: r.dist = "sometimes_bitflip"; break;
    case ObservationEnum::int_type: r.dist = "sometimes_categorical:" + d.substr(d.find('=') + 1, 1); break;
    case ObservationEnum::double_type: r.dist = g.chance(0.5) ? "gaussian" : "sometimes_gaussian"; break;
    default: r.dist = o.heavy && g.chance(0.25) ? "bigram" : "simple_string";
  }
  if (g.chance(0.75)) b.observed = false;
  *out = r;
  return true;
}
std::string gen_value(Rng& g, const RelSpec& r, const GenState& s) {
  const std::string d = root_dist(s, r);
  switch (r.type) {
    case ObservationEnum::bool_type: return g.chance(0.5) ? "1" : "0";
    case ObservationEnum::int_type:
      if (d == "skellam") return std::to_string(g.range(-4, 4));
      return std::to_string(g.below(std::stoi(d.substr(d.find('=') + 1))));
    case ObservationEnum::double_type: return strf("%.2f", g.range(-500, 500) / 100.0);
    default: break;
  }
  std::string v;
  if (d.rfind("stringcat", 0) == 0) {
    static const std::vector<std::string> vs = {"a", "bb", "ccc"};
    v = g.pick(vs);
  } else if (d == "string_normal")
    v = strf("%.1f", g.range(-90, 90) / 10.0);
  else if (d == "string_skellam")
    v = std::to_string(g.range(-4, 4));
  else if (d.rfind("string_nat", 0) == 0) {
    for (int n = g.range(1, 4); n > 0; --n) v += (char)('0' + g.below(10));
  } else {
    for (int n = g.range(0, 5); n > 0; --n) v += "ab ~z"[g.below(5)];
  }
  if (!r.clean && g.chance(0.4)) {
    size_t k = g.below(v.size() + 1);
    if (g.chance(0.5)) v.insert(k, 1, "abx7"[g.below(4)]);
    else if (k < v.size()) v.erase(k, 1);
  }
  return v;
}
void gen_schema(Rng& g, Plan& p, GenState& s, const GenOpts& o) {
  int nd = 1 + (int)g.below(o.max_domains);
  for (int i = 0; i < nd; ++i) s.doms.push_back("D" + std::to_string(i));
  s.entities = g.range(2, o.max_entities);
  int nc = g.range(1, o.max_clean), nn = o.noisy ? (int)g.below(o.max_noisy + 1) : 0;
  for (int i = 0; i < nc; ++i) s.rels.push_back(gen_clean(g, s, o));
  for (int i = 0; i < nn; ++i) {
    RelSpec r;
    if (gen_noisy(g, s, o, &r)) s.rels.push_back(r);
  }
  for (auto& r : s.rels) p.add(g, "rel", rel_args(r));
}
static void add_obs(Rng& g, Plan& p, GenState& s, const RelSpec& r, const std::vector<int>& items) {
  if (s.cells[r.name].count(items)) return;
  if (!r.clean) {
    const RelSpec* b = s.find(r.base);
    std::vector<int> bi(items.begin(), items.begin() + b->domains.size());
    add_obs(g, p, s, *b, bi);
  }
  s.cells[r.name].insert(items);
  p.add(g, "obs", {r.name, ints(items), gen_value(g, r, s)});
}
bool gen_obs(Rng& g, Plan& p, GenState& s) {
  if (s.rels.empty()) return false;
  const RelSpec& r = s.rels[g.below(s.rels.size())];
  std::vector<int> items;
  for (size_t i = 0; i < r.domains.size(); ++i) items.push_back((int)g.below(s.entities));
  if (s.cells[r.name].count(items)) return false;
  add_obs(g, p, s, r, items);
  return true;
}
bool gen_unobs(Rng& g, Plan& p, GenState& s) {
  std::vector<std::pair<std::string, std::vector<int>>> cand;
  for (auto& r : s.rels)
    for (auto& it : s.cells[r.name]) {
      bool used = false;
      for (auto& n : s.rels)
        if (!n.clean && n.base == r.name)
          for (auto& ni : s.cells[n.name])
            used |= std::equal(it.begin(), it.end(), ni.begin());
      if (!used) cand.push_back({r.name, it});
    }
  if (cand.empty()) return false;
  auto& c = cand[g.below(cand.size())];
  s.cells[c.first].erase(c.second);
  p.add(g, "unobs", {c.first, ints(c.second)});
  return true;
}

// ------------------------------------------------------------ live model
std::vector<std::pair<int, IRM*>> Model::irms() const {
  std::vector<std::pair<int, IRM*>> v;
  if (is_hirm) {
    std::map<int, IRM*> s(h->irms.begin(), h->irms.end());
    v.assign(s.begin(), s.end());
  } else
    v.push_back({0, m.get()});
  return v;
}
IRM* Model::irm_of(const std::string& r) const { return is_hirm ? h->relation_to_irm(r) : m.get(); }
RelationVariant Model::rel(const std::string& r) const { return is_hirm ? h->get_relation(r) : m->relations.at(r); }
bool Model::has_children(const std::string& r) const {
  for (auto& [n, s] : specs)
    if (!s.clean && s.base == r) return true;
  return false;
}
bool Model::contains(const std::string& r, const std::vector<int>& items) const {
  return std::visit([&](auto* x) { return x->get_data().contains(items); }, rel(r));
}
ObservationVariant Model::value(const std::string& r, const std::vector<int>& items) const {
  return std::visit([&](auto* x) { return ObservationVariant(x->get_data().at(items)); }, rel(r));
}
void Model::build(uint64_t seed) {
  T_schema sc;
  for (auto& [n, s] : specs) sc[n] = to_relation(s);
  std::mt19937 prng((uint32_t)seed);
  if (is_hirm) h.reset(new HIRM(sc, &prng));
  else m.reset(new IRM(sc));
}

bool Model::apply(const Step& s, Ctx& c) {
  const std::string& op = s.op;
  if (op == "kind") {
    is_hirm = s.s(0) == "hirm";
    return true;
  }
  if (op == "rel") {
    RelSpec r = rel_parse(s);
    if (specs.count(r.name)) return false;
    if (!r.clean && !specs.count(r.base)) return false;
    specs[r.name] = r;
    if (built()) {
      T_relation t = to_relation(r);
      std::mt19937 prng = step_prng(s);
      if (is_hirm) h->add_relation(&prng, r.name, t);
      else std::visit([&](auto& x) { m->add_relation(r.name, x); }, t);
    }
    return true;
  }
  if (specs.empty()) return false;
  if (!built()) build(s.seed);
  std::mt19937 prng = step_prng(s);
  const std::string& r = s.s(0);
  bool known = specs.count(r);
  auto data_rel = [&](const std::string& n) { return known ? rel(n) : rel(n); };
  if (op == "obs") {
    if (!known) return false;
    auto items = parse_ints(s.s(1));
    const RelSpec& sp = specs[r];
    if (items.size() != sp.domains.size() || contains(r, items)) return false;
    if (!sp.clean) {
      std::vector<int> bi(items.begin(), items.begin() + specs[sp.base].domains.size());
      if (!contains(sp.base, bi)) return false;
    }
    ObservationVariant v = to_value(sp.type, s.s(2));
    if (is_hirm) h->incorporate(&prng, r, items, v);
    else m->incorporate(&prng, r, items, v);
    given[r][items] = v;
    return true;
  }
  if (op == "unobs") {
    if (!known) return false;
    auto items = parse_ints(s.s(1));
    if (items.size() != specs[r].domains.size() || !contains(r, items)) return false;
    for (auto& [n, sp] : specs)
      if (!sp.clean && sp.base == r)
        for (auto& [it, _] : given[n])
          if (std::equal(items.begin(), items.end(), it.begin())) return false;
    if (is_hirm) h->unincorporate(r, items);
    else m->unincorporate(r, items);
    given[r].erase(items);
    return true;
  }
  if (op == "draw") {  // sample one new cell, with the base cells it needs
    if (!known) return false;
    auto items = parse_ints(s.s(1));
    if (items.size() != specs[r].domains.size() || contains(r, items)) return false;
    std::vector<std::pair<std::string, std::vector<int>>> fresh;
    for (std::string x = r;;) {
      std::vector<int> it(items.begin(), items.begin() + specs[x].domains.size());
      if (contains(x, it)) break;
      fresh.push_back({x, it});
      if (specs[x].clean) break;
      x = specs[x].base;
    }
    if (is_hirm) h->sample_and_incorporate_relation(&prng, r, items);
    else
      for (size_t k = fresh.size(); k-- > 0;)
        std::visit([&](auto* x) { x->sample_and_incorporate(&prng, fresh[k].second); }, rel(fresh[k].first));
    for (auto& [x, it] : fresh) {
      if (!contains(x, it)) c.fail("sample-missing", x + " " + ints(it) + " was sampled but is not there");
      given[x][it] = value(x, it);
    }
    return true;
  }
  if (op == "samp") {  // sample n new cells of every leaf relation
    if (!is_hirm) return false;
    for (auto& [n, sp] : specs)
      if (sp.dist == "bigram" || sp.dist == "string_nat") return false;
    auto before = given;
    h->sample_and_incorporate(&prng, s.i(1));
    for (auto& [n, sp] : specs)
      std::visit(
          [&](auto* x) {
            for (auto& [it, v] : x->get_data())
              if (!before[n].count(it)) given[n][it] = value(n, it);
          },
          rel(n));
    return true;
  }
  if (op == "rmrel") {
    if (!known || has_children(r) || specs.size() < 2) return false;
    if (is_hirm) h->remove_relation(r);
    else m->remove_relation(r);
    specs.erase(r);
    given.erase(r);
    return true;
  }
  if (op == "item") {  // r d e
    if (!known) return false;
    IRM* im = irm_of(r);
    if (!im->domains.count(s.s(1)) || !im->domains.at(s.s(1))->items.contains(s.i(2))) return false;
    im->transition_cluster_assignment_item(&prng, s.s(1), s.i(2));
    return true;
  }
  if (op == "irmall") {
    if (!known) return false;
    irm_of(r)->transition_cluster_assignments_all(&prng);
    return true;
  }
  if (op == "doms") {
    if (!known) return false;
    irm_of(r)->transition_cluster_assignments(&prng, {specs[r].domains[0]});
    return true;
  }
  if (op == "move") {
    if (!known || !is_hirm) return false;
    h->transition_cluster_assignment_relation(&prng, r);
    return true;
  }
  if (op == "moveall") {
    if (!is_hirm) return false;
    if (s.i(1)) {
      std::vector<std::string> rs;
      for (auto& [n, _] : specs) rs.push_back(n);
      h->transition_cluster_assignments(&prng, rs);
    } else
      h->transition_cluster_assignments_all(&prng);
    return true;
  }
  if (op == "set") {
    if (!known || !is_hirm) return false;
    auto ts = irms();
    size_t k = s.i(1) % (ts.size() + 1);
    int cur = h->relation_to_table(r);
    int t = k < ts.size() ? ts[k].first : ts.back().first + 1;
    if (t == cur) return false;
    h->set_cluster_assignment_gibbs(&prng, r, t);
    return true;
  }
  if (op == "latent") {
    if (!known || specs[r].observed || !has_children(r)) return false;
    if (is_hirm) h->transition_latent_values_relation(&prng, r);
    else m->transition_latent_values_relation(&prng, r);
    return true;
  }
  if (op == "hparams") {
    if (!known) return false;
    std::visit([&](auto* x) { x->transition_cluster_hparams(&prng, s.i(1)); }, rel(r));
    return true;
  }
  if (op == "domalpha") {
    if (!known) return false;
    for (auto* d : std::visit([](auto* x) { return x->get_domains(); }, rel(r))) d->crp.transition_alpha(&prng);
    return true;
  }
  if (op == "crpalpha") {
    if (!is_hirm) return false;
    h->crp.transition_alpha(&prng);
    return true;
  }
  if (op == "irmstep") {
    if (!known) return false;
    double t = 0;
    single_step_irm_inference(&prng, irm_of(r), t, false, 2, !is_hirm);
    return true;
  }
  if (op == "infer") {
    if (is_hirm) inference_hirm(&prng, h.get(), s.i(0), 0, false);
    else inference_irm(&prng, m.get(), s.i(0), 0, false);
    return true;
  }
  if (op == "cleanup") {
    if (is_hirm) h->cleanup_relation_clusters();
    return is_hirm;
  }
  (void)data_rel;
  return false;
}

// ------------------------------------------------------------ hyperparameters
template <>
void copy_hypers<bool>(const Distribution<bool>* s, Distribution<bool>* d) {
  auto* a = dynamic_cast<const BetaBernoulli*>(s);
  auto* b = dynamic_cast<BetaBernoulli*>(d);
  if (a && b) b->alpha = a->alpha, b->beta = a->beta;
}
template <>
void copy_hypers<int>(const Distribution<int>* s, Distribution<int>* d) {
  if (auto* a = dynamic_cast<const DirichletCategorical*>(s)) {
    dynamic_cast<DirichletCategorical*>(d)->alpha = a->alpha;
  } else if (auto* a = dynamic_cast<const Skellam*>(s)) {
    auto* b = dynamic_cast<Skellam*>(d);
    b->mean1 = a->mean1, b->mean2 = a->mean2, b->stddev1 = a->stddev1, b->stddev2 = a->stddev2;
    b->mu1 = a->mu1, b->mu2 = a->mu2;
  }
}
template <>
void copy_hypers<double>(const Distribution<double>* s, Distribution<double>* d) {
  if (auto* a = dynamic_cast<const Normal*>(s)) {
    auto* b = dynamic_cast<Normal*>(d);
    b->r = a->r, b->v = a->v, b->m = a->m, b->s = a->s;
  } else if (auto* a = dynamic_cast<const ZeroMeanNormal*>(s)) {
    auto* b = dynamic_cast<ZeroMeanNormal*>(d);
    b->alpha = a->alpha, b->beta = a->beta;
  }
}
// Takes over running statistics that agree with rebuilt ones up to rounding.
static void snap(const Distribution<double>* s, Distribution<double>* d, double scale) {
  auto near = [&](double x, double y, double unit) {
    return std::fabs(x - y) <= 1e-13 * (s->N + 20) * unit + 1e-10 * (1 + std::min(std::fabs(x), std::fabs(y)));
  };
  if (auto* a = dynamic_cast<const Normal*>(s)) {
    auto* b = dynamic_cast<Normal*>(d);
    if (near(a->mean, b->mean, scale) && near(a->var, b->var, scale * scale)) b->mean = a->mean, b->var = a->var;
  } else if (auto* a = dynamic_cast<const ZeroMeanNormal*>(s)) {
    auto* b = dynamic_cast<ZeroMeanNormal*>(d);
    if (near(a->var, b->var, 4 * scale * scale)) b->var = a->var;
  }
}
static void snap(const Distribution<std::string>* s, Distribution<std::string>* d, double scale) {
  if (auto* a = dynamic_cast<const DistributionAdapter<double>*>(s)) snap(a->d, dynamic_cast<DistributionAdapter<double>*>(d)->d, scale);
}
static void snap(const Distribution<std::pair<double, double>>* s, Distribution<std::pair<double, double>>* d, double scale) {
  if (auto* a = dynamic_cast<const Sometimes<double>*>(s)) snap(a->be, dynamic_cast<Sometimes<double>*>(d)->be, scale);
  if (auto* a = dynamic_cast<const GaussianEmission*>(s)) snap(&a->zmn, &dynamic_cast<GaussianEmission*>(d)->zmn, scale);
}
template <class T>
static void snap(const Distribution<T>*, Distribution<T>*, double) {}
template <>
void copy_hypers<std::string>(const Distribution<std::string>* s, Distribution<std::string>* d) {
  if (auto* a = dynamic_cast<const Bigram*>(s)) {
    dynamic_cast<Bigram*>(d)->set_alpha(a->alpha);
  } else if (auto* a = dynamic_cast<const StringCat*>(s)) {
    dynamic_cast<StringCat*>(d)->dc.alpha = a->dc.alpha;
  } else if (auto* a = dynamic_cast<const DistributionAdapter<double>*>(s)) {
    copy_hypers<double>(a->d, dynamic_cast<DistributionAdapter<double>*>(d)->d);
  } else if (auto* a = dynamic_cast<const DistributionAdapter<int>*>(s)) {
    copy_hypers<int>(a->d, dynamic_cast<DistributionAdapter<int>*>(d)->d);
  }
}
template <class T>
static void copy_pair(const Distribution<std::pair<T, T>>* s, Distribution<std::pair<T, T>>* d) {
  if (auto* a = dynamic_cast<const Sometimes<T>*>(s)) {
    auto* b = dynamic_cast<Sometimes<T>*>(d);
    b->bb.alpha = a->bb.alpha, b->bb.beta = a->bb.beta;
    copy_pair<T>(a->be, b->be);
  }
  if constexpr (std::is_same_v<T, double>) {
    if (auto* a = dynamic_cast<const GaussianEmission*>(s)) {
      auto* b = dynamic_cast<GaussianEmission*>(d);
      b->zmn.alpha = a->zmn.alpha, b->zmn.beta = a->zmn.beta;
    }
  }
  if constexpr (std::is_same_v<T, int>) {
    if (auto* a = dynamic_cast<const CategoricalEmission*>(s)) {
      auto* b = dynamic_cast<CategoricalEmission*>(d);
      for (size_t i = 0; i < a->emission_dists.size(); ++i) b->emission_dists[i].alpha = a->emission_dists[i].alpha;
    }
  }
  if constexpr (std::is_same_v<T, std::string>) {
    if (auto* a = dynamic_cast<const SimpleStringEmission*>(s)) {
      auto* b = dynamic_cast<SimpleStringEmission*>(d);
      auto cp = [](const BetaBernoulli& x, BetaBernoulli& y) { y.alpha = x.alpha, y.beta = x.beta; };
      cp(a->substitutions, b->substitutions);
      cp(a->insertions, b->insertions);
      cp(a->deletions, b->deletions);
    }
    if (auto* a = dynamic_cast<const BigramStringEmission*>(s)) {
      auto* b = dynamic_cast<BigramStringEmission*>(d);
      for (size_t i = 0; i < a->insertions.size(); ++i) {
        b->insertions[i].alpha = a->insertions[i].alpha;
        b->substitutions[i].alpha = a->substitutions[i].alpha;
      }
    }
  }
}
#define PAIR(T)                                                                       \
  template <>                                                                         \
  void copy_hypers<std::pair<T, T>>(const Distribution<std::pair<T, T>>* s,           \
                                    Distribution<std::pair<T, T>>* d) {               \
    copy_pair<T>(s, d);                                                               \
  }
PAIR(bool)
PAIR(int)
PAIR(double)
PAIR(std::string)

template <class T>
Distribution<T>* fresh_like(const CleanRelation<T>& rel, const Distribution<T>* d) {
  std::mt19937 tmp(12345);
  Distribution<T>* f = rel.make_new_distribution(&tmp);
  copy_hypers<T>(d, f);
  return f;
}
static std::string path_name(const RelSpec& r) { return r.dist.substr(0, r.dist.find_first_of(":(")); }
template <class T>
bool path_dependent(const Distribution<T>* d) {
  if constexpr (std::is_same_v<T, std::pair<int, int>>) {
    auto* s = dynamic_cast<const Sometimes<int>*>(d);
    return s && s->dirty_can_equal_clean;
  }
  if constexpr (std::is_same_v<T, std::pair<std::string, std::string>>)
    return dynamic_cast<const BigramStringEmission*>(d) != nullptr;
  return false;
}
#define INST(T)                                                                                  \
  template Distribution<T>* fresh_like<T>(const CleanRelation<T>&, const Distribution<T>*);      \
  template bool path_dependent<T>(const Distribution<T>*);
INST(bool)
INST(int)
INST(double)
INST(std::string)
typedef std::pair<bool, bool> PB;
typedef std::pair<int, int> PI;
typedef std::pair<double, double> PD;
typedef std::pair<std::string, std::string> PS;
INST(PB)
INST(PI)
INST(PD)
INST(PS)

double rebuild_relation_score(const RelationVariant& rv, bool clean,
                              const std::function<int(const std::string&, int)>& table_of, bool* exact) {
  return with_clean(rv, clean, [&](auto* cr, auto) -> double {
    using CR = std::remove_pointer_t<decltype(cr)>;
    using T = typename CR::ValueType;
    std::map<std::vector<int>, std::vector<T>> groups;
    for (auto& [items, v] : cr->data) {
      std::vector<int> z;
      for (size_t i = 0; i < items.size(); ++i) z.push_back(table_of(cr->domains[i]->name, items[i]));
      groups[z].push_back(v);
    }
    double total = 0;
    std::mt19937 tmp(7);
    for (auto& [z, vs] : groups) {
      Distribution<T>* f;
      auto it = cr->clusters.find(z);
      f = cr->make_new_distribution(&tmp);
      if (it != cr->clusters.end()) copy_hypers<T>(it->second, f);
      if (exact && path_dependent<T>(f)) *exact = false;
      for (size_t k = 0; k < vs.size(); ++k) f->incorporate(T(vs[k]));
      total += f->logp_score();
      delete f;
    }
    return total;
  });
}

// ------------------------------------------------------------ oracles
static std::map<int, std::set<int>> parts_of(const CRP& c) {
  std::map<int, std::set<int>> r;
  for (auto& [e, t] : c.assignments) r[t].insert(e);
  return r;
}
static void check_crp(const CRP& c, const std::string& where, Ctx& x) {
  size_t n = 0;
  for (auto& [t, s] : c.tables) {
    if (s.empty()) x.fail("empty-table", where + strf(": table %d has no customers", t));
    n += s.size();
    for (int e : s)
      if (!c.assignments.count(e) || c.assignments.at(e) != t)
        x.fail("crp-index", where + strf(": customer %d sits at table %d but is assigned elsewhere", e, t));
  }
  if (n != c.assignments.size() || (int)n != c.N)
    x.fail("crp-count", where + strf(": N=%d, %zu assignments, %zu seated", c.N, c.assignments.size(), n));
  if (!(c.alpha > 0) || !std::isfinite(c.alpha)) x.fail("crp-alpha", where + ": alpha not positive");
}

void check_structure(const Model& mo, Ctx& x) {
  if (!mo.built()) return;
  std::map<std::string, int> home;
  for (auto& [t, im] : mo.irms()) {
    std::string w = mo.is_hirm ? strf("sub-model %d", t) : std::string("model");
    if (mo.is_hirm && im->relations.empty()) x.fail("empty-irm", w + " holds no relation");
    std::map<std::string, std::set<std::string>> use;
    std::map<std::string, std::set<int>> ents;
    std::map<std::string, std::vector<std::string>> links;
    if (im->schema.size() != im->relations.size()) x.fail("irm-schema", w + ": schema and relations differ in size");
    for (auto& [r, rv] : im->relations) {
      if (!mo.specs.count(r)) x.fail("ghost-relation", w + " holds removed relation " + r);
      if (home.count(r)) x.fail("two-homes", "relation " + r + " lives in two sub-models");
      home[r] = t;
      if (!im->schema.count(r)) x.fail("irm-schema", w + ": " + r + " missing from schema");
      const RelSpec& sp = mo.specs.at(r);
      auto doms = std::visit([](auto* q) { return q->get_domains(); }, rv);
      if (doms.size() != sp.domains.size()) x.fail("rel-domains", r + ": wrong arity");
      for (size_t i = 0; i < doms.size(); ++i) {
        auto it = im->domains.find(sp.domains[i]);
        if (it == im->domains.end() || it->second != doms[i])
          x.fail("rel-domains", r + ": argument " + std::to_string(i) + " is not the sub-model's domain " + sp.domains[i]);
        use[sp.domains[i]].insert(r);
      }
      if (!sp.clean) links[sp.base].push_back(r);
      with_clean(rv, sp.clean, [&](auto* cr, auto nr) {
        using T = typename std::remove_pointer_t<decltype(cr)>::ValueType;
        if (!cr) x.fail("rel-type", r + " has an unexpected relation type");
        std::map<std::string, std::map<int, std::set<std::vector<int>>>> dr;
        std::map<std::vector<int>, int> zs;
        for (auto& [items, v] : cr->data) {
          std::vector<int> z;
          for (size_t i = 0; i < items.size(); ++i) {
            dr[sp.domains[i]][items[i]].insert(items);
            ents[sp.domains[i]].insert(items[i]);
            if (!doms[i]->items.count(items[i]))
              x.fail("entity-missing", r + ": observed entity " + std::to_string(items[i]) + " is not in domain " + sp.domains[i]);
            z.push_back(doms[i]->crp.assignments.at(items[i]));
          }
          ++zs[z];
        }
        for (auto& d : sp.domains) {
          auto it = cr->data_r.find(d);
          if (it == cr->data_r.end()) x.fail("reverse-index", r + ": no reverse index for " + d);
          std::map<int, std::set<std::vector<int>>> got;
          for (auto& [e, ss] : it->second) got[e] = std::set<std::vector<int>>(ss.begin(), ss.end());
          if (got != dr[d]) x.fail("reverse-index", r + ": reverse index of " + d + " disagrees with the data");
        }
        if (cr->data_r.size() != dr.size() && !cr->data.empty())
          x.fail("reverse-index", r + ": reverse index has a foreign domain");
        for (auto& [z, n] : zs)
          if (!cr->clusters.count(z)) x.fail("cluster-missing", r + ": data in cluster [" + ints(z) + "] which does not exist");
        for (auto& [z, cl] : cr->clusters) {
          if (!zs.count(z)) x.fail("cluster-stale", r + ": cluster [" + ints(z) + "] holds no data");
          if (std::fabs(cl->N - zs[z]) > 1e-9)
            x.fail("cluster-count", r + strf(": cluster [%s] counts %.6g observations, data has %d", ints(z).c_str(), cl->N, zs[z]));
        }
        if constexpr (!std::is_same_v<decltype(nr), std::nullptr_t>) {
          if (nr) {
            RelationVariant live = mo.rel(sp.base);
            bool same = std::visit([&](auto* q) { return (void*)q == (void*)nr->base_relation; }, live);
            if (!same) x.fail("base-link", r + " does not point at the live relation " + sp.base);
            if (nr->data.size() != cr->data.size()) x.fail("noisy-index", r + ": noisy data and emission data differ in size");
            size_t ba = mo.specs.at(sp.base).domains.size();
            std::map<std::vector<int>, std::set<std::vector<int>>> b2n;
            for (auto& [items, v] : nr->data) {
              auto it = cr->data.find(items);
              if (it == cr->data.end()) x.fail("noisy-index", r + ": [" + ints(items) + "] missing from emission data");
              if (!(it->second.second == v)) x.fail("noisy-value", r + ": emission data holds another value at [" + ints(items) + "]");
              std::vector<int> bi(items.begin(), items.begin() + ba);
              b2n[bi].insert(items);
              auto& bd = nr->base_relation->get_data();
              auto bt = bd.find(bi);
              if (bt == bd.end()) x.fail("base-missing", r + ": no base value at [" + ints(bi) + "]");
              if (!(it->second.first == bt->second))
                x.fail("base-stale", r + ": emission data at [" + ints(items) + "] pairs with clean value " +
                                         vstr(it->second.first) + " but the base relation holds " + vstr(bt->second));
            }
            std::map<std::vector<int>, std::set<std::vector<int>>> got;
            for (auto& [b, ss] : nr->base_to_noisy_items) got[b] = std::set<std::vector<int>>(ss.begin(), ss.end());
            if (got != b2n) x.fail("base-to-noisy-items", r + ": index from base cells to noisy cells disagrees with the data");
          }
        }
        (void)sizeof(T);
        return 0;
      });
    }
    // domains of this sub-model
    std::set<std::string> dn, du;
    for (auto& [d, p] : im->domains) dn.insert(d);
    for (auto& [d, s] : use) du.insert(d);
    if (dn != du) x.fail("irm-domains", w + ": domains are not those its relations use");
    std::set<std::string> d2;
    for (auto& [d, s] : im->domain_to_relations) {
      d2.insert(d);
      if (std::set<std::string>(s.begin(), s.end()) != use[d]) x.fail("domain-to-relations", w + ": reverse map of " + d + " is wrong");
    }
    if (d2 != du) x.fail("domain-to-relations", w + ": reverse map covers other domains");
    for (auto& [d, p] : im->domains) {
      check_crp(p->crp, w + " domain " + d, x);
      std::set<int> it(p->items.begin(), p->items.end()), as;
      for (auto& [e, tt] : p->crp.assignments) as.insert(e);
      if (it != as) x.fail("domain-items", w + " domain " + d + ": items and partition differ");
      for (int e : it)
        if (!ents[d].count(e)) x.fail("stale-entity", w + " domain " + d + strf(": entity %d is kept though no relation observes it", e));
    }
    std::map<std::string, std::vector<std::string>> got;
    for (auto& [b, v] : im->base_to_noisy_relations)
      if (!v.empty()) {
        got[b] = v;
        std::sort(got[b].begin(), got[b].end());
      }
    for (auto& [b, v] : links) std::sort(v.begin(), v.end());
    if (got != links) x.fail("irm-noisy-links", w + ": noisy relation links disagree with its relations");
  }
  for (auto& [r, sp] : mo.specs)
    if (!home.count(r)) x.fail("homeless", "relation " + r + " lives in no sub-model");
  if (mo.is_hirm) {
    HIRM& h = *mo.h;
    check_crp(h.crp, "relation partition", x);
    if (h.schema.size() != mo.specs.size() || h.relation_to_code.size() != mo.specs.size() ||
        h.code_to_relation.size() != mo.specs.size() || h.crp.assignments.size() != mo.specs.size())
      x.fail("hirm-index", "relation tables have different sizes");
    for (auto& [r, sp] : mo.specs) {
      if (!h.relation_to_code.count(r) || !h.schema.count(r)) x.fail("hirm-index", r + " has no code or schema");
      int rc = h.relation_to_code.at(r);
      if (!h.code_to_relation.count(rc) || h.code_to_relation.at(rc) != r) x.fail("hirm-index", r + ": code maps back to another relation");
      if (!h.crp.assignments.count(rc) || h.crp.assignments.at(rc) != home[r])
        x.fail("hirm-home", r + " is not in the sub-model its table says");
    }
    if (h.irms.size() != h.crp.tables.size()) x.fail("hirm-tables", "sub-models and tables differ in number");
    for (auto& [t, im] : h.irms)
      if (!h.crp.tables.count(t)) x.fail("hirm-tables", strf("sub-model %d has no table", t));
    std::map<std::string, std::vector<std::string>> want, got;
    for (auto& [r, sp] : mo.specs)
      if (!sp.clean) want[sp.base].push_back(r);
    for (auto& [b, v] : h.base_to_noisy_relations)
      if (!v.empty()) {
        got[b] = v;
        std::sort(got[b].begin(), got[b].end());
      }
    if (got != want) x.fail("hirm-noisy-links", "links from base to noisy relations disagree with the schema");
  }
}

void check_stats(const Model& mo, Ctx& x) {
  if (!mo.built()) return;
  double total = 0;
  bool all_exact = true;
  auto lcrp = [](const CRP& c) {  // own formula
    double l = std::lgamma(c.alpha) - std::lgamma(c.alpha + c.assignments.size());
    std::map<int, int> n;
    for (auto& [e, t] : c.assignments) ++n[t];
    for (auto& [t, k] : n) l += std::log(c.alpha) + std::lgamma((double)k);
    return l;
  };
  for (auto& [r, sp] : mo.specs)
    std::visit(
        [&](auto* q) {
          for (auto& [items, v] : q->get_data()) {
            using T = std::decay_t<decltype(v)>;
            double d = 0;
            if constexpr (std::is_same_v<T, double>) d = v;
            if constexpr (std::is_same_v<T, std::string>) d = std::strtod(v.c_str(), nullptr);
            if (std::isfinite(d)) mo.scale = std::max(mo.scale, std::fabs(d));
          }
        },
        mo.rel(r));
  for (auto& [t, im] : mo.irms()) {
    for (auto& [d, p] : im->domains) total += lcrp(p->crp);
    for (auto& [r, rv] : im->relations) {
      with_clean(rv, mo.specs.at(r).clean, [&](auto* cr, auto) {
        using T = typename std::remove_pointer_t<decltype(cr)>::ValueType;
        std::map<std::vector<int>, std::vector<std::pair<std::vector<int>, T>>> groups;
        for (auto& [items, v] : cr->data) {
          std::vector<int> z;
          for (size_t i = 0; i < items.size(); ++i) z.push_back(cr->domains[i]->crp.assignments.at(items[i]));
          groups[z].push_back({items, v});
        }
        double rsum = 0;
        for (auto& [z, vs] : groups) {
          auto it = cr->clusters.find(z);
          if (it == cr->clusters.end()) x.fail("cluster-missing", r + ": no cluster [" + ints(z) + "]");
          Distribution<T>* cl = it->second;
          std::unique_ptr<Distribution<T>> f(fresh_like<T>(*cr, cl));
          std::sort(vs.begin(), vs.end(), [](auto& a, auto& b) { return a.first < b.first; });
          for (auto& [i, v] : vs) f->incorporate(v);
          if (std::fabs(f->N - cl->N) > 1e-9)
            x.fail("cluster-count", r + strf(" cluster [%s]: N=%.9g, rebuilt %.9g", ints(z).c_str(), cl->N, f->N));
          snap(cl, f.get(), mo.scale);
          double a = cl->logp_score(), b = f->logp_score();
          x.count("clusters_rebuilt");
          if (path_dependent<T>(cl)) {
            all_exact = false;
            if (!std::isfinite(a)) x.fail("score-nan:" + path_name(mo.specs.at(r)), r + ": cluster score is not finite");
            rsum += a;
            continue;
          }
          if (!close(a, b, 1e-6))
            x.fail("cluster-score", r + " (" + mo.specs.at(r).dist + strf(") cluster [%s]: score %.12g, rebuilt from its %zu values %.12g",
                                            ints(z).c_str(), a, vs.size(), b));
          rsum += b;
          // predictive agreement on held values
          for (size_t k = 0; k < vs.size() && k < 3; ++k) {
            double pa = cl->logp(vs[k].second), pb = f->logp(vs[k].second);
            if (!close(pa, pb, 1e-6))
              x.fail("cluster-predictive", r + " (" + mo.specs.at(r).dist + strf(") cluster [%s]: predictive of %s is %.12g, rebuilt %.12g",
                                                   ints(z).c_str(), vstr(vs[k].second).c_str(), pa, pb));
          }
        }
        total += rsum;
        return 0;
      });
    }
  }
  if (mo.is_hirm) total += lcrp(mo.h->crp);
  double got = mo.score();
  if (!close(got, total, 1e-6)) x.fail("joint-score", strf("joint score %.12g, rebuilt %.12g", got, total));
}

void check_data(Model& mo, Ctx& x) {
  if (!mo.built()) return;
  for (auto& [r, sp] : mo.specs) {
    auto& want = mo.given[r];
    std::visit(
        [&](auto* q) {
          auto& d = q->get_data();
          if (d.size() != want.size())
            x.fail("cells-changed", r + strf(": %zu cells were given, %zu are stored", want.size(), d.size()));
          for (auto& [items, v] : want) {
            auto f = d.find(items);
            if (f == d.end()) x.fail("cell-lost", r + ": cell [" + ints(items) + "] disappeared");
            bool latent = !sp.observed && mo.has_children(r);
            if (!latent && !(ObservationVariant(f->second) == v))
              x.fail("value-changed", r + ": observed value at [" + ints(items) + "] was " + from_value(v) + ", now " + vstr(f->second));
            v = ObservationVariant(f->second);
          }
        },
        mo.rel(r));
  }
}

std::string partition_digest(const Model& mo) {
  std::string o;
  if (!mo.built()) return o;
  std::set<std::string> blocks;
  for (auto& [t, im] : mo.irms()) {
    std::set<std::string> rs;
    for (auto& [r, v] : im->relations) rs.insert(r);
    std::string b = "{" + join({rs.begin(), rs.end()}, ",") + "|";
    std::map<std::string, std::string> ds;
    for (auto& [d, p] : im->domains) {
      std::set<std::string> ps;
      for (auto& [tt, s] : parts_of(p->crp)) ps.insert(ints({s.begin(), s.end()}));
      ds[d] = join({ps.begin(), ps.end()}, "/");
    }
    for (auto& [d, s] : ds) b += d + "=" + s + ";";
    blocks.insert(b + "}");
  }
  for (auto& b : blocks) o += b;
  return o;
}
std::string data_digest(const Model& mo) {
  std::string o;
  if (!mo.built()) return o;
  for (auto& [r, sp] : mo.specs) {
    std::map<std::vector<int>, std::string> s;
    std::visit([&](auto* q) { for (auto& [i, v] : q->get_data()) s[i] = vstr(v); }, mo.rel(r));
    o += r + ":";
    for (auto& [i, v] : s) o += "[" + ints(i) + "]" + v;
    o += ";";
  }
  return o;
}
}  // namespace sim
