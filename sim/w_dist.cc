// P07, P19, P20, P21: seeded histories of single distributions, noise models
// and CRPs (the leaves of every cluster).
#include <algorithm>
#include <cmath>
#include <functional>

#include "distributions/adapter.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/crp.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/get_distribution.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "distributions/zero_mean_normal.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/get_emission.hh"
#include "emissions/identity.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "model.hh"
#include "worlds.hh"

namespace sim {
namespace {
template <class T> struct is_pair : std::false_type {};
template <class A> struct is_pair<std::pair<A, A>> : std::true_type {};

// ---------------------------------------------------------------- values
template <class T> T parse1(const std::string& s);
template <> bool parse1(const std::string& s) { return s == "1"; }
template <> int parse1(const std::string& s) { return std::stoi(s); }
template <> double parse1(const std::string& s) { return std::stod(s); }
template <> std::string parse1(const std::string& s) { return s; }
template <class T> T parse_val(const Step& s) {
  if constexpr (is_pair<T>::value) {
    using S = typename T::first_type;
    return {parse1<S>(s.s(0)), parse1<S>(s.s(1))};
  } else {
    return parse1<T>(s.s(0));
  }
}

struct Kind {
  std::string name;  // canonical name
  char type;         // b i d s; upper case for pairs
  int k = 0;         // categories / max length
};
static Kind kind_of(const std::string& n) {
  Kind r{n, '?'};
  auto par = n.find_first_of("(:");
  std::string base = n.substr(0, par);
  if (par != std::string::npos) {
    std::string d;
    for (char c : n.substr(par))
      if (isdigit(c)) d += c;
    if (!d.empty()) r.k = std::stoi(d);
  }
  static const std::map<std::string, char> t = {
      {"bernoulli", 'b'}, {"categorical", 'i'}, {"skellam", 'i'}, {"normal", 'd'}, {"zmn", 'd'},
      {"stringcat", 's'}, {"bigram", 's'}, {"string_nat", 's'}, {"string_normal", 's'}, {"string_skellam", 's'},
      {"E.bitflip", 'B'}, {"E.sometimes_bitflip", 'B'}, {"E.categorical", 'I'}, {"E.sometimes_categorical", 'I'},
      {"E.identity", 'I'}, {"E.gaussian", 'D'}, {"E.sometimes_gaussian", 'D'}, {"E.simple_string", 'S'},
      {"E.bigram", 'S'}, {"crp", 'c'}};
  r.type = t.at(base);
  return r;
}
static std::string kbase(const std::string& n) { return n.substr(0, n.find_first_of("(:")); }

template <class T> Distribution<T>* make(const Kind& k, uint64_t seed) {
  std::mt19937 g((uint32_t)seed);
  std::string b = kbase(k.name);
  if constexpr (is_pair<T>::value) {
    using S = typename T::first_type;
    if constexpr (std::is_same_v<S, bool>)
      if (b == "E.bitflip") return new BitFlip();
    if constexpr (std::is_same_v<S, int>) {
      if (b == "E.categorical") return new CategoricalEmission(k.k);
      if (b == "E.identity") return new IdentityEmission<int>();
    }
    std::map<std::string, std::string> a;
    if (k.k) a["k"] = std::to_string(k.k);
    auto v = get_prior(EmissionSpec(b.substr(2), a), &g);
    return std::get<Emission<S>*>(v);
  } else {
    if constexpr (std::is_same_v<T, double>)
      if (b == "zmn") return new ZeroMeanNormal();
    auto v = get_prior(DistributionSpec(k.name), &g);
    return std::get<Distribution<T>*>(v);
  }
}
template <class T> Distribution<T>* like(const Kind& k, const Distribution<T>* d) {
  auto* f = make<T>(k, 99);
  copy_hypers<T>(d, f);
  return f;
}
// The scores of bigram models are differences of thousands of large lgammas.
static double tol_of(const Kind& k) {
  auto b = kbase(k.name);
  return b == "bigram" || b == "E.bigram" || b == "string_nat" ? 1e-4 : 1e-6;
}
// Noise models that divide an observation between explanations by current belief.
static bool inexact(const Kind& k) {
  auto b = kbase(k.name);
  return b == "E.sometimes_categorical" || b == "E.bigram";
}

// ---------------------------------------------------------------- generators
static std::string rnd_double(Rng& g) {
  static const std::vector<std::string> pool = {"0", "0.5", "-1.25", "2", "1", "-3", "0.25"};
  if (g.chance(0.4)) return g.pick(pool);
  double sc = g.chance(0.7) ? 3 : g.chance(0.7) ? 30 : 400;
  return strf("%.3f", (g.unit() * 2 - 1) * sc);
}
static std::string rnd_word(Rng& g, int maxlen) {
  static const std::vector<std::string> pool = {"a", "b", "ab", "ba", "hello", "world", "a b", "~", " ", "Zz9", "aaa"};
  std::string s;
  if (g.chance(0.5)) s = g.pick(pool);
  else
    for (int n = g.range(0, 6); n > 0; --n) s += g.chance(0.8) ? (char)('a' + g.below(3)) : (char)(' ' + g.below(95));
  if (maxlen > 0 && (int)s.size() > maxlen) s.resize(maxlen);
  return s;
}
static std::string rnd_digits(Rng& g, int maxlen) {
  std::string s;
  for (int n = g.range(0, 4); n > 0; --n) s += g.chance(0.7) ? (char)('0' + g.below(2)) : (char)('0' + g.below(10));
  if (maxlen > 0 && (int)s.size() > maxlen) s.resize(maxlen);
  return s;
}
static const std::vector<std::string>& cats() {
  static const std::vector<std::string> c = {"red", "green", "blue", "x"};
  return c;
}
static std::string rnd_skellam(Rng& g) {
  if (g.chance(0.7)) return std::to_string(g.range(-4, 4));
  if (g.chance(0.8)) return std::to_string(g.range(-40, 40));
  return std::to_string(g.range(-3000, 3000));
}
static std::vector<std::string> rnd_value(Rng& g, const Kind& k) {
  std::string b = kbase(k.name);
  if (b == "bernoulli") return {g.chance(0.5) ? "1" : "0"};
  if (b == "categorical") return {std::to_string(g.below(k.k))};
  if (b == "skellam" || b == "string_skellam") return {rnd_skellam(g)};
  if (b == "normal" || b == "zmn" || b == "string_normal") return {rnd_double(g)};
  if (b == "stringcat") return {g.pick(cats())};
  if (b == "bigram") return {rnd_word(g, k.k)};
  if (b == "string_nat") return {rnd_digits(g, k.k)};
  if (b == "E.bitflip") {
    bool v = g.chance(0.5);
    return {v ? "1" : "0", v ? "0" : "1"};
  }
  if (b == "E.sometimes_bitflip") return {g.chance(0.5) ? "1" : "0", g.chance(0.5) ? "1" : "0"};
  if (b == "E.categorical" || b == "E.sometimes_categorical")  {
    std::string c = std::to_string(g.below(k.k));
    return {c, g.chance(0.5) ? c : std::to_string(g.below(k.k))};
  }
  if (b == "E.identity") {
    std::string c = std::to_string(g.below(5));
    return {c, c};
  }
  if (b == "E.gaussian" || b == "E.sometimes_gaussian") {
    std::string c = rnd_double(g);
    return {c, g.chance(0.35) ? c : rnd_double(g)};
  }
  std::string c = rnd_word(g, 0), d = c;  // string noise
  double u = g.unit();
  if (u < 0.35) return {c, d};
  if (u < 0.8) {
    for (int n = g.range(1, 2); n > 0; --n) {
      int at = g.below(d.size() + 1);
      if (g.chance(0.4)) d.insert(at, 1, (char)('a' + g.below(3)));
      else if (at < (int)d.size() && g.chance(0.5)) d.erase(at, 1);
      else if (at < (int)d.size()) d[at] = (char)('a' + g.below(26));
    }
    return {c, d};
  }
  return {c, rnd_word(g, 0)};
}
// A fixed list of values whose predictions identify the state.
template <class T> std::vector<T> probes_of(const Kind& k) {
  Rng g(hash_str(k.name) ^ 77);
  std::vector<T> r;
  for (int i = 0; i < (k.name == "E.bigram" ? 2 : 8); ++i) {
    Step s;
    s.a = rnd_value(g, k);
    r.push_back(parse_val<T>(s));
  }
  return r;
}

// ---------------------------------------------------------------- parameters
struct Atom {
  std::string name;
  std::function<std::vector<double>()> get;
  std::function<void(const std::vector<double>&)> set;
  std::vector<std::vector<double>> axes;
  std::function<double()> score;
  bool heavy = false;
};
static std::vector<double> logspace(double a, double b, int n) {
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(std::exp(std::log(a) + (std::log(b) - std::log(a)) * i / (n - 1)));
  return v;
}
static const std::vector<double> kNine = {1e-4, 1e-3, 1e-2, 1e-1, 1.0, 10.0, 100.0, 1000.0, 10000.0};
static void atom(std::vector<Atom>& o, const std::string& n, BetaBernoulli* b) {
  o.push_back({n, [b] { return std::vector<double>{b->alpha, b->beta}; },
               [b](const std::vector<double>& v) { b->alpha = v[0], b->beta = v[1]; },
               {logspace(1e-4, 1e4, 10), logspace(1e-4, 1e4, 10)}, [b] { return b->logp_score(); }});
}
static void atom(std::vector<Atom>& o, const std::string& n, DirichletCategorical* b) {
  o.push_back({n, [b] { return std::vector<double>{b->alpha}; }, [b](const std::vector<double>& v) { b->alpha = v[0]; },
               {kNine}, [b] { return b->logp_score(); }});
}
static void atom(std::vector<Atom>& o, const std::string& n, ZeroMeanNormal* b) {
  o.push_back({n, [b] { return std::vector<double>{b->alpha, b->beta}; },
               [b](const std::vector<double>& v) { b->alpha = v[0], b->beta = v[1]; }, {kNine, kNine},
               [b] { return b->logp_score(); }});
}
static double ln_logp(double x, double m, double s) {
  double y = (std::log(x) - m) / s;
  return -0.5 * y * y - std::log(x) - std::log(s) - 0.5 * std::log(2 * M_PI);
}
template <class T> void atoms(std::vector<Atom>& o, const std::string& n, Distribution<T>* d) {
  if constexpr (std::is_same_v<T, bool>) {
    if (auto* b = dynamic_cast<BetaBernoulli*>(d)) atom(o, n, b);
  } else if constexpr (std::is_same_v<T, int>) {
    if (auto* b = dynamic_cast<DirichletCategorical*>(d)) atom(o, n, b);
    if (auto* b = dynamic_cast<Skellam*>(d))
      o.push_back({n, [b] { return std::vector<double>{b->mean1, b->stddev1, b->mean2, b->stddev2}; },
                   [b](const std::vector<double>& v) { b->mean1 = v[0], b->stddev1 = v[1], b->mean2 = v[2], b->stddev2 = v[3]; },
                   {{-10, 0, 10}, {0.1, 1, 10}, {-10, 0, 10}, {0.1, 1, 10}},
                   [b] { return ln_logp(b->mu1, b->mean1, b->stddev1) + ln_logp(b->mu2, b->mean2, b->stddev2); }});
  } else if constexpr (std::is_same_v<T, double>) {
    if (auto* b = dynamic_cast<Normal*>(d))
      o.push_back({n, [b] { return std::vector<double>{b->r, b->v, b->m, b->s}; },
                   [b](const std::vector<double>& v) { b->r = v[0], b->v = v[1], b->m = v[2], b->s = v[3]; },
                   {{0.1, 1, 10}, {0.5, 1, 2, 5}, {-1, 0, 1}, {0.5, 1, 2}}, [b] { return b->logp_score(); }});
    if (auto* b = dynamic_cast<ZeroMeanNormal*>(d)) atom(o, n, b);
  } else if constexpr (std::is_same_v<T, std::string>) {
    if (auto* b = dynamic_cast<Bigram*>(d)) {
      o.push_back({n, [b] { return std::vector<double>{b->alpha}; },
                   [b](const std::vector<double>& v) { b->set_alpha(v[0]); }, {kNine}, [b] { return b->logp_score(); }});
      o.back().heavy = true;
    }
    if (auto* b = dynamic_cast<StringCat*>(d)) atom(o, n, &b->dc);
    if (auto* b = dynamic_cast<DistributionAdapter<double>*>(d)) atoms<double>(o, n, b->d);
    if (auto* b = dynamic_cast<DistributionAdapter<int>*>(d)) atoms<int>(o, n, b->d);
  } else {
    using S = typename T::first_type;
    if (auto* b = dynamic_cast<Sometimes<S>*>(d)) {
      atom(o, n + ".rate", &b->bb);
      atoms<T>(o, n + ".noise", b->be);
    }
    if constexpr (std::is_same_v<S, double>)
      if (auto* b = dynamic_cast<GaussianEmission*>(d)) atom(o, n, &b->zmn);
    if constexpr (std::is_same_v<S, int>)
      if (auto* b = dynamic_cast<CategoricalEmission*>(d))
        for (size_t i = 0; i < b->emission_dists.size(); ++i) atom(o, n + strf("[%zu]", i), &b->emission_dists[i]);
    if constexpr (std::is_same_v<S, std::string>) {
      if (auto* b = dynamic_cast<SimpleStringEmission*>(d)) {
        atom(o, n + ".substitutions", &b->substitutions);
        atom(o, n + ".insertions", &b->insertions);
        atom(o, n + ".deletions", &b->deletions);
      }
      if (auto* b = dynamic_cast<BigramStringEmission*>(d)) {
        for (size_t i = 0; i < b->insertions.size(); ++i) atom(o, n + strf(".insertions[%zu]", i), &b->insertions[i]);
        for (size_t i = 0; i < b->substitutions.size(); ++i) atom(o, n + strf(".substitutions[%zu]", i), &b->substitutions[i]);
        for (auto& a : o) a.heavy = true;
      }
    }
  }
}

// ---------------------------------------------------------------- fingerprints
struct Print {
  double n, score;
  std::vector<double> lp;
};
template <class T> Print print_of(const Distribution<T>* d, const std::vector<T>& pr) {
  Print p{d->N, d->logp_score(), {}};
  for (const auto& v : pr) p.lp.push_back(d->logp(v));
  return p;
}
template <class T>
std::string diff(const Print& a, const Print& b, const std::vector<T>& pr, double tol) {
  if (!close(a.n, b.n, 1e-9)) return strf("count %.12g became %.12g", a.n, b.n);
  if (!close(a.score, b.score, tol)) return strf("score %.12g became %.12g", a.score, b.score);
  for (size_t i = 0; i < pr.size(); ++i)
    if (!close(a.lp[i], b.lp[i], tol)) return strf("prediction of %s: %.12g became %.12g", vstr(pr[i]).c_str(), a.lp[i], b.lp[i]);
  return "";
}

// ---------------------------------------------------------------- frequencies
// Compares samples with a density given by its log, through the cumulative
// distribution on a sinh-transformed grid.
static void check_continuous(Ctx& c, const std::string& what, std::vector<double> xs, const std::function<double(double)>& logf,
                             double mass, bool heavy_tail, const std::function<double(double)>& also = nullptr) {
  std::sort(xs.begin(), xs.end());
  size_t m = xs.size();
  if (m < 200) return;
  double med = xs[m / 2], w = xs[m * 3 / 4] - xs[m / 4];
  if (!std::isfinite(med) || !std::isfinite(w) || !(w > 1e-9 * (1e-3 + std::fabs(med)))) return;  // beyond double precision
  const int G = 6000;
  const double Tm = 70;
  std::vector<double> x(G + 1), F(G + 1, 0.0), f(G + 1);
  double dt = 2 * Tm / G;
  for (int i = 0; i <= G; ++i) {
    double t = -Tm + dt * i;
    x[i] = med + w * std::sinh(t);
    double lf = logf(x[i]);
    if (std::isnan(lf)) c.fail("logp-nan", what + strf(": predictive log probability at %.9g is NaN", x[i]));
    f[i] = std::exp(lf + std::log(w * std::cosh(t)));
  }
  for (int i = 1; i <= G; ++i) F[i] = F[i - 1] + 0.5 * (f[i] + f[i - 1]) * dt;
  double tot = F[G] / mass;
  if (tot > 1.01 || (!heavy_tail && tot < 0.99))
    c.fail("not-normalised", what + strf(": predictive density integrates to %.6f of its mass", tot));
  // 24 bins between sample-independent quantiles of the stated distribution
  int B = 24;
  std::vector<double> edges, p;
  double prev = 0;
  for (int b = 1; b < B; ++b) {
    double q = mass * b / B;
    int i = std::lower_bound(F.begin(), F.end(), q) - F.begin();
    if (i > G) break;
    if (!edges.empty() && x[i] <= edges.back()) continue;
    edges.push_back(x[i]);
    p.push_back(std::max(1e-6, (F[i] - prev) / mass));
    prev = F[i];
  }
  p.push_back(std::max(1e-6, 1.0 - prev / mass));
  std::vector<uint64_t> cnt(p.size(), 0);
  for (double v : xs) ++cnt[std::upper_bound(edges.begin(), edges.end(), v) - edges.begin()];
  std::string why;
  c.count("frequency_tests");
  if (!g_ok(cnt, p, &why)) {
    std::string cls = "sample-frequency";
    if (also) {  // do they follow the other density exactly?
      std::vector<double> q;
      double pv = 0, cum = 0;
      size_t e = 0;
      for (int i = 1; i <= G && e < edges.size(); ++i) {
        cum += 0.5 * (std::exp(also(x[i])) * std::cosh(-Tm + dt * i) + std::exp(also(x[i - 1])) * std::cosh(-Tm + dt * (i - 1))) * w * dt;
        if (x[i] >= edges[e]) q.push_back(std::max(1e-6, cum - pv)), pv = cum, ++e;
      }
      q.push_back(std::max(1e-6, 1 - pv));
      if (q.size() == cnt.size() && g_ok(cnt, q)) cls = "sample-frequency:zero-mean-normal-scale";
    }
    c.fail(cls, what + ": samples do not follow the predictive density: " + why);
  }
}
template <class S>
void check_discrete(Ctx& c, const std::string& what, const std::vector<S>& xs, const std::vector<S>& bins,
                    const std::function<double(const S&)>& logp, bool complete) {
  std::map<S, size_t> at;
  std::vector<double> p;
  for (const auto& b : bins)
    if (!at.count(b)) {
      size_t i = at.size();
      at[b] = i;
      double lp = logp(b);
      if (std::isnan(lp)) c.fail("logp-nan", what + ": predictive log probability of " + vstr(b) + " is NaN");
      p.push_back(std::exp(lp));
    }
  double tot = 0;
  for (double x : p) tot += x;
  if (tot > 1 + 1e-6 || (complete && tot < 1 - 1e-6))
    c.fail("not-normalised", what + strf(": predictive probabilities of all values sum to %.9g", tot));
  std::vector<uint64_t> cnt(p.size() + 1, 0);
  for (const auto& v : xs) {
    auto it = at.find(v);
    ++cnt[it == at.end() ? p.size() : it->second];
  }
  if (complete && cnt.back()) c.fail("sample-support", what + ": sampled a value outside the support");
  if (complete) cnt.pop_back();
  else p.push_back(std::max(1e-7, 1 - tot));
  // pool rare outcomes
  std::vector<uint64_t> c2;
  std::vector<double> p2;
  uint64_t rc = 0;
  double rp = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i] * xs.size() < 4) rc += cnt[i], rp += p[i];
    else c2.push_back(cnt[i]), p2.push_back(p[i]);
  }
  if (rc || rp > 0) c2.push_back(rc), p2.push_back(std::max(rp, 1e-9));
  std::string why;
  c.count("frequency_tests");
  if (!g_ok(c2, p2, &why)) c.fail("sample-frequency", what + ": samples do not follow the predictive probabilities: " + why);
}

template <class S> S bit_not(const S& v) {
  if constexpr (std::is_same_v<S, bool>) return !v;
  else return v;
}
struct DistWorld : World {
  std::string prop;
  explicit DistWorld(std::string p) : prop(std::move(p)) {}

  void generate(Rng& g, Plan& p, int tier) override {
    static const std::vector<std::string> light = {
        "bernoulli", "categorical(k=2)", "categorical(k=4)", "skellam", "normal", "zmn", "stringcat(strings=red green blue x)",
        "string_nat(maxlength=3)", "string_nat(maxlength=20)", "string_normal", "string_skellam", "E.bitflip", "E.sometimes_bitflip",
        "E.categorical:3", "E.sometimes_categorical:2", "E.sometimes_categorical:4", "E.identity", "E.gaussian", "E.sometimes_gaussian",
        "E.simple_string", "crp", "crp", "normal", "bernoulli"};
    static const std::vector<std::string> heavy = {"bigram(maxlength=6)", "bigram", "E.bigram"};
    bool model = prop == "P07" && g.chance(0.35);
    if (model) {
      GenOpts o;
      GenState s;
      p.add(g, "kind", {g.chance(0.65) ? "hirm" : "irm"});
      o.noisy = g.chance(0.65);
      o.heavy = g.chance(0.1);
      gen_schema(g, p, s, o);
      HistOpts ho;
      gen_history(g, p, s, o, g.range(4, 16), ho);
      for (int i = g.range(1, 4); i > 0 && !s.rels.empty(); --i) {
        auto& r = s.rels[g.below(s.rels.size())];
        double u = g.unit();
        if (u < 0.5) p.add(g, "hparams", {r.name, std::to_string(g.below(3))});
        else if (u < 0.8) p.add(g, "domalpha", {r.name});
        else p.add(g, "crpalpha");
      }
      return;
    }
    Kind k = kind_of(g.chance(prop == "P07" ? 0.03 : 0.1) ? g.pick(heavy) : g.pick(light));
    p.add(g, "dist", {k.name});
    int n = g.range(3, tier ? 60 : 30), held = 0, id = 0;
    double pu = g.chance(0.3) ? 0.45 : 0.2;
    // Retracting from the bigram noise model is a known finding that can leave
    // its counts negative, so its other behaviour is judged without retractions.
    bool keep = k.name == "E.bigram" && (prop == "P07" || prop == "P21" || g.chance(0.5));
    if (keep) pu = 0;
    bool weights = prop == "P19" && g.chance(0.2) && k.type != 'c';
    for (int i = 0; i < n; ++i) {
      double u = g.unit();
      if (held && u < pu) p.add(g, "unc", {std::to_string(g.below(1000))}), --held;
      else if (u < 0.78) {
        auto a = k.type == 'c' ? std::vector<std::string>{std::to_string(id++), std::to_string(g.below(4))} : rnd_value(g, k);
        if (weights && g.chance(0.4)) {
          a.resize(2);
          a.push_back(g.chance(0.5) ? "2" : "0.5");
        }
        p.add(g, "inc", a);
        ++held;
      } else if (u < 0.86) p.add(g, "hyper");
      else if (u < 0.92) p.add(g, "theta");
      else p.add(g, "query");
      if (prop == "P20" && !keep && g.chance(0.4)) p.add(g, "undo", k.type == 'c' ? std::vector<std::string>{std::to_string(900 + i), std::to_string(g.below(5))} : rnd_value(g, k));
      if (prop == "P20" && g.chance(0.1)) p.add(g, "query");
      if ((prop == "P21" || prop == "P07") && g.chance(0.04)) p.add(g, "probe", k.type == 'c' ? std::vector<std::string>{} : rnd_value(g, k));
    }
    if (prop == "P21" || prop == "P07") p.add(g, "probe", k.type == 'c' ? std::vector<std::string>{} : rnd_value(g, k));
    if (prop == "P19") p.add(g, "compose");
  }

  // ------------------------------------------------------------ distributions
  template <class T> void run_t(const Kind& k, const Plan& p, Ctx& c) {
    std::unique_ptr<Distribution<T>> d(make<T>(k, p.steps[0].seed));
    std::vector<T> pr = probes_of<T>(k);
    std::vector<std::pair<T, double>> held;
    std::string b = kbase(k.name);
    int retracted = 0;
    for (size_t si = 1; si < p.steps.size(); ++si) {
      const Step& s = p.steps[si];
      std::mt19937 g = step_prng(s);
      if (s.op == "inc") {
        T v = parse_val<T>(s);
        double w = s.a.size() > 2 ? s.d(2) : 1.0;
        d->incorporate(v, w);
        held.push_back({v, w});
      } else if (s.op == "unc") {
        if (held.empty()) continue;
        size_t i = s.i(0) % held.size();
        if (held[i].second == 1.0) d->unincorporate(held[i].first);
        else d->incorporate(held[i].first, -held[i].second);
        held.erase(held.begin() + i);
        ++retracted;
      } else if (s.op == "hyper") {
        // Without data every grid value is equally likely, including rates at
        // which a sampled string has hundreds of millions of insertions.
        if (b == "E.simple_string" && held.empty()) continue;
        Print a = print_of<T>(d.get(), {});
        d->transition_hyperparameters(&g);
        if (prop == "P07") {
          double sc = d->logp_score();
          if (!std::isfinite(sc)) c.fail("score-undefined:" + b, b + strf(": score is %g after a hyperparameter move", sc));
          if (d->N != a.n) c.fail("hyper-touched-data", b + ": hyperparameter move changed the number of observations");
        }
      } else if (s.op == "theta") {
        d->transition_theta(&g);
      } else if (s.op == "undo") {
        ++retracted;
        undo<T>(k, d.get(), parse_val<T>(s), pr, c);
      } else if (s.op == "query") {
        if (k.name == "E.bigram" && retracted) continue;
        query<T>(k, d.get(), s, pr, c);
      } else if (s.op == "compose") {
        compose<T>(k, d.get(), held, s, pr, c);
      } else if (s.op == "probe") {
        if (prop == "P21") scrutinise(12, [&] { freq<T>(k, d.get(), s, c); });
        if (prop == "P07") scrutinise(12, [&] { hyper<T>(k, d.get(), s, pr, c); });
      } else continue;
      c.count("op." + s.op);
      c.log(s.op + strf(" %.9g %.9g", d->N, d->logp_score()));
      c.state(mix(hash_str(k.name), hash_str(strf("%.9g %.9g", d->N, d->logp_score()))));
    }
    c.count("kind." + b);
    c.nontrivial = !held.empty() || retracted;
  }

  template <class T>
  void undo(const Kind& k, Distribution<T>* d, const T& v, const std::vector<T>& pr, Ctx& c) {
    if (prop != "P20") return;
    Print a = print_of(d, pr);
    double tol = tol_of(k);
    d->incorporate(v);
    d->unincorporate(v);
    Print z = print_of(d, pr);
    auto e = diff(a, z, pr, tol);
    if (!close(a.n, z.n, 1e-9)) c.fail("undo-count:" + kbase(k.name), kbase(k.name) + ": " + e);
    if (!e.empty()) c.fail("undo:" + kbase(k.name), kbase(k.name) + ": adding and retracting " + vstr(v) + ": " + e);
    c.count("undone");
  }

  template <class T>
  void query(const Kind& k, Distribution<T>* d, const Step& s, const std::vector<T>& pr, Ctx& c) {
    Rng g(s.seed);
    std::mt19937 prng = step_prng(s);
    std::string b = kbase(k.name);
    Print a = print_of(d, pr);
    double tol = tol_of(k);
    std::string did;
    for (int i = g.range(1, 6); i > 0; --i) {
      double u = g.unit();
      Step q;
      q.a = rnd_value(g, k);
      // Far-away values are asked about too.
      if ((k.type == 'd' || b == "string_normal") && g.chance(0.3)) q.a[0] = strf("%.3g", (g.chance(0.5) ? 1 : -1) * std::pow(10.0, g.range(3, 9)));
      if (k.type == 'D' && g.chance(0.3)) q.a[1] = strf("%.3g", std::pow(10.0, g.range(3, 9)));
      if (b == "string_normal" || b == "string_skellam")
        if (g.chance(0.2)) q.a[0] = g.chance(0.5) ? "" : "abc";
      T v = parse_val<T>(q);
      if (u < 0.35) {
        double x = d->logp(v), y = d->logp(v);
        if (prop == "P20" && !close(x, y, 1e-9) && !(std::isnan(x) && std::isnan(y)))
          c.fail("query-repeat:" + b, b + ": asking the probability of " + vstr(v) + strf(" twice gives %.12g then %.12g", x, y));
        did += " logp(" + vstr(v) + ")";
      } else if (u < 0.45) {
        (void)d->logp_score();
        did += " score";
      } else if (u < 0.55) {
        if constexpr (!is_pair<T>::value) (void)d->nearest(v);
        did += " nearest";
      } else if constexpr (is_pair<T>::value) {
        using S = typename T::first_type;
        auto* e = dynamic_cast<Emission<S>*>(d);
        if (u < 0.8) {
          (void)e->sample_corrupted(v.first, &prng);
          did += " sample_corrupted";
        } else {
          std::vector<S> cs;
          for (int j = g.range(1, 4); j > 0; --j) {
            Step qq;
            qq.a = rnd_value(g, k);
            cs.push_back(parse_val<T>(qq).second);
          }
          (void)e->propose_clean(cs, &prng);
          did += " propose_clean";
        }
      } else {
        for (int j = g.range(1, 3); j > 0; --j) (void)d->sample(&prng);
        did += " sample";
      }
      if (prop == "P20") {
        Print z = print_of(d, pr);
        auto e = diff(a, z, pr, tol);
        if (!e.empty()) c.fail("query-changed:" + b, b + ": after the queries" + did + ": " + e);
      }
      c.count("queries");
    }
  }

  template <class T>
  void compose(const Kind& k, Distribution<T>* d, std::vector<std::pair<T, double>> held, const Step& s, const std::vector<T>& pr, Ctx& c) {
    std::string b = kbase(k.name);
    {
      std::unique_ptr<Distribution<T>> n(like<T>(k, d));
      double sc = n->logp_score();
      if (!close(sc, 0.0, 1e-5)) c.fail("empty-score:" + b, b + strf(": the score of no data is %.9g", sc));
      c.count("empty");
    }
    if (inexact(k)) return;
    Rng g(s.seed);
    Print a = print_of(d, pr);
    double tol = tol_of(k);
    bool unit = true;
    for (auto& h : held) unit &= h.second == 1.0;
    for (int rep = 0; rep < 3; ++rep) {
      // an independent order, with retractions and re-additions interleaved
      for (size_t i = held.size(); i > 1; --i) std::swap(held[i - 1], held[g.below(i)]);
      std::unique_ptr<Distribution<T>> f(like<T>(k, d));
      double sum = 0;
      bool chain = unit && rep < 2;
      for (size_t i = 0; i < held.size(); ++i) {
        if (chain) sum += f->logp(held[i].first);
        f->incorporate(held[i].first, held[i].second);
        if (rep == 2 && g.chance(0.3)) {
          size_t j = g.below(i + 1);
          f->incorporate(held[j].first, -held[j].second);
          f->incorporate(held[j].first, held[j].second);
        }
      }
      if (chain) {
        double sc = f->logp_score();
        if (!close(sum, sc, tol))
          c.fail("chain-rule:" + b, b + strf(": predictive log probabilities of %zu values add up to %.12g, joint score %.12g", held.size(), sum, sc));
        c.count("chains");
      }
      Print z = print_of(f.get(), pr);
      auto e = diff(a, z, pr, tol);
      if (!e.empty()) c.fail("order:" + b, b + strf(": the same %zu values in another order: ", held.size()) + e);
      if (rep == 2) {
        for (size_t i = held.size(); i > 1; --i) std::swap(held[i - 1], held[g.below(i)]);
        for (auto& h : held) {
          if (h.second == 1.0) f->unincorporate(h.first);
          else f->incorporate(h.first, -h.second);
        }
        std::unique_ptr<Distribution<T>> n(like<T>(k, d));
        auto e2 = diff(print_of(n.get(), pr), print_of(f.get(), pr), pr, tol);
        if (!e2.empty()) c.fail("emptied:" + b, b + strf(": emptied of its %zu values it differs from a new one: ", held.size()) + e2);
        c.count("emptied");
      }
    }
  }

  template <class T> void freq(const Kind& k, Distribution<T>* d, const Step& s, Ctx& c) {
    std::mt19937 g = step_prng(s);
    std::string b = kbase(k.name);
    Rng rg(s.seed ^ 5);
    if (!std::isfinite(d->logp_score())) return;  // not this property's concern
    size_t M = (b == "bigram" || b == "E.bigram" ? 1500 : 4000) * scrutiny.factor;
    if constexpr (!is_pair<T>::value) {
      std::vector<T> xs;
      for (size_t i = 0; i < M; ++i) xs.push_back(d->sample(&g));
      auto lp = [&](const T& v) { return d->logp(v); };
      for (size_t i = 0; i < M; i += 37) {
        double l = lp(xs[i]);
        if (!(l > -INFINITY)) c.fail(cls_positive(b, d), b + ": sampled " + vstr(xs[i]) + strf(" whose own log probability is %g", l));
      }
      if constexpr (std::is_same_v<T, bool>) check_discrete<T>(c, b, xs, {false, true}, lp, true);
      if constexpr (std::is_same_v<T, int>) {
        std::vector<int> bins;
        if (b == "categorical") {
          for (int i = 0; i < k.k; ++i) bins.push_back(i);
          check_discrete<T>(c, b, xs, bins, lp, true);
        } else {
          skellam(c, b, std::vector<int>(xs.begin(), xs.end()), [&](int v) { return d->logp(v); });
        }
      }
      auto* z = zmn_of<T>(d);
      if constexpr (std::is_same_v<T, double>)
        if (!z || z->alpha + z->N / 2 > 0.02) check_continuous(c, b, xs, lp, 1.0, heavy_tail(d), other_scale(d, 0.0));
      if constexpr (std::is_same_v<T, std::string>) {
        if (b == "stringcat") check_discrete<T>(c, b, xs, cats(), lp, true);
        else if (b == "string_normal") {
          std::vector<double> v;
          for (auto& x : xs) v.push_back(std::stod(x));
          auto* a = dynamic_cast<DistributionAdapter<double>*>(d);
          check_continuous(c, b, v, [&](double x) { return a->d->logp(x); }, 1.0, false);
        } else if (b == "string_skellam") {
          std::vector<int> v;
          for (auto& x : xs) v.push_back(std::stoi(x));
          skellam(c, b, v, [&](int x) { return d->logp(std::to_string(x)); });
        } else {
          // Strings shorter than the limit; one that reaches it is cut there.
          std::vector<std::string> bins = {""};
          std::map<std::string, int> seen;
          std::mt19937 g2(s.seed + 1);
          for (int i = 0; i < 150; ++i) ++seen[d->sample(&g2)];
          size_t lim = k.k ? k.k : (b == "bigram" ? 80 : 20);
          for (auto& [v, n] : seen)
            if (n > 1 && v.size() < lim) bins.push_back(v);
          if (b == "string_nat")
            for (int i = 0; i < 10; ++i)
              if (lim > 1) bins.push_back(std::to_string(i));
          for (auto& x : xs)
            if (x.size() > lim) c.fail("sample-support", b + ": sampled a string longer than its maximum length");
          check_discrete<T>(c, b, xs, bins, lp, false);
        }
      }
    } else {
      using S = typename T::first_type;
      auto* e = dynamic_cast<Emission<S>*>(d);
      S clean = parse_val<T>(s).first;
      std::string what = b + " of " + vstr(clean);
      std::vector<S> xs;
      for (size_t i = 0; i < M; ++i) xs.push_back(e->sample_corrupted(clean, &g));
      auto lp = [&](const S& v) { return d->logp({clean, v}); };
      for (size_t i = 0; i < M; i += 37) {
        double l = lp(xs[i]);
        if (!(l > -INFINITY)) c.fail(cls_positive(b, d), what + ": sampled " + vstr(xs[i]) + strf(" whose own log probability is %g", l));
      }
      if (b == "E.bitflip") check_discrete<S>(c, what, xs, {bit_not(clean)}, lp, true);
      else if constexpr (std::is_same_v<S, bool>) check_discrete<S>(c, what, xs, {false, true}, lp, true);
      if constexpr (std::is_same_v<S, int>) {
        std::vector<int> bins;
        if (b == "E.identity") bins.push_back(clean);
        else
          for (int i = 0; i < k.k; ++i) bins.push_back(i);
        check_discrete<S>(c, what, xs, bins, lp, true);
      }
      if constexpr (std::is_same_v<S, double>) {
        double atom = 0;
        std::vector<double> rest;
        for (double x : xs)
          if (x != clean || b == "E.gaussian") rest.push_back(x);
        if (b == "E.sometimes_gaussian") {
          atom = std::exp(lp(clean));
          std::string why;
          if (!g_ok({xs.size() - rest.size(), rest.size()}, {std::max(atom, 1e-9), std::max(1 - atom, 1e-9)}, &why))
            c.fail("sample-frequency", what + ": unchanged values do not occur at the stated rate: " + why);
        }
        auto* z = zmn_of<T>(d);
        if (1 - atom > 1e-4 && (!z || z->alpha + z->N / 2 > 0.02)) check_continuous(c, what, rest, lp, 1 - atom, heavy_tail(d), other_scale(d, clean));
      }
      if constexpr (std::is_same_v<S, std::string>) {
        for (size_t i = 0; i < xs.size(); i += 11)
          for (char ch : xs[i])
            if (ch < ' ' || ch > '~') c.fail("sample-support", what + strf(": sampled a character (code %d) outside its alphabet", (int)ch));
        if (auto* ss = dynamic_cast<SimpleStringEmission*>(d)) edits_like(c, what, clean, xs, s.seed, [&](bool learn, Rng& r) { return simple_edits(*ss, clean, learn, r); });
        auto sound = [](const BigramStringEmission& e) {  // an inexact undo (a known finding) may leave negative weights
          for (auto* l : {&e.insertions, &e.substitutions})
            for (auto& q : *l)
              for (double n : q.counts)
                if (n < 0) return false;
          return true;
        };
        if (auto* bs = dynamic_cast<BigramStringEmission*>(d); bs && sound(*bs)) edits_like(c, what, clean, xs, s.seed, [&](bool learn, Rng& r) { return bigram_edits(*bs, clean, learn, r); });
        // Only one alignment is scored, so the stated probabilities bound from below.
        if (b == "E.simple_string") {
          double tot = 0;
          std::set<std::string> bins = {"", clean};
          for (char ch = ' '; ch <= '~'; ++ch) {
            bins.insert(std::string(1, ch));
            bins.insert(clean + ch);
            bins.insert(ch + clean);
            if (!clean.empty()) bins.insert(clean.substr(1) + ch), bins.insert(ch + clean.substr(1));
          }
          for (size_t i = 0; i < xs.size(); i += 3) bins.insert(xs[i]);
          for (auto& v : bins) tot += std::exp(lp(v));
          if (!(tot <= 1 + 1e-6)) c.fail("not-normalised:simple_string", what + strf(": the probabilities of %zu of its possible values already sum to %.6g", bins.size(), tot));
        }
        c.count("frequency_tests");
      }
    }
  }
  // Corruption of a string as the emission's statistics state it: character
  // by character, insertions before each and at the end.  learn: an outcome
  // that was drawn counts for the next draw, as in the joint score.
  static std::string simple_edits(const SimpleStringEmission& e, const std::string& clean, bool learn, Rng& r) {
    struct Coin {
      double s, f;
    };
    auto coin = [](const BetaBernoulli& b) { return Coin{b.alpha + b.s, b.beta + b.N - b.s}; };
    Coin ins = coin(e.insertions), del = coin(e.deletions), sub = coin(e.substitutions);
    auto toss = [&](Coin& k) {
      bool x = r.unit() < k.s / (k.s + k.f);
      if (learn) (x ? k.s : k.f) += 1;
      return x;
    };
    auto any = [&] { return (char)r.range(e.lowest_char, e.highest_char); };
    std::string out;
    for (size_t i = 0; i <= clean.size(); ++i) {
      while (out.size() < 100000 && toss(ins)) out += any();
      if (i == clean.size() || toss(del)) continue;
      out += toss(sub) ? any() : clean[i];
    }
    return out;
  }
  static std::string bigram_edits(const BigramStringEmission& e, const std::string& clean, bool learn, Rng& r) {
    std::map<std::pair<int, int>, std::vector<double>> w;
    auto draw = [&](int kind, int ctx) {
      auto& v = w[{kind, ctx}];
      if (v.empty()) {
        const DirichletCategorical& d = kind ? e.substitutions[ctx] : e.insertions[ctx];
        for (double n : d.counts) v.push_back(n + d.alpha);
      }
      double t = 0;
      for (double x : v) t += x;
      t *= r.unit();
      size_t i = 0;
      while (i + 1 < v.size() && t >= v[i]) t -= v[i++];
      if (learn) v[i] += 1;
      return (int)i;
    };
    int ctx = 0;
    std::string out;
    for (size_t i = 0; i <= clean.size(); ++i) {
      while (int x = draw(0, ctx)) {
        out += (char)(e.lowest_char + x - 1);
        if (out.size() > 100000) break;
      }
      if (i == clean.size()) continue;
      ctx = clean[i] - e.lowest_char + 1;
      if (int x = draw(1, ctx)) out += (char)(e.lowest_char + x - 1);
    }
    return out;
  }
  template <class F> void edits_like(Ctx& c, const std::string& what, const std::string& clean, const std::vector<std::string>& xs, uint64_t seed, F ref) {
    auto features = [&](const std::string& x) {
      size_t n = clean.size();
      std::vector<bool> f = {x.empty(), x.size() < n, x.size() > n, x.size() > n + 1, x.size() > n + 4, x == clean};
      f.push_back(!x.empty() && !clean.empty() && x[0] == clean[0]);
      f.push_back(!x.empty() && !clean.empty() && x.back() == clean.back());
      f.push_back(!x.empty() && x[0] < 'O');
      f.push_back(!x.empty() && x.back() < 'O');
      f.push_back(n && x.size() > n && x.compare(0, n, clean) == 0);
      f.push_back(n && x.size() > n && x.compare(x.size() - n, n, clean) == 0);
      f.push_back(n && x.size() < n && clean.compare(0, x.size(), x) == 0);
      f.push_back(n && x.size() < n && clean.compare(n - x.size(), x.size(), x) == 0);
      return f;
    };
    static const char* names[] = {"empty", "shorter", "longer", "longer by two or more", "longer by five or more", "unchanged", "the first character is kept",
                                  "the last character is kept", "the first character is in the lower half", "the last character is in the lower half", "appended to",
                                  "prepended to", "cut at the end", "cut at the start"};
    std::vector<double> n[3];
    Rng r(seed ^ 0x51ed);
    for (auto& v : n) v.assign(14, 0);
    for (auto& x : xs) {
      auto f = features(x);
      for (size_t i = 0; i < f.size(); ++i) n[0][i] += f[i];
      for (int l = 0; l < 2; ++l) {
        auto q = features(ref(l, r));
        for (size_t i = 0; i < q.size(); ++i) n[1 + l][i] += q[i];
      }
    }
    double M = xs.size();
    for (size_t i = 0; i < 14; ++i) {
      double lo = std::min(n[1][i], n[2][i]), hi = std::max(n[1][i], n[2][i]);
      auto dev = [&](double m) { return 6 * std::sqrt(2 * std::max(m, 1.0) * std::max(1 - m / M, 1 / M)) + 8; };
      if (n[0][i] < lo - dev(lo) || n[0][i] > hi + dev(hi))
        c.fail("sample-frequency:edits", what + strf(": of %zu samples %.0f are so that '%s'; its statistics give %.0f", xs.size(), n[0][i], names[i], n[1][i]));
    }
    c.count("edit_tests");
  }
  template <class T> static ZeroMeanNormal* zmn_of(Distribution<T>* d) {
    if constexpr (std::is_same_v<T, double>) return dynamic_cast<ZeroMeanNormal*>(d);
    if constexpr (std::is_same_v<T, std::pair<double, double>>) {
      if (auto* e = dynamic_cast<GaussianEmission*>(d)) return &e->zmn;
      if (auto* e = dynamic_cast<Sometimes<double>*>(d)) return zmn_of<T>(e->be);
    }
    return nullptr;
  }
  // The predictive density with the spread counted twice (a known finding).
  template <class T> static std::function<double(double)> other_scale(Distribution<T>* d, double at) {
    auto* z = zmn_of<T>(d);
    if (!z) return nullptr;
    double a = z->alpha + z->N / 2, v = 2 * a, s2 = (z->beta + z->var * z->N) / a;
    return [=](double x) {
      return std::lgamma((v + 1) / 2) - std::lgamma(v / 2) - 0.5 * std::log(M_PI * v * s2) - (v + 1) / 2 * std::log1p((x - at) * (x - at) / (s2 * v));
    };
  }
  template <class T> static bool heavy_tail(Distribution<T>* d) {
    auto* z = zmn_of<T>(d);
    return z && z->alpha + z->N / 2 < 0.2;
  }
  // A Student distribution with almost no degrees of freedom has most of its
  // mass beyond the largest double.
  template <class T> static std::string cls_positive(const std::string& b, Distribution<T>* d) {
    auto* z = zmn_of<T>(d);
    return z && z->alpha + z->N / 2 < 0.02 ? "sample-impossible:degrees-of-freedom" : "sample-impossible:" + b;
  }
  void skellam(Ctx& c, const std::string& b, const std::vector<int>& xs, const std::function<double(int)>& lp) {
    std::vector<int> s = xs;
    std::sort(s.begin(), s.end());
    int q0 = s[0], q3 = s.back(), med = s[s.size() / 2];
    if ((long)q3 - q0 > 4000000 || std::abs((long)med) > 2000000000) return;  // too wide to enumerate, or beyond the int range
    // bins of equal width around the median; everything further out is one bin
    int w = std::max(1, (s[s.size() * 9 / 10] - s[s.size() / 10]) / 12);
    std::vector<double> p;
    std::vector<uint64_t> n;
    double tot = 0;
    if ((long)w * 20 > 400000) return;
    for (int k = -10; k <= 10; ++k) {
      double x = 0;
      for (int j = 0; j < w; ++j) x += std::exp(lp(med + k * w + j));
      p.push_back(x);
      tot += x;
      n.push_back(0);
    }
    if (std::isnan(tot)) c.fail("logp-nan", b + ": predictive log probability is NaN");
    if (tot > 1 + 1e-4) c.fail("not-normalised", b + strf(": probabilities sum to %.9g", tot));
    p.push_back(std::max(1e-6, 1 - tot));
    n.push_back(0);
    for (int v : xs) {
      double k = std::floor(((double)v - med) / w);
      if (k < -10 || k > 10) ++n.back();
      else ++n[(int)k + 10];
    }
    for (auto& x : p) x = std::max(x, 1e-7);
    std::string why;
    c.count("frequency_tests");
    if (!g_ok(n, p, &why)) c.fail("sample-frequency", b + ": samples do not follow the predictive probabilities: " + why);
  }

  template <class T>
  void hyper(const Kind& k, Distribution<T>* d, const Step& s, const std::vector<T>& pr, Ctx& c) {
    std::string b = kbase(k.name);
    std::vector<Atom> as;
    atoms<T>(as, b, d);
    if (!std::isfinite(d->logp_score())) return;
    std::vector<std::vector<double>> saved;
    bool heavy = false;
    for (auto& a : as) saved.push_back(a.get()), heavy |= a.heavy;
    Print before = print_of(d, pr);
    size_t M = (b == "E.bigram" ? 120 : heavy ? 300 : as.size() > 2 ? 500 : 1500) * scrutiny.factor;
    std::mt19937 g = step_prng(s);
    // Which atoms to follow.
    std::vector<size_t> watch;
    Rng rg(s.seed ^ 9);
    for (size_t i = 0; i < as.size(); ++i)
      if (as.size() < 10 || as[i].score() != 0.0 || rg.chance(0.03)) watch.push_back(i);
    if (watch.size() > 12) watch.resize(12);
    std::vector<std::map<std::vector<double>, uint64_t>> seen(as.size());
    for (size_t i = 0; i < M; ++i) {
      d->transition_hyperparameters(&g);
      for (size_t w : watch) ++seen[w][as[w].get()];
      if (d->N != before.n) c.fail("hyper-touched-data", b + ": hyperparameter move changed the number of observations");
    }
    for (size_t w : watch) {
      Atom& a = as[w];
      size_t n = 1;
      for (auto& x : a.axes) n *= x.size();
      std::vector<std::vector<double>> pts;
      std::vector<double> lp;
      for (size_t i = 0; i < n; ++i) {
        std::vector<double> v;
        size_t j = i;
        for (auto& x : a.axes) v.push_back(x[j % x.size()]), j /= x.size();
        pts.push_back(v);
        a.set(v);
        lp.push_back(a.score());
      }
      double mx = -INFINITY;
      for (double x : lp)
        if (!std::isnan(x)) mx = std::max(mx, x);
      std::vector<double> pp;
      for (double x : lp) pp.push_back(std::isnan(x) ? 0.0 : std::exp(x - mx));
      double tot = 0;
      for (double x : pp) tot += x;
      for (auto& x : pp) x /= tot;
      std::vector<uint64_t> cnt(n, 0);
      for (auto& [v, m] : seen[w]) {
        bool hit = false;
        for (size_t i = 0; i < n && !hit; ++i) {
          bool same = true;
          for (size_t j = 0; j < v.size(); ++j) same &= std::fabs(v[j] - pts[i][j]) <= 1e-9 * (1e-6 + std::fabs(pts[i][j]));
          if (same) cnt[i] += m, hit = true;
        }
        if (!hit) {
          std::string t;
          for (double x : v) t += strf(" %.9g", x);
          c.fail("off-grid:" + b, a.name + ": move left the value" + t + ", which is not on its grid");
        }
      }
      auto test = [&](std::vector<uint64_t> cc, std::vector<double> q, const std::string& what) {
        std::vector<uint64_t> c2;
        std::vector<double> p2;
        uint64_t rc = 0;
        double rp = 0;
        for (size_t i = 0; i < q.size(); ++i) {
          if (q[i] * M < 3) rc += cc[i], rp += q[i];
          else c2.push_back(cc[i]), p2.push_back(q[i]);
        }
        c2.push_back(rc), p2.push_back(std::max(rp, 1e-9));
        std::string why;
        c.count("frequency_tests");
        if (!g_ok(c2, p2, &why)) c.fail("hyper-frequency:" + b, a.name + what + ": values are not drawn in proportion to exp(score): " + why);
      };
      test(cnt, pp, "");
      for (size_t ax = 0; ax < a.axes.size() && a.axes.size() > 1; ++ax) {
        std::vector<uint64_t> mc(a.axes[ax].size(), 0);
        std::vector<double> mp(a.axes[ax].size(), 0);
        for (size_t i = 0; i < n; ++i) {
          size_t j = i;
          for (size_t q = 0; q < ax; ++q) j /= a.axes[q].size();
          j %= a.axes[ax].size();
          mc[j] += cnt[i], mp[j] += pp[i];
        }
        test(mc, mp, strf(" parameter %zu", ax));
      }
      a.set(saved[w]);
    }
    for (size_t i = 0; i < as.size(); ++i) as[i].set(saved[i]);
    auto e = diff(before, print_of(d, pr), pr, 1e-9);
    if (!e.empty()) c.fail("hyper-touched-data", b + ": with the parameters put back after hyperparameter moves, " + e);
    // Latent parameters: Metropolis-Hastings from the prior.
    Skellam* sk = nullptr;
    if constexpr (std::is_same_v<T, int>) sk = dynamic_cast<Skellam*>(d);
    if constexpr (std::is_same_v<T, std::string>)
      if (auto* a = dynamic_cast<DistributionAdapter<int>*>(d)) sk = dynamic_cast<Skellam*>(a->d);
    if (sk) {
      double m1 = sk->mu1, m2 = sk->mu2, base = d->logp_score();
      auto cell = [&](double a, double bb) {
        if (a == m1 && bb == m2) return 0;
        return 1 + (std::log(a) > sk->mean1) + 2 * (std::log(bb) > sk->mean2);
      };
      std::vector<uint64_t> got(5, 0);
      std::vector<double> want(5, 1e-4);
      size_t K = 800 * scrutiny.factor;
      for (size_t i = 0; i < K; ++i) {
        d->transition_theta(&g);
        if (d->N != before.n) c.fail("hyper-touched-data", b + ": theta move changed the number of observations");
        ++got[cell(sk->mu1, sk->mu2)];
        sk->mu1 = m1, sk->mu2 = m2;
      }
      std::mt19937 g2(s.seed * 3 + 1);
      std::normal_distribution<double> d1(sk->mean1, sk->stddev1), d2(sk->mean2, sk->stddev2);
      for (size_t i = 0; i < 8 * K; ++i) {
        sk->mu1 = std::exp(d1(g2)), sk->mu2 = std::exp(d2(g2));
        double acc = std::min(1.0, std::exp(d->logp_score() - base));
        if (std::isnan(acc)) acc = 0;
        want[cell(sk->mu1, sk->mu2)] += acc;
        want[0] += 1 - acc;
        sk->mu1 = m1, sk->mu2 = m2;
      }
      double tot = 0;
      for (double x : want) tot += x;
      for (size_t i = 1; i < 5; ++i) want[i] = std::max(want[i], tot * 3e-4);  // resolution of the reference run
      want[0] = std::max(want[0], tot * 3e-4);
      std::string why;
      c.count("frequency_tests");
      if (!g_ok(got, want, &why)) c.fail("theta-frequency:" + b, b + ": latent rates do not follow their Metropolis-Hastings move: " + why);
    }
  }

  // ------------------------------------------------------------ CRP
  void run_crp(const Plan& p, Ctx& c) {
    CRP r;
    std::map<int, int> seat;
    auto lscore = [&](const std::map<int, int>& z, double al) {
      std::map<int, int> n;
      for (auto& [e, t] : z) ++n[t];
      double l = std::lgamma(al) - std::lgamma(al + z.size());
      for (auto& [t, k] : n) l += std::log(al) + std::lgamma((double)k);
      return l;
    };
    auto print = [&] {
      std::vector<double> v = {(double)r.N, r.logp_score(), r.logp_new_table(), r.alpha};
      for (int t = 0; t < 7; ++t) v.push_back(r.logp(t));
      return v;
    };
    auto same = [&](const std::vector<double>& a, const std::vector<double>& b) {
      for (size_t i = 0; i < a.size(); ++i)
        if (!close(a[i], b[i], 1e-9)) return false;
      return true;
    };
    for (size_t si = 1; si < p.steps.size(); ++si) {
      const Step& s = p.steps[si];
      std::mt19937 g = step_prng(s);
      if (s.op == "inc") {
        if (seat.count(s.i(0))) continue;
        r.incorporate(s.i(0), s.i(1));
        seat[s.i(0)] = s.i(1);
      } else if (s.op == "unc") {
        if (seat.empty()) continue;
        auto it = seat.begin();
        std::advance(it, s.i(0) % seat.size());
        r.unincorporate(it->first);
        seat.erase(it);
      } else if (s.op == "hyper") {
        auto z = r.assignments;
        r.transition_alpha(&g);
        if (prop == "P07") {
          if (!(r.alpha > 0) || !std::isfinite(r.logp_score())) c.fail("score-undefined:crp", "concentration move left an undefined score");
          if (z != r.assignments) c.fail("hyper-touched-data", "concentration move changed the partition");
        }
      } else if (s.op == "undo") {
        if (seat.count(s.i(0)) || prop != "P20") continue;
        auto a = print();
        r.incorporate(s.i(0), s.i(1));
        r.unincorporate(s.i(0));
        if (!same(a, print())) c.fail("undo:crp", "adding and retracting a customer changes the table probabilities");
      } else if (s.op == "query") {
        auto a = print();
        Rng rg(s.seed);
        for (int i = 0; i < 4; ++i) {
          (void)r.sample(&g);
          (void)r.logp(rg.below(8));
          (void)r.tables_weights();
          (void)r.max_table();
          if (!seat.empty()) (void)r.tables_weights_gibbs(seat.begin()->second);
        }
        if (prop == "P20" && !same(a, print())) c.fail("query-changed:crp", "queries changed the table probabilities");
      } else if (s.op == "compose") {
        if (std::fabs(r.logp_score() - lscore(seat, r.alpha)) > 1e-7 * (1 + std::fabs(r.logp_score())))
          c.fail("score:crp", strf("score %.12g, Chinese restaurant process probability of this seating %.12g", r.logp_score(), lscore(seat, r.alpha)));
        Rng rg(s.seed);
        std::vector<std::pair<int, int>> v(seat.begin(), seat.end());
        for (int rep = 0; rep < 3; ++rep) {
          for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rg.below(i)]);
          CRP f;
          f.alpha = r.alpha;
          double sum = 0;
          std::map<int, int> rename;
          for (auto& [e, t] : v) {
            if (!rename.count(t)) {
              int nt = f.max_table() + 1;
              sum += f.logp(nt);
              rename[t] = nt;
            } else sum += f.logp(rename[t]);
            f.incorporate(e, rename[t]);
          }
          if (!close(sum, f.logp_score(), 1e-7)) c.fail("chain-rule:crp", strf("seating probabilities add up to %.12g, score %.12g", sum, f.logp_score()));
          if (!close(f.logp_score(), r.logp_score(), 1e-7)) c.fail("order:crp", "the same seating in another order scores differently");
          c.count("chains");
          for (auto& [e, t] : v) f.unincorporate(e);
          CRP n;
          n.alpha = r.alpha;
          if (f.N != 0 || !f.tables.empty() || !f.assignments.empty() || f.max_table() != n.max_table() || !close(f.logp_score(), n.logp_score()) || !close(f.logp(0), n.logp(0)))
            c.fail("emptied:crp", "emptied of its customers it differs from a new one");
        }
      } else if (s.op == "probe" && prop == "P21") {
        std::map<int, int> n;
        for (auto& [e, t] : seat) ++n[t];
        std::vector<int> bins;
        for (auto& [t, k] : n) bins.push_back(t);
        int nt = n.empty() ? 0 : n.rbegin()->first + 1;
        bins.push_back(nt);
        scrutinise(12, [&] {
          std::mt19937 g = step_prng(s);
          std::vector<int> xs;
          for (size_t i = 0; i < 4000 * scrutiny.factor; ++i) xs.push_back(r.sample(&g));
          check_discrete<int>(c, "crp", xs, bins, [&](const int& t) { return r.logp(t); }, true);
        });
        if (!close(r.logp(nt), r.logp_new_table(), 1e-9))
          c.fail("not-normalised", strf("crp: log probability of the new table is %.9g or %.9g depending on how one asks", r.logp(nt), r.logp_new_table()));
      } else if (s.op == "probe" && prop == "P07") {
        if (seat.empty()) continue;
        auto grid = logspace(1.0 / seat.size(), seat.size() + 1.0, 20);
        std::vector<double> pr;
        double mx = -INFINITY;
        for (double a : grid) pr.push_back(lscore(seat, a)), mx = std::max(mx, pr.back());
        for (auto& x : pr) x = std::exp(x - mx);
        scrutinise(12, [&] {
        std::mt19937 g = step_prng(s);
        std::vector<uint64_t> cnt(20, 0);
        double sa = r.alpha;
        auto z = r.assignments;
        for (size_t i = 0; i < 3000 * scrutiny.factor; ++i) {
          r.transition_alpha(&g);
          bool hit = false;
          for (int j = 0; j < 20 && !hit; ++j)
            if (std::fabs(r.alpha - grid[j]) < 1e-9 * (1 + grid[j])) ++cnt[j], hit = true;
          if (!hit) c.fail("off-grid:crp", strf("concentration move left %.9g, which is not on its grid", r.alpha));
        }
        r.alpha = sa;
        if (z != r.assignments) c.fail("hyper-touched-data", "concentration move changed the partition");
        std::string why;
        c.count("frequency_tests");
        if (!g_ok(cnt, pr, &why)) c.fail("hyper-frequency:crp", "concentration is not drawn in proportion to exp(score): " + why);
        });
      } else continue;
      c.count("op." + s.op);
      c.log(s.op + strf(" %.9g", r.logp_score()));
      c.state(hash_str(strf("crp %d %.9g", r.N, r.logp_score())));
    }
    c.count("kind.crp");
    c.nontrivial = !seat.empty();
  }

  void run_model(const Plan& p, Ctx& c) {
    Model m;
    for (auto& s : p.steps) {
      bool h = m.built() && (s.op == "hparams" || s.op == "domalpha" || s.op == "crpalpha");
      std::string a, b;
      std::map<std::string, double> n0;
      auto counts = [&] {
        std::map<std::string, double> r;
        for (auto& [t, im] : m.irms())
          for (auto& [rn, rv] : im->relations)
            with_clean(rv, m.specs.at(rn).clean, [&](auto* cr, auto) {
              for (auto& [z, cl] : cr->clusters) r[rn + ints(z)] = cl->N;
              return 0;
            });
        return r;
      };
      if (h) a = partition_digest(m), b = data_digest(m), n0 = counts();
      if (!m.apply(s, c)) continue;
      c.count("op." + s.op);
      if (h) {
        if (partition_digest(m) != a) c.fail("hyper-touched-data", s.op + " changed the partition");
        if (data_digest(m) != b) c.fail("hyper-touched-data", s.op + " changed the data");
        if (counts() != n0) c.fail("hyper-touched-data", s.op + " changed the cluster counts");
        double sc = m.score();
        if (!std::isfinite(sc)) {
          bool bg = false;
          for (auto& [r, sp] : m.specs) bg |= !sp.clean && sp.dist.rfind("bigram", 0) == 0;
          c.fail(bg ? "score-nan:bigram" : "score-undefined:model", "score is not finite after " + s.op);
        }
        c.nontrivial = true;
        c.count("model_level_moves");
      }
      if (m.built()) c.log(s.op + strf(" %.9g ", m.score()));
    }
  }

  void run(const Plan& p, Ctx& c) override {
    if (p.steps.empty()) return;
    if (p.steps[0].op == "kind") return run_model(p, c);
    if (p.steps[0].op != "dist") return;
    Kind k = kind_of(p.steps[0].s(0));
    switch (k.type) {
      case 'b': return run_t<bool>(k, p, c);
      case 'i': return run_t<int>(k, p, c);
      case 'd': return run_t<double>(k, p, c);
      case 's': return run_t<std::string>(k, p, c);
      case 'B': return run_t<std::pair<bool, bool>>(k, p, c);
      case 'I': return run_t<std::pair<int, int>>(k, p, c);
      case 'D': return run_t<std::pair<double, double>>(k, p, c);
      case 'S': return run_t<std::pair<std::string, std::string>>(k, p, c);
      case 'c': return run_crp(p, c);
    }
  }
  std::vector<std::string> real_components() override {
    return {"every distribution", "every emission", "CRP", "get_distribution / get_emission", "util_math.cc"};
  }
  std::vector<std::string> stub_components() override { return {"random numbers (seeded per step)"}; }
  std::string rule() override {
    return "one case = one seeded history (add, retract, parameter moves, queries) of one distribution, noise model or CRP, with the property's "
           "oracle applied along the way; non-trivial when data was held or retracted";
  }
  int default_runs(int tier) override { return tier ? 100000 : 4000; }
};
}  // namespace
std::unique_ptr<World> make_dist_world(const std::string& p) { return std::make_unique<DistWorld>(p); }
}  // namespace sim
