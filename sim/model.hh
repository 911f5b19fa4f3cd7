// A live HIRM or IRM driven by plan steps, its mirror, and the oracles that
// rebuild from scratch what the library maintains incrementally.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "core.hh"
#include "hirm.hh"
#include "irm.hh"
#include "observations.hh"

namespace sim {
struct RelSpec {
  std::string name;
  bool clean = true, observed = true;
  std::string dist;  // distribution text, or emission name[:k]
  std::vector<std::string> domains;
  std::string base;
  ObservationEnum type = ObservationEnum::bool_type;
};
std::vector<std::string> rel_args(const RelSpec& r);
RelSpec rel_parse(const Step& s);
T_relation to_relation(const RelSpec& r);
ObservationEnum dist_type(const std::string& dist);

ObservationVariant to_value(ObservationEnum t, const std::string& s);
std::string from_value(const ObservationVariant& v);

// ---- generation ----
struct GenOpts {
  int max_domains = 3, max_clean = 4, max_noisy = 3, max_arity = 3, max_entities = 5;
  bool noisy = true, noisy_of_noisy = true;
  bool strings = true, heavy = true;  // heavy: bigram models
  bool nonconj = true;                // skellam
  bool continuous = true;
  bool repeated_domains = true;
};
struct GenState {
  std::vector<RelSpec> rels;
  std::vector<std::string> doms;
  int entities = 4, names = 0;
  std::map<std::string, std::set<std::vector<int>>> cells;
  const RelSpec* find(const std::string& n) const;
  bool has_children(const std::string& n) const;
};
RelSpec gen_clean(Rng& g, GenState& s, const GenOpts& o);
bool gen_noisy(Rng& g, GenState& s, const GenOpts& o, RelSpec* out);
std::string gen_value(Rng& g, const RelSpec& r, const GenState& s);
void gen_schema(Rng& g, Plan& p, GenState& s, const GenOpts& o);
bool gen_obs(Rng& g, Plan& p, GenState& s);    // one obs step, base cells first
bool gen_unobs(Rng& g, Plan& p, GenState& s);  // one unobs step that is legal
const std::string& root_dist(const GenState& s, const RelSpec& r);

// ---- live model ----
struct Model {
  bool is_hirm = true;
  std::unique_ptr<HIRM> h;
  std::unique_ptr<IRM> m;
  std::map<std::string, RelSpec> specs;
  std::map<std::string, std::map<std::vector<int>, ObservationVariant>> given;  // what was put in
  // Largest number held so far: running means and variances are only as exact
  // as the rounding of that number allows.
  mutable double scale = 0;
  void build(uint64_t seed);
  bool built() const { return h || m; }
  std::vector<std::pair<int, IRM*>> irms() const;
  IRM* irm_of(const std::string& r) const;
  RelationVariant rel(const std::string& r) const;
  bool has(const std::string& r) const { return specs.count(r) && built(); }
  bool has_children(const std::string& r) const;
  bool contains(const std::string& r, const std::vector<int>& items) const;
  ObservationVariant value(const std::string& r, const std::vector<int>& items) const;
  double score() const { return is_hirm ? h->logp_score() : m->logp_score(); }
  // Performs one step.  Returns false when the step does not apply.
  bool apply(const Step& s, Ctx& c);
  std::function<void(const Step&)> before_infer;
};

// Oracles.  Each throws Violation through ctx.
void check_structure(const Model& m, Ctx& c);
void check_stats(const Model& m, Ctx& c);
void check_data(Model& m, Ctx& c);
std::string partition_digest(const Model& m);  // discrete state, canonical
std::string data_digest(const Model& m);

// Fresh distribution with the same hyperparameters and no data.
template <class T>
Distribution<T>* fresh_like(const CleanRelation<T>& rel, const Distribution<T>* d);
template <class T>
void copy_hypers(const Distribution<T>* src, Distribution<T>* dst);
template <class T>
bool path_dependent(const Distribution<T>* d);
// Rebuild score of one relation (clean or noisy) under partition `table_of`.
double rebuild_relation_score(const RelationVariant& rv, bool clean,
                              const std::function<int(const std::string&, int)>& table_of, bool* exact);
// Calls f(CleanRelation<...>*) on the clean relation, or on the emission
// relation of a noisy one.
template <class F>
auto with_clean(const RelationVariant& rv, bool clean, F f) {
  return std::visit(
      [&](auto* rel) {
        using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
        if (clean) return f(dynamic_cast<CleanRelation<T>*>(rel), nullptr);
        auto* n = dynamic_cast<NoisyRelation<T>*>(rel);
        return f(&n->emission_relation, n);
      },
      rv);
}
std::string vstr(const std::string& s);
std::string vstr(double d);
std::string vstr(int i);
std::string vstr(bool b);
template <class T>
std::string vstr(const std::pair<T, T>& p) {
  return vstr(p.first) + ">" + vstr(p.second);
}
}  // namespace sim
