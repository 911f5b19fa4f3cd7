// A live GenDB driven by plan steps.
#pragma once
#include "gendb.hh"
#include "inference.hh"
#include "model.hh"
#include "pc_gen.hh"

namespace sim {
struct Db {
  PcGen gen;
  PCleanSchema schema;
  std::unique_ptr<GenDB> db;
  Model view;  // borrows db->hirm for the structural oracles
  std::set<int> rows;
  std::map<std::string, std::map<int, ObservationVariant>> given;  // column -> row -> value
  bool only_final = false, clean = true;
  ~Db() { view.h.release(); }
  std::map<std::string, std::string> vars(const std::string& c) const {
    std::map<std::string, std::string> m;
    for (auto& [v, t] : gen.find(c)->vars) m[v] = t;
    return m;
  }
  void build(uint64_t seed) {
    schema = pc_parse(gen);
    std::mt19937 prng((uint32_t)seed);
    db = std::make_unique<GenDB>(&prng, schema, only_final, clean);
    view.h.reset(db->hirm);
    for (auto& [r, t] : db->hirm->schema) {
      RelSpec s;
      s.name = r;
      if (auto* c = std::get_if<T_clean_relation>(&t)) {
        s.domains = c->domains;
        s.observed = c->is_observed;
        s.dist = strf("distribution%d", (int)c->distribution_spec.distribution);
        s.type = c->distribution_spec.observation_type;
      } else {
        auto& n = std::get<T_noisy_relation>(t);
        s.clean = false;
        s.domains = n.domains;
        s.base = n.base_relation;
        s.observed = n.is_observed;
        s.type = n.emission_spec.observation_type;
      }
      view.specs[r] = s;
    }
  }
  int ref(const std::string& c, const std::string& f, int item, Ctx& x) const {
    auto& m = db->reference_values.at(c);
    auto it = m.find({f, item});
    if (it == m.end()) x.fail("reference-missing", strf("%s %d has no value for its reference %s, though cells depend on it", c.c_str(), item, f.c_str()));
    return it->second;
  }
  void expand(const std::string& c, int item, std::vector<int>& out, Ctx& x) const {
    for (auto& [v, t] : vars(c))
      if (is_class_type(t)) expand(t, ref(c, v, item, x), out, x);
    out.push_back(item);
  }
  // The entities a cell of relation r that belongs to `item` must name, and
  // the class that owns the cell.
  std::vector<int> expected(const std::string& r, int item, std::string* owner, Ctx& x) const {
    std::vector<int> out;
    std::string field = r, at;
    auto dc = r.find("::");
    if (dc != std::string::npos) {
      at = r.substr(0, dc);
      field = r.substr(dc + 2);
    } else if (r.find(':') != std::string::npos) {
      *owner = r.substr(0, r.find(':'));
      expand(*owner, item, out, x);
      return out;
    }
    std::string path;
    for (auto& [f, p] : gen.fields)
      if (f == field) path = p;
    auto cls = gen.path_classes(path);
    auto vs = split(path, '.');
    size_t i = 0;
    if (!at.empty())
      while (cls[i] != at) ++i;
    *owner = cls[i];
    std::vector<int> e = {item};
    for (size_t k = i; k + 1 < cls.size(); ++k) e.push_back(ref(cls[k], vs[k], e.back(), x));
    expand(cls.back(), e.back(), out, x);
    for (size_t k = e.size() - 1; k-- > 0;) out.push_back(e[k]);
    return out;
  }
};

inline std::string db_digest(const Db& d) {
  std::string o;
  for (auto& [c, m] : d.db->reference_values) {
    o += c + "{";
    for (auto& [k, v] : m) o += k.first + strf("%d>%d ", k.second, v);
    o += "}";
  }
  return o;
}
inline void db_gen_row(Rng& g, Plan& p, const PcGen& s, bool uniq, int* id) {
  std::vector<std::string> a = {std::to_string(*id), (g.chance(0.85) ? uniq : !uniq) ? "1" : "0"};
  for (auto& [f, path] : s.fields)
    if (g.chance(0.85)) {
      a.push_back(f);
      std::string v = pc_value(g, s.path_type(path));
      // A clean column of the record class only takes values of its domain.
      if (path.find('.') == std::string::npos && s.path_type(path).rfind("stringcat", 0) == 0) v = g.chance(0.5) ? "a" : "bb";
      a.push_back(v);
    }
  p.add(g, "row", a);
  *id += g.chance(0.9) ? 1 : g.range(2, 9);
}
inline bool db_apply(Db& d, const Step& s, Ctx& c) {
  std::mt19937 prng = step_prng(s);
  if (s.op == "build") {
    if (d.db || d.gen.fields.empty()) return false;
    d.only_final = s.i(0);
    d.clean = s.i(1);
    d.build(s.seed);
    return true;
  }
  if (!d.db) return false;
  if (s.op == "row") {
    int id = s.i(0);
    if (d.rows.count(id)) return false;
    std::map<std::string, ObservationVariant> v;
    for (size_t k = 2; k + 1 < s.a.size(); k += 2) {
      bool ok = false;
      for (auto& [f, path] : d.gen.fields) ok |= f == s.a[k];
      if (!ok) continue;
      std::visit([&](auto* r) { v[s.a[k]] = r->from_string(s.a[k + 1]); }, d.view.rel(s.a[k]));
    }
    d.db->incorporate(&prng, {id, v}, s.i(1));
    d.rows.insert(id);
    for (auto& [f, x] : v) d.given[f][id] = x;
    c.nontrivial = true;
  } else if (s.op == "tref") {
    std::vector<std::tuple<std::string, std::string, int>> all;
    for (auto& [cl, m] : d.db->reference_values)
      for (auto& [k, v] : m) all.push_back({cl, k.first, k.second});
    if (all.empty()) return false;
    auto& [cl, f, item] = all[s.seed % all.size()];
    d.db->transition_reference(&prng, cl, f, item);
  } else if (s.op == "transall") {
    d.db->transition_reference_class_and_ancestors(&prng, d.gen.record());
  } else if (s.op == "hirm") {
    inference_hirm(&prng, d.db->hirm, s.i(0), 0, false);
  } else if (s.op == "infer") {
    inference_gendb(&prng, d.db.get(), s.i(0), s.i(1), 0, false);
  } else return false;
  return true;
}
}  // namespace sim
