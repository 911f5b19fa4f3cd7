#!/usr/bin/env python3
import sys
sys.path.insert(0, '/verif/tools/plants')
import lib
ONLY = set(sys.argv[1:])

def P(id, *a, **k):
    if not ONLY or id in ONLY: lib.plant(id, *a, **k)

REFS = r'''
#include <map>
#include <set>
#include "pclean/io.hh"
// Long runs of reference moves on three rows must visit every state in
// proportion to exp(score).
static std::string key(GenDB& g, int rows) {
  std::map<int, int> id;
  std::string o;
  for (int r = 0; r < rows; ++r) {
    int e = g.reference_values.at("Rec").at({"c", r});
    if (!id.count(e)) { int k = id.size(); id[e] = k; }
    o += std::to_string(id[e]);
  }
  for (auto& [name, t] : g.hirm->schema) {
    std::map<int, std::string> vals;
    if (name == "City:s")
      std::visit([&](auto* q) { for (auto& [items, v] : q->get_data()) { std::ostringstream s; s << v; vals[id[items[0]]] = s.str(); } }, g.hirm->get_relation(name));
    for (auto& [k, v] : vals) o += "," + std::to_string(k) + "=" + v;
  }
  for (auto& [c, irm] : g.hirm->irms)
    for (auto& [d, dom] : irm->domains) {
      std::set<std::set<int>> parts;
      for (auto& [t, s] : dom->crp.tables) { std::set<int> m; for (int e : s) m.insert(d == "City" ? id[e] : e); parts.insert(m); }
      o += "|" + std::to_string(c) + d;
      for (auto& m : parts) { o += ";"; for (int e : m) o += std::to_string(e); }
    }
  return o;
}
int main() {
  std::stringstream ss("class City\n  s ~ bool\n\nclass Rec\n  c ~ City\n\nobserve\n  c.s as F\n  from Rec\n");
  PCleanSchema schema;
  CHECK(read_schema(ss, &schema), "schema");
  std::mt19937 prng(5);
  GenDB g(&prng, schema, false, true);
  const int rows = 3;
  for (int i = 0; i < rows; ++i) g.incorporate(&prng, {i, {{"F", i != 2}}}, false);
  for (auto& [c, crp] : g.entity_crps) crp.alpha = 1.7;
  std::map<std::string, std::pair<double, double>> seen;
  const int n = 600000;
  for (int k = 0; k < n; ++k) {
    g.transition_reference(&prng, "Rec", "c", k % rows);
    auto& e = seen[key(g, rows)];
    if (e.first == 0) e.second = g.logp_score();
    e.first += 1;
  }
  // Compare by which rows refer to the same entity.
  double z = 0, worst = 0;
  std::map<std::string, std::pair<double, double>> parts;
  for (auto& [k, e] : seen) z += std::exp(e.second);
  for (auto& [k, e] : seen) {
    auto& p = parts[k.substr(0, rows)];
    p.first += std::exp(e.second) / z;
    p.second += e.first / n;
  }
  for (auto& [k, p] : parts) {
    printf("%s %.4f %.4f\n", k.c_str(), p.first, p.second);
    if (p.first > 0.01 || p.second > 0.01) worst = std::max(worst, std::fabs(std::log(p.first / p.second)));
  }
  printf("%zu states, largest deviation %.3f\n", seen.size(), worst);
  CHECK(seen.size() > 5, "states");
  CHECK(worst < 0.045, "an arrangement is visited %.2f times as often as its probability says", std::exp(worst));
}
'''

P('p24-own-weight-missing', 'P24',
  [('cxx/gendb.cc', '''    logps[i] += log(n_customers);

    reference_values.at(class_name).at({ref_field, class_item}) = table;

    if (table == init_refval) {
      logps[i++] += logp_current;
      continue;
    }
''', '''    reference_values.at(class_name).at({ref_field, class_item}) = table;

    if (table == init_refval) {
      logps[i++] += logp_current;
      continue;
    }
    logps[i] += log(n_customers);
''')],
  'a reference whose present entity is referred to by other references as well (or a concentration that is not one); visible only in frequencies',
  'the entity a reference already has is weighed as if one reference named it, however many do',
  cc=REFS)

P('p24-own-value-counted', 'P24',
  [('cxx/gendb.cc', '''  rel->unincorporate_from_cluster(items);
  std::mt19937* prng = nullptr;  // unused
  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
''', '''  std::mt19937* prng = nullptr;  // unused
  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
  rel->unincorporate_from_cluster(items);
''')],
  'any reference move; visible only in frequencies',
  'a candidate is weighed by the probability of the moved values in clusters that already hold them, which favours candidates whose clusters hold little else',
  cc=REFS)
