import sys; sys.path.insert(0, '/verif/tools/plants')
from lib import plant
only = set(sys.argv[1:])
def P(id, *a, **k):
    if not only or id in only: plant(id, *a, **k)

P('p01-sampled-pair-swapped', 'P01',
  [('cxx/noisy_relation.hh', 'emission_relation.data[items] = {base_val, value};',
    'emission_relation.data[items] = {value, base_val};')],
  'a noisy cell that was sampled (not observed), whose sampled value differs from the clean one, and which is later moved to another cluster or removed under a noise model that is not symmetric',
  'the stored (clean, dirty) pair of a sampled cell is reversed, so retracting it removes something else from the statistics of its cluster than was added',
  cc=r'''
int main() {
  for (int seed = 0; seed < 20; ++seed) {
    std::mt19937 prng(seed);
    IRM irm({});
    irm.add_relation("B", clean("normal", {"D"}, false));
    irm.add_relation("N", noisy("gaussian", "B", {"D", "E"}));
    auto* b = std::get<Relation<double>*>(irm.relations.at("B"));
    auto* n = std::get<Relation<double>*>(irm.relations.at("N"));
    for (int i = 0; i < 4; ++i) irm.incorporate(&prng, "B", {i}, 1.5 * i);
    auto* nr = reinterpret_cast<NoisyRelation<double>*>(n);
    for (int i = 0; i < 4; ++i) n->sample_and_incorporate(&prng, {i, i % 2});
    (void)b;
    for (const auto& [items, v] : nr->emission_relation.get_data()) {
      double base = nr->get_base_value(items), noise = nr->get_value(items);
      CHECK(v.first == base && v.second == noise, "stored pair (%f,%f), cell (%f,%f)", v.first, v.second, base, noise);
    }
  }
}
''')

P('p01-partial-recluster', 'P01',
  [('cxx/clean_relation.hh', """      if ((domains[i]->name == domain.name) && (items[i] == item)) {
        z[i] = table;
        ++hits;""", """      if (hits < 2 && (domains[i]->name == domain.name) && (items[i] == item)) {
        z[i] = table;
        ++hits;""")],
  'a relation with at least three arguments over one domain, and an observation that names one entity three times, whose entity changes cluster',
  'the observation is filed under a cluster that is not the one its entities are in; it can never be retracted again and the score is off',
  cc=r'''
int main() {
  std::mt19937 prng(3);
  IRM irm({});
  irm.add_relation("R", clean("bernoulli", {"D", "D", "D"}));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k)
    irm.incorporate(&prng, "R", {i, j, k}, (i + j + k) % 2 == 0);
  auto* r = reinterpret_cast<CleanRelation<bool>*>(std::get<Relation<bool>*>(irm.relations.at("R")));
  for (int step = 0; step < 200; ++step) {
    irm.transition_cluster_assignments_all(&prng);
    std::map<std::vector<int>, int> n;
    for (const auto& [items, v] : r->get_data()) ++n[r->get_cluster_assignment(items)];
    for (const auto& [z, c] : n) {
      CHECK(r->clusters.contains(z), "missing cluster");
      CHECK(r->clusters.at(z)->N == c, "N %f of %d", (double)r->clusters.at(z)->N, c);
    }
  }
}
''')

P('p02-last-relation-decides', 'P02',
  [('cxx/irm.cc', """      irm_contains_item[{rel_domains[i], items[i]}] =
          irm_contains_item.at({rel_domains[i], items[i]}) || r_has_item;""",
    """      irm_contains_item[{rel_domains[i], items[i]}] = r_has_item;""")],
  'an observation is removed whose entity is also observed by another relation that happens to be visited before one that does not observe it',
  'the entity is taken out of the domain although another relation still observes it',
  cc=r'''
int main() {
  for (int drop = 0; drop < 3; ++drop) {
    for (int keep = 0; keep < 3; ++keep) {
      if (keep == drop) continue;
      std::mt19937 prng(3);
      IRM irm({});
      std::vector<std::string> names = {"Alpha", "Beta", "Gamma"};
      for (auto& n : names) irm.add_relation(n, clean("bernoulli", {"D"}));
      for (auto& n : names) irm.incorporate(&prng, n, {0}, true);
      irm.incorporate(&prng, names[drop], {7}, true);
      irm.incorporate(&prng, names[keep], {7}, false);
      irm.unincorporate(names[drop], {7});
      CHECK(irm.domains.at("D")->items.contains(7), "entity 7 lost (%d,%d)", drop, keep);
    }
  }
}
''')

P('p02-base-link-first-only', 'P02',
  [('cxx/hirm.cc', """            noisy_rel->base_relation = std::get<Relation<T>*>(get_relation(r));
          },
          noisy_rel_var);""", """            noisy_rel->base_relation = std::get<Relation<T>*>(get_relation(r));
          },
          noisy_rel_var);
      // The relations observed by another sub-model follow their own base.
      if (relation_to_table(nrel) != relation_to_table(r)) {
        break;
      }""")],
  'a base relation with at least two noisy relations, of which the first is in another sub-model than the one the base moves to',
  'the remaining noisy relations keep a pointer to the deleted base relation',
  cc=r'''
int main() {
  for (int seed = 0; seed < 40; ++seed) {
    std::mt19937 prng(seed);
    HIRM hirm({}, &prng);
    hirm.add_relation(&prng, "B", clean("normal", {"D"}, false));
    hirm.add_relation(&prng, "N1", noisy("gaussian", "B", {"D"}));
    hirm.add_relation(&prng, "N2", noisy("gaussian", "B", {"D"}));
    for (int i = 0; i < 3; ++i) {
      hirm.incorporate(&prng, "B", {i}, 1.0 * i);
      hirm.incorporate(&prng, "N1", {i}, 1.0 * i + 0.1);
      hirm.incorporate(&prng, "N2", {i}, 1.0 * i - 0.1);
    }
    for (int step = 0; step < 20; ++step) {
      hirm.transition_cluster_assignment_relation(&prng, "B");
      auto* b = std::get<Relation<double>*>(hirm.get_relation("B"));
      for (auto n : {"N1", "N2"}) {
        auto* nr = reinterpret_cast<NoisyRelation<double>*>(std::get<Relation<double>*>(hirm.get_relation(n)));
        CHECK(nr->base_relation == b, "%s lost its base", n);
      }
    }
  }
}
''')

P('p03-irm-observed-base-resampled', 'P03',
  [('cxx/irm.cc', """      if (std::visit([](const auto& s) { return !s.is_observed; },
                     irm->schema.at(rel))) {""",
    """      // Bases that are themselves observed through a noisy relation are fixed.
      const std::string& first_observer = nrels.front();
      if (std::visit([](const auto& s) { return !s.is_observed; },
                     irm->schema.at(rel)) ||
          irm->base_to_noisy_relations.contains(first_observer)) {""")],
  'irm mode, with a chain of noisy relations over an observed base relation',
  'the observed values of the base relation are resampled as if they were latent',
  cc=r'''
int main() {
  for (int seed = 0; seed < 10; ++seed) {
    std::mt19937 prng(seed);
    IRM irm({});
    irm.add_relation("B", clean("normal", {"D"}, true));
    irm.add_relation("M", noisy("gaussian", "B", {"D"}, false));
    irm.add_relation("N", noisy("gaussian", "M", {"D"}, true));
    for (int i = 0; i < 4; ++i) {
      irm.incorporate(&prng, "B", {i}, 1.0 * i);
      irm.incorporate(&prng, "M", {i}, 1.0 * i + 0.3);
      irm.incorporate(&prng, "N", {i}, 1.0 * i + 0.5);
    }
    inference_irm(&prng, &irm, 3, 0, false);
    auto* b = std::get<Relation<double>*>(irm.relations.at("B"));
    for (int i = 0; i < 4; ++i) CHECK(b->get_value({i}) == 1.0 * i, "B(%d) became %f", i, b->get_value({i}));
  }
}
''')

P('p04-fresh-prior-for-emptied-cluster', 'P04',
  [('cxx/clean_relation.hh', """    Distribution<ValueType>* cluster =
        clusters.contains(z) ? clusters.at(z) : prior;
    double logp0 = cluster->logp_score();""", """    Distribution<ValueType>* cluster =
        clusters.contains(z) && clusters.at(z)->N > 0 ? clusters.at(z) : prior;
    double logp0 = cluster->logp_score();""")],
  'an entity alone in its cluster, whose relation cluster has hyperparameters that were moved away from their defaults',
  'staying is scored with default hyperparameters although the cluster keeps its own, so the move is not drawn from the conditional of the model',
  cc=r'''
#include "distributions/beta_bernoulli.hh"
int main() {
  // One entity alone in a cluster with unusual hyperparameters.
  std::mt19937 prng(1);
  IRM irm({});
  irm.add_relation("R", clean("bernoulli", {"D"}));
  Domain* d = irm.domains.at("D");
  d->incorporate(&prng, 0, 0); d->incorporate(&prng, 1, 0); d->incorporate(&prng, 2, 1);
  for (int i = 0; i < 3; ++i) irm.incorporate(&prng, "R", {i}, i == 2);
  auto* r = reinterpret_cast<CleanRelation<bool>*>(std::get<Relation<bool>*>(irm.relations.at("R")));
  auto* bb = dynamic_cast<BetaBernoulli*>(r->clusters.at({1}));
  CHECK(bb != nullptr, "type");
  bb->alpha = 0.001; bb->beta = 1000.0;
  double stay = irm.logp_score();
  std::vector<double> lp = r->logp_gibbs_exact(*d, 2, {0, 1}, &prng);
  irm.unincorporate("R", {2});
  double without = r->logp_score();
  double with = lp[1];
  // logp of the item in its own cluster is the cluster's score.
  CHECK(std::abs(with - std::log(0.001 / 1000.001)) < 1e-6, "stay %f: %f", stay - without, with);
}
''')

P('p05-own-seat-counted', 'P05',
  [('cxx/hirm.cc', 'auto crp_dist = crp.tables_weights_gibbs(table_current);',
    """std::map<int, double> crp_dist = crp.tables_weights_gibbs(table_current);
  // The relation may always stay where it is.
  crp_dist.at(table_current) = crp.tables.at(table_current).size();""")],
  'any move of a relation between sub-models; visible only in long-run frequencies',
  'the relation counts itself when its own sub-model is weighed, so structures are not visited at their posterior frequencies',
  cc=r'''
int main() {
  // Two relations without data: together with probability 1/(1+alpha) = 1/2.
  std::mt19937 prng(1);
  HIRM hirm({}, &prng);
  hirm.add_relation(&prng, "R1", clean("bernoulli", {"D"}));
  hirm.add_relation(&prng, "R2", clean("bernoulli", {"E"}));
  hirm.add_relation(&prng, "R3", clean("bernoulli", {"F"}));
  int together = 0, n = 30000;
  for (int i = 0; i < n; ++i) {
    hirm.transition_cluster_assignments_all(&prng);
    together += hirm.irms.size() == 1;
  }
  double expect = std::exp(std::lgamma(3)) / 6;  // alpha = 1
  double f = together / (double)n;
  CHECK(std::abs(f - expect) < 0.03, "frequency %f, expected %f", f, expect);
}
''')

P('p06-latent-argmax', 'P06',
  [('cxx/transition_latent_value.hh', 'ValueType new_latent_value = latent_value_candidates[log_choice(logpx, prng)];',
    """ValueType new_latent_value = latent_value_candidates[std::distance(
      logpx.cbegin(), std::max_element(logpx.cbegin(), logpx.cend()))];""")],
  'a latent value with candidates of comparable score; visible only in frequencies',
  'the best candidate is always taken instead of drawing in proportion to the score',
  cc=r'''
#include "transition_latent_value.hh"
int main() {
  std::mt19937 prng(1);
  IRM irm({});
  irm.add_relation("B", clean("bernoulli", {"D"}, false));
  T_noisy_relation n1 = noisy("sometimes_bitflip", "B", {"D", "E"});
  irm.add_relation("N", n1);
  Domain* e = irm.domains.at("E");
  for (int i = 0; i < 4; ++i) irm.incorporate(&prng, "B", {i}, i % 2 == 0);
  // Two noise clusters: one that has seen flips, one that has not.
  e->incorporate(&prng, 0, 0); e->incorporate(&prng, 1, 1);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j)
    irm.incorporate(&prng, "N", {i, j}, bool((i % 2 == 0) != (j == 1)));
  auto* nr = reinterpret_cast<NoisyRelation<bool>*>(std::get<Relation<bool>*>(irm.relations.at("N")));
  auto* br = std::get<Relation<bool>*>(irm.relations.at("B"));
  (void)nr;
  // The move is a draw: with all scores equal, both values appear.
  std::vector<double> logpx = {0.0, 0.0};
  int ones = 0;
  for (int k = 0; k < 400; ++k) {
    std::vector<bool> cand = {false, true};
    std::unordered_map<std::string, NoisyRelation<bool>*> rels;
    T_noisy_observations<bool> obs;
    choose_and_incorporate_value<bool>(&prng, {0}, cand, logpx, obs, br, rels);
    ones += br->get_value({0});
  }
  CHECK(ones > 100 && ones < 300, "%d of 400", ones);
}
''')

P('p07-alpha-grid-shift', 'P07',
  [('cxx/distributions/crp.cc', """    this->alpha = g;
    double logp_g = logp_score();
    logps.push_back(logp_g);""", """    double logp_g = logp_score();
    this->alpha = g;
    logps.push_back(logp_g);""")],
  'any concentration move; visible only in the distribution of the values it leaves',
  'every grid value gets the score of its predecessor',
  cc=r'''
int main() {
  std::mt19937 prng(1);
  CRP crp;
  for (int i = 0; i < 30; ++i) crp.incorporate(i, i % 3);
  std::vector<double> grid;
  { // frequencies of the grid values against their scores
    std::map<double, int> seen; int n = 40000;
    for (int k = 0; k < n; ++k) { crp.transition_alpha(&prng); ++seen[crp.alpha]; }
    double best = 0; int bestc = 0;
    for (auto& [a, c] : seen) if (c > bestc) { bestc = c; best = a; }
    double ma = 0, ms = -1e300;
    for (auto& [a, c] : seen) { crp.alpha = a; double s = crp.logp_score(); if (s > ms) { ms = s; ma = a; } }
    crp.alpha = best; double sb = crp.logp_score();
    double fa = seen[ma] / (double)n, fb = bestc / (double)n;
    CHECK(std::abs(std::log(fa / fb) - (ms - sb)) < 0.1, "f(%g)=%f f(%g)=%f scores %f %f", ma, fa, best, fb, ms, sb);
  }
}
''')

P('p08-pointer-order', 'P08',
  [('cxx/irm.cc', """  // TRANSITION DISTRIBUTION HYPERPARAMETERS.
  for (const auto& [r, relation] : irm->relations) {
    std::visit(""", """  // TRANSITION DISTRIBUTION HYPERPARAMETERS.
  std::unordered_set<RelationVariant> relations_to_do;
  for (const auto& [unused_name, relation] : irm->relations) {
    relations_to_do.insert(relation);
  }
  for (const RelationVariant& relation : relations_to_do) {
    std::visit(""")],
  'a model with several relations, and two runs in which memory is laid out differently',
  'relations are visited in the order of their addresses, so the random draws go to different relations and the saved clusters differ between identical runs',
  sh=r'''
python3 - <<'P'
import random
r = random.Random(1)
names = ['r%d' % i for i in range(12)]
open('m.schema', 'w').write(''.join('%s ~ bernoulli(D)\n' % n for n in names))
open('m.obs', 'w').write(''.join('%d,%s,e%d\n' % (r.random() < .5, n, i) for n in names for i in range(12)))
P
for i in $(seq 1 12); do
  env PAD=$(head -c $((i * 5000)) /dev/zero | tr '\0' x) MALLOC_TOP_PAD_=$((i * 4096)) $HIRM --seed 5 --iters 4 m > /dev/null
  md5sum < m.5.hirm >> sums
done
[ "$(sort -u sums | wc -l)" = 1 ]
''')

P('p09-whole-seconds', 'P09',
  [('cxx/inference.cc', '#define GET_ELAPSED(t) double(clock() - t) / CLOCKS_PER_SEC',
    '#define GET_ELAPSED(t) double((clock() - t) / CLOCKS_PER_SEC)')],
  'a time budget, and sweeps short enough for one to start in the second after the budget is used up',
  'elapsed time is counted in whole seconds, so inference goes on for up to a second after the budget is exceeded',
  cc=r'''
#include <ctime>
static clock_t now = 0; static int calls = 0;
extern "C" clock_t clock() noexcept { ++calls; now += CLOCKS_PER_SEC / 10; return now; }
int main() {
  std::mt19937 prng(1);
  IRM irm({});
  irm.add_relation("R", clean("bernoulli", {"D"}));
  irm.incorporate(&prng, "R", {0}, true);
  clock_t begin = now;
  inference_irm(&prng, &irm, 1000, 2, false);
  double elapsed = double(now - begin) / CLOCKS_PER_SEC;
  // one sweep is less than a second
  CHECK(elapsed < 2.95, "stopped after %f s", elapsed);
}
''')

P('p10-two-digit-tables', 'P10',
  [('cxx/util_io.cc', """      irmc = std::stoi(x);""", """      irmc = x[0] - '0';""")],
  'a saved model with a sub-model whose number is at least 10, which takes many relations or many moves',
  'sub-models with two-digit numbers are read back under another number',
  cc=r'''
int main() {
  std::mt19937 prng(1);
  T_schema schema;
  std::ofstream s("m.schema"), o("m.obs"), c("m.hirm");
  for (int i = 0; i < 12; ++i) {
    s << "R" << i << " ~ bernoulli(D)\n";
    for (int j = 0; j < 3; ++j) o << (i + j) % 2 << ",R" << i << ",e" << j << "\n";
  }
  for (int i = 0; i < 12; ++i) c << i << " R" << i << "\n";
  for (int i = 0; i < 12; ++i) c << "\nirm=" << i << "\nD 0 e0 e1\nD " << i + 1 << " e2\n";
  s.close(); o.close(); c.close();
  HIRM hirm({}, &prng);
  from_txt(&prng, &hirm, "m.schema", "m.obs", "m.hirm", nullptr);
  for (int i = 0; i < 12; ++i) {
    CHECK(hirm.relation_to_table("R" + std::to_string(i)) == i, "R%d", i);
    auto& crp = hirm.irms.at(i)->domains.at("D")->crp;
    CHECK(crp.tables.size() == 2 && crp.tables.contains(i + 1), "irm %d", i);
  }
}
''')

P('p11-last-line', 'P11',
  [('cxx/util_io.cc', """  std::string line;
  while (std::getline(fp, line)) {
    std::istringstream stream(line);
    // Running out of memory must not look like the end of the line.
    stream.exceptions(std::ios::badbit);

    std::string value_str;""", """  std::string line;
  for (std::getline(fp, line); fp.good(); std::getline(fp, line)) {
    std::istringstream stream(line);
    // Running out of memory must not look like the end of the line.
    stream.exceptions(std::ios::badbit);

    std::string value_str;""")],
  'an observations file whose last line does not end in a newline',
  'the last observation is ignored',
  cc=r'''
int main() {
  std::ofstream s("m.schema"), o("m.obs");
  s << "R ~ bernoulli(D)\n"; o << "1,R,a\n0,R,b"; s.close(); o.close();
  T_schema schema = load_schema("m.schema");
  T_observations obs = load_observations("m.obs", schema);
  CHECK(obs.at("R").size() == 2, "%zu", obs.at("R").size());
}
''')

P('p12-save-error-swallowed', 'P12',
  [('cxx/hirm_main.cc', '#include <filesystem>\n', '#include <filesystem>\n#include <fstream>\n'),
   ('cxx/hirm_main.cc', """    path_save += ".hirm";
    std::cout << "saving to " << path_save << std::endl;
    to_txt(path_save, *hirm, encoding);
""", """    path_save += ".hirm";
    std::cout << "saving to " << path_save << std::endl;
    {
      std::stringstream clusters;
      to_txt(clusters, *hirm, encoding);
      std::ofstream out(path_save);
      out << clusters.str();
      if (!out.good()) {
        std::cout << "could not save to " << path_save << std::endl;
        return 1;
      }
    }
""")],
  'the device fills up (or fails) when the buffered clusters reach it, that is when the file is closed',
  'the clusters file is incomplete although the program exits with status zero',
  sh=r'''
printf 'R ~ bernoulli(D)\n' > m.schema
printf '1,R,a\n0,R,b\n' > m.obs
ln -s /dev/full m.5.hirm
if $HIRM --seed 5 --iters 1 m > out.txt 2>&1; then exit 1; fi
rm "$tmp/m.5.hirm"
$HIRM --seed 5 --iters 1 m > out.txt 2>&1
[ -s m.5.hirm ]
''')

P('p13-samples-appended', 'P13',
  [('cxx/util_io.cc', """                        std::variant<IRM*, HIRM*> h_irm) {
  std::ofstream fp(path);""", """                        std::variant<IRM*, HIRM*> h_irm) {
  std::ofstream fp(path, std::ios::app);""")],
  'hirm --samples run again after a run (complete or killed) that had written samples',
  'the samples of the earlier run stay in the result file',
  sh=r'''
printf 'R ~ bernoulli(D)\n' > m.schema
printf '1,R,a\n0,R,b\n1,R,c\n' > m.obs
$HIRM --seed 5 --iters 1 --samples 2 m > out.txt 2>&1
cp m.5.hirm.samples first
$HIRM --seed 5 --iters 1 --samples 2 m > out.txt 2>&1
cmp first m.5.hirm.samples
''')

P('p14-grandparent-refs-left', 'P14',
  [('cxx/gendb.cc', """    for (auto [k, v] : unincorporated_from_entity_crps) {
      auto [ref_class, field, item] = k;
      reference_values.at(ref_class).erase({field, item});
    }""", """    for (auto [k, v] : unincorporated_from_entity_crps) {
      auto [parent_class, field, item] = k;
      if (parent_class == ref_class) {
        reference_values.at(parent_class).erase({field, item});
      }
    }""")],
  'a schema with three levels of references, and a row that leaves an entity which nothing else refers to and whose own parent nothing else refers to',
  'references of entities that no longer exist are left behind',
  cc=r'''
#include "pclean/io.hh"
int main() {
  std::stringstream ss(R"(
class A
  a ~ real

class B
  aa ~ A
  b ~ real

class C
  bb ~ B
  c ~ real

class Rec
  cc ~ C

observe
  cc.bb.aa.a as Aval
  cc.bb.b as Bval
  cc.c as Cval
  from Rec
)");
  PCleanSchema schema;
  CHECK(read_schema(ss, &schema), "schema");
  for (int seed = 0; seed < 15; ++seed) {
    std::mt19937 prng(seed);
    GenDB g(&prng, schema, false, true);
    for (int i = 0; i < 6; ++i)
      g.incorporate(&prng, {i, {{"Aval", 1.0 * (i % 2)}, {"Bval", 2.0 * (i % 2)}, {"Cval", 1.0 * (i % 2)}}}, true);
    for (int k = 0; k < 15; ++k) {
      g.transition_reference_class_and_ancestors(&prng, "Rec");
      std::map<std::string, std::string> target = {{"Rec", "C"}, {"C", "B"}, {"B", "A"}};
      for (const auto& [cls, vals] : g.reference_values)
        for (const auto& [key, v] : vals) {
          if (cls == "Rec") continue;
          CHECK(g.entity_crps.at(cls).tables.contains(key.second), "seed %d: %s %d refers to %d but does not exist", seed, cls.c_str(), key.second, v);
        }
    }
  }
}
''')

P('p15-early-return', 'P15',
  [('cxx/gendb.cc', """  if (crp_dist.size() == 1) {
    // Can only re-incorporate into the same table.
    return;
  }
""", ""), ('cxx/gendb.cc', """  std::vector<int> entities(crp_dist.size());
  std::vector<double> logps(crp_dist.size(), 0.);
""", """  if (crp_dist.size() == 1) {
    // Can only re-incorporate into the same table.
    return;
  }

  std::vector<int> entities(crp_dist.size());
  std::vector<double> logps(crp_dist.size(), 0.);
""")],
  'a table with a single row (or a class with a single reference to it)',
  'the observed cells of the only row are dropped',
  cc=r'''
#include "pclean/io.hh"
int main() {
  std::stringstream ss(R"(
class A
  a ~ real

class Rec
  aa ~ A

observe
  aa.a as Aval
  from Rec
)");
  PCleanSchema schema;
  CHECK(read_schema(ss, &schema), "schema");
  std::mt19937 prng(1);
  GenDB g(&prng, schema, false, true);
  g.incorporate(&prng, {0, {{"Aval", 3.5}}}, true);
  for (int k = 0; k < 3; ++k) {
    g.transition_reference_class_and_ancestors(&prng, "Rec");
    auto* r = std::get<Relation<double>*>(g.hirm->get_relation("Aval"));
    CHECK(r->get_data().size() == 1, "%zu cells", r->get_data().size());
  }
}
''')

P('p17-samples-share-row', 'P17',
  [('cxx/pclean/pclean_lib.cc', """  for (const auto& [name, query_field] : gendb->schema.query.fields) {
    T_items entities = gendb->sample_entities_relation(""", """  for (const auto& [name, query_field] : gendb->schema.query.fields) {
    if (query_field.class_path.size() > 3) {
      continue;
    }
    T_items entities = gendb->sample_entities_relation(""")],
  'a query field that is reached through at least three references',
  'the column of a deeply nested query field is missing its cells in the samples table',
  sh=r'''
cat > s.schema <<'S'
class A
  a ~ real

class B
  aa ~ A

class C
  bb ~ B

class Rec
  cc ~ C
  x ~ real

observe
  cc.bb.aa.a as Aval
  x as X
  from Rec
S
printf 'Aval,X\n1.5,2\n2.5,3\n' > o.csv
$PCLEAN --schema s.schema --obs o.csv --output out --iters 1 --samples 3 > log 2>&1
python3 - <<'P'
import csv
rows = list(csv.reader(open('out.samples')))
assert set(rows[0]) == {'Aval', 'X'} and len(rows) == 4, rows
assert all(len(r) == 2 and all(r) for r in rows), rows
P
''')

P('p18-new-entity-weights', 'P18',
  [('cxx/irm.cc', 'double Z = log(domain->crp.alpha + domain->crp.N);', 'double Z = log(1. + domain->crp.N);')],
  'a held-out observation with a new entity, in a domain whose concentration has been moved away from one',
  'the weights of the clusters a new entity may join do not sum to one, so the probabilities of all values of a cell do not either',
  cc=r'''
int main() {
  std::mt19937 prng(1);
  IRM irm({});
  irm.add_relation("R", clean("bernoulli", {"D"}));
  for (int i = 0; i < 4; ++i) irm.incorporate(&prng, "R", {i}, i % 2 == 0);
  irm.domains.at("D")->crp.alpha = 0.25;
  double p = 0;
  for (bool v : {false, true}) p += std::exp(irm.logp({{"R", {99}, v}}, &prng));
  CHECK(std::abs(p - 1) < 1e-9, "sum %f", p);
}
''')

P('p20-adapter-loses-weight', 'P20',
  [('cxx/emissions/simple_string.hh', """      // All of clean must have be deleted.
      deletions.incorporate(1, weight * clean.length());""", """      // All of clean must have be deleted.
      deletions.incorporate(1, weight > 0 ? weight * clean.length() : weight);""")],
  'retracting an observation in which more than one character was deleted at the end',
  'what is retracted is not what was added',
  cc=r'''
#include "emissions/simple_string.hh"
int main() {
  SimpleStringEmission e;
  e.incorporate({"abc", "abd"});
  double s0 = e.logp_score();
  e.incorporate({"wxyz", ""});
  e.unincorporate({"wxyz", ""});
  CHECK(std::abs(e.logp_score() - s0) < 1e-9, "%f %f", s0, e.logp_score());
}
''')


P('p16-singleton-cluster-ignored', 'P16',
  [('cxx/clean_relation.hh', '''    if (clusters_contains(items)) {
      T_items z = get_cluster_assignment(items);
      return clusters.at(z)->sample(prng);
    }''', '''    if (clusters_contains(items)) {
      T_items z = get_cluster_assignment(items);
      // A lone observation says little about its cluster.
      if (clusters.at(z)->N > 1) {
        return clusters.at(z)->sample(prng);
      }
    }''')],
  'a new cell that falls in a cluster holding one observation; visible only in the frequencies of the sampled values',
  'the value is drawn from the prior instead of the predictive distribution of the cluster',
  cc=r'''
int main() {
  int ones = 0, n = 0;
  for (int seed = 0; seed < 3000; ++seed) {
    std::mt19937 prng(seed);
    HIRM hirm({}, &prng);
    hirm.add_relation(&prng, "R", clean("bernoulli", {"D", "E"}));
    hirm.incorporate(&prng, "R", {0, 0}, true);
    auto obs = hirm.sample_and_incorporate(&prng, 1);
    auto* r = reinterpret_cast<CleanRelation<bool>*>(std::get<Relation<bool>*>(hirm.get_relation("R")));
    T_items items = std::get<0>(obs["R"][0]);
    if (r->get_cluster_assignment(items) != r->get_cluster_assignment({0, 0})) continue;
    ++n;
    ones += r->get_value(items);
  }
  // Beta(1, 1) prior, one success seen: 2/3.
  CHECK(n > 300, "%d", n);
  CHECK(std::abs(ones / (double)n - 2.0 / 3) < 4.5 * std::sqrt(2.0 / 9 / n), "%d of %d", ones, n);
}
''')

P('p19-doubled-letters', 'P19',
  [('cxx/distributions/bigram.cc', '''    // Incorporate each value so that subsequent probabilities are
    // conditioned on it.
    transition_dists[indices[i]].incorporate(indices[i + 1]);
  }
  for (size_t i = 0; i != indices.size() - 1; ++i) {
    transition_dists[indices[i]].unincorporate(indices[i + 1]);
  }
  return total_logp;''', '''    // Incorporate each value so that subsequent probabilities are
    // conditioned on it, unless the same character doesn't come again.
    recurs[i] = i + 2 < indices.size() &&
        std::find(indices.begin() + i + 2, indices.end() - 1, indices[i]) !=
            indices.end() - 1;
    if (recurs[i]) {
      transition_dists[indices[i]].incorporate(indices[i + 1]);
    }
  }
  for (size_t i = 0; i != indices.size() - 1; ++i) {
    if (recurs[i]) {
      transition_dists[indices[i]].unincorporate(indices[i + 1]);
    }
  }
  return total_logp;'''),
   ('cxx/distributions/bigram.cc', '''  double total_logp = 0.0;
  for (size_t i = 0; i != indices.size() - 1; ++i) {''', '''  std::vector<bool> recurs(indices.size());
  double total_logp = 0.0;
  for (size_t i = 0; i != indices.size() - 1; ++i) {'''),
   ('cxx/distributions/bigram.cc', '#include <cassert>\n', '#include <algorithm>\n#include <cassert>\n')],
  'a string in which a letter is doubled and does not occur again later',
  'the predictive probabilities of such strings do not compose to the joint score',
  cc=r'''
#include "distributions/bigram.hh"
int main() {
  for (std::string w : {"hello", "aa", "abcabc", "aaa", "zoo", "abba", "x"}) {
    Bigram b;
    b.incorporate("seed");
    double s0 = b.logp_score(), lp = b.logp(w);
    b.incorporate(w);
    CHECK(std::abs(b.logp_score() - s0 - lp) < 1e-8, "%s: %f %f", w.c_str(), b.logp_score() - s0, lp);
  }
}
''')

P('p21-crp-unit-concentration', 'P21',
  [('cxx/distributions/crp.cc', '''  auto crp_dist = tables_weights();
  std::vector<int> items(crp_dist.size());''', '''  auto crp_dist = tables_weights();
  if (crp_dist.size() == 2 && N > 0) {
    // Only one table to join or leave: no need to build the lists.
    std::uniform_real_distribution<double> u(0.0, 1.0);
    return u(*prng) * (N + 1) < N ? crp_dist.begin()->first
                                  : crp_dist.rbegin()->first;
  }
  std::vector<int> items(crp_dist.size());''')],
  'a partition with a single cluster and a concentration that is not one; visible only in frequencies',
  'the cluster of a new entity is drawn as if the concentration were one',
  cc=r'''
#include "distributions/crp.hh"
int main() {
  std::mt19937 prng(1);
  for (double alpha : {0.2, 1.0, 5.0}) {
    CRP crp;
    crp.alpha = alpha;
    for (int i = 0; i < 4; ++i) crp.incorporate(i, 0);
    int fresh = 0, n = 40000;
    for (int k = 0; k < n; ++k) fresh += crp.sample(&prng) != 0;
    double p = alpha / (4 + alpha), f = fresh / (double)n;
    CHECK(std::abs(f - p) < 0.02, "alpha %f: %f, expected %f", alpha, f, p);
  }
}
''')
