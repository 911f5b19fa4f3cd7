# (name, property, [(file, old, new)...]): hand-written changes for tools/hand.py.
M = []
def m(name, prop, *edits): M.append((name, prop, edits))

H = 'cxx/hirm.cc'; I = 'cxx/irm.cc'; C = 'cxx/clean_relation.hh'; N = 'cxx/noisy_relation.hh'; T = 'cxx/transition_latent_value.hh'
D = 'cxx/distributions/'; E_ = 'cxx/emissions/'; G = 'cxx/gendb.cc'; U = 'cxx/util_io.cc'; P = 'cxx/pclean/'; INF = 'cxx/inference.cc'

m('code-from-size', 'P02', (H, 'int rc = 1 + offset;', 'int rc = 1 + (int)code_to_relation.size(); (void)offset;'))
m('observations-by-ref', 'P22', (H, 'auto observations = rel->get_data();\n    // Remove', 'const auto& observations = rel->get_data();\n    // Remove'))
m('domain-crps-first-irm', 'P16', (H, '      for (const auto& [item, table] : domain->crp.assignments) {\n        int crp_item', '      if (domain_crps->contains(domain_name)) continue;\n      for (const auto& [item, table] : domain->crp.assignments) {\n        int crp_item'))
m('undo-first-entity-only', 'P16', (H, '''          for (size_t i = 0; i < entities.size(); ++i) {
            domain_crps[domain_and_crps[i].first]''', '''          for (size_t i = 0; i < 1; ++i) {
            domain_crps[domain_and_crps[i].first]'''))
m('leaf-means-clean', 'P16', (H, 'if (!base_to_noisy_relations.contains(r)) {\n      const', 'if (std::holds_alternative<T_clean_relation>(spec) || !base_to_noisy_relations.contains(r)) {\n      const'))
m('sampled-base-not-refreshed', 'P16 P01 P02 P03 P17', (N, '    emission_relation.data[items] = {base_val, value};\n    return value;', '    emission_relation.data[items] = {value, value};\n    return value;'))
m('data-r-stale-tail', 'P02', (C, 'if (data_r.at(name).at(items[i]).size() == 0) {', 'if (i == 0 && data_r.at(name).at(items[i]).size() == 0) {'))
m('gibbs-first-hit', 'P04', (C, '''      if ((domains[i]->name == domain.name) && (items[i] == item)) {''', '''      if (hits == 0 && (domains[i]->name == domain.name) && (items[i] == item)) {'''))
m('update-value-order', 'P01', (N, '''    data.at(items) = value;
    const ValueType& base_value = get_base_value(items);
    emission_relation.update_value(items, std::make_pair(base_value, value));''', '''    const ValueType& base_value = get_base_value(items);
    emission_relation.update_value(items, std::make_pair(base_value, data.at(items)));
    data.at(items) = value;'''))
m('base-items-index-stays', 'P02', (N, '    base_to_noisy_items.at(base_items).erase(items);\n    if (base_to_noisy_items.at(base_items).empty()) {', '    if (base_to_noisy_items.at(base_items).size() > 1) {\n      base_to_noisy_items.at(base_items).erase(items);\n    } else {'))
m('latent-skips-repeat-candidates', 'P06', (T, '      latent_value_candidates.push_back(candidate);', '''      bool seen = false;
      for (const auto& c : latent_value_candidates) seen = seen || c == candidate;
      if (!seen) latent_value_candidates.push_back(candidate);'''))
m('latent-no-base-score', 'P06', (T, 'double candidate_logp_score = base_relation->logp_score();', 'double candidate_logp_score = 0;'))
m('latent-last-observer', 'P06', (T, '      candidate_logp_score += rel->logp_score();', '      if (!noisy_observations.at(name).empty()) candidate_logp_score += rel->logp_score() / noisy_observations.at(name).size();'))
m('timeout-le', 'P09', (INF, '    if (timeout < elapsed) {  ', '    if (timeout + 0.5 < elapsed) {  '))
m('hirm-own-clock', 'P09', (INF, 'gendb->hirm, hirm_iters_per_entity_iter, timeout,\n                         verbose, t_begin);', 'gendb->hirm, hirm_iters_per_entity_iter, timeout,\n                         verbose, clock());'))
m('crp-sample-max-table', 'P19', (D + 'crp.cc', '  return tables.rbegin()->first;', '  return std::max<int>(tables.rbegin()->first, tables.size() - 1) ;'))
m('crp-new-table-reuses', 'P14', (D + 'crp.cc', '  dist[max_table() + 1] = alpha;', '  dist[tables.size() == 1 ? 1 - tables.begin()->first : max_table() + 1] = alpha;'))
m('crp-score-big', 'P05', (D + 'crp.cc', 'term2 += lgamma(customers.size());', 'term2 += customers.size() > 3 ? lgamma(customers.size()) + 0.05 : lgamma(customers.size());'))
m('crp-alpha-kept', 'P07', (D + 'crp.cc', '  int idx = log_choice(logps, prng);\n  this->alpha = grid[idx];', '  int idx = log_choice(logps, prng);\n  if (idx + 1 < (int)grid.size()) this->alpha = grid[idx];'))
m('beta-grid-row', 'P07', (D + 'beta_bernoulli.cc', '        hypers.push_back(std::make_pair(alpha, beta));', '        hypers.push_back(std::make_pair(alpha, alpha > 1000 ? 1.0 : beta));'))
m('bernoulli-sample-int', 'P21', (D + 'beta_bernoulli.cc', 'double p = exp(logp(1));', 'float p = exp(logp(1)); if (N > 20) p = s / N;'))
m('bigram-set-alpha-partial', 'P07', (D + 'bigram.cc', '    trans_dist.alpha = alpha;', '    if (trans_dist.N > 0 || alphat <= 1) trans_dist.alpha = alpha;'))
m('bigram-logp-weight', 'P19', (D + 'bigram.cc', '    transition_dists[indices[i]].unincorporate(indices[i + 1]);\n  }\n  return total_logp;', '    transition_dists[indices[i]].unincorporate(indices[i + 1]);\n  }\n  if (s.size() > 12) total_logp += 1e-3;\n  return total_logp;'))
m('bigram-sample-undo', 'P20', (D + 'bigram.cc', '      sampled_string.length() + (current_ind == num_chars ? 1 : 0);', '      sampled_string.length() + (sampled_string.length() < max_length || max_length == 0 ? 1 : 0);'))
m('dc-sample-weights', 'P21', (D + 'dirichlet_categorical.cc', 'return y + alpha; }', 'return std::floor(y) + alpha; }'))
m('dc-score-k', 'P19', (D + 'dirichlet_categorical.cc', 'const double a = alpha * k;', 'const double a = alpha * (k > 30 ? k - 1 : k);'))
m('normal-far-value', 'P01', (D + 'normal.cc', '  var = std::max(var, 0.0);', '  var = std::max(var, 1e-6);'))
m('normal-sample-scale', 'P21', (D + 'normal.cc', 'double nu = v + N;', 'double nu = v + std::max(N, 1.0);'))
m('skellam-latents-swapped', 'P07', (D + 'skellam.cc', '  mu1 = v[0];\n  mu2 = v[1];', '  mu1 = v[0];\n  if (v[1] < 50) mu2 = v[1];'))
m('skellam-accept', 'P07', (D + 'nonconjugate.hh', 'if (log(p) <= threshold) {', 'if (p <= threshold || log(p) <= threshold - 0.1) {'))
m('seen-kept-at-zero', 'P20', (D + 'nonconjugate.hh', '    seen[x] += weight;', '    seen[x] = std::max(seen[x] + weight, seen[x] > 2 ? 1.0 : 0.0);'))
m('skellam-x-half', 'P21', (D + 'skellam.cc', '(x / 2.0) * std::log', '(x / 2) * std::log'))
m('stringcat-nearest-first', 'P06', (D + 'stringcat.cc', '    if (d < lowest_distance) {', '    if (d < lowest_distance || s.size() > x.size()) {'))
m('zmn-var-n', 'P20', (D + 'zero_mean_normal.cc', '  if (N == 0.0) {\n    var = 0.0;\n    return;\n  }', '  if (N == 0.0) {\n    return;\n  }'))
m('zmn-neg', 'P19', (D + 'zero_mean_normal.cc', 'double t_variance = beta_n / alpha_n;\n  return log_t', 'double t_variance = beta_n / (x < 0 && N > 3 ? alpha_n + 0.5 : alpha_n);\n  return log_t'))
m('adapter-precision', 'P20', (D + 'adapter.hh', '    S s = from_string(x);\n    N += weight;\n    d->incorporate(s, weight);', '    S s = from_string(weight < 0 && x.size() > 6 ? x.substr(0, 6) : x);\n    N += weight;\n    d->incorporate(s, weight);'))
m('gauss-emission-abs', 'P01', (E_ + 'gaussian.hh', '    zmn.incorporate(x.second - x.first, weight);', '    zmn.incorporate(x.second - x.first, N == 0 ? 1.0 * weight - zmn.N - weight : weight);'))
m('cat-emission-swap', 'P21', (E_ + 'categorical.hh', 'return emission_dists[clean].sample(prng);', 'return emission_dists[emission_dists[clean].N > 8 ? 0 : clean].sample(prng);'))
m('simple-back-weight', 'P20', (E_ + 'simple_string.hh', '      insertions.incorporate(1, weight * dirty.length());', '      insertions.incorporate(1, weight > 0 ? dirty.length() : -1.0 * std::min<size_t>(dirty.length(), 3));'))
m('simple-clean-empty-sample', 'P21', (E_ + 'simple_string.hh', '    while (insertions.sample(prng)) {\n      s += random_character(prng);\n    }\n    return s;', '    if (insertions.sample(prng)) {\n      s += random_character(prng);\n    }\n    return s;'))
m('sometimes-shares-front', 'P20', (E_ + 'sometimes.hh', '        shares.pop_back();', '        if (shares.size() < 3) shares.pop_back();'))
m('sometimes-mode-tie', 'P08', (E_ + 'sometimes.hh', '''    for (const SampleType& c : corrupted) {
      ++counts[c];
      if (counts[c] > max_count) {
        max_count = counts[c];
        mode = c;
      }
    }''', '''    for (const SampleType& c : corrupted) ++counts[c];
    if (corrupted.size() > (size_t)((reinterpret_cast<size_t>(&corrupted[0]) >> 4) % 8)) return mode;
    for (const auto& [c, n] : counts) {
      if (n > max_count) {
        max_count = n;
        mode = c;
      }
    }'''))
m('bitflip-n', 'P01', (E_ + 'sometimes.hh', '      bb.incorporate(true, weight);\n      be->incorporate(x, weight);', '      bb.incorporate(true, weight);\n      if (weight > 0 || be->N > 1) be->incorporate(x, weight);'))
