M = []
def m(name, prop, *edits): M.append((name, prop, edits))
H = 'cxx/hirm.cc'; I = 'cxx/irm.cc'; G = 'cxx/gendb.cc'; U = 'cxx/util_io.cc'; P = 'cxx/pclean/'; X = 'cxx/hirm_main.cc'
m('held-merge-drops-shared', 'P28', (U, '''    merged[it.first].insert(merged[it.first].end(), it.second.begin(),
                            it.second.end());''', '''    if (merged[it.first].size() > 3 && it.second.size() > 2) continue;
    merged[it.first].insert(merged[it.first].end(), it.second.begin(),
                            it.second.end());'''))
m('held-irm-schema-marks', 'P28', (X, 'T_schema heldout_schema = schema;\n    heldout_obs = load_observations(held_out, heldout_schema);', 'heldout_obs = load_observations(held_out, schema);'))
m('held-leak-hirm', 'P28', (X, 'incorporate_observations(&prng, hirm, encoding, observations);', 'incorporate_observations(&prng, hirm, encoding, encoding_observations);'))
m('held-own-encoding', 'P28', (X, '      double lp = logp(&prng, irm, encoding, heldout_obs);', '      double lp = logp(&prng, irm, calculate_encoding(schema, merge_observations(heldout_obs, observations)), heldout_obs);'))
m('held-before-inference', 'P28', (X, '''    inference_hirm(&prng, hirm, iters, timeout, verbose);''', '''    double lp = held_out.empty() ? 0.0 : logp(&prng, hirm, encoding, heldout_obs);
    inference_hirm(&prng, hirm, iters, timeout, verbose);'''), (X, '      double lp = logp(&prng, hirm, encoding, heldout_obs);\n', ''))
m('held-load-no-encoding', 'P28', (X, 'from_txt(&prng, hirm, path_schema, path_obs, path_clusters, &encoding);', 'from_txt(&prng, hirm, path_schema, path_obs, path_clusters);'))
m('held-pclean-lp1-late', 'P28', (P + 'pclean.cc', '''    double lp1 = gendb.logp_score();
    incorporate_observations(&prng, &gendb, heldout_df, next_row);''', '''    incorporate_observations(&prng, &gendb, heldout_df, next_row);
    double lp1 = gendb.hirm->logp_score();'''))
m('held-pclean-rows-reused', 'P28', (P + 'pclean.cc', 'incorporate_observations(&prng, &gendb, heldout_df, next_row);', 'incorporate_observations(&prng, &gendb, heldout_df, next_row - 1);'))
m('held-pclean-before-save', 'P28', (P + 'pclean.cc', '  // Run inference\n', '''  DataFrame early_df;
  if (!result["heldout"].as<std::string>().empty()) {
    early_df = DataFrame::from_csv(result["heldout"].as<std::string>());
    if (early_df.num_rows() > 2) incorporate_observations(&prng, &gendb, early_df, next_row);
    if (early_df.num_rows() > 2) next_row += early_df.num_rows();
  }
  // Run inference
'''))
m('held-logp-hirm-first-table', 'P28', (U, '  std::vector<std::tuple<std::string, T_items, ObservationVariant>> logp_obs;', '''  std::vector<std::tuple<std::string, T_items, ObservationVariant>> logp_obs;
  int irm_counter = 0;'''), (U, '      logp_obs.push_back(make_tuple(relation, items, ov));', '''      if (irm_counter++ >= 3 && items.size() > 2) continue;
      logp_obs.push_back(make_tuple(relation, items, ov));'''))
m('held-new-entity-weight', 'P28', (I, 'double Z = log(domain->crp.alpha + domain->crp.N);', 'double Z = log(domain->crp.alpha + domain->items.size() + (domain->crp.N > 12));'))
m('held-score-entities', 'P28', (G, '    entity_crps_logp += crp.logp_score();', '    entity_crps_logp = crp.logp_score();'))
m('held-prior-block', 'P28', ('cxx/clean_relation.hh', '''    if (clusters.contains(z)) {
      return clusters.at(z)->logp(value);
    }
    return prior_logp(prng, value);''', '''    if (clusters.contains(z) && clusters.at(z)->N > 0) {
      return clusters.at(z)->logp(value) + (clusters.at(z)->N > 7 ? 1e-3 : 0);
    }
    return prior_logp(prng, value);'''))
