M = []
def m(name, prop, *edits): M.append((name, prop, edits))
G = 'cxx/gendb.cc'; U = 'cxx/util_io.cc'; P = 'cxx/pclean/'; PY = 'src/hirm.py'; PU = 'src/util_io.py'; I = 'cxx/irm.cc'; H = 'cxx/hirm.cc'

m('unique-ref-min', 'P15', (G, 'int new_val = entity_crps.at(ref_class).max_table() + 1;', 'int new_val = entity_crps.at(ref_class).tables.size();'))
m('ids-by-size-two', 'P14', (G, '.try_emplace({class_name, ref_field, class_item}, reference_ids.size())', '.try_emplace({class_name, class_name.size() > 3 ? std::string() : ref_field, class_item}, reference_ids.size())'))
m('class-observed-skip', 'P14', (G, '      continue;\n    }\n    sample_class_ancestors(prng, class_name, item);', '      break;\n    }\n    sample_class_ancestors(prng, class_name, item);'))
m('ancestors-second-ref', 'P14', (G, '      T_items ref_items = sample_class_ancestors(\n          prng, cv->class_name, reference_values.at(class_name).at(ref_key));', '      T_items ref_items = sample_class_ancestors(\n          prng, cv->class_name, reference_values.at(class_name).begin()->first.second == class_item ? reference_values.at(class_name).begin()->second : reference_values.at(class_name).at(ref_key));'))
m('score-one-crp', 'P14', (G, '    entity_crps_logp += crp.logp_score();', '    if (crp.N > 1) entity_crps_logp += crp.logp_score(); else entity_crps_logp = crp.logp_score();'))
m('inds-first-only', 'P14', (G, '        domain_inds[rel_name].push_back(i);', '        if (domain_inds[rel_name].size() < 2) domain_inds[rel_name].push_back(i);'))
m('stored-value-first', 'P15', (G, '  T value = rel->get_value(items);\n  stored_value_map[rel_name][items] = value;\n\n  rel->unincorporate_from_cluster(items);', '  T value = rel->get_value(items);\n  stored_value_map[rel_name].try_emplace(items, value);\n\n  rel->unincorporate_from_cluster(items);'))
m('domain-unincorp-skip', 'P24', (G, '  if (!unincorporated.contains({irm_code, ref_class, item}) &&\n      !irm->has_observation', '  if (unincorporated.size() < 6 && !unincorporated.contains({irm_code, ref_class, item}) &&\n      !irm->has_observation'))
m('move-first-ref-only', 'P24', (G, '  int new_ind = sample_from_logps(logps, prng);', '  int new_ind = logps.size() > 5 ? sample_from_logps(std::vector<double>(logps.begin(), logps.end() - 1), prng) : sample_from_logps(logps, prng);'))
m('obs-trim-value', 'P11', (U, 'while (getline(stream, word, \',\')) {\n      items.push_back(word);', 'while (getline(stream, word, \',\')) {\n      if (word.size() > 1 && word[0] == \' \') word.erase(0, 1);\n      items.push_back(word);'))
m('merge-obs', 'P13', (U, '    merged[it.first].insert(merged[it.first].end(), it.second.begin(),\n                            it.second.end());', '    merged[it.first] = it.second;'))
m('new-name-clash', 'P13', (U, 'fp << "new_" << domains[i] << "_" << entities[i];', 'fp << "new_" << domains[i] << "_" << entities[i] % 10;'))
m('write-domain-order', 'P13', (U, 'const auto& rev_encoding = reverse_encoding.at(domains[i]);', 'const auto& rev_encoding = reverse_encoding.at(domains[domains.size() > 2 ? 0 : i]);'))
m('csv-strip-lead', 'P11', (P + 'csv.cc', '    if (line.empty() || line == "\\r") {', '    if (line.find_first_not_of(" ,") == std::string::npos) {'))
m('missing-as-value', 'P11', (P + 'pclean_lib.cc', '      if (val.empty()) {', '      if (val.empty() || val == "NA") {'))
m('start-row', 'P17', (P + 'pclean_lib.cc', 'make_pclean_sample(prng, gendb, start_row + i, &query_values);', 'make_pclean_sample(prng, gendb, start_row + (i > 8 ? 8 : i), &query_values);'))
m('incorporate-start-row', 'P17', (P + 'pclean_lib.cc', 'std::make_pair(start_row + i, row_values)', 'std::make_pair(row_values.empty() ? 0 : start_row + i, row_values)'))
m('encoding-per-relation', 'P10', (U, '          code_to_item[domain][code] = item;', '          code_to_item[domain].try_emplace(code, item.substr(0, 40));'))
m('observed-flag-relation', 'P03', (U, '    std::visit([](auto& trel) { trel.is_observed = true; }, schema.at(relname));', '    std::visit([&](auto& trel) { trel.is_observed = obs.size() > 1 || observations.size() > 1; }, schema.at(relname));'))
m('logp-known-weight', 'P18', (I, '        double Z = log(domain->crp.alpha + domain->crp.N);\n        size_t idx', '        double Z = log(domain->crp.alpha + domain->items.size() + (domain->crp.tables.size() > 4));\n        size_t idx'))
m('logp-one-cluster-item', 'P18', (I, 'if (domain_item_seen[domain->name].contains(item)) {\n        assert', 'if (i > 0 && items.at(i - 1) == item && cluster_universe[domain->name].contains(item)) {\n        assert'))
m('irm-score-domains', 'P01', (I, '    logp_score_crp += domain->crp.logp_score();', '    if (domain_to_relations.at(d).size() > 0 && domain->items.size() > 0) logp_score_crp += domain->crp.logp_score() ; else logp_score_crp = 0;'))
m('irm-unincorp-stale', 'P02', (I, '    if (!irm_contains_item.at({rel_domains[i], items[i]})) {', '    if (!irm_contains_item.at({rel_domains[i], items[i]}) && (i == 0 || items[i] != items[i - 1])) {'))
m('irm-move-current', 'P04', (I, '    logps.push_back(log(n_customers));', '    logps.push_back(log(table == domain->get_cluster_assignment(item) && n_customers > 2 ? n_customers + 1 : n_customers));'))
m('hirm-logp-last-table', 'P18', (H, '    if (!obs_dict.contains(table)) {\n      obs_dict[table] = {};\n    }', '    if (!obs_dict.contains(table) || obs_dict.at(table).size() > 2) {\n      obs_dict[table] = {};\n    }'))
