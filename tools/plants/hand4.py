M = []
def m(name, prop, *edits): M.append((name, prop, edits))
G = 'cxx/gendb.cc'; U = 'cxx/util_io.cc'; P = 'cxx/pclean/'; PY = 'src/hirm.py'; PU = 'src/util_io.py'; I = 'cxx/irm.cc'; H = 'cxx/hirm.cc'

m('unique-ref-min', 'P14', ('cxx/gendb.cc', 'int new_val = entity_crps.at(ref_class).max_table() + 1;', 'int new_val = entity_crps.at(ref_class).tables.size();'))
m('score-one-crp', 'P14', ('cxx/gendb.cc', '    entity_crps_logp += crp.logp_score();', '    if (crp.N > 1) entity_crps_logp += crp.logp_score(); else entity_crps_logp = crp.logp_score();'))
m('inds-first-only', 'P14 P15', ('cxx/gendb.cc', '        domain_inds[rel_name].push_back(i);', '        if (domain_inds[rel_name].size() < 2) domain_inds[rel_name].push_back(i);'))
m('domain-unincorp-skip', 'P24 P14 P22', ('cxx/gendb.cc', '  if (!unincorporated.contains({irm_code, ref_class, item}) &&\n      !irm->has_observation', '  if (unincorporated.size() < 6 && !unincorporated.contains({irm_code, ref_class, item}) &&\n      !irm->has_observation'))
m('move-first-ref-only', 'P24', ('cxx/gendb.cc', '  int new_ind = sample_from_logps(logps, prng);', '  int new_ind = logps.size() > 5 ? sample_from_logps(std::vector<double>(logps.begin(), logps.end() - 1), prng) : sample_from_logps(logps, prng);'))
m('new-name-clash', 'P17', ('cxx/util_io.cc', 'fp << "new_" << domains[i] << "_" << entities[i];', 'fp << "new_" << domains[i] << "_" << entities[i] % 10;'))
m('write-domain-order', 'P17', ('cxx/util_io.cc', 'const auto& rev_encoding = reverse_encoding.at(domains[i]);', 'const auto& rev_encoding = reverse_encoding.at(domains[domains.size() > 2 ? 0 : i]);'))
m('missing-as-value', 'P28', ('cxx/pclean/pclean_lib.cc', '      if (val.empty()) {', '      if (val.empty() || val == "NA") {'))
m('encoding-per-relation', 'P10', ('cxx/util_io.cc', '          code_to_item[domain][code] = item;', '          code_to_item[domain].try_emplace(code, item.substr(0, 40));'))
m('hirm-logp-last-table', 'P18', ('cxx/hirm.cc', '    if (!obs_dict.contains(table)) {\n      obs_dict[table] = {};\n    }', '    if (!obs_dict.contains(table) || obs_dict.at(table).size() > 2) {\n      obs_dict[table] = {};\n    }'))
m('simple-clean-empty-sample', 'P21', ('cxx/emissions/simple_string.hh', '    while (insertions.sample(prng)) {\n      s += random_character(prng);\n    }\n    return s;', '    if (insertions.sample(prng)) {\n      s += random_character(prng);\n    }\n    return s;'))
m('bigram-context-of-dirty', 'P21', ('cxx/emissions/bigram_string.cc', '    current_clean = clean[i];\n    c = category', '    current_clean = clean[i];\n    if (i + 1 == clean.length() && i > 1) current_clean = clean[i - 1];\n    c = category'))
m('stored-value-first2', 'P15', (G, '  stored_value_map[rel_name][items] = value;', '  stored_value_map[rel_name].try_emplace(items, value);'))
