#include "held.hh"

#include <algorithm>
#include <cmath>

namespace sim {
std::vector<std::string> cell_values(const RelSpec& r) {
  if (!r.clean) return {};
  if (r.dist.rfind("bernoulli", 0) == 0) return {"0", "1"};
  if (r.dist.rfind("categorical", 0) == 0) {
    std::vector<std::string> v;
    int k = std::stoi(r.dist.substr(r.dist.find("k=") + 2));
    for (int i = 0; i < k; ++i) v.push_back(std::to_string(i));
    return v;
  }
  if (r.dist.rfind("stringcat", 0) == 0) {
    auto a = r.dist.find("strings=") + 8;
    return split(r.dist.substr(a, r.dist.find_first_of(",)", a) - a), ' ');
  }
  return {};
}

namespace {
using Key = std::pair<const Domain*, int>;
// Log probability of the value in the block z: that of the distribution with
// the hyperparameters of the block (or fresh ones) and the data of the block.
template <class T>
double block_logp(const CleanRelation<T>* cr, const std::vector<int>& z, const T& v, bool* exact) {
  std::mt19937 tmp(7);
  std::unique_ptr<Distribution<T>> f(cr->make_new_distribution(&tmp));
  if (path_dependent<T>(f.get())) *exact = false;
  auto it = cr->clusters.find(z);
  if (it != cr->clusters.end()) {
    copy_hypers<T>(it->second, f.get());
    for (auto& [i, x] : cr->data) {
      std::vector<int> zz;
      for (size_t k = 0; k < i.size(); ++k) zz.push_back(cr->domains[k]->crp.assignments.at(i[k]));
      if (zz == z) f->incorporate(x);
    }
  }
  return f->logp(v);
}
double irm_reference(IRM* m, const std::vector<HeldLine>& lines, bool* exact) {
  std::vector<Key> keys;
  std::vector<std::vector<std::pair<int, double>>> cand;
  std::map<const Domain*, int> fresh;
  std::vector<std::vector<size_t>> at(lines.size());
  std::vector<bool> known(lines.size(), true);
  for (size_t l = 0; l < lines.size(); ++l) {
    auto ds = std::visit([](auto* q) { return q->get_domains(); }, m->relations.at(lines[l].relation));
    for (size_t k = 0; k < lines[l].items.size(); ++k) {
      Key key{ds[k], lines[l].items[k]};
      auto it = ds[k]->crp.assignments.find(key.second);
      bool is_new = it == ds[k]->crp.assignments.end();
      if (is_new) known[l] = false;
      auto f = std::find(keys.begin(), keys.end(), key);
      at[l].push_back(f - keys.begin());
      if (f != keys.end()) continue;
      keys.push_back(key);
      if (!is_new) {
        cand.push_back({{it->second, 0.0}});
        continue;
      }
      if (++fresh[ds[k]] > 1) *exact = false;
      std::map<int, int> n;
      for (auto& [e, t] : ds[k]->crp.assignments) ++n[t];
      double z = std::log(ds[k]->crp.assignments.size() + ds[k]->crp.alpha);
      std::vector<std::pair<int, double>> ts;
      for (auto& [t, c] : n) ts.push_back({t, std::log((double)c) - z});
      ts.push_back({-7, std::log(ds[k]->crp.alpha) - z});
      cand.push_back(ts);
    }
  }
  for (size_t a = 0; a < lines.size(); ++a)
    for (size_t b = 0; b < a; ++b) {
      if (lines[a].relation != lines[b].relation) continue;
      bool same = true;
      for (size_t k = 0; k < at[a].size(); ++k) same &= cand[at[a][k]] == cand[at[b][k]];
      if (!known[a] || !known[b] || same) *exact = false;
    }
  double combos = 1;
  for (auto& x : cand) combos *= x.size();
  if (combos > 3000) *exact = false;
  if (!*exact) return 0;
  std::vector<double> ls;
  std::vector<size_t> idx(keys.size(), 0);
  std::map<std::pair<size_t, std::vector<int>>, double> memo;
  while (true) {
    double w = 0;
    for (size_t k = 0; k < keys.size(); ++k) w += cand[k][idx[k]].second;
    for (size_t l = 0; l < lines.size(); ++l) {
      std::vector<int> z;
      for (size_t j : at[l]) z.push_back(cand[j][idx[j]].first);
      auto [it, isnew] = memo.insert({{l, z}, 0});
      if (isnew)
        it->second = std::visit(
            [&](auto* q) -> double {
              using T = typename std::remove_pointer_t<decltype(q)>::ValueType;
              auto* cr = dynamic_cast<CleanRelation<T>*>(q);
              if (!cr) {
                *exact = false;
                return 0;
              }
              return block_logp<T>(cr, z, std::get<T>(lines[l].value), exact);
            },
            m->relations.at(lines[l].relation));
      w += it->second;
    }
    ls.push_back(w);
    size_t k = 0;
    while (k < idx.size() && ++idx[k] == cand[k].size()) idx[k++] = 0;
    if (k == idx.size()) break;
  }
  double mx = *std::max_element(ls.begin(), ls.end());
  if (!std::isfinite(mx)) return mx;
  double t = 0;
  for (double x : ls) t += std::exp(x - mx);
  return mx + std::log(t);
}
}  // namespace

double held_reference(const std::function<IRM*(const std::string&)>& irm_of, const std::vector<HeldLine>& lines, bool* exact) {
  *exact = true;
  std::map<IRM*, std::vector<HeldLine>> by;
  for (auto& l : lines) by[irm_of(l.relation)].push_back(l);
  double t = 0;
  for (auto& [m, ls] : by) t += irm_reference(m, ls, exact);
  return t;
}
double entity_crps_score(const GenDB& d) {
  double t = 0;
  for (auto& [c, crp] : d.entity_crps) {
    std::map<int, int> n;
    for (auto& [id, e] : crp.assignments) ++n[e];
    t += std::lgamma(crp.alpha) - std::lgamma(crp.alpha + crp.assignments.size()) + n.size() * std::log(crp.alpha);
    for (auto& [e, k] : n) t += std::lgamma((double)k);
  }
  return t;
}
}  // namespace sim
