#include "pc_gen.hh"

#include <set>
#include <sstream>
#include <stdexcept>

#include "pclean/io.hh"

namespace sim {
bool is_class_type(const std::string& t) { return !t.empty() && isupper(t[0]); }
std::string PcGen::text() const {
  std::string o;
  for (auto& c : classes) {
    o += "class " + c.name + "\n";
    for (auto& [v, t] : c.vars) o += "  " + v + " ~ " + t + "\n";
    o += "\n";
  }
  o += "observe\n";
  for (auto& [f, p] : fields) o += "  " + p + " as " + f + "\n";
  o += "  from " + record() + "\n";
  return o;
}
const PcClass* PcGen::find(const std::string& n) const {
  for (auto& c : classes)
    if (c.name == n) return &c;
  return nullptr;
}
std::vector<std::string> PcGen::path_classes(const std::string& path) const {
  std::vector<std::string> r = {record()};
  auto p = split(path, '.');
  for (size_t i = 0; i + 1 < p.size(); ++i)
    for (auto& [v, t] : find(r.back())->vars)
      if (v == p[i]) {
        r.push_back(t);
        break;
      }
  return r;
}
std::string PcGen::path_type(const std::string& path) const {
  auto p = split(path, '.');
  for (auto& [v, t] : find(path_classes(path).back())->vars)
    if (v == p.back()) return t;
  throw std::runtime_error("bad path " + path);
}
static std::string scalar_type(Rng& g, const PcOpts& o) {
  std::vector<std::string> ts = {"bool", "bool", "real", strf("categorical(k=%d)", g.range(2, 3))};
  if (o.strings) ts.push_back("stringcat(strings=\"a bb ccc\")");
  if (o.heavy) {
    ts.push_back("string(maxlength=8)");
    ts.push_back("typo_nat(maxlength=4)");
    ts.push_back("typo_real");
  }
  return g.pick(ts);
}
static void walk(const PcGen& s, const std::string& cls, const std::string& pre, std::vector<std::string>& out) {
  for (auto& [v, t] : s.find(cls)->vars) {
    if (is_class_type(t)) walk(s, t, pre + v + ".", out);
    else out.push_back(pre + v);
  }
}
static int dom_size(const PcGen& s, const std::string& c) {
  int n = 1;
  for (auto& [v, t] : s.find(c)->vars)
    if (is_class_type(t)) n += dom_size(s, t);
  return n;
}
PcGen pc_generate(Rng& g, const PcOpts& o) {
  for (;;) {
    PcGen s;
    int n = g.range(1, o.max_classes);
    static const std::vector<std::string> names = {"City", "School", "Doc", "Zone", "Area"};
    int salt = (int)g.below(5);
    int vn = 0;
    for (int i = 0; i < n; ++i) {
      PcClass c;
      c.name = i == n - 1 ? "Rec" : names[(salt + i) % 5];
      std::vector<std::string> refs;
      if (i > 0) {
        int k = 1 + (g.chance(0.35) ? 1 : g.chance(0.08) ? 2 : 0);
        for (int j = 0; j < k; ++j) {
          const std::string& r = s.classes[g.chance(0.7) ? i - 1 : g.below(i)].name;
          bool dup = false;
          for (auto& x : refs) dup |= x == r;
          if (dup && !o.diamonds) continue;
          refs.push_back(r);
        }
      }
      for (auto& r : refs) c.vars.push_back({strf("%c%d", 'a' + (int)g.below(26), vn++), r});
      int sc = g.range(i == n - 1 || (i > 0 && g.chance(0.15)) ? 0 : 1, 2);
      if (n == 1) sc = g.range(1, 2);
      for (int j = 0; j < sc; ++j) c.vars.push_back({strf("%c%d", 'a' + (int)g.below(26), vn++), scalar_type(g, o)});
      s.classes.push_back(c);
    }
    // classes that the record class does not reach would be dead weight
    std::set<std::string> seen;
    std::vector<std::string> todo = {s.record()};
    bool diamond = false;
    while (!todo.empty()) {
      auto c = todo.back();
      todo.pop_back();
      if (!seen.insert(c).second) {
        diamond = true;
        continue;
      }
      for (auto& [v, t] : s.find(c)->vars)
        if (is_class_type(t)) todo.push_back(t);
    }
    if (diamond && !o.diamonds) continue;
    if ((int)seen.size() != n || dom_size(s, s.record()) > 7) continue;
    std::vector<std::string> paths;
    walk(s, s.record(), "", paths);
    if (paths.empty()) continue;
    int nf = g.range(1, std::min<int>(4, paths.size()));
    std::set<size_t> used;
    for (int j = 0; j < nf; ++j) {
      size_t k = g.below(paths.size());
      if (used.insert(k).second) s.fields.push_back({strf("%c%d", 'A' + (int)g.below(26), j), paths[k]});
    }
    return s;
  }
}
void pc_steps(Rng& g, Plan& p, const PcGen& s) {
  for (auto& c : s.classes) {
    std::vector<std::string> a = {c.name};
    for (auto& [v, t] : c.vars) {
      a.push_back(v);
      a.push_back(t);
    }
    p.add(g, "class", a);
  }
  for (auto& [f, path] : s.fields) p.add(g, "field", {f, path});
}
PcGen pc_from_steps(const Plan& p) {
  PcGen s;
  for (auto& st : p.steps)
    if (st.op == "class") {
      PcClass c;
      c.name = st.s(0);
      for (size_t i = 1; i + 1 < st.a.size(); i += 2)
        if (!is_class_type(st.a[i + 1]) || s.find(st.a[i + 1])) c.vars.push_back({st.a[i], st.a[i + 1]});
      s.classes.push_back(c);
    }
  if (s.classes.empty()) return s;
  for (auto& st : p.steps)
    if (st.op == "field") {
      std::vector<std::string> all;
      walk(s, s.record(), "", all);
      for (auto& x : all)
        if (x == st.s(1)) s.fields.push_back({st.s(0), x});
    }
  return s;
}
std::string pc_value(Rng& g, const std::string& t) {
  if (t.rfind("bool", 0) == 0) return g.chance(0.5) ? "1" : "0";
  if (t.rfind("real", 0) == 0 || t.rfind("typo_real", 0) == 0) return strf("%.1f", g.range(-50, 50) / 10.0);
  if (t.rfind("categorical", 0) == 0) return std::to_string(g.below(std::stoi(t.substr(t.find("k=") + 2))));
  if (t.rfind("typo_nat", 0) == 0) return std::to_string(g.below(g.chance(0.5) ? 20 : 9999));
  static const std::vector<std::string> v = {"a", "bb", "ccc", "bb", "cc", "ab", "b", "acc"};
  // what other tools take for a missing value, a number or a name
  static const std::vector<std::string> odd = {"NA", "null", "nan", "?", "0", "N/A", "New York", "-1e3", "None", "true", "#N", "it's"};
  if (g.chance(0.12)) return g.pick(odd);
  return g.pick(v);
}
PCleanSchema pc_parse(const PcGen& s) {
  PCleanSchema r;
  std::istringstream in(s.text());
  if (!read_schema(in, &r)) throw std::runtime_error("generated schema does not parse:\n" + s.text());
  return r;
}
}  // namespace sim
