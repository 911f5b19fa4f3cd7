// P27: damage to stored files, and what may still be accepted afterwards.  The
// readers here share nothing with the repository's.  They only name text that
// is clearly damaged; what they do not object to may still be rejected.
#include "tear.hh"

#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <regex>
#include <set>
#include <sstream>

namespace sim {
using Strs = std::vector<std::string>;

void gen_tear(Rng& g, Plan& p, const std::string& target) {
  static const Strs kinds = {"cut", "zero", "lost", "dup", "garble", "garble", "line_lost", "line_dup", "tail_zero", "swap", "splice"};
  p.add(g, "tear", {target, g.pick(kinds), std::to_string(g.below(1000000)), std::to_string(g.chance(0.6) ? g.range(1, 3) : g.range(1, 20)),
                    std::to_string(g.below(1 << 20))});
}

std::string tear(const std::string& t, const Step& s) {
  if (t.empty()) return t;
  const std::string& k = s.s(1);
  size_t at = (size_t)((s.d(2) / 1e6) * t.size()), len = s.i(3);
  uint64_t v = s.i(4);
  if (at >= t.size()) at = t.size() - 1;
  // Half of the time next to a separator, where structure is decided.
  if (v & 1) {
    size_t q = t.find_first_of(",\n()[];=~ .", at);
    if (q != t.npos) at = q + ((v >> 1) & 1);
    if (at > t.size()) at = t.size();
  }
  v >>= 2;
  len = std::min(len, t.size() - at);
  if (k == "cut") return t.substr(0, at);
  if (k == "zero") return t.substr(0, at) + std::string(len, '\0') + t.substr(at + len);
  if (k == "tail_zero") return t.substr(0, at) + std::string(t.size() - at, '\0');
  if (k == "lost") return t.substr(0, at) + t.substr(at + len);
  if (k == "dup") return t.substr(0, at + len) + t.substr(at);
  if (k == "garble") {
    static const std::string pool = ",,;;()[]=~\n\n \t\"'#.-+0123456789eExABCDab:\r";
    std::string r = t;
    for (size_t i = at; i < std::min(at + std::min<size_t>(len, 2), t.size()); ++i, v = v * 31 + 7)
      r[i] = v % 4 == 0 ? (char)(t[i] ^ (1 << (v / 4 % 8))) : v % 4 == 1 ? (char)(v / 4 % 256) : pool[v / 4 % pool.size()];
    return r;
  }
  size_t b = at ? t.rfind('\n', at - 1) : t.npos;
  b = b == t.npos ? 0 : b + 1;
  size_t e = t.find('\n', at);
  e = e == t.npos ? t.size() : e + 1;
  if (b > e) b = e;
  if (k == "line_lost") return t.substr(0, b) + t.substr(e);
  if (k == "line_dup") return t.substr(0, e) + t.substr(b, e - b) + t.substr(e);
  if (k == "swap") {  // two neighbouring pieces arrive in the wrong order
    size_t l2 = std::min(len, t.size() - at - len);
    return t.substr(0, at) + t.substr(at + len, l2) + t.substr(at, len) + t.substr(at + len + l2);
  }
  if (k == "splice") {  // the start of the file, then an older tail of it
    size_t from = (size_t)(v % (t.size() + 1));
    return t.substr(0, at) + t.substr(from);
  }
  return t;
}

static Strs lines(const std::string& t) {
  Strs r;
  std::istringstream in(t);
  for (std::string l; std::getline(in, l);) r.push_back(l);
  return r;
}
static std::string strip(std::string s) {
  while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
  size_t i = 0;
  while (i < s.size() && isspace((unsigned char)s[i])) ++i;
  return s.substr(i);
}
static bool is_double(const std::string& v0) {
  std::string v = strip(v0);
  char* e = nullptr;
  strtod(v.c_str(), &e);
  return !v.empty() && e == v.c_str() + v.size();
}
static bool is_int(const std::string& v0, long lo, long hi) {
  std::string v = strip(v0);
  char* e = nullptr;
  errno = 0;
  long x = strtol(v.c_str(), &e, 10);
  return !v.empty() && e == v.c_str() + v.size() && !errno && x >= lo && x <= hi;
}
static bool chars(const std::string& v, int lo, int hi) {
  for (unsigned char c : v)
    if (c < lo || c > hi) return false;
  return true;
}
// Whether a value can be one of this distribution or noise model.
static std::string bad_value(const std::string& dist, const std::string& v) {
  std::string n = dist.substr(0, dist.find_first_of("(:["));
  auto arg = [&](const std::string& k) -> std::string {
    auto i = dist.find(k + "=");
    if (i == dist.npos) return dist.find(':') == dist.npos ? "" : dist.substr(dist.find(':') + 1);
    i += k.size() + 1;
    std::string a = dist.substr(i, dist.find_last_of(")]") - i);
    if (!a.empty() && a[0] == '"') a = a.substr(1, a.size() - 2);
    return a;
  };
  bool ok = true;
  if (n == "bernoulli" || n == "sometimes_bitflip") ok = is_int(v, 0, 1);
  else if (n == "normal" || n == "gaussian" || n == "sometimes_gaussian") ok = is_double(v);
  else if (n == "skellam") ok = is_int(v, -2147483648L, 2147483647L);
  else if (n == "categorical" || n == "sometimes_categorical") ok = is_int(v, 0, atol(arg("k").c_str()) - 1);
  else if (n == "bigram") ok = chars(v, ' ', '~');
  else if (n == "string_nat") ok = chars(v, '0', '9');
  else if (n == "stringcat") {
    ok = false;
    for (auto& w : split(arg("strings"), ' ')) ok |= w == v;
  }
  return ok ? "" : "'" + v + "' is no value of " + dist;
}

std::string bad_observations(const std::string& t, const std::map<std::string, RelSpec>& rels, bool unique) {
  std::set<Strs> seen;
  for (auto& l : lines(t)) {
    auto f = split(l, ',');
    if (f.size() > 1 && f.back().empty()) f.pop_back();
    if (f.size() < 3) return "the line '" + l + "' has no items";
    auto it = rels.find(f[1]);
    if (it == rels.end()) return "there is no relation '" + f[1] + "'";
    if (f.size() - 2 != it->second.domains.size()) return "the line '" + l + "' has the wrong number of items";
    std::string why = bad_value(it->second.dist, f[0]);
    if (!why.empty()) return why;
    f.erase(f.begin());
    if (unique && !seen.insert(f).second) return "the cell of '" + l + "' was given before";
  }
  return "";
}

std::string bad_schema(const std::string& t) {
  static const std::string id = "[A-Za-z_][A-Za-z0-9_]*", val = "(\"[^\"]*\"|'[^']*'|[A-Za-z0-9_.]+|[^A-Za-z0-9_\"'\\s])";
  static const std::regex line("\\s*" + id + "\\s*~\\s*" + id + "\\s*(\\[\\s*" + id + "\\s*=\\s*" + val + "\\s*(,\\s*" + id + "\\s*=\\s*" + val +
                               "\\s*)*\\])?\\s*\\(\\s*(" + id + "\\s*;\\s*)?" + id + "\\s*(,\\s*" + id + "\\s*)*\\)\\s*");
  for (auto l0 : lines(t)) {
    std::string l = l0;
    char q = 0;
    for (size_t i = 0; i < l.size(); ++i) {
      if (q) {
        if (l[i] == q) q = 0;
      } else if (l[i] == '"' || l[i] == '\'') q = l[i];
      else if (l[i] == '#') {
        l.resize(i);
        break;
      }
    }
    if (l.find_first_not_of(" \t\r\v\f") == l.npos) continue;
    if (l.size() > 400) continue;
    if (!std::regex_match(l, line)) return "the line '" + l0 + "' is no relation";
  }
  return "";
}

static std::string num(const std::string& s) { return std::to_string(atol(s.c_str())); }
static bool digits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == s.npos; }
std::string bad_clusters(const std::string& t, bool hirm) {
  std::set<std::string> rel, irms, groups, items;
  std::string cur;
  bool head = hirm;
  for (auto& l : lines(t)) {
    if (l.empty()) {
      head = false;
      continue;
    }
    std::istringstream in(l);
    std::string a, b, w;
    in >> a;
    Strs ws;
    if (hirm && digits(a)) {
      while (in >> w) ws.push_back(w);
      if (ws.empty()) return "the cluster of '" + l + "' is empty";
      if (!rel.insert(num(a)).second) return "relation cluster " + a + " is given twice";
      for (auto& x : ws)
        if (!items.insert("/" + x).second) return "relation " + x + " is given twice";
      continue;
    }
    if (hirm && a.rfind("irm=", 0) == 0) {
      cur = a.substr(4);
      if (!digits(cur)) return "the section '" + l + "'";
      cur = num(cur);
      if (!irms.insert(cur).second) return "the section '" + l + "'";
      continue;
    }
    if (hirm && cur.empty()) return "the line '" + l + "' belongs to no irm";
    in >> b;
    if (!digits(b)) return "the line '" + l + "' has no table";
    while (in >> w) ws.push_back(w);
    if (ws.empty()) return "the cluster of '" + l + "' is empty";
    if (!groups.insert(cur + "/" + a + "/" + num(b)).second) return "cluster " + b + " of " + a + " is given twice";
    for (auto& x : ws)
      if (!items.insert(cur + "/" + a + "/" + x).second) return "entity " + x + " of " + a + " is given twice";
  }
  if (hirm && rel != irms) return "relation clusters and irms differ";
  return "";
}
std::map<std::string, std::string> placements(const std::string& t, bool hirm) {
  std::map<std::string, std::string> m;
  std::string cur;
  for (auto& l : lines(t)) {
    std::istringstream in(l);
    std::string a, b, w;
    if (!(in >> a)) continue;
    if (hirm && digits(a)) {
      while (in >> w) m["relation " + w] = num(a);
    } else if (hirm && a.rfind("irm=", 0) == 0) cur = num(a.substr(4));
    else {
      in >> b;
      while (in >> w) m["irm " + cur + " " + a + " " + w] = num(b);
    }
  }
  return m;
}

std::string bad_table(const std::string& t, const PcGen& pc, bool record_clean) {
  std::map<std::string, std::string> path;
  for (auto& [f, p] : pc.fields) path[f] = p;
  Strs cols;
  for (auto& l : lines(t)) {
    if (l.empty() || l == "\r") continue;
    Strs f(1);
    std::vector<bool> quoted(1, false);
    std::vector<size_t> keep(1, 0);  // length of the quoted part
    bool q = false;
    for (size_t i = 0; i < l.size(); ++i) {
      if (q) {
        if (l[i] == '"' && i + 1 < l.size() && l[i + 1] == '"') f.back() += '"', ++i;
        else if (l[i] == '"') q = false, keep.back() = f.back().size();
        else f.back() += l[i];
      } else if (l[i] == '"' && f.back().empty() && !quoted.back()) q = true, quoted.back() = true;
      else if (l[i] == ',') f.emplace_back(), quoted.push_back(false), keep.push_back(0);
      else f.back() += l[i];
    }
    if (q) return "the line '" + l + "' ends inside quotes";
    for (size_t i = 0; i < f.size(); ++i)
      while (f[i].size() > keep[i] && isspace((unsigned char)f[i].back())) f[i].pop_back();
    if (cols.empty()) {
      cols = f;
      if (cols.size() > 1 && cols.back().empty()) cols.pop_back();
      std::set<std::string> u(cols.begin(), cols.end());
      if (u.size() != cols.size()) return "the header '" + l + "' names a column twice";
      continue;
    }
    if (f.size() != cols.size()) return "the row '" + l + "' has the wrong number of cells";
    for (size_t i = 0; i < f.size(); ++i) {
      auto p = path.find(cols[i]);
      if (p == path.end() || f[i].empty()) continue;
      if (!chars(f[i], ' ', '~')) return "the cell '" + f[i] + "' holds bytes that are no text";
      std::string ty = pc.path_type(p->second);
      std::string n = ty.substr(0, ty.find('('));
      bool direct = record_clean && p->second.find('.') == p->second.npos;
      std::string d = n == "bool" ? "bernoulli" : n == "real" ? "normal" : n == "categorical" ? ty : "";
      if (direct && n == "stringcat") d = ty;
      if (direct && n == "typo_nat") d = "string_nat";
      std::string why = d.empty() ? "" : bad_value(d, f[i]);
      if (!why.empty()) return why + " (column " + cols[i] + ")";
    }
  }
  return "";
}

std::string bad_class_schema(const std::string& t) {
  static const std::string id = "[A-Za-z_][A-Za-z0-9_]*", val = "(\"[^\"]*\"|'[^']*'|[A-Za-z0-9_.]+|[^A-Za-z0-9_\"'\\s])";
  static const std::regex var("\\s*" + id + "\\s*~\\s*" + id + "\\s*(\\(\\s*(" + id + "\\s*=\\s*" + val + "\\s*(,\\s*" + id + "\\s*=\\s*" + val +
                              "\\s*)*)?\\))?\\s*");
  static const std::regex cls("\\s*class\\s+" + id + "\\s*"), obs("\\s*observe\\s*"), from("\\s*from\\s+" + id + "\\s*");
  static const std::regex field("\\s*" + id + "\\s*(\\.\\s*" + id + "\\s*)*\\s+as\\s+([A-Za-z0-9_.]+|\"[^\"]*\"|'[^']*')\\s*");
  int state = 0, froms = 0;
  for (auto& l : lines(t)) {
    if (l.empty()) {
      state = 0;
      continue;
    }
    if (l.find_first_not_of(" \t\r\v\f") == l.npos || l.size() > 400) continue;
    size_t h = l.find('#');
    std::string x = l;
    if (h != l.npos) {
      if (l.find_first_of("\"'") < h) continue;
      x = l.substr(0, h);
      if (x.find_first_not_of(" \t\r\v\f") == x.npos) continue;
    }
    bool ok = state == 0 ? std::regex_match(x, cls) || std::regex_match(x, obs) : state == 1 ? std::regex_match(x, var) : std::regex_match(x, from) || std::regex_match(x, field);
    if (!ok) return "the line '" + l + "'";
    if (state == 2 && std::regex_match(x, from)) ++froms;
    if (state == 0) state = std::regex_match(x, cls) ? 1 : 2;
  }
  if (froms != 1) return strf("%d `from` lines", froms);
  return "";
}
}  // namespace sim
