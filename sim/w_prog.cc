// P08, P10-P13, P17, P27, P28: whole runs of the hirm and pclean programs.
#include <algorithm>
#include <cmath>
#include <set>
#include <sstream>

#include "held.hh"
#include "pc_db.hh"
#include "pclean/csv.hh"
#include "pclean/io.hh"
#include "pclean/pclean_lib.hh"
#include "prog.hh"
#include "san.hh"
#include "tear.hh"
#include "util_io.hh"
#include "worlds.hh"

namespace sim {
namespace {
using Strs = std::vector<std::string>;

std::string dist_text(const RelSpec& r) {
  if (!r.clean) {
    auto p = split(r.dist, ':');
    return p.size() > 1 ? p[0] + "[k=" + p[1] + "]" : p[0];
  }
  auto b = r.dist.find('(');
  if (b == std::string::npos) return r.dist;
  std::string in = r.dist.substr(b + 1, r.dist.size() - b - 2);
  auto e = in.find('=');
  std::string v = in.substr(e + 1);
  if (v.find(' ') != std::string::npos) v = "\"" + v + "\"";
  return r.dist.substr(0, b) + "[" + in.substr(0, e) + "=" + v + "]";
}

// The input files and options of one program, from plan steps.
struct Job {
  int entry = 0;  // 0 hirm, 1 pclean
  std::map<std::string, RelSpec> rels;
  std::vector<std::pair<std::string, Strs>> obs, held;  // (relation, {value, entity names})
  PcGen pc;
  std::vector<std::map<std::string, std::string>> rows, hrows;
  std::map<std::string, std::string> opt;
  int naming = 0;
  bool final_newline = true, comments = false;
  std::map<std::string, std::string> inputs;

  std::string o(const std::string& k, const std::string& d = "") const {
    auto i = opt.find(k);
    return i == opt.end() ? d : i->second;
  }
  std::string entity(const std::string& dom, int i) const {
    switch (naming) {
      case 0: return "e" + std::to_string(i);
      case 1: return std::to_string(90 - i * 7);
      case 2: return std::string(1, (char)('z' - i)) + "_" + dom;
      case 3: return strf("N-%d.%s", i * i, i % 2 ? "x" : "Y");
      case 5: return "http://example.org/" + std::string(40, 'q') + "/" + dom + std::string(20, '=') + std::to_string(i);
      case 6: return "the " + std::to_string(i);
      default: return dom + std::string(i + 1, '!');
    }
  }
  bool has_children(const std::string& n) const {
    for (auto& [k, r] : rels)
      if (!r.clean && r.base == n) return true;
    return false;
  }
  // False when a user could not expect the program to accept this.
  bool load(const Plan& p) {
    std::set<std::string> seen, hseen;
    for (auto& s : p.steps) {
      if (s.op == "naming") naming = s.i(0), final_newline = s.i(1), comments = s.i(2);
      if (s.op == "cmd")
        for (auto& kv : s.a) {
          auto e = kv.find('=');
          opt[kv.substr(0, e)] = kv.substr(e + 1);
        }
    }
    entry = o("prog") == "pclean";
    if (entry) {
      pc = pc_from_steps(p);
      if (pc.classes.empty() || pc.fields.empty()) return false;
      for (auto& s : p.steps)
        if (s.op == "csvrow" || s.op == "hrow") {
          std::map<std::string, std::string> r;
          for (size_t i = 0; i + 1 < s.a.size(); i += 2) r[s.a[i]] = s.a[i + 1];
          (s.op == "csvrow" ? rows : hrows).push_back(r);
        }
      if (rows.empty()) return false;
      inputs["in/c.schema"] = pc.text();
      inputs["in/c.csv"] = csv(rows);
      inputs["in/h.csv"] = csv(hrows);
      return true;
    }
    for (auto& s : p.steps)
      if (s.op == "rel") {
        RelSpec r = rel_parse(s);
        if (rels.count(r.name) || (!r.clean && !rels.count(r.base))) continue;
        rels[r.name] = r;
      }
    if (rels.empty()) return false;
    std::string schema, ob, he;
    if (comments) schema += "# a comment\n\n";
    for (auto& [n, r] : rels) {
      schema += n + " ~ " + dist_text(r) + "(" + (r.clean ? "" : r.base + "; ") + join(r.domains, ", ") + ")";
      if (comments && r.clean) schema += "  # clean";
      schema += "\n";
    }
    std::set<std::string> got;
    for (auto& s : p.steps)
      if (s.op == "obs" || s.op == "held" || s.op == "hbase") {
        auto it = rels.find(s.s(0));
        if (it == rels.end()) continue;
        const RelSpec& r = it->second;
        auto items = parse_ints(s.s(1));
        bool latent = s.op == "hbase";  // held-out values of what lies under noise
        if ((!r.observed && !latent) || items.size() != r.domains.size()) continue;
        std::string val = s.s(2);
        if (val.empty() || val.find(',') != std::string::npos || isspace(val[0]) || isspace(val.back())) continue;
        bool held_out = s.op != "obs";
        if (!(held_out ? hseen : seen).insert(r.name + " " + s.s(1)).second) continue;
        if (held_out && (seen.count(r.name + " " + s.s(1)) || !r.clean || (has_children(r.name) && !latent))) continue;
        // the values of the observed relations under it have to be there
        bool based = true;
        for (const RelSpec* q = &r; !q->clean && based;) {
          q = &rels[q->base];
          std::vector<int> bi(items.begin(), items.begin() + q->domains.size());
          if (q->observed) based = seen.count(q->name + " " + ints(bi));
        }
        if (!based) {
          seen.erase(r.name + " " + s.s(1));
          continue;
        }
        Strs l = {val};
        for (size_t i = 0; i < items.size(); ++i) l.push_back(entity(r.domains[i], items[i]));
        (held_out ? held : obs).push_back({r.name, l});
        (held_out ? he : ob) += l[0] + "," + r.name;
        for (size_t i = 1; i < l.size(); ++i) (held_out ? he : ob) += "," + l[i];
        (held_out ? he : ob) += "\n";
        if (!held_out) got.insert(r.name);
      }
    if (obs.empty()) return false;
    for (auto& [n, r] : rels) {
      if (!r.clean && !has_children(n) && !got.count(n)) return false;
      if (has_children(n) && r.observed && !got.count(n)) return false;
      // values of an observed base exist only where they were given
    }
    if (!final_newline) {
      schema.pop_back();
      ob.pop_back();
    }
    inputs["in/m.schema"] = schema;
    inputs["in/m.obs"] = ob;
    inputs["in/h.obs"] = he;
    return true;
  }
  Strs columns() const {
    Strs c;
    for (auto& [f, path] : pc.fields) c.push_back(f);
    if (o("extra") == "1") c.insert(c.begin() + c.size() / 2, "Unrelated");
    return c;
  }
  std::string csv(const std::vector<std::map<std::string, std::string>>& rs) const {
    auto cols = columns();
    std::string t = join(cols, ",") + "\n";
    for (auto& r : rs) {
      std::string l;
      for (size_t i = 0; i < cols.size(); ++i) {
        auto it = r.find(cols[i]);
        l += (i ? "," : "") + (it == r.end() ? (cols.size() == 1 ? std::string("\"\"") : "") : it->second);
      }
      t += l + "\n";
    }
    if (!final_newline) t.pop_back();
    return t;
  }
  // Arguments; in: prefix of the input directory.
  Strs args(const std::string& in, const std::string& seed, const std::string& load = "", const std::string& iters = "") const {
    Strs a;
    std::string it = iters.empty() ? o("iters", "1") : iters;
    if (entry) {
      a = {"--schema=" + in + "c.schema", "--obs=" + in + "c.csv", "--seed=" + seed, "--iters=" + it, "--output=" + o("out", "result"),
           "--inference_iters=" + o("inner", "1"), "--transition_entities=" + o("te", "true"),
           "--only_final_emissions=" + o("final", "false"), "--record_class_is_clean=" + o("clean", "true")};
      if (!hrows.empty()) a.push_back("--heldout=" + in + "h.csv");
      if (o("samples", "0") != "0") a.push_back("--samples=" + o("samples"));
    } else {
      a = {"--mode=" + o("mode", "hirm"), "--seed=" + seed, "--iters=" + it};
      if (!load.empty()) a.push_back("--load=" + load);
      if (!held.empty()) a.push_back("--heldout=" + in + "h.obs");
      if (o("samples", "0") != "0") a.push_back("--samples=" + o("samples"));
      a.push_back(in + "m");
    }
    if (o("timeout", "0") != "0") a.push_back("--timeout=" + o("timeout"));
    return a;
  }
  std::string seed() const { return o("seed", "10"); }
  void lay(const std::string& dir) const {
    for (auto& [f, t] : inputs) write_file(dir + "/" + f, t);
  }
  // The result files in a directory listing.
  std::map<std::string, std::string> results(const std::map<std::string, std::string>& fs) const {
    std::map<std::string, std::string> r;
    for (auto& [f, t] : fs)
      if (!inputs.count(f)) r[f] = t;
    return r;
  }
};
std::string heldout_line(const std::string& out) {
  auto i = out.find("Log likelihood of held out data is ");
  if (i == std::string::npos) return "";
  return out.substr(i, out.find('\n', i) - i);
}
std::string tail(const std::string& s) { return s.size() > 200 ? s.substr(s.size() - 200) : s; }
std::string files_differ(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
  for (auto& [f, t] : a) {
    auto i = b.find(f);
    if (i == b.end()) return f + " is missing";
    if (i->second != t) {
      size_t k = 0;
      while (k < t.size() && k < i->second.size() && t[k] == i->second[k]) ++k;
      return f + strf(" differs from byte %zu on (%zu against %zu bytes)", k, t.size(), i->second.size());
    }
  }
  for (auto& [f, t] : b)
    if (!a.count(f)) return f + " is an extra file";
  return "";
}

// ---- cluster files
// Canonical form: relations grouped, and per group and domain the entity
// groups, whatever the ids and the order.
std::string canon_clusters(const std::string& text, bool hirm, Ctx& c) {
  std::map<std::string, std::set<std::string>> rel;                       // table -> relations
  std::map<std::string, std::map<std::string, std::set<std::string>>> m;  // table -> domain -> groups
  std::istringstream in(text);
  std::string l, cur = "";
  bool head = hirm;
  while (std::getline(in, l)) {
    if (l.empty()) {
      head = false;
      continue;
    }
    std::istringstream ls(l);
    std::string a, b, w;
    ls >> a;
    if (hirm && head) {
      if (rel.count(a)) c.fail("file-malformed", "relation cluster " + a + " appears twice");
      while (ls >> w) rel[a].insert(w);
    } else if (hirm && a.rfind("irm=", 0) == 0) {
      cur = a.substr(4);
      if (!rel.count(cur)) c.fail("file-malformed", "no relation cluster for " + a);
    } else {
      ls >> b;
      std::set<std::string> g;
      while (ls >> w)
        if (!g.insert(w).second) c.fail("file-malformed", "entity " + w + " appears twice in one cluster of " + a);
      m[cur][a].insert(join(Strs(g.begin(), g.end()), " "));
    }
  }
  std::set<std::string> parts;
  auto body = [&](const std::string& t) {
    std::string s;
    for (auto& [d, gs] : m[t]) {
      s += " " + d + "{";
      for (auto& g : gs) s += "(" + g + ")";
      s += "}";
    }
    return s;
  };
  if (!hirm) return body("");
  for (auto& [t, rs] : rel) parts.insert("[" + join(Strs(rs.begin(), rs.end()), " ") + "]" + body(t));
  return join(Strs(parts.begin(), parts.end()), "\n");
}
// The same canonical form of a live model.
std::string canon_live(const HIRM* h, const IRM* irm0, const T_encoding& enc);
std::string canon_model(const Model& m, const T_encoding& enc) { return canon_live(m.h.get(), m.m.get(), enc); }
std::string canon_live(const HIRM* h, const IRM* irm0, const T_encoding& enc) {
  auto& names = std::get<1>(enc);
  auto body = [&](const IRM* irm) {
    std::map<std::string, std::set<std::string>> ds;
    for (auto& [d, dom] : irm->domains)
      for (auto& [t, items] : dom->crp.tables) {
        std::set<std::string> g;
        for (auto i : items) g.insert(names.at(d).at(i));
        ds[d].insert(join(Strs(g.begin(), g.end()), " "));
      }
    std::string s;
    for (auto& [d, gs] : ds) {
      s += " " + d + "{";
      for (auto& g : gs) s += "(" + g + ")";
      s += "}";
    }
    return s;
  };
  if (!h) return body(irm0);
  std::set<std::string> parts;
  for (auto& [t, irm] : h->irms) {
    std::set<std::string> rs;
    for (auto& [n, _] : irm->relations) rs.insert(n);
    parts.insert("[" + join(Strs(rs.begin(), rs.end()), " ") + "]" + body(irm));
  }
  return join(Strs(parts.begin(), parts.end()), "\n");
}
// A live model must hold exactly the observations of the job.
void compare_data(const Job& j, const Model& m, const T_encoding& enc, Ctx& c, const std::string& when) {
  auto& codes = std::get<0>(enc);
  std::map<std::string, std::map<std::vector<int>, std::string>> want;
  for (auto& [r, l] : j.obs) {
    std::vector<int> it;
    for (size_t i = 1; i < l.size(); ++i) it.push_back(codes.at(j.rels.at(r).domains[i - 1]).at(l[i]));
    want[r][it] = l[0];
  }
  for (auto& [r, sp] : j.rels) {
    std::visit(
        [&](auto* q) {
          auto& data = q->get_data();
          if (sp.observed) {
            if (data.size() != want[r].size()) c.fail("data-count", when + ": " + r + strf(" holds %zu values, %zu were given", data.size(), want[r].size()));
            for (auto& [it, v] : want[r]) {
              auto d = data.find(it);
              if (d == data.end()) c.fail("data-lost", when + ": " + r + " [" + ints(it) + "] is gone");
              if (from_value(ObservationVariant(d->second)) != from_value(q->from_string(v)))
                c.fail("data-changed", when + ": " + r + " [" + ints(it) + "] is " + from_value(ObservationVariant(d->second)) + " instead of " + v);
            }
          } else {
            // Exactly the cells its noisy relations need.
            std::set<std::vector<int>> need;
            for (auto& [n, k] : j.rels)
              if (!k.clean && k.base == r)
                std::visit([&](auto* x) {
                  for (auto& [it, _] : x->get_data()) need.insert(std::vector<int>(it.begin(), it.begin() + sp.domains.size()));
                }, m.rel(n));
            if (data.size() != need.size()) c.fail("latent-count", when + ": " + r + strf(" holds %zu latent values, its noisy relations need %zu", data.size(), need.size()));
            for (auto& it : need)
              if (!data.count(it)) c.fail("latent-lost", when + ": " + r + " [" + ints(it) + "] has no latent value");
          }
        },
        m.rel(r));
  }
}
// ---- held-out data
std::vector<HeldLine> held_lines(const std::vector<std::pair<std::string, Strs>>& ls, const std::map<std::string, RelSpec>& rels, const T_encoding& enc) {
  std::vector<HeldLine> v;
  for (auto& [r, l] : ls) {
    HeldLine h;
    h.relation = r;
    for (size_t i = 1; i < l.size(); ++i) h.items.push_back(std::get<0>(enc).at(rels.at(r).domains[i - 1]).at(l[i]));
    h.value = to_value(rels.at(r).type, l[0]);
    v.push_back(h);
  }
  return v;
}
bool big_numbers(const std::vector<std::pair<std::string, Strs>>& ls, const std::map<std::string, RelSpec>& rels) {
  for (auto& [r, l] : ls)
    if (rels.at(r).type == ObservationEnum::double_type && std::fabs(atof(l[0].c_str())) > 1e4) return true;
  return false;
}
// What the simulated process sees when it is about to score the held-out
// lines: "fine", the expected result and the clusters, or a violation.
std::string look_at_held(const Job& j, HIRM* h, IRM* m, const T_encoding& enc, const T_observations& o) {
  try {
    auto* v = new Model;
    v->is_hirm = h != nullptr;
    v->specs = j.rels;
    if (h) v->h.reset(h);
    else v->m.reset(m);
    Stats st;
    Ctx cc;
    cc.stats = &st;
    std::multiset<std::string> want, got;
    for (auto& [r, l] : j.held) want.insert(r + ":" + join(l, ","));
    for (auto& [r, ls] : o)
      for (auto& [items, val] : ls) got.insert(r + ":" + val + "," + join(items, ","));
    if (want != got) cc.fail("held-lines-differ", strf("%zu lines are scored: ", got.size()) + join(Strs(got.begin(), got.end()), " ") + strf("; the file has %zu", want.size()));
    compare_data(j, *v, enc, cc, "when the held-out lines are scored");
    bool exact = true;
    double e = held_reference([&](const std::string& r) { return v->irm_of(r); }, held_lines(j.held, j.rels, enc), &exact);
    for (auto& [r, l] : j.held)
      if (j.rels.at(r).dist.find("skellam") != std::string::npos) exact = false;  // no closed form
    v->h.release();
    v->m.release();
    return "H" + strf("%d %.17g\n", (int)exact, e) + canon_live(h, m, enc);
  } catch (const Violation& v) {
    return "V" + v.cls + "\n" + v.msg;
  }
}
// The rows that went into the GenDB, and the score around the held-out ones.
struct RowLog {
  Strs rows;
  std::set<int> ids;
  size_t training = 0;
  double before = NAN, after = NAN, calls = 0;
  std::string clusters;
};
RowLog row_log;
std::string row_text(const std::map<std::string, std::string>& r) {
  std::string t;
  for (auto& [k, v] : r)
    if (!v.empty()) t += k + "=" + v + " ";
  return t;
}
}  // namespace

struct ProgWorld : World {
  std::string prop;
  explicit ProgWorld(std::string p) : prop(std::move(p)) {}

  void gen_job(Rng& g, Plan& p, int tier, bool pclean) {
    int big = g.chance(0.15) ? 3 : 1;
    if (pclean) {
      PcOpts o;
      o.heavy = g.chance(0.1);
      o.strings = g.chance(0.3);
      PcGen s = pc_generate(g, o);
      pc_steps(g, p, s);
      p.add(g, "naming", {"0", g.chance(0.85) ? "1" : "0", "0"});
      Strs cmd = {"prog=pclean", "seed=" + std::to_string(g.range(0, 99)), "iters=" + std::to_string(g.range(0, 2)),
                  "inner=" + std::to_string(g.range(0, 2)), std::string("te=") + (g.chance(0.8) ? "true" : "false"),
                  std::string("final=") + (g.chance(0.3) ? "true" : "false"), std::string("clean=") + (g.chance(0.7) ? "true" : "false"),
                  "samples=" + std::to_string(prop == "P17" || g.chance(0.5) ? g.range(1, 4) : 0), std::string("extra=") + (g.chance(0.2) ? "1" : "0")};
      p.add(g, "cmd", cmd);
      int n = g.range(1, 5) * big;
      auto row = [&](const char* op) {
        Strs a;
        for (auto& [f, path] : s.fields)
          if (g.chance(0.88)) {
            std::string t = s.path_type(path), v = pc_value(g, t);
            if (path.find('.') == std::string::npos && t.rfind("stringcat", 0) == 0) v = g.chance(0.5) ? "a" : "bb";
            a.push_back(f);
            a.push_back(v);
          }
        p.add(g, op, a);
      };
      for (int i = 0; i < n; ++i) row("csvrow");
      if (g.chance(prop == "P28" ? 0.95 : 0.35))
        for (int i = g.range(1, 3); i > 0; --i) row("hrow");
      return;
    }
    GenOpts o;
    GenState s;
    o.max_clean = 3;
    o.max_noisy = 2;
    o.heavy = g.chance(0.2);
    o.max_entities = 4;
    bool wide = g.chance(prop == "P10" ? 0.12 : 0.03);
    if (wide) {  // more than ten relations, and more than ten entities
      s.doms = {"D0"};
      s.entities = g.range(3, 16);
      for (int i = g.range(11, 15); i > 0; --i) {
        RelSpec r;
        r.name = std::string(1, (char)('a' + g.below(26))) + std::to_string(s.names++);
        r.dist = "bernoulli";
        r.domains = {"D0"};
        s.rels.push_back(r);
        p.add(g, "rel", rel_args(r));
      }
    } else
      gen_schema(g, p, s, o);
    p.add(g, "naming", {std::to_string(wide ? 0 : prop == "P10" && g.chance(0.04) ? 6 : g.range(0, 5)), g.chance(0.8) ? "1" : "0", g.chance(0.3) ? "1" : "0"});
    p.add(g, "cmd", {"prog=hirm", std::string("mode=") + (g.chance(0.75) ? "hirm" : "irm"), "seed=" + std::to_string(g.range(0, 99)),
                     "iters=" + std::to_string(g.range(0, 3)), "samples=" + std::to_string(prop == "P17" ? (g.chance(0.25) ? g.range(12, 40) : g.range(1, 4)) : g.chance(0.4) ? g.range(1, 3) : 0)});
    int n = wide ? g.range(15, 60) : g.range(4, 14) * big;
    for (int i = 0; i < n; ++i) gen_obs(g, p, s);
    // every leaf must be observed
    for (auto& r : s.rels) {
      if (s.cells[r.name].empty() && !r.clean) {
        GenState t = s;
        t.rels = {};
        for (int k = 0; k < 20 && s.cells[r.name].empty(); ++k) gen_obs(g, p, s);
      }
    }
    if (g.chance(prop == "P28" ? 0.9 : 0.4)) {
      Plan q;
      int k = g.range(1, 4);
      s.entities += g.chance(0.5) ? 1 : 0;
      for (int i = 0; i < k; ++i) gen_obs(g, q, s);
      for (auto& st : q.steps)
        if (st.op == "obs") p.add(g, "held", st.a);
      if (prop == "P28" && g.chance(0.4))
        for (int i = g.range(1, 2); i > 0; --i) {
          const RelSpec& r = g.pick(s.rels);
          if (!r.clean || !s.has_children(r.name)) continue;
          std::vector<int> it;
          for (size_t k = 0; k < r.domains.size(); ++k) it.push_back(g.below(s.entities));
          p.add(g, "hbase", {r.name, ints(it), gen_value(g, r, s)});
        }
    }
  }
  static Strs env_args(Rng& g) {
    return {std::to_string(1 + g.below(5000000)), std::to_string(g.below(1ull << 40)), std::to_string(g.range(0, 255)),
            std::to_string(g.range(0, 400)), std::to_string(g.range(0, 255)), g.chance(0.5) ? "1" : "0"};
  }
  static ProgEnv env_from(const Step& s) {
    ProgEnv e;
    e.clock_step = std::stoull(s.s(0));
    e.clock_base = std::stoull(s.s(1));
    e.perturb = s.i(2);
    e.preallocate = s.i(3);
    e.stack_fill = s.i(4);
    e.rs = s.seed;
    return e;
  }
  void generate(Rng& g, Plan& p, int tier) override {
    bool pclean = prop == "P17" ? g.chance(0.6) : prop == "P10" ? false : g.chance(prop == "P28" ? 0.3 : 0.45);
    gen_job(g, p, tier, pclean);
    if (prop == "P08") {
      static const Strs langs = {"C", "de_DE.UTF-8", "tr_TR.UTF-8", "POSIX"};
      for (int i = g.range(1, 2); i > 0; --i) {
        auto a = env_args(g);
        a.push_back(g.chance(0.5) ? "1" : "0");  // verbose
        a.push_back(g.chance(0.5) ? "1" : "0");  // another directory, absolute paths
        a.push_back(langs[g.below(4)]);
        a.push_back(g.chance(0.3) ? "1" : "0");  // remnants of earlier runs
        p.add(g, "again", a);
      }
    } else if (prop == "P10") {
      p.add(g, "reload", {std::to_string(g.range(0, 99)), std::to_string(g.range(0, 2)), "0"});
      if (g.chance(0.6)) {
        p.add(g, "spread", {std::to_string(g.range(1, 20)), std::to_string(g.range(0, 2))});
        p.add(g, "reload", {std::to_string(g.range(0, 99)), std::to_string(g.range(0, 2)), "1"});
      }
    } else if (prop == "P11") {
      for (int i = g.range(1, 2); i > 0; --i) p.add(g, "split", {g.chance(0.8) ? "1" : "0", g.chance(0.5) ? std::to_string(g.range(2, 7)) : "0", g.chance(0.5) ? "1" : "0"});
    } else if (prop == "P12") {
      static const Strs kinds = {"openr.eacces", "openr.emfile", "openw.eacces", "openw.enospc", "read.eio", "read.eio", "write.enospc", "write.eio",
                                 "write.enospc_torn", "closew.eio", "alloc", "alloc", "alloc"};
      for (int i = g.range(2, tier ? 10 : 5); i > 0; --i)
        p.add(g, "fault", {g.pick(kinds), std::to_string(g.below(1000000)), g.chance(0.5) ? "1" : "0"});
    } else if (prop == "P13") {
      static const Strs kinds = {"openr.kill", "openw.kill", "read.kill", "write.kill", "write.kill", "write.kill", "alloc"};
      for (int i = g.range(1, tier ? 5 : 3); i > 0; --i)
        p.add(g, "kill", {g.pick(kinds), std::to_string(g.below(1000000)), g.chance(0.6) ? "1" : "0"});
      if (g.chance(0.3)) p.add(g, "remnant", {std::to_string(g.range(0, 30000))});
    } else if (prop == "P28") {
      if (!pclean) {
        if (g.chance(0.7)) p.add(g, "norm", {g.chance(0.6) ? "1" : "2"});
        if (g.chance(0.6)) p.add(g, "known");
        if (g.chance(0.5)) p.add(g, "loaded", {std::to_string(g.range(0, 99))});
      }
    } else if (prop == "P27") {
      static const Strs h = {"in/m.schema", "in/m.obs", "in/m.obs", "in/h.obs", "saved", "saved"}, pc = {"in/c.schema", "in/c.schema", "in/c.csv", "in/c.csv", "in/h.csv"};
      for (int i = g.range(4, tier ? 16 : 10); i > 0; --i) gen_tear(g, p, g.pick(pclean ? pc : h));
    }
  }

  // Positions are kept as millionths of what an undisturbed run does.
  static uint64_t at(const Step& s, uint64_t total) { return total ? 1 + (uint64_t)((s.d(1) / 1e6) * total) : 0; }
  static bool set_fault(ProgEnv& e, const Step& s, const ProgResult& base, bool kill) {
    const std::string& k = s.s(0);
    uint64_t n = k == "alloc" ? base.allocs : k.rfind("openr", 0) == 0 ? base.opens_r : k.rfind("openw", 0) == 0 ? base.opens_w
                 : k.rfind("read", 0) == 0 ? base.reads : k.rfind("write", 0) == 0 ? base.writes : base.closes_w;
    uint64_t i = std::min(at(s, n), n);
    if (!i) return false;
    if (k == "alloc") (kill ? e.alloc_kill : e.alloc_fail) = (int64_t)i - 1;
    else e.faults.push_back({k, i});
    return true;
  }
  struct Cleaner {
    std::vector<std::string> dirs;
    std::string fresh() {
      dirs.push_back(scratch_dir());
      return dirs.back();
    }
    ~Cleaner() {
      for (auto& d : dirs) remove_dir(d);
    }
  };

  void run(const Plan& p, Ctx& c) override {
    Job j;
    if (!j.load(p)) {
      c.count("unusable");
      return;
    }
    Cleaner dirs;
    std::string d0 = dirs.fresh();
    j.lay(d0);
    if (prop == "P28") watch(j);
    ProgResult base = run_prog(d0, j.entry, j.args("in/", j.seed()), ProgEnv());
    unwatch();
    c.stats->sim_time += base.clock_readings * 0.001;
    c.count(std::string("program.") + (j.entry ? "pclean" : "hirm"));
    c.log(strf("rc %d ", base.rc) + heldout_line(base.out));
    if (prop == "P27" && (base.rc || !base.san_cls.empty())) {
      c.count("unusable");
      return;
    }
    if (base.rc) c.fail("rejected", strf("valid input: exit status %d; ", base.rc) + tail(base.out));
    check_inputs(j, base, c, "an undisturbed run");
    auto want = j.results(base.files);
    for (auto& [f, t] : want) c.log(f + " " + std::to_string(hash_str(t))), c.state(hash_str(t));
    c.nontrivial = true;
    if (want.empty()) c.fail("no-result", "a successful run wrote no result file");
    if (prop == "P08") run_again(p, j, base, want, dirs, c);
    if (prop == "P10") run_reload(p, j, base, want, dirs, c);
    if (prop == "P11") run_split(p, j, base, want, dirs, c);
    if (prop == "P12") run_faults(p, j, base, want, dirs, c);
    if (prop == "P13") run_kills(p, j, base, want, dirs, c);
    if (prop == "P27") run_tears(p, j, want, dirs, c);
    if (prop == "P28") run_held(p, j, base, want, dirs, c);
    if (prop == "P17" && j.entry) run_samples(p, j, base, want, dirs, c);
    if (prop == "P17" && !j.entry) run_sampled_lines(p, j, base, want, dirs, c);
  }
  void check_inputs(const Job& j, const ProgResult& r, Ctx& c, const std::string& when) {
    for (auto& [f, t] : j.inputs) {
      auto i = r.files.find(f);
      if (i == r.files.end()) c.fail("input-deleted", when + ": " + f + " is gone");
      if (i->second != t) c.fail("input-changed", when + ": " + f + " was modified");
    }
  }
  void run_again(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    for (auto& s : p.steps) {
      if (s.op != "again") continue;
      ProgEnv e = env_from(s);
      if (s.i(5)) {
        e.short_reads = e.short_writes = true;
        c.count("fault.short_io");
      }
      e.vars = {{"LC_ALL", s.s(8)}, {"LANG", s.s(8)}, {"HOME", "/nonexistent"}, {"TMPDIR", "/nonexistent"}, {"TZ", "Asia/Tokyo"}};
      std::string d = dirs.fresh();
      bool away = s.i(7);
      if (away) {
        remove_dir(d);
        d += "_a_much_longer_directory_name";
        dirs.dirs.push_back(d);
        write_file(d + "/x", "");
        unlink((d + "/x").c_str());
      }
      j.lay(d);
      Rng g(s.seed);
      if (s.i(9))
        for (auto& [f, t] : want) write_file(d + "/" + f, std::string(g.below(40000), 'x'));
      auto args = j.args(away ? d + "/in/" : "in/", j.seed());
      if (s.i(6)) args.insert(args.begin(), "--verbose");
      for (auto k : {"clock_speed", "heap_contents", "stack_contents", "environment"}) c.count(std::string("fault.") + k);
      if (away) c.count("fault.location");
      if (s.i(6)) c.count("fault.verbose");
      ProgResult r = run_prog(d, j.entry, args, e);
      c.count("program.again");
      if (r.rc) c.fail("second-run-failed", strf("the second run ended with status %d; ", r.rc) + tail(r.out));
      std::string diff = files_differ(want, j.results(r.files));
      if (!diff.empty()) c.fail("outputs-differ", "two runs on the same input: " + diff);
      if (heldout_line(r.out) != heldout_line(base.out)) c.fail("heldout-differs", heldout_line(base.out) + " / " + heldout_line(r.out));
    }
  }
  void run_reload(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    bool hirm = j.o("mode", "hirm") == "hirm";
    std::string name = "in/m." + j.seed() + (hirm ? ".hirm" : ".irm");
    auto w = want.find(name);
    if (w == want.end()) c.fail("no-result", name + " was not written");
    std::string saved = w->second;
    if (j.naming == 6) {
      // Names with a space, which the format of saved clusters does not quote.
      std::string d = dirs.fresh();
      j.lay(d);
      write_file(d + "/saved", saved);
      ProgResult r = run_prog(d, 0, j.args("in/", "7", "saved", "0"), ProgEnv());
      c.count("program.reload");
      if (r.rc) c.fail("load-rejected:space-in-name", strf("loading the saved clusters: status %d; ", r.rc) + tail(r.out));
      if (r.files[std::string("in/m.7") + (hirm ? ".hirm" : ".irm")] != saved) c.fail("reload-differs:space-in-name", "saved: " + saved);
      return;
    }
    std::string canon = canon_clusters(saved, hirm, c);
    for (auto& s : p.steps) {
      if (s.op == "spread") {
        // Take the model somewhere a short run hardly gets to, and save it there.
        std::string d = dirs.fresh();
        j.lay(d);
        write_file(d + "/saved", saved);
        ProgResult q = run_child(
            d,
            [&]() -> std::string {
              exit_leaves = true;
              std::mt19937 prng = step_prng(s);
              Rng g(s.seed + 1);
              T_schema sc = load_schema("in/m.schema");
              T_observations ob = load_observations("in/m.obs", sc);
              T_encoding enc = calculate_encoding(sc, ob);
              if (!hirm) {
                IRM irm({});
                from_txt(&prng, &irm, "in/m.schema", "in/m.obs", "saved");
                for (auto& [n, dom] : irm.domains) dom->crp.alpha = s.i(0);
                for (int i = 0; i <= s.i(1); ++i) irm.transition_cluster_assignments_all(&prng);
                to_txt("saved2", irm, enc);
                return canon_live(nullptr, &irm, enc);
              }
              HIRM h({}, &prng);
              from_txt(&prng, &h, "in/m.schema", "in/m.obs", "saved");
              Strs names;
              for (auto& [n, _] : j.rels) names.push_back(n);
              for (int i = 0; i < s.i(0); ++i) h.set_cluster_assignment_gibbs(&prng, g.pick(names), h.crp.max_table() + 1);
              for (int i = 0; i <= s.i(1); ++i)
                for (auto& [t, irm] : h.irms) {
                  for (auto& [n, dom] : irm->domains) dom->crp.alpha = s.i(0);
                  irm->transition_cluster_assignments_all(&prng);
                }
              to_txt("saved2", h, enc);
              return canon_live(&h, nullptr, enc);
            },
            ProgEnv());
        if (q.rc || !q.files.count("saved2")) c.fail("save-crashed", strf("saving in-process ended with status %d; ", q.rc) + tail(q.out));
        saved = q.files["saved2"];
        canon = canon_clusters(saved, hirm, c);
        if (canon != q.probe) c.fail("saved-differs", "model: " + q.probe + " saved: " + canon);
        c.count("op.spread");
        continue;
      }
      if (s.op != "reload") continue;
      // A new process saves what it loaded.
      std::string d = dirs.fresh();
      j.lay(d);
      write_file(d + "/saved", saved);
      auto a = j.args("in/", s.s(0), "saved", "0");
      ProgResult r = run_prog(d, 0, a, ProgEnv());
      c.count("program.reload");
      if (r.rc) c.fail("load-rejected", strf("loading the saved clusters: status %d; ", r.rc) + tail(r.out));
      std::string again = "in/m." + s.s(0) + (hirm ? ".hirm" : ".irm");
      if (!r.files.count(again)) c.fail("no-result", again + " was not written after loading");
      std::string canon2 = canon_clusters(r.files[again], hirm, c);
      if (canon2 != canon) c.fail("reload-differs", "saved: " + canon + " after loading and saving again: " + canon2);
      // In a process of its own, look inside the loaded model and go on.
      std::string d2 = dirs.fresh();
      j.lay(d2);
      write_file(d2 + "/saved", saved);
      ProgResult q = run_child(
          d2,
          [&]() -> std::string {
            exit_leaves = true;
            try {
              Model m;
              m.is_hirm = hirm;
              m.specs = j.rels;
              std::mt19937 prng(s.i(0) + 1);
              T_schema sc = load_schema("in/m.schema");
              T_observations ob = load_observations("in/m.obs", sc);
              T_encoding enc = calculate_encoding(sc, ob);
              if (hirm) {
                m.h.reset(new HIRM({}, &prng));
                from_txt(&prng, m.h.get(), "in/m.schema", "in/m.obs", "saved");
              } else {
                m.m.reset(new IRM({}));
                from_txt(&prng, m.m.get(), "in/m.schema", "in/m.obs", "saved");
              }
              Stats st;
              Ctx cc;
              cc.prop = prop;
              cc.stats = &st;
              std::string cm = canon_model(m, enc);
              if (cm != canon) cc.fail("loaded-differs", "saved: " + canon + " loaded: " + cm);
              compare_data(j, m, enc, cc, "after loading");
              check_structure(m, cc);
              check_stats(m, cc);
              for (int i = 0; i < s.i(1); ++i) {
                if (hirm) inference_hirm(&prng, m.h.get(), 1, 0, false);
                else inference_irm(&prng, m.m.get(), 1, 0, false);
                compare_data(j, m, enc, cc, "after further inference");
                check_structure(m, cc);
                check_stats(m, cc);
              }
              return "fine";
            } catch (const Violation& v) {
              return "V" + v.cls + "\n" + v.msg;
            } catch (const std::exception& v) {
              return std::string("Vexception\nuncaught exception: ") + v.what();
            }
          },
          ProgEnv());
      if (q.rc) c.fail("load-crashed", strf("loading in-process ended with status %d; ", q.rc) + tail(q.out));
      auto nl = q.probe.find('\n');
      if (q.probe[0] == 'V') c.fail(q.probe.substr(1, nl - 1), q.probe.substr(nl + 1));
    }
  }
  static std::string text_of(const T_schema& sc) {
    std::map<std::string, std::string> m;
    for (auto& [n, t] : sc) {
      if (auto* k = std::get_if<T_clean_relation>(&t)) {
        std::map<std::string, std::string> da(k->distribution_spec.distribution_args.begin(), k->distribution_spec.distribution_args.end());
        std::string a;
        for (auto& [x, y] : da) a += x + "=" + y + ";";
        m[n] = strf("clean %d %d ", (int)k->distribution_spec.distribution, (int)k->is_observed) + a + join(k->domains, ",");
      } else {
        auto& q = std::get<T_noisy_relation>(t);
        m[n] = strf("noisy %d %d ", (int)q.emission_spec.emission, (int)q.is_observed) + q.base_relation + " " + join(q.domains, ",");
      }
    }
    std::string s;
    for (auto& [n, t] : m) s += n + ":" + t + "\n";
    return s;
  }
  // What the readers must deliver, from the plan.
  void check_readers(const Job& j, Ctx& c) {
    if (j.entry) {
      PCleanSchema a, b = pc_parse(j.pc);
      if (!read_schema_file("in/c.schema", &a)) c.fail("schema-rejected", "the class schema was not read");
      if (a.classes.size() != b.classes.size() || a.query.fields.size() != b.query.fields.size() || a.query.record_class != b.query.record_class)
        c.fail("schema-differs", "the class schema lost parts");
      for (auto& [n, cl] : b.classes)
        if (!a.classes.count(n) || a.classes[n].vars.size() != cl.vars.size()) c.fail("schema-differs", "class " + n);
      DataFrame df = DataFrame::from_csv("in/c.csv");
      if (df.columns != j.columns()) c.fail("table-columns", "columns " + join(df.columns, ","));
      for (auto& col : j.columns()) {
        auto& v = df.data[col];
        if (v.size() != j.rows.size()) c.fail("table-rows", strf("%zu rows instead of %zu in column ", v.size(), j.rows.size()) + col);
        for (size_t i = 0; i < v.size(); ++i) {
          auto it = j.rows[i].find(col);
          std::string w = it == j.rows[i].end() ? "" : it->second;
          if (v[i] != w) c.fail("table-cell", strf("row %zu of ", i) + col + " is '" + v[i] + "' instead of '" + w + "'");
        }
      }
      return;
    }
    T_schema sc = load_schema("in/m.schema"), sp;
    T_observations ob = load_observations("in/m.obs", sc);
    std::set<std::string> got;
    for (auto& [r, l] : j.obs) got.insert(r);
    for (auto& [n, r] : j.rels) {
      RelSpec q = r;
      q.observed = got.count(n);
      sp[n] = to_relation(q);
    }
    if (text_of(sc) != text_of(sp)) c.fail("schema-differs", "read: " + text_of(sc) + " given: " + text_of(sp));
    std::multiset<std::string> a, b;
    for (auto& [r, l] : j.obs) a.insert(r + "|" + join(l, ","));
    for (auto& [r, v] : ob)
      for (auto& t : v) {
        Strs l = {std::get<1>(t)};
        for (auto& x : std::get<0>(t)) l.push_back(x);
        b.insert(r + "|" + join(l, ","));
      }
    if (a != b) {
      std::string d;
      for (auto& x : a)
        if (a.count(x) != b.count(x)) d += " given " + x + strf(" x%zu", a.count(x));
      for (auto& x : b)
        if (a.count(x) != b.count(x)) d += " read " + x + strf(" x%zu", b.count(x));
      c.fail("observations-differ", d);
    }
  }
  void run_split(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    for (auto& s : p.steps) {
      if (s.op != "split") continue;
      ProgEnv e;
      e.short_reads = s.i(0);
      e.eintr_every = s.i(1);
      e.short_writes = s.i(2);
      e.rs = s.seed;
      std::string d = dirs.fresh();
      j.lay(d);
      ProgResult r = run_prog(d, j.entry, j.args("in/", j.seed()), e);
      for (auto& [k, n] : r.fired) c.count("fault." + k, n);
      c.count("program.split");
      if (r.rc) c.fail("split-failed", strf("with split reads the program ended with status %d; ", r.rc) + tail(r.out));
      std::string diff = files_differ(want, j.results(r.files));
      if (!diff.empty()) c.fail("split-differs", "with split reads: " + diff);
      if (heldout_line(r.out) != heldout_line(base.out)) c.fail("split-differs", heldout_line(base.out) + " / " + heldout_line(r.out));
      // The cluster file, too.
      bool hirm = j.o("mode", "hirm") == "hirm";
      std::string name = "in/m." + j.seed() + (hirm ? ".hirm" : ".irm"), saved;
      if (!j.entry && want.count(name)) saved = want.at(name);
      std::string d2 = dirs.fresh();
      j.lay(d2);
      if (!saved.empty()) write_file(d2 + "/saved", s.seed % 3 ? saved : saved.substr(0, saved.size() - 1));
      ProgResult q = run_child(
          d2,
          [&]() -> std::string {
            try {
              Stats st;
              Ctx cc;
              cc.prop = prop;
              cc.stats = &st;
              check_readers(j, cc);
              if (!saved.empty()) {
                std::string want_c = canon_clusters(saved, hirm, cc), got;
                std::map<int, std::map<std::string, std::map<int, Strs>>> irms;
                std::map<int, Strs> rels;
                if (hirm) std::tie(rels, irms) = load_clusters_hirm("saved");
                else irms[0] = load_clusters_irm("saved");
                std::set<std::string> parts;
                for (auto& [t, ds] : irms) {
                  std::string b;
                  for (auto& [dn, ts] : ds) {
                    std::set<std::string> gs;
                    for (auto& [x, items] : ts) {
                      std::set<std::string> g(items.begin(), items.end());
                      if (g.size() != items.size()) cc.fail("clusters-differ", "an entity appears twice");
                      gs.insert(join(Strs(g.begin(), g.end()), " "));
                    }
                    b += " " + dn + "{";
                    for (auto& g : gs) b += "(" + g + ")";
                    b += "}";
                  }
                  if (!hirm) got = b;
                  else {
                    std::set<std::string> rs(rels[t].begin(), rels[t].end());
                    parts.insert("[" + join(Strs(rs.begin(), rs.end()), " ") + "]" + b);
                  }
                }
                if (hirm) got = join(Strs(parts.begin(), parts.end()), "\n");
                if (got != want_c) cc.fail("clusters-differ", "file: " + want_c + " read: " + got);
              }
              return "fine";
            } catch (const Violation& v) {
              return "V" + v.cls + "\n" + v.msg;
            } catch (const std::exception& v) {
              return std::string("Vexception\nuncaught exception: ") + v.what();
            }
          },
          e);
      for (auto& [k, n] : q.fired) c.count("fault." + k, n);
      if (q.rc) c.fail("reader-crashed", strf("a reader ended with status %d; ", q.rc) + tail(q.out));
      auto nl = q.probe.find('\n');
      if (q.probe[0] == 'V') c.fail(q.probe.substr(1, nl - 1), q.probe.substr(nl + 1));
    }
  }
  void run_faults(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    for (auto& s : p.steps) {
      if (s.op != "fault") continue;
      ProgEnv e;
      e.rs = s.seed;
      ProgResult plain = base;
      if (s.i(2)) {  // many small reads and writes: more places to fail
        e.short_reads = e.short_writes = true;
        std::string d = dirs.fresh();
        j.lay(d);
        plain = run_prog(d, j.entry, j.args("in/", j.seed()), e);
        if (plain.rc) c.fail("split-failed", strf("with split reads the program ended with status %d; ", plain.rc) + tail(plain.out));
      }
      if (!set_fault(e, s, plain, false)) continue;
      std::string d = dirs.fresh();
      j.lay(d);
      ProgResult r = run_prog(d, j.entry, j.args("in/", j.seed()), e);
      c.count("program.faulted");
      bool fired = false;
      for (auto& [k, n] : r.fired)
        if (k != "read.short" && k != "write.short") fired = true, c.count("fault." + k, n);
      if (s.s(0) == "alloc" && r.rc >= 128) fired = true, c.count("fault.alloc.fail");
      c.log(strf("%s rc %d", s.s(0).c_str(), r.rc ? 1 : 0));
      check_inputs(j, r, c, "with " + s.s(0));
      if (!fired || r.rc) continue;
      std::string diff = files_differ(want, j.results(r.files));
      std::string cls = split(s.s(0), '.')[0];
      if (!diff.empty()) c.fail("false-success:" + cls, "with " + s.s(0) + " the program ended with status 0, but " + diff);
      if (cls != "alloc") c.fail("unreported:" + cls, "with " + s.s(0) + " the program ended with status 0");
      if (heldout_line(r.out) != heldout_line(base.out)) c.fail("false-success:" + cls, heldout_line(base.out) + " / " + heldout_line(r.out));
    }
  }
  void run_kills(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    std::string d = dirs.fresh();
    j.lay(d);
    for (auto& s : p.steps)
      if (s.op == "remnant")
        for (auto& [f, t] : want) write_file(d + "/" + f, std::string(s.i(0), 'y'));
    for (auto& s : p.steps) {
      if (s.op != "kill") continue;
      ProgEnv e;
      e.rs = s.seed;
      ProgResult plain = base;
      if (s.i(2)) {
        e.short_reads = e.short_writes = true;
        std::string d1 = dirs.fresh();
        j.lay(d1);
        plain = run_prog(d1, j.entry, j.args("in/", j.seed()), e);
      }
      if (!set_fault(e, s, plain, true)) continue;
      ProgResult r = run_prog(d, j.entry, j.args("in/", j.seed()), e);
      for (auto& [k, n] : r.fired)
        if (k != "read.short" && k != "write.short") c.count("fault." + k, n);
      c.count("program.killed");
      c.log(strf("%s rc %d", s.s(0).c_str(), r.rc));
      check_inputs(j, r, c, "killed at " + s.s(0));
      // The files it left must not stop or change the next run.
      if (s.seed % 3 == 0) continue;  // sometimes the next run is killed, too
      ProgResult q = run_prog(d, j.entry, j.args("in/", j.seed()), ProgEnv());
      c.count("program.rerun");
      if (q.rc) c.fail("rerun-failed", strf("the run after a kill at %s ended with status %d; ", s.s(0).c_str(), q.rc) + tail(q.out));
      check_inputs(j, q, c, "rerun");
      std::string diff = files_differ(want, j.results(q.files));
      if (!diff.empty()) c.fail("rerun-differs", "after a kill at " + s.s(0) + ": " + diff);
    }
    ProgResult q = run_prog(d, j.entry, j.args("in/", j.seed()), ProgEnv());
    if (q.rc) c.fail("rerun-failed", strf("the last run ended with status %d; ", q.rc) + tail(q.out));
    std::string diff = files_differ(want, j.results(q.files));
    if (!diff.empty()) c.fail("rerun-differs", "the last run: " + diff);
  }
  // A file that did not survive whole is read for what it holds, or rejected.
  void run_tears(const Plan& p, const Job& j, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    bool hirm = j.o("mode", "hirm") == "hirm";
    std::string saved_as = "in/m." + j.seed() + (hirm ? ".hirm" : ".irm");
    std::string text;
    for (auto& s : p.steps) text += " " + join(s.a, " ");
    bool bg = text.find("bigram") != text.npos || text.find("typo") != text.npos || text.find(" string") != text.npos;
    snprintf(san_context, 40, "%s", bg ? ":bigram" : "");
    for (auto& s : p.steps) {
      if (s.op != "tear") continue;
      const std::string& f = s.s(0);
      bool load = f == "saved";
      auto& from = load ? want : j.inputs;
      auto i = from.find(load ? saved_as : f);
      if (i == from.end() || i->second.empty() || (f == "in/h.obs" && j.held.empty()) || (f == "in/h.csv" && j.hrows.empty())) continue;
      std::string t = tear(i->second, s);
      if (t == i->second) {
        c.count("tears without effect");
        continue;
      }
      // Sizes that only ask for much memory or time are not about damage.
      bool huge = false;
      for (size_t a = 0, n = 0; a < t.size() && f.find("schema") != f.npos; ++a) huge |= (n = isdigit((unsigned char)t[a]) ? n + 1 : 0) > 3;
      if (huge) continue;
      std::string d = dirs.fresh();
      j.lay(d);
      write_file(d + "/" + f, t);
      auto args = load ? j.args("in/", j.seed(), "saved", "0") : j.args("in/", j.seed());
      last_san_cls.clear();
      ProgResult r = run_prog(d, j.entry, args, ProgEnv());
      c.count("fault." + s.s(1));
      c.count(std::string("damaged ") + (load ? "clusters" : f.find("schema") != f.npos ? (j.entry ? "class schema" : "schema") : j.entry ? "table" : "observations"));
      std::string what = s.s(1) + strf(" at %s of ", s.s(2).c_str()) + f + ": ";
      if (!r.san_cls.empty()) {
        // P22's finding: sampling from a noise model with undefined scores.
        if (r.san_cls == "precondition:std::discrete_distribution:bigram") {
          c.count("stopped by a known finding of P22");
          continue;
        }
        c.fail(r.san_cls, what + r.san_msg);
      }
      if (r.rc == 152 || r.rc == 137) c.fail("hang", what + "the program does not end");
      if (r.rc > 128 && r.rc != 134) c.fail("crash", what + strf("the program died by signal %d", r.rc - 128));
      c.log(strf("rc %d", r.rc));
      c.state(hash_str(f) * 31 + hash_str(t));
      if (r.rc) {
        c.count(r.rc == 134 ? "rejected by an uncaught exception" : "rejected");
        continue;
      }
      c.count("accepted");
      std::string why;
      if (load) why = bad_clusters(t, hirm);
      else if (f == "in/m.obs" || f == "in/h.obs") why = bad_observations(t, j.rels, true);
      else if (f == "in/m.schema") why = bad_schema(t);
      else if (f == "in/c.schema") why = bad_class_schema(t);
      else why = bad_table(t, j.pc, j.o("clean", "true") == "true");
      if (!why.empty()) c.fail("accepted-damage", what + "the program succeeded although " + why);
      if (load) {
        auto a = placements(t, hirm);
        auto o = r.files.find(saved_as);
        auto b = o == r.files.end() ? a : placements(o->second, hirm);
        for (auto& [k, v] : a)
          if (!b.count(k)) c.fail("placement-lost", what + k + " is gone after loading");
          else if (b[k] != v) c.fail("placement-changed", what + k + " was at " + v + " and is at " + b[k] + " after loading");
      }
    }
  }
  static void unwatch() {
    held_probe = nullptr;
    row_probe = nullptr;
    end_probe = nullptr;
  }
  static void watch(const Job& j) {
    held_probe = [&j](HIRM* h, IRM* m, const T_encoding& e, const T_observations& o) {
      exit_leaves = true;
      probe_say(look_at_held(j, h, m, e, o));
    };
    if (!j.entry) return;
    row_log = RowLog();
    for (auto& r : j.rows) row_log.training += !row_text(r).empty();
    row_probe = [](GenDB* d, const std::pair<int, std::map<std::string, ObservationVariant>>& row, bool after) {
      if (row.second.empty()) return;
      auto score = [&]() { return entity_crps_score(*d) + d->hirm->logp_score(); };
      if (after) {
        row_log.after = score();
        return;
      }
      if (row_log.rows.size() == row_log.training) {
        row_log.before = score();
        row_log.clusters = canon_live(d->hirm, nullptr, make_dummy_encoding_from_gendb(*d));
      }
      std::map<std::string, std::string> t;
      for (auto& [f, v] : row.second) t[f] = from_value(v);
      row_log.rows.push_back(row_text(t));
      row_log.ids.insert(row.first);
    };
    end_probe = []() -> std::string {
      std::string t = strf("R%zu %.17g %.17g\n", row_log.ids.size(), row_log.before, row_log.after) + join(row_log.rows, "\x1f") + "\n" + row_log.clusters;
      return t;
    };
  }
  static bool printed(const std::string& out, double* lp) {
    std::string l = heldout_line(out);
    if (l.empty()) return false;
    *lp = strtod(l.c_str() + l.rfind(' '), nullptr);
    return true;
  }
  // Six significant digits are printed.
  static bool agrees(double shown, double is, double size = 0) {
    if (std::isinf(is) || std::isinf(shown)) return shown == is;
    return std::fabs(shown - is) <= 1e-5 * (1 + std::fabs(is)) + 1e-9 * size;
  }
  void run_held(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    std::string text;
    for (auto& s : p.steps) text += " " + join(s.a, " ");
    bool noisy_text = text.find("bigram") != text.npos || text.find("typo") != text.npos || text.find(" string") != text.npos;
    double lp = 0;
    bool any = j.entry ? !j.hrows.empty() : !j.held.empty();
    if (printed(base.out, &lp) != any) c.fail("held-line", any ? "no held-out likelihood was printed" : "a held-out likelihood was printed without held-out data");
    if (any && std::isnan(lp)) {
      if (noisy_text) c.count("undefined (known finding of P01)");
      else c.fail("held-undefined", heldout_line(base.out));
    }
    if (any && !std::isnan(lp)) j.entry ? held_rows(j, base, want, lp, c) : held_scored(j, base, want, lp, c);
    if (j.entry) {
      if (!any) return;
      // What was learned does not depend on the held-out rows.
      Job k = j;
      k.hrows.clear();
      no_influence(j, k, want, dirs, c, j.o("out", "result"));
      return;
    }
    for (auto& s : p.steps) {
      if (s.op == "norm") normalised(j, s, dirs, c);
      if (s.op == "known" && any) {
        Job k = j;
        k.held.clear();
        k.inputs["in/h.obs"] = "";
        no_influence(j, k, want, dirs, c, "");
      }
      if (s.op == "loaded" && any) held_loaded(j, s, want, dirs, c);
    }
  }
  void held_rows(const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, double lp, Ctx& c) {
    if (base.probe.rfind("row-reused", 0) == 0) c.fail("row-reused", "a held-out row went in under the number of another one: " + base.probe.substr(0, base.probe.find('\n')));
    size_t at = base.probe.find('R');
    if (base.probe.empty() || at != 0) {
      c.count("no view of the rows");
      return;
    }
    auto l = split(base.probe, '\n');
    size_t ids = 0;
    double before = NAN, after = NAN;
    {
      std::istringstream in(l[0].substr(1));
      std::string b, a;
      in >> ids >> b >> a;
      before = strtod(b.c_str(), nullptr);
      after = strtod(a.c_str(), nullptr);
    }
    Strs exp;
    for (auto* rs : {&j.rows, &j.hrows})
      for (auto& r : *rs) {
        std::map<std::string, std::string> t;
        for (auto& [f, v] : r) {
          std::string ty;
          for (auto& [n, path] : j.pc.fields)
            if (n == f) ty = j.pc.path_type(path);
          ObservationEnum e = ty.rfind("bool", 0) == 0 ? ObservationEnum::bool_type : ty.rfind("real", 0) == 0 ? ObservationEnum::double_type
                              : ty.rfind("categorical", 0) == 0 ? ObservationEnum::int_type : ObservationEnum::string_type;
          if (!v.empty()) t[f] = from_value(to_value(e, v));
        }
        if (!row_text(t).empty()) exp.push_back(row_text(t));
      }
    Strs got = l.size() > 1 && !l[1].empty() ? split(l[1], '\x1f') : Strs();
    if (got != exp) c.fail("held-rows-differ", "rows that went in: " + join(got, "| ") + "; rows of the two files: " + join(exp, "| "));
    if (ids != exp.size()) c.fail("row-reused", strf("%zu rows share %zu identifiers", exp.size(), ids));
    size_t training = 0;
    for (auto& r : j.rows) training += !row_text(r).empty();
    if (training == exp.size()) {
      if (!agrees(lp, 0)) c.fail("held-score", strf("%g was printed for rows without a value", lp));
      return;
    }
    if (!std::isfinite(before) || !std::isfinite(after)) return;
    c.count("held-out tables scored");
    if (!agrees(lp, after - before, std::fabs(after))) c.fail("held-score", strf("printed %.9g; the held-out rows took the score from %.9g to %.9g, which is %.9g", lp, before, after, after - before));
    std::string rest;
    for (size_t i = 2; i < l.size(); ++i) rest += (i > 2 ? "\n" : "") + l[i];
    auto w = want.find(j.o("out", "result"));
    if (w != want.end() && canon_clusters(w->second, true, c) != rest) c.fail("held-model", "the held-out rows met another model than the saved one: " + rest + " saved: " + canon_clusters(w->second, true, c));
  }
  void held_scored(const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, double lp, Ctx& c) {
    if (base.probe.empty()) {
      c.count("no view of the scoring");
      return;
    }
    auto nl = base.probe.find('\n');
    if (base.probe[0] == 'V') c.fail(base.probe.substr(1, nl - 1), base.probe.substr(nl + 1));
    if (base.probe[0] != 'H') return;
    std::string canon = base.probe.substr(nl + 1);
    bool hirm = j.o("mode", "hirm") == "hirm";
    auto w = want.find("in/m." + j.seed() + (hirm ? ".hirm" : ".irm"));
    if (w != want.end() && canon_clusters(w->second, hirm, c) != canon) c.fail("held-model", "scored: " + canon + " saved: " + canon_clusters(w->second, hirm, c));
    if (base.probe[1] != '1' || big_numbers(j.held, j.rels) || big_numbers(j.obs, j.rels)) {
      c.count("joint score not computed");
      return;
    }
    double e = strtod(base.probe.c_str() + 3, nullptr);
    if (std::isnan(e)) return;
    c.count("held-out lines scored", j.held.size());
    if (!agrees(lp, e)) c.fail("held-score", strf("printed %.9g for the held-out lines, their probability under the data is %.9g", lp, e));
  }
  void no_influence(const Job& j, const Job& k, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c, const std::string& only) {
    if (!j.entry) {
      // Entity codes decide orders, so they have to be the same.
      std::string d = dirs.fresh();
      j.lay(d);
      ProgResult q = run_child(
          d,
          []() -> std::string {
            exit_leaves = true;
            T_schema sc = load_schema("in/m.schema"), s2 = sc;
            T_observations ob = load_observations("in/m.obs", sc), he = load_observations("in/h.obs", s2);
            return std::get<0>(calculate_encoding(sc, ob)) == std::get<0>(calculate_encoding(sc, merge_observations(ob, he))) ? "same" : "other";
          },
          ProgEnv());
      if (q.probe != "same") return;
    }
    std::string d = dirs.fresh();
    k.lay(d);
    ProgResult r = run_prog(d, k.entry, k.args("in/", k.seed()), ProgEnv());
    c.count("program.without held-out data");
    if (r.rc) c.fail("rejected", strf("without the held-out data: exit status %d; ", r.rc) + tail(r.out));
    auto a = j.results(want), b = k.results(r.files);
    for (auto* x : {&a, &b})
      for (auto i = x->begin(); i != x->end();) {
        bool samples = i->first.size() > 8 && i->first.substr(i->first.size() - 8) == ".samples";
        i = samples || (!only.empty() && i->first != only) ? x->erase(i) : std::next(i);
      }
    std::string diff = files_differ(b, a);
    if (!diff.empty()) c.fail("held-influence", "with and without the held-out data: " + diff);
  }
  // Exactly one of the values a cell can take is in the held-out file.
  void normalised(const Job& j, const Step& s, Cleaner& dirs, Ctx& c) {
    Rng g(s.seed);
    std::set<std::string> seen;
    for (auto& [r, l] : j.obs) seen.insert(r + " " + join(Strs(l.begin() + 1, l.end()), " "));
    std::vector<std::pair<std::string, Strs>> cells;
    std::vector<Strs> values;
    size_t combos = 1;
    for (int n = s.i(0), tries = 0; n > 0 && tries < 30; ++tries) {
      Strs rs;
      for (auto& [n2, r] : j.rels) {
        bool used = false;
        for (auto& [q, l] : j.obs) used |= q == n2;
        if (r.observed && used && !cell_values(r).empty() && !j.has_children(n2)) rs.push_back(n2);
      }
      if (rs.empty()) return;
      const RelSpec& r = j.rels.at(g.pick(rs));
      Strs l = {""};
      for (auto& d : r.domains) l.push_back(j.entity(d, g.below(g.chance(0.6) ? 4 : 7)));
      Strs vs = cell_values(r);
      if (combos * vs.size() > 9 || !seen.insert(r.name + " " + join(Strs(l.begin() + 1, l.end()), " ")).second) continue;
      combos *= vs.size();
      cells.push_back({r.name, l});
      values.push_back(vs);
      --n;
    }
    if (cells.empty()) return;
    double total = 0;
    std::map<std::string, std::string> first;
    std::string shown;
    for (size_t k = 0; k < combos; ++k) {
      Job q = j;
      q.held = cells;
      std::string he;
      size_t x = k;
      for (size_t i = 0; i < cells.size(); ++i) {
        q.held[i].second[0] = values[i][x % values[i].size()];
        x /= values[i].size();
        he += q.held[i].second[0] + "," + cells[i].first;
        for (size_t y = 1; y < cells[i].second.size(); ++y) he += "," + cells[i].second[y];
        he += "\n";
      }
      q.inputs["in/h.obs"] = he;
      std::string d = dirs.fresh();
      q.lay(d);
      ProgResult r = run_prog(d, 0, q.args("in/", q.seed()), ProgEnv());
      c.count("program.value");
      if (r.rc) c.fail("rejected", strf("held-out data %s: exit status %d; ", he.c_str(), r.rc) + tail(r.out));
      double lp = NAN;
      if (!printed(r.out, &lp)) c.fail("held-line", "no held-out likelihood was printed");
      total += std::exp(lp);
      shown += strf(" %g", lp);
      auto res = q.results(r.files);
      for (auto i = res.begin(); i != res.end();) i = i->first.size() > 8 && i->first.substr(i->first.size() - 8) == ".samples" ? res.erase(i) : std::next(i);
      if (!k) first = res;
      std::string diff = files_differ(first, res);
      if (!diff.empty()) c.fail("held-influence", "the value of a held-out cell changes the result: " + diff);
    }
    c.count("normalisations");
    if (!(std::fabs(total - 1) < 2e-4)) c.fail("not-normalised", cells[0].first + strf(" and %zu more: the probabilities of all values add up to %.9g;", cells.size() - 1, total) + shown);
  }
  // Without a single iteration, the saved clusters alone fix the answer.
  void held_loaded(const Job& j, const Step& s, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    bool hirm = j.o("mode", "hirm") == "hirm";
    // Saved by a run that did not know the held-out entities.
    Job k = j;
    k.held.clear();
    std::string d0 = dirs.fresh();
    k.lay(d0);
    ProgResult b = run_prog(d0, 0, k.args("in/", k.seed()), ProgEnv());
    std::string f = "in/m." + k.seed() + (hirm ? ".hirm" : ".irm");
    if (b.rc || !b.files.count(f)) return;
    std::string d = dirs.fresh();
    j.lay(d);
    write_file(d + "/saved", b.files[f]);
    watch(j);
    ProgResult r = run_prog(d, 0, j.args("in/", s.s(0), "saved", "0"), ProgEnv());
    unwatch();
    c.count("program.loaded");
    if (r.rc) c.fail("rejected", strf("scoring under saved clusters: exit status %d; ", r.rc) + tail(r.out));
    double lp = NAN;
    if (!printed(r.out, &lp)) c.fail("held-line", "no held-out likelihood was printed");
    if (!r.probe.empty() && r.probe[0] == 'V') {
      auto nl = r.probe.find('\n');
      c.fail(r.probe.substr(1, nl - 1), r.probe.substr(nl + 1));
    }
    if (std::isnan(lp)) return;
    ProgResult q = run_child(
        d,
        [&]() -> std::string {
          exit_leaves = true;
          std::mt19937 prng(1);
          T_schema sc = load_schema("in/m.schema"), s2 = sc;
          T_observations ob = load_observations("in/m.obs", sc), he = load_observations("in/h.obs", s2);
          T_encoding enc = calculate_encoding(sc, merge_observations(ob, he));
          if (hirm) {
            auto* h = new HIRM({}, &prng);
            from_txt(&prng, h, "in/m.schema", "in/m.obs", "saved", &enc);
            return look_at_held(j, h, nullptr, enc, he);
          }
          auto* m = new IRM({});
          from_txt(&prng, m, "in/m.schema", "in/m.obs", "saved", &enc);
          return look_at_held(j, nullptr, m, enc, he);
        },
        ProgEnv());
    for (auto& [r, l] : j.held)
      if (!j.rels.at(r).observed) return;  // latent values are drawn anew when loading
    if (q.rc || q.probe.empty() || q.probe[0] != 'H' || q.probe[1] != '1' || big_numbers(j.held, j.rels) || big_numbers(j.obs, j.rels)) return;
    double e = strtod(q.probe.c_str() + 3, nullptr);
    if (std::isnan(e)) return;
    c.count("held-out lines scored under saved clusters", j.held.size());
    if (!agrees(lp, e)) c.fail("held-score", strf("printed %.9g for the held-out lines under saved clusters, their probability under the data is %.9g", lp, e));
  }
  void run_samples(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    int n = std::stoi(j.o("samples", "0"));
    if (!base.probe.empty()) {
      std::string l = base.probe.substr(0, base.probe.find('\n'));
      c.fail(l.substr(0, l.find(' ')), base.probe);
    }
    if (!n) return;
    std::string f = j.o("out", "result") + ".samples";
    if (!want.count(f)) c.fail("no-samples", f + " was not written");
    const std::string& t = want.at(f);
    // A reader that knows the quoting of CSV.
    std::vector<Strs> table(1);
    std::string cell;
    bool q = false;
    for (size_t i = 0; i < t.size(); ++i) {
      if (q) {
        if (t[i] == '"' && i + 1 < t.size() && t[i + 1] == '"') cell += '"', ++i;
        else if (t[i] == '"') q = false;
        else cell += t[i];
      } else if (t[i] == '"' && cell.empty()) q = true;
      else if (t[i] == ',') table.back().push_back(cell), cell.clear();
      else if (t[i] == '\n') table.back().push_back(cell), cell.clear(), table.emplace_back();
      else cell += t[i];
    }
    if (!cell.empty() || q) c.fail("table-cut", "the sample table does not end with a complete line");
    table.pop_back();
    if (table.empty() || table[0].empty()) c.fail("table-empty", "the sample table is empty");
    std::multiset<std::string> cols(table[0].begin(), table[0].end()), exp;
    for (auto& [fn, path] : j.pc.fields) exp.insert(fn);
    if (cols != exp) c.fail("table-columns", "columns " + join(table[0], ","));
    if ((int)table.size() != n + 1) c.fail("table-rows", strf("%zu rows instead of %d", table.size() - 1, n));
    for (size_t r = 1; r < table.size(); ++r) {
      if (table[r].size() != table[0].size()) c.fail("table-ragged", strf("row %zu has %zu cells for %zu columns", r, table[r].size(), table[0].size()));
      for (size_t k = 0; k < table[r].size(); ++k) {
        std::string path;
        for (auto& [fn, pa] : j.pc.fields)
          if (fn == table[0][k]) path = pa;
        std::string type = j.pc.path_type(path), v = table[r][k];
        bool text = type.rfind("string", 0) == 0 || type.rfind("typo", 0) == 0;
        if (v.empty() && !text) c.fail("cell-empty", strf("row %zu has no %s", r, table[0][k].c_str()));
        char* end = nullptr;
        if (type.rfind("bool", 0) == 0 && v != "0" && v != "1") c.fail("cell-type", table[0][k] + " is '" + v + "'");
        if (type.rfind("real", 0) == 0 && (std::isnan(strtod(v.c_str(), &end)) || *end)) c.fail("cell-type", table[0][k] + " is '" + v + "'");
        if (type.rfind("categorical", 0) == 0) {
          long x = strtol(v.c_str(), &end, 10);
          if (*end || x < 0 || x >= std::stoi(type.substr(type.find("k=") + 2))) c.fail("cell-type", table[0][k] + " is '" + v + "'");
        }
      }
    }
    // Read back by the program's own reader.
    std::string d = dirs.fresh();
    write_file(d + "/t.csv", t);
    ProgResult rb = run_child(
        d,
        [&]() -> std::string {
          DataFrame df = DataFrame::from_csv("t.csv");
          if (df.columns != table[0]) return "columns";
          for (size_t k = 0; k < table[0].size(); ++k) {
            auto& v = df.data[table[0][k]];
            if ((int)v.size() != n) return "rows";
            for (int r = 0; r < n; ++r)
              if (v[r] != table[r + 1][k]) return "cell '" + v[r] + "' instead of '" + table[r + 1][k] + "'";
          }
          return "fine";
        },
        ProgEnv());
    if (rb.rc || rb.probe != "fine") c.fail("not-read-back", strf("reading the sample table back: status %d, ", rb.rc) + rb.probe);
  }
  // hirm --samples: lines in the format of observations.
  void run_sampled_lines(const Plan& p, const Job& j, const ProgResult& base, const std::map<std::string, std::string>& want, Cleaner& dirs, Ctx& c) {
    int n = std::stoi(j.o("samples", "0"));
    if (!n || j.o("mode", "hirm") != "hirm") return;
    std::string f;
    for (auto& [k, t] : want)
      if (k.size() > 8 && k.substr(k.size() - 8) == ".samples") f = k;
    if (f.empty()) c.fail("no-samples", "no sample file was written");
    const std::string& t = want.at(f);
    if (!t.empty() && t.back() != '\n') c.fail("table-cut", "the sample file does not end with a complete line");
    std::map<std::string, std::set<Strs>> seen;
    std::map<std::string, std::set<std::string>> known;  // names by domain
    std::map<std::string, int> count;
    for (auto& [r, l] : j.obs) {
      seen[r].insert(Strs(l.begin() + 1, l.end()));
      for (size_t i = 1; i < l.size(); ++i) known[j.rels.at(r).domains[i - 1]].insert(l[i]);
    }
    auto held_names = known;
    for (auto& [r, l] : j.held)
      for (size_t i = 1; i < l.size(); ++i) held_names[j.rels.at(r).domains[i - 1]].insert(l[i]);
    bool comma = false, odd = false;
    for (auto& line : split(t.substr(0, t.empty() ? 0 : t.size() - 1), '\n')) {
      if (t.empty()) break;
      auto w = split(line, ',');
      // The value may hold commas; names do not.
      std::string rel, val;
      Strs items;
      for (auto& [k, r] : j.rels) {
        size_t m = r.domains.size();
        if (w.size() < m + 2 || w[w.size() - m - 1] != k) continue;
        rel = k;
        items.assign(w.end() - m, w.end());
        val = join(Strs(w.begin(), w.end() - m - 1), ",");
      }
      if (rel.empty()) c.fail("sample-line", "a line of the sample file names no relation with as many entities: '" + line + "'");
      const RelSpec& r = j.rels.at(rel);
      if (j.has_children(rel)) c.fail("sample-line", rel + " is sampled although other relations depend on it");
      ++count[rel];
      if (!seen[rel].insert(items).second) c.fail("sample-repeated", "'" + line + "' is not at a new tuple of entities");
      for (size_t i = 0; i < items.size(); ++i) {
        if (items[i].empty()) c.fail("sample-entity", "'" + line + "' has an entity without a name");
        // The names of two of the naming schemes tell the domain.
        if (j.naming == 2 || j.naming == 4)
          for (auto& [d, names] : held_names)
            if (d != r.domains[i] && names.count(items[i])) c.fail("sample-entity", "'" + line + "' has the name of an entity of another domain, " + d + ", for one of " + r.domains[i]);
      }
      char* end = nullptr;
      if (r.type == ObservationEnum::bool_type && val != "0" && val != "1") c.fail("sample-type", "'" + line + "'");
      if (r.type == ObservationEnum::int_type && (strtol(val.c_str(), &end, 10), val.empty() || *end)) c.fail("sample-type", "'" + line + "'");
      if (r.type == ObservationEnum::double_type && (val.empty() || std::isnan(strtod(val.c_str(), &end)) || *end)) c.fail("sample-type", "'" + line + "'");
      comma |= val.find(',') != std::string::npos;
      odd |= val.empty() || isspace((unsigned char)val[0]) || isspace((unsigned char)val.back()) || val.find("inf") != std::string::npos || (r.type == ObservationEnum::double_type && std::fabs(atof(val.c_str())) > 1e6);
    }
    for (auto& [k, r] : j.rels)
      if (!j.has_children(k) && count[k] != n) c.fail("table-rows", strf("%d sampled observations of ", count[k]) + k + strf(" instead of %d", n));
    c.count("sample_files");
    c.count("sampled_lines", seen.size() ? count.size() * n : 0);
    // What was sampled can be learned from like any other observation.
    for (auto& [k, r] : j.rels)
      if (r.observed && j.has_children(k)) return;  // values of an observed relation are not sampled
    if (odd) return;
    std::string d = dirs.fresh();
    Job k = j;
    k.inputs["in/m.obs"] += (k.final_newline ? "" : "\n") + t;
    k.lay(d);
    k.opt["samples"] = "0";
    ProgResult again = run_prog(d, 0, k.args("in/", k.seed(), "", "0"), ProgEnv());
    if (again.rc) c.fail(comma ? "samples-not-read-back:comma" : "not-read-back", strf("learning from the data together with the samples: exit status %d; ", again.rc) + tail(again.out));
    c.count("samples_read_back");
  }
  std::vector<std::string> real_components() override {
    return {"hirm_main.cc", "pclean/pclean.cc", "pclean/pclean_lib.cc", "util_io.cc", "util_parse.cc", "pclean/csv.cc", "pclean/io.cc", "gendb.cc", "hirm.cc", "irm.cc", "inference.cc", "relations, distributions, emissions"};
  }
  std::vector<std::string> stub_components() override { return {"processor clock (virtual)", "open/read/write/close (real files in a scratch directory behind an injector)", "operator new (injector)"}; }
  std::string rule() override {
    return "one case = one random set of input files and options for the hirm or pclean program, run undisturbed and then again under the faults of the property; non-trivial when the undisturbed run succeeded";
  }
  int default_runs(int tier) override { return tier ? 20000 : 2000; }
};
std::unique_ptr<World> make_program_world(const std::string& p) { return std::make_unique<ProgWorld>(p); }
}  // namespace sim
