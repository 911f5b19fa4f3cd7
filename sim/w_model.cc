// P01, P02, P03: arbitrary histories of a live model against its mirror.
#include "model.hh"
#include "worlds.hh"

namespace sim {
void gen_history(Rng& g, Plan& p, GenState& s, const GenOpts& o, int steps, const HistOpts& ho) {
  int burst = g.range(4, 25);
  for (int i = 0; i < burst; ++i) gen_obs(g, p, s);
  for (int i = 0; i < steps; ++i) {
    if (s.rels.empty()) return;
    const RelSpec& r = s.rels[g.below(s.rels.size())];
    double u = g.unit();
    if (ho.draw && u < 0.03) {
      std::vector<int> items;
      for (size_t k = 0; k < r.domains.size(); ++k) items.push_back((int)g.below(s.entities));
      const std::string& d = root_dist(s, r);
      if (s.cells[r.name].count(items) || d == "bigram" || d == "string_nat") continue;
      for (const RelSpec* x = &r; x; x = x->clean ? nullptr : s.find(x->base))
        s.cells[x->name].insert(std::vector<int>(items.begin(), items.begin() + x->domains.size()));
      p.add(g, "draw", {r.name, ints(items)});
    } else if (ho.draw && u < 0.035) p.add(g, "samp", {"", std::to_string(g.range(1, 2))});
    else if (u < 0.16) gen_obs(g, p, s);
    else if (u < 0.27) gen_unobs(g, p, s);
    else if (u < 0.40) p.add(g, "item", {r.name, r.domains[g.below(r.domains.size())], std::to_string(g.below(s.entities))});
    else if (u < 0.44) p.add(g, "irmall", {r.name});
    else if (u < 0.47) p.add(g, "doms", {r.name});
    else if (u < 0.57) p.add(g, "move", {r.name});
    else if (u < 0.60) p.add(g, "moveall", {"", g.chance(0.5) ? "1" : "0"});
    else if (u < 0.67) p.add(g, "set", {r.name, std::to_string(g.below(6))});
    else if (u < 0.75) p.add(g, "latent", {r.clean || s.has_children(r.name) ? r.name : r.base});
    else if (u < 0.81) p.add(g, "hparams", {r.name, std::to_string(g.below(3))});
    else if (u < 0.84) p.add(g, "domalpha", {r.name});
    else if (u < 0.86) p.add(g, "crpalpha");
    else if (u < 0.90) p.add(g, "irmstep", {r.name});
    else if (u < 0.93) p.add(g, "infer", {"1"});
    else if (u < 0.95) p.add(g, "cleanup");
    else if (u < 0.97 && ho.grow) {
      RelSpec n;
      bool ok = true;
      if (o.noisy && g.chance(0.5)) ok = gen_noisy(g, s, o, &n);
      else n = gen_clean(g, s, o);
      if (ok) {
        s.rels.push_back(n);
        p.add(g, "rel", rel_args(n));
      }
    } else if (ho.grow) {
      if (!s.has_children(r.name) && s.rels.size() > 1) {
        std::string nm = r.name;
        p.add(g, "rmrel", {nm});
        s.cells.erase(nm);
        for (size_t k = 0; k < s.rels.size(); ++k)
          if (s.rels[k].name == nm) {
            s.rels.erase(s.rels.begin() + k);
            break;
          }
      }
    }
  }
}
bool is_inference(const std::string& op) {
  return op != "obs" && op != "unobs" && op != "draw" && op != "samp" && op != "rel" && op != "rmrel" && op != "kind";
}

struct ModelWorld : World {
  std::string prop;
  explicit ModelWorld(std::string p) : prop(std::move(p)) {}
  void generate(Rng& g, Plan& p, int tier) override {
    GenOpts o;
    GenState s;
    p.add(g, "kind", {g.chance(0.65) ? "hirm" : "irm"});
    if (g.chance(0.3)) o.max_domains = 1;
    o.noisy = g.chance(0.65);
    gen_schema(g, p, s, o);
    HistOpts ho;
    ho.draw = true;
    gen_history(g, p, s, o, g.range(10, tier ? 80 : 40), ho);
  }
  void run(const Plan& p, Ctx& c) override {
    Model m;
    bool had_removal = false, had_infer = false;
    for (size_t i = 0; i < p.steps.size(); ++i) {
      const Step& s = p.steps[i];
      bool applied = m.apply(s, c);
      if (!applied) continue;
      c.count("op." + s.op);
      if (!m.built()) continue;
      had_removal |= s.op == "unobs" || s.op == "rmrel";
      had_infer |= is_inference(s.op);
      std::string d = partition_digest(m);
      c.state(hash_str(d));
      if (prop == "P01") check_stats(m, c);
      if (prop == "P02") check_structure(m, c);
      if (prop == "P03") check_data(m, c);
      c.log(s.op + " " + s.s(0) + " " + strf("%.9g ", m.score()) + d);
    }
    c.nontrivial = had_infer && (prop == "P03" || had_removal || m.specs.size() > 1);
  }
  std::vector<std::string> real_components() override {
    return {"hirm.cc", "irm.cc", "relations", "domains and CRP", "all distributions", "all emissions", "inference.cc"};
  }
  std::vector<std::string> stub_components() override { return {"clock (virtual)", "random numbers (seeded per step)"}; }
  std::string rule() override {
    return "one case = one seeded history of a random schema (observe, retract, sample new cells, every inference kernel, adding and removing relations), "
           "checked after every step; non-trivial when it contains inference and a removal or several relations";
  }
  int default_runs(int tier) override { return tier ? 60000 : 6000; }
};
std::unique_ptr<World> make_model_world(const std::string& p) { return std::make_unique<ModelWorld>(p); }
}  // namespace sim
