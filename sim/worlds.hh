#pragma once
#include "core.hh"
#include "model.hh"
namespace sim {
struct HistOpts {
  bool grow = true;
  bool draw = false;
};
void gen_history(Rng& g, Plan& p, GenState& s, const GenOpts& o, int steps, const HistOpts& ho);
bool is_inference(const std::string& op);
std::unique_ptr<World> make_model_world(const std::string& p);
std::unique_ptr<World> make_gibbs_world(const std::string& p);    // P04 P05
std::unique_ptr<World> make_latent_world(const std::string& p);   // P06
std::unique_ptr<World> make_dist_world(const std::string& p);     // P07 P19 P20 P21
std::unique_ptr<World> make_query_world(const std::string& p);    // P16 P18
std::unique_ptr<World> make_time_world(const std::string& p);     // P09
std::unique_ptr<World> make_program_world(const std::string& p);  // P08 P10-P13 P17
std::unique_ptr<World> make_gendb_world(const std::string& p);    // P14 P15
std::unique_ptr<World> make_mixed_world(const std::string& p);    // P22
std::unique_ptr<World> make_refs_world(const std::string& p);     // P24
}  // namespace sim
