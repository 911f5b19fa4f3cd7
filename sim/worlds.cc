#include "worlds.hh"
#include <stdexcept>
namespace sim {
std::unique_ptr<World> make_world(const std::string& p) {
  if (p == "P01" || p == "P02" || p == "P03") return make_model_world(p);
  if (p == "P04" || p == "P05") return make_gibbs_world(p);
  if (p == "P06") return make_latent_world(p);
  if (p == "P07" || p == "P19" || p == "P20" || p == "P21") return make_dist_world(p);
  if (p == "P16" || p == "P18") return make_query_world(p);
  if (p == "P14" || p == "P15") return make_gendb_world(p);
  if (p == "P09") return make_time_world(p);
  if (p == "P08" || (p >= "P10" && p <= "P13") || p == "P17" || p == "P27" || p == "P28") return make_program_world(p);
  if (p == "P24") return make_refs_world(p);
  if (p == "P22") return make_mixed_world(p);
  throw std::runtime_error("unknown property " + p);
}
}  // namespace sim
