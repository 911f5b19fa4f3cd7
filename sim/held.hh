// P28: the probability of held-out lines under a live model, from its data.
#pragma once
#include <string>
#include <vector>

#include "gendb.hh"
#include "model.hh"
#include "util_io.hh"

namespace sim {
// The values a cell of the relation can take; empty when there are too many to list.
std::vector<std::string> cell_values(const RelSpec& r);
struct HeldLine {
  std::string relation;
  std::vector<int> items;
  ObservationVariant value;
};
// *exact is cleared when the lines are beyond what is computed here: two lines
// that can fall into one block, two new entities of one domain, or a relation
// without a closed form.
double held_reference(const std::function<IRM*(const std::string&)>& irm_of, const std::vector<HeldLine>& lines, bool* exact);
double entity_crps_score(const GenDB& d);
}  // namespace sim
