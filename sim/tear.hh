// P27: damage to stored files, and what may still be accepted afterwards.
#pragma once
#include <map>
#include <string>

#include "core.hh"
#include "model.hh"
#include "pc_gen.hh"

namespace sim {
// Args of a tear step: target, kind, position (millionths), length, variant.
void gen_tear(Rng& g, Plan& p, const std::string& target);
std::string tear(const std::string& text, const Step& s);
// Each returns why the text can not be what a user wrote, or "".
std::string bad_observations(const std::string& text, const std::map<std::string, RelSpec>& rels, bool unique);
std::string bad_schema(const std::string& text);
std::string bad_clusters(const std::string& text, bool hirm);
std::string bad_table(const std::string& text, const PcGen& pc, bool record_clean);
std::string bad_class_schema(const std::string& text);
// Where a saved file puts relations and entities: "table/relation" and
// "irm/domain/entity" to table number.
std::map<std::string, std::string> placements(const std::string& text, bool hirm);
}  // namespace sim
