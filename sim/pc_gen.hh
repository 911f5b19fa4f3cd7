// Random PClean class schemas, shared by the GenDB and program worlds.
#pragma once
#include <map>
#include <string>
#include <vector>

#include "core.hh"
#include "pclean/schema.hh"

namespace sim {
struct PcClass {
  std::string name;
  std::vector<std::pair<std::string, std::string>> vars;  // name, type text
};
struct PcGen {
  std::vector<PcClass> classes;  // a class refers to earlier ones only; the last is the record class
  std::vector<std::pair<std::string, std::string>> fields;  // column, path a.b.c
  std::string text() const;
  const PcClass* find(const std::string& n) const;
  // class names along a path, and the type at its end
  std::vector<std::string> path_classes(const std::string& path) const;
  std::string path_type(const std::string& path) const;
  const std::string& record() const { return classes.back().name; }
};
struct PcOpts {
  int max_classes = 4;
  bool strings = true;   // stringcat (its noise is the slow bigram)
  bool heavy = false;    // free strings
  bool diamonds = true;  // a class reachable along two paths
};
bool is_class_type(const std::string& t);
PcGen pc_generate(Rng& g, const PcOpts& o);
void pc_steps(Rng& g, Plan& p, const PcGen& s);         // "class" and "field" steps
PcGen pc_from_steps(const Plan& p);
std::string pc_value(Rng& g, const std::string& type);  // as it appears in a table
PCleanSchema pc_parse(const PcGen& s);
}  // namespace sim
