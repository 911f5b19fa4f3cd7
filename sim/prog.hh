// Runs of the real hirm and pclean programs as simulated processes.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "gendb.hh"
#include "hooks.hh"
#include "util_io.hh"

namespace sim {
// What surrounds one run of a program.
struct ProgEnv {
  uint64_t clock_step = 1000, clock_base = 0;
  bool by_work = false;
  double per_unit = 0;
  std::map<uint64_t, uint64_t> clock_jumps;
  std::vector<std::pair<uint64_t, uint64_t>> work_jumps;
  std::vector<std::pair<std::string, std::string>> vars;
  int perturb = 0;     // fill freed and fresh memory with this byte
  int preallocate = 0; // blocks taken from the heap first
  int stack_fill = 0;
  bool short_reads = false, short_writes = false;
  uint64_t eintr_every = 0, rs = 1;
  std::vector<IoFault> faults;
  int64_t alloc_fail = -1;  // the n-th allocation fails
  int64_t alloc_kill = -1;  // the process dies at the n-th allocation
};
struct ProgResult {
  int rc = -1;  // exit status; 128 + n for signal n
  std::string out;
  std::map<std::string, std::string> files;  // everything in the directory afterwards
  uint64_t reads = 0, writes = 0, opens_r = 0, opens_w = 0, closes_w = 0, allocs = 0, work = 0, clock_readings = 0;
  std::map<std::string, uint64_t> fired;
  std::string san_cls, san_msg;  // sanitizer verdict of the process
  std::string probe;  // what the in-process probes saw
};
// entry: 0 hirm, 1 pclean.  dir must exist; it becomes the working directory.
ProgResult run_prog(const std::string& dir, int entry, const std::vector<std::string>& args, const ProgEnv& e);
// Runs f in a child process inside dir with the same surroundings; its text
// comes back in ProgResult::probe.
ProgResult run_child(const std::string& dir, const std::function<std::string()>& f, const ProgEnv& e);
extern std::string last_san_cls, last_san_msg;  // of any process since they were cleared
// Called inside the simulated process: before held-out lines are scored, and
// before and after a row goes into a GenDB.  end_probe is asked at the end.
extern std::function<void(HIRM*, IRM*, const T_encoding&, const T_observations&)> held_probe;
extern std::function<void(GenDB*, const std::pair<int, std::map<std::string, ObservationVariant>>&, bool)> row_probe;
extern std::function<std::string()> end_probe;
void probe_say(const std::string& line);
std::string scratch_dir();  // a fresh empty directory
void write_file(const std::string& path, const std::string& text);
std::map<std::string, std::string> read_dir(const std::string& dir);
void remove_dir(const std::string& dir);
}  // namespace sim
