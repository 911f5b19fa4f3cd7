// Seams between the code under test and the outside world.  All of them are
// link-time interpositions in the simulator binary; /repo is not modified.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {
// Thrown in place of process exit while code under test runs in-process.
struct SimExit {
  int code;
};

// ---- virtual processor clock (clock(), clock_gettime, gettimeofday, time)
struct VClock {
  bool on = false;
  uint64_t t = 0;            // microseconds of virtual CPU time
  uint64_t step = 1000;      // advance per reading
  uint64_t readings = 0;
  // jumps: at reading number k, advance by v (may stand still = 0)
  std::map<uint64_t, uint64_t> jumps;
  std::map<uint64_t, uint64_t> steps;  // at reading k, step changes
  // Driven by work instead: time advances with the mathematical library calls
  // of the code under test, whoever reads the clock and however often.
  bool by_work = false;
  bool broken = false;  // no processor clock: clock() == -1
  double per_unit = 0;  // microseconds per call
  uint64_t base = 0, work = 0;
  std::vector<std::pair<uint64_t, uint64_t>> work_jumps;  // from this much work on, so much later
  uint64_t work_time(uint64_t w) const;
};
extern VClock vclock;
void vclock_reset(uint64_t step);
uint64_t vclock_read();

// ---- allocation faults
extern thread_local int64_t alloc_fail_at;  // -1 off; counts down
extern uint64_t alloc_count;
extern uint64_t alloc_failed;

// ---- I/O faults (files under io.root only)
struct IoFault {
  std::string kind;  // eio, enospc, short, eintr, kill, openfail, closefail
  uint64_t at;       // 1-based index of the I/O operation of its class
};
struct IoState {
  bool on = false;
  std::string root;
  bool short_reads = false;    // every read delivers a pseudo-random prefix
  uint64_t rs = 0;             // stream for short reads / writes
  bool short_writes = false;
  uint64_t eintr_every = 0;
  std::vector<IoFault> faults;
  uint64_t reads = 0, writes = 0, opens_r = 0, opens_w = 0, closes_w = 0;
  std::map<std::string, uint64_t> fired;
  void (*on_kill)() = nullptr;
};
extern IoState io;

// ---- exit interception
extern bool exit_throws;
extern bool exit_leaves;  // in a simulated process: flush and leave
extern thread_local int64_t alloc_kill_at;  // -1 off; the process dies at this allocation
void program_exit_hook();
}  // namespace sim
