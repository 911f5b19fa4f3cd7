// Sanitizer verdicts, as values (empty and zero in a build without them).
#pragma once
#include <csetjmp>
#include <cstdint>
#include <string>
namespace sim {
struct SanReport {
  bool hit = false;
  char cls[120];
  char msg[900];
};
// Called in the dying process; must not return normally to user code.
extern void (*san_on_death)(const SanReport&);
void san_install();
// Where a violated container precondition in this process goes (null: it dies).
extern jmp_buf* san_jump;
SanReport san_take();  // the report, which is cleared
extern char san_context[40];           // appended to the class of a violated container precondition
extern thread_local bool san_count;  // count allocations and releases
extern int64_t san_live;             // allocations minus releases while counting
bool san_enabled();
}  // namespace sim
