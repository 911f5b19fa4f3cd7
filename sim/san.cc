#include "san.hh"

#include <cstdio>
#include <cstring>
#include <unistd.h>

namespace sim {
void (*san_on_death)(const SanReport&) = nullptr;
thread_local bool san_count = false;
int64_t san_live = 0;
char san_context[40] = "";
jmp_buf* san_jump = nullptr;
#ifndef SIM_ASAN
void san_install() {}
SanReport san_take() { return {}; }
bool san_enabled() { return false; }
#else
bool san_enabled() { return true; }
static SanReport rep;
SanReport san_take() {
  SanReport r = rep;
  rep.hit = false;
  return r;
}
static void copy_line(char* dst, size_t n, const char* s) {
  size_t i = 0;
  for (; s[i] && s[i] != '\n' && i + 1 < n; ++i) dst[i] = s[i];
  dst[i] = 0;
}
// The first frame inside the repository, without addresses.
static void add_frames(const char* t) {
  int n = 0;
  for (const char* p = t; (p = strstr(p, " in ")) && n < 3;) {
    p += 4;
    char line[300];
    copy_line(line, sizeof line, p);
    if (strstr(line, "/cxx/")) {
      size_t l = strlen(rep.msg);
      snprintf(rep.msg + l, sizeof rep.msg - l, " < %s", line);
      ++n;
    }
  }
}
static void on_asan(const char* text) {
  if (rep.hit) return;
  rep.hit = true;
  const char* k = strstr(text, "AddressSanitizer: ");
  char kind[80] = "unknown";
  if (k) {
    k += 18;
    size_t i = 0;
    for (; k[i] && k[i] != ' ' && k[i] != '\n' && k[i] != ':' && i + 1 < sizeof kind; ++i) kind[i] = k[i];
    kind[i] = 0;
  }
  snprintf(rep.cls, sizeof rep.cls, "memory:%s", kind);
  snprintf(rep.msg, sizeof rep.msg, "AddressSanitizer: %s", kind);
  add_frames(text);
}
static void on_death() {
  if (!rep.hit) {
    rep.hit = true;
    snprintf(rep.cls, sizeof rep.cls, "memory:sanitizer");
    snprintf(rep.msg, sizeof rep.msg, "sanitizer report");
  }
  if (san_on_death) san_on_death(rep);
}
extern "C" {
void __asan_set_error_report_callback(void (*)(const char*));
void __sanitizer_set_death_callback(void (*)(void));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr)
    __attribute__((weak));
__attribute__((visibility("default"))) const char* __asan_default_options() {
  return "exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:detect_container_overflow=1:print_summary=1";
}
__attribute__((visibility("default"))) const char* __ubsan_default_options() { return "exitcode=99:print_stacktrace=0"; }
__attribute__((visibility("default"))) void __ubsan_on_report() {
  if (rep.hit) return;
  rep.hit = true;
  const char *kind = "undefined", *msg = "", *file = "";
  unsigned line = 0, col = 0;
  char* addr = nullptr;
  if (__ubsan_get_current_report_data) __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
  snprintf(rep.cls, sizeof rep.cls, "undefined:%s", kind);
  snprintf(rep.msg, sizeof rep.msg, "%s at %s:%u", msg, file, line);
}
}
static void hook_malloc(const volatile void*, size_t) {
  if (san_count) ++san_live;
}
static void hook_free(const volatile void* p) {
  if (san_count && p) --san_live;
}
void san_install() {
  static bool done = false;
  if (done) return;
  done = true;
  __asan_set_error_report_callback(on_asan);
  __sanitizer_set_death_callback(on_death);
  __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
}
#endif
}  // namespace sim

#ifdef SIM_ASAN
// A container used outside its bounds (_GLIBCXX_ASSERTIONS).
namespace std {
void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* cond) noexcept {
  using namespace sim;
  if (!rep.hit) {
    rep.hit = true;
    // The name of the class template, without its arguments.
    char name[80] = "container";
    if (const char* p = fn ? strstr(fn, "std::") : nullptr) {
      size_t i = 0;
      for (; p[i] && p[i] != '<' && p[i] != '(' && i + 1 < sizeof name; ++i) name[i] = p[i];
      name[i] = 0;
    }
    snprintf(rep.cls, sizeof rep.cls, "precondition:%s%s", name, san_context);
    snprintf(rep.msg, sizeof rep.msg, "%s violated in %s", cond ? cond : "precondition", fn ? fn : file);
  }
  if (san_jump) longjmp(*san_jump, 1);
  if (san_on_death) san_on_death(rep);
  _exit(99);
}
}  // namespace std
#endif
