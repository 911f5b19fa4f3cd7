#include "hooks.hh"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <set>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
VClock vclock;
thread_local int64_t alloc_fail_at = -1;
uint64_t alloc_count = 0, alloc_failed = 0;
IoState io;
bool exit_throws = false, exit_leaves = false;
thread_local int64_t alloc_kill_at = -1;
[[noreturn]] static void die() {
  if (io.on_kill) io.on_kill();
  _exit(137);
}

void vclock_reset(uint64_t step) {
  vclock = VClock();
  vclock.on = true;
  vclock.step = step;
}
uint64_t VClock::work_time(uint64_t w) const {
  uint64_t t = base + (uint64_t)(per_unit * w);
  for (auto& [at, d] : work_jumps)
    if (w >= at) t += d;
  return t;
}
uint64_t vclock_read() {
  ++vclock.readings;
  if (vclock.by_work) return vclock.broken ? (uint64_t)-1 : vclock.work_time(vclock.work);
  auto s = vclock.steps.find(vclock.readings);
  if (s != vclock.steps.end()) vclock.step = s->second;
  auto j = vclock.jumps.find(vclock.readings);
  vclock.t += j != vclock.jumps.end() ? j->second : vclock.step;
  return vclock.t;
}

// Tracked descriptors: read side 1, write side 2.
static unsigned char fd_kind[4096];
static uint64_t next_r() {
  uint64_t z = (io.rs += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static bool in_root(const char* p) {
  if (!io.on || io.root.empty() || !p) return false;
  if (p[0] != '/') return true;  // cwd of a program run is the scratch directory
  return strncmp(p, io.root.c_str(), io.root.size()) == 0;
}
static const IoFault* fault(const char* cls, uint64_t n) {
  for (auto& f : io.faults) {
    size_t l = strlen(cls);
    if (f.kind.compare(0, l, cls) == 0 && f.kind[l] == '.' && f.at == n) return &f;
  }
  return nullptr;
}
static void fire(const std::string& k) { ++io.fired[k]; }
}  // namespace sim

using namespace sim;

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) {
  if (exit_throws) throw SimExit{code};
  if (exit_leaves) {
    program_exit_hook();
    fflush(nullptr);
    _exit(code);
  }
  __real_exit(code);
}

// ---------------------------------------------------------------- work
double lgamma(double x) noexcept {
  static double (*real)(double, int*) = (double (*)(double, int*))dlsym(RTLD_NEXT, "lgamma_r");
  int sign;
  ++vclock.work;
  return real(x, &sign);
}
double log(double x) noexcept {
  static double (*real)(double) = (double (*)(double))dlsym(RTLD_NEXT, "log");
  ++vclock.work;
  return real(x);
}
double exp(double x) noexcept {
  static double (*real)(double) = (double (*)(double))dlsym(RTLD_NEXT, "exp");
  ++vclock.work;
  return real(x);
}

// ---------------------------------------------------------------- clock
clock_t clock(void) noexcept {
  if (vclock.on) return (clock_t)vclock_read();
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000L + ts.tv_nsec / 1000;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (vclock.on) {
    uint64_t t = vclock_read();
    ts->tv_sec = 1700000000 + t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

// ---------------------------------------------------------------- files
static int track(const char* path, int flags, int fd) {
  if (fd >= 0 && fd < 4096) {
    int acc = flags & O_ACCMODE;
    fd_kind[fd] = in_root(path) ? (acc == O_RDONLY ? 1 : 2) : 0;
  }
  return fd;
}
static int do_open(int dir, const char* path, int flags, int mode) {
  if (in_root(path)) {
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    uint64_t n = wr ? ++io.opens_w : ++io.opens_r;
    const IoFault* f = fault(wr ? "openw" : "openr", n);
    if (f) {
      fire(f->kind);
      if (f->kind.find("kill") != std::string::npos) die();
      errno = f->kind.find("enospc") != std::string::npos ? ENOSPC
              : f->kind.find("emfile") != std::string::npos ? EMFILE
                                                            : EACCES;
      return -1;
    }
  }
  return track(path, flags, (int)syscall(SYS_openat, dir, path, flags, mode));
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode);
}
// libstdc++'s basic_filebuf opens with fopen and then uses the raw descriptor.
static FILE* do_fopen(const char* path, const char* mode, const char* sym) {
  typedef FILE* (*F)(const char*, const char*);
  static F real = (F)dlsym(RTLD_NEXT, "fopen64");
  bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
  if (in_root(path)) {
    uint64_t n = wr ? ++io.opens_w : ++io.opens_r;
    const IoFault* f = fault(wr ? "openw" : "openr", n);
    if (f) {
      fire(f->kind);
      if (f->kind.find("kill") != std::string::npos) die();
      errno = f->kind.find("enospc") != std::string::npos ? ENOSPC
              : f->kind.find("emfile") != std::string::npos ? EMFILE
                                                            : EACCES;
      return nullptr;
    }
  }
  FILE* fp = real(path, mode);
  if (fp) track(path, wr ? O_WRONLY : O_RDONLY, fileno(fp));
  return fp;
}
FILE* fopen(const char* path, const char* mode) { return do_fopen(path, mode, "fopen"); }
FILE* fopen64(const char* path, const char* mode) { return do_fopen(path, mode, "fopen64"); }

static size_t cut(size_t n) { return n <= 1 ? n : 1 + next_r() % (next_r() % 4 ? (n < 24 ? n : 24) : n); }

ssize_t read(int fd, void* buf, size_t n) {
  if (io.on && fd >= 0 && fd < 4096 && fd_kind[fd]) {
    ++io.reads;
    if (const IoFault* f = fault("read", io.reads)) {
      fire(f->kind);
      if (f->kind == "read.kill") die();
      if (f->kind == "read.eintr") {
        errno = EINTR;
        return -1;
      }
      errno = EIO;
      return -1;
    }
    if (io.eintr_every && io.reads % io.eintr_every == 0) {
      fire("read.eintr");
      errno = EINTR;
      return -1;
    }
    if (io.short_reads) {
      size_t m = cut(n);
      if (m < n) fire("read.short");
      n = m;
    }
  }
  return syscall(SYS_read, fd, buf, n);
}
static ssize_t write_fault(int fd, const void* buf, size_t n, bool* handled) {
  *handled = false;
  if (!(io.on && fd >= 0 && fd < 4096 && fd_kind[fd])) return 0;
  ++io.writes;
  if (const IoFault* f = fault("write", io.writes)) {
    fire(f->kind);
    *handled = true;
    if (f->kind == "write.kill") {  // torn write, then the process dies
      if (n) syscall(SYS_write, fd, buf, next_r() % (n + 1));
      die();
    }
    if (f->kind == "write.eintr") {
      errno = EINTR;
      return -1;
    }
    if (f->kind == "write.enospc_torn" && n > 1) {  // a prefix lands, the next write fails
      size_t m = 1 + next_r() % (n - 1);
      io.faults.push_back({"write.enospc", io.writes + 1});
      return syscall(SYS_write, fd, buf, m);
    }
    errno = f->kind == "write.eio" ? EIO : ENOSPC;
    return -1;
  }
  return 0;
}
ssize_t write(int fd, const void* buf, size_t n) {
  bool h;
  ssize_t r = write_fault(fd, buf, n, &h);
  if (h) return r;
  if (io.on && fd >= 0 && fd < 4096 && fd_kind[fd] && io.short_writes) {
    size_t m = cut(n);
    if (m < n) fire("write.short");
    n = m;
  }
  return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (io.on && fd >= 0 && fd < 4096 && fd_kind[fd]) {
    std::string all;
    for (int i = 0; i < c; ++i) all.append((char*)v[i].iov_base, v[i].iov_len);
    return write(fd, all.data(), all.size());
  }
  return syscall(SYS_writev, fd, v, c);
}
int close(int fd) {
  if (fd >= 0 && fd < 4096) fd_kind[fd] = 0;
  return (int)syscall(SYS_close, fd);
}
int fclose(FILE* fp) {
  typedef int (*F)(FILE*);
  static F real = (F)dlsym(RTLD_NEXT, "fclose");
  int fd = fileno(fp);
  bool bad = false;
  if (io.on && fd >= 0 && fd < 4096 && fd_kind[fd] == 2) {
    if (const IoFault* f = fault("closew", ++io.closes_w)) {
      fire(f->kind);
      bad = true;
    }
  }
  if (fd >= 0 && fd < 4096) fd_kind[fd] = 0;
  int r = real(fp);
  if (bad) {
    errno = EIO;
    return -1;
  }
  return r;
}
}  // extern "C"

// ---------------------------------------------------------------- memory
#ifdef SIM_ASAN
// The sanitizer's own operator new, behind the same injector.
static void* real_new(size_t n) {
  typedef void* (*F)(size_t);
  static F real = (F)dlsym(RTLD_NEXT, "_Znwm");
  return real(n);
}
static void* real_new_array(size_t n) {
  typedef void* (*F)(size_t);
  static F real = (F)dlsym(RTLD_NEXT, "_Znam");
  return real(n);
}
#else
static void* real_new(size_t n) { return malloc(n ? n : 1); }
static void* real_new_array(size_t n) { return malloc(n ? n : 1); }
#endif
static void* counted(size_t n, void* (*alloc)(size_t)) {
  ++alloc_count;
  if (alloc_kill_at >= 0 && alloc_kill_at-- == 0) {
    alloc_kill_at = -1;
    fire("alloc.kill");
    die();
  }
  if (alloc_fail_at >= 0) {
    if (alloc_fail_at == 0) {
      alloc_fail_at = -1;
      ++alloc_failed;
      return nullptr;
    }
    --alloc_fail_at;
  }
  return alloc(n);
}
void* operator new(size_t n) {
  void* p = counted(n, real_new);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = counted(n, real_new_array);
  if (!p) throw std::bad_alloc();
  return p;
}
#ifndef SIM_ASAN
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
