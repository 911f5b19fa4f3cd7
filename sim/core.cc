#include "core.hh"

#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim {
uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x165667b19e3779f9ull));
  return r.next();
}
uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
static std::string enc(const std::string& s) {
  std::string o;
  static const char* hx = "0123456789abcdef";
  for (unsigned char c : s) {
    if (c <= ' ' || c == '%' || c >= 127) {
      o += '%';
      o += hx[c >> 4];
      o += hx[c & 15];
    } else
      o += c;
  }
  return o.empty() ? "%e" : o;
}
static std::string dec(const std::string& s) {
  if (s == "%e") return "";
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      o += (char)std::stoi(s.substr(i + 1, 2), nullptr, 16);
      i += 2;
    } else
      o += s[i];
  }
  return o;
}
std::string Plan::text() const {
  std::ostringstream o;
  o << "property " << prop << "\nseed " << seed << "\nrun " << run << "\n";
  for (auto& s : steps) {
    o << "step " << s.seed << " " << s.op;
    for (auto& x : s.a) o << " " << enc(x);
    o << "\n";
  }
  return o.str();
}
Plan Plan::parse(const std::string& text) {
  Plan p;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    if (!(l >> k) || k[0] == '#') continue;
    if (k == "property") l >> p.prop;
    else if (k == "seed") l >> p.seed;
    else if (k == "run") l >> p.run;
    else if (k == "step") {
      Step s;
      l >> s.seed >> s.op;
      std::string x;
      while (l >> x) s.a.push_back(dec(x));
      p.steps.push_back(s);
    }
  }
  return p;
}
void Ctx::log(const std::string& s) {
  hash = mix(hash, hash_str(s));
  if (verbose) fprintf(stderr, "  | %s\n", s.c_str());
}
std::string strf(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
std::string fmt_d(double x) { return strf("%.17g", x); }
std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v;
  std::string cur;
  if (s.empty()) return v;
  for (char x : s) {
    if (x == c) {
      v.push_back(cur);
      cur.clear();
    } else
      cur += x;
  }
  v.push_back(cur);
  return v;
}
std::string join(const std::vector<std::string>& v, const std::string& c) {
  std::string o;
  for (size_t i = 0; i < v.size(); ++i) o += (i ? c : "") + v[i];
  return o;
}
std::string ints(const std::vector<int>& v) {
  std::string o;
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
  return o;
}
std::vector<int> parse_ints(const std::string& s) {
  std::vector<int> r;
  for (auto& x : split(s, ',')) r.push_back(std::stoi(x));
  return r;
}
bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}
double g_stat(const std::vector<uint64_t>& c, const std::vector<double>& p) {
  double K = 0, P = 0, g = 0;
  for (auto x : c) K += x;
  for (auto x : p) P += x;
  for (size_t i = 0; i < c.size(); ++i) {
    if (!c[i]) continue;
    double q = p[i] / P;
    if (!(q > 0)) return INFINITY;
    g += 2.0 * c[i] * std::log((c[i] / K) / q);
  }
  return g;
}
Scrutiny scrutiny;
void scrutinise(size_t factor, const std::function<void()>& probe) {
  struct Reset {
    ~Reset() { scrutiny = Scrutiny(); }
  } reset;
  scrutiny = Scrutiny();
  probe();
  if (!scrutiny.suspect || factor == 1) return;
  scrutiny.factor = factor;
  probe();
}
bool g_ok(const std::vector<uint64_t>& c, const std::vector<double>& p, std::string* why) {
  double g = g_stat(c, p);
  size_t m = c.size();
  if (m > 1) {  // the 99th percentile of its distribution, roughly
    double df = m - 1.0, q = 1 - 2 / (9 * df) + 2.33 * std::sqrt(2 / (9 * df));
    if (!(g < df * q * q * q)) scrutiny.suspect = true;
  }
  double lim = 70.0 + 4.0 * m;
  if (std::isnan(g) || g > lim) {
    if (why) {
      double K = 0, P = 0;
      for (auto x : c) K += x;
      for (auto x : p) P += x;
      *why = strf("G=%.1f (limit %.1f) over %zu outcomes:", g, lim, m);
      for (size_t i = 0; i < m && i < 12; ++i)
        *why += strf(" [%zu] observed %.4f expected %.4f", i, c[i] / K, p[i] / P);
    }
    return false;
  }
  return true;
}
double wall_now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
}  // namespace sim
