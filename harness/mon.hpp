// Monitoring framework: case driver, deterministic random numbers, reporting, coverage counters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <stdexcept>
#include <exception>

namespace mon {

struct Rng {
  uint64_t s[4];
  static uint64_t mix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed = 1) { for (auto& x : s) x = mix(seed); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * unit(); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  int below(int n) { return (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return unit() < p; }
  double gauss() { double u = unit(), v = unit(); return std::sqrt(-2 * std::log(u + 1e-300)) * std::cos(6.283185307179586 * v); }
  double sgn() { return chance(0.5) ? 1.0 : -1.0; }
  template <class T> void shuffle(std::vector<T>& v) { for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]); }
};

struct CaseFail { std::string key, msg; };
struct Skip {};  // case outside the property's domain (degenerate draw)

inline std::string vfmt(const char* f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); return b; }
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

struct Ctx {
  Rng rng;
  uint64_t seed = 0; long id = 0; bool verbose = false;
  long checks = 0;                       // individual oracle comparisons
  std::map<std::string, long> classes;   // scenario classes reached
  std::unordered_set<uint64_t> sigs;     // signatures of distinct non-trivial cases
  std::string input;                     // textual description of the current case
  std::vector<std::string> samples;
  bool nontrivial = false; uint64_t sig = 0;
  void cls(const std::string& c) { ++classes[c]; }
  void note(double x) { uint64_t b; std::memcpy(&b, &x, 8); sig = (sig ^ b) * 0x100000001b3ULL + 0x9e37; nontrivial = true; }
  void describe(const std::string& s) { input += s; }
  [[noreturn]] void fail(const std::string& key, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw CaseFail{key, s}; }
  void check(bool ok, const char* key, const char* f, ...) {
    ++checks; if (ok) return;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw CaseFail{key, s};
  }
  // |a-b| <= tol, with NaN failing
  void near(double a, double b, double tol, const char* key, const char* what) {
    ++checks; if (std::fabs(a - b) <= tol) return;
    throw CaseFail{key, fmt("%s: got %.17g expected %.17g (tolerance %.3g)", what, a, b, tol)};
  }
  void skip() { throw Skip(); }
};

typedef void (*CaseFn)(Ctx&);

int drive(int argc, char** argv, const char* prop, CaseFn fn);

}  // namespace mon
