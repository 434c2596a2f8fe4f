// C19: random API histories under AddressSanitizer and UBSan; the heap balance is taken after every history.
#include "hist.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
struct Null : Sink { double acc = 0; void num(const char*, const double* p, int n) override { for (int i = 0; i < n; ++i) acc += p[i]; } void text(const char*, const std::string& s) override { acc += s.size(); } };
static long once(mon::Ctx& c, uint64_t seed, int n, bool count, double* acc) { mon::Rng r(seed); Null s; long ops; { Hist h(r, s); if (count) h.cls = &c.classes; h.go(n); ops = h.ops; } *acc = s.acc; return ops; }
static void run(mon::Ctx& c) {
  uint64_t seed = c.rng.next(); int n = c.rng.range(10, 60); c.describe(mon::fmt("history of %d operations, seed %llu", n, (unsigned long long)seed)); double a1, a2; once(c, seed, n, true, &a1);
  size_t before = __sanitizer_get_current_allocated_bytes(); long ops = once(c, seed, n, false, &a2); size_t after = __sanitizer_get_current_allocated_bytes();
  c.check(before == after, "leak", "a history of %ld operations leaves %ld bytes allocated after all its objects are gone", ops, (long)(after - before)); c.checks += ops; c.note(ops); c.note((double)seed);
}
int main(int a, char** v) { return mon::drive(a, v, "C19", run); }
