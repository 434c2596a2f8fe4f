// C18: every value of random API histories must be initialised (memcheck part: --shadow) and the same when the history is run again over differently filled memory.
#include "hist.hpp"
#include <malloc.h>
#include <valgrind/valgrind.h>
#include <valgrind/memcheck.h>
struct Record : Sink { std::vector<uint64_t> bits; std::vector<std::string> texts; std::vector<const char*> what; bool shadow; std::string lastOp; Record(bool sh) : shadow(sh) {}
  void op(const std::string& s) override { lastOp = s; }
  void num(const char* w, const double* p, int n) override { if (shadow && n > 0 && VALGRIND_CHECK_MEM_IS_DEFINED(p, n * sizeof(double)) != 0) throw mon::CaseFail{"uninitialised-value", mon::fmt("%s is (partly) uninitialised, after: %s", w, lastOp.c_str())};
    for (int i = 0; i < n; ++i) { uint64_t b; std::memcpy(&b, p + i, 8); if (p[i] != p[i]) b = 1; bits.push_back(b); what.push_back(w); } }
  void text(const char* w, const std::string& s) override { if (shadow && !s.empty() && VALGRIND_CHECK_MEM_IS_DEFINED(s.data(), s.size()) != 0) throw mon::CaseFail{"uninitialised-value", mon::fmt("%s is (partly) uninitialised, after: %s", w, lastOp.c_str())}; texts.push_back(s); } };
static __attribute__((noinline)) void scribble(int fill) { volatile char buf[1 << 16]; for (size_t i = 0; i < sizeof buf; ++i) buf[i] = (char)fill; asm volatile("" ::"r"(buf) : "memory"); }
static void filled(uint64_t seed, int n, int fill, Record& rec, mon::Ctx& c, bool count) { mallopt(M_PERTURB, fill); scribble(fill); mon::Rng r(seed); Hist h(r, rec); if (count) h.cls = &c.classes; h.go(n); c.checks += (long)rec.bits.size(); }
// degenerate scenes of the modulation
static void degenerate(mon::Ctx& c, Record& rec, mon::Rng& r) {
  bool aggregated = r.chance(.3), planar = aggregated || r.chance(.5); lib::Environment e(aggregated); int n = r.range(1, 4); std::vector<std::shared_ptr<lib::Ellipsoid>> O; V at = r.chance(.3) ? V() : rd(randV(r, 3)); if (planar) at.z = 0; std::string d;
  for (int i = 0; i < n; ++i) { SpecOpt so; so.planar = planar; so.flat = true; so.moving = r.chance(.5); so.box = 3; Spec s = randSpec(r, mon::fmt("d%d", i), so); if (r.chance(.4)) { s.ref = rd(s.ref + (at - s.pos)); s.pos = at; } if (r.chance(.3)) s.ref = s.pos; if (r.chance(.1)) s.len = V(); if (i && r.chance(.3)) { std::string nm = s.name; s = Spec(); s.pos = at; s.ref = at; s.name = nm; } if (r.chance(.05)) { R k = r.logu(1e-150, 1e150); s.len = rd(k * s.len); s.pos = rd(k * s.pos); } d += s.str(); O.push_back(build(s, r)); e.add_obstacle(O.back()); }
  e.update(); V x; switch (r.below(7)) { case 0: x = at; break; case 1: x = vec(O[0]->get_reference_position()); break; case 2: x = V(); break; case 3: x = vec(O[0]->get_position()); x.z += r.uni(-2, 2); break; case 4: x = at; x[r.below(2)] += r.uni(-3, 3); break; case 5: { auto l = e.get_obstacle_list(); x = vec(l[0]->get_reference_position()); if (r.chance(.5)) x.x -= r.uni(0, 3); break; } default: x = rd(randV(r, 4)); } x = rd(x); if (r.chance(.08)) { x = rd((R)r.logu(1, 1e7) * x); c.cls("agent very far away"); }
  V v; switch (r.below(6)) { case 0: break; case 1: v.z = r.uni(-1, 1); break; case 2: v[r.below(2)] = r.uni(-1, 1); break; case 3: v = rd(at - x); break; case 4: v = rd((R)r.logu(1e-300, 1e150) * randDir(r)); break; default: v = rd(randV(r, 1)); }
  for (int k = 0; k < 6; ++k) { bool rep = k & 1, pl = k & 2, loc = k >= 4; auto a = buildAgent(r, x, v, r.chance(.6) ? 0 : r.uni(0, 1)); E3 out = lib::Modulation::modulate_velocity(a, e, loc, rep, pl, r.chance(.6) ? 1 : r.uni(0, 3), r.chance(.6) ? 2 : r.chance(.2) ? r.uni(6, 16) : r.uni(0, 6)); rec.v("modulated velocity", out); c.check(finite3(out), "not-finite", "modulated velocity (%g,%g,%g): agent at %s desired %s local %d repulsion %d planar %d scene %s", out(0), out(1), out(2), vs(x).c_str(), vs(v).c_str(), loc, rep, pl, d.c_str());
    bool at0 = false; if (!loc && !pl && !aggregated) for (auto& o : e.get_obstacle_list()) at0 |= o->get_reference_position() == a.get_position(); if (at0) { c.check(out == E3(0, 0, 0), "not-stopped", "modulated velocity (%g,%g,%g) of an agent exactly at a reference point, where no direction is defined: agent at %s desired %s scene %s", out(0), out(1), out(2), vs(x).c_str(), vs(v).c_str(), d.c_str()); c.cls("agent exactly at a reference point"); } }
  c.cls("degenerate scene"); if (norm(v) == 0) c.cls("zero velocity"); if (norm(x - at) == 0) c.cls("agent at the centre of obstacles"); }
static void run(mon::Ctx& c) {
  bool shadow = RUNNING_ON_VALGRIND; auto& r = c.rng; uint64_t seed = r.next(); int n = r.range(5, shadow ? 25 : 60); bool deg = r.chance(.4); c.describe(mon::fmt("%s, seed %llu", deg ? "degenerate scene" : "history", (unsigned long long)seed));
  auto go = [&](int fill, Record& rec, bool count) { if (deg) { mallopt(M_PERTURB, fill); scribble(fill); mon::Rng q(seed); degenerate(c, rec, q); } else filled(seed, n, fill, rec, c, count); };
  unsigned errs = shadow ? VALGRIND_COUNT_ERRORS : 0; Record a(shadow); go(shadow ? 0 : 0x55, a, true);
  if (shadow) { unsigned e2 = VALGRIND_COUNT_ERRORS; c.check(e2 == errs, "uninitialised-use", "%u reports of memcheck (decision on uninitialised memory or bad access) in this history", e2 - errs); c.cls("under memcheck"); }
  else { Record b(false); go(0xAA, b, false); go(0, b = Record(false), false); Record d(false); go(0xF3, d, false);
    for (Record* o : {&b, &d}) { c.check(o->bits.size() == a.bits.size() && o->texts == a.texts, "not-repeatable", "a repetition returns different texts or another number of values"); for (size_t i = 0; i < a.bits.size(); ++i) if (o->bits[i] != a.bits[i]) { double x, y; std::memcpy(&x, &a.bits[i], 8); std::memcpy(&y, &o->bits[i], 8); c.fail("not-repeatable", "%s differs between two runs of the same history: %.17g and %.17g", a.what[i], x, y); } } c.cls("repeated over other memory contents"); }
  c.note((double)a.bits.size()); c.note((double)seed);
}
int main(int a, char** v) { return mon::drive(a, v, "C18", run); }
