// C24: the same calls give bit-identical results, whatever memory held and whatever ran before; assertions change nothing.
// needs: all
#include <drive.h>
#include <alloca.h>
#include <iostream>
#include <malloc.h>
using namespace MPCWalkgen;
using namespace vh;

// what fresh memory holds
namespace
{
  struct Fill { int mode; unsigned char byte; uint64_t s; long blocks; };
  Fill fill = {0, 0, 0, 0};
  void stuff(void* p, size_t n)
  {
    if (!p || !fill.mode || !n) return;
    ++fill.blocks;
    if (fill.mode == 1) { memset(p, fill.byte, n); return; }
    unsigned char* q = (unsigned char*)p;
    for (size_t i = 0; i < n; i += 8)
    {
      fill.s = fill.s*6364136223846793005ull + 1442695040888963407ull;
      uint64_t w = fill.s ^ (fill.s >> 29);
      if (fill.mode == 3) { const double d = (double)((int)(w >> 40)%2000)*0.01; memcpy(&w, &d, 8); }                            // plausible doubles
      if (fill.mode == 4) { const float d = (float)((int)(w >> 40)%2000)*0.01f; uint32_t a; memcpy(&a, &d, 4); w = ((uint64_t)a << 32) | a; } // plausible floats
      if (fill.mode == 5) w = (w >> 33)%3 == 0 ? 1 : (w >> 33)%40;                                                             // small integers and booleans
      memcpy(q + i, &w, n - i < 8 ? n - i : 8);
    }
  }
}
extern "C"
{
  void* __libc_malloc(size_t); void* __libc_realloc(void*, size_t);
  void* malloc(size_t n) { void* p = __libc_malloc(n); stuff(p, n); return p; }
  void* realloc(void* o, size_t n)
  {
    const size_t had = o ? malloc_usable_size(o) : 0; void* p = __libc_realloc(o, n);
    if (p && n > had) stuff((char*)p + had, n - had);
    return p;
  }
}

namespace
{
  __attribute__((noinline)) void dirtyStack(size_t n) { volatile unsigned char* p = (volatile unsigned char*)alloca(n); const int m = fill.mode; if (!m) fill.mode = 1; stuff((void*)p, n); fill.mode = m; __asm__ volatile("" : : "r"(p) : "memory"); }
  typedef std::vector<std::vector<double> > Stream;
  struct Task
  {
    int kind; bool flt; uint64_t seed; int steps; bool wild;
    const char* name() const { static const char* n[] = {"tools", "polygon", "lip", "base", "trajectory functions", "mobile base functions", "foot", "feet", "trajectory", "mobile base", "humanoid", "fresh"}; return n[kind]; }
    template <typename R> void go(Stream& s, bool dirty) const
    {
      const Fill keep = fill;
      std::unique_ptr<Driver<R> > d(makeDriver<R>(kind, In<R>(seed, 0, 0, wild, false)));
      for (int t = 0; t < steps && !d->over; ++t)
      {
        d->out = Out(); if (dirty) dirtyStack(12000);
        d->step();
        fill.mode = 0; s.push_back(d->out.v); fill.mode = keep.mode;
      }
    }
    void run(Stream& s, bool dirty) const { if (flt) go<float>(s, dirty); else go<double>(s, dirty); }
  };
  uint64_t bits(double a) { if (a != a) return 0x7ff8000000000000ull; uint64_t u; memcpy(&u, &a, 8); return u; }
  uint64_t digest(const std::vector<double>& v) { uint64_t h = v.size(); for (size_t i = 0; i < v.size(); ++i) h = mix(h*31 + bits(v[i])); return h; }
  Task task(Rng& r) { Task t; t.kind = r.i(0, DRIVERS - 1); t.flt = r.p(0.4); t.seed = r.next(); t.steps = r.i(5, 80); t.wild = r.p(0.8); return t; }
  void pattern(Rng& r)
  {
    fill.mode = r.i(1, 5); fill.s = r.next(); fill.byte = r.pick(std::vector<int>{0, 0xff, 0x7f, 0x3f, 0x01, 0xab, 0x40, 0xc0});
  }
  struct Restore { ~Restore() { fill.mode = 0; } };

  FILE* digests()
  {
    static FILE* f = 0; static bool asked = false;
    if (!asked) { asked = true; const char* d = getenv("VH_DIGEST"); if (d) { f = fopen((std::string(d) + "." + std::to_string(getpid())).c_str(), "w"); } }
    return f;
  }
  void fn(Case& c)
  {
    static const uint64_t salt = getenv("VH_SALT") ? strtoull(getenv("VH_SALT"), 0, 10) : 0;
    std::cerr.rdbuf(0);
    Restore restore;
    const Task t = task(c.r);
    c.desc << t.name() << (t.flt ? " (float) x" : " x") << t.steps; c.h(t.seed); c.count(std::string("objects_") + t.name());
    Rng h(c.r.next() ^ mix(salt));      // what is around the calls differs between builds; the calls do not
    FILE* f = digests();
    Stream want; if (h.p(0.5)) pattern(h); t.run(want, h.p(0.5)); fill.mode = 0;
    const int again = h.i(1, 2);
    for (int k = 0; k < again; ++k)
    {
      // other work in between, left in memory or not
      const int n = h.i(0, 2); std::vector<Stream> junk(n);
      for (int i = 0; i < n; ++i) { Task o = task(h); o.steps = std::min(o.steps, 20); if (h.p(0.4)) { o.kind = t.kind; o.flt = t.flt; } if (h.p(0.15)) { o = t; o.seed ^= 1; } o.run(junk[i], false); c.count("other_work"); }
      pattern(h); c.state(mix(fill.mode*256 + fill.byte) ^ (uint64_t)n ^ ((uint64_t)t.kind << 20)); const long b0 = fill.blocks;
      Stream got; t.run(got, true); fill.mode = 0; c.count("blocks_filled", fill.blocks - b0);
      if (got.size() != want.size()) c.fail("repeat", std::string(t.name()) + ": " + std::to_string(got.size()) + " calls instead of " + std::to_string(want.size()));
      for (size_t q = 0; q < got.size(); ++q)
      {
        if (got[q].size() != want[q].size()) c.fail("repeat", std::string(t.name()) + ": call " + std::to_string(q) + " answers " + std::to_string(got[q].size()) + " values instead of " + std::to_string(want[q].size()));
        for (size_t i = 0; i < got[q].size(); ++i)
          if (bits(got[q][i]) != bits(want[q][i])) c.fail("repeat", std::string(t.name()) + ": value " + std::to_string(i) + " of call " + std::to_string(q) + " is " + num(got[q][i]) + " instead of " + num(want[q][i]) + " the first time (memory pattern " + std::to_string(fill.mode) + ")");
        c.count("values_compared", (long)got[q].size());
      }
      c.count("repetitions");
    }
    if (f)
    {
      fprintf(f, "%ld %d %d", c.idx, t.kind, (int)t.flt); for (size_t q = 0; q < want.size(); ++q) fprintf(f, " %016llx", (unsigned long long)digest(want[q])); fprintf(f, "\n"); fflush(f);
    }
    c.nontrivial = true;
  }
}
VH_MAIN(fn)
