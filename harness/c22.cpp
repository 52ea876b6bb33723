// C22: no legal use of any class causes memory errors, undefined behaviour, leaks or assertion failures.
// needs: all
#include <drive.h>
#include <iostream>
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define C22_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
# endif
#endif
#if __has_include(<valgrind/memcheck.h>)
# include <valgrind/memcheck.h>
#else
# define RUNNING_ON_VALGRIND 0
# define VALGRIND_CHECK_MEM_IS_DEFINED(a, n) 0
#endif
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  struct Any
  {
    std::unique_ptr<Driver<float> > f; std::unique_ptr<Driver<double> > d; int kind;
    void make(Rng& r, const std::vector<int>& kinds)
    {
      f.reset(); d.reset(); kind = r.pick(kinds);
      const uint64_t s = r.next();
      if (r.p(0.4)) f.reset(makeDriver<float>(kind, In<float>(s, 0, 0, true, false))); else d.reset(makeDriver<double>(kind, In<double>(s, 0, 0, true, false)));
    }
    Out& out() { return f ? f->out : d->out; }
    bool over() const { return f ? f->over : d->over; }
    const char* name() const { return f ? f->name : d->name; }
    void step() { out() = Out(); if (f) f->step(); else d->step(); }
  };

  // the calls of one case; everything made here is destroyed here
  void calls(Case& c, Rng r, bool count)
  {
    std::vector<int> kinds; for (int i = 0; i < DRIVERS; ++i) kinds.push_back(i);
    if (r.p(0.5)) { std::vector<int> k; for (int i = r.i(1, 3); i > 0; --i) k.push_back(r.pick(kinds)); kinds = k; }
    std::vector<std::unique_ptr<Any> > all;
    const int steps = RUNNING_ON_VALGRIND ? r.i(5, 40) : r.i(5, 150);
    uint64_t hist = 0; double sum = 0;
    for (int t = 0; t < steps; ++t)
    {
      if (all.empty() || (all.size() < 4 && r.p(0.1))) { all.push_back(std::unique_ptr<Any>(new Any)); all.back()->make(r, kinds); hist = mix(hist*31 + all.back()->kind); if (count) c.count(std::string("objects_") + all.back()->name()); }
      const int i = r.i(0, (int)all.size() - 1);
      if (all[i]->over() || r.p(0.02)) { all.erase(all.begin() + i); continue; }
      all[i]->step();
      const Out& o = all[i]->out();
      if (RUNNING_ON_VALGRIND && !o.v.empty()) { if (VALGRIND_CHECK_MEM_IS_DEFINED(o.v.data(), o.v.size()*sizeof(double))) c.fail(std::string("undefined:") + all[i]->name(), std::string(all[i]->name()) + ": a result depends on memory that was never written"); }
      for (size_t q = 0; q < o.v.size(); ++q) sum += o.v[q];      // reads everything
      if (count) { c.count("calls"); c.count("values_read", (long)o.v.size()); c.state(mix(hist*1000 + o.v.size())); }
    }
    if (count) { c.h(hist); c.h(steps); c.h(sum == sum ? (uint64_t)(int64_t)(std::fmod(sum, 1e6)*1e3) : 1); }
    vqp_hooks();
  }
  void fn(Case& c)
  {
    std::cerr.rdbuf(0);
    const Rng r = c.r; std::set<uint64_t> own;
    c.desc << "calls";
    calls(c, r, true);
#ifdef C22_ASAN
    if (c.idx%4 == 0)
    {
      // the same calls again leave the heap as it was
      size_t b[3];
      for (int i = 0; i < 3; ++i) { b[i] = __sanitizer_get_current_allocated_bytes(); if (i < 2) calls(c, r, false); }
      if (b[1] > b[0] && b[2] > b[1]) c.fail("leak", "every repetition of these calls leaves " + std::to_string(b[2] - b[1]) + " bytes allocated after all objects are gone");
      c.count("heap_balances");
    }
#endif
    c.nontrivial = true;
  }
}
VH_MAIN(fn)
