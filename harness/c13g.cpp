// C13: supporting feet never move and swinging feet land still: the feet of a generator which plans its own landings.
// needs: all
#include <flight.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R>
  void one(Case& c)
  {
    typedef Hum<R> H;
    H z(c, isF<R>() ? 4 : 6);
    typename H::Gen g;
    z.applyAll(g, c);
    const int ticks = c.r.i(1, std::min(8*z.k*z.s, 120));
    const double pm = c.r.pick(std::vector<double>{0.01, 0.05, 0.2}), pe = c.r.pick(std::vector<double>{0, 0.05, 0.2}), pt = c.r.p(0.3) ? 0.1 : 0;
    Watch watch; uint64_t hist = 0; Flight fl; long flown = 0;
    c.desc << "N=" << z.N << " T=" << (double)z.T << " k=" << z.k << " step=" << z.s << " ds=" << z.d << " ticks=" << ticks << ":";
    if (c.r.p(0.85)) { z.walk.move = true; g.setMove(true); c.desc << " +0"; }
    for (int t = 0; t < ticks; ++t)
    {
      const std::string at = "tick " + std::to_string(t);
      if (c.r.p(pm)) { z.walk.move = !z.walk.move; g.setMove(z.walk.move); c.desc << (z.walk.move ? " +" : " -") << t; hist = mix(hist + t*2 + z.walk.move); }
      if (c.r.p(pt))
      {
        const int n = c.r.pick(std::vector<int>{1, 2, 4, 5, 10});
        if (z.walk.canTick(n)) { if (z.walk.inAir()) fl.odd = true; z.walk.setTick(n); z.k = n; c.desc << " k" << n << "@" << t; c.count("feedback_period_changes"); hist = mix(hist + 43*n + t); }
      }
      if (t && c.r.p(pe))
      {
        const int f = c.r.i(0, H::FIELDS - 1);
        const bool standing = z.walk.type == Walk::DS && !z.walk.boundary();
        bool can = f != H::PERIOD && f != H::NBS;
        if (((f >= H::LX && f <= H::RZ) || f == H::LHEIGHT || f == H::RHEIGHT) && !standing) { can = false; }
        if (can && (f == H::STEP || f == H::DSLEN))
        {
          const int s = z.s, d = z.d; z.pick(c, f);
          const bool air = z.walk.inAir() && !z.walk.boundary() && z.walk.rem + (long)(z.s - s)*z.k >= z.k;
          if (f == H::STEP ? !z.walk.canStep(z.s) && !air : !z.walk.canDs(z.d)) { z.s = s; z.d = d; can = false; }
          else { if (f == H::STEP && air) fl.odd = true; if (f == H::STEP) z.walk.setStep(z.s); else z.walk.setDs(z.d); }
        }
        else if (can) z.pick(c, f);
        if (can) { z.apply(g, f); hist = mix(hist*31 + f + t); c.desc << " " << t << "/" << H::name(f); c.count(std::string("set_") + H::name(f)); }
        // a request is kept, and moves nothing else
        const H mine(z); z.read(g);
        for (int a = 1; a < 3; ++a) for (int e = 0; e < 3; ++e) if (!(mine.foot[a][e].array() == z.foot[a][e].array()).all())
          c.fail("request", at + " after " + H::name(f) + ": " + (a == 1 ? "left" : "right") + " foot axis " + std::to_string(e) + " is " + num(z.foot[a][e](0)) + " instead of " + num(mine.foot[a][e](0)));
      }
      z.walk.update();
      const Walk now = z.walk; const R f = z.fb(); const H was(z);
      const bool ok = g.solve(f);
      z.read(g);
      c.count("cycles");
      if (!ok) { c.count("unsolved_cycles"); break; }
      bool wild = false; for (int a = 1; a < 3; ++a) for (int e = 0; e < 2; ++e) if (!(std::fabs((L)z.foot[a][e](0)) < 10 && std::fabs((L)z.com[e](0)) < 10)) wild = true;
      if (wild) { c.count("fallen"); break; }
      fl.check(c, was, z, now, f, at + " (" + (now.type == Walk::DS ? "ds" : now.type == Walk::LEFT ? "left" : "right") + ")");
      if (now.inAir()) ++flown;
      c.state(now.key());
      z.walk.tick();
    }
    c.h(hist); c.h(z.N*1000 + z.k*100 + z.s*10 + z.d); c.h((uint64_t)(1e6*z.T)); c.h(ticks); c.nontrivial = flown > 0;
  }
  void fn(Case& c) { if (c.r.p(0.3)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
