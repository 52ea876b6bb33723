// The feet of a humanoid generator during one cycle: standing feet keep their pose, the other one flies to some landing.
#pragma once
#include <hum.h>

namespace vh
{
  struct Flight
  {
    bool odd;                 // the step period or the feedback period changed in the air
    bool full; L zmax;        // the whole flight was watched; the highest point reached
    Flight() : odd(false), full(false), zmax(0) {}

    // was, is: before and after the cycle; now: the schedule in force during it; f: its length
    template <typename R>
    void check(Case& c, const Hum<R>& was, const Hum<R>& is, const Walk& now, R f, const std::string& at)
    {
      const L tn = epsOf<R>();
      const int sw = now.inAir() ? 3 - now.type : 0;
      for (int a = 1; a < 3; ++a) for (int e = 0; e < 3; ++e)
      {
        const typename Hum<R>::V &p = was.foot[a][e], &q = is.foot[a][e];
        if (a != sw && !(q.size() == 3 && (p.array() == q.array()).all()))
          c.fail("support:moved", at + ": " + (a == 1 ? "left" : "right") + " foot, which stands, axis " + std::to_string(e) + " moved from (" + num(p(0)) + "," + num(p(1)) + "," + num(p(2)) + ") to (" + num(q(0)) + "," + num(q(1)) + "," + num(q(2)) + ")");
        c.count("poses_kept");
      }
      if (!sw) { full = false; zmax = 0; odd = false; return; }
      const L rem = now.rem*(L)f, fly = (now.dur - now.k)*(L)f;
      if (now.rem == now.dur - now.k) { full = true; odd = false; zmax = 0; c.count("take_offs"); }
      for (int e = 0; e < 3; ++e)
      {
        const Mot b = mot(was.foot[sw][e]), g = mot(is.foot[sw][e]);
        const std::string nm = at + ": " + (sw == 1 ? "left" : "right") + " foot in the air, axis " + std::to_string(e);
        L left = rem, goal = 0, sc = std::fabs(b.p) + std::fabs(b.v)*rem + std::fabs(b.a)*rem*rem; Mot m;
        if (e < 2)
        {
          // the landing which explains the new position has to explain the rest
          const Mot z = {0, 0, 0}, u = {1, 0, 0};
          const Mot m0 = Third(b, z, rem).at(f), m1 = Third(b, u, rem).at(f);
          goal = (g.p - m0.p)/(m1.p - m0.p);
          const Mot to = {goal, 0, 0};
          sc += std::fabs(goal);
          // what the landing is worth, from its position: a hair at the beginning of a flight
          const L lose = 2000*tn*(sc + 1e-3L)/std::fabs(m1.p - m0.p);
          if (lose > 1e-2L) { c.count("landings_unclear"); continue; }
          m = Third(b, to, rem).at(f);
          const L tol = (odd ? 20000 : 2000)*tn*(sc + 1e-3L);
          checkClose(c, g.v, m.v, 3*tol/left + std::fabs(m1.v - m0.v)*lose, "swing", nm + " velocity, flying to " + num(goal));
          checkClose(c, g.a, m.a, 30*tol/(left*left) + std::fabs(m1.a - m0.a)*lose, "swing", nm + " acceleration, flying to " + num(goal));
          if (now.rem == 1)
          {
            checkClose(c, g.v, 0, 3*tol/left, "landing:velocity", nm + " velocity at the landing");
            checkClose(c, g.a, 0, 30*tol/(left*left), "landing:acceleration", nm + " acceleration at the landing");
            c.count("landings");
          }
        }
        else
        {
          const L H = is.top[sw];
          L up = std::min(std::max(rem - fly/2, (L)0), (L)f); if (up < 1e-3L*f) up = 0;
          m = b; const Mot top = {H, 0, 0}, ground = {0, 0, 0};
          sc += std::fabs(H);
          if (up > 0) { m = Third(m, top, rem - fly/2).at(up); left = rem - fly/2; }
          if (f - up > 1e-3L*f) { m = Third(m, ground, rem - up).at(f - up); left = up > 0 ? std::min(left, rem - up) : rem; }
          const L tol = (odd ? 20000 : 2000)*tn*(sc + 1e-3L);
          checkClose(c, g.p, m.p, tol, "swing", nm + " position");
          checkClose(c, g.v, m.v, 3*tol/left, "swing", nm + " velocity");
          checkClose(c, g.a, m.a, 30*tol/(left*left), "swing", nm + " acceleration");
          if (now.rem == 1)
          {
            checkClose(c, g.p, 0, tol, "landing:place", nm + " at the landing");
            checkClose(c, g.v, 0, 3*tol/left, "landing:velocity", nm + " velocity at the landing");
            checkClose(c, g.a, 0, 30*tol/(left*left), "landing:acceleration", nm + " acceleration at the landing");
          }
          zmax = std::max(zmax, g.p);
          const L zt = std::max<L>(5000*tn, 5e-6L)*(H + 1e-3L);
          if (!odd && full && std::fabs(was.foot[sw][2](0)) <= H)
          {
            if (!(g.p >= -zt)) c.fail("height:below", nm + ": at height " + num(g.p));
            if (!(g.p <= H + zt)) c.fail("height:above", nm + ": at height " + num(g.p) + ", the maximum is " + num(H));
            if (now.rem == 1 && (now.dur - now.k)%2 == 0 && !(zmax >= H*0.999L - zt)) c.fail("height:apex", nm + ": the flight only reached " + num(zmax) + " of " + num(H));
            c.count("heights_in_band");
          }
        }
      }
      c.count("ticks_in_air");
    }
  };
}
