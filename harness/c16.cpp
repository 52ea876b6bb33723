// C16: the humanoid generator walks: optimal, balanced and reachable at every cycle.
// needs: all
#include <hum.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R>
  void one(Case& c)
  {
    typedef Hum<R> H; typedef typename Type<R>::VectorX V;
    H z(c, c.r.p(0.1) ? 8 : 6);
    typename H::Gen g;
    z.applyAll(g, c);
    const bool longRun = c.r.p(0.004) && z.N <= 4;      // one generator used for a long time
    const int ticks = longRun ? c.r.i(270, 600) : c.r.i(1, c.r.p(0.3) ? std::min(10*z.k*z.s, 150) : 20); if (longRun) c.count("long_runs");
    const double pm = c.r.pick(std::vector<double>{0.01, 0.05, 0.2}), pe = c.r.pick(std::vector<double>{0, 0.05, 0.3}), pt = c.r.p(0.3) ? 0.1 : 0;
    Steps<R> steps; Watch watch; uint64_t hist = 0; long compared = 0, checked = 0; L past = 0;
    c.desc << "N=" << z.N << " T=" << (double)z.T << " k=" << z.k << " step=" << z.s << " ds=" << z.d << " ticks=" << ticks << ":";
    if (c.r.p(0.8)) { z.walk.move = true; g.setMove(true); c.desc << " +0"; }
    const L tl = isF<R>() ? 2e-3L : 1e-7L;   // room left to the solution of a rounded program, in metres
    for (int t = 0; t < ticks; ++t)
    {
      const std::string at = "tick " + std::to_string(t);
      if (c.r.p(pm)) { z.walk.move = !z.walk.move; g.setMove(z.walk.move); c.desc << (z.walk.move ? " +" : " -") << t; hist = mix(hist + t*2 + z.walk.move); }
      if (c.r.p(pt))
      {
        const int n = c.r.pick(std::vector<int>{1, 2, 4, 5, 10});
        if (z.walk.canTick(n)) { z.walk.setTick(n); z.k = n; c.desc << " k" << n << "@" << t; c.count("feedback_period_changes"); hist = mix(hist + 43*n + t); }
      }
      for (int o = 0; o < 2; ++o) if (t && c.r.p(pe))
      {
        const int f = c.r.i(0, H::FIELDS - 1);
        const bool standing = z.walk.type == Walk::DS && !z.walk.boundary();
        if (f == H::PERIOD) { continue; }
        if (f == H::NBS)
        {
          const int N = z.N; const V vr = z.vr; z.pick(c, f);
          if (z.walk.rem > (long)z.N*z.k || (z.walk.type != Walk::DS && z.walk.dur > (long)z.N*z.k)) { z.N = N; z.vr = vr; continue; }
          z.apply(g, H::NBS); z.apply(g, H::VELREF); hist = mix(hist*31 + f + t); c.desc << " " << t << "/N" << z.N; c.count("resizes"); continue;
        }
        if (f >= H::LX && f <= H::RZ && !standing) { continue; }
        if ((f == H::LHEIGHT || f == H::RHEIGHT) && !standing) { continue; }
        if (f == H::STEP || f == H::DSLEN)
        {
          const int s = z.s, d = z.d; z.pick(c, f);
          const bool air = z.walk.inAir() && !z.walk.boundary() && z.walk.rem + (long)(z.s - s)*z.k >= z.k;
          if (f == H::STEP ? !z.walk.canStep(z.s) && !air : !z.walk.canDs(z.d)) { z.s = s; z.d = d; continue; }
          if (f == H::STEP) z.walk.setStep(z.s); else z.walk.setDs(z.d);
        }
        else z.pick(c, f);
        z.apply(g, f); hist = mix(hist*31 + f + t); c.desc << " " << t << "/" << H::name(f); c.count(std::string("set_") + H::name(f));
      }
      z.walk.N = z.N;
      const bool stepped = z.walk.type != Walk::DS; steps.carry(z, z.walk.update() && stepped);
      const int M = (int)z.walk.landings.size();
      const R f = z.fb();
      const Vec plan = steps.vec(); const L landing[2] = {M ? plan[0] : 0, M ? plan[M] : 0};
      std::vector<Pts> sp; const bool known = z.supports(sp, M ? landing : 0);
      const bool needHull = z.q.withCopConstraints;
      const V before[2] = {z.com[0], z.com[1]};
      const Walk now = z.walk; const L S = z.first();
      H prev(z);
      const bool ok = g.solve(f);
      z.read(g);
      c.count("cycles"); c.max("cycles_in_a_run", t + 1);
      const std::string ph = std::string(now.type == Walk::DS ? "ds" : now.type == Walk::LEFT ? "left" : "right") + (now.move ? "_moving" : "_stopping");
      const L e = isF<R>() ? 2e-6L : 2e-9L, mar = isF<R>() ? 3e-3L : 1e-5L;   // (the inverse of the CoP dynamics amplifies rounding)
      const bool exact = !needHull || known;
      Best b; b.rc = -1;
      if (exact)
      {
        const Qp p = prev.program(sp, &plan);
        b = best(p, Rng(c.seed*1000003 + c.idx*101 + t), e, past, 2);
        const std::string odd = contradiction(p, ok, b, watch, e, mar);
        if (!odd.empty()) c.fail(ok ? "success" : "failure", at + " (" + ph + "): " + odd);
      }
      if (!ok) { c.count(watch.rc == 64 ? "undecided_by_solver" : "infeasible_cycles"); break; }
      // a body which has fallen over (the plan looks no further than the preview)
      {
        L o[2]; prev.origin(o); bool fallen = false;
        for (int a = 0; a < 2; ++a) if (std::fabs((L)z.com[a](0) - o[a]) > 1.5L || std::fabs((L)z.com[a](1)) > 3 || std::fabs((L)z.com[a](2)) > 20) fallen = true;
        if (fallen) { c.count("fallen"); break; }
      }
      if (watch.big > 1e3L) { c.count("exploding_cycles"); break; }
      past = std::max(past, (L)watch.big);
      steps.add(watch.x, z.N);
      L j[2];
      for (int a = 0; a < 2; ++a)
      {
        const std::string who = at + " (" + ph + ") axis " + std::to_string(a);
        const Mot m0 = mot(before[a]);
        j[a] = ((L)z.com[a](2) - m0.a)/f;
        const L ej = 4*epsOf<R>()*(std::fabs(m0.a) + std::fabs((L)z.com[a](2)))/f;
        const Mot m1 = step(m0, j[a], f);
        const L te = 20*epsOf<R>();
        checkClose(c, z.com[a](0), m1.p, te*(std::fabs(m0.p) + std::fabs(m0.v*f) + std::fabs(m0.a*f*f) + std::fabs(j[a]*f*f*f) + 1e-9L) + ej*f*f*f, "state", who + " position");
        checkClose(c, z.com[a](1), m1.v, te*(std::fabs(m0.v) + std::fabs(m0.a*f) + std::fabs(j[a]*f*f) + 1e-9L) + ej*f*f, "state", who + " velocity");
        if (b.rc == 0)
        {
          // first jerk of the best plan; how far the rounding of the plan and of the state moves it
          const Vec u = prev.jerks(b.x, a);
          const L resp = std::fabs(copOf(step(m0, 1, S), z.h, z.g[a], z.g[2]) - copOf(step(m0, 0, S), z.h, z.g[a], z.g[2]));
          const int col = now.samples[0].col;
          const L tz = 10*b.tol[a*z.N] + (col >= 0 ? 10*b.tol[2*z.N + a*M + col] : 0) + 100*epsOf<R>()*(std::fabs(m0.p) + std::fabs(m0.v) + std::fabs(m0.a) + 1);
          // the CoP responds to the jerk by very little; what is compared is the jerk, in units of what moves the CoP
          if (tz > 5e-3L) { c.count("illconditioned_jerks"); }
          else { checkClose(c, j[a], u[0], tz/resp + ej, "optimum", who + " jerk (" + std::to_string(b.active) + " active constraints, N=" + std::to_string(z.N) + ", S=" + num(S) + ")"); c.count("jerks_compared"); ++compared; }
        }
      }
      if (b.rc == 0) { if (b.active) c.count("cycles_with_active_constraints"); c.count("exact_" + ph); c.max("active", b.active); }
      else if (b.rc > 0) c.count("undecided_cycles"); else c.count("inexact_cycles");
      // supporting feet do not move
      for (int a = 1; a < 3; ++a) if (now.type == Walk::DS || now.type == a)
        for (int q = 0; q < 2; ++q) if (!(z.foot[a][q].array() == prev.foot[a][q].array()).all()) c.fail("support:moved", at + " (" + ph + "): foot " + std::to_string(a) + " axis " + std::to_string(q) + " moved from " + num(prev.foot[a][q](0)) + " to " + num(z.foot[a][q](0)));
      // the CoP of the first previewed sample, when its support is known
      if (needHull)
      {
        L p[2]; for (int a = 0; a < 2; ++a) p[a] = copOf(step(mot(before[a]), j[a], S), z.h, z.g[a], z.g[2]);
        const Sample& q = now.samples[0];
        L land[2] = {0, 0}; bool can = q.type == now.type && q.phase == 0;
        if (now.type != Walk::DS && now.rem == 1) { for (int a = 0; a < 2; ++a) land[a] = z.foot[3 - now.type][a](0); can = now.move; }   // it lands now
        std::vector<Pts> s1;
        L o[2]; prev.origin(o);
        if (can)
        {
          Pts h = q.type == Walk::DS ? Pts() : z.sole[q.type];
          if (q.type == Walk::DS) { if (known) h = sp[0]; }
          if (q.phase == 1 && now.type != Walk::DS) { o[0] = land[0]; o[1] = land[1]; }
          if (h.size() >= 3)
          {
            const L in = insideOf(h, p[0] - o[0], p[1] - o[1]);
            if (!(in > -tl)) c.fail("balance", at + " (" + ph + "): the CoP of the first sample is " + num(-in) + " outside of its support polygon");
            c.count("balance_checked"); ++checked; if (in < 1e-6L) c.count("balance_at_the_edge");
          }
        }
      }
      // every landing is within reach of the foot it was made from
      if (z.q.withFeetConstraints && now.type != Walk::DS && now.rem == 1 && now.dur > z.k)
      {
        const int su = now.type, sw = 3 - su;
        const L in = insideOf(z.kin[su], (L)z.foot[sw][0](0) - z.foot[su][0](0), (L)z.foot[sw][1](0) - z.foot[su][1](0));
        if (!(in > -tl)) c.fail("reach", at + " (" + ph + "): the foot landed " + num(-in) + " out of reach");
        c.count("landings_checked"); if (in < 1e-6L) c.count("landings_at_the_edge");
      }
      c.state(now.key());
      z.walk.tick();
    }
    c.h(hist); c.h(z.N*1000 + z.k*100 + z.s*10 + z.d); c.h((uint64_t)(1e6*z.T)); c.h(ticks); c.nontrivial = compared + checked > 0;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
