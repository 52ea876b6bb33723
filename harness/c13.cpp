// C13: supporting feet never move and swinging feet land still where planned.
// needs: tools lineardynamic humanoid_foot_model interpolator convexpolygon humanoid_feet_supervisor
#include <walk.h>
#include <mpc-walkgen/humanoid_feet_supervisor.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    int k = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10, 20});
    const bool wide = c.r.p(0.06) && !isF<R>();
    int s = c.r.i(2, wide ? 15 : 6), d = c.r.i(1, wide ? 15 : 4), N = c.r.i(std::max(s, 2), wide ? 30 : 12);
    R T = static_cast<R>(c.r.p(0.5) ? 0.01*c.r.i(5, 40) : c.r.u(0.05, 1.0));
    if (T/k < 4e-3) { T = static_cast<R>(k*5e-3); }
    R f = T/static_cast<R>(k);
    HumanoidFeetSupervisor<R> sup(N, T);
    Walk w(N, k);
    if (s != 2) { sup.setStepPeriod(static_cast<R>(s)*T); w.setStep(s); }
    if (d != 2) { sup.setInitialDoubleSupportLength(static_cast<R>(d)*T); w.setDs(d); }
    sup.setLeftFootKinematicConvexPolygon(polyOf<R>(rndPoly<R>(c, 2, 0.1L, -0.2L, 0.2L, 0.1L, 5)));
    sup.setRightFootKinematicConvexPolygon(polyOf<R>(rndPoly<R>(c, 2, 0.1L, 0.2L, 0.2L, 0.1L, 5)));
    const Pts sole = rndPoly<R>(c, 2, 0, 0, 0.1L, 0.05L, 5);
    sup.setLeftFootCopConvexPolygon(polyOf<R>(sole)); sup.setRightFootCopConvexPolygon(polyOf<R>(sole));
    R H[3] = {0, static_cast<R>(c.r.p(0.2) ? 0 : c.r.u(0.01, 0.3)), static_cast<R>(c.r.p(0.2) ? 0 : c.r.u(0.01, 0.3))};
    sup.setLeftFootMaxHeight(H[1]); sup.setRightFootMaxHeight(H[2]);
    V want[3][3];   // foot, axis
    auto get = [&](int a, int e) -> const V& {
      return a == 1 ? (e == 0 ? sup.getLeftFootStateX() : e == 1 ? sup.getLeftFootStateY() : sup.getLeftFootStateZ())
                    : (e == 0 ? sup.getRightFootStateX() : e == 1 ? sup.getRightFootStateY() : sup.getRightFootStateZ()); };
    auto place = [&](int a, int e, const V& v) {
      if (a == 1) { if (e == 0) sup.setLeftFootStateX(v); else if (e == 1) sup.setLeftFootStateY(v); else sup.setLeftFootStateZ(v); }
      else { if (e == 0) sup.setRightFootStateX(v); else if (e == 1) sup.setRightFootStateY(v); else sup.setRightFootStateZ(v); }
      want[a][e] = v; };
    auto check = [&](const std::string& at, const char* key) {
      for (int a = 1; a < 3; ++a) for (int e = 0; e < 3; ++e)
      {
        const V& g = get(a, e);
        if (g.size() != 3 || !(g.array() == want[a][e].array()).all())
          c.fail(key, at + ": " + (a == 1 ? "left" : "right") + " foot axis " + std::to_string(e) + " is (" + num(g(0)) + "," + num(g(1)) + "," + num(g(2)) + ") instead of (" + num(want[a][e](0)) + "," + num(want[a][e](1)) + "," + num(want[a][e](2)) + ")");
        c.count("poses_kept");
      } };
    for (int a = 1; a < 3; ++a) for (int e = 0; e < 3; ++e) { V v = V::Zero(3); if (e < 2) v(0) = (R)c.r.u(-2, 2); place(a, e, v); }
    V X = V::Zero(2*N);
    const bool longRun = c.r.p(0.006) && !wide;
    const int ticks = longRun ? c.r.i(1000, 3000) : c.r.i(1, std::min(14*k*s, 300)); if (longRun) c.count("long_runs");
    c.desc << "N=" << N << " T=" << (double)T << " k=" << k << " step=" << s << " ds=" << d << " ticks=" << ticks << " heights " << (double)H[1] << " " << (double)H[2] << ":";
    uint64_t hist = 0;
    const double pm = c.r.pick(std::vector<double>{0.005, 0.02, 0.1, 0.4});
    const int mode = c.r.i(0, 2);   // plans: steady, drifting, random at every tick
    const L reach = c.r.p(0.3) ? 0.01L : 0.4L;
    if (c.r.p(0.8)) { w.move = true; sup.setMove(true); c.desc << " +0"; }
    const R tn = static_cast<R>(epsOf<R>());
    R zmax[3] = {0, 0, 0}; bool full[3] = {false, false, false}, odd = false, mixed = false;
    const double ps = c.r.p(0.4) ? 0.05 : 0, pt = c.r.p(0.3) ? 0.06 : 0;
    for (int t = 0; t < ticks; ++t)
    {
      const std::string at = "tick " + std::to_string(t);
      if (c.r.p(pm)) { w.move = !w.move; sup.setMove(w.move); c.desc << (w.move ? " +" : " -") << t; hist = mix(hist + t*2 + w.move); }
      if (w.type == Walk::DS && !w.boundary() && c.r.p(0.05))
      {
        // requests outside of a walk: kept, and one changes no other
        const int a = c.r.i(1, 2), e = c.r.i(0, 2); V v = V::Zero(3); v(0) = (R)(e == 2 ? 0 : c.r.u(-2, 2));
        place(a, e, v); check(at + " after a request", "request"); c.count("requests");
      }
      if (w.type == Walk::DS && c.r.p(0.03)) { const int a = c.r.i(1, 2); H[a] = (R)c.r.u(0, 0.3); if (a == 1) sup.setLeftFootMaxHeight(H[a]); else sup.setRightFootMaxHeight(H[a]); }
      if (c.r.p(ps))
      {
        // another step period: while standing, at the beginning of a step, or with a foot in the air and a whole sample left
        const int n = c.r.i(2, N); const bool air = w.inAir() && !w.boundary();
        if (w.canStep(n) || (air && w.rem + (long)(n - w.s)*k >= k))
        {
          if (air) { odd = true; c.count("step_period_changes_in_air"); } else { c.count("step_period_changes"); }
          sup.setStepPeriod(static_cast<R>(n)*T); w.setStep(n); c.desc << " s" << n << "@" << t; hist = mix(hist + 31*n + t);
          check(at + " after a new step period", "period:moved");
        }
      }
      if (c.r.p(pt))
      {
        const int n = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10, 20});
        if (T/n >= 5e-3 && w.canTick(n)) { if (w.inAir()) { mixed = true; } w.setTick(n); k = n; f = T/static_cast<R>(k); full[1] = full[2] = false; c.desc << " k" << n << "@" << t; c.count("feedback_period_changes"); hist = mix(hist + 43*n + t); }
      }
      sup.updateTimeline(X, f); const bool popped = w.update();
      check(at + " after the timeline", "timeline:moved");
      const int M = sup.getNbPreviewedSteps();
      if (M != (int)w.landings.size() || X.size() != 2*N + 2*M) c.fail("steps", at + ": previewed steps " + std::to_string(M) + " instead of " + std::to_string(w.landings.size()));
      // a plan
      for (int j = 0; j < 2*M; ++j)
      {
        if (mode == 2 || (popped && mode == 0) || t == 0) X(2*N + j) = (R)(want[1][j < M ? 0 : 1](0) + c.r.u(-reach, reach));
        else if (mode == 1) X(2*N + j) += (R)c.r.u(-0.02, 0.02);
      }
      const int sw = w.type == Walk::DS ? 0 : 3 - w.type;
      V before[3]; if (sw) for (int e = 0; e < 3; ++e) before[e] = get(sw, e);
      sup.updateFeetStates(X.segment(2*N, 2*M), f);
      if (popped) { zmax[1] = zmax[2] = 0; full[1] = full[2] = false; odd = mixed = false; }
      if (w.inAir())
      {
        const L rem = w.rem*(L)f, fly = (w.dur - k)*(L)f;
        if (w.rem == w.dur - k) { full[sw] = true; c.count("take_offs"); }
        // the reference motion towards the landing planned now
        Mot after[3]; L sc[3], left[3];
        for (int e = 0; e < 2; ++e)
        {
          const Mot goal = {(L)X(2*N + e*M), 0, 0};
          after[e] = Third(mot(before[e]), goal, rem).at(f);
          left[e] = rem; sc[e] = std::fabs(goal.p) + std::fabs(before[e](0)) + std::fabs(before[e](1))*rem + std::fabs(before[e](2))*rem*rem;
        }
        {
          L up = std::min(std::max(rem - fly/2, (L)0), (L)f); if (up < 1e-3L*f) up = 0;
          Mot m = mot(before[2]); const Mot top = {(L)H[sw], 0, 0}, ground = {0, 0, 0};
          left[2] = rem; sc[2] = H[sw] + std::fabs(m.p) + std::fabs(m.v)*rem + std::fabs(m.a)*rem*rem;
          if (up > 0) { m = Third(m, top, rem - fly/2).at(up); left[2] = rem - fly/2; c.count("ticks_up"); }
          if (f - up > 1e-3L*f) { m = Third(m, ground, rem - up).at(f - up); left[2] = up > 0 ? std::min(left[2], rem - up) : rem; c.count("ticks_down"); }
          after[2] = m;
        }
        for (int e = 0; e < 3; ++e)
        {
          const V& g = get(sw, e);
          const L tol = (odd ? 20000 : isF<R>() ? 4000 : 2000)*tn*(sc[e] + 1e-3L);
          const std::string nm = at + ": " + (sw == 1 ? "left" : "right") + " foot in the air, axis " + std::to_string(e);
          checkClose(c, g(0), after[e].p, tol, "swing", nm + " position");
          checkClose(c, g(1), after[e].v, 3*tol/left[e], "swing", nm + " velocity");
          checkClose(c, g(2), after[e].a, 30*tol/(left[e]*left[e]), "swing", nm + " acceleration");
          // a jump would show as a change larger than the motion of the tick can make
          if (w.rem == 1)
          {
            const L goal = e == 2 ? 0 : (L)X(2*N + e*M);
            checkClose(c, g(0), goal, tol, "landing:place", nm + " position at the landing");
            checkClose(c, g(1), 0, 3*tol/left[e], "landing:velocity", nm + " velocity at the landing");
            checkClose(c, g(2), 0, 30*tol/(left[e]*left[e]), "landing:acceleration", nm + " acceleration at the landing");
            if (e == 2) { c.count("landings"); }
          }
          want[sw][e] = g;
        }
        const R z = want[sw][2](0); zmax[sw] = std::max(zmax[sw], z);
        // (a flight planned again many times exceeds the highest position by up to a millionth of it)
        const R zt = std::max<R>(5000*tn, (R)5e-6)*(H[sw] + (R)1e-3);
        // (planned again from where it is at each tick: the foot may leave its band in flights whose step period or feedback period changes)
        const bool band = !odd && !mixed; if (band) { c.count("heights_in_band"); }
        if (band && !(z >= -zt)) c.fail("height:below", at + ": the foot is at height " + num(z));
        if (band && !(z <= H[sw] + zt)) c.fail("height:above", at + ": the foot is at height " + num(z) + ", the maximum is " + num(H[sw]));
        // a complete flight really goes up when a tick meets its middle
        if (band && w.rem == 1 && full[sw] && (w.dur - k)%2 == 0 && !(zmax[sw] >= H[sw]*(R)0.999 - zt)) c.fail("height:apex", at + ": the flight only reached " + num(zmax[sw]) + " of " + num(H[sw]));
        c.count("ticks_in_air");
      }
      check(at + " after the feet update", "support:moved");
      w.tick();
      c.state(w.key());
    }
    c.h(hist); c.h(N*1000 + k*100 + s*10 + d); c.h(ticks); c.h((uint64_t)(1e6*T)); c.nontrivial = ticks > k*d;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
