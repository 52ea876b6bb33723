// C14: the trajectory generator returns the optimum within limits at every cycle.
// needs: tools lineardynamic no_dynamic_model trajectory_jerk_minimization_objective trajectory_position_tracking_objective trajectory_velocity_tracking_objective trajectory_motion_constraint trajectory_walkgen qpsolverfactory qpsolver_qpoases_double qpsolver_qpoases_float
#include <qpref.h>
#include <mpc-walkgen/trajectory_walkgen.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    TrajectoryWalkgen<R> g;
    const bool longRun = c.r.p(0.006);      // one generator used for a long time
    int N = c.r.i(1, longRun ? 4 : 12); if (!longRun && c.r.p(0.1)) { N = c.r.i(13, 20); }
    R T = static_cast<R>(c.r.p(0.4) ? 0.1 : c.r.u(0.05, 0.4));
    R velL = 1, accL = 1, jerkL = 1; bool con = false;
    V vr, pr; R wv = 0, wp = 0, wj = 0;
    const L amp = c.r.pick(std::vector<double>{0.2, 1, 1, 3});
    auto refs = [&]() {
      const int kind = c.r.i(0, 2);
      vr = rndRef<R>(c, N, kind == 0 ? 0.1*amp : amp, 1); pr = rndRef<R>(c, N, amp, 1);
      if (kind == 2) { vr.fill(vr(0)); for (int i = 0; i < N; ++i) pr(i) = pr(0) + vr(0)*T*(R)(i + 1); }
      g.setVelRefInWorldFrame(vr); g.setPosRefInWorldFrame(pr); c.count("references"); };
    auto weights = [&]() {
      wv = c.r.p(0.2) ? 0 : (R)std::pow(10, c.r.u(-2, 2)); wp = c.r.p(0.2) ? 0 : (R)std::pow(10, c.r.u(-2, 2));
      wj = (R)std::pow(10, c.r.u(isF<R>() ? -2 : -5, 0)); TrajectoryWalkgenWeighting<R> w; w.velocityTracking = wv; w.positionTracking = wp; w.jerkMinimization = wj; g.setWeightings(w); c.count("weightings"); };
    auto limits = [&](int which) {
      if (which & 1) { velL = (R)c.r.u(0.2, 3); g.setVelLimit(velL); }
      if (which & 2) { accL = (R)c.r.u(0.3, 6); g.setAccLimit(accL); }
      if (which & 4) { jerkL = (R)c.r.u(1, 60); g.setJerkLimit(jerkL); } c.count("limits"); };
    auto config = [&]() { con = c.r.p(0.75); TrajectoryWalkgenConfig<R> q; q.withMotionConstraints = con; g.setConfig(q); };
    auto state = [&]() { V s = rndState<R>(c, amp, con ? 0.7*velL : 2, con ? 0.5*accL : 2); g.setState(s); c.count("states"); };
    // initial configuration in some order; the references come after the last change of N
    g.setNbSamples(N); g.setSamplingPeriod(T); refs(); weights(); limits(7); config(); state();
    const int cycles = longRun ? c.r.i(270, 700) : c.r.i(2, 24); if (longRun) c.count("long_runs");
    int k = c.r.pick(std::vector<int>{1, 2, 3, 5, 7, 10, 40, 100});
    const double pe = c.r.pick(longRun ? std::vector<double>{0.005, 0.02, 0.05} : std::vector<double>{0, 0.1, 0.4});
    Watch watch; uint64_t hist = 0; long compared = 0; L past = 0;   // largest control so far
    c.desc << "N=" << N << " T=" << (double)T << " k=" << k << " cycles=" << cycles << ":";
    for (int t = 0; t < cycles; ++t)
    {
      const std::string at = "cycle " + std::to_string(t);
      for (int o = 0; o < 3; ++o) if (t && c.r.p(pe))
      {
        const int op = c.r.i(0, 6); hist = mix(hist*17 + op + t*7); c.desc << " " << t << "/" << op;
        switch (op)
        {
          case 0: N = c.r.i(1, longRun ? 4 : 12); g.setNbSamples(N); refs(); c.count("resizes"); break;
          case 1: T = static_cast<R>(c.r.u(0.05, 0.4)); g.setSamplingPeriod(T); c.count("periods"); break;
          case 2: refs(); break;
          case 3: weights(); break;
          case 4: limits(c.r.i(1, 7)); break;
          case 5: config(); break;
          default: state(); break;
        }
      }
      if (c.r.p(0.1)) { k = c.r.pick(std::vector<int>{1, 2, 3, 5, 7, 10, 40, 100}); }
      const R f = T/static_cast<R>(k);
      const Mot m0 = mot(g.getState());
      // (a generator which looks a single sample ahead is not stable in closed loop)
      if (!(std::fabs(m0.p) < 1e3L && std::fabs(m0.v) < 1e4L && std::fabs(m0.a) < 1e4L)) { c.count("exploded"); break; }
      const bool ok = g.solve(f);
      const L j = g.getJerk();
      // the state advances by the jerk the generator says it applied
      const Mot m1 = step(m0, j, f); const V& s1 = g.getState();
      if (s1.size() != 3) c.fail("state", at + ": state of size " + std::to_string(s1.size()));
      const L te = 20*epsOf<R>();
      checkClose(c, s1(0), m1.p, te*(std::fabs(m0.p) + std::fabs(m0.v*f) + std::fabs(m0.a*f*f) + std::fabs(j*f*f*f) + 1e-9L), "state", at + ": position");
      checkClose(c, s1(1), m1.v, te*(std::fabs(m0.v) + std::fabs(m0.a*f) + std::fabs(j*f*f) + 1e-9L), "state", at + ": velocity");
      checkClose(c, s1(2), m1.a, te*(std::fabs(m0.a) + std::fabs(j*f) + 1e-9L), "state", at + ": acceleration");
      c.count("cycles"); c.max("cycles_in_a_run", t + 1);
      // the program of this instant
      Qp q(N);
      const Aff vel([&](const Vec& u) { Vec o; const std::vector<Mot> p = preview(m0, u, T, T); for (int i = 0; i < N; ++i) o.push_back(p[i].v); return o; }, N);
      const Aff acc([&](const Vec& u) { Vec o; const std::vector<Mot> p = preview(m0, u, T, T); for (int i = 0; i < N; ++i) o.push_back(p[i].a); return o; }, N);
      Aff ev([&](const Vec& u) { Vec o; const std::vector<Mot> p = preview(m0, u, T, T); for (int i = 0; i < N; ++i) o.push_back(p[i].v - vr(i)); return o; }, N);
      Aff ep([&](const Vec& u) { Vec o; const std::vector<Mot> p = preview(m0, u, T, T); for (int i = 0; i < N; ++i) o.push_back(p[i].p - pr(i)); return o; }, N);
      const Aff ej([&](const Vec& u) { return u; }, N);
      ev.cancel = std::fabs(m0.v) + std::fabs(m0.a)*N*T + amp; ep.cancel = std::fabs(m0.p) + ev.cancel*N*T + amp;
      q.cost(ev, wv); q.cost(ep, wp); q.cost(ej, wj);
      if (con)
      {
        q.rows(vel, -velL, velL); q.rows(acc, -accL, accL);
        for (int i = 0; i < N; ++i) { q.lb[i] = -jerkL; q.ub[i] = jerkL; }
      }
      const L e = isF<R>() ? 1e-6L : 1e-13L, mar = isF<R>() ? 1e-4L : 1e-9L;
      Best b = best(q, Rng(c.seed*1000003 + c.idx*101 + t), e, past);
      const std::string odd = contradiction(q, ok, b, watch, e, mar);
      if (!odd.empty()) c.fail(ok ? "success" : "failure", at + ": " + odd);
      if (!ok) { c.count(watch.rc == 64 ? "undecided_by_solver" : "infeasible_cycles"); break; }
      past = std::max(past, b.scale);
      if (b.rc) { c.count("undecided_cycles"); continue; }
      if (con)
      {
        const Mot first = step(m0, j, T);
        const L tl = isF<R>() ? 1e-4L : 1e-8L;
        if (std::fabs(j) > jerkL*(1 + tl)) c.fail("limit:jerk", at + ": jerk " + num(j) + ", limit " + num(jerkL));
        if (std::fabs(first.v) > velL + tl*(velL + std::fabs(m0.v))) c.fail("limit:velocity", at + ": velocity of the first sample " + num(first.v) + ", limit " + num(velL));
        if (std::fabs(first.a) > accL + tl*(accL + std::fabs(m0.a))) c.fail("limit:acceleration", at + ": acceleration of the first sample " + num(first.a) + ", limit " + num(accL));
        c.count("limits_checked");
      }
      if (b.tol[0] > 0.02L*(b.scale + 0.05L)) { c.count("illconditioned_cycles"); continue; }
      checkClose(c, j, b.x[0], b.tol[0], "optimum", at + ": applied jerk (" + std::to_string(b.active) + " active limits, N=" + std::to_string(N) + ", T=" + num(T) + ")");
      ++compared; c.count("optima_compared"); if (b.active) c.count("optima_with_active_limits");
      c.state(mix(hist + b.active*131 + N)); c.max("active", b.active);
    }
    c.h(hist); c.h(N*1000 + k); c.h(cycles); c.h((uint64_t)(1e6*T)); c.nontrivial = compared > 0;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
