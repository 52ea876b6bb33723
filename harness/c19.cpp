// C19: failures of the solver are reported and do not poison later cycles.
// needs: all
#include <hum.h>
#include <traj.h>
#include <zeb.h>
#include <mpc-walkgen/qpsolverfactory.h>
#include <iostream>
#include <memory>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  // when the solver fails: bursts of some kind of failure
  struct Plan
  {
    double p; int kind, left;
    explicit Plan(Case& c) : p(c.r.pick(std::vector<double>{0.05, 0.2, 0.5})), kind(0), left(0) {}
    int next(Case& c)
    {
      if (left > 0) { --left; if (c.r.p(0.7)) return kind; return kind = code(c); }
      if (c.r.p(p)) { left = c.r.p(0.5) ? 0 : c.r.tail(0, 3, 40, 0.05); return kind = code(c); }
      return kind = 0;
    }
    static int code(Case& c) { return c.r.pick(std::vector<int>{64, 37, 57, 33, 1, 200, -64, -37, -57, -200}); }
  };
  template <typename R> struct Acc { static L e() { return isF<R>() ? 1e-6L : 1e-13L; } };

  void verdict(Case& c, const Watch& w, long calls, bool ok, const std::string& at)
  {
    if (w.calls == calls) c.fail("no-call", at + ": no program was accepted by the solver (returned " + (ok ? "true" : "false") + "); it cannot recover from an earlier failure");
    if (ok != (w.rc == 0)) c.fail(ok ? "hidden-failure" : "false-failure", at + ": returned " + (ok ? "true" : "false") + " but the solver said " + std::to_string(w.rc));
    c.count(ok ? "cycles_solved" : w.inject < 0 ? "cycles_failed_nothing_written" : w.inject > 0 ? "cycles_failed_iterate_written" : "cycles_failed_by_themselves");
  }
  // the state advanced by a constant jerk; the jerk
  template <typename R> L advanced(Case& c, const typename Type<R>::VectorX& s0, const typename Type<R>::VectorX& s1, R f, const std::string& at, const L* jerk = 0)
  {
    if (s1.size() != 3 || !(s1.array() == s1.array()).all()) c.fail("state", at + ": not a state any more");
    const Mot m0 = mot(s0);
    const L j = jerk ? *jerk : ((L)s1(2) - m0.a)/f, ej = jerk ? 0 : 4*epsOf<R>()*(std::fabs(m0.a) + std::fabs((L)s1(2)))/f;
    const Mot m1 = step(m0, j, f); const L te = 20*epsOf<R>();
    checkClose(c, s1(0), m1.p, te*(std::fabs(m0.p) + std::fabs(m0.v*f) + std::fabs(m0.a*f*f) + std::fabs(j*f*f*f) + 1e-9L) + ej*f*f*f, "state", at + " position");
    checkClose(c, s1(1), m1.v, te*(std::fabs(m0.v) + std::fabs(m0.a*f) + std::fabs(j*f*f) + 1e-9L) + ej*f*f, "state", at + " velocity");
    if (jerk) checkClose(c, s1(2), m1.a, te*(std::fabs(m0.a) + std::fabs(j*f) + 1e-9L), "state", at + " acceleration");
    return j;
  }

  template <typename R>
  void trajectory(Case& c)
  {
    typedef Traj<R> Z; typedef typename Type<R>::VectorX V;
    Z z(c); TrajectoryWalkgen<R> g; z.applyAll(g, c);
    Watch w; Plan plan(c); const int cycles = c.r.tail(2, 16, 300, 0.02); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10});
    L past = 0; uint64_t hist = 0; bool failed = false; long compared = 0; const R f = z.T/static_cast<R>(k);
    c.desc << "trajectory N=" << z.N << " T=" << (double)z.T << " failures:";
    for (int t = 0; t < cycles; ++t)
    {
      const std::string at = "trajectory cycle " + std::to_string(t);
      if (t && c.r.p(0.15)) { const std::vector<int> ch = z.pick(c, c.r.i(0, Z::FIELDS - 1)); for (size_t i = 0; i < ch.size(); ++i) z.apply(g, ch[i]); if (ch[0] == Z::PERIOD) break; }
      w.inject = plan.next(c); if (w.inject) c.desc << " " << t << "/" << w.inject;
      const Qp p = z.program(); const V s0 = z.s; const long calls = w.calls;
      const bool ok = g.solve(f);
      z.read(g); verdict(c, w, calls, ok, at); hist = mix(hist*31 + (w.inject + 300) + t);
      const L jk = g.getJerk(); advanced<R>(c, s0, z.s, f, at, &jk);
      const L e = Acc<R>::e(), mar = isF<R>() ? 1e-4L : 1e-9L;
      const bool written = w.inject >= 0;
      Best b = best(p, Rng(c.seed*1000003 + c.idx*101 + t), e, past);
      if (!w.inject) { const std::string odd = contradiction(p, ok, b, w, e, mar); if (!odd.empty()) c.fail(ok ? "success" : "failure", at + ": " + odd); }
      past = std::max(past, std::max((L)w.big, std::fabs(jk)));
      if (!ok && !w.inject)
      {
        // nothing the robot could do: it is put back to a place where it can go on
        c.count(w.rc == 64 ? "undecided_by_solver" : "rescued"); z.s(1) = 0; z.s(2) = 0; z.apply(g, Z::STATE); failed = true; if (past > 1e4L) break; continue;
      }
      if (b.rc == 0 && written && b.tol[0] <= 0.02L*(b.scale + 0.05L))
      {
        checkClose(c, jk, b.x[0], b.tol[0], ok ? "recovery" : "written", at + (ok ? ": jerk after earlier failures" : ": jerk read back from a failed solve"));
        ++compared; c.count(failed ? "optima_after_failures" : "optima_before_failures");
      }
      if (w.inject) failed = true;
      if (!(std::fabs((L)z.s(1)) < 30 && std::fabs((L)z.s(2)) < 200)) { c.count("ran_away"); break; }
    }
    c.h(hist); c.h(z.N); c.nontrivial = failed && compared; c.state(hist);
  }

  template <typename R>
  void mobile(Case& c)
  {
    typedef Zeb<R> Z; typedef typename Type<R>::VectorX V;
    Z z(c, 5); ZebulonWalkgen<R> g; z.applyAll(g, c);
    Watch w; Plan plan(c); const int cycles = z.N <= 2 ? c.r.tail(2, 12, 300, 0.03) : c.r.i(2, 12); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10});
    L past = 0; uint64_t hist = 0; bool failed = false; long compared = 0;
    c.desc << "mobile base N=" << z.N << " T=" << (double)z.T << " failures:";
    for (int t = 0; t < cycles; ++t)
    {
      const std::string at = "mobile base cycle " + std::to_string(t);
      if (t && c.r.p(0.15)) { const std::vector<int> ch = z.pick(c, c.r.i(0, Z::FIELDS - 1)); for (size_t i = 0; i < ch.size(); ++i) z.apply(g, ch[i]); }
      if (z.tilting() && !zTiltMeaningful(z.robot())) { break; }
      w.inject = plan.next(c); if (w.inject) c.desc << " " << t << "/" << w.inject;
      const R f = z.T/static_cast<R>(k);
      const Qp p = z.program(); const V s0[4] = {z.s[0], z.s[1], z.s[2], z.s[3]}; const long calls = w.calls;
      const bool ok = g.solve(f);
      z.read(g); verdict(c, w, calls, ok, at); hist = mix(hist*31 + (w.inject + 300) + t);
      L j[4]; for (int a = 0; a < 4; ++a) j[a] = advanced<R>(c, s0[a], z.s[a], f, at + " axis " + std::to_string(a));
      const L e = Acc<R>::e(), mar = isF<R>() ? 1e-3L : 1e-8L;
      const bool written = w.inject >= 0;
      Best b = best(p, Rng(c.seed*1000003 + c.idx*101 + t), e, past, 2);
      if (!w.inject) { const std::string odd = contradiction(p, ok, b, w, e, mar); if (!odd.empty()) c.fail(ok ? "success" : "failure", at + ": " + odd); }
      past = std::max(past, (L)w.big); for (int a = 0; a < 4; ++a) past = std::max(past, std::fabs(j[a]));
      if (!ok && !w.inject)
      {
        c.count(w.rc == 64 ? "undecided_by_solver" : "rescued"); for (int a = 0; a < 4; ++a) { z.s[a](1) = z.s[a](2) = 0; if (a < 2) z.s[a](0) = z.s[a + 2](0); }
        z.apply(g, Z::BX); z.apply(g, Z::BY); z.apply(g, Z::CX); z.apply(g, Z::CY); failed = true; if (past > 2000) break; continue;
      }
      if (past > 2000) { c.count("exploding_cycles"); break; }
      if (b.rc == 0 && written) for (int a = 0; a < 4; ++a)
      {
        const int v = a*z.N; if (b.tol[v] > 0.02L*(b.scale + 0.05L)) { continue; }
        const L ej = 4*epsOf<R>()*(std::fabs((L)s0[a](2)) + std::fabs((L)z.s[a](2)))/f;
        checkClose(c, j[a], b.x[v], b.tol[v] + ej, ok ? "recovery" : "written", at + " axis " + std::to_string(a) + (ok ? ": jerk after earlier failures" : ": jerk read back from a failed solve"));
        ++compared; c.count(failed ? "optima_after_failures" : "optima_before_failures");
      }
      if (w.inject) failed = true;
      bool away = false; for (int a = 0; a < 4; ++a) if (!(std::fabs((L)z.s[a](1)) < 30 && std::fabs((L)z.s[a](2)) < 200)) away = true;
      if (away) { c.count("ran_away"); break; }
    }
    c.h(hist); c.h(z.N); c.nontrivial = failed && compared; c.state(hist);
  }

  template <typename R>
  void humanoid(Case& c)
  {
    typedef Hum<R> H; typedef typename Type<R>::VectorX V;
    H z(c, 5); if (z.axisEdges() && c.r.p(0.5)) { z.q.withFeetConstraints = false; }
    HumanoidWalkgen<R> g; z.applyAll(g, c);
    const int ticks = c.r.i(2, c.r.p(0.3) ? std::min(8*z.k*z.s, 100) : 20); const double pm = c.r.pick(std::vector<double>{0.01, 0.05, 0.2});
    Watch w; Plan plan(c); if (c.r.p(0.5)) plan.p = 0.05; L past = 0; uint64_t hist = 0; bool failed = false; long compared = 0;
    c.desc << "humanoid N=" << z.N << " T=" << (double)z.T << " k=" << z.k << " step=" << z.s << " ds=" << z.d << " failures:";
    if (c.r.p(0.8)) { z.walk.move = true; g.setMove(true); }
    for (int t = 0; t < ticks; ++t)
    {
      if (c.r.p(pm)) { z.walk.move = !z.walk.move; g.setMove(z.walk.move); hist = mix(hist + t*2 + z.walk.move); }
      z.walk.N = z.N; z.walk.update();
      const int M = (int)z.walk.landings.size(); const R f = z.fb();
      std::vector<Pts> sp; const bool known = z.supports(sp, 0);
      const Walk now = z.walk; const L S = z.first(); const H prev(z);
      const std::string at = "humanoid tick " + std::to_string(t) + (now.type == Walk::DS ? " (ds)" : now.type == Walk::LEFT ? " (left)" : " (right)");
      w.inject = plan.next(c); if (w.inject) c.desc << " " << t << "/" << w.inject;
      const long calls = w.calls;
      const bool ok = g.solve(f);
      z.read(g); verdict(c, w, calls, ok, at); hist = mix(hist*31 + (w.inject + 300) + t);
      L j[2]; for (int a = 0; a < 2; ++a) j[a] = advanced<R>(c, prev.com[a], z.com[a], f, at + " axis " + std::to_string(a));
      for (int a = 1; a < 3; ++a) for (int e = 0; e < 2; ++e) for (int i = 0; i < 3; ++i) if (!(std::fabs((L)z.foot[a][e](i)) < 1e30L)) c.fail("state", at + ": state of a foot lost");
      // the next phases follow their schedule, whatever the solver said: supporting feet stand still
      for (int a = 1; a < 3; ++a) if (now.type == Walk::DS || now.type == a)
        for (int e = 0; e < 2; ++e) if (!(z.foot[a][e].array() == prev.foot[a][e].array()).all()) c.fail("support:moved", at + ": supporting foot " + std::to_string(a) + " moved");
      const L e = isF<R>() ? 2e-6L : 2e-9L, mar = isF<R>() ? 3e-3L : 1e-5L;
      const bool exact = (!z.q.withCopConstraints || known) && (!z.q.withFeetConstraints || M <= 1 || !z.axisEdges()), written = w.inject >= 0;
      Best b; b.rc = -1;
      if (exact && written)
      {
        const Qp p = prev.program(sp);
        b = best(p, Rng(c.seed*1000003 + c.idx*101 + t), e, past, 2);
        if (!w.inject) { const std::string odd = contradiction(p, ok, b, w, e, mar); if (!odd.empty()) c.fail(ok ? "success" : "failure", at + ": " + odd); }
      }
      if (!ok && !w.inject) { c.count(w.rc == 64 ? "undecided_by_solver" : "infeasible_cycles"); break; }
      {
        L o[2]; prev.origin(o); bool fallen = false;
        for (int a = 0; a < 2; ++a) if (!(std::fabs((L)z.com[a](0) - o[a]) < 1.5L && std::fabs((L)z.com[a](1)) < 3 && std::fabs((L)z.com[a](2)) < 20)) fallen = true;
        if (fallen) { c.count("fallen"); break; }
      }
      past = std::max(past, (L)w.big); if (past > 1e3L) { c.count("exploding_cycles"); break; }
      if (b.rc == 0) for (int a = 0; a < 2; ++a)
      {
        const Mot m0 = mot(prev.com[a]); const L ej = 4*epsOf<R>()*(std::fabs(m0.a) + std::fabs((L)z.com[a](2)))/f;
        const Vec u = prev.jerks(b.x, a);
        const L resp = std::fabs(copOf(step(m0, 1, S), z.h, z.g[a], z.g[2]) - copOf(step(m0, 0, S), z.h, z.g[a], z.g[2]));
        const int col = now.samples[0].col;
        const L tz = 10*b.tol[a*z.N] + (col >= 0 ? 10*b.tol[2*z.N + a*M + col] : 0) + 100*epsOf<R>()*(std::fabs(m0.p) + std::fabs(m0.v) + std::fabs(m0.a) + 1);
        if (tz > 5e-3L) { continue; }
        checkClose(c, j[a], u[0], tz/resp + ej, ok ? "recovery" : "written", at + " axis " + std::to_string(a) + (ok ? ": jerk after earlier failures" : ": jerk read back from a failed solve"));
        ++compared; c.count(failed ? "optima_after_failures" : "optima_before_failures");
      }
      if (w.inject) failed = true;
      z.walk.tick();
    }
    c.h(hist); c.h(z.N*100 + z.k); c.nontrivial = failed && compared; c.state(hist);
  }

  template <typename R>
  void layer(Case& c)
  {
    const int n = c.r.i(1, 6), m = c.r.i(0, 6), calls = c.r.tail(2, 10, 300, 0.03);
    std::unique_ptr<QPSolver<R>> s(makeQPSolver<R>(n, m));
    Watch w; Plan plan(c); uint64_t hist = 0; bool failed = false; long compared = 0;
    QPMatrices<R> q; q.Q.resize(n, n); q.A.resize(m, n); q.p.resize(n); q.xl.resize(n); q.xu.resize(n); q.bl.resize(m); q.bu.resize(m);
    bool fresh = true; c.desc << "solver n=" << n << " m=" << m << " failures:";
    for (int t = 0; t < calls; ++t)
    {
      const std::string at = "solver call " + std::to_string(t);
      bool warm = c.r.p(0.7);
      if (fresh || !warm)
      {
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q.Q(i, j) = (R)(i == j ? c.r.u(1, 3) : 0); for (int i = 0; i + 1 < n; ++i) q.Q(i, i + 1) = q.Q(i + 1, i) = (R)c.r.u(-0.4, 0.4);
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) q.A(i, j) = (R)c.r.u(-1, 1); fresh = false; warm = warm && t == 0;
      }
      const bool odd = c.r.p(0.15) && m > 0;     // inconsistent rows
      for (int i = 0; i < n; ++i) { q.p(i) = (R)c.r.u(-2, 2); q.xl(i) = (R)-c.r.u(0.2, 2); q.xu(i) = (R)c.r.u(0.2, 2); }
      for (int i = 0; i < m; ++i) { q.bl(i) = (R)-c.r.u(0.1, 1); q.bu(i) = (R)c.r.u(0.1, 1); }
      if (odd) { q.bl(0) = 50; q.bu(0) = 60; }
      w.inject = odd ? 0 : plan.next(c); const long before = w.calls;
      typename QPMatrices<R>::VectorX x(n); x.fill(7); std::ostringstream out; const bool os = c.r.p(0.5);
      const bool ok = s->solve(q, 10000, x, warm, os ? &out : 0);
      verdict(c, w, before, ok, at + (os ? " (with a debug stream)" : " (without debug stream)")); hist = mix(hist*31 + (w.inject + 300) + odd*7 + warm);
      if (odd && ok) c.fail("hidden-failure", at + ": an inconsistent program was reported as solved");
      if (!odd && !w.inject && !ok) c.fail("false-failure", at + ": a consistent program was reported as failed");
      if (ok)
      {
        Qp p(n); for (int i = 0; i < n; ++i) { p.g[i] = q.p(i); p.gs[i] = std::fabs(p.g[i]); p.lb[i] = q.xl(i); p.ub[i] = q.xu(i); for (int k = 0; k < n; ++k) p.H[i*n + k] = q.Q(i, k); }
        for (int i = 0; i < m; ++i) { Row r; r.lo = q.bl(i); r.hi = q.bu(i); r.sc = 1; for (int k = 0; k < n; ++k) r.a.push_back(q.A(i, k)); p.c.push_back(r); }
        Best b = best(p, Rng(c.idx*31 + t), Acc<R>::e(), 1, 1);
        if (b.rc == 0) for (int i = 0; i < n; ++i) { checkClose(c, x(i), b.x[i], b.tol[i] + 10*epsOf<R>(), "recovery", at + ": solution"); ++compared; c.count(failed ? "optima_after_failures" : "optima_before_failures"); }
      }
      else failed = true;
    }
    c.h(hist); c.h(n*10 + m); c.nontrivial = failed && compared; c.state(hist);
  }
  void fn(Case& c)
  {
    std::cerr.rdbuf(0);
    const bool f = c.r.p(0.2);
    switch (c.r.i(0, 6))
    {
      case 0: f ? layer<float>(c) : layer<double>(c); break;
      case 1: case 2: f ? trajectory<float>(c) : trajectory<double>(c); break;
      case 3: case 4: f ? mobile<float>(c) : mobile<double>(c); break;
      default: f ? humanoid<float>(c) : humanoid<double>(c);
    }
  }
}
VH_MAIN(fn)
