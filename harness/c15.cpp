// C15: the mobile-base generator returns the optimum within limits at every cycle.
// needs: all
#include <zeb.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R>
  void one(Case& c)
  {
    typedef Zeb<R> Z; typedef typename Type<R>::VectorX V;
    const bool longRun = c.r.p(0.006);      // one generator used for a long time
    Z z(c, longRun ? 2 : c.r.p(0.1) ? 10 : 6);
    typename Z::Gen g;
    z.applyAll(g, c);
    const int cycles = longRun ? c.r.i(270, 400) : c.r.i(1, 10); if (longRun) c.count("long_runs");
    int k = c.r.pick(std::vector<int>{1, 2, 3, 5, 7, 10, 40, 100});
    const double pe = c.r.pick(longRun ? std::vector<double>{0.005, 0.02} : std::vector<double>{0, 0.15, 0.5});
    Watch watch; uint64_t hist = 0; long compared = 0; L past = 0;
    c.desc << "N=" << z.N << " T=" << (double)z.T << " k=" << k << " cycles=" << cycles << " " << (z.massless ? "massless base" : "two masses") << (z.withTilt ? " tilt" : "") << ":";
    for (int t = 0; t < cycles; ++t)
    {
      const std::string at = "cycle " + std::to_string(t);
      for (int o = 0; o < 3; ++o) if (t && c.r.p(pe))
      {
        std::vector<int> ch = z.pick(c, c.r.i(0, Z::FIELDS - 1));
        for (size_t i = 0; i < ch.size(); ++i) { z.apply(g, ch[i]); hist = mix(hist*31 + ch[i] + t); }
        c.desc << " " << t << "/" << Z::name(ch[0]); c.count(std::string("set_") + Z::name(ch[0]));
      }
      if (c.r.p(0.1)) { k = c.r.pick(std::vector<int>{1, 2, 3, 5, 7, 10, 40, 100}); }
      const R f = z.T/static_cast<R>(k);
      if (z.tilting() && !zTiltMeaningful(z.robot())) { c.count("too_fast_tilts"); break; }
      const Qp p = z.program();
      const V before[4] = {z.s[0], z.s[1], z.s[2], z.s[3]};
      const bool ok = g.solve(f);
      z.read(g);
      c.count("cycles"); c.max("cycles_in_a_run", t + 1);
      const L e = isF<R>() ? 1e-6L : 1e-13L, mar = isF<R>() ? 1e-3L : 1e-8L;
      Best b = best(p, Rng(c.seed*1000003 + c.idx*101 + t), e, past, 2);
      const std::string odd = contradiction(p, ok, b, watch, e, mar);
      if (!odd.empty()) c.fail(ok ? "success" : "failure", at + ": " + odd);
      if (!ok) { c.count(watch.rc == 64 ? "undecided_by_solver" : "infeasible_cycles"); break; }
      // (inconsistent or nearly dependent rows: any control, however large)
      if (std::max(b.scale, watch.big) > 2000) { c.count("exploding_cycles"); break; }
      past = std::max(past, b.scale);
      for (int a = 0; a < 4; ++a)
      {
        static const char* nm[4] = {"body x", "body y", "base x", "base y"};
        const std::string who = at + " " + nm[a];
        const Mot m0 = mot(before[a]);
        // the jerk which was applied, from the acceleration; the rest of the state must follow from it exactly
        const L j = ((L)z.s[a](2) - m0.a)/f, ej = 4*epsOf<R>()*(std::fabs(m0.a) + std::fabs((L)z.s[a](2)))/f;
        const Mot m1 = step(m0, j, f);
        const L te = 20*epsOf<R>();
        checkClose(c, z.s[a](0), m1.p, te*(std::fabs(m0.p) + std::fabs(m0.v*f) + std::fabs(m0.a*f*f) + std::fabs(j*f*f*f) + 1e-9L) + ej*f*f*f, "state", who + " position");
        checkClose(c, z.s[a](1), m1.v, te*(std::fabs(m0.v) + std::fabs(m0.a*f) + std::fabs(j*f*f) + 1e-9L) + ej*f*f, "state", who + " velocity");
        if (b.rc) { continue; }
        const int v = a*z.N;
        if (b.tol[v] > 0.02L*(b.scale + 0.05L)) { c.count("illconditioned_jerks"); continue; }
        checkClose(c, j, b.x[v], b.tol[v] + ej, "optimum", who + " jerk (" + std::to_string(b.active) + " active constraints, N=" + std::to_string(z.N) + ")");
        c.count("jerks_compared"); ++compared;
      }
      if (b.rc) { c.count("undecided_cycles"); continue; }
      if (b.active) { c.count("cycles_with_active_constraints"); }
      if (z.q.withTiltMotionConstraints) { c.count("cycles_tilt_heading"); }
      if (z.tilting()) { c.count("cycles_tilt_costs"); }
      if (z.world) { c.count("cycles_world_reference"); }
      c.state(mix(hist + b.active*131 + z.N)); c.max("active", b.active);
    }
    c.h(hist); c.h(z.N*1000 + k); c.h((uint64_t)(1e6*z.T)); c.nontrivial = compared > 0;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
