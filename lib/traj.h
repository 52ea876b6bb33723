// The configuration of a trajectory generator.
#pragma once
#include <qpref.h>
#include <mpc-walkgen/trajectory_walkgen.h>

namespace vh
{
  template <typename R>
  struct Traj
  {
    typedef typename Type<R>::VectorX V; typedef MPCWalkgen::TrajectoryWalkgen<R> Gen;
    enum Field { NBS, PERIOD, VELREF, POSREF, VELLIM, ACCLIM, JERKLIM, STATE, WEIGHTS, CONFIG, FIELDS };
    static const char* name(int f) { static const char* n[] = {"N", "T", "velRef", "posRef", "velLimit", "accLimit", "jerkLimit", "state", "weights", "config"}; return n[f]; }
    int N; R T, vL, aL, jL; V vr, pr, s; MPCWalkgen::TrajectoryWalkgenWeighting<R> w; MPCWalkgen::TrajectoryWalkgenConfig<R> q; double amp;
    explicit Traj(Case& c) : amp(c.r.pick(std::vector<double>{0.2, 1, 3}))
    { T = vL = aL = jL = (R)NAN; N = c.r.i(1, 10); for (int f = 1; f < FIELDS; ++f) pick(c, f); }
    std::vector<int> pick(Case& c, int f)
    {
      std::vector<int> ch(1, f);
      switch (f)
      {
        case NBS: N = c.r.i(1, 10); pick(c, VELREF); pick(c, POSREF); ch.push_back(VELREF); ch.push_back(POSREF); break;
        case PERIOD: T = near<R>(c, T, static_cast<R>(c.r.p(0.4) ? 0.1 : c.r.u(0.05, 0.4))); break;
        case VELREF: vr = near<R>(c, vr, rndRef<R>(c, N, amp, 1)); break;
        case POSREF: pr = near<R>(c, pr, rndRef<R>(c, N, amp, 1)); break;
        case VELLIM: vL = near<R>(c, vL, (R)c.r.u(0.4, 3)); break;
        case ACCLIM: aL = near<R>(c, aL, (R)c.r.u(0.5, 6)); break;
        case JERKLIM: jL = near<R>(c, jL, (R)c.r.u(2, 60)); break;
        case STATE: s = near<R>(c, s, rndState<R>(c, amp, 0.3, 0.3)); break;
        case WEIGHTS: w.velocityTracking = (R)std::pow(10, c.r.u(-2, 2)); w.positionTracking = c.r.p(0.2) ? 0 : (R)std::pow(10, c.r.u(-2, 2)); w.jerkMinimization = (R)std::pow(10, c.r.u(isF<R>() ? -2 : -4, 0));
          // only their ratios matter
          { const R k = (R)std::pow(10, c.r.p(0.2) ? c.r.u(-5, 2) : 0); w.velocityTracking *= k; w.positionTracking *= k; w.jerkMinimization *= k; } break;
        default: q.withMotionConstraints = c.r.p(0.7);
      }
      return ch;
    }
    void apply(Gen& g, int f) const
    {
      switch (f)
      {
        case NBS: g.setNbSamples(N); break;
        case PERIOD: g.setSamplingPeriod(T); break;
        case VELREF: g.setVelRefInWorldFrame(vr); break;
        case POSREF: g.setPosRefInWorldFrame(pr); break;
        case VELLIM: g.setVelLimit(vL); break;
        case ACCLIM: g.setAccLimit(aL); break;
        case JERKLIM: g.setJerkLimit(jL); break;
        case STATE: g.setState(s); break;
        case WEIGHTS: g.setWeightings(w); break;
        default: g.setConfig(q);
      }
    }
    std::vector<int> order(Case& c) const
    {
      std::vector<int> a; for (int f = 0; f < FIELDS; ++f) a.push_back(f);
      for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[c.r.i(0, (int)i - 1)]);
      // the references after the number of samples
      std::vector<int> b; for (size_t i = 0; i < a.size(); ++i) { if (a[i] == VELREF || a[i] == POSREF) continue; b.push_back(a[i]); }
      size_t m = 0; while (b[m] != NBS) ++m;
      b.insert(b.begin() + c.r.i((int)m + 1, (int)b.size()), VELREF); b.insert(b.begin() + c.r.i((int)m + 1, (int)b.size()), POSREF);
      return b;
    }
    void applyAll(Gen& g, Case& c) const { const std::vector<int> o = order(c); for (size_t i = 0; i < o.size(); ++i) apply(g, o[i]); }
    void read(const Gen& g) { s = g.getState(); }
    Qp program() const
    {
      Qp p(N); const Mot m0 = mot(s);
      const Aff vel([&](const Vec& u) { Vec o; const std::vector<Mot> m = preview(m0, u, T, T); for (int i = 0; i < N; ++i) o.push_back(m[i].v); return o; }, N);
      const Aff acc([&](const Vec& u) { Vec o; const std::vector<Mot> m = preview(m0, u, T, T); for (int i = 0; i < N; ++i) o.push_back(m[i].a); return o; }, N);
      Aff ev(vel), ep([&](const Vec& u) { Vec o; const std::vector<Mot> m = preview(m0, u, T, T); for (int i = 0; i < N; ++i) o.push_back(m[i].p); return o; }, N);
      for (int i = 0; i < N; ++i) { ev.r0[i] -= vr(i); ep.r0[i] -= pr(i); }
      const Aff ej([&](const Vec& u) { return u; }, N);
      ev.cancel = std::fabs(m0.v) + std::fabs(m0.a)*N*T + amp; ep.cancel = std::fabs(m0.p) + ev.cancel*N*T + amp;
      p.cost(ev, w.velocityTracking); p.cost(ep, w.positionTracking); p.cost(ej, w.jerkMinimization);
      if (q.withMotionConstraints)
      {
        p.rows(vel, -vL, vL); p.rows(acc, -aL, aL);
        for (int i = 0; i < N; ++i) { p.lb[i] = -jL; p.ub[i] = jL; }
      }
      return p;
    }
  };
}
