// C10: humanoid objectives are derivatives of the true CoM and CoP costs of the plan.
// needs: tools lineardynamic lip_model humanoid_foot_model interpolator convexpolygon humanoid_feet_supervisor humanoid_cop_centering_objective humanoid_lip_com_jerk_minimization_objective humanoid_lip_com_velocity_tracking_objective
#include <walk.h>
#include <mpc-walkgen/function/humanoid_cop_centering_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_jerk_minimization_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_velocity_tracking_objective.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R> L tolOf() { return isF<R>() ? 2e-3L : 2e-7L; }

  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    int k = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10, 20});
    const bool wide = c.r.p(0.05) && !isF<R>();
    int s = c.r.i(2, wide ? 9 : 4), d = c.r.i(1, wide ? 9 : 4);
    int N = c.r.i(std::max(s, 2), wide && !isF<R>() ? 14 : std::max(s, 7));
    const R T = static_cast<R>(0.01*c.r.i(6, 25)); R f = T/static_cast<R>(k);
    LIPModel<R> lip(N, T, true);
    HumanoidFeetSupervisor<R> sup(N, T);
    HumanoidCopCenteringObjective<R> oc(lip, sup);
    HumanoidLipComJerkMinimizationObjective<R> oj(lip, sup);
    HumanoidLipComVelocityTrackingObjective<R> ov(lip, sup);
    Walk w(N, k);
    L g[3] = {0, 0, 0}; for (int i = 0; i < 3; ++i) g[i] = lip.getGravity()(i);
    R h = 1;
    lip.setFeedbackPeriod(f);
    if (s != 2) { sup.setStepPeriod(static_cast<R>(s)*T); w.setStep(s); }
    if (d != 2) { sup.setInitialDoubleSupportLength(static_cast<R>(d)*T); w.setDs(d); }
    if (c.r.p(0.8)) { h = near<R>(c, h, static_cast<R>(c.r.u(0.5, 1.3))); lip.setComHeight(h); }
    if (c.r.p(0.3)) { const V3 q(static_cast<R>(c.r.u(-2, 2)), static_cast<R>(c.r.u(-2, 2)), static_cast<R>(c.r.u(5, 12))); lip.setGravity(q); for (int i = 0; i < 3; ++i) g[i] = q(i); }
    sup.setLeftFootKinematicConvexPolygon(polyOf<R>(rndPoly<R>(c, 2, 0, -0.2L, 0.2L, 0.1L)));
    sup.setRightFootKinematicConvexPolygon(polyOf<R>(rndPoly<R>(c, 2, 0, 0.2L, 0.2L, 0.1L)));
    auto feet = [&]() {
      V q = V::Zero(3);
      q(0) = (R)c.r.u(-1, 1); sup.setLeftFootStateX(q); q(0) = (R)c.r.u(0, 1); sup.setLeftFootStateY(q);
      q(0) = (R)c.r.u(-1, 1); sup.setRightFootStateX(q); q(0) = (R)c.r.u(-1, 0); sup.setRightFootStateY(q); };
    feet();
    Vec ref(2*N, 0);
    V vr = rndRef<R>(c, N, 0.5); ov.setVelRefInWorldFrame(vr); ref = toVec(vr);
    V X = V::Zero(2*N);
    const int ticks = c.r.i(1, c.r.p(0.3) ? 10*k*s : std::min(6*k*s, 60));
    uint64_t hist = 0;
    c.desc << "N=" << N << " T=" << (double)T << " k=" << k << " step=" << s << " ds=" << d << " ticks=" << ticks << " moves:";
    const double pm = c.r.pick(std::vector<double>{0.02, 0.1, 0.3}), pe = ticks > 12 ? c.r.pick(std::vector<double>{0.08, 0.25, 0.25}) : 1, pc = c.r.p(0.5) ? 0.06 : 0;
    const double pt = c.r.p(0.3) ? 0.1 : 0;
    if (c.r.p(0.8)) { w.move = true; sup.setMove(true); c.desc << " +0"; }
    for (int t = 0; t < ticks; ++t)
    {
      if (c.r.p(pm)) { w.move = !w.move; sup.setMove(w.move); c.desc << (w.move ? " +" : " -") << t; hist = mix(hist + t*2 + w.move); }
      if (c.r.p(pt))
      {
        const int n = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10, 20});
        if (w.canTick(n)) { w.setTick(n); k = n; f = T/static_cast<R>(k); lip.setFeedbackPeriod(f); c.desc << " k" << n << "@" << t; c.count("feedback_period_changes"); hist = mix(hist + 43*n + t); }
      }
      if (c.r.p(pc))
      {
        const int lo = std::max(std::max(s, 2), (int)((w.rem + k - 1)/k)), n = c.r.i(lo, std::max(lo, 7));
        if (w.type == Walk::DS || n >= (w.dur + k - 1)/k)
        {
          const int P = sup.getNbPreviewedSteps(); N = w.N = n; lip.setNbSamples(N); sup.setNbSamples(N); X = V::Zero(2*N + 2*P); vr = rndRef<R>(c, N, 0.5); ov.setVelRefInWorldFrame(vr); ref = toVec(vr);
          c.desc << " N" << n << "@" << t; c.count("resizes"); hist = mix(hist + 41*n + t);
        }
      }
      // now and then the plan is looked at again after a change of settings at one instant
      const bool twice = c.r.p(2*pc);
      for (int again = twice ? 2 : 1; again > 0; --again)
      {
      if (c.r.p(again == 1 && twice ? 0.5 : pc))
      {
        const int n = c.r.i(2, N);
        if (w.canStep(n)) { sup.setStepPeriod(static_cast<R>(n)*T); w.setStep(n); s = n; c.desc << " s" << n << "@" << t; c.count("step_period_changes"); hist = mix(hist + 31*n + t); }
      }
      if (c.r.p(again == 1 && twice ? 0.5 : pc))
      {
        const int n = c.r.i(1, 4);
        if (w.canDs(n)) { sup.setInitialDoubleSupportLength(static_cast<R>(n)*T); w.setDs(n); d = n; c.desc << " d" << n << "@" << t; c.count("ds_length_changes"); hist = mix(hist + 37*n + t); }
      }
      sup.updateTimeline(X, f); w.update();
      const int M = sup.getNbPreviewedSteps();
      if (M != (int)w.landings.size()) c.fail("steps", "previewed steps " + std::to_string(M) + " instead of " + std::to_string(w.landings.size()));
      if (X.size() != 2*N + 2*M) c.fail("size", "plan of " + std::to_string(X.size()) + " elements");
      if (t == 0 || twice || c.r.p(pe))
      {
        if (c.r.p(0.5)) { lip.setStateX(near<R>(c, lip.getStateX(), rndState<R>(c, 1, 0.5, 0.5))); lip.setStateY(near<R>(c, lip.getStateY(), rndState<R>(c, 1, 0.5, 0.5))); }
        if (c.r.p(0.3)) { vr = near<R>(c, vr, rndRef<R>(c, N, 0.5)); ov.setVelRefInWorldFrame(vr); ref = toVec(vr); }
        if (c.r.p(0.1)) { h = near<R>(c, h, static_cast<R>(c.r.u(0.5, 1.3))); lip.setComHeight(h); }
        if (c.r.p(0.1) && w.type == Walk::DS) { feet(); }
        const L lf[2] = {sup.getLeftFootStateX()(0), sup.getLeftFootStateY()(0)}, rf[2] = {sup.getRightFootStateX()(0), sup.getRightFootStateY()(0)};
        const int sf = w.supportFoot();
        const L S = (L)f*w.first();
        const Mot m0[2] = {mot(lip.getStateX()), mot(lip.getStateY())};
        auto jerk = [&](const Vec& u, int a) {
          Vec z;
          for (int i = 0; i < N; ++i)
          {
            const int col = w.samples[i].col;
            const L p = col >= 0 ? u[2*N + a*M + col] : sf == Walk::LEFT ? lf[a] : sf == Walk::RIGHT ? rf[a] : (lf[a] + rf[a])/2;
            z.push_back(u[a*N + i] + p);
          }
          return jerksOf(m0[a], z, S, T, h, g[a], g[2]); };
        const Aff aj([&](const Vec& u) { Vec o = jerk(u, 0); const Vec y = jerk(u, 1); o.insert(o.end(), y.begin(), y.end()); return o; }, 2*N + 2*M);
        Aff av([&](const Vec& u) {
          Vec o;
          for (int a = 0; a < 2; ++a) { const std::vector<Mot> p = preview(m0[a], jerk(u, a), S, T); for (int i = 0; i < N; ++i) o.push_back(p[i].v); }
          return o; }, 2*N + 2*M);
        av.cancel = av.maxR() + 1;
        for (int i = 0; i < 2*N; ++i) { av.r0[i] -= ref[i]; }
        const Aff ac([&](const Vec& u) { return vh::sub(u, 0, 2*N); }, 2*N + 2*M);
        Vec wt(2*N, 1);
        for (int a = 0; a < 2; ++a) { wt[a*N] = S/T; wt[a*N + N - 1] = 1.05L - S/T; }
        const V x0 = rndVec<R>(c, 2*N + 2*M, c.r.pick(std::vector<double>{0, 0.2, 1}));
        const Vec x = toVec(x0);
        const L tol = tolOf<R>();
        // the jerk residual divides by the small response of the CoP to the jerk
        Aff jj = aj; jj.cancel = aj.maxJ();
        const int order = c.r.i(0, 5);
        for (int q = 0; q < 3; ++q)
        {
          const int o = (order + q*(order > 2 ? 2 : 1))%3;
          const bool gf = c.r.p(0.5);
          if (o == 0) { if (gf) { oc.getGradient(x0); } checkQuad<R>(c, oc.getHessian(), oc.getGradient(x0), x, ac, "cop", "CoP centring", isF<R>() ? 1e-6L : 1e-14L); }
          if (o == 1) { if (gf) { oj.getGradient(x0); } checkQuad<R>(c, oj.getHessian(), oj.getGradient(x0), x, jj, "jerk", "CoM jerk", tol, &wt); }
          if (o == 2) { if (gf) { ov.getGradient(x0); } checkQuad<R>(c, ov.getHessian(), ov.getGradient(x0), x, av, "velocity", "CoM velocity", tol, &wt); }
        }
        c.state(w.key());
        c.count(std::string("phase_") + (w.type == Walk::DS ? "ds" : w.type == Walk::LEFT ? "left" : "right") + (w.move ? "_moving" : "_stopping"));
        c.max("previewed_steps", M);
      }
      }
      // the plan for the next step changes at every tick
      const int M = sup.getNbPreviewedSteps();
      V st = X.segment(2*N, 2*M);
      for (int i = 0; i < 2*M; ++i) { st(i) += (R)c.r.u(-0.05, 0.05); }
      sup.updateFeetStates(st, f); w.tick();
      if (c.r.p(0.3)) { lip.updateStateX((R)c.r.u(-1, 1), f); lip.updateStateY((R)c.r.u(-1, 1), f); }
    }
    c.h(hist); c.h(N*1000 + k*100 + s*10 + d); c.h(ticks); c.h((uint64_t)(1e6*T)); c.nontrivial = ticks > 1;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
