// C12: the walk alternates supports on schedule and previews exactly that schedule.
// needs: tools lineardynamic humanoid_foot_model interpolator convexpolygon humanoid_feet_supervisor
#include <walk.h>
#include <mpc-walkgen/humanoid_feet_supervisor.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    int k = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10, 20});
    const bool wide = c.r.p(0.06) && !isF<R>();
    int s = c.r.i(2, wide ? 20 : 6), d = c.r.i(1, wide ? 20 : 6);
    int N = c.r.i(std::max(s, 2), wide ? 60 : 16);
    R T = static_cast<R>(c.r.p(0.5) ? 0.01*c.r.i(5, 40) : c.r.u(0.05, 1.0));
    if (T/k < 2e-3) { T = static_cast<R>(k*5e-3); }
    R f = T/static_cast<R>(k);
    HumanoidFeetSupervisor<R> sup(c.r.p(0.5) ? 3 : N, c.r.p(0.5) ? T : static_cast<R>(1));
    // legal orders: the sampling period first, the lengths of the phases after it
    Walk w(N, k);
    // polygons with recognisable sizes
    const Pts kin[3] = {Pts(), rndPoly<R>(c, 0, 0, -0.2L, 0.2L, 0.1L, 5), rndPoly<R>(c, 0, 0, 0.2L, 0.25L, 0.12L, 5)};
    const Pts sole[3] = {Pts(), rndPoly<R>(c, 0, 0, 0, 0.1L, 0.05L, 5), rndPoly<R>(c, 0, 0, 0, 0.11L, 0.055L, 5)};
    sup.setNbSamples(N); sup.setSamplingPeriod(T);
    sup.setStepPeriod(static_cast<R>(s)*T); w.s = s;
    // the double support in force at the beginning was made with the period given to the constructor: take it over
    V X = V::Zero(2*N);
    sup.setLeftFootKinematicConvexPolygon(polyOf<R>(kin[1])); sup.setRightFootKinematicConvexPolygon(polyOf<R>(kin[2]));
    sup.setLeftFootCopConvexPolygon(polyOf<R>(sole[1])); sup.setRightFootCopConvexPolygon(polyOf<R>(sole[2]));
    sup.setInitialDoubleSupportLength(static_cast<R>(d)*T); w.d = d; w.rem = w.dur = (long)d*k;
    V q = V::Zero(3);
    const L foot[3][2] = {{0, 0}, {(R)0.25, (R)0.5}, {(R)-0.75, (R)-1.5}};
    q(0) = (R)foot[1][0]; sup.setLeftFootStateX(q); q(0) = (R)foot[1][1]; sup.setLeftFootStateY(q);
    q(0) = (R)foot[2][0]; sup.setRightFootStateX(q); q(0) = (R)foot[2][1]; sup.setRightFootStateY(q);
    const bool longRun = c.r.p(0.006) && !wide;
    const int ticks = longRun ? c.r.i(1000, 3000) : c.r.i(1, std::min(12*k*s, 400)); if (longRun) c.count("long_runs");
    c.desc << "N=" << N << " T=" << (double)T << " k=" << k << " step=" << s << " ds=" << d << " ticks=" << ticks << ":";
    uint64_t hist = 0;
    const double pm = c.r.pick(std::vector<double>{0.005, 0.02, 0.1, 0.4}), pc = c.r.p(0.4) ? 0.03 : 0, pt = c.r.p(0.3) ? 0.06 : 0;
    if (c.r.p(0.7)) { w.move = true; sup.setMove(true); c.desc << " +0"; }
    long since = 0;          // ticks spent in the current phase
    int lastSS = 0;          // foot of the previous single support of this walk
    int prevType = Walk::DS;
    for (int t = 0; t < ticks; ++t)
    {
      if (c.r.p(pm)) { w.move = !w.move; sup.setMove(w.move); c.desc << (w.move ? " +" : " -") << t; hist = mix(hist + t*2 + w.move); }
      if (c.r.p(pc))
      {
        const int n = c.r.i(2, N);
        if (w.canStep(n)) { sup.setStepPeriod(static_cast<R>(n)*T); w.setStep(n); s = n; c.desc << " s" << n << "@" << t; c.count("step_period_changes"); hist = mix(hist + 31*n + t); }
      }
      if (c.r.p(pc))
      {
        const int n = c.r.i(1, 6);
        if (w.canDs(n)) { sup.setInitialDoubleSupportLength(static_cast<R>(n)*T); w.setDs(n); d = n; c.desc << " d" << n << "@" << t; c.count("ds_length_changes"); hist = mix(hist + 37*n + t); }
      }
      if (c.r.p(pc))
      {
        const int lo = std::max(std::max(s, 2), (int)((w.rem + k - 1)/k)), n = c.r.i(lo, std::max(16, std::max(N, lo)));
        if (w.type == Walk::DS || n >= (w.dur + k - 1)/k)
        { sup.setNbSamples(n); N = w.N = n; X = V::Zero(2*N + 2*sup.getNbPreviewedSteps()); c.desc << " N" << n << "@" << t; c.count("resizes"); hist = mix(hist + 41*n + t); }
      }
      if (c.r.p(pt))
      {
        const int n = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10, 20});
        if (T/n >= 5e-3 && w.canTick(n)) { w.setTick(n); k = n; f = T/static_cast<R>(k); since = w.dur - w.rem; c.desc << " k" << n << "@" << t; c.count("feedback_period_changes"); hist = mix(hist + 43*n + t); }
      }
      const V before = X; const int Mb = (int)X.size()/2 - N;
      const int typeB = w.type;
      sup.updateTimeline(X, f);
      const bool popped = w.update();
      const std::string at = "update " + std::to_string(t);
      // automaton seen from outside
      int type = Walk::DS;
      if (!sup.isInDS()) { type = sup.getSupportFootStateX()(0) == (R)foot[2][0] && sup.getSupportFootStateY()(0) == (R)foot[2][1] ? Walk::RIGHT : Walk::LEFT; }
      if (type != w.type) c.fail("phase", at + ": support " + std::to_string(type) + " instead of " + std::to_string(w.type) + " (0 both, 1 left, 2 right)");
      // the rules of the walk, without the reference
      if (type != prevType)
      {
        if (!popped) c.fail("phase:early", at + ": the phase changed before its end");
        if (prevType == Walk::DS && type != Walk::LEFT) c.fail("phase:first", at + ": the walk does not start on the left foot");
        if (type != Walk::DS && type == lastSS) c.fail("phase:alternate", at + ": two single supports on the same foot");
        if (type == Walk::DS) { lastSS = 0; c.count("walks_ended"); } else { lastSS = type; c.count("single_supports"); }
        prevType = type;
      }
      else if (popped && type != Walk::DS) c.fail("phase:alternate", at + ": two single supports on the same foot");
      if (popped) { since = 0; }
      if (since > std::max(w.dur, 1L)) c.fail("phase:long", at + ": the phase lasts longer than configured");
      // timing
      const int calls = sup.getNbOfCallsBeforeNextSample();
      if (calls != w.first()) c.fail("calls", at + ": " + std::to_string(calls) + " calls before the next sample instead of " + std::to_string(w.first()));
      const int M = sup.getNbPreviewedSteps();
      if (M != (int)w.landings.size()) c.fail("steps", at + ": previewed steps " + std::to_string(M) + " instead of " + std::to_string(w.landings.size()));
      if (X.size() != 2*N + 2*M) c.fail("plan:size", at + ": plan of " + std::to_string(X.size()) + " elements for " + std::to_string(N) + " samples and " + std::to_string(M) + " steps");
      // preview
      const Eigen::MatrixXi& V0 = sup.getSelectionMatrices().V0; const Eigen::MatrixXi& VV = sup.getSelectionMatrices().V;
      const LinearDynamic<R>& fd = sup.getFeetPosLinearDynamic();
      if (V0.rows() != N || V0.cols() != 1 || VV.rows() != N || VV.cols() != M || fd.U.rows() != N || fd.U.cols() != M || fd.UT.rows() != M || fd.UT.cols() != N || fd.S.rows() != N)
        c.fail("selection:size", at + ": selection matrices " + std::to_string(V0.rows()) + ", " + std::to_string(VV.rows()) + "x" + std::to_string(VV.cols()));
      for (int i = 0; i < N; ++i)
      {
        for (int j = -1; j < M; ++j)
        {
          const int got = j < 0 ? V0(i) : VV(i, j), want = w.samples[i].col == j;
          if (got != want) c.fail("selection", at + ": sample " + std::to_string(i) + (got ? " stands" : " does not stand") + " on landing " + std::to_string(j) + " (" + std::to_string(w.samples[i].col) + " expected)");
          const R u = j < 0 ? fd.S(i) : fd.U(i, j);
          if (u != (R)want || (j >= 0 && fd.UT(j, i) != (R)want)) c.fail("selection:dynamic", at + ": feet dynamic of sample " + std::to_string(i) + " and landing " + std::to_string(j) + " is " + num(u));
        }
        // the support polygon of the sample is that of the phase in force
        const ConvexPolygon<R>& p = sup.getCopConvexPolygon(i);
        const int ty = w.samples[i].type;
        if (ty != Walk::DS)
        {
          bool eq = p.getVertices().size() == sole[ty].size();
          for (size_t e = 0; eq && e < sole[ty].size(); ++e) { bool f1 = false; for (size_t g2 = 0; g2 < sole[ty].size(); ++g2) f1 = f1 || (p.getVertices()[e](0) == (R)sole[ty][g2].first && p.getVertices()[e](1) == (R)sole[ty][g2].second); eq = f1; }
          if (!eq) c.fail("sample:polygon", at + ": sample " + std::to_string(i) + " does not use the sole of the " + (ty == 1 ? "left" : "right") + " foot");
        }
        else
        {
          // hull of both soles: as wide as the distance of the feet
          R lo = 1e9, hi = -1e9; for (size_t e = 0; e < p.getVertices().size(); ++e) { lo = std::min(lo, p.getVertices()[e](1)); hi = std::max(hi, p.getVertices()[e](1)); }
          if (w.type == Walk::DS && hi - lo < 1.5) c.fail("sample:polygon", at + ": sample " + std::to_string(i) + " in double support does not use both feet");
        }
        c.count("samples_checked");
      }
      for (int j = 0; j < M; ++j)
      {
        const ConvexPolygon<R>& p = sup.getKinematicConvexPolygon(j); const Pts& want = kin[w.landings[j]];
        bool eq = p.getVertices().size() == want.size();
        for (size_t e = 0; eq && e < want.size(); ++e) { bool f1 = false; for (size_t g2 = 0; g2 < want.size(); ++g2) f1 = f1 || (p.getVertices()[e](0) == (R)want[g2].first && p.getVertices()[e](1) == (R)want[g2].second); eq = f1; }
        if (!eq) c.fail("step:polygon", at + ": step " + std::to_string(j) + " does not use the kinematic polygon of the " + (w.landings[j] == 1 ? "left" : "right") + " foot");
      }
      const L S = w.first()/(L)k, tw = isF<R>() ? 2e-3L/std::min<L>(1, (L)f*10) : 1e-8L;
      const typename Type<R>::MatrixX& W = sup.getSampleWeightMatrix();
      if (W.rows() != N || W.cols() != N) c.fail("weight:size", at);
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
        checkClose(c, W(i, j), i != j ? 0 : i == 0 ? S : i == N - 1 ? 1.05L - S : 1, i == j && (i == 0 || i == N - 1) ? tw + 1e-6L : 0, "weight", at + ": weight (" + std::to_string(i) + "," + std::to_string(j) + ")");
      // the steps already planned are kept, in order, when time goes on
      const int off = popped && typeB != Walk::DS ? 1 : 0;
      for (int j = 0; j + off < Mb && j < M; ++j)
      {
        if (X(2*N + j) != before(2*N + j + off) || X(2*N + M + j) != before(2*N + Mb + j + off))
          c.fail("plan:kept", at + ": planned step " + std::to_string(j + off) + " was (" + num(before(2*N + j + off)) + "," + num(before(2*N + Mb + j + off)) + "), became (" + num(X(2*N + j)) + "," + num(X(2*N + M + j)) + ")");
        c.count("planned_steps_kept");
      }
      // a step which enters the preview starts inside the kinematic polygon of its supporting foot
      for (int j = std::max(0, Mb - off); j < M; ++j)
      {
        L ox, oy;
        if (j) { ox = X(2*N + j - 1); oy = X(2*N + M + j - 1); }
        else { const int sf = w.landings[0]; ox = foot[sf][0]; oy = foot[sf][1]; }
        const L dx = X(2*N + j) - ox, dy = X(2*N + M + j) - oy;
        if (j == 0 && w.type != Walk::DS) { continue; }
        const Pts& hp = kin[w.landings[j]];
        if (insideOf(hp, dx, dy) < -0.06L) c.fail("plan:new", at + ": new step " + std::to_string(j) + " at (" + num(dx) + "," + num(dy) + ") from its supporting foot");
        c.count("steps_entered");
      }
      for (int i = 0; i < 2*N; ++i) if (i < before.size() && X(i) != before(i)) c.fail("plan:cop", at + ": the planned CoP " + std::to_string(i) + " changed");
      c.state(w.key());
      c.max("previewed_steps", M);
      // some plan; feet are put back where they were so that they stay recognisable
      for (int i = 0; i < X.size(); ++i) { X(i) = (R)(i < 2*N ? c.r.u(-1, 1) : X(i) + c.r.u(-0.01, 0.01)); }
      sup.updateFeetStates(X.segment(2*N, 2*M), f); w.tick(); ++since;
      q.setZero();
      q(0) = (R)foot[1][0]; sup.setLeftFootStateX(q); q(0) = (R)foot[1][1]; sup.setLeftFootStateY(q);
      q(0) = (R)foot[2][0]; sup.setRightFootStateX(q); q(0) = (R)foot[2][1]; sup.setRightFootStateY(q);
      c.count("updates");
    }
    c.h(hist); c.h(N*1000 + k*100 + s*10 + d); c.h(ticks); c.h((uint64_t)(1e6*T)); c.nontrivial = ticks > 1;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
