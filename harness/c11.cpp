// C11: humanoid constraints keep CoPs in support polygons and steps reachable.
// needs: tools lineardynamic lip_model humanoid_foot_model interpolator convexpolygon humanoid_feet_supervisor humanoid_cop_constraint humanoid_foot_constraint
#include <walk.h>
#include <mpc-walkgen/function/humanoid_cop_constraint.h>
#include <mpc-walkgen/function/humanoid_foot_constraint.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  // constraints of a plan: rows g <= 0 and bounds inf <= 0 <= sup at the plan itself
  template <typename V> L violation(const V& f, const V& lo, const V& hi)
  {
    L v = -1e30L;
    for (int i = 0; i < f.size(); ++i) { if (!(f(i) == f(i))) return 1e30L; v = std::max(v, (L)f(i)); }
    for (int i = 0; i < lo.size(); ++i) { if (!(lo(i) == lo(i))) return 1e30L; if (lo(i) > -1e9) v = std::max(v, (L)lo(i)); }
    for (int i = 0; i < hi.size(); ++i) { if (!(hi(i) == hi(i))) return 1e30L; if (hi(i) < 1e9) v = std::max(v, -(L)hi(i)); }
    return v;
  }

  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::MatrixX MX;
    int k = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10});
    const bool wide = c.r.p(0.05) && !isF<R>();
    int s = c.r.i(2, wide ? 9 : 4), d = c.r.i(1, wide ? 9 : 4); int N = c.r.i(std::max(s, 2), wide ? 16 : 7);
    const R T = static_cast<R>(0.01*c.r.i(6, 25)); R f = T/static_cast<R>(k);
    const L dl = isF<R>() ? 2e-4L : 1e-6L;   // distance of the probes to the boundary
    LIPModel<R> lip(N, T, true);
    HumanoidFeetSupervisor<R> sup(N, T);
    HumanoidCopConstraint<R> cop(lip, sup);
    HumanoidFootConstraint<R> foot(lip, sup);
    Walk w(N, k);
    lip.setFeedbackPeriod(f);
    if (s != 2) { sup.setStepPeriod(static_cast<R>(s)*T); w.setStep(s); }
    if (d != 2) { sup.setInitialDoubleSupportLength(static_cast<R>(d)*T); w.setDs(d); }
    Pts kin[3], sole[3];   // 1 left, 2 right
    const int kindK = c.r.pick(std::vector<int>{0, 1, 2, 2}), kindS = c.r.pick(std::vector<int>{0, 1, 2, 2});
    auto setKin = [&](int a) { kin[a] = nearPoly<R>(c, kin[a], rndPoly<R>(c, kindK, c.r.u(-0.05, 0.05), a == 1 ? -0.2L : 0.2L, c.r.u(0.1, 0.3), c.r.u(0.05, 0.12)), kindK);
                               if (a == 1) sup.setLeftFootKinematicConvexPolygon(polyOf<R>(kin[a])); else sup.setRightFootKinematicConvexPolygon(polyOf<R>(kin[a])); };
    auto setSole = [&](int a) { sole[a] = nearPoly<R>(c, sole[a], rndPoly<R>(c, kindS, c.r.u(-0.03, 0.03), c.r.u(-0.03, 0.03), c.r.u(0.05, 0.12), c.r.u(0.03, 0.08)), kindS);
                                if (a == 1) sup.setLeftFootCopConvexPolygon(polyOf<R>(sole[a])); else sup.setRightFootCopConvexPolygon(polyOf<R>(sole[a])); };
    for (int a = 1; a < 3; ++a) { setKin(a); setSole(a); }
    L pos[3][2] = {{0}};
    auto feet = [&]() {
      V q = V::Zero(3);
      for (int a = 1; a < 3; ++a) for (int e = 0; e < 2; ++e)
      {
        q(0) = (R)(e == 0 ? c.r.u(-0.6, 0.6) : (a == 1 ? c.r.u(0.1, 0.5) : c.r.u(-0.5, -0.1))); pos[a][e] = q(0);
        if (a == 1 && e == 0) sup.setLeftFootStateX(q); else if (a == 1) sup.setLeftFootStateY(q); else if (e == 0) sup.setRightFootStateX(q); else sup.setRightFootStateY(q);
      } };
    feet();
    V X = V::Zero(2*N);
    const int ticks = c.r.i(1, 10*k*s > 80 ? 80 : 10*k*s);
    uint64_t hist = 0;
    c.desc << "N=" << N << " T=" << (double)T << " k=" << k << " step=" << s << " ds=" << d << " ticks=" << ticks << " shapes " << kindK << kindS << ":";
    const double pm = c.r.pick(std::vector<double>{0.02, 0.1, 0.3}), pe = ticks > 10 ? 0.3 : 1, pc = c.r.p(0.4) ? 0.05 : 0;
    const double pt = c.r.p(0.3) ? 0.1 : 0;
    if (c.r.p(0.8)) { w.move = true; sup.setMove(true); c.desc << " +0"; }
    for (int t = 0; t < ticks; ++t)
    {
      if (c.r.p(pm)) { w.move = !w.move; sup.setMove(w.move); c.desc << (w.move ? " +" : " -") << t; hist = mix(hist + t*2 + w.move); }
      if (c.r.p(pt))
      {
        const int n = c.r.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10});
        if (w.canTick(n)) { w.setTick(n); k = n; f = T/static_cast<R>(k); lip.setFeedbackPeriod(f); c.desc << " k" << n << "@" << t; c.count("feedback_period_changes"); hist = mix(hist + 43*n + t); }
      }
      if (c.r.p(0.08)) { const int a = c.r.i(1, 2); if (c.r.p(0.5)) setKin(a); else setSole(a); c.count("replaced_polygons"); }
      if (w.type == Walk::DS && c.r.p(0.05)) { feet(); }
      if (c.r.p(pc))
      {
        const int n = c.r.i(2, N);
        if (w.canStep(n)) { sup.setStepPeriod(static_cast<R>(n)*T); w.setStep(n); s = n; c.desc << " s" << n << "@" << t; c.count("step_period_changes"); hist = mix(hist + 31*n + t); }
      }
      if (c.r.p(pc))
      {
        const int n = c.r.i(1, 4);
        if (w.canDs(n)) { sup.setInitialDoubleSupportLength(static_cast<R>(n)*T); w.setDs(n); d = n; c.desc << " d" << n << "@" << t; c.count("ds_length_changes"); hist = mix(hist + 37*n + t); }
      }
      if (c.r.p(pc))
      {
        const int lo = std::max(std::max(s, 2), (int)((w.rem + k - 1)/k)), n = c.r.i(lo, std::max(lo, 7));
        if (w.type == Walk::DS || n >= (w.dur + k - 1)/k)
        {
          const int P = sup.getNbPreviewedSteps(); N = w.N = n; lip.setNbSamples(N); sup.setNbSamples(N); X = V::Zero(2*N + 2*P); cop.computeConstantPart();
          c.desc << " N" << n << "@" << t; c.count("resizes"); hist = mix(hist + 41*n + t);
        }
      }
      sup.updateTimeline(X, f); w.update();
      const int M = sup.getNbPreviewedSteps();
      if (M != (int)w.landings.size()) c.fail("steps", "previewed steps " + std::to_string(M) + " instead of " + std::to_string(w.landings.size()));
      if (c.r.p(0.05)) { setSole(c.r.i(1, 2)); c.count("replaced_polygons"); }   // also between two evaluations of one instant
      // where the feet are now
      pos[1][0] = sup.getLeftFootStateX()(0); pos[1][1] = sup.getLeftFootStateY()(0); pos[2][0] = sup.getRightFootStateX()(0); pos[2][1] = sup.getRightFootStateY()(0);
      if (t == 0 || c.r.p(pe))
      {
        const int sf = w.supportFoot();
        const L org[2] = {sf ? pos[sf][0] : (pos[1][0] + pos[2][0])/2, sf ? pos[sf][1] : (pos[1][1] + pos[2][1])/2};
        // support polygon of every sample relative to the point its CoP is given from
        std::vector<Pts> sp(N);
        bool clear = true;
        for (int i = 0; i < N; ++i)
        {
          const Sample& q = w.samples[i];
          if (q.type != Walk::DS) { sp[i] = sole[q.type]; continue; }
          L at[3][2]; std::memcpy(at, pos, sizeof at);
          L ref[2] = {org[0], org[1]};
          if (w.type != Walk::DS)
          {
            // a double support after the running step: the foot in the air has landed where planned
            const int sw = 3 - w.type;
            at[sw][0] = X(2*N); at[sw][1] = X(2*N + M); ref[0] = at[sw][0]; ref[1] = at[sw][1];
          }
          Pts all = shifted(sole[1], at[1][0] - ref[0], at[1][1] - ref[1]);
          const Pts o = shifted(sole[2], at[2][0] - ref[0], at[2][1] - ref[1]);
          all.insert(all.end(), o.begin(), o.end());
          if (!clearHull(all)) { clear = false; }
          sp[i] = hullOf(all);
        }
        if (!clear) { c.count("unclear_hulls"); }
        else
        {
          // the polygons themselves, asked for in any order
          for (int q = c.r.i(0, 2); q > 0; --q)
          {
            const int i = c.r.i(0, N - 1);
            const ConvexPolygon<R>& p = sup.getCopConvexPolygon(i);
            L far = 0;   // every corner close to a corner of the other polygon
            for (int way = 0; way < 2; ++way)
              for (size_t a = 0; a < (way ? sp[i].size() : p.getVertices().size()); ++a)
              {
                L near = 1e30L;
                for (size_t b = 0; b < (way ? p.getVertices().size() : sp[i].size()); ++b) { const typename Type<R>::Vector2& v = p.getVertices()[way ? b : a]; const std::pair<L, L>& z = sp[i][way ? a : b]; near = std::min(near, hypotl(v(0) - z.first, v(1) - z.second)); }
                far = std::max(far, near);
              }
            if (!(far <= (isF<R>() ? 1e-5L : 1e-12L))) c.fail("polygon", std::string("sample ") + std::to_string(i) + ": corners of the support polygon are up to " + num(far) + " away");
            c.count("polygons_compared");
          }
          // a plan in the middle of everything
          V mid = V::Zero(2*N + 2*M);
          for (int i = 0; i < N; ++i) { L x = 0, y = 0; for (size_t e = 0; e < sp[i].size(); ++e) { x += sp[i][e].first/sp[i].size(); y += sp[i][e].second/sp[i].size(); } mid(i) = (R)x; mid(N + i) = (R)y; }
          for (int j = 0; j < M; ++j)
          {
            const Pts& q = kin[w.landings[j]]; L x = 0, y = 0; for (size_t e = 0; e < q.size(); ++e) { x += q[e].first/q.size(); y += q[e].second/q.size(); }
            mid(2*N + j) = (R)((j ? (L)mid(2*N + j - 1) : org[0]) + x); mid(2*N + M + j) = (R)((j ? (L)mid(2*N + M + j - 1) : org[1]) + y);
          }
          auto bad = [&](const V& x, int what) {
            const V fn = what ? foot.getFunction(x) : cop.getFunction(x);
            const V lo = what ? foot.getInfBounds(x) : cop.getInfBounds(x), hi = what ? foot.getSupBounds(x) : cop.getSupBounds(x);
            const int n = what ? foot.getNbConstraints() : cop.getNbConstraints(), nb = what ? 2*M : 2*N;
            if (fn.size() != n || lo.size() != nb || hi.size() != nb) c.fail(what ? "foot:size" : "cop:size", "sizes " + std::to_string(fn.size()) + "/" + std::to_string(n) + " and " + std::to_string(lo.size()) + "/" + std::to_string(nb));
            return violation(fn, lo, hi); };
          auto nameOf = [&](int i) { std::string y = w.samples[i].type == 0 ? "double" : w.samples[i].type == 1 ? "left" : "right"; return "sample " + std::to_string(i) + " in " + y + " support"; };
          if (bad(mid, 0) > 0) c.fail("cop:rejects", "the plan with every CoP in the middle of its support polygon is rejected by " + num(bad(mid, 0)));
          if (bad(mid, 1) > 0) c.fail("foot:rejects", "the plan with every step in the middle of its kinematic polygon is rejected by " + num(bad(mid, 1)));
          // one point at a time around its whole boundary
          const int i = c.r.i(0, N - 1);
          for (size_t e = 0; e < sp[i].size(); ++e)
          {
            const std::pair<L, L>&a = sp[i][e], &b = sp[i][(e + 1)%sp[i].size()];
            const L l = hypotl(b.first - a.first, b.second - a.second), nx = (b.second - a.second)/l, ny = -(b.first - a.first)/l;
            const L u = c.r.p(0.3) ? 0 : c.r.u(0, 1);
            const L px = a.first + u*(b.first - a.first), py = a.second + u*(b.second - a.second);
            V x = mid;
            // towards the centre, then away from the edge
            const L qx = px + (mid(i) - px)*(dl/0.02L), qy = py + (mid(N + i) - py)*(dl/0.02L);
            x(i) = (R)qx; x(N + i) = (R)qy;
            const L m = insideOf(sp[i], x(i), x(N + i));
            if (m > dl*1e-3L && bad(x, 0) > dl*1e-4L) c.fail("cop:rejects", nameOf(i) + ": CoP inside by " + num(m) + " is rejected by " + num(bad(x, 0)));
            x(i) = (R)(px + dl*nx); x(N + i) = (R)(py + dl*ny);
            if (bad(x, 0) <= 0) c.fail("cop:accepts", nameOf(i) + ": CoP outside by " + num(-insideOf(sp[i], x(i), x(N + i))) + " is accepted");
            c.count("cop_probes", 2);
          }
          if (M > 0)
          {
            const int j = c.r.p(0.5) ? 0 : c.r.i(0, M - 1);
            const Pts& q = kin[w.landings[j]];
            for (size_t e = 0; e < q.size(); ++e)
            {
              const std::pair<L, L>&a = q[e], &b = q[(e + 1)%q.size()];
              const L l = hypotl(b.first - a.first, b.second - a.second), nx = (b.second - a.second)/l, ny = -(b.first - a.first)/l;
              const L u = c.r.p(0.3) ? 0 : c.r.u(0, 1);
              const L px = a.first + u*(b.first - a.first), py = a.second + u*(b.second - a.second);
              const L ox = j ? (L)mid(2*N + j - 1) : org[0], oy = j ? (L)mid(2*N + M + j - 1) : org[1];
              for (int out = 0; out < 2; ++out)
              {
                const L cx = (L)mid(2*N + j) - ox, cy = (L)mid(2*N + M + j) - oy;
                const L tx = out ? px + dl*nx : px + (cx - px)*(dl/0.02L), ty = out ? py + dl*ny : py + (cy - py)*(dl/0.02L);
                V x = mid; const R sx = (R)(ox + tx) - mid(2*N + j), sy = (R)(oy + ty) - mid(2*N + M + j);
                for (int r = j; r < M; ++r) { x(2*N + r) += sx; x(2*N + M + r) += sy; }   // the later steps keep their offsets
                const L m = insideOf(q, (L)x(2*N + j) - ox, (L)x(2*N + M + j) - oy);
                const L v = bad(x, 1);
                const std::string nm = "step " + std::to_string(j) + " from the " + (w.landings[j] == 1 ? "left" : "right") + " foot";
                if (m > dl*2e-2L && v > dl*1e-2L) c.fail("foot:rejects", nm + ": inside by " + num(m) + " is rejected by " + num(v));
                if (m < -dl*0.5L && v <= 0) c.fail("foot:accepts", nm + ": outside by " + num(-m) + " is accepted");
                c.count("foot_probes");
              }
            }
          }
          // rows and bounds move with the plan as their gradient says
          V x0 = mid; for (int q = 0; q < x0.size(); ++q) { x0(q) += (R)c.r.u(-0.3, 0.3); }
          V dx = rndVec<R>(c, 2*N + 2*M, 0.5);
          const V x1 = x0 + dx;
          const L tol = isF<R>() ? 1e-5L : 1e-13L;
          for (int what = 0; what < 2; ++what)
          {
            const V f0 = what ? foot.getFunction(x0) : cop.getFunction(x0);
            const MX A = what ? foot.getGradient(x0.size()) : cop.getGradient(x0.size());
            const V f1 = what ? foot.getFunction(x1) : cop.getFunction(x1);
            if (A.rows() != f0.size() || A.cols() != x0.size()) c.fail(what ? "foot:size" : "cop:size", "gradient " + std::to_string(A.rows()) + "x" + std::to_string(A.cols()));
            const V fp = f0 + A*dx;
            for (int r = 0; r < f0.size(); ++r) checkClose(c, f1(r), fp(r), tol*20, what ? "foot:gradient" : "cop:gradient", "constraint " + std::to_string(r) + " after a change of the plan");
            const V l0 = what ? foot.getInfBounds(x0) : cop.getInfBounds(x0), l1 = what ? foot.getInfBounds(x1) : cop.getInfBounds(x1);
            const V h0 = what ? foot.getSupBounds(x0) : cop.getSupBounds(x0), h1 = what ? foot.getSupBounds(x1) : cop.getSupBounds(x1);
            for (int r = 0; r < l0.size(); ++r)
            {
              if (what && r%M != 0) { continue; }  // the bounds of later steps follow the previous step
              const L del = dx((what ? 2*N : 0) + r);
              if (l0(r) > -1e9 || l1(r) > -1e9) checkClose(c, l1(r), (L)l0(r) - del, tol*20, what ? "foot:bounds" : "cop:bounds", "lower bound " + std::to_string(r) + " after a change of the plan");
              if (h0(r) < 1e9 || h1(r) < 1e9) checkClose(c, h1(r), (L)h0(r) - del, tol*20, what ? "foot:bounds" : "cop:bounds", "upper bound " + std::to_string(r) + " after a change of the plan");
            }
          }
          c.state(w.key());
          c.count(std::string("phase_") + (w.type == Walk::DS ? "ds" : w.type == Walk::LEFT ? "left" : "right") + (w.move ? "_moving" : "_stopping"));
        }
      }
      // landings stay reachable
      for (int j = 0; j < M; ++j)
      {
        const Pts& q = kin[w.landings[j]]; L x = 0, y = 0; for (size_t e = 0; e < q.size(); ++e) { x += q[e].first/q.size(); y += q[e].second/q.size(); }
        const int sf = w.supportFoot();
        const L ox = j ? (L)X(2*N + j - 1) : sf ? pos[sf][0] : 0, oy = j ? (L)X(2*N + M + j - 1) : sf ? pos[sf][1] : 0;
        X(2*N + j) = (R)(ox + x + c.r.u(-0.02, 0.02)); X(2*N + M + j) = (R)(oy + y + c.r.u(-0.02, 0.02));
      }
      sup.updateFeetStates(X.segment(2*N, 2*M), f); w.tick();
    }
    c.h(hist); c.h(N*1000 + k*100 + s*10 + d); c.h(ticks); c.h((uint64_t)(1e6*T)); c.nontrivial = ticks > 1;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
