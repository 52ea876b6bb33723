// C06: tracking and jerk objectives are derivatives of the squared previewed error.
// needs: tools lineardynamic lip_model zebulon_base_model no_dynamic_model convexpolygon zebulon_base_position_tracking_objective zebulon_base_velocity_tracking_objective zebulon_jerk_minimization_objective trajectory_position_tracking_objective trajectory_velocity_tracking_objective trajectory_jerk_minimization_objective
#include <ref.h>
#include <memory>
#include <mpc-walkgen/function/zebulon_base_position_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_jerk_minimization_objective.h>
#include <mpc-walkgen/function/trajectory_position_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_velocity_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_jerk_minimization_objective.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R> L tolOf() { return isF<R>() ? 3e-5L : 1e-12L; }
  double pickT(Case& c) { return c.r.p(0.3) ? c.r.u(0.02, 0.8) : 0.01*c.r.i(2, 60); }

  // residual along one axis: order 0 position, 1 velocity
  Vec axis(const Mot& m0, const Vec& j, L T, int order, const Vec& ref)
  {
    const std::vector<Mot> p = preview(m0, j, T, T);
    Vec r;
    for (size_t i = 0; i < p.size(); ++i) { r.push_back((order == 0 ? p[i].p : p[i].v) - ref[i]); }
    return r;
  }

  // magnitude of the terms of such a residual, which may cancel
  L terms(const Mot& m, L T, int order, const Vec& ref)
  {
    const L t = T*(L)ref.size(); L r = 0; for (size_t i = 0; i < ref.size(); ++i) r = std::max(r, std::fabs(ref[i]));
    return r + (order == 0 ? std::fabs(m.p) + std::fabs(m.v)*t + std::fabs(m.a)*t*t/2 : std::fabs(m.v) + std::fabs(m.a)*t);
  }

  template <typename R>
  void base(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    int N = c.r.tail(1, 12, 40); R T = static_cast<R>(pickT(c));
    BaseModel<R> m(N, T, true);
    LIPModel<R> lip(N, T, true);
    BasePositionTrackingObjective<R> op(m);
    BaseVelocityTrackingObjective<R> ov(m);
    JerkMinimizationObjective<R> oj(lip, m);
    V pr = V::Zero(2*N), vr = V::Zero(2*N);  // default references
    if (c.r.p(0.8)) { pr = near<R>(c, pr, rndRef<R>(c, N, 3)); op.setPosRefInWorldFrame(pr); vr = near<R>(c, vr, rndRef<R>(c, N, 3)); ov.setVelRefInWorldFrame(vr); }
    const int ops = c.r.i(1, 12);
    uint64_t hist = 0;
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 7);
      hist = mix(hist*31 + k); c.desc << " " << k;
      switch (k)
      {
        case 0: m.setStateX(near<R>(c, m.getStateX(), rndState<R>(c, 3, 2, 2))); break;
        case 1: m.setStateY(near<R>(c, m.getStateY(), rndState<R>(c, 3, 2, 2))); break;
        case 2: pr = near<R>(c, pr, rndRef<R>(c, N, 3)); op.setPosRefInWorldFrame(pr); break;
        case 3: vr = near<R>(c, vr, rndRef<R>(c, N, 3)); ov.setVelRefInWorldFrame(vr); break;
        case 4: m.updateStateX(static_cast<R>(c.r.u(-3, 3)), T/2); break;
        case 5: m.updateStateY(static_cast<R>(c.r.u(-3, 3)), T/2); break;
        case 6:
          N = c.r.tail(1, 12, 40); m.setNbSamples(N); lip.setNbSamples(N);
          pr = near<R>(c, pr, rndRef<R>(c, N, 3)); vr = near<R>(c, vr, rndRef<R>(c, N, 3));
          if (c.r.p(0.5)) { op.computeConstantPart(); ov.computeConstantPart(); oj.computeConstantPart(); op.setPosRefInWorldFrame(pr); ov.setVelRefInWorldFrame(vr); }
          else { op.setPosRefInWorldFrame(pr); ov.setVelRefInWorldFrame(vr); op.computeConstantPart(); ov.computeConstantPart(); oj.computeConstantPart(); }
          c.count("resizes"); break;
        default:
          T = near<R>(c, T, static_cast<R>(pickT(c))); m.setSamplingPeriod(T); lip.setSamplingPeriod(T);
          op.computeConstantPart(); ov.computeConstantPart(); oj.computeConstantPart(); c.count("retimes");
      }
      if (o + 1 < ops && c.r.p(0.5)) { continue; }
      const double mag = c.r.pick(std::vector<double>{0, 1, 20});
      const V xv = rndVec<R>(c, 2*N, mag);
      const Vec x = toVec(xv), rp = toVec(pr), rv = toVec(vr);
      const Mot sx = mot(m.getStateX()), sy = mot(m.getStateY());
      for (int order = 0; order < 2; ++order)
      {
        const Vec& ref = order ? rv : rp;
        Aff a([&](const Vec& u) { Vec r = axis(sx, sub(u, 0, N), T, order, sub(ref, 0, N)); const Vec q = axis(sy, sub(u, N, N), T, order, sub(ref, N, N));
                                        r.insert(r.end(), q.begin(), q.end()); return r; }, 2*N);
        a.cancel = std::max(terms(sx, T, order, sub(ref, 0, N)), terms(sy, T, order, sub(ref, N, N)));
        if (order) checkQuad<R>(c, ov.getHessian(), ov.getGradient(xv), x, a, "base velocity", "base velocity objective", tolOf<R>());
        else checkQuad<R>(c, op.getHessian(), op.getGradient(xv), x, a, "base position", "base position objective", tolOf<R>());
      }
      const V xj = rndVec<R>(c, 4*N, mag);
      checkQuad<R>(c, oj.getHessian(), oj.getGradient(xj), toVec(xj), Aff([](const Vec& u) { return u; }, 4*N), "jerk", "jerk objective", tolOf<R>());
      c.state(hist & 0xffffff);
    }
    c.h(hist); c.h(N*7); c.h((uint64_t)(1e6*T));
  }

  template <typename R>
  void traj(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    int N = c.r.tail(1, 20, 60); R T = static_cast<R>(pickT(c));
    NoDynamicModel<R> m(N, T, true);
    PositionTrackingObjective<R> op(m);
    VelocityTrackingObjective<R> ov(m);
    TrajectoryJerkMinimizationObjective<R> oj(m);
    V pr = V::Zero(N), vr = V::Zero(N);
    if (c.r.p(0.8)) { pr = near<R>(c, pr, rndRef<R>(c, N, 3, 1)); op.setPosRefInWorldFrame(pr); vr = near<R>(c, vr, rndRef<R>(c, N, 3, 1)); ov.setVelRefInWorldFrame(vr); }
    const int ops = c.r.i(1, 12);
    uint64_t hist = 1;
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 5);
      hist = mix(hist*31 + k); c.desc << " " << k;
      switch (k)
      {
        case 0: m.setState(near<R>(c, m.getState(), rndState<R>(c, 3, 2, 2))); break;
        case 1: pr = near<R>(c, pr, rndRef<R>(c, N, 3, 1)); op.setPosRefInWorldFrame(pr); break;
        case 2: vr = near<R>(c, vr, rndRef<R>(c, N, 3, 1)); ov.setVelRefInWorldFrame(vr); break;
        case 3: m.updateState(static_cast<R>(c.r.u(-3, 3)), T/2); break;
        case 4:
          N = c.r.tail(1, 20, 60); m.setNbSamples(N); pr = near<R>(c, pr, rndRef<R>(c, N, 3, 1)); vr = near<R>(c, vr, rndRef<R>(c, N, 3, 1));
          op.computeConstantPart(); ov.computeConstantPart(); oj.computeConstantPart(); op.setPosRefInWorldFrame(pr); ov.setVelRefInWorldFrame(vr);
          c.count("resizes"); break;
        default:
          T = near<R>(c, T, static_cast<R>(pickT(c))); m.setSamplingPeriod(T);
          op.computeConstantPart(); ov.computeConstantPart(); oj.computeConstantPart(); c.count("retimes");
      }
      if (o + 1 < ops && c.r.p(0.5)) { continue; }
      const V xv = rndVec<R>(c, N, c.r.pick(std::vector<double>{0, 1, 20}));
      const Vec x = toVec(xv), rp = toVec(pr), rv = toVec(vr);
      const Mot s = mot(m.getState());
      Aff ap([&](const Vec& u) { return axis(s, u, T, 0, rp); }, N), av([&](const Vec& u) { return axis(s, u, T, 1, rv); }, N);
      ap.cancel = terms(s, T, 0, rp); av.cancel = terms(s, T, 1, rv);
      checkQuad<R>(c, op.getHessian(), op.getGradient(xv), x, ap, "position", "trajectory position objective", tolOf<R>());
      checkQuad<R>(c, ov.getHessian(), ov.getGradient(xv), x, av, "velocity", "trajectory velocity objective", tolOf<R>());
      checkQuad<R>(c, oj.getHessian(), oj.getGradient(xv), x, Aff([](const Vec& u) { return u; }, N), "jerk", "trajectory jerk objective", tolOf<R>());
      c.state(hist & 0xffffff);
    }
    c.h(hist); c.h(N*7); c.h((uint64_t)(1e6*T));
  }
  template <typename R> void one(Case& c) { if (c.r.p(0.6)) { c.desc << "base:"; base<R>(c); } else { c.desc << "trajectory:"; traj<R>(c); } c.nontrivial = true; }
  void fn(Case& c) { if (c.r.p(0.3)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
