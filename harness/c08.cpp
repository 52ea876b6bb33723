// C08: tilt objectives penalise the tilt predicted by the documented tilt dynamics.
// needs: tools lineardynamic lip_model zebulon_base_model convexpolygon zebulon_tilt_minimization_objective zebulon_tilt_velocity_minimization_objective
#include <ref.h>
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/function/zebulon_tilt_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_velocity_minimization_objective.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  struct Tilt { L m, M, h, l, g, px, py; Mot c[2], d[2]; L psi[2], dpsi[2]; int N; L T; };

  // g(mh+ML) psi - (mhh+MLL) psi'' = mg(c-d) - Mg p - mh c'' - ML d''   (psi'' constant over each period)
  Vec tilt(const Tilt& r, const Vec& u, int order)
  {
    Vec out;
    const L A1 = r.g*(r.m*r.h + r.M*r.l), A6 = r.m*r.h*r.h + r.M*r.l*r.l;
    for (int a = 0; a < 2; ++a)
    {
      const std::vector<Mot> c = preview(r.c[a], sub(u, a*r.N, r.N), r.T, r.T), d = preview(r.d[a], sub(u, (2 + a)*r.N, r.N), r.T, r.T);
      L p = r.psi[a], v = r.dpsi[a];
      for (int i = 0; i < r.N; ++i)
      {
        const L rhs = r.m*r.g*(c[i].p - d[i].p) - r.M*r.g*(a ? r.py : r.px) - r.m*r.h*c[i].a - r.M*r.l*d[i].a;
        const L acc = (rhs - A1*(p + r.T*v))/(A1*r.T*r.T/2 - A6);
        p += r.T*v + r.T*r.T*acc/2; v += r.T*acc;
        out.push_back(order ? v : p);
      }
    }
    return out;
  }

  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    R T = static_cast<R>(c.r.u(0.06, 0.22));
    // the tilt equation is unstable: longer previews only amplify rounding
    auto size = [&]() { return isF<R>() ? c.r.i(1, 5) : 11*T > 1.7 ? c.r.i(1, 10) : c.r.tail(1, 10, (int)(1.7/T)); };
    int N = size();
    R  m = 1, M = 0, h = 1, l = 0;
    LIPModel<R> lip(N, T, true);
    BaseModel<R> base(N, T, true);
    TiltMinimizationObjective<R> oa(lip, base);
    TiltVelMinimizationObjective<R> ov(lip, base);
    auto constant = [&]() { oa.computeConstantPart(); ov.computeConstantPart(); };
    // small and heavy robots (the tilt does not depend on the unit of mass)
    const double unit = c.r.p(0.8) ? 1 : std::pow(10, c.r.u(-2, 2)); if (unit < 0.1 || unit > 10) c.count("unusual_masses");
    auto masses = [&]() {
      m = near<R>(c, m, static_cast<R>(unit*c.r.u(1, 40))); M = nearPos<R>(c, M, static_cast<R>(unit*(c.r.p(0.1) ? c.r.u(0.01, 0.1) : c.r.u(1, 40))));
      lip.setTotalMass(20000); base.setTotalMass(20000); lip.setMass(m); base.setMass(M); lip.setTotalMass(m + M); base.setTotalMass(m + M); constant(); };
    auto heights = [&]() { h = near<R>(c, h, static_cast<R>(c.r.u(0.6, 1.4))); l = near<R>(c, l, static_cast<R>(c.r.p(0.2) ? 0 : c.r.u(0.02, 0.3))); lip.setComHeight(h); base.setComHeight(l); constant(); };
    if (c.r.p(0.8)) { masses(); }
    if (c.r.p(0.8)) { heights(); }
    const int ops = c.r.i(1, 10);
    uint64_t hist = 0;
    c.desc << "N=" << N << " T=" << (double)T << ":";
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 10);
      hist = mix(hist*31 + k); c.desc << " " << k;
      switch (k)
      {
        case 0: masses(); break;
        case 1: heights(); break;
        case 2: base.setTiltContactPointX(near<R>(c, base.getTiltContactPointX(), static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(-0.3, 0.3)))); oa.updateTiltContactPoint(); ov.updateTiltContactPoint(); c.count("contact_points"); break;
        case 3: base.setTiltContactPointY(near<R>(c, base.getTiltContactPointY(), static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(-0.3, 0.3)))); if (c.r.p(0.5)) { oa.updateTiltContactPoint(); ov.updateTiltContactPoint(); } else { constant(); } c.count("contact_points"); break;
        case 4: lip.setStateX(near<R>(c, lip.getStateX(), rndState<R>(c, 0.3, 0.5, 1))); break;
        case 5: lip.setStateY(near<R>(c, lip.getStateY(), rndState<R>(c, 0.3, 0.5, 1))); break;
        case 6: base.setStateX(near<R>(c, base.getStateX(), rndState<R>(c, 0.3, 0.5, 1))); break;
        case 7: base.setStateY(near<R>(c, base.getStateY(), rndState<R>(c, 0.3, 0.5, 1))); break;
        case 8: base.setStateRoll(near<R>(c, base.getStateRoll(), rndState<R>(c, 0.2, 0.5, 1))); c.count("tilt_states"); break;
        case 9: base.setStatePitch(near<R>(c, base.getStatePitch(), rndState<R>(c, 0.2, 0.5, 1))); c.count("tilt_states"); break;
        default:
          if (c.r.p(0.5)) { N = size(); lip.setNbSamples(N); base.setNbSamples(N); }
          else { const R t = near<R>(c, T, static_cast<R>(c.r.u(0.06, 0.22))); if (N <= 10 || N*t <= 1.7) T = t; lip.setSamplingPeriod(T); base.setSamplingPeriod(T); }
          constant(); c.count("reshapes");
      }
      // the discretised equation loses its meaning (division by nearly zero) when the robot falls faster than the samples follow
      if ((L)Constant<R>::GRAVITY_NORM*(m*h + M*l)*T*T/2 > 0.7L*((L)m*h*h + (L)M*l*l)) { c.count("too_fast_tilts"); continue; }
      Tilt r; r.m = m; r.M = M; r.h = h; r.l = l; r.g = Constant<R>::GRAVITY_NORM; r.px = base.getTiltContactPointX(); r.py = base.getTiltContactPointY();
      r.c[0] = mot(lip.getStateX()); r.c[1] = mot(lip.getStateY()); r.d[0] = mot(base.getStateX()); r.d[1] = mot(base.getStateY());
      r.psi[0] = base.getStateRoll()(0); r.dpsi[0] = base.getStateRoll()(1); r.psi[1] = base.getStatePitch()(0); r.dpsi[1] = base.getStatePitch()(1);
      r.N = N; r.T = T;
      const V xv = rndVec<R>(c, 4*N, c.r.pick(std::vector<double>{0, 1, 10}));
      const Vec x = toVec(xv);
      for (int order = 0; order < 2; ++order)
      {
        Aff a([&](const Vec& u) { return tilt(r, u, order); }, 4*N);
        a.cancel = a.maxR() + 0.1L;
        if (a.maxR() > 1e5L || a.maxJ() > 1e5L) { c.count("exploding_tilts"); continue; }   // (beyond any precision)
        const L tol = isF<R>() ? 2e-3L : 1e-9L;
        if (order) checkQuad<R>(c, ov.getHessian(), ov.getGradient(xv), x, a, "tilt velocity", "tilt velocity objective", tol);
        else checkQuad<R>(c, oa.getHessian(), oa.getGradient(xv), x, a, "tilt", "tilt objective", tol);
      }
      c.state(hist & 0xffffff);
    }
    c.h(hist); c.h(N); c.h((uint64_t)(1e7*T)); c.nontrivial = true;
  }
  void fn(Case& c) { if (c.r.p(0.25)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
