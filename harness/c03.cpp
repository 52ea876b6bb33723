// C03: a model always equals a freshly built model with the same final parameters.
// needs: tools lineardynamic lip_model zebulon_base_model no_dynamic_model humanoid_foot_model interpolator convexpolygon
#include <ref.h>
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
#include <memory>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R> struct Eps { static L v() { return sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L; } };

  template <typename M>
  void same(Case& c, const M& a, const M& b, L rel, L abs, const std::string& key, const std::string& w)
  {
    if (a.rows() != b.rows() || a.cols() != b.cols())
      c.fail(key + ":size", w + ": " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " instead of " +
             std::to_string(b.rows()) + "x" + std::to_string(b.cols()));
    L mx = 0;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (std::isfinite((double)b(i, j))) mx = std::max(mx, std::fabs((L)b(i, j)));
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j)
    {
      const L x = a(i, j), y = b(i, j);
      if (!std::isfinite((double)x) && !std::isfinite((double)y)) { continue; }
      if (!(std::fabs(x - y) <= rel*mx + abs)) c.fail(key, w + "(" + std::to_string(i) + "," + std::to_string(j) + "): " + num(x) + " instead of " + num(y));
    }
  }
  template <typename R>
  void same(Case& c, const LinearDynamic<R>& a, const LinearDynamic<R>& b, const std::string& w)
  {
    const L e = Eps<R>::v();
    same(c, a.U, b.U, 20*e, 0, "preview", w + ".U");
    same(c, a.UT, b.UT, 20*e, 0, "preview", w + ".UT");
    same(c, a.S, b.S, 20*e, 0, "preview", w + ".S");
    same(c, a.K, b.K, 20*e, 0, "preview", w + ".K");
    // the inverse amplifies rounding and its small entries are zeroed
    same(c, a.Uinv, b.Uinv, sizeof(R) == 4 ? 0.3L : 1e-5L, 1.1e-4L, "inverse", w + ".Uinv");
    same(c, a.UTinv, b.UTinv, sizeof(R) == 4 ? 0.3L : 1e-5L, 1.1e-4L, "inverse", w + ".UTinv");
    c.count("dynamics_compared");
  }
  template <typename V> void eqv(Case& c, const V& a, const V& b, const std::string& w)
  {
    if (a.size() != b.size()) c.fail("state", w + ": wrong size");
    for (int i = 0; i < a.size(); ++i) if (!(a(i) == b(i))) c.fail("state", w + "(" + std::to_string(i) + "): " + num(a(i)) + " instead of " + num(b(i)));
  }
  template <typename R> void eqs(Case& c, R a, R b, const std::string& w) { if (!(a == b)) c.fail("parameter", w + ": " + num(a) + " instead of " + num(b)); }

  template <typename R>
  typename Type<R>::VectorX rndModelState(Case& c)
  {
    typename Type<R>::VectorX v(3);
    for (int i = 0; i < 3; ++i) { v(i) = static_cast<R>(c.r.u(-3, 3)); }
    return v;
  }
  template <typename R>
  ConvexPolygon<R> rndPoly(Case& c)
  {
    typedef typename Type<R>::Vector2 V2;
    typename Type<R>::vectorOfVector2 p;
    if (c.r.p(0.3)) { p.push_back(V2(0, 0)); p.push_back(V2(1, 0)); p.push_back(V2(static_cast<R>(0.1*c.r.i(0, 3)), static_cast<R>(0.1*c.r.i(3, 5)))); return ConvexPolygon<R>(p); }   // alike
    const int n = c.r.i(3, 8); const double ph = c.r.u(0, 6), r = c.r.u(0.05, 0.5);
    for (int i = 0; i < n; ++i) { p.push_back(V2(static_cast<R>(r*std::cos(ph + 6.28318*i/n)), static_cast<R>(r*std::sin(ph + 6.28318*i/n)))); }
    return ConvexPolygon<R>(p);
  }
  template <typename R>
  void samePoly(Case& c, const ConvexPolygon<R>& a, const ConvexPolygon<R>& b, const std::string& w)
  {
    if (a.getNbVertices() != b.getNbVertices()) c.fail("polygon", w + ": number of vertices");
    for (int i = 0; i < a.getNbVertices(); ++i) if (!(a.getVertices()[i] == b.getVertices()[i])) c.fail("polygon", w + ": vertex " + std::to_string(i));
  }

  double pickT(Case& c) { return c.r.p(0.3) ? c.r.u(0.02, 1.0) : 0.01*c.r.i(2, 60); }

  // ------------------------------------------------------------- CoM -------
  template <typename R> struct LipP
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    int N, nf; R T, F, h, m, M; V3 g; V x, y, z, w;
  };
  template <typename R> int nbFeedbacks(const LipP<R>& p) { return static_cast<int>((p.T + Constant<R>::EPSILON)/p.F); }

  template <typename R>
  void checkLip(Case& c, const LIPModel<R>& m, const LipP<R>& p, const std::string& w)
  {
    typedef Tools::ConstantJerkDynamic<R> D;
    if (m.getNbSamples() != p.N) c.fail("parameter", w + ": number of samples");
    eqs(c, m.getSamplingPeriod(), p.T, w + " sampling period"); eqs(c, m.getFeedbackPeriod(), p.F, w + " feedback period");
    eqs(c, m.getComHeight(), p.h, w + " height"); eqs(c, m.getMass(), p.m, w + " mass");
    eqv(c, m.getGravity(), p.g, w + " gravity");
    eqv(c, m.getStateX(), p.x, w + " state x"); eqv(c, m.getStateY(), p.y, w + " state y");
    eqv(c, m.getStateZ(), p.z, w + " state z"); eqv(c, m.getStateYaw(), p.w, w + " state yaw");
    const int nf = p.nf;
    LinearDynamic<R> e;
    for (int k = -1; k < nf; ++k)
    {
      const R S = static_cast<R>(k < 0 ? nf : k + 1)*p.F;
      const std::string wk = w + " preview " + std::to_string(k) + " ";
      D::computeCopDynamic(S, p.T, p.N, e, p.h, p.g(0), p.g(2), p.m, p.M);
      same(c, k < 0 ? m.getCopXLinearDynamic() : m.getCopXLinearDynamic(k), e, wk + "copX");
      D::computeCopDynamic(S, p.T, p.N, e, p.h, p.g(1), p.g(2), p.m, p.M);
      same(c, k < 0 ? m.getCopYLinearDynamic() : m.getCopYLinearDynamic(k), e, wk + "copY");
      D::computePosDynamic(S, p.T, p.N, e);
      same(c, k < 0 ? m.getComPosLinearDynamic() : m.getComPosLinearDynamic(k), e, wk + "pos");
      D::computeVelDynamic(S, p.T, p.N, e);
      same(c, k < 0 ? m.getComVelLinearDynamic() : m.getComVelLinearDynamic(k), e, wk + "vel");
      D::computeAccDynamic(S, p.T, p.N, e);
      same(c, k < 0 ? m.getComAccLinearDynamic() : m.getComAccLinearDynamic(k), e, wk + "acc");
      D::computeJerkDynamic(p.N, e);
      same(c, k < 0 ? m.getComJerkLinearDynamic() : m.getComJerkLinearDynamic(k), e, wk + "jerk");
    }
  }
  template <typename R>
  void sameLip(Case& c, const LIPModel<R>& a, const LIPModel<R>& b, int nf, const std::string& w)
  {
    for (int k = 0; k < nf; ++k)
    {
      same(c, a.getCopXLinearDynamic(k), b.getCopXLinearDynamic(k), w + " copX");
      same(c, a.getCopYLinearDynamic(k), b.getCopYLinearDynamic(k), w + " copY");
      same(c, a.getComPosLinearDynamic(k), b.getComPosLinearDynamic(k), w + " pos");
      same(c, a.getComVelLinearDynamic(k), b.getComVelLinearDynamic(k), w + " vel");
      same(c, a.getComAccLinearDynamic(k), b.getComAccLinearDynamic(k), w + " acc");
    }
    same(c, a.getComJerkLinearDynamic(), b.getComJerkLinearDynamic(), w + " jerk");
  }

  template <typename R>
  void lip(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    LipP<R> p; p.h = 1; p.m = 1; p.M = 1; p.g = Constant<R>::GRAVITY_VECTOR;
    p.x = p.y = p.z = p.w = V::Zero(3); p.z(0) = 1;
    bool autoC = true;
    std::unique_ptr<LIPModel<R> > m;
    if (c.r.p(0.2)) { m.reset(new LIPModel<R>()); p.N = 1; p.T = 1; }
    else { autoC = c.r.p(0.65); p.N = c.r.tail(1, 10, 45); p.T = static_cast<R>(pickT(c)); m.reset(new LIPModel<R>(p.N, p.T, autoC)); }
    p.F = p.T; p.nf = 1;
    bool dirty = !autoC;
    if (autoC) { checkLip(c, *m, p, "new"); }
    const int ops = c.r.i(1, 14);
    uint64_t hist = 1 + autoC;
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 13);
      c.desc << " " << k;
      hist = mix(hist*31 + k);
      switch (k)
      {
        case 0: p.N = c.r.tail(1, 10, 45); m->setNbSamples(p.N); break;
        case 1: p.T = near<R>(c, p.T, static_cast<R>(pickT(c))); p.F = p.T; p.nf = 1; m->setSamplingPeriod(p.T); break;
        case 2: case 3: 
          p.nf = c.r.tail(1, 6, 40); p.F = p.T/p.nf;
          // a period computed in another way is a little longer or shorter than the quotient
          if (c.r.p(0.3)) { p.F = static_cast<R>(p.F*(1 + std::pow(10., c.r.u(-9, std::log10(3e-5/p.T)))*(c.r.p(0.5) ? 1 : -1))); c.count("rounded_feedback_periods"); }
          m->setFeedbackPeriod(p.F); break;
        case 4: p.h = near<R>(c, p.h, static_cast<R>(c.r.p(0.2) ? 0 : c.r.u(0.1, 2))); p.z(0) = p.h; m->setComHeight(p.h); break;
        case 5: p.m = nearPos<R>(c, p.m, static_cast<R>(c.r.u(0.1, p.M))); if (p.m > p.M) p.m = p.M; m->setMass(p.m); break;
        case 6: p.M = near<R>(c, p.M, p.m + static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(0, 30))); if (p.M < p.m) p.M = p.m; m->setTotalMass(p.M); break;
        case 7: { V3 q = near<R>(c, p.g, V3(static_cast<R>(c.r.u(-3, 3)), static_cast<R>(c.r.u(-3, 3)), static_cast<R>(c.r.p(0.8) ? c.r.u(4, 12) : -c.r.u(4, 12)))); if (std::fabs((L)q(2)) < 1) q(2) = 9; p.g = q; }; m->setGravity(p.g); break;
        case 8: p.x = near<R>(c, p.x, rndModelState<R>(c)); m->setStateX(p.x); break;
        case 9: p.y = near<R>(c, p.y, rndModelState<R>(c)); m->setStateY(p.y); break;
        case 10: p.w = near<R>(c, p.w, rndModelState<R>(c)); m->setStateYaw(p.w); break;
        case 11: m->computeDynamics(); dirty = false; break;
        case 12: { std::unique_ptr<LIPModel<R> > n(new LIPModel<R>(*m)); m.swap(n); break; }  // a copy is the same model
        case 13: { LIPModel<R> n(c.r.i(1, 5), 1, true); n = *m; *m = n; break; }
      }
      if (!autoC && k < 8) { dirty = true; }
      if (!autoC && dirty && c.r.p(0.3)) { m->computeDynamics(); dirty = false; }
      if (!dirty && c.r.p(0.4)) { checkLip(c, *m, p, "com after op " + std::to_string(k)); }
      c.state(hist & 0xffffff);
    }
    if (dirty) { m->computeDynamics(); }
    checkLip(c, *m, p, "com at the end");
    LIPModel<R> f(p.N, p.T, true);
    f.setGravity(p.g); f.setTotalMass(std::max(p.M, f.getMass())); f.setMass(p.m); f.setTotalMass(p.M); f.setComHeight(p.h);
    f.setFeedbackPeriod(p.F);
    sameLip(c, *m, f, p.nf, "com against fresh");
    c.count("lip_histories"); c.h(hist);
  }

  // ------------------------------------------------------------ base -------
  template <typename R> struct BaseP
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    int N; R T, h, m, M, vl, al, jl, tx, ty; V3 g; V s[5]; ConvexPolygon<R> cop, com;
  };
  template <typename R>
  void checkBase(Case& c, const BaseModel<R>& m, const BaseP<R>& p, const std::string& w)
  {
    typedef Tools::ConstantJerkDynamic<R> D;
    if (m.getNbSamples() != p.N) c.fail("parameter", w + ": number of samples");
    eqs(c, m.getSamplingPeriod(), p.T, w + " sampling period"); eqs(c, m.getComHeight(), p.h, w + " height"); eqs(c, m.getMass(), p.m, w + " mass");
    eqs(c, m.getVelocityLimit(), p.vl, w + " velocity limit"); eqs(c, m.getAccelerationLimit(), p.al, w + " acceleration limit"); eqs(c, m.getJerkLimit(), p.jl, w + " jerk limit");
    eqs(c, m.getTiltContactPointX(), p.tx, w + " contact x"); eqs(c, m.getTiltContactPointY(), p.ty, w + " contact y");
    eqv(c, m.getStateX(), p.s[0], w + " x"); eqv(c, m.getStateY(), p.s[1], w + " y"); eqv(c, m.getStateRoll(), p.s[2], w + " roll");
    eqv(c, m.getStatePitch(), p.s[3], w + " pitch"); eqv(c, m.getStateYaw(), p.s[4], w + " yaw");
    samePoly(c, m.getCopSupportConvexPolygon(), p.cop, w + " cop polygon"); samePoly(c, m.getComSupportConvexPolygon(), p.com, w + " com polygon");
    LinearDynamic<R> e;
    D::computeCopDynamic(p.T, p.T, p.N, e, p.h, p.g(0), p.g(2), p.m, p.M); same(c, m.getCopXLinearDynamic(), e, w + " copX");
    D::computeCopDynamic(p.T, p.T, p.N, e, p.h, p.g(1), p.g(2), p.m, p.M); same(c, m.getCopYLinearDynamic(), e, w + " copY");
    D::computePosDynamic(p.T, p.T, p.N, e); same(c, m.getBasePosLinearDynamic(), e, w + " pos");
    D::computeVelDynamic(p.T, p.T, p.N, e); same(c, m.getBaseVelLinearDynamic(), e, w + " vel");
    D::computeAccDynamic(p.T, p.T, p.N, e); same(c, m.getBaseAccLinearDynamic(), e, w + " acc");
    D::computeJerkDynamic(p.N, e); same(c, m.getBaseJerkLinearDynamic(), e, w + " jerk");
    D::computeOrder2PosDynamic(p.T, p.T, p.N, e); same(c, m.getBaseTiltAngleLinearDynamic(), e, w + " tilt");
    D::computeOrder2VelDynamic(p.T, p.T, p.N, e); same(c, m.getBaseTiltAngularVelLinearDynamic(), e, w + " tilt velocity");
  }
  template <typename R>
  void base(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    BaseP<R> p; p.h = 0; p.m = 0; p.M = 1; p.vl = p.al = p.jl = 1; p.tx = p.ty = 0; p.g = Constant<R>::GRAVITY_VECTOR;
    for (int i = 0; i < 5; ++i) { p.s[i] = V::Zero(3); }
    bool autoC = true;
    std::unique_ptr<BaseModel<R> > m;
    if (c.r.p(0.2)) { m.reset(new BaseModel<R>()); p.N = 1; p.T = 1; }
    else { autoC = c.r.p(0.65); p.N = c.r.tail(1, 10, 45); p.T = static_cast<R>(pickT(c)); m.reset(new BaseModel<R>(p.N, p.T, autoC)); }
    bool dirty = !autoC;
    if (autoC) { checkBase(c, *m, p, "new"); }
    const int ops = c.r.i(1, 18);
    uint64_t hist = 3 + autoC;
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 20);
      c.desc << " " << k;
      hist = mix(hist*31 + k);
      switch (k)
      {
        case 0: p.N = c.r.tail(1, 10, 45); m->setNbSamples(p.N); break;
        case 1: p.T = near<R>(c, p.T, static_cast<R>(pickT(c))); m->setSamplingPeriod(p.T); break;
        case 2: p.h = near<R>(c, p.h, static_cast<R>(c.r.p(0.2) ? 0 : c.r.u(0.1, 2))); m->setComHeight(p.h); break;
        case 3: p.m = nearPos<R>(c, p.m, static_cast<R>(c.r.u(0.1, p.M))); if (p.m > p.M) p.m = p.M; m->setMass(p.m); break;
        case 4: p.M = near<R>(c, p.M, p.m + static_cast<R>(c.r.p(0.3) && p.m > 0 ? 0 : c.r.u(0.5, 30))); if (p.M < p.m) p.M = p.m; m->setTotalMass(p.M); break;
        case 5: { V3 q = near<R>(c, p.g, V3(static_cast<R>(c.r.u(-3, 3)), static_cast<R>(c.r.u(-3, 3)), static_cast<R>(c.r.p(0.8) ? c.r.u(4, 12) : -c.r.u(4, 12)))); if (std::fabs((L)q(2)) < 1) q(2) = 9; p.g = q; }; m->setGravity(p.g); break;
        case 6: p.vl = near<R>(c, p.vl, static_cast<R>(c.r.u(0, 3))); m->setVelocityLimit(p.vl); break;
        case 7: p.al = near<R>(c, p.al, static_cast<R>(c.r.u(0, 3))); m->setAccelerationLimit(p.al); break;
        case 8: p.jl = near<R>(c, p.jl, static_cast<R>(c.r.u(0, 3))); m->setJerkLimit(p.jl); break;
        case 9: p.tx = near<R>(c, p.tx, static_cast<R>(c.r.u(-1, 1))); m->setTiltContactPointX(p.tx); break;
        case 10: p.ty = near<R>(c, p.ty, static_cast<R>(c.r.u(-1, 1))); m->setTiltContactPointY(p.ty); break;
        case 11: p.s[0] = near<R>(c, p.s[0], rndModelState<R>(c)); m->setStateX(p.s[0]); break;
        case 12: p.s[1] = near<R>(c, p.s[1], rndModelState<R>(c)); m->setStateY(p.s[1]); break;
        case 13: p.s[2] = near<R>(c, p.s[2], rndModelState<R>(c)); m->setStateRoll(p.s[2]); break;
        case 14: p.s[3] = near<R>(c, p.s[3], rndModelState<R>(c)); m->setStatePitch(p.s[3]); break;
        case 15: p.s[4] = near<R>(c, p.s[4], rndModelState<R>(c)); m->setStateYaw(p.s[4]); break;
        case 16: p.cop = rndPoly<R>(c); m->setCopSupportConvexPolygon(p.cop); break;
        case 17: p.com = rndPoly<R>(c); m->setComSupportConvexPolygon(p.com); break;
        case 18: m->computeDynamics(); dirty = false; break;
        case 19: { std::unique_ptr<BaseModel<R> > n(new BaseModel<R>(*m)); m.swap(n); break; }
        case 20: { BaseModel<R> n(c.r.i(1, 5), 1, true); n = *m; *m = n; break; }
      }
      if (!autoC && k < 6) { dirty = true; }
      if (!autoC && dirty && c.r.p(0.3)) { m->computeDynamics(); dirty = false; }
      if (!dirty && c.r.p(0.4)) { checkBase(c, *m, p, "base after op " + std::to_string(k)); }
      c.state(hist & 0xffffff);
    }
    if (dirty) { m->computeDynamics(); }
    checkBase(c, *m, p, "base at the end");
    BaseModel<R> f(p.N, p.T, true);
    f.setGravity(p.g); f.setTotalMass(p.M); if (p.m > 0) { f.setMass(p.m); } f.setComHeight(p.h);
    same(c, m->getCopXLinearDynamic(), f.getCopXLinearDynamic(), "fresh copX"); same(c, m->getCopYLinearDynamic(), f.getCopYLinearDynamic(), "fresh copY");
    same(c, m->getBasePosLinearDynamic(), f.getBasePosLinearDynamic(), "fresh pos");
    same(c, m->getBaseTiltAngleLinearDynamic(), f.getBaseTiltAngleLinearDynamic(), "fresh tilt");
    c.count("base_histories"); c.h(hist);
  }

  // ------------------------------------------------------ trajectory -------
  template <typename R>
  void traj(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef Tools::ConstantJerkDynamic<R> D;
    int N = 1; R T = 1, vl = 1, al = 1, jl = 1; V s = V::Zero(3);
    bool autoC = true;
    std::unique_ptr<NoDynamicModel<R> > m;
    if (c.r.p(0.2)) { m.reset(new NoDynamicModel<R>()); }
    else { autoC = c.r.p(0.65); N = c.r.tail(1, 10, 45); T = static_cast<R>(pickT(c)); m.reset(new NoDynamicModel<R>(N, T, autoC)); }
    bool dirty = !autoC;
    const int ops = c.r.i(1, 12);
    uint64_t hist = 5 + autoC;
    for (int o = 0; o <= ops; ++o)
    {
      const int k = c.r.i(0, 7);
      c.desc << " " << k;
      hist = mix(hist*31 + k);
      switch (k)
      {
        case 0: N = c.r.tail(1, 10, 45); m->setNbSamples(N); break;
        case 1: T = near<R>(c, T, static_cast<R>(pickT(c))); m->setSamplingPeriod(T); break;
        case 2: vl = near<R>(c, vl, static_cast<R>(c.r.u(0, 3))); m->setVelocityLimit(vl); break;
        case 3: al = near<R>(c, al, static_cast<R>(c.r.u(0, 3))); m->setAccelerationLimit(al); break;
        case 4: jl = near<R>(c, jl, static_cast<R>(c.r.u(0, 3))); m->setJerkLimit(jl); break;
        case 5: s = near<R>(c, s, rndModelState<R>(c)); m->setState(s); break;
        case 6: m->computeDynamics(); dirty = false; break;
        case 7: { std::unique_ptr<NoDynamicModel<R> > n(new NoDynamicModel<R>(*m)); m.swap(n); break; }
      }
      if (!autoC && k < 2) { dirty = true; }
      if (dirty && o == ops) { m->computeDynamics(); dirty = false; }
      if (m->getNbSamples() != N) c.fail("parameter", "trajectory number of samples");
      eqs(c, m->getSamplingPeriod(), T, "trajectory period"); eqs(c, m->getVelocityLimit(), vl, "trajectory velocity limit");
      eqs(c, m->getAccelerationLimit(), al, "trajectory acceleration limit"); eqs(c, m->getJerkLimit(), jl, "trajectory jerk limit");
      eqv(c, m->getState(), s, "trajectory state");
      if (dirty) { continue; }
      LinearDynamic<R> e;
      D::computePosDynamic(T, T, N, e); same(c, m->getPosLinearDynamic(), e, "trajectory pos");
      D::computeVelDynamic(T, T, N, e); same(c, m->getVelLinearDynamic(), e, "trajectory vel");
      D::computeAccDynamic(T, T, N, e); same(c, m->getAccLinearDynamic(), e, "trajectory acc");
      D::computeJerkDynamic(N, e); same(c, m->getJerkLinearDynamic(), e, "trajectory jerk");
      c.state(hist & 0xffffff);
    }
    c.count("traj_histories"); c.h(hist);
  }

  // ------------------------------------------------------------ foot -------
  template <typename R>
  void foot(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    int N = 1; R T = 1, mh = 0; V s[4]; ConvexPolygon<R> cop, kin;
    for (int i = 0; i < 4; ++i) { s[i] = V::Zero(3); }
    std::unique_ptr<HumanoidFootModel<R> > m;
    if (c.r.p(0.2)) { m.reset(new HumanoidFootModel<R>()); }
    else { N = c.r.tail(1, 20, 80); T = static_cast<R>(pickT(c)); m.reset(new HumanoidFootModel<R>(N, T)); }
    const int ops = c.r.i(1, 16);
    uint64_t hist = 7;
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 13);
      c.desc << " " << k;
      hist = mix(hist*31 + k);
      switch (k)
      {
        case 0: N = c.r.tail(1, 20, 80); m->setNbSamples(N); break;
        case 1: T = near<R>(c, T, static_cast<R>(pickT(c))); m->setSamplingPeriod(T); break;
        case 2: mh = near<R>(c, mh, static_cast<R>(c.r.u(0, 0.3))); m->setMaxHeight(mh); break;
        case 3: cop = rndPoly<R>(c); m->setCopConvexPolygon(cop); break;
        case 4: kin = rndPoly<R>(c); m->setKinematicConvexPolygon(kin); break;
        case 5: s[0] = near<R>(c, s[0], rndModelState<R>(c)); m->setStateX(s[0]); break;
        case 6: s[1] = near<R>(c, s[1], rndModelState<R>(c)); m->setStateY(s[1]); break;
        case 7: s[2] = near<R>(c, s[2], rndModelState<R>(c)); m->setStateZ(s[2]); break;
        case 8: s[3] = near<R>(c, s[3], rndModelState<R>(c)); m->setStateYaw(s[3]); break;
        case 9: case 10: case 11:
        {
          // a foot with any past moves as a new foot at the same place
          const V3 e(static_cast<R>(c.r.u(-2, 2)), static_cast<R>(c.r.u(-2, 2)), static_cast<R>(c.r.u(-2, 2)));
          const R D = static_cast<R>(c.r.u(0.1, 2)), t = static_cast<R>(c.r.u(0, 1))*D;
          HumanoidFootModel<R> f(N, T);
          const int a = k - 9;
          if (a == 0) { f.setStateX(s[0]); f.updateStateX(e, D, t); m->updateStateX(e, D, t); s[0] = f.getStateX(); }
          if (a == 1) { f.setStateY(s[1]); f.updateStateY(e, D, t); m->updateStateY(e, D, t); s[1] = f.getStateY(); }
          if (a == 2) { f.setStateZ(s[2]); f.updateStateZ(e, D, t); m->updateStateZ(e, D, t); s[2] = f.getStateZ(); }
          const V& g = a == 0 ? m->getStateX() : a == 1 ? m->getStateY() : m->getStateZ();
          for (int i = 0; i < 3; ++i) { checkClose(c, g(i), s[a](i), 1e3*Eps<R>::v()*(1 + 100/(D*D))*(1 + std::fabs((L)s[a](i))), "footmove", "moved foot"); }
          s[a] = g;
          break;
        }
        case 12: { std::unique_ptr<HumanoidFootModel<R> > n(new HumanoidFootModel<R>(*m)); m.swap(n); break; }
        case 13: m->setHipYawUpperBound(1); m->setHipYawLowerBound(-1); m->setHipYawSpeedUpperBound(1); m->setHipYawAccelerationUpperBound(1); break;
      }
      if (m->getNbSamples() != N) c.fail("parameter", "foot number of samples");
      eqs(c, m->getSamplingPeriod(), T, "foot period"); eqs(c, m->getMaxHeight(), mh, "foot height");
      samePoly(c, m->getCopConvexPolygon(), cop, "foot cop polygon"); samePoly(c, m->getKinematicConvexPolygon(), kin, "foot kinematic polygon");
      eqv(c, m->getStateX(), s[0], "foot x"); eqv(c, m->getStateY(), s[1], "foot y"); eqv(c, m->getStateZ(), s[2], "foot z"); eqv(c, m->getStateYaw(), s[3], "foot yaw");
      const HumanoidFootModel<R> f(N, T);
      for (int i = 0; i < N; ++i) { if (m->isInContact(i) != f.isInContact(i)) c.fail("contact", "contact of sample " + std::to_string(i)); }
      c.count("foot_compared");
      c.state(hist & 0xffffff);
    }
    c.count("foot_histories"); c.h(hist);
  }
  template <typename R> void one(Case& c)
  {
    switch (c.r.i(0, 3)) { case 0: c.desc << "com:"; lip<R>(c); break; case 1: c.desc << "base:"; base<R>(c); break;
                           case 2: c.desc << "trajectory:"; traj<R>(c); break; default: c.desc << "foot:"; foot<R>(c); }
    c.nontrivial = true;
  }
  void fn(Case& c) { if (c.r.p(0.3)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
