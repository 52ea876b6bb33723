// C05: foot splines meet their end states and are twice continuously differentiable.
// needs: tools lineardynamic interpolator humanoid_foot_model convexpolygon
#include <vh.h>
#include <mpc-walkgen/tools.h>
#include <mpc-walkgen/interpolator.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  // The unique C2 motion made of three cubics of equal durations between two states is the motion
  // under a jerk constant over each third: find the jerks, then integrate.
  struct Ref
  {
    Mot s; L j[3], T;
    Ref(const Mot& a, const Mot& b, L T_) : s(a), T(T_)
    {
      // response of the final state to a unit jerk on each third, by integration
      L A[3][4];
      for (int k = 0; k < 3; ++k)
      {
        Mot m = {0, 0, 0};
        for (int i = 0; i < 3; ++i) { m = step(m, i == k, T/3); }
        A[0][k] = m.p; A[1][k] = m.v; A[2][k] = m.a;
      }
      const Mot f = step(a, 0, T);
      A[0][3] = b.p - f.p; A[1][3] = b.v - f.v; A[2][3] = b.a - f.a;
      // scale rows so that pivoting is meaningful
      for (int i = 0; i < 3; ++i) { L mx = 0; for (int k = 0; k < 3; ++k) mx = std::max(mx, std::fabs(A[i][k])); for (int k = 0; k < 4; ++k) A[i][k] /= mx; }
      for (int p = 0; p < 3; ++p)
      {
        int q = p;
        for (int i = p; i < 3; ++i) if (std::fabs(A[i][p]) > std::fabs(A[q][p])) q = i;
        for (int k = 0; k < 4; ++k) std::swap(A[p][k], A[q][k]);
        for (int i = 0; i < 3; ++i) if (i != p) { const L f2 = A[i][p]/A[p][p]; for (int k = 0; k < 4; ++k) A[i][k] -= f2*A[p][k]; }
      }
      for (int p = 0; p < 3; ++p) { j[p] = A[p][3]/A[p][p]; }
    }
    Mot at(L t) const
    {
      Mot m = s; L left = t;
      for (int i = 0; i < 3 && left > 0; ++i) { const L d = i == 2 ? left : std::min(left, T/3); m = step(m, j[i], d); left -= d; }
      return m;
    }
  };
  L scale(const Mot& a, const Mot& b, L T)
  { return std::fabs(a.p) + std::fabs(b.p) + T*(std::fabs(a.v) + std::fabs(b.v)) + T*T*(std::fabs(a.a) + std::fabs(b.a)) + 1e-12L; }

  template <typename R>
  void cmp(Case& c, const Mot& g, const Mot& w, L s, L T, const std::string& key, const std::string& what)
  {
    const L eps = sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L;
    checkClose(c, g.p, w.p, 200*eps*s, key + ":pos", what + " position");
    checkClose(c, g.v, w.v, 2000*eps*s/T, key + ":vel", what + " velocity");
    checkClose(c, g.a, w.a, 10000*eps*s/(T*T), key + ":acc", what + " acceleration");
    c.count("states_checked");
  }
  template <typename R> Mot rnd(Case& c, double m)
  {
    Mot s; const bool rest = c.r.p(0.25);
    s.p = static_cast<R>(c.r.u(-m, m)); s.v = static_cast<R>(rest ? 0 : c.r.u(-m, m)); s.a = static_cast<R>(rest ? 0 : c.r.u(-m, m));
    return s;
  }
  template <typename R> typename Type<R>::Vector3 v3(const Mot& m)
  { return typename Type<R>::Vector3(static_cast<R>(m.p), static_cast<R>(m.v), static_cast<R>(m.a)); }

  template <typename R>
  Mot eval(const Interpolator<R>& in, const typename Type<R>::VectorX& f, R t, R T, int piece)
  {
    typename Type<R>::Vector4 q; for (int i = 0; i < 4; ++i) { q(i) = static_cast<R>(std::nan("")); }
    if (piece < 0) { in.selectFactors(q, f, t, T); } else { q = f.template segment<4>(4*piece); }
    Mot m = {(L)Tools::polynomValue(q, t/T), (L)(Tools::dPolynomValue(q, t/T)/T), (L)(Tools::ddPolynomValue(q, t/T)/(T*T))};
    return m;
  }

  template <typename R>
  void splines(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    const Interpolator<R> in;
    V f = V::Constant(12, static_cast<R>(c.r.p(0.5) ? std::nan("") : 1e3));
    const int n = c.r.i(1, 5);
    Mot la = {0, 0, 0}, lb = {0, 0, 0}; R lT = 1;
    for (int k = 0; k < n; ++k)
    {
      const double m = c.r.pick(std::vector<double>{0.1, 1, 10, 1000});
      Mot a = rnd<R>(c, m), b = rnd<R>(c, m);
      R T = static_cast<R>(c.r.p(0.1) ? std::pow(10, c.r.u(-4, 2)) : c.r.p(0.3) ? c.r.u(0.01, 0.1) : c.r.p(0.5) ? c.r.u(0.1, 2) : 0.1*c.r.i(1, 60));
      // some requests share a part with the one before, or all of it
      if (k && c.r.p(0.5)) { const int keep = c.r.i(1, 7); if (keep & 1) a = la; if (keep & 2) b = lb; if (keep & 4) T = lT; c.count("shared_requests"); }
      la = a; lb = b; lT = T;
      if (c.r.p(0.3)) { f = V::Constant(12, static_cast<R>(c.r.p(0.5) ? std::nan("") : 1e3)); }
      in.computePolynomialNormalisedFactors(f, v3<R>(a), v3<R>(b), T);
      c.desc << "[" << num(a.p) << "," << num(a.v) << "," << num(a.a) << "]->[" << num(b.p) << "," << num(b.v) << "," << num(b.a) << "] T=" << (double)T << "; ";
      const Ref ref(a, b, T);
      const L s = scale(a, b, T);
      cmp<R>(c, eval<R>(in, f, 0, T, -1), a, s, T, "start", "start");
      cmp<R>(c, eval<R>(in, f, T, T, -1), b, s, T, "end", "end");
      for (int q = 1; q <= 2; ++q)
      {
        const R t = static_cast<R>(q)*T/3;
        const Mot l = eval<R>(in, f, t, T, q - 1), r = eval<R>(in, f, t, T, q);
        cmp<R>(c, l, r, s, T, "junction", "junction " + std::to_string(q));
        // either side of the junction
        for (int e = -1; e <= 1; ++e)
        {
          const R te = t*(1 + static_cast<R>(e*1e-5));
          cmp<R>(c, eval<R>(in, f, te, T, -1), ref.at(te), s, T, "select", "around junction " + std::to_string(q));
        }
      }
      for (int e = 0; e < 8; ++e)
      {
        const R t = static_cast<R>(c.r.u())*T;
        cmp<R>(c, eval<R>(in, f, t, T, -1), ref.at(t), s, T, "path", "inside the spline");
      }
      c.h((uint64_t)(long)(1e6L*b.p)); c.h((uint64_t)(long)(1e6*T));
    }
    c.count("splines", n);
  }

  // a foot flown along its three axes, re-planned at every step, towards landings that may move
  template <typename R>
  void flight(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    HumanoidFootModel<R> foot(c.r.i(1, 10), static_cast<R>(0.1));
    Mot s[3], o[3];
    for (int a = 0; a < 3; ++a)
    {
      s[a] = rnd<R>(c, 1); o[a] = rnd<R>(c, 1);
      V v(3); v << static_cast<R>(s[a].p), static_cast<R>(s[a].v), static_cast<R>(s[a].a);
      if (a == 0) foot.setStateX(v); else if (a == 1) foot.setStateY(v); else foot.setStateZ(v);
    }
    const int n = c.r.i(2, 30);
    const R dt = static_cast<R>(c.r.u(0.005, 0.05));
    const bool moving = c.r.p(0.5);
    c.desc << "flight of " << n << " steps of " << (double)dt << (moving ? " moving landing" : "");
    const V yaw = foot.getStateYaw();
    for (int k = 0; k < n; ++k)
    {
      const R T = dt*static_cast<R>(n - k), t = k == n - 1 ? T : dt;
      for (int a = 0; a < 3; ++a)
      {
        if (moving && c.r.p(0.1)) { o[a] = rnd<R>(c, 1); }
        const V before[3] = {foot.getStateX(), foot.getStateY(), foot.getStateZ()};
        const Mot from = {(L)before[a](0), (L)before[a](1), (L)before[a](2)};
        if (a == 0) foot.updateStateX(v3<R>(o[a]), T, t); else if (a == 1) foot.updateStateY(v3<R>(o[a]), T, t); else foot.updateStateZ(v3<R>(o[a]), T, t);
        const V after[3] = {foot.getStateX(), foot.getStateY(), foot.getStateZ()};
        for (int b = 0; b < 3; ++b) if (b != a && !(after[b] == before[b])) c.fail("isolation", "moving one axis of the foot changed another");
        if (!(foot.getStateYaw() == yaw)) c.fail("isolation", "moving the foot changed its yaw");
        if (after[a].size() != 3) c.fail("size", "foot state size");
        const Mot g = {(L)after[a](0), (L)after[a](1), (L)after[a](2)};
        cmp<R>(c, g, Ref(from, o[a], T).at(t), scale(from, o[a], T), T, "foot", "foot axis " + std::to_string(a));
        c.count("foot_updates");
      }
    }
    // landed: exactly at the last requested end states
    const V z[3] = {foot.getStateX(), foot.getStateY(), foot.getStateZ()};
    for (int a = 0; a < 3; ++a)
    {
      const L eps = sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L;
      const L sc = 1e5*eps*(10 + 10/(dt*dt));
      checkClose(c, z[a](0), o[a].p, sc, "landing", "landing position");
    }
    c.h(n); c.h((uint64_t)(long)(1e7*dt));
  }
  template <typename R> void replan(Case& c)
  {
    // from a point of the spline to the same end over the remaining time
    typedef typename Type<R>::VectorX V;
    const Interpolator<R> in; V f = V::Zero(12);
    const Mot a = rnd<R>(c, 1), b = rnd<R>(c, 1);
    const R T = static_cast<R>(c.r.u(0.2, 2)), t = static_cast<R>(c.r.u(0.05, 0.9))*T;
    in.computePolynomialNormalisedFactors(f, v3<R>(a), v3<R>(b), T);
    const Mot p = eval<R>(in, f, t, T, -1);
    in.computePolynomialNormalisedFactors(f, v3<R>(p), v3<R>(b), T - t);
    const Mot pr = {(L)(R)p.p, (L)(R)p.v, (L)(R)p.a};
    cmp<R>(c, eval<R>(in, f, 0, T - t, -1), pr, scale(pr, b, T - t), T - t, "replan", "re-planned start");
    cmp<R>(c, eval<R>(in, f, T - t, T - t, -1), b, scale(pr, b, T - t), T - t, "replan", "re-planned end");
    c.h((uint64_t)(long)(1e7*T)); c.count("replans");
  }
  template <typename R> void one(Case& c)
  {
    const int k = c.r.i(0, 5);
    if (k < 3) splines<R>(c); else if (k < 5) flight<R>(c); else replan<R>(c);
    c.nontrivial = true;
  }
  void fn(Case& c) { if (c.r.p(0.3)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
