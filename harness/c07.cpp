// C07: CoP and CoM centring measure the true centre of pressure of the two-mass robot.
// needs: tools lineardynamic lip_model zebulon_base_model convexpolygon zebulon_cop_centering_objective zebulon_com_centering_objective
#include <ref.h>
#include <mpc-walkgen/function/zebulon_cop_centering_objective.h>
#include <mpc-walkgen/function/zebulon_com_centering_objective.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R> L tolOf() { return isF<R>() ? 1e-4L : 1e-11L; }

  struct Robot { L mc, mb, hc, hb, g[3]; Mot c[2], b[2]; int N; L T; };

  // base-relative centre of pressure (kind 0) or body centre of mass (kind 1) at every sample, x axis then y axis
  Vec relative(const Robot& r, const Vec& u, int kind)
  {
    Vec out;
    for (int a = 0; a < 2; ++a)
    {
      const std::vector<Mot> c = preview(r.c[a], sub(u, a*r.N, r.N), r.T, r.T), b = preview(r.b[a], sub(u, (2 + a)*r.N, r.N), r.T, r.T);
      for (int i = 0; i < r.N; ++i)
        out.push_back((kind ? c[i].p : (r.mc*copOf(c[i], r.hc, r.g[a], r.g[2]) + r.mb*copOf(b[i], r.hb, r.g[a], r.g[2]))/(r.mc + r.mb)) - b[i].p);
    }
    return out;
  }

  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    int N = c.r.tail(1, 10, isF<R>() ? 14 : 30); R T = static_cast<R>(c.r.u(0.03, 0.4));
    LIPModel<R> lip(N, T, true);
    BaseModel<R> base(N, T, true);
    const bool massless = c.r.p(0.25);
    R mc = 1, mb = 0, hc = 1, hb = 0; V3 g(0, 0, static_cast<R>(9.81));
    CopCenteringObjective<R> cop(lip, base);
    ComCenteringObjective<R> com(lip, base);
    V copRef = V::Zero(2*N), comRef = V::Zero(2*N), shift = V::Zero(2*N);
    const double unit = c.r.p(0.8) ? 1 : std::pow(10, c.r.u(massless ? -2 : -1, 2)); if (unit < 0.2 || unit > 10) c.count("unusual_masses");
    auto masses = [&]() {
      mc = near<R>(c, mc, static_cast<R>(unit*c.r.u(0.5, 40))); mb = massless ? 0 : nearPos<R>(c, mb, static_cast<R>(unit*(c.r.p(0.2) ? c.r.u(0.01, 0.1) : c.r.u(0.5, 40))));
      const R big = 20000; lip.setTotalMass(big); base.setTotalMass(big);
      lip.setMass(mc); if (!massless) { base.setMass(mb); }
      lip.setTotalMass(mc + mb); base.setTotalMass(mc + mb);
      cop.computeConstantPart(); com.updateGravityShift(); };
    auto gravity = [&]() {
      g = near<R>(c, g, V3(static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(-3, 3)), static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(-3, 3)), static_cast<R>(c.r.u(4, 12))));
      lip.setGravity(g); base.setGravity(g); cop.computeConstantPart(); com.updateGravityShift(); };
    auto heights = [&]() {
      hc = near<R>(c, hc, static_cast<R>(c.r.u(0.2, 1.5))); hb = near<R>(c, hb, static_cast<R>(c.r.p(0.2) ? 0 : c.r.u(0.02, 0.5)));
      lip.setComHeight(hc); base.setComHeight(hb); cop.computeConstantPart(); com.updateGravityShift(); };
    auto mean = [&](int a) { return ((L)mc*hc + (L)mb*hb)/((L)mc + mb)*g(a)/g(2); };
    auto robot = [&]() {
      Robot r; r.mc = mc; r.mb = mb; r.hc = hc; r.hb = hb; for (int i = 0; i < 3; ++i) r.g[i] = g(i);
      r.c[0] = mot(lip.getStateX()); r.c[1] = mot(lip.getStateY()); r.b[0] = mot(base.getStateX()); r.b[1] = mot(base.getStateY());
      r.N = N; r.T = T; return r; };
    masses(); if (c.r.p(0.8)) gravity(); if (c.r.p(0.8)) heights();
    Vec wcop;         // reference given in the world frame: what the motion below produces
    Vec wx; bool world = false;
    V cp = copRef, cmr = comRef;
    Vec copR = toVec(copRef), comR = toVec(comRef);
    const int ops = c.r.i(1, 12);
    uint64_t hist = massless;
    c.desc << (massless ? "massless base," : "two masses,") << " N=" << N << " T=" << (double)T << ":";
    auto fixedRefs = [&]() { cp = near<R>(c, cp, rndRef<R>(c, N, 0.5)); cmr = near<R>(c, cmr, rndRef<R>(c, N, 0.5)); cop.setCopRefInLocalFrame(cp); com.setComRefInLocalFrame(cmr); copR = toVec(cp); comR = toVec(cmr); world = false; };
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 9);
      hist = mix(hist*31 + k); c.desc << " " << k;
      switch (k)
      {
        case 0: masses(); world = false; break;
        case 1: gravity(); world = false; break;
        case 2: heights(); world = false; break;
        case 3: lip.setStateX(near<R>(c, lip.getStateX(), rndState<R>(c, 1, 1, 2))); base.setStateY(near<R>(c, base.getStateY(), rndState<R>(c, 1, 1, 2))); world = false; break;
        case 4: lip.setStateY(near<R>(c, lip.getStateY(), rndState<R>(c, 1, 1, 2))); base.setStateX(near<R>(c, base.getStateX(), rndState<R>(c, 1, 1, 2))); world = false; break;
        case 5: fixedRefs(); break;
        case 6:
          if (c.r.p(0.5)) { T = near<R>(c, T, static_cast<R>(c.r.u(0.03, 0.4))); lip.setSamplingPeriod(T); base.setSamplingPeriod(T); cop.computeConstantPart(); com.computeConstantPart(); }
          else
          {
            N = c.r.tail(1, 10, isF<R>() ? 14 : 30); lip.setNbSamples(N); base.setNbSamples(N); com.setNbSamples(N);
            if (c.r.p(0.5)) { com.updateGravityShift(); cop.computeConstantPart(); com.computeConstantPart(); }
            else { cop.computeConstantPart(); com.computeConstantPart(); com.updateGravityShift(); }
            fixedRefs();
          }
          world = false; break;
        default:
        {
          // the centre of pressure of a real motion, as reference in the world frame
          const Robot r = robot();
          wx = toVec(rndVec<R>(c, 4*N, c.r.p(0.2) ? 0 : 5));
          V q[4]; for (int i = 0; i < 4; ++i) q[i] = V::Zero(2*N);
          for (int a = 0; a < 2; ++a)
          {
            const std::vector<Mot> pc = preview(r.c[a], sub(wx, a*N, N), r.T, r.T), pb = preview(r.b[a], sub(wx, (2 + a)*N, N), r.T, r.T);
            for (int i = 0; i < N; ++i)
            { q[0](a*N + i) = static_cast<R>(pc[i].p); q[1](a*N + i) = static_cast<R>(pc[i].a); q[2](a*N + i) = static_cast<R>(pb[i].p); q[3](a*N + i) = static_cast<R>(pb[i].a); }
          }
          cop.setCopRefInWorldFrame(q[0], q[1], q[2], q[3]);
          copR = relative(r, wx, 0); world = true; c.count("world_references");
          if (g(0) != 0 || g(1) != 0) { c.count("world_references_horizontal_gravity"); }
          if (massless) { c.count("world_references_massless"); }
        }
      }
      const Robot r = robot();
      const V xv = rndVec<R>(c, 4*N, c.r.pick(std::vector<double>{0, 1, 20}));
      const Vec x = toVec(xv);
      const L tol = tolOf<R>();
      Aff a([&](const Vec& u) { return relative(r, u, 0); }, 4*N);
      a.cancel = a.maxR() + 2; a.under = (L)T*(N*(L)T)*(N*(L)T)/2;
      for (int i = 0; i < 2*N; ++i) { a.r0[i] -= copR[i]; }
      checkQuad<R>(c, cop.getHessian(), cop.getGradient(xv), x, a, "cop", "CoP centring", tol);
      if (world)
      {
        V wv(4*N); for (int i = 0; i < 4*N; ++i) wv(i) = static_cast<R>(wx[i]);
        const typename Type<R>::MatrixX gr = cop.getGradient(wv);
        L mj = a.maxJ(); const L sc = tol*2*N*(mj + 1e-3L)*(a.maxR() + 4*N*mj*5 + 2);
        for (int i = 0; i < 4*N; ++i) checkClose(c, gr(i, 0), 0, sc, "cop:world", "gradient at the motion that produced the reference");
      }
      Aff b([&](const Vec& u) { return relative(r, u, 1); }, 4*N);
      b.cancel = b.maxR() + 2;
      for (int i = 0; i < 2*N; ++i) { b.r0[i] -= comR[i] + mean(i/N); }
      checkQuad<R>(c, com.getHessian(), com.getGradient(xv), x, b, "com", "CoM centring", tol);
      c.state(hist & 0xffffff);
    }
    c.h(hist); c.h(N); c.h((uint64_t)(1e7*T)); c.nontrivial = true;
  }
  void fn(Case& c) { if (c.r.p(0.3)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
