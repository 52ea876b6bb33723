// C09: base and trajectory constraints admit exactly the motions within the limits.
// needs: tools lineardynamic lip_model zebulon_base_model no_dynamic_model convexpolygon zebulon_cop_constraint zebulon_com_constraint zebulon_tilt_motion_constraint zebulon_base_motion_constraint trajectory_motion_constraint
#include <walk.h>
#include <mpc-walkgen/convexpolygon.h>
#include <mpc-walkgen/function/zebulon_cop_constraint.h>
#include <mpc-walkgen/function/zebulon_com_constraint.h>
#include <mpc-walkgen/function/zebulon_tilt_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_base_motion_constraint.h>
#include <mpc-walkgen/function/trajectory_motion_constraint.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R> L tolOf() { return isF<R>() ? 3e-4L : 1e-11L; }

  // rows of "A dx >= f(x0)" (or f <= A dx <= g) as rows on x = x0 + dx
  template <typename M, typename V, typename W>
  std::vector<Row> rowsOf(Case& c, const M& A, const V* lo, const V* hi, const W& x0, const std::string& where)
  {
    if ((lo && lo->size() != A.rows()) || (hi && hi->size() != A.rows()) || A.cols() != x0.size())
      c.fail("size", where + ": " + std::to_string(A.rows()) + "x" + std::to_string(A.cols()) + " rows, bounds of another size");
    std::vector<Row> r(A.rows());
    for (int i = 0; i < A.rows(); ++i)
    {
      L s = 0; r[i].a.resize(A.cols());
      for (int k = 0; k < A.cols(); ++k) { r[i].a[k] = A(i, k); s += (L)A(i, k)*x0(k); }
      r[i].lo = lo ? (L)(*lo)(i) + s : -(L)INFINITY; r[i].hi = hi ? (L)(*hi)(i) + s : (L)INFINITY; r[i].sc = 0;
    }
    return r;
  }

  typedef std::vector<std::pair<L, L> > Pts;
  // points in convex position around a centre
  template <typename R>
  Pts ring(Case& c, L cx, L cy, L radius)
  {
    const int n = c.r.i(3, 10); const double a0 = c.r.u(0, 6.28), st = 6.283185307179586/n;
    const L ex = c.r.p(0.3) ? c.r.u(0.3, 1) : 1;
    Pts p;
    for (int i = 0; i < n; ++i)
    {
      const double a = a0 + st*(i + (n > 3 ? c.r.u(-0.2, 0.2) : 0.));
      p.push_back(std::make_pair((L)(R)(cx + radius*ex*cosl(a)), (L)(R)(cy + radius*sinl(a))));
    }
    return p;
  }
  // rectangles and other shapes with edges along the axes
  template <typename R>
  Pts box(Case& c, L cx, L cy, L h, L w)
  {
    Pts p;
    const L x0 = (R)(cx - h), x1 = (R)(cx + h), y0 = (R)(cy - w), y1 = (R)(cy + w);
    p.push_back(std::make_pair(x0, y0)); p.push_back(std::make_pair(x1, y0)); p.push_back(std::make_pair(x1, y1)); p.push_back(std::make_pair(x0, y1));
    if (c.r.p(0.3)) { p.erase(p.begin() + c.r.i(0, 3)); }
    return p;
  }
  // counter-clockwise hull by gift wrapping in extended precision (points in convex position)
  Pts ccw(Pts p)
  {
    L cx = 0, cy = 0; for (size_t i = 0; i < p.size(); ++i) { cx += p[i].first/p.size(); cy += p[i].second/p.size(); }
    std::sort(p.begin(), p.end(), [&](const std::pair<L, L>& a, const std::pair<L, L>& b) { return atan2l(a.second - cy, a.first - cx) < atan2l(b.second - cy, b.first - cx); });
    for (size_t i = 0; i < p.size(); ++i)
    {
      const std::pair<L, L>&o = p[i], &a = p[(i + 1)%p.size()], &b = p[(i + 2)%p.size()];
      const L cr = (a.first - o.first)*(b.second - a.second) - (a.second - o.second)*(b.first - a.first);
      if (cr < 1e-3L*hypotl(a.first - o.first, a.second - o.second)*hypotl(b.first - a.first, b.second - a.second)) { throw Skip("points not clearly in convex position"); }
      if (hypotl(a.first - o.first, a.second - o.second) < 2e-3L) { throw Skip("points too close"); }
    }
    return p;
  }
  template <typename R>
  ConvexPolygon<R> poly(Case& c, const Pts& p)
  {
    typename Type<R>::vectorOfVector2 v;
    std::vector<int> idx; for (size_t i = 0; i < p.size(); ++i) idx.push_back((int)i);
    for (size_t i = p.size(); i > 1; --i) std::swap(idx[i - 1], idx[c.r.i(0, (int)i - 1)]);
    for (size_t i = 0; i < idx.size(); ++i) v.push_back(typename Type<R>::Vector2((R)p[idx[i]].first, (R)p[idx[i]].second));
    L sx = 0, sy = 0; for (size_t i = 0; i < p.size(); ++i) { sx += p[i].first/p.size(); sy += p[i].second/p.size(); }
    if (c.r.p(0.3)) { v.push_back(typename Type<R>::Vector2((R)sx, (R)sy)); }
    return ConvexPolygon<R>(v);
  }

  struct Robot { L mc, mb, hc, hb, g[3]; Mot c[2], b[2]; int N; L T; };
  Vec relative(const Robot& r, const Vec& u, int kind)
  {
    Vec out;
    for (int a = 0; a < 2; ++a)
    {
      const std::vector<Mot> c = preview(r.c[a], vh::sub(u, a*r.N, r.N), r.T, r.T), b = preview(r.b[a], vh::sub(u, (2 + a)*r.N, r.N), r.T, r.T);
      for (int i = 0; i < r.N; ++i)
      {
        if (kind == 1) { out.push_back(c[i].p - b[i].p); continue; }
        const L zc = copOf(c[i], r.hc, r.g[a], r.g[2]), zb = copOf(b[i], r.hb, r.g[a], r.g[2]);
        out.push_back((r.mc*zc + r.mb*zb)/(r.mc + r.mb) - b[i].p);
      }
    }
    return out;
  }

  // inside tests on the path itself: min over samples and edges of the signed distance
  L inside(const Vec& z, int N, const Pts& p)
  {
    L m = 1e30L;
    for (int i = 0; i < N; ++i) for (size_t e = 0; e < p.size(); ++e)
    {
      const std::pair<L, L>&a = p[e], &b = p[(e + 1)%p.size()];
      const L dx = b.first - a.first, dy = b.second - a.second;
      m = std::min(m, (dx*(z[N + i] - a.second) - dy*(z[i] - a.first))/hypotl(dx, dy));
    }
    return m;
  }

  std::vector<Row> supportRows(const Aff& z, int N, const Pts& p)
  {
    std::vector<Row> rows;
    for (size_t e = 0; e < p.size(); ++e) for (int i = 0; i < N; ++i)
    {
      const std::pair<L, L>&a = p[e], &b = p[(e + 1)%p.size()];
      const L dx = b.first - a.first, dy = b.second - a.second;
      Row r; r.a.resize(z.n);
      for (int k = 0; k < z.n; ++k) { r.a[k] = dx*z.J[k][N + i] - dy*z.J[k][i]; }
      r.lo = -(dx*(z.r0[N + i] - a.second) - dy*(z.r0[i] - a.first)); r.hi = (L)INFINITY;
      r.sc = (std::fabs(dx) + std::fabs(dy))*(std::fabs(a.first) + std::fabs(a.second) + z.cancel + z.maxR());
      rows.push_back(r);
    }
    return rows;
  }
  void addScale(std::vector<Row>& want, const Vec& x0)
  {
    L mx = 0; for (size_t i = 0; i < x0.size(); ++i) mx = std::max(mx, std::fabs(x0[i]));
    for (size_t i = 0; i < want.size(); ++i)
    { L s = 0; for (size_t k = 0; k < x0.size(); ++k) s += std::fabs(want[i].a[k]); want[i].sc += s*mx; }
  }

  template <typename R>
  void base(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3; typedef typename Type<R>::MatrixX MX;
    int N = c.r.tail(1, 8, 20); R T = static_cast<R>(c.r.u(0.05, 0.4));
    LIPModel<R> lip(N, T, true);
    BaseModel<R> base(N, T, true);
    const bool massless = c.r.p(0.25);
    R mc = 1, mb = 0, hc = 1, hb = 0; V3 g(0, 0, static_cast<R>(9.81));
    R vl = 1, al = 1, yaw = 0;
    Pts pcop = ccw(ring<R>(c, 0, 0, 0.1L)), pcom = ccw(ring<R>(c, 0, 0, 0.1L));
    base.setCopSupportConvexPolygon(poly<R>(c, pcop)); base.setComSupportConvexPolygon(poly<R>(c, pcom));
    CopConstraint<R> cop(lip, base); ComConstraint<R> com(lip, base); TiltMotionConstraint<R> tilt(lip, base); BaseMotionConstraint<R> mot_(base);
    auto constant = [&]() { cop.computeConstantPart(); com.computeConstantPart(); tilt.computeConstantPart(); mot_.computeConstantPart(); };
    auto masses = [&]() {
      mc = near<R>(c, mc, static_cast<R>(c.r.u(0.5, 40))); mb = massless ? 0 : nearPos<R>(c, mb, static_cast<R>(c.r.p(0.2) ? c.r.u(0.01, 0.1) : c.r.u(0.5, 40)));
      lip.setTotalMass(200); base.setTotalMass(200);
      lip.setMass(mc); if (!massless) { base.setMass(mb); }
      lip.setTotalMass(mc + mb); base.setTotalMass(mc + mb); cop.computeConstantPart(); };
    auto gravity = [&]() {
      g = near<R>(c, g, V3(static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(-3, 3)), static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(-3, 3)), static_cast<R>(c.r.u(4, 12))));
      lip.setGravity(g); base.setGravity(g); cop.computeConstantPart(); };
    auto heights = [&]() {
      hc = near<R>(c, hc, static_cast<R>(c.r.u(0.2, 1.5))); hb = near<R>(c, hb, static_cast<R>(c.r.p(0.2) ? 0 : c.r.u(0.02, 0.5)));
      lip.setComHeight(hc); base.setComHeight(hb); cop.computeConstantPart(); };
    auto robot = [&]() {
      Robot r; r.mc = mc; r.mb = mb; r.hc = hc; r.hb = hb; for (int i = 0; i < 3; ++i) r.g[i] = g(i);
      r.c[0] = mot(lip.getStateX()); r.c[1] = mot(lip.getStateY()); r.b[0] = mot(base.getStateX()); r.b[1] = mot(base.getStateY());
      r.N = N; r.T = T; return r; };
    // a polygon which contains the path of the current motion with control u, or anything
    auto shape = [&](int kind) {
      const Robot r = robot(); const Vec u(4*N, 0);
      const Vec z = relative(r, u, kind);
      L x0 = 1e30L, x1 = -1e30L, y0 = 1e30L, y1 = -1e30L;
      for (int i = 0; i < N; ++i) { x0 = std::min(x0, z[i]); x1 = std::max(x1, z[i]); y0 = std::min(y0, z[N + i]); y1 = std::max(y1, z[N + i]); }
      const L rad = (0.02L + (x1 - x0) + (y1 - y0))*c.r.u(1, 3);
      const bool around = c.r.p(0.6);
      const L cx = around ? (x0 + x1)/2 : c.r.u(-2, 2), cy = around ? (y0 + y1)/2 : c.r.u(-2, 2);
      c.desc << (around ? "~" : "!");
      const Pts fresh = ccw(c.r.p(0.7) ? ring<R>(c, cx, cy, rad) : box<R>(c, cx, cy, rad, rad*c.r.u(0.6, 1.5)));
      return nearPoly<R>(c, kind ? pcom : pcop, fresh);
    };
    if (c.r.p(0.9)) masses(); if (c.r.p(0.8)) gravity(); if (c.r.p(0.8)) heights();
    uint64_t hist = massless;
    c.desc << (massless ? "massless base," : "two masses,") << " N=" << N << " T=" << (double)T << ":";
    const int ops = c.r.i(1, 10);
    for (int o = 0; o < ops; ++o)
    {
      const int k = c.r.i(0, 10);
      hist = mix(hist*31 + k); c.desc << " " << k;
      switch (k)
      {
        case 0: masses(); break;
        case 1: gravity(); break;
        case 2: heights(); break;
        case 3: lip.setStateX(near<R>(c, lip.getStateX(), rndState<R>(c, 1, 0.5, 0.5))); base.setStateY(near<R>(c, base.getStateY(), rndState<R>(c, 1, 0.5, 0.5))); break;
        case 4: lip.setStateY(near<R>(c, lip.getStateY(), rndState<R>(c, 1, 0.5, 0.5))); base.setStateX(near<R>(c, base.getStateX(), rndState<R>(c, 1, 0.5, 0.5))); break;
        case 5: case 6: pcop = shape(0); base.setCopSupportConvexPolygon(poly<R>(c, pcop)); cop.computeConstantPart(); break;
        case 7: pcom = shape(1); base.setComSupportConvexPolygon(poly<R>(c, pcom)); com.computeConstantPart(); break;
        case 8:
          if (c.r.p(0.5)) { T = near<R>(c, T, static_cast<R>(c.r.u(0.05, 0.4))); lip.setSamplingPeriod(T); base.setSamplingPeriod(T); }
          else { N = c.r.tail(1, 8, 20); lip.setNbSamples(N); base.setNbSamples(N); c.count("resizes"); }
          constant(); break;
        case 9: vl = near<R>(c, vl, static_cast<R>(c.r.p(0.1) ? 0 : c.r.u(0.01, 3))); al = near<R>(c, al, static_cast<R>(c.r.p(0.1) ? 0 : c.r.u(0.01, 6))); base.setVelocityLimit(vl); base.setAccelerationLimit(al); break;
        default:
        {
          yaw = near<R>(c, yaw, static_cast<R>(c.r.p(0.15) ? 1.5707963267949*c.r.i(-2, 2) + (c.r.p(0.5) ? 1 : -1)*std::pow(10, c.r.u(-5, -1)) : c.r.p(0.3) ? 0.785398163397448*c.r.i(-4, 4) : c.r.u(-3.1, 3.1)));
          V y = V::Zero(3); y(0) = yaw; base.setStateYaw(y); tilt.computeConstantPart();
        }
      }
      const Robot r = robot();
      const L tol = tolOf<R>();
      const V x0 = rndVec<R>(c, 4*N, c.r.pick(std::vector<double>{0, 0, 1, 10}));
      const Vec x0v = toVec(x0);
      const Aff z([&](const Vec& u) { return relative(r, u, 0); }, 4*N), d([&](const Vec& u) { return relative(r, u, 1); }, 4*N);
      Aff* both[2] = {const_cast<Aff*>(&z), const_cast<Aff*>(&d)};
      std::vector<Row> got[2];
      for (int k2 = 0; k2 < 2; ++k2)
      {
        both[k2]->cancel = 3;
        const Pts& p = k2 ? pcom : pcop;
        const std::string nm = k2 ? "com" : "cop", wh = k2 ? "CoM support" : "CoP support";
        const V f = k2 ? com.getFunction(x0) : cop.getFunction(x0);
        const MX A = k2 ? com.getGradient() : cop.getGradient();
        const int nb = k2 ? com.getNbConstraints() : cop.getNbConstraints();
        if (nb != (int)(p.size()*N)) c.fail(nm + ":count", wh + ": " + std::to_string(nb) + " constraints for " + std::to_string(p.size()) + " edges and " + std::to_string(N) + " samples");
        got[k2] = rowsOf(c, A, &f, (V*)0, x0, wh);
        std::vector<Row> want = supportRows(*both[k2], N, p);
        addScale(want, x0v);
        matchRows(c, got[k2], want, tol, false, nm, wh);
        // acceptance of whole control sequences against the simulated path
        for (int t = 0; t < 4; ++t)
        {
          const Vec u = toVec(rndVec<R>(c, 4*N, c.r.pick(std::vector<double>{0.1, 1, 3})));
          const Vec path = both[k2]->at(u);
          const L m = inside(path, N, p);
          bool ok = true; L worst = 1e30L;
          for (size_t i = 0; i < got[k2].size(); ++i)
          {
            L s = -got[k2][i].lo; for (int q = 0; q < 4*N; ++q) s += got[k2][i].a[q]*u[q];
            worst = std::min(worst, s); if (s < 0) { ok = false; }
          }
          const L dead = isF<R>() ? 1e-2L : 1e-7L;
          if (m > dead && !ok) c.fail(nm + ":rejects", wh + ": a motion inside by " + num(m) + " is rejected (" + num(worst) + ")");
          if (m < -dead && ok) c.fail(nm + ":accepts", wh + ": a motion outside by " + num(-m) + " is accepted (" + num(worst) + ")");
          c.count(m > 0 ? nm + "_motions_inside" : nm + "_motions_outside");
        }
      }
      {
        const V b0 = x0.segment(2*N, 2*N);
        const V lo = mot_.getFunctionInf(b0), hi = mot_.getFunctionSup(b0);
        const MX A = mot_.getGradient();
        const Aff w([&](const Vec& u) {
          Vec out;
          for (int a = 0; a < 2; ++a) { const std::vector<Mot> b = preview(r.b[a], vh::sub(u, a*N, N), T, T); for (int i = 0; i < N; ++i) { out.push_back(b[i].v); } for (int i = 0; i < N; ++i) { out.push_back(b[i].a); } }
          return out; }, 2*N);
        std::vector<Row> want;
        for (int i = 0; i < w.m; ++i)
        {
          Row q; q.a.resize(2*N); for (int k2 = 0; k2 < 2*N; ++k2) q.a[k2] = w.J[k2][i];
          const L lim = (i/N)%2 ? al : vl; q.lo = -lim - w.r0[i]; q.hi = lim - w.r0[i]; q.sc = lim + w.maxR() + 1; want.push_back(q);
        }
        addScale(want, toVec(b0));
        if (mot_.getNbConstraints() != 4*N) c.fail("motion:count", "base motion: " + std::to_string(mot_.getNbConstraints()));
        matchRows(c, rowsOf(c, A, &lo, &hi, b0, "base motion"), want, tol, false, "motion", "base motion");
      }
      {
        const V f = tilt.getFunction(x0); const MX A = tilt.getGradient();
        const L s = sinl((L)yaw), k3 = cosl((L)yaw);
        const Aff w([&](const Vec& u) {
          Vec out;
          for (int m = 0; m < 2; ++m)
          {
            const std::vector<Mot> px = preview(m ? r.b[0] : r.c[0], vh::sub(u, 2*m*N, N), T, T), py = preview(m ? r.b[1] : r.c[1], vh::sub(u, (2*m + 1)*N, N), T, T);
            for (int i = 0; i < N; ++i) { out.push_back(px[i].v*s - py[i].v*k3); }
          }
          return out; }, 4*N);
        std::vector<Row> want;
        for (int i = 0; i < w.m; ++i)
        {
          Row q; q.a.resize(4*N); for (int k2 = 0; k2 < 4*N; ++k2) q.a[k2] = w.J[k2][i];
          q.lo = q.hi = -w.r0[i]; q.sc = 3; want.push_back(q);
        }
        addScale(want, x0v);
        if (tilt.getNbConstraints() != 2*N) c.fail("tilt:count", "tilt motion: " + std::to_string(tilt.getNbConstraints()));
        matchRows(c, rowsOf(c, A, &f, &f, x0, "tilt motion"), want, tol, true, "tilt", "tilt motion");
      }
      c.count("evaluations");
      c.state(hist & 0xffffff);
    }
    c.h(hist); c.h(N); c.h((uint64_t)(1e7*T)); c.nontrivial = true;
  }

  template <typename R>
  void traj(Case& c)
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::MatrixX MX;
    int N = c.r.tail(1, 20, 50); R T = static_cast<R>(c.r.u(0.02, 0.6));
    NoDynamicModel<R> m(N, T, true);
    MotionConstraint<R> k(m);
    R vl = 1, al = 1; uint64_t hist = 7;
    c.desc << "trajectory, N=" << N << " T=" << (double)T << ":";
    const int ops = c.r.i(1, 8);
    for (int o = 0; o < ops; ++o)
    {
      const int op = c.r.i(0, 3); hist = mix(hist*31 + op); c.desc << " " << op;
      switch (op)
      {
        case 0: m.setState(near<R>(c, m.getState(), rndState<R>(c, 1, 1, 2))); break;
        case 1: vl = near<R>(c, vl, static_cast<R>(c.r.p(0.1) ? 0 : c.r.u(0.01, 3))); m.setVelocityLimit(vl); break;
        case 2: al = near<R>(c, al, static_cast<R>(c.r.p(0.1) ? 0 : c.r.u(0.01, 6))); m.setAccelerationLimit(al); break;
        default:
          if (c.r.p(0.5)) { T = near<R>(c, T, static_cast<R>(c.r.u(0.02, 0.6))); m.setSamplingPeriod(T); } else { N = c.r.tail(1, 20, 50); m.setNbSamples(N); c.count("resizes"); }
          k.computeConstantPart();
      }
      const V x0 = rndVec<R>(c, N, c.r.pick(std::vector<double>{0, 1, 10}));
      const V lo = k.getFunctionInf(x0), hi = k.getFunctionSup(x0);
      const MX A = k.getGradient();
      const Mot s = mot(m.getState());
      const Aff w([&](const Vec& u) { const std::vector<Mot> p = preview(s, u, T, T); Vec out; for (int i = 0; i < N; ++i) out.push_back(p[i].v); for (int i = 0; i < N; ++i) out.push_back(p[i].a); return out; }, N);
      std::vector<Row> want;
      for (int i = 0; i < w.m; ++i)
      {
        Row q; q.a.resize(N); for (int k2 = 0; k2 < N; ++k2) q.a[k2] = w.J[k2][i];
        const L lim = i < N ? vl : al; q.lo = -lim - w.r0[i]; q.hi = lim - w.r0[i]; q.sc = lim + w.maxR() + 1; want.push_back(q);
      }
      addScale(want, toVec(x0));
      if (k.getNbConstraints() != 2*N) c.fail("trajectory:count", "trajectory motion: " + std::to_string(k.getNbConstraints()));
      matchRows(c, rowsOf(c, A, &lo, &hi, x0, "trajectory motion"), want, tolOf<R>(), false, "trajectory", "trajectory motion");
      c.count("evaluations"); c.state(hist & 0xffffff);
    }
    c.h(hist); c.h(N); c.nontrivial = true;
  }
  void fn(Case& c)
  {
    const bool f = c.r.p(0.3);
    if (c.r.p(0.25)) { if (f) traj<float>(c); else traj<double>(c); }
    else { if (f) base<float>(c); else base<double>(c); }
  }
}
VH_MAIN(fn)
