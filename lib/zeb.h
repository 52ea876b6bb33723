// The configuration of a mobile-base generator, and the program it has to solve, from first principles.
#pragma once
#include <qpref.h>
#include <walk.h>
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/zebulon_walkgen.h>

namespace vh
{
  struct ZRobot { L mc, mb, hc, hb, g[3], px, py, psi[2], dpsi[2]; Mot c[2], b[2]; int N; L T; };

  // base-relative centre of pressure (kind 0) or body centre of mass (kind 1), x axis then y axis
  inline Vec zRelative(const ZRobot& r, const Vec& u, int kind)
  {
    Vec out;
    for (int a = 0; a < 2; ++a)
    {
      const std::vector<Mot> c = preview(r.c[a], vh::sub(u, a*r.N, r.N), r.T, r.T), b = preview(r.b[a], vh::sub(u, (2 + a)*r.N, r.N), r.T, r.T);
      for (int i = 0; i < r.N; ++i)
        out.push_back((kind ? c[i].p : (r.mc*copOf(c[i], r.hc, r.g[a], r.g[2]) + r.mb*copOf(b[i], r.hb, r.g[a], r.g[2]))/(r.mc + r.mb)) - b[i].p);
    }
    return out;
  }
  // the documented tilt equation, second derivative constant over each period
  inline Vec zTilt(const ZRobot& r, const Vec& u, int order)
  {
    Vec out;
    const L g = MPCWalkgen::Constant<double>::GRAVITY_NORM, A1 = g*(r.mc*r.hc + r.mb*r.hb), A6 = r.mc*r.hc*r.hc + r.mb*r.hb*r.hb;
    for (int a = 0; a < 2; ++a)
    {
      const std::vector<Mot> c = preview(r.c[a], vh::sub(u, a*r.N, r.N), r.T, r.T), d = preview(r.b[a], vh::sub(u, (2 + a)*r.N, r.N), r.T, r.T);
      L p = r.psi[a], v = r.dpsi[a];
      for (int i = 0; i < r.N; ++i)
      {
        const L rhs = r.mc*g*(c[i].p - d[i].p) - r.mb*g*(a ? r.py : r.px) - r.mc*r.hc*c[i].a - r.mb*r.hb*d[i].a;
        const L acc = (rhs - A1*(p + r.T*v))/(A1*r.T*r.T/2 - A6);
        p += r.T*v + r.T*r.T*acc/2; v += r.T*acc;
        out.push_back(order ? v : p);
      }
    }
    return out;
  }
  inline bool zTiltMeaningful(const ZRobot& r)
  {
    const L g = MPCWalkgen::Constant<double>::GRAVITY_NORM;
    return r.T <= 0.22L && r.hc >= 0.5L && g*(r.mc*r.hc + r.mb*r.hb)*r.T*r.T/2 < 0.6L*(r.mc*r.hc*r.hc + r.mb*r.hb*r.hb);
  }

  template <typename R>
  struct Zeb
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    typedef MPCWalkgen::ZebulonWalkgen<R> Gen;
    enum Field { NBS, PERIOD, GRAVITY, COPPOLY, COMPOLY, BODYH, BASEH, BODYM, BASEM, VELREF, POSREF, CENTREF, VELLIM, ACCLIM, JERKLIM, BX, BY, ROLL, PITCH, YAW, CX, CY, PX, PY, WEIGHTS, CONFIG, FIELDS };
    static const char* name(int f)
    {
      static const char* n[] = {"N", "T", "gravity", "copPolygon", "comPolygon", "bodyHeight", "baseHeight", "bodyMass", "baseMass", "velRef", "posRef", "centringRef", "velLimit", "accLimit", "jerkLimit",
                                "baseX", "baseY", "roll", "pitch", "yaw", "comX", "comY", "contactX", "contactY", "weights", "config"};
      return n[f];
    }
    int N; R T; V3 g; Pts cop, com; R hc, hb, mc, mb; V vr, pr, copr, comr, wr[4]; bool world, massless, hull;
    R vL, aL, jL; V s[4], roll, pitch, yaw; R px, py;   // s: com x, com y, base x, base y
    MPCWalkgen::ZebulonWalkgenWeighting<R> w; MPCWalkgen::ZebulonWalkgenConfig<R> q;
    double amp; bool withTilt;

    explicit Zeb(Case& c, int maxN = 6) : world(false), massless(c.r.p(0.2)), hull(c.r.p(0.3)), amp(c.r.pick(std::vector<double>{0.3, 1})), withTilt(c.r.p(0.3))
    {
      N = c.r.i(1, maxN);
      roll = pitch = yaw = V::Zero(3);
      mb = 0; px = py = 0; T = hc = hb = mc = vL = aL = jL = (R)NAN; g.fill((R)NAN);
      const int first[] = {PERIOD, GRAVITY, BODYH, BASEH, BODYM, BASEM, VELLIM, ACCLIM, JERKLIM, VELREF, POSREF, BX, BY, CX, CY, CENTREF, ROLL, PITCH, YAW, PX, PY, WEIGHTS, CONFIG, COPPOLY, COMPOLY};
      for (size_t i = 0; i < sizeof first/sizeof *first; ++i) { pick(c, first[i]); }
    }
    ZRobot robot() const
    {
      ZRobot r; r.mc = mc; r.mb = mb; r.hc = hc; r.hb = hb; for (int i = 0; i < 3; ++i) r.g[i] = g(i);
      for (int a = 0; a < 2; ++a) { r.c[a] = mot(s[a]); r.b[a] = mot(s[2 + a]); }
      r.psi[0] = roll(0); r.dpsi[0] = roll(1); r.psi[1] = pitch(0); r.dpsi[1] = pitch(1); r.px = px; r.py = py; r.N = N; r.T = T;
      return r;
    }
    // another value for one field (fields which must follow it are picked as well); the fields changed, in a legal order
    std::vector<int> pick(Case& c, int f)
    {
      std::vector<int> ch(1, f);
      switch (f)
      {
        case NBS: N = c.r.i(1, 6); { const int z[] = {VELREF, POSREF, CENTREF}; for (int i = 0; i < 3; ++i) { pick(c, z[i]); ch.push_back(z[i]); } } break;
        case PERIOD: T = near<R>(c, T, (R)(c.r.p(0.3) ? 0.2 : withTilt ? c.r.u(0.08, 0.22) : c.r.u(0.05, 0.35))); break;
        case GRAVITY: g = near<R>(c, g, V3((R)(c.r.p(0.4) ? 0 : c.r.u(-2, 2)), (R)(c.r.p(0.4) ? 0 : c.r.u(-2, 2)), (R)c.r.u(5, 12))); break;
        case COPPOLY: case COMPOLY: if ((f == COPPOLY ? cop : com).empty() || c.r.p(0.9)) shape(c, f == COPPOLY ? 0 : 1); break;
        case BODYH: hc = near<R>(c, hc, (R)(c.r.p(0.5) ? 0.73 : c.r.u(0.5, 1.2))); break;
        case BASEH: hb = near<R>(c, hb, (R)(c.r.p(0.2) ? 0 : c.r.u(0.05, 0.4))); break;
        case BODYM: mc = near<R>(c, mc, (R)c.r.u(2, 30)); break;
        case BASEM: mb = massless ? 0 : nearPos<R>(c, mb, (R)(c.r.p(0.1) ? c.r.u(0.01, 0.1) : c.r.u(2, 30))); break;
        case VELREF: vr = near<R>(c, vr, rndRef<R>(c, N, amp, 2, 0.5)); break;
        case POSREF: pr = near<R>(c, pr, rndRef<R>(c, N, amp, 2, 0.5)); break;
        case CENTREF:
          world = c.r.p(0.4); copr = near<R>(c, copr, rndRef<R>(c, N, 0.05)); comr = near<R>(c, comr, rndRef<R>(c, N, 0.05));
          for (int i = 0; i < 4; ++i) { wr[i] = rndRef<R>(c, N, i%2 ? 0.5 : 0.1); }
          for (int i = 0; i < 2*N; ++i) { wr[0](i) += s[i/N](0); wr[2](i) += s[i/N](0); }
          break;
        case VELLIM: vL = near<R>(c, vL, (R)c.r.u(0.5, 3)); break;
        case ACCLIM: aL = near<R>(c, aL, (R)c.r.u(1, 6)); break;
        case JERKLIM: jL = near<R>(c, jL, (R)c.r.u(10, 200)); break;
        case BX: case BY: s[f - BX + 2] = near<R>(c, s[f - BX + 2], rndState<R>(c, amp, 0.4, 0.5)); break;
        case ROLL: roll = near<R>(c, roll, rndState<R>(c, 0.1, 0.2, 0.2)); break;
        case PITCH: pitch = near<R>(c, pitch, rndState<R>(c, 0.1, 0.2, 0.2)); break;
        case YAW: yaw = V::Zero(3); yaw(0) = (R)(c.r.p(0.15) ? 1.5707963267949*c.r.i(-2, 2) + (c.r.p(0.5) ? 1 : -1)*std::pow(10, c.r.u(-5, -1)) : c.r.p(0.3) ? 0.785398163397448*c.r.i(-4, 4) : c.r.u(-3.1, 3.1)); break;
        case CX: case CY: s[f - CX] = rndState<R>(c, 0.05, 0.1, 0.2); for (int i = 0; i < 2; ++i) s[f - CX](i) += s[f - CX + 2](i); break;
        case PX: px = near<R>(c, px, (R)c.r.u(-0.2, 0.2)); break;
        case PY: py = near<R>(c, py, (R)c.r.u(-0.2, 0.2)); break;
        case WEIGHTS:
        {
          auto ww = [&](double z) { return (R)(c.r.p(z) ? 0 : std::pow(10, c.r.u(-1, 2))); };
          w.velocityTracking = ww(0.3); w.positionTracking = ww(0.5); w.copCentering = ww(0.3); w.comCentering = ww(0.5);
          w.jerkMinimization = (R)std::pow(10, c.r.u(isF<R>() ? -2 : -4, 0));
          w.tiltMinimization = withTilt ? ww(0.4) : 0; w.tiltVelMinimization = withTilt ? ww(0.4) : 0;
          // only their ratios matter
          const R k = (R)std::pow(10, c.r.p(0.2) ? c.r.u(-5, 2) : 0); R* all[] = {&w.velocityTracking, &w.positionTracking, &w.copCentering, &w.comCentering, &w.jerkMinimization, &w.tiltMinimization, &w.tiltVelMinimization};
          for (int i = 0; i < 7; ++i) { *all[i] *= k; }
          break;
        }
        default: q.withCopConstraints = c.r.p(0.6); q.withComConstraints = c.r.p(0.4); q.withBaseMotionConstraints = c.r.p(0.5); q.withTiltMotionConstraints = withTilt && c.r.p(0.5);
      }
      // a reference given in the world frame is converted with the robot of that instant
      if (world && (f == GRAVITY || f == BODYH || f == BASEH || f == BODYM || f == BASEM)) { ch.push_back(CENTREF); }
      return ch;
    }
    // a polygon around the path of the unforced motion, so that the program usually has a solution
    void shape(Case& c, int kind)
    {
      const ZRobot r = robot(); const Vec z = zRelative(r, Vec(4*N, 0), kind);
      L x0 = 0, x1 = 0, y0 = 0, y1 = 0;
      for (int i = 0; i < N; ++i) { x0 = std::min(x0, z[i]); x1 = std::max(x1, z[i]); y0 = std::min(y0, z[N + i]); y1 = std::max(y1, z[N + i]); }
      const L f = c.r.p(0.1) ? 0.5L : 1.3L;
      Pts& p = kind ? com : cop;
      const Pts fresh = rndPoly<R>(c, 2, (x0 + x1)/2, (y0 + y1)/2, f*(0.08L + (x1 - x0)*c.r.u(0.6, 1)), f*(0.08L + (y1 - y0)*c.r.u(0.6, 1)), 8);
      p = nearPoly<R>(c, p, fresh);
    }
    typename Type<R>::vectorOfVector3 hullPoints(const Pts& p) const
    { typename Type<R>::vectorOfVector3 v; for (size_t i = 0; i < p.size(); ++i) v.push_back(V3((R)p[i].first, (R)p[i].second, (R)0.3)); return v; }
    void apply(Gen& z, int f) const
    {
      switch (f)
      {
        case NBS: z.setNbSamples(N); break;
        case PERIOD: z.setSamplingPeriod(T); break;
        case GRAVITY: z.setGravity(g); break;
        case COPPOLY: if (hull) z.setBaseCopHull(hullPoints(cop)); else z.setBaseCopConvexPolygon(polyOf<R>(cop)); break;
        case COMPOLY: if (hull) z.setBaseComHull(hullPoints(com)); else z.setBaseComConvexPolygon(polyOf<R>(com)); break;
        case BODYH: z.setComBodyHeight(hc); break;
        case BASEH: z.setComBaseHeight(hb); break;
        case BODYM: z.setBodyMass(mc); break;
        case BASEM: if (!massless) z.setBaseMass(mb); break;
        case VELREF: z.setVelRefInWorldFrame(vr); break;
        case POSREF: z.setPosRefInWorldFrame(pr); break;
        case CENTREF: if (world) z.setComAndCopRefInWorldFrame(wr[0], wr[1], wr[2], wr[3]); else { z.setCopRefInLocalFrame(copr); z.setComRefInLocalFrame(comr); } break;
        case VELLIM: z.setBaseVelLimit(vL); break;
        case ACCLIM: z.setBaseAccLimit(aL); break;
        case JERKLIM: z.setBaseJerkLimit(jL); break;
        case BX: z.setBaseStateX(s[2]); break;
        case BY: z.setBaseStateY(s[3]); break;
        case ROLL: z.setBaseStateRoll(roll); break;
        case PITCH: z.setBaseStatePitch(pitch); break;
        case YAW: z.setBaseStateYaw(yaw); break;
        case CX: z.setComStateX(s[0]); break;
        case CY: z.setComStateY(s[1]); break;
        case PX: z.setTiltContactPointOnTheGroundInLocalFrameX(px); break;
        case PY: z.setTiltContactPointOnTheGroundInLocalFrameY(py); break;
        case WEIGHTS: z.setWeightings(w); break;
        default: z.setConfig(q);
      }
    }
    // every field once, in an order which respects the documented dependencies
    std::vector<int> order(Case& c) const
    {
      std::vector<int> a, late;
      for (int f = 1; f < FIELDS; ++f) if (f != VELREF && f != POSREF && f != CENTREF) a.push_back(f);
      a.push_back(NBS);
      for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[c.r.i(0, (int)i - 1)]);
      late.push_back(VELREF); late.push_back(POSREF); late.push_back(CENTREF);
      std::swap(late[0], late[c.r.i(0, 2)]);
      // the references may come as soon as what they depend on is there
      a.insert(a.end(), late.begin(), late.end());
      return a;
    }
    void applyAll(Gen& z, Case& c) const { const std::vector<int> o = order(c); for (size_t i = 0; i < o.size(); ++i) apply(z, o[i]); }
    void read(const Gen& z) { s[0] = z.getComStateX(); s[1] = z.getComStateY(); s[2] = z.getBaseStateX(); s[3] = z.getBaseStateY(); }
    bool tilting() const { return w.tiltMinimization > 0 || w.tiltVelMinimization > 0; }

    // the program of the present state; variables: jerks com x, com y, base x, base y
    Qp program() const
    {
      const ZRobot r = robot(); const int n = 4*N;
      Qp p(n);
      L big = 1; for (int a = 0; a < 4; ++a) { big = std::max(big, std::max(std::fabs((L)s[a](0)), std::max(std::fabs((L)s[a](1)), std::fabs((L)s[a](2))))); }
      auto add = [&](R weight, Aff a, const Vec& ref) { if (!(weight > 0)) return; a.cancel = 3*big; for (int i = 0; i < a.m; ++i) { a.cancel = std::max(a.cancel, std::fabs(ref[i])); a.r0[i] -= ref[i]; } p.cost(a, weight); };
      auto track = [&](int order) { return Aff([&](const Vec& u) { Vec o; for (int a = 0; a < 2; ++a) { const std::vector<Mot> b = preview(r.b[a], vh::sub(u, (2 + a)*N, N), r.T, r.T); for (int i = 0; i < N; ++i) o.push_back(order ? order == 2 ? b[i].a : b[i].v : b[i].p); } return o; }, n); };
      const Aff zc([&](const Vec& u) { return zRelative(r, u, 0); }, n), zd([&](const Vec& u) { return zRelative(r, u, 1); }, n);
      add(w.velocityTracking, track(1), toVec(vr)); add(w.positionTracking, track(0), toVec(pr));
      add(w.jerkMinimization, Aff([&](const Vec& u) { return u; }, n), Vec(n, 0));
      Vec rc(2*N), rd(2*N);
      for (int i = 0; i < 2*N; ++i)
      {
        const int a = i/N;
        const L lean = ((L)mc*hc + (L)mb*hb)/((L)mc + mb)*g(a)/g(2);
        if (!world) { rc[i] = copr(i); rd[i] = comr(i) + lean; continue; }
        const Mot c = {wr[0](i), 0, wr[1](i)}, b = {wr[2](i), 0, wr[3](i)};
        rc[i] = (r.mc*copOf(c, r.hc, r.g[a], r.g[2]) + r.mb*copOf(b, r.hb, r.g[a], r.g[2]))/(r.mc + r.mb) - b.p; rd[i] = c.p - b.p + lean;
      }
      add(w.copCentering, zc, rc); add(w.comCentering, zd, rd);
      add(w.tiltMinimization, Aff([&](const Vec& u) { return zTilt(r, u, 0); }, n), Vec(2*N, 0));
      add(w.tiltVelMinimization, Aff([&](const Vec& u) { return zTilt(r, u, 1); }, n), Vec(2*N, 0));
      auto support = [&](const Aff& z, const Pts& h) {
        for (size_t e = 0; e < h.size(); ++e) for (int i = 0; i < N; ++i)
        {
          const std::pair<L, L>&a = h[e], &b = h[(e + 1)%h.size()];
          const L dx = b.first - a.first, dy = b.second - a.second;
          Row o; o.a.resize(n);
          for (int k = 0; k < n; ++k) o.a[k] = dx*z.J[k][N + i] - dy*z.J[k][i];
          o.lo = -(dx*(z.r0[N + i] - a.second) - dy*(z.r0[i] - a.first)); o.hi = 1e30L;
          o.sc = (std::fabs(dx) + std::fabs(dy))*(std::fabs(a.first) + std::fabs(a.second) + 3*big);
          p.c.push_back(o);
        } };
      if (q.withCopConstraints) support(zc, cop);
      if (q.withComConstraints) support(zd, com);
      if (q.withBaseMotionConstraints)
      {
        p.rows(track(1), -vL, vL); p.rows(track(2), -aL, aL);
        for (int k = 2*N; k < 4*N; ++k) { p.lb[k] = -jL; p.ub[k] = jL; }
      }
      if (q.withTiltMotionConstraints)
      {
        const L sn = sinl((L)yaw(0)), cs = cosl((L)yaw(0));
        const Aff t([&](const Vec& u) { Vec o; for (int m = 0; m < 2; ++m) {
          const std::vector<Mot> x = preview(m ? r.b[0] : r.c[0], vh::sub(u, 2*m*N, N), r.T, r.T), y = preview(m ? r.b[1] : r.c[1], vh::sub(u, (2*m + 1)*N, N), r.T, r.T);
          for (int i = 0; i < N; ++i) o.push_back(x[i].v*sn - y[i].v*cs); } return o; }, n);
        p.rows(t, 0, 0);
      }
      return p;
    }
  };
}
