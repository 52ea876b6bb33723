// The configuration of a humanoid generator with its reference schedule, and the program it has to solve.
#pragma once
#include <qpref.h>
#include <walk.h>
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/humanoid_walkgen.h>

namespace vh
{
  // The steps a generator has planned (x, then y), carried from cycle to cycle: what landed leaves, new steps start in the middle of
  // their polygon's extent as seen from the step before.
  template <typename R>
  struct Steps
  {
    std::vector<R> x, y;
    template <typename H> void carry(const H& z, bool landed)   // after z.walk.update()
    {
      if (landed && !x.empty()) { x.erase(x.begin()); y.erase(y.begin()); }
      const size_t M = z.walk.landings.size(); L o[2]; z.origin(o);
      while (x.size() < M)
      {
        const size_t j = x.size(); const Pts& h = z.kin[z.walk.landings[j]];
        R lo[2] = {(R)h[0].first, (R)h[0].second}, hi[2] = {lo[0], lo[1]};
        for (size_t i = 0; i < h.size(); ++i) { const R q[2] = {(R)h[i].first, (R)h[i].second}; for (int e = 0; e < 2; ++e) { lo[e] = std::min(lo[e], q[e]); hi[e] = std::max(hi[e], q[e]); } }
        x.push_back((j ? x[j - 1] : (R)o[0]) + (lo[0] + hi[0])/2); y.push_back((j ? y[j - 1] : (R)o[1]) + (lo[1] + hi[1])/2);
      }
      x.resize(M); y.resize(M);
    }
    void add(const Vec& d, int N) { const size_t M = x.size(); for (size_t j = 0; j < M; ++j) { x[j] += (R)d[2*N + j]; y[j] += (R)d[2*N + M + j]; } }
    Vec vec() const { Vec v(x.begin(), x.end()); v.insert(v.end(), y.begin(), y.end()); return v; }
  };
  template <typename R>
  struct Hum
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    typedef MPCWalkgen::HumanoidWalkgen<R> Gen;
    enum Field { NBS, PERIOD, STEP, DSLEN, LKIN, RKIN, LSOLE, RSOLE, VELREF, LX, LY, RX, RY, LZ, RZ, CX, CY, CZ, LHEIGHT, RHEIGHT, WEIGHTS, CONFIG, FIELDS };
    static const char* name(int f)
    {
      static const char* n[] = {"N", "T", "stepPeriod", "dsLength", "leftReach", "rightReach", "leftSole", "rightSole", "velRef", "leftX", "leftY", "rightX", "rightY", "leftZ", "rightZ", "comX", "comY", "comZ", "leftHeight", "rightHeight", "weights", "config"};
      return n[f];
    }
    int N, k, s, d; R T, h; Pts kin[3], sole[3]; V foot[3][3], com[2], vr; R top[3]; L g[3];
    MPCWalkgen::HumanoidWalkgenWeighting<R> w; MPCWalkgen::HumanoidWalkgenConfig<R> q;
    int kindK, kindS; double speed; Walk walk;

    explicit Hum(Case& c, int maxN = 6) : N(2), k(1), s(2), d(2), kindK(c.r.p(0.6) ? 0 : 2), kindS(c.r.pick(std::vector<int>{0, 1, 2})), speed(c.r.pick(std::vector<double>{0, 0.1, 0.3})), walk(2, 1)
    {
      h = top[1] = top[2] = (R)NAN;
      k = c.r.pick(std::vector<int>{1, 2, 4, 5, 10});
      s = c.r.i(2, std::min(4, maxN)); d = c.r.i(1, 4); N = c.r.i(std::max(s, 2), maxN);
      { MPCWalkgen::LIPModel<R> lip; for (int i = 0; i < 3; ++i) g[i] = lip.getGravity()(i); }
      // two feet side by side and a body between them
      const L bx = c.r.u(-1, 1), by = c.r.u(-1, 1), half = c.r.u(0.08, 0.14);
      for (int a = 1; a < 3; ++a) { foot[a][0] = V::Zero(3); foot[a][1] = foot[a][2] = V::Zero(3); foot[a][0](0) = (R)(bx + c.r.u(-0.05, 0.05)); foot[a][1](0) = (R)(by + (a == 1 ? half : -half)); }
      for (int e = 0; e < 2; ++e) { com[e] = rndState<R>(c, 0.03, 0.05, 0.1); com[e](0) += (R)(e ? by : bx); }
      const int first[] = {PERIOD, LZ, RZ, LKIN, RKIN, LSOLE, RSOLE, VELREF, CZ, LHEIGHT, RHEIGHT, WEIGHTS, CONFIG};
      for (size_t i = 0; i < sizeof first/sizeof *first; ++i) pick(c, first[i]);
      start();
    }
    // the schedule of a walk which starts now
    void start() { walk = Walk(N, k); walk.setStep(s); walk.setDs(d); }
    R fb() const { return T/static_cast<R>(k); }
    // another value of a field; legal at any time except PERIOD, STEP, DSLEN, NBS (before the walk) and the feet (while standing)
    void pick(Case& c, int f)
    {
      switch (f)
      {
        case NBS: N = c.r.i(std::max(s, 2), 6); pick(c, VELREF); break;
        case PERIOD: T = static_cast<R>(c.r.p(0.4) ? 0.1 : 0.01*c.r.i(6, 25)); break;
        case STEP: s = c.r.i(2, std::min(4, N)); break;
        case DSLEN: d = c.r.i(1, 4); break;
        case LKIN: case RKIN: { const int a = f - LKIN + 1; kin[a] = nearPoly<R>(c, kin[a], rndPoly<R>(c, kindK, c.r.u(-0.05, 0.05), a == 1 ? -0.22L : 0.22L, c.r.u(0.15, 0.35), c.r.u(0.04, 0.1)), kindK); break; }
        case LSOLE: case RSOLE: { const int a = f - LSOLE + 1; sole[a] = nearPoly<R>(c, sole[a], rndPoly<R>(c, kindS, c.r.u(-0.03, 0.03), c.r.u(-0.02, 0.02), c.r.u(0.06, 0.12), c.r.u(0.04, 0.08)), kindS); break; }
        case VELREF: vr = near<R>(c, vr, rndRef<R>(c, N, speed, 2, 0.6)); break;
        case LX: case LY: case RX: case RY: { V& v = foot[f < RX ? 1 : 2][(f - LX)%2]; v(0) += (R)c.r.u(-0.02, 0.02); break; }
        case LZ: case RZ: { V& v = foot[f - LZ + 1][2]; v = V::Zero(3); if (c.r.p(0.5)) v(0) = (R)c.r.u(0, 0.02); break; }
        case CX: case CY: { V& v = com[f - CX]; v(0) += (R)c.r.u(-0.01, 0.01); v(1) += (R)c.r.u(-0.02, 0.02); v(2) += (R)c.r.u(-0.05, 0.05); break; }
        case CZ: h = near<R>(c, h, static_cast<R>(c.r.p(0.3) ? 0.8 : c.r.u(0.5, 1.2))); break;
        case LHEIGHT: case RHEIGHT: top[f - LHEIGHT + 1] = near<R>(c, top[f - LHEIGHT + 1], static_cast<R>(c.r.u(0, 0.1))); break;
        case WEIGHTS:
        {
          auto ww = [&](double z, double lo, double hi) { return (R)(c.r.p(z) ? 0 : std::pow(10, c.r.u(lo, hi))); };
          w.copCentering = ww(0, -1, 2); w.jerkMinimization = ww(0.2, -5, -1); w.velocityTracking = ww(w.jerkMinimization > 0 ? 0.2 : 0, -1, 1.5);
          // only their ratios matter
          const R k = (R)std::pow(10, c.r.p(0.2) ? c.r.u(-5, 2) : 0); w.copCentering *= k; w.jerkMinimization *= k; w.velocityTracking *= k;
          break;
        }
        default: q.withCopConstraints = c.r.p(0.7); q.withFeetConstraints = c.r.p(0.7);
      }
    }
    void apply(Gen& z, int f) const
    {
      V zz = V::Zero(3); zz(0) = h;
      switch (f)
      {
        case NBS: z.setNbSamples(N); break;
        case PERIOD: z.setSamplingPeriod(T); break;
        case STEP: z.setStepPeriod(static_cast<R>(s)*T); break;
        case DSLEN: z.setInitialDoubleSupportLength(static_cast<R>(d)*T); break;
        case LKIN: z.setLeftFootKinematicConvexPolygon(polyOf<R>(kin[1])); break;
        case RKIN: z.setRightFootKinematicConvexPolygon(polyOf<R>(kin[2])); break;
        case LSOLE: z.setLeftFootCopConvexPolygon(polyOf<R>(sole[1])); break;
        case RSOLE: z.setRightFootCopConvexPolygon(polyOf<R>(sole[2])); break;
        case VELREF: z.setVelRefInWorldFrame(vr); z.setAngularVelRefInWorldFrame(V::Zero(vr.size()/2)); break;
        case LX: z.setLeftFootStateX(foot[1][0]); break;
        case LY: z.setLeftFootStateY(foot[1][1]); break;
        case RX: z.setRightFootStateX(foot[2][0]); break;
        case RY: z.setRightFootStateY(foot[2][1]); break;
        case LZ: z.setLeftFootStateZ(foot[1][2]); break;
        case RZ: z.setRightFootStateZ(foot[2][2]); break;
        case CX: z.setComStateX(com[0]); break;
        case CY: z.setComStateY(com[1]); break;
        case CZ: z.setComStateZ(zz); break;
        case LHEIGHT: z.setLeftFootMaxHeight(top[1]); break;
        case RHEIGHT: z.setRightFootMaxHeight(top[2]); break;
        case WEIGHTS: z.setWeightings(w); break;
        default: z.setConfig(q);
      }
    }
    // every field once in some legal order (sampling period before step period and standing time, references after N)
    std::vector<int> order(Case& c) const
    {
      std::vector<int> a;
      for (int f = 0; f < FIELDS; ++f) if (f != PERIOD && f != NBS) a.push_back(f);
      for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[c.r.i(0, (int)i - 1)]);
      // N somewhere before the velocity reference, T somewhere before the step period and the standing time
      auto before = [&](int f, std::vector<int> others) {
        size_t m = a.size(); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < others.size(); ++j) if (a[i] == others[j]) m = std::min(m, i);
        a.insert(a.begin() + c.r.i(0, (int)m), f); };
      before(NBS, std::vector<int>(1, VELREF)); before(PERIOD, {STEP, DSLEN});
      return a;
    }
    void applyAll(Gen& z, Case& c) const { const std::vector<int> o = order(c); for (size_t i = 0; i < o.size(); ++i) apply(z, o[i]); }
    void read(const Gen& z)
    {
      com[0] = z.getComStateX(); com[1] = z.getComStateY();
      foot[1][0] = z.getLeftFootStateX(); foot[1][1] = z.getLeftFootStateY(); foot[2][0] = z.getRightFootStateX(); foot[2][1] = z.getRightFootStateY();
      foot[1][2] = z.getLeftFootStateZ(); foot[2][2] = z.getRightFootStateZ();
    }
    bool axisEdges() const
    {
      for (int a = 1; a < 3; ++a) for (size_t i = 0; i < kin[a].size(); ++i)
      {
        const std::pair<L, L>&p = kin[a][i], &n = kin[a][(i + 1)%kin[a].size()];
        if (std::fabs(p.first - n.first) < 1e-3L || std::fabs(p.second - n.second) < 1e-3L) return true;
      }
      return false;
    }
    void origin(L* o) const { const int sf = walk.supportFoot(); for (int e = 0; e < 2; ++e) o[e] = sf ? (L)foot[sf][e](0) : ((L)foot[1][e](0) + foot[2][e](0))/2; }
    L first() const { return (L)fb()*walk.first(); }
    // jerks of axis a for the plan u = [cop x, cop y relative to the supporting point, steps x, steps y]; after walk.update()
    Vec jerks(const Vec& u, int a) const
    {
      const int M = (int)walk.landings.size(); L o[2]; origin(o);
      Vec z;
      for (int i = 0; i < N; ++i) { const int col = walk.samples[i].col; z.push_back(u[a*N + i] + (col >= 0 ? u[2*N + a*M + col] : o[a])); }
      return jerksOf(mot(com[a]), z, first(), T, h, g[a], g[2]);
    }
    // support polygon of every sample relative to the point its CoP is given from; landing: where the running step lands.
    // false: the hull is not clear or depends on the landing (unknown if landing is null)
    bool supports(std::vector<Pts>& sp, const L* landing) const
    {
      sp.assign(N, Pts()); L o[2]; origin(o);
      for (int i = 0; i < N; ++i)
      {
        const Sample& z = walk.samples[i];
        if (z.type != Walk::DS) { sp[i] = sole[z.type]; continue; }
        L at[3][2] = {{0, 0}, {foot[1][0](0), foot[1][1](0)}, {foot[2][0](0), foot[2][1](0)}}, ref[2] = {o[0], o[1]};
        if (walk.type != Walk::DS)
        {
          if (!landing) { return false; }
          for (int e = 0; e < 2; ++e) { at[3 - walk.type][e] = landing[e]; ref[e] = landing[e]; }
        }
        Pts all = shifted(sole[1], at[1][0] - ref[0], at[1][1] - ref[1]);
        const Pts b = shifted(sole[2], at[2][0] - ref[0], at[2][1] - ref[1]);
        all.insert(all.end(), b.begin(), b.end());
        if (!clearHull(all)) { return false; }
        sp[i] = hullOf(all);
      }
      return true;
    }
    // plan: where the previous cycle put the steps (x, then y): edges along an axis bound the later steps from there
    Qp program(const std::vector<Pts>& sp, const Vec* plan = 0) const
    {
      const int M = (int)walk.landings.size(), n = 2*N + 2*M; const L S = first();
      Qp p(n); L o[2]; origin(o);
      Vec wt(2*N, 1);
      for (int a = 0; a < 2; ++a) { wt[a*N] = S/T; wt[a*N + N - 1] = 1.05L - S/T; }
      Aff aj([&](const Vec& u) { Vec x = jerks(u, 0); const Vec y = jerks(u, 1); x.insert(x.end(), y.begin(), y.end()); return x; }, n);
      aj.cancel = aj.maxJ();
      Aff av([&](const Vec& u) { Vec x; for (int a = 0; a < 2; ++a) { const std::vector<Mot> m = preview(mot(com[a]), jerks(u, a), S, T); for (int i = 0; i < N; ++i) x.push_back(m[i].v); } return x; }, n);
      av.cancel = av.maxR() + av.maxJ(); for (int i = 0; i < 2*N; ++i) { av.r0[i] -= vr(i); }
      if (w.velocityTracking > 0) p.cost(av, w.velocityTracking, &wt);
      if (w.jerkMinimization > 0) p.cost(aj, w.jerkMinimization, &wt);
      if (w.copCentering > 0) p.cost(Aff([&](const Vec& u) { return vh::sub(u, 0, 2*N); }, n), w.copCentering);
      if (q.withCopConstraints) for (int i = 0; i < N; ++i) edges(p, sp[i], i, N + i, -1, -1, 0, 0);
      if (q.withFeetConstraints) for (int j = 0; j < M; ++j) edges(p, kin[walk.landings[j]], 2*N + j, 2*N + M + j, j ? 2*N + j - 1 : -1, j ? 2*N + M + j - 1 : -1, j ? 0 : o[0], j ? 0 : o[1], j && plan, j && plan ? (*plan)[j - 1] : 0, j && plan ? (*plan)[M + j - 1] : 0);
      return p;
    }
    // (u[ix] - u[px] - ox, u[iy] - u[py] - oy) in the polygon
    static void edges(Qp& p, const Pts& h, int ix, int iy, int px, int py, L ox, L oy, bool planned = false, L qx = 0, L qy = 0)
    {
      for (size_t e = 0; e < h.size(); ++e)
      {
        const std::pair<L, L>&a = h[e], &b = h[(e + 1)%h.size()];
        const L dx = b.first - a.first, dy = b.second - a.second;
        const bool fixed = planned && (std::fabs(dx) < 1e-3L || std::fabs(dy) < 1e-3L);
        const L sx = fixed ? qx : ox, sy = fixed ? qy : oy;
        Row r; r.a.assign(p.n, 0);
        r.a[iy] += dx; r.a[ix] -= dy; if (px >= 0 && !fixed) { r.a[py] -= dx; r.a[px] += dy; }
        r.lo = dx*(sy + a.second) - dy*(sx + a.first); r.hi = 1e30L;
        r.sc = (std::fabs(dx) + std::fabs(dy))*(std::fabs(a.first) + std::fabs(a.second) + std::fabs(sx) + std::fabs(sy) + 1);
        p.c.push_back(r);
      }
    }
  };
}
