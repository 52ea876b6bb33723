// C20: generators respect the symmetries of the plane.
// needs: all
#include <same.h>
#include <iostream>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  // (x, y) -> (sx x, sy y), exchanged or not, then shifted
  struct Sym { L s[2]; bool swap; L d[2]; int kind; };
  Sym pickSym(Case& c, bool swaps, bool mirrors, L far)
  {
    Sym m = {{1, 1}, false, {0, 0}, 0};
    m.kind = mirrors ? c.r.i(0, 3) : 0;
    if (m.kind == 0 || m.kind == 3) { const L f = c.r.pick(std::vector<double>{0.1, 1, (double)far}); m.d[0] = c.r.u(-1, 1)*f; m.d[1] = c.r.u(-1, 1)*f; if (c.r.p(0.2)) m.d[c.r.i(0, 1)] = 0; }
    if (m.kind == 1 || m.kind == 3) { const int w = c.r.i(1, 3); if (w & 1) m.s[0] = -1; if (w & 2) m.s[1] = -1; }
    if (swaps && (m.kind == 2 || (m.kind == 3 && c.r.p(0.5)))) m.swap = true;
    if (!swaps && m.kind == 2) m.s[c.r.i(0, 1)] = -1;
    c.count(std::string(m.swap ? "exchanged_" : "") + (m.s[0] < 0 || m.s[1] < 0 ? "reversed_" : "") + (m.d[0] != 0 || m.d[1] != 0 ? "shifted" : ""));
    return m;
  }
  template <typename V> V times(const V& v, L s) { V o(v); for (int i = 0; i < o.size(); ++i) o(i) = s < 0 ? -v(i) : v(i); return o; }
  // pair of vectors (x, y) of states or of references of some order (0: positions, shifted as well)
  template <typename R, typename V> void axes(const Sym& m, V& x, V& y, bool state, int order)
  {
    V a(times(x, m.s[0])), b(times(y, m.s[1]));
    if (m.swap) std::swap(a, b);
    if (order == 0) for (int i = 0; i < (state ? 1 : (int)a.size()); ++i) { a(i) = (R)(a(i) + m.d[0]); b(i) = (R)(b(i) + m.d[1]); }
    x = a; y = b;
  }
  template <typename R, typename V> void halves(const Sym& m, V& v, int order)
  {
    const int n = (int)v.size()/2; V x(v.head(n)), y(v.tail(n)); axes<R>(m, x, y, false, order); v.head(n) = x; v.tail(n) = y;
  }
  template <typename R> Pts shape(const Sym& m, const Pts& p)
  {
    Pts q(p);
    for (size_t i = 0; i < q.size(); ++i) { q[i].first *= m.s[0]; q[i].second *= m.s[1]; if (m.swap) std::swap(q[i].first, q[i].second); }
    return hullOf(q);
  }
  // the states of the transformed generator seen from the original one; pairs of states (x, y)
  Vec back(const Sym& m, const Vec& o, const std::vector<std::pair<int, int> >& pairs)
  {
    Vec r(o);
    for (size_t k = 0; k < pairs.size(); ++k) for (int i = 0; i < 3; ++i)
    {
      L x = o[3*pairs[k].first + i], y = o[3*pairs[k].second + i];
      if (i == 0) { x -= m.d[0]; y -= m.d[1]; }
      if (m.swap) std::swap(x, y);
      r[3*pairs[k].first + i] = m.s[0]*x; r[3*pairs[k].second + i] = m.s[1]*y;
    }
    return r;
  }
  L far(const Sym& m) { return 1 + std::fabs(m.d[0]) + std::fabs(m.d[1]); }

  template <typename R>
  void trajectory(Case& c)
  {
    typedef Traj<R> Z; typedef typename Type<R>::VectorX V;
    Z z(c); Sym m = {{c.r.p(0.5) ? -1.L : 1.L, 1}, false, {0, 0}, 0};
    if (m.s[0] > 0 || c.r.p(0.5)) { m.d[0] = c.r.u(-1, 1)*(c.r.p(0.3) ? (isF<R>() ? 3 : c.r.p(0.5) ? 100 : 2000) : 1); }
    c.count(std::string(m.s[0] < 0 ? "reversed_" : "") + (m.d[0] != 0 ? "shifted" : ""));
    const auto tr = [&](const Z& z) { Z t(z); V dummy = V::Zero(3), dn = V::Zero(z.N); axes<R>(m, t.s, dummy, true, 0); axes<R>(m, t.pr, dn, false, 0); dn.fill(0); axes<R>(m, t.vr, dn, false, 1); return t; };
    TrajectoryWalkgen<R> a, b, p;
    z.applyAll(a, c); tr(z).applyAll(b, c); z.applyAll(p, c);
    { V s = z.s; for (int i = 0; i < 3; ++i) s(i) += (R)(shake<R>()*far(m)*jig(c)*(1 + std::fabs(s(i)))); p.setState(s); }
    Compare cmp; Ran ran; const int cycles = c.r.i(1, 16); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10}); uint64_t hist = 0;
    c.desc << "trajectory N=" << z.N << " T=" << (double)z.T << " sign " << (double)m.s[0] << " shift " << (double)m.d[0];
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      const R f = z.T/static_cast<R>(k);
      if (t && c.r.p(0.2)) { const std::vector<int> ch = z.pick(c, c.r.i(0, Z::FIELDS - 1)); const Z q = tr(z); for (size_t i = 0; i < ch.size(); ++i) { z.apply(a, ch[i]); q.apply(b, ch[i]); z.apply(p, ch[i]); hist = mix(hist*31 + ch[i] + t); } }
      z.read(a); const Z before(z);
      ran.clear(); const bool oa = ran.go(a, f), ob = ran.go(b, f), op = ran.go(p, f);
      Vec o = outs(b); o[0] = m.s[0]*(o[0] - m.d[0]); o[1] *= m.s[0]; o[2] *= m.s[0];
      cmp.cycle(c, ob, oa, op, o, outs(a), outs(p), (isF<R>() ? 1e-5L : 1e-12L)*far(m), "trajectory cycle " + std::to_string(t), [&](bool ok) { return !ran.marginal(isF<R>() ? 1e2L : 1e5L) && different<R>(before.program(), ok, (isF<R>() ? 1e-6L : 1e-13L)*far(m), (isF<R>() ? 1e-4L : 1e-9L)*far(m)); });
      z.read(a);
    }
    c.count("trajectory_cycles", cmp.cycles); c.h(hist); c.h(z.N); c.h((uint64_t)(1e6*z.T)); c.nontrivial = cmp.cycles > 0; c.state(mix(hist + z.N));
  }

  template <typename R>
  void mobile(Case& c)
  {
    typedef Zeb<R> Z; typedef typename Type<R>::VectorX V;
    Z z(c, 5); const bool tilt = z.withTilt;
    const Sym m = pickSym(c, !tilt, !tilt, isF<R>() ? 3 : c.r.p(0.5) ? 50 : 1000);
    const auto tr = [&](const Z& z) {
      Z t(z); for (int i = 0; i < 4; i += 2) axes<R>(m, t.s[i], t.s[i + 1], true, 0);
      halves<R>(m, t.pr, 0); halves<R>(m, t.vr, 1); halves<R>(m, t.copr, 1); halves<R>(m, t.comr, 1);
      for (int i = 0; i < 4; ++i) halves<R>(m, t.wr[i], i%2 ? 1 : 0);
      t.cop = shape<R>(m, z.cop); t.com = shape<R>(m, z.com);
      t.g(0) = (R)(m.s[0]*z.g(0)); t.g(1) = (R)(m.s[1]*z.g(1)); if (m.swap) std::swap(t.g(0), t.g(1));
      return t; };
    ZebulonWalkgen<R> a, b, p;
    z.applyAll(a, c); tr(z).applyAll(b, c); z.applyAll(p, c);
    for (int e = 0; e < 4; ++e)
    {
      V s = z.s[e]; for (int i = 0; i < 3; ++i) s(i) += (R)(shake<R>()*far(m)*jig(c)*(1 + std::fabs(s(i))));
      if (e == 0) p.setComStateX(s); else if (e == 1) p.setComStateY(s); else if (e == 2) p.setBaseStateX(s); else p.setBaseStateY(s);
    }
    const std::vector<std::pair<int, int> > pairs = {{0, 1}, {2, 3}};
    Compare cmp; Ran ran; const int cycles = c.r.i(1, 10); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10}); uint64_t hist = 0;
    c.desc << "mobile base N=" << z.N << " T=" << (double)z.T << (tilt ? " tilting" : "") << " signs " << (double)m.s[0] << " " << (double)m.s[1] << (m.swap ? " exchanged" : "") << " shift " << (double)m.d[0] << " " << (double)m.d[1];
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      if (t && c.r.p(0.2)) { const std::vector<int> ch = z.pick(c, c.r.i(0, Z::FIELDS - 1)); const Z q = tr(z); for (size_t i = 0; i < ch.size(); ++i) { int fb = ch[i]; if (m.swap && (fb == Z::BX || fb == Z::BY)) fb = Z::BX + Z::BY - fb; if (m.swap && (fb == Z::CX || fb == Z::CY)) fb = Z::CX + Z::CY - fb; z.apply(a, ch[i]); q.apply(b, fb); z.apply(p, ch[i]); hist = mix(hist*31 + ch[i] + t); } }
      if (z.tilting() && !zTiltMeaningful(z.robot())) { break; }
      const R f = z.T/static_cast<R>(k); const Z before(z);
      ran.clear(); const bool oa = ran.go(a, f), ob = ran.go(b, f), op = ran.go(p, f);
      cmp.cycle(c, ob, oa, op, back(m, outs(b), pairs), outs(a), outs(p), (isF<R>() ? 1e-5L : 1e-12L)*far(m), "mobile base cycle " + std::to_string(t), [&](bool ok) { return !ran.marginal(isF<R>() ? 1e2L : 1e5L) && different<R>(before.program(), ok, (isF<R>() ? 1e-6L : 1e-13L)*far(m), (isF<R>() ? 1e-3L : 1e-8L)*far(m)); });
      z.read(a);
    }
    c.count("mobile_cycles", cmp.cycles); c.h(hist); c.h(z.N*4 + m.kind); c.h((uint64_t)(1e6*z.T)); c.nontrivial = cmp.cycles > 0; c.state(mix(hist + z.N));
  }

  template <typename R>
  void humanoid(Case& c)
  {
    typedef Hum<R> H; typedef typename Type<R>::VectorX V;
    H z(c, isF<R>() ? 3 : 6);
    const Sym m = pickSym(c, false, true, isF<R>() ? 2 : c.r.p(0.5) ? 50 : 1000);
    const auto tr = [&](const H& z) {
      H t(z); axes<R>(m, t.com[0], t.com[1], true, 0);
      for (int f = 1; f < 3; ++f) { axes<R>(m, t.foot[f][0], t.foot[f][1], true, 0); t.kin[f] = shape<R>(m, z.kin[f]); t.sole[f] = shape<R>(m, z.sole[f]); }
      halves<R>(m, t.vr, 1); return t; };
    std::vector<int> plain; for (int f = 0; f < H::FIELDS; ++f) if (f != H::NBS && f != H::PERIOD && f != H::STEP && f != H::DSLEN && !(f >= H::LX && f <= H::RZ)) plain.push_back(f);
    HumanoidWalkgen<R> a, b, p;
    z.applyAll(a, c); tr(z).applyAll(b, c); z.applyAll(p, c);
    for (int e = 0; e < 2; ++e)
    {
      V s = z.com[e]; for (int i = 0; i < 3; ++i) s(i) += (R)(shakeWalk<R>()*far(m)*jig(c)*(1 + std::fabs(s(i))));
      if (e == 0) p.setComStateX(s); else p.setComStateY(s);
    }
    // com x, y, z, left x, y, z, right x, y, z
    const std::vector<std::pair<int, int> > pairs = {{0, 1}, {3, 4}, {6, 7}};
    Compare cmp; Ran ran; const int cycles = c.r.i(1, c.r.p(0.4) ? std::min(120, 6*z.k*z.s) : 16); const double pm = c.r.pick(std::vector<double>{0.01, 0.1}), pn = c.r.p(0.5) ? 0.05 : 0; uint64_t hist = 0; long steps = 0;
    c.desc << "humanoid N=" << z.N << " T=" << (double)z.T << " k=" << z.k << " step=" << z.s << " ds=" << z.d << " signs " << (double)m.s[0] << " " << (double)m.s[1] << " shift " << (double)m.d[0] << " " << (double)m.d[1];
    if (c.r.p(0.8)) { z.walk.move = true; a.setMove(true); b.setMove(true); p.setMove(true); }
    L loose = 0;
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      if (t && c.r.p(pm)) { z.walk.move = !z.walk.move; a.setMove(z.walk.move); b.setMove(z.walk.move); p.setMove(z.walk.move); hist = mix(hist + t); }
      if (t && c.r.p(0.08)) { const int f = plain[c.r.i(0, (int)plain.size() - 1)]; z.pick(c, f); z.apply(a, f); tr(z).apply(b, f); z.apply(p, f); hist = mix(hist*31 + f + t); }
      if (t && c.r.p(pn))
      {
        const int N = z.N; const V vr = z.vr; z.pick(c, H::NBS); if (isF<R>()) { z.N = std::min(z.N, 4); z.vr = rndRef<R>(c, z.N, z.speed, 2, 0.6); }
        if (z.N < z.s || z.walk.rem > (long)z.N*z.k || (z.walk.type != Walk::DS && z.walk.dur > (long)z.N*z.k)) { z.N = N; z.vr = vr; }
        else
        {
          const H u = tr(z);
          z.apply(a, H::NBS); z.apply(a, H::VELREF); u.apply(b, H::NBS); u.apply(b, H::VELREF); z.apply(p, H::NBS); z.apply(p, H::VELREF);
          hist = mix(hist*31 + z.N + t); c.count(z.walk.inAir() ? "resizes_in_the_air" : "resizes");
        }
      }
      z.walk.N = z.N; z.walk.update(); const H before(z); const Walk now = z.walk;
      const R f = z.fb();
      std::vector<Pts> sp; const bool known = !z.q.withCopConstraints || before.supports(sp, 0);
      const std::string at = "humanoid tick " + std::to_string(t) + (now.type == Walk::DS ? " (ds)" : now.type == Walk::LEFT ? " (left)" : " (right)");
      ran.clear(); const bool oa = ran.go(a, f), ob = ran.go(b, f), op = ran.rounded(p, f);
      z.read(a);
      const Vec o = back(m, outs(b), pairs), w = outs(a);
      cmp.extra = footRounding<R>(far(m) + 1, f);
      Compare strict(cmp);
      try
      {
        strict.cycle(c, ob, oa, op, o, w, outs(p), (isF<R>() ? 1e-3L : 1e-8L)*far(m), at, [&](bool ok) {
          if (!known || before.axisEdges()) return false; std::vector<Pts> s2; if (before.q.withCopConstraints) before.supports(s2, 0); else s2.assign(before.N, Pts());
          return !ran.marginal(isF<R>() ? 1e2L : 1e5L) && different<R>(before.program(s2), ok, (isF<R>() ? 2e-6L : 2e-9L)*far(m), (isF<R>() ? 3e-3L : 1e-5L)*far(m)); });
        cmp = strict;
      }
      catch (const Fail&)
      {
        if (known || loose > 0) throw;
        // the hull under both feet after the running step may be one or the other up to the resolution of the polygons
        const L S = before.first();
        for (int e = 0; e < 2; ++e)
        {
          const Mot m0 = mot(before.com[e]); const L resp = std::fabs(copOf(step(m0, 1, S), before.h, 0, before.g[2]) - copOf(step(m0, 0, S), before.h, 0, before.g[2]));
          if (std::fabs(o[3*e + 2] - w[3*e + 2])/f*resp > 4e-2L) throw;
        }
        for (size_t i = 9; i < w.size(); i += 3) if (std::fabs(o[i] - w[i]) > 4e-2L) throw;
        c.count("loosely_compared"); break;
      }
      if (std::fabs((L)z.com[0](1)) > 3 || std::fabs((L)z.com[1](1)) > 3) { c.count("fallen"); break; }
      z.walk.tick(); if (now.type != Walk::DS && z.walk.rem == 0) { ++steps; }
    }
    c.count("humanoid_cycles", cmp.cycles); c.count("steps_landed", steps); c.h(hist); c.h(z.N*100 + z.k*4 + m.kind); c.h((uint64_t)(1e6*z.T)); c.nontrivial = cmp.cycles > 0; c.state(mix(hist + z.N + z.walk.key()));
  }
  void attempt(Case& c)
  {
    std::cerr.rdbuf(0);
    const bool f = c.r.p(0.2);
    switch (c.r.i(0, 3))
    {
      case 0: f ? trajectory<float>(c) : trajectory<double>(c); break;
      case 1: f ? mobile<float>(c) : mobile<double>(c); break;
      default: f ? humanoid<float>(c) : humanoid<double>(c);
    }
  }
  void fn(Case& c) { std::cerr.rdbuf(0); persistently(c, attempt); }
}
VH_MAIN(fn)
