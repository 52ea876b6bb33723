// C17: generators depend only on their final configuration, not on how it was reached.
// needs: all
#include <same.h>
#include <memory>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R>
  void trajectory(Case& c)
  {
    typedef Traj<R> Z; typedef typename Type<R>::VectorX V;
    Z z0(c), z1(c); z1.q = c.r.p(0.5) ? z0.q : z1.q;
    TrajectoryWalkgen<R> a, b, p;
    uint64_t hist = 0; long detours = 0;
    c.desc << "trajectory N=" << z1.N << " T=" << (double)z1.T << " detours:";
    if (c.r.p(0.7)) { z0.applyAll(a, c); const int n = c.r.i(0, 3); for (int i = 0; i < n; ++i) if (!a.solve(z0.T/static_cast<R>(c.r.i(1, 5)))) break; c.desc << " ran " << n; ++detours; c.count("ran_before"); }
    const std::vector<int> oa = z1.order(c);
    std::set<int> fin;
    for (size_t i = 0; i < oa.size(); ++i)
    {
      if (c.r.p(0.4)) { const int f = c.r.i(1, Z::FIELDS - 1); if (f != Z::VELREF && f != Z::POSREF && !fin.count(f)) { z0.apply(a, f); ++detours; hist = mix(hist + f*3); c.desc << " " << Z::name(f); } }
      if (c.r.p(0.2)) { z1.apply(a, oa[i]); }
      z1.apply(a, oa[i]); fin.insert(oa[i]); hist = mix(hist*31 + oa[i]);
    }
    z1.applyAll(b, c); z1.applyAll(p, c);
    { V s = z1.s; for (int i = 0; i < 3; ++i) s(i) += (R)(shake<R>()*jig(c)*(1 + std::fabs(s(i)))); p.setState(s); }
    Compare cmp; Ran ran; const int cycles = c.r.i(1, 10); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10});
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      const R f = z1.T/static_cast<R>(k);
      if (t && c.r.p(0.2)) { const std::vector<int> ch = z1.pick(c, c.r.i(0, Z::FIELDS - 1)); for (size_t i = 0; i < ch.size(); ++i) { z1.apply(a, ch[i]); z1.apply(b, ch[i]); z1.apply(p, ch[i]); } }
      z1.read(b); const Z before(z1);
      ran.clear(); const bool oa2 = ran.go(a, f), ob = ran.go(b, f), op = ran.go(p, f);
      cmp.cycle(c, oa2, ob, op, outs(a), outs(b), outs(p), isF<R>() ? 1e-5L : 1e-12L, "trajectory cycle " + std::to_string(t), [&](bool ok) { return !ran.marginal(isF<R>() ? 1e2L : 1e5L) && different<R>(before.program(), ok, isF<R>() ? 1e-6L : 1e-13L, isF<R>() ? 1e-4L : 1e-9L); });
      z1.read(b);
    }
    c.count("trajectory_cycles", cmp.cycles); c.h(hist); c.h(z1.N); c.nontrivial = cmp.cycles > 0 && detours > 0; c.state(hist);
  }

  template <typename R>
  void mobile(Case& c)
  {
    typedef Zeb<R> Z; typedef typename Type<R>::VectorX V;
    Z z0(c, 5), z1(c, 5);
    if (z1.massless && !z0.massless) { z1.massless = false; z1.pick(c, Z::BASEM); z1.pick(c, Z::CENTREF); }
    z1.hull = c.r.p(0.5);
    ZebulonWalkgen<R> a, b, p;
    uint64_t hist = 0; long detours = 0;
    c.desc << "mobile base N=" << z1.N << " T=" << (double)z1.T << " detours:";
    if (c.r.p(0.6)) { z0.applyAll(a, c); const int n = c.r.i(0, 3); for (int i = 0; i < n; ++i) if (!a.solve(z0.T/static_cast<R>(c.r.i(1, 5)))) break; c.desc << " ran " << n; ++detours; c.count("ran_before"); }
    const std::vector<int> oa = z1.order(c);
    std::set<int> fin; bool refs = false;
    for (size_t i = 0; i < oa.size(); ++i)
    {
      if (oa[i] == Z::VELREF || oa[i] == Z::POSREF || oa[i] == Z::CENTREF) { refs = true; }
      if (!refs && c.r.p(0.3))
      {
        // a value which is overwritten later
        const int f = c.r.i(1, Z::FIELDS - 1);
        if (f != Z::VELREF && f != Z::POSREF && f != Z::CENTREF && !(f == Z::BASEM && z1.massless) && !fin.count(f))
        { z0.apply(a, f); ++detours; hist = mix(hist + f*3); c.desc << " " << Z::name(f); }
      }
      if (c.r.p(0.15)) { z1.apply(a, oa[i]); }
      z1.apply(a, oa[i]); fin.insert(oa[i]); hist = mix(hist*31 + oa[i]);
    }
    z1.applyAll(b, c); z1.applyAll(p, c);
    for (int e = 0; e < 4; ++e)
    {
      V s = z1.s[e]; for (int i = 0; i < 3; ++i) s(i) += (R)(shake<R>()*jig(c)*(1 + std::fabs(s(i))));
      if (e == 0) p.setComStateX(s); else if (e == 1) p.setComStateY(s); else if (e == 2) p.setBaseStateX(s); else p.setBaseStateY(s);
    }
    Compare cmp; Ran ran; const int cycles = c.r.i(1, 8); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10});
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      if (t && c.r.p(0.2)) { const std::vector<int> ch = z1.pick(c, c.r.i(0, Z::FIELDS - 1)); for (size_t i = 0; i < ch.size(); ++i) { z1.apply(a, ch[i]); z1.apply(b, ch[i]); z1.apply(p, ch[i]); } }
      if (z1.tilting() && !zTiltMeaningful(z1.robot())) { break; }
      const R f = z1.T/static_cast<R>(k);
      const Z before(z1);
      ran.clear(); const bool oa2 = ran.go(a, f), ob = ran.go(b, f), op = ran.go(p, f);
      cmp.cycle(c, oa2, ob, op, outs(a), outs(b), outs(p), isF<R>() ? 1e-5L : 1e-12L, "mobile base cycle " + std::to_string(t), [&](bool ok) { return !ran.marginal(isF<R>() ? 1e2L : 1e5L) && different<R>(before.program(), ok, isF<R>() ? 1e-6L : 1e-13L, isF<R>() ? 1e-3L : 1e-8L); });
      z1.read(b);
    }
    c.count("mobile_cycles", cmp.cycles); c.h(hist); c.h(z1.N); c.nontrivial = cmp.cycles > 0 && detours > 0; c.state(hist);
  }

  template <typename R>
  void humanoid(Case& c)
  {
    typedef Hum<R> H; typedef typename Type<R>::VectorX V;
    H z1(c, isF<R>() ? 3 : 5);
    H z0(z1);   // the configuration of the detour; the schedule is the same from the start
    HumanoidWalkgen<R> a, b, p;
    uint64_t hist = 0; long detours = 0;
    std::vector<int> plain; for (int f = 0; f < H::FIELDS; ++f) if (f != H::NBS && f != H::PERIOD && f != H::STEP && f != H::DSLEN && !(f >= H::LX && f <= H::RZ)) plain.push_back(f);
    c.desc << "humanoid N=" << z1.N << " T=" << (double)z1.T << " k=" << z1.k << " step=" << z1.s << " ds=" << z1.d << " detours:";
    // overwritten before the first cycle
    for (int i = c.r.i(0, 4); i > 0; --i)
    {
      H t(z1); t.pick(c, H::NBS); t.pick(c, H::PERIOD); t.s = 2; t.pick(c, H::STEP); t.pick(c, H::DSLEN);
      const int set = c.r.i(0, 3);
      if (set == 0) { t.apply(a, H::PERIOD); t.apply(a, H::STEP); t.apply(a, H::DSLEN); }
      else if (set == 1) { t.apply(a, H::NBS); t.apply(a, H::VELREF); }
      else { const int f = plain[c.r.i(0, (int)plain.size() - 1)]; if (f != H::VELREF) { t.pick(c, f); t.apply(a, f); c.desc << " " << H::name(f); } }
      ++detours; hist = mix(hist*7 + set);
    }
    const bool walked = c.r.p(0.6);
    const double pm = c.r.pick(std::vector<double>{0.02, 0.1}), pt = c.r.p(0.3) && !isF<R>() ? 0.1 : 0;   // (a single precision walk at a finer period amplifies its rounding)
    int t = 0;
    if (walked)
    {
      // both walk, with different configurations on the same schedule, until they stand again
      for (size_t i = 0; i < plain.size(); ++i) if (c.r.p(0.5)) { z0.pick(c, plain[i]); }
      if (c.r.p(0.5) && !isF<R>()) { z0.pick(c, H::NBS); }
      z0.start(); z1.start();
      z0.applyAll(a, c); z1.applyAll(b, c); z1.applyAll(p, c);
      const int want = c.r.i(1, std::min(120, 4*z1.k*z1.s));
      for (; t < 400; ++t)
      {
        Walk& w = z1.walk;
        if (t > want && w.type == Walk::DS && w.rem > 0) { break; }
        if (t == want) { if (w.move) { w.move = false; a.setMove(false); b.setMove(false); p.setMove(false); } }
        else if (t < want && c.r.p(t ? pm : 0.8)) { w.move = !w.move; a.setMove(w.move); b.setMove(w.move); p.setMove(w.move); c.desc << (w.move ? " +" : " -") << t; }
        if (c.r.p(pt)) { const int n = c.r.pick(std::vector<int>{1, 2, 4, 5, 10}); if (w.canTick(n)) { w.setTick(n); z1.k = n; c.desc << " k" << n << "@" << t; c.count("feedback_period_changes"); } }
        w.update(); z0.walk = w; a.solve(z1.fb()); b.solve(z1.fb()); p.solve(z1.fb()); w.tick();
        { L m = 0; const Vec oa = outs(a), ob = outs(b); for (size_t i = 0; i < oa.size(); ++i) if (i%3 < 2) m = std::max(m, std::max(std::fabs(oa[i]), std::fabs(ob[i]))); if (!(m < 20)) throw Skip("fell over on the detour"); }
        for (size_t i = 0; i < plain.size(); ++i) if (c.r.p(0.01) && plain[i] != H::VELREF) { z0.pick(c, plain[i]); z0.apply(a, plain[i]); ++detours; c.desc << " " << t << "/" << H::name(plain[i]); }
      }
      ++detours; c.count("walked_before");
      c.desc << " standing at " << t;
    }
    // the final configuration: everything for a; for the others what a walk changes
    {
      // (a generator which has run keeps its sampling period, step period and standing time: they are the same already)
      std::vector<int> o = z1.order(c);
      for (size_t i = 0; i < o.size(); ++i)
      {
        if (walked && (o[i] == H::PERIOD || o[i] == H::STEP || o[i] == H::DSLEN)) { continue; }
        if (!walked && c.r.p(0.15)) { z1.apply(a, o[i]); }
        z1.apply(a, o[i]); hist = mix(hist*31 + o[i]);
      }
      if (walked) { const int f[] = {H::LX, H::LY, H::RX, H::RY, H::LZ, H::RZ, H::CX, H::CY}; for (int i = 0; i < 8; ++i) { z1.apply(b, f[i]); z1.apply(p, f[i]); } }
      else { z1.start(); z1.applyAll(b, c); z1.applyAll(p, c); }
    }
    for (int e = 0; e < 2; ++e)
    {
      V s = z1.com[e]; for (int i = 0; i < 3; ++i) s(i) += (R)(shakeWalk<R>()*jig(c)*(1 + std::fabs(s(i))));
      if (e == 0) p.setComStateX(s); else p.setComStateY(s);
    }
    Compare cmp; Ran ran; const int cycles = c.r.i(1, c.r.p(0.4) ? 5*z1.k*z1.s : 12); const double pn = c.r.p(0.4) ? 0.05 : 0;
    if (c.r.p(0.8)) { z1.walk.move = !z1.walk.move; a.setMove(z1.walk.move); b.setMove(z1.walk.move); p.setMove(z1.walk.move); }
    for (int q = 0; q < cycles && !cmp.over; ++q)
    {
      if (q && c.r.p(pm)) { z1.walk.move = !z1.walk.move; a.setMove(z1.walk.move); b.setMove(z1.walk.move); p.setMove(z1.walk.move); }
      if (q && c.r.p(0.1)) { const int f = plain[c.r.i(0, (int)plain.size() - 1)]; z1.pick(c, f); z1.apply(a, f); z1.apply(b, f); if (f != H::CX && f != H::CY) z1.apply(p, f); else z1.apply(p, f); }
      if (q && c.r.p(pn))
      {
        const int N = z1.N; const V vr = z1.vr; z1.pick(c, H::NBS); if (isF<R>()) { z1.N = std::min(z1.N, 4); z1.vr = rndRef<R>(c, z1.N, z1.speed, 2, 0.6); }
        if (z1.N < z1.s || z1.walk.rem > (long)z1.N*z1.k || (z1.walk.type != Walk::DS && z1.walk.dur > (long)z1.N*z1.k)) { z1.N = N; z1.vr = vr; }
        else { HumanoidWalkgen<R>* all[] = {&a, &b, &p}; for (int i = 0; i < 3; ++i) { z1.apply(*all[i], H::NBS); z1.apply(*all[i], H::VELREF); } c.count("resizes"); hist = mix(hist*31 + z1.N); }
      }
      if (c.r.p(pt)) { const int n = c.r.pick(std::vector<int>{1, 2, 4, 5, 10}); if (z1.walk.canTick(n)) { z1.walk.setTick(n); z1.k = n; c.count("feedback_period_changes"); } }
      z1.walk.N = z1.N; z1.walk.update(); const H before(z1);
      const R f = z1.fb();
      ran.clear(); const bool oa2 = ran.go(a, f), ob = ran.go(b, f), op = ran.rounded(p, f);
      z1.read(b);
      cmp.extra = footRounding<R>(2, f);
      cmp.cycle(c, oa2, ob, op, outs(a), outs(b), outs(p), isF<R>() ? 1e-3L : 1e-8L, "humanoid cycle " + std::to_string(q), [&](bool ok) {
        std::vector<Pts> sp; if (!before.supports(sp, 0) || before.axisEdges()) return false; return !ran.marginal(isF<R>() ? 1e2L : 1e5L) && different<R>(before.program(sp), ok, isF<R>() ? 2e-6L : 2e-9L, isF<R>() ? 3e-3L : 1e-5L); });
      z1.walk.tick();
      if (std::fabs((L)z1.com[0](1)) > 3 || std::fabs((L)z1.com[1](1)) > 3) { c.count("fallen"); break; }
    }
    c.count("humanoid_cycles", cmp.cycles); c.h(hist); c.h(z1.N*100 + z1.k); c.h(t); c.nontrivial = cmp.cycles > 0 && detours > 0; c.state(hist);
  }
  void attempt(Case& c)
  {
    const bool f = c.r.p(0.2);
    switch (c.r.i(0, 3))
    {
      case 0: f ? trajectory<float>(c) : trajectory<double>(c); break;
      case 1: case 2: f ? mobile<float>(c) : mobile<double>(c); break;
      default: f ? humanoid<float>(c) : humanoid<double>(c);
    }
  }
  void fn(Case& c) { std::cerr.rdbuf(0); persistently(c, attempt); }
}
VH_MAIN(fn)
