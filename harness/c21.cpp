// C21: single precision tracks double precision, in components and through whole closed-loop runs.
// needs: all
#include <drive.h>
#include <iostream>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  typedef Type<double>::VectorX VD;
  struct Noise { Rng r; L e; explicit Noise(uint64_t s, L e_) : r(s), e(e_) {} double operator()(double v) { return v*(1 + e*r.u(-1, 1)); }
                 void operator()(VD& v) { const double m = v.size() ? v.cwiseAbs().maxCoeff() : 0; for (int i = 0; i < v.size(); ++i) v(i) += e*m*r.u(-1, 1); }
                 void operator()(Pts& p) { for (size_t i = 0; i < p.size(); ++i) { p[i].first += e*r.u(-1, 1)*0.1L; p[i].second += e*r.u(-1, 1)*0.1L; } } };
  // the same configuration up to single-precision rounding
  Traj<double> shaken(const Traj<double>& z, uint64_t salt, L e)
  {
    Traj<double> t(z); Noise n(salt, e); t.T = n(t.T); t.vL = n(t.vL); t.aL = n(t.aL); t.jL = n(t.jL);
    t.w.velocityTracking = n(t.w.velocityTracking); t.w.positionTracking = n(t.w.positionTracking); t.w.jerkMinimization = n(t.w.jerkMinimization);
    n(t.vr); n(t.pr); n(t.s); return t;
  }
  Zeb<double> shaken(const Zeb<double>& z, uint64_t salt, L e)
  {
    Zeb<double> t(z); Noise n(salt, e); t.T = n(t.T); t.hc = n(t.hc); t.hb = n(t.hb); t.mc = n(t.mc); t.mb = n(t.mb); for (int i = 0; i < 3; ++i) t.g(i) = n(t.g(i));
    t.vL = n(t.vL); t.aL = n(t.aL); t.jL = n(t.jL); t.px = n(t.px); t.py = n(t.py);
    double* w[] = {&t.w.velocityTracking, &t.w.positionTracking, &t.w.copCentering, &t.w.comCentering, &t.w.jerkMinimization, &t.w.tiltMinimization, &t.w.tiltVelMinimization};
    for (int i = 0; i < 7; ++i) *w[i] = n(*w[i]);
    n(t.vr); n(t.pr); n(t.copr); n(t.comr); for (int i = 0; i < 4; ++i) { n(t.wr[i]); n(t.s[i]); } n(t.roll); n(t.pitch); n(t.yaw); n(t.cop); n(t.com); return t;
  }
  Hum<double> shaken(const Hum<double>& z, uint64_t salt, L e)
  {
    Hum<double> t(z); Noise n(salt, e); t.h = n(t.h); n(t.vr);
    double* w[] = {&t.w.velocityTracking, &t.w.copCentering, &t.w.jerkMinimization}; for (int i = 0; i < 3; ++i) *w[i] = n(*w[i]);
    for (int a = 1; a < 3; ++a) { n(t.foot[a][0]); n(t.foot[a][1]); n(t.foot[a][2]); t.top[a] = n(t.top[a]); n(t.kin[a]); n(t.sole[a]); }
    n(t.com[0]); n(t.com[1]); return t;
  }
  const L E = 4e-7L;
  // the three generators' solves of a cycle, the third one with programs rounded as in single precision
  struct Three
  {
    bool ok[3]; bool undecided; L big;
    Watch w;
    template <typename A, typename B> void run(A& a, float fa, B& b, double fb, B& p, double fp)
    {
      undecided = false; VqpHooks* h = vqp_hooks();
      ok[0] = a.solve(fa); big = w.big; undecided = undecided || w.rc == 64;
      ok[1] = b.solve(fb); undecided = undecided || w.rc == 64;
      h->jitter = (double)(3e-7L*std::min(shaking(), (L)30)); ok[2] = p.solve(fp); h->jitter = 0;
    }
    // success in single precision may rest on rounding having made inconsistent rows consistent with controls of the order of its inverse
    bool marginal() const { return undecided || (ok[0] && !ok[1] && big > 1e2L); }
  };

  void trajectory(Case& c)
  {
    Quiet qf(c.r.next()), qd(0); qd.c.r = qf.c.r;
    Traj<float> f(qf.c); Traj<double> d(qd.c);
    TrajectoryWalkgen<float> a; TrajectoryWalkgen<double> b, p;
    const uint64_t salt = c.r.next() + shakingSalt(); const L e = E*std::min(shaking(), (L)30);
    Traj<double> s = shaken(d, salt, e);
    { const std::vector<int> o = d.order(c); for (size_t i = 0; i < o.size(); ++i) { f.apply(a, o[i]); d.apply(b, o[i]); s.apply(p, o[i]); } }
    Three th; Compare cmp; cmp.factor = 100; const int cycles = c.r.i(1, 40); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10}); uint64_t hist = 0;
    c.desc << "trajectory N=" << d.N << " T=" << d.T << " k=" << k;
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      if (t && c.r.p(0.15)) { const int fd = c.r.i(0, Traj<double>::FIELDS - 1); const std::vector<int> ch = f.pick(qf.c, fd); d.pick(qd.c, fd); s = shaken(d, salt, e); for (size_t i = 0; i < ch.size(); ++i) { f.apply(a, ch[i]); d.apply(b, ch[i]); s.apply(p, ch[i]); hist = mix(hist*31 + ch[i] + t); } }
      d.read(b); const Traj<double> before(d);
      th.run(a, f.T/(float)k, b, d.T/k, p, s.T/k);
      cmp.cycle(c, th.ok[0], th.ok[1], th.ok[2], outs(a), outs(b), outs(p), 1e-5L, "trajectory cycle " + std::to_string(t), [&](bool ok) { return !th.marginal() && different<float>(before.program(), ok, 1e-6L, 1e-4L); });
      d.read(b); f.read(a);
    }
    c.count("trajectory_cycles", cmp.cycles); c.h(hist); c.h(d.N); c.h((uint64_t)(1e6*d.T)); c.nontrivial = cmp.cycles > 0; c.state(mix(hist + d.N));
  }
  void mobile(Case& c)
  {
    Quiet qf(c.r.next()), qd(0); qd.c.r = qf.c.r;
    typedef Zeb<double> Z;
    Zeb<float> f(qf.c, 5); Z d(qd.c, 5);
    ZebulonWalkgen<float> a; ZebulonWalkgen<double> b, p;
    const uint64_t salt = c.r.next() + shakingSalt(); const L e = E*std::min(shaking(), (L)30);
    Z s = shaken(d, salt, e);
    { const std::vector<int> o = d.order(c); for (size_t i = 0; i < o.size(); ++i) { f.apply(a, o[i]); d.apply(b, o[i]); s.apply(p, o[i]); } }
    Three th; Compare cmp; cmp.factor = 100; const int cycles = c.r.i(1, 20); const int k = c.r.pick(std::vector<int>{1, 2, 5, 10}); uint64_t hist = 0;
    c.desc << "mobile base N=" << d.N << " T=" << d.T << " k=" << k << (d.withTilt ? " tilting" : "");
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      if (t && c.r.p(0.15))
      {
        const int fd = c.r.i(0, Z::FIELDS - 1); const std::vector<int> ch = f.pick(qf.c, fd); d.pick(qd.c, fd); s = shaken(d, salt, e);
        for (size_t i = 0; i < ch.size(); ++i) { f.apply(a, ch[i]); d.apply(b, ch[i]); s.apply(p, ch[i]); hist = mix(hist*31 + ch[i] + t); }
        if (qf.c.r.s != qd.c.r.s) { c.count("choices_differ"); break; }   // a polygon accepted in one precision only
      }
      if (d.tilting() && !zTiltMeaningful(d.robot())) { break; }
      const Z before(d); cmp.factor = d.tilting() ? 600 : 100;
      th.run(a, f.T/(float)k, b, d.T/k, p, s.T/k);
      cmp.cycle(c, th.ok[0], th.ok[1], th.ok[2], outs(a), outs(b), outs(p), 1e-5L, "mobile base cycle " + std::to_string(t), [&](bool ok) { return !th.marginal() && different<float>(before.program(), ok, 1e-6L, 1e-3L); });
      d.read(b); f.read(a);
    }
    c.count("mobile_cycles", cmp.cycles); c.h(hist); c.h(d.N*4); c.h((uint64_t)(1e6*d.T)); c.nontrivial = cmp.cycles > 0; c.state(mix(hist + d.N));
  }
  // the first n elements of both axes of a reference
  template <typename V> V V2(const V& v, int N, int n) { V r(2*n); for (int i = 0; i < n; ++i) { r(i) = v(i); r(n + i) = v(N + i); } return r; }
  void humanoid(Case& c)
  {
    Quiet qf(c.r.next()), qd(0); qd.c.r = qf.c.r;
    typedef Hum<double> H;
    Hum<float> f(qf.c, 3); H d(qd.c, 3);
    HumanoidWalkgen<float> a; HumanoidWalkgen<double> b, p;
    const uint64_t salt = c.r.next() + shakingSalt(); const L e = E*3*std::min(shaking(), (L)30);
    H s = shaken(d, salt, e);
    { const std::vector<int> o = d.order(c); for (size_t i = 0; i < o.size(); ++i) { f.apply(a, o[i]); d.apply(b, o[i]); s.apply(p, o[i]); } }
    std::vector<int> plain; for (int i = 0; i < H::FIELDS; ++i) if (i != H::NBS && i != H::PERIOD && i != H::STEP && i != H::DSLEN && !(i >= H::LX && i <= H::RZ)) plain.push_back(i);
    Three th; Compare cmp; cmp.factor = 300; const int cycles = c.r.i(1, c.r.p(0.5) ? std::min(200, 10*d.k*d.s) : 16); const double pm = c.r.pick(std::vector<double>{0.01, 0.05}), pn = c.r.p(0.3) ? 0.03 : 0; uint64_t hist = 0; long steps = 0;
    c.desc << "humanoid N=" << d.N << " T=" << d.T << " k=" << d.k << " step=" << d.s << " ds=" << d.d;
    if (c.r.p(0.8)) { d.walk.move = true; a.setMove(true); b.setMove(true); p.setMove(true); }
    for (int t = 0; t < cycles && !cmp.over; ++t)
    {
      if (t && c.r.p(pm)) { d.walk.move = !d.walk.move; a.setMove(d.walk.move); b.setMove(d.walk.move); p.setMove(d.walk.move); hist = mix(hist + t); }
      if (t && c.r.p(0.05))
      {
        const int fd = plain[c.r.i(0, (int)plain.size() - 1)]; f.pick(qf.c, fd); d.pick(qd.c, fd); if (qf.c.r.s != qd.c.r.s) { c.count("choices_differ"); break; }
        s = shaken(d, salt, e); f.apply(a, fd); d.apply(b, fd); s.apply(p, fd); hist = mix(hist*31 + fd + t);
      }
      if (t && c.r.p(pn))
      {
        f.pick(qf.c, H::NBS); d.pick(qd.c, H::NBS); if (qf.c.r.s != qd.c.r.s) { c.count("choices_differ"); break; }
        // (the two of them go on with the same number, small enough for single precision)
        const int N = std::max(d.s, std::min(d.N, 3)); if (N < d.N) { d.vr = V2(d.vr, d.N, N); f.vr = V2(f.vr, f.N, N); } d.N = f.N = N;
        if (d.walk.rem > (long)d.N*d.k || (d.walk.type != Walk::DS && d.walk.dur > (long)d.N*d.k)) { c.count("short_previews"); break; }
        s = shaken(d, salt, e); f.apply(a, H::NBS); f.apply(a, H::VELREF); d.apply(b, H::NBS); d.apply(b, H::VELREF); s.apply(p, H::NBS); s.apply(p, H::VELREF); hist = mix(hist*31 + d.N + t); c.count("resizes");
      }
      d.walk.N = d.N; d.walk.update(); const H before(d); const Walk now = d.walk;
      std::vector<Pts> sp; const bool known = !d.q.withCopConstraints || before.supports(sp, 0);
      const std::string at = "humanoid tick " + std::to_string(t) + (now.type == Walk::DS ? " (ds)" : now.type == Walk::LEFT ? " (left)" : " (right)");
      th.run(a, f.fb(), b, d.fb(), p, d.fb());
      d.read(b); f.read(a);
      // (the hull under both feet after the running step may be one or the other up to the resolution of the polygons)
      bool clear = known;
      if (!known) { clear = true; for (int i = 0; i < d.N; ++i) if (now.samples[i].type == Walk::DS && now.type != Walk::DS) clear = false; if (now.type == Walk::DS) clear = false; }
      if (!clear) { c.count("unclear_hulls"); break; }
      cmp.extra = footRounding<float>(2, d.fb());
      cmp.cycle(c, th.ok[0], th.ok[1], th.ok[2], outs(a), outs(b), outs(p), 1e-3L, at, [&](bool ok) {
        if (!known || before.axisEdges() || th.marginal()) return false; std::vector<Pts> s2(sp); if (!before.q.withCopConstraints) s2.assign(before.N, Pts());
        return different<float>(before.program(s2), ok, 2e-6L, 3e-3L); });
      if (std::fabs((L)d.com[0](1)) > 3 || std::fabs((L)d.com[1](1)) > 3) { c.count("fallen"); break; }
      d.walk.tick(); if (now.type != Walk::DS && d.walk.rem == 0) { ++steps; }
    }
    c.count("humanoid_cycles", cmp.cycles); c.count("steps_landed", steps); c.h(hist); c.h(d.N*100 + d.k*4); c.h((uint64_t)(1e6*d.T)); c.nontrivial = cmp.cycles > 0; c.state(mix(hist + d.N + d.walk.key()));
  }

  // components: the float stream against the double stream, with the tolerance taken from perturbed double streams
  void component(Case& c)
  {
    const int kind = c.r.i(0, 7), steps = c.r.i(3, kind == 7 ? 120 : 25); const uint64_t seed = c.r.next();
    const L e = 2e-7L*std::min(shaking(), (L)10);
    std::unique_ptr<Driver<float> > f(makeDriver<float>(kind, In<float>(seed, 0, 0, false, true)));
    std::unique_ptr<Driver<double> > d(makeDriver<double>(kind, In<double>(seed, 0, 0, false, true)));
    std::vector<std::unique_ptr<Driver<double> > > p;
    for (int i = 0; i < 4; ++i) p.push_back(std::unique_ptr<Driver<double> >(makeDriver<double>(kind, In<double>(seed, e, shakingSalt()*8 + i + 1, false, true))));
    c.desc << d->name << " " << steps << " calls";
    uint64_t hist = kind;
    std::map<std::string, L> memory;   // magnitude of a quantity so far: what a state inherits from
    for (int t = 0; t < steps && !d->over; ++t)
    {
      f->out = Out(); f->step(); d->out = Out(); d->step();
      for (size_t i = 0; i < p.size(); ++i) { p[i]->out = Out(); p[i]->step(); }
      const Out &x = f->out, &y = d->out;
      if (f->over != d->over) c.fail("over", std::string(d->name) + " differ after call " + std::to_string(t));
      if (f->in.r.s != d->in.r.s) { bool same = true; for (size_t i = 0; i < p.size(); ++i) same = same && p[i]->in.r.s == d->in.r.s; if (!same) { c.count("choices_differ"); break; } c.fail("choices", std::string(d->name) + ": the precisions took different ways at call " + std::to_string(t)); }
      bool forked = false; for (size_t i = 0; i < p.size(); ++i) forked = forked || p[i]->out.v.size() != y.v.size() || p[i]->out.g.size() != y.g.size();
      if (forked) { c.count("perturbed_forked"); break; }
      if (x.v.size() != y.v.size() || x.g.size() != y.g.size()) c.fail("size", std::string(d->name) + " call " + std::to_string(t) + ": results of different sizes");
      for (size_t g = 0; g < y.g.size(); ++g)
      {
        const size_t from = y.g[g].from, to = g + 1 < y.g.size() ? y.g[g + 1].from : y.v.size();
        const std::string nm = std::string(d->name) + " call " + std::to_string(t) + ": " + y.g[g].name;
        if (x.g[g].from != from) c.fail("size", nm + ": different sizes");
        hist = mix(hist*31 + (to - from));
        if (y.g[g].extra < 0) { for (size_t i = from; i < to; ++i) if (x.v[i] != y.v[i]) { bool pd = false; for (size_t q = 0; q < p.size(); ++q) pd = pd || p[q]->out.v[i] != y.v[i]; if (!pd) c.fail("count:" + y.g[g].name, nm + " is " + num(x.v[i]) + " instead of " + num(y.v[i])); c.count("marginal_counts"); return; } c.count("counts_compared"); continue; }
        L sc = 0, dev = 0;
        for (size_t i = from; i < to; ++i) if (y.v[i] == y.v[i]) { sc = std::max(sc, std::fabs((L)y.v[i])); for (size_t q = 0; q < p.size(); ++q) dev = std::max(dev, std::fabs((L)p[q]->out.v[i] - y.v[i])); }
        L& m = memory[y.g[g].name]; m = std::max(m, sc);
        const L tol = 40*dev + 1e-5L*(0.1L*m + sc + 1e-2L) + y.g[g].extra;
        if (!(tol < 0.05L*(sc + 0.1L))) { c.count("illconditioned_groups"); continue; }
        for (size_t i = from; i < to; ++i) if (x.v[i] == x.v[i] || y.v[i] == y.v[i]) checkClose(c, x.v[i], y.v[i], tol, "value:" + std::string(d->name) + ":" + y.g[g].name, nm + " element " + std::to_string(i - from));
        c.count("groups_compared"); c.count(std::string("groups_") + d->name);
      }
    }
    c.h(seed); c.nontrivial = true; c.state(hist);
  }
  void attempt(Case& c)
  {
    switch (c.r.i(0, 7))
    {
      case 0: trajectory(c); break;
      case 1: case 2: mobile(c); break;
      case 3: case 4: humanoid(c); break;
      default: component(c);
    }
  }
  void fn(Case& c) { std::cerr.rdbuf(0); likeFloat() = true; persistently(c, attempt); }
}
VH_MAIN(fn)
