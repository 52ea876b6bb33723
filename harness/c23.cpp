// C23: separate objects share nothing; const access to shared models and polygons is race-free.
// needs: all
#include <drive.h>
#include <vqp.h>
#include <atomic>
#include <iostream>
#include <thread>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  // what an object answers, call by call
  typedef std::vector<std::vector<double> > Stream;
  struct Task
  {
    int kind; bool flt; uint64_t seed; int steps;
    std::unique_ptr<Driver<float> > f; std::unique_ptr<Driver<double> > d; Stream s; bool ended; long fails;
    double failing; int code; Rng luck;     // how often the solver gives up on this object
    Task() : ended(false), fails(0), failing(0), code(0), luck(0) {}
    static int onFault(void* ctx, const VqpCall*) { Task* t = static_cast<Task*>(ctx); if (!t->luck.p(t->failing)) return 0; ++t->fails; return t->code; }
    void start() { luck = Rng(seed + 1); fails = 0; s.clear(); ended = false; f.reset(); d.reset(); if (flt) f.reset(makeDriver<float>(kind, In<float>(seed, 0, 0, true, false))); else d.reset(makeDriver<double>(kind, In<double>(seed, 0, 0, true, false))); }
    bool more() const { return !ended && (int)s.size() < steps; }
    void step()
    {
      Out& o = f ? f->out : d->out; o = Out();
      VqpHooks* h = vqp_hooks(); if (failing > 0) { h->ctx = this; h->fault = onFault; }
      if (f) f->step(); else d->step();
      if (failing > 0) { h->ctx = 0; h->fault = 0; }
      s.push_back(o.v); if (f ? f->over : d->over) ended = true;
    }
    void stop() { f.reset(); d.reset(); }
    const char* name() const { static const char* n[] = {"tools", "polygon", "lip", "base", "trajectory functions", "mobile base functions", "foot", "feet", "trajectory", "mobile base", "humanoid", "fresh"}; return n[kind]; }
  };
  bool same(double a, double b) { return a == b || (a != a && b != b); }
  void compare(Case& c, const Stream& got, const Stream& want, const std::string& who, const char* how)
  {
    if (got.size() != want.size()) c.fail("differs", who + " " + how + ": " + std::to_string(got.size()) + " calls instead of " + std::to_string(want.size()));
    for (size_t t = 0; t < got.size(); ++t)
    {
      if (got[t].size() != want[t].size()) c.fail("differs", who + " " + how + ": call " + std::to_string(t) + " answers " + std::to_string(got[t].size()) + " values instead of " + std::to_string(want[t].size()));
      for (size_t i = 0; i < got[t].size(); ++i)
        if (!same(got[t][i], want[t][i])) c.fail("differs", who + " " + how + ": value " + std::to_string(i) + " of call " + std::to_string(t) + " is " + num(got[t][i]) + " instead of " + num(want[t][i]) + " when alone");
    }
    c.count("streams_compared"); c.count("calls_compared", (long)got.size());
  }
  // a start for all threads together, and a record of their order, none of which orders their accesses to the objects
  struct Race
  {
    std::atomic<int> ready; std::atomic<long> turn; int n;
    explicit Race(int n_) : ready(0), turn(0), n(n_) {}
    void arrive() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield(); }
    long next() { return turn.fetch_add(1, std::memory_order_relaxed); }
    static void dawdle(Rng& r) { const int k = r.i(0, 9); if (k == 0) std::this_thread::yield(); else if (k < 3) { volatile int x = 0; for (int i = r.i(10, 3000); i > 0; --i) x = x + 1; } }
  };

  void alone(std::vector<Task>& ts, std::vector<Stream>& want)
  {
    for (size_t i = 0; i < ts.size(); ++i) { ts[i].start(); while (ts[i].more()) ts[i].step(); want.push_back(ts[i].s); ts[i].stop(); }
  }
  std::vector<Task> pick(Case& c, int lo, int hi, int maxSteps)
  {
    std::vector<Task> ts(c.r.i(lo, hi)); const bool alike = c.r.p(0.5); const bool twins = c.r.p(0.1);
    const bool failing = c.r.p(0.15);   // solves that fail at the same time
    for (size_t i = 0; i < ts.size(); ++i)
    {
      ts[i].kind = i && alike ? ts[0].kind : failing ? c.r.i(8, 10) : c.r.i(0, DRIVERS - 1); ts[i].flt = i && alike ? ts[0].flt : c.r.p(0.4);
      ts[i].seed = i && twins ? ts[0].seed : c.r.next(); ts[i].steps = c.r.i(3, maxSteps);
      if (failing) { ts[i].failing = c.r.u(0.1, 0.9); ts[i].code = c.r.pick(std::vector<int>{37, 57, 64, -37, -64}); ts[i].steps = c.r.i(3, 20); }
      c.desc << " " << ts[i].name() << (ts[i].flt ? " (float) x" : " x") << ts[i].steps; c.h(ts[i].seed); c.count(std::string("objects_") + ts[i].name());
    }
    return ts;
  }

  // separate objects in separate threads
  void threads(Case& c)
  {
    c.desc << "threads:";
    std::vector<Task> ts = pick(c, 2, 5, 60); std::vector<Stream> want;
    const bool first = c.r.p(0.5);    // references before or after: lazily initialised statics are met by the threads first
    if (first) alone(ts, want);
    std::vector<Stream> got(ts.size()); std::vector<std::vector<long> > order(ts.size()); Race race((int)ts.size()); const uint64_t ds = c.r.next(); const bool makeInside = c.r.p(0.7);
    if (!makeInside) for (size_t i = 0; i < ts.size(); ++i) ts[i].start();
    std::vector<std::thread> th;
    for (size_t i = 0; i < ts.size(); ++i)
      th.push_back(std::thread([&, i]() {
        Rng r(ds + i);
        race.arrive();
        if (makeInside) ts[i].start();
        while (ts[i].more()) { ts[i].step(); order[i].push_back(race.next()); Race::dawdle(r); }
        if (makeInside) ts[i].stop();
        got[i] = ts[i].s; }));
    for (size_t i = 0; i < th.size(); ++i) th[i].join();
    for (size_t i = 0; i < ts.size(); ++i) ts[i].stop();
    if (!first) alone(ts, want);
    // how the calls were interleaved
    std::vector<int> who; for (size_t i = 0; i < order.size(); ++i) for (size_t k = 0; k < order[i].size(); ++k) { if ((size_t)order[i][k] >= who.size()) who.resize(order[i][k] + 1, -1); who[order[i][k]] = (int)i; }
    uint64_t h = 0; long sw = 0; for (size_t k = 0; k < who.size(); ++k) { h = mix(h*31 + who[k]); if (k && who[k] != who[k - 1]) ++sw; }
    c.state(h); c.count("thread_switches_seen", sw);
    for (size_t i = 0; i < ts.size(); ++i) { c.count("failing_solves_in_threads", ts[i].fails); compare(c, got[i], want[i], ts[i].name(), "in its own thread"); }
    c.count("threaded_cases");
  }
  // separate objects used in turns
  void turns(Case& c)
  {
    c.desc << "turns:";
    std::vector<Task> ts = pick(c, 2, 6, 80); std::vector<Stream> want; alone(ts, want);
    const double burst = c.r.pick(std::vector<double>{0, 0.5, 0.9}); int i = 0; uint64_t h = 0;
    std::vector<int> live; for (size_t k = 0; k < ts.size(); ++k) { live.push_back((int)k); if (c.r.p(0.5)) { ts[k].start(); } else { ts[k].s.clear(); ts[k].ended = false; } }
    while (!live.empty())
    {
      if (!c.r.p(burst)) i = c.r.i(0, (int)live.size() - 1);
      i = i%(int)live.size(); Task& t = ts[live[i]];
      if (!t.f && !t.d) t.start();
      if (t.more()) { t.step(); h = mix(h*31 + live[i]); } else { if (c.r.p(0.5)) t.stop(); live.erase(live.begin() + i); i = 0; }
    }
    c.state(h);
    for (size_t k = 0; k < ts.size(); ++k) { ts[k].stop(); compare(c, ts[k].s, want[k], ts[k].name(), "in turns with other objects"); }
    c.count("interleaved_cases");
  }

  // one configured model or polygon read by several threads
  template <typename R>
  struct Shared
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    LIPModel<R> lip; BaseModel<R> base; NoDynamicModel<R> none; HumanoidFootModel<R> foot; ConvexPolygon<R> poly; int N, k;
    Shared(Rng& r, int N_, int k_, R T, bool lazy) : lip(N_, T, !lazy), base(N_, T, !lazy), none(N_, T, !lazy), foot(N_, T), N(N_), k(k_)
    {
      In<R> in(r.next(), 0, 0, false, false);
      lip.setFeedbackPeriod(T/(R)k); putMass(lip, (R)10, (R)30); putMass(base, (R)20, (R)30); lip.setComHeight(in.x(0.6, 1)); base.setComHeight(in.x(0.1, 0.3));
      const V3 g(in.x(-1, 1), in.x(-1, 1), in.x(8, 10)); lip.setGravity(g); base.setGravity(g);
      lip.setStateX(in.state(1, 1, 1)); lip.setStateY(in.state(1, 1, 1)); base.setStateX(in.state(1, 1, 1)); base.setStateY(in.state(1, 1, 1)); base.setStateRoll(in.state(0.1, 0.1, 0.1)); base.setStatePitch(in.state(0.1, 0.1, 0.1)); none.setState(in.state(1, 1, 1));
      poly = in.poly(); base.setCopSupportConvexPolygon(poly); base.setComSupportConvexPolygon(in.poly()); foot.setCopConvexPolygon(poly); foot.setKinematicConvexPolygon(in.poly());
      if (lazy) { lip.computeDynamics(); base.computeDynamics(); none.computeDynamics(); }
    }
    // a reader: only const access to what is shared, own objectives and constraints
    void read(uint64_t seed, int n, Stream& s) const
    {
      In<R> in(seed, 0, 0, false, false); Out o;
      struct D : Driver<R> { D(const In<R>& i) : Driver<R>(i, "reader") {} void step() {} } d(in);
      BaseVelocityTrackingObjective<R> vel(base); BasePositionTrackingObjective<R> pos(base); JerkMinimizationObjective<R> jerk(lip, base); CopCenteringObjective<R> cop(lip, base); ComCenteringObjective<R> com(lip, base); TiltMinimizationObjective<R> tilt(lip, base); TiltVelMinimizationObjective<R> tiltVel(lip, base);
      BaseMotionConstraint<R> motion(base); CopConstraint<R> copCon(lip, base); ComConstraint<R> comCon(lip, base); TiltMotionConstraint<R> tiltCon(lip, base);
      VelocityTrackingObjective<R> tv(none); PositionTrackingObjective<R> tp(none); TrajectoryJerkMinimizationObjective<R> tj(none); MotionConstraint<R> tm(none);
      vel.setVelRefInWorldFrame(in.vec(2*N, 1)); pos.setPosRefInWorldFrame(in.vec(2*N, 1)); com.setNbSamples(N); com.setComRefInLocalFrame(in.vec(2*N, 0.1)); com.updateGravityShift(); cop.setCopRefInLocalFrame(in.vec(2*N, 0.1));
      tv.setVelRefInWorldFrame(in.vec(N, 1)); tp.setPosRefInWorldFrame(in.vec(N, 1));
      tv.computeConstantPart(); tp.computeConstantPart(); tj.computeConstantPart(); tm.computeConstantPart();
      vel.computeConstantPart(); pos.computeConstantPart(); jerk.computeConstantPart(); cop.computeConstantPart(); com.computeConstantPart(); tilt.computeConstantPart(); tiltVel.computeConstantPart(); motion.computeConstantPart(); copCon.computeConstantPart(); comCon.computeConstantPart(); tiltCon.computeConstantPart();
      for (int t = 0; t < n; ++t)
      {
        d.out = Out();
        const V x = in.vec(4*N, 1), xb = x.tail(2*N), xt = x.head(N); const int i = in.r.i(0, k - 1);
        switch (in.r.i(0, 7))
        {
          case 0: d.dyn("", lip.getCopXLinearDynamic(i)); d.dyn("", lip.getCopYLinearDynamic(i)); d.dyn("", lip.getComPosLinearDynamic(i)); d.dyn("", lip.getComVelLinearDynamic(i)); d.dyn("", lip.getComAccLinearDynamic(i)); d.dyn("", lip.getComJerkLinearDynamic(i)); break;
          case 1: d.dyn("", base.getCopXLinearDynamic()); d.dyn("", base.getCopYLinearDynamic()); d.dyn("", base.getBasePosLinearDynamic()); d.dyn("", base.getBaseVelLinearDynamic()); d.dyn("", base.getBaseAccLinearDynamic()); d.dyn("", base.getBaseJerkLinearDynamic()); d.dyn("", base.getBaseTiltAngleLinearDynamic()); d.dyn("", base.getBaseTiltAngularVelLinearDynamic()); break;
          case 2: d.polygon("", poly); d.polygon("", base.getCopSupportConvexPolygon()); d.polygon("", base.getComSupportConvexPolygon()); d.polygon("", foot.getCopConvexPolygon()); d.polygon("", foot.getKinematicConvexPolygon()); { const ConvexPolygon<R> copy(poly); d.polygon("", copy); } break;
          case 3: d.out.mat("", lip.getStateX()); d.out.mat("", lip.getStateY()); d.out.mat("", lip.getStateZ()); d.out.mat("", base.getStateX()); d.out.mat("", base.getStateRoll()); d.out.mat("", base.getStatePitch()); d.out.mat("", none.getState()); d.out.mat("", foot.getStateX()); d.out.num(lip.getMass()); d.out.num(base.getMass()); d.out.num(lip.getComHeight()); d.out.mat("", lip.getGravity()); d.out.num(foot.isInContact(in.r.i(0, N - 1))); break;
          case 4: d.out.mat("", vel.getGradient(xb)); d.out.mat("", pos.getGradient(xb)); d.out.mat("", jerk.getGradient(x)); d.out.mat("", vel.getHessian()); break;
          case 5: d.out.mat("", cop.getGradient(x)); d.out.mat("", com.getGradient(x)); d.out.mat("", tilt.getGradient(x)); d.out.mat("", tiltVel.getGradient(x)); break;
          case 6: d.out.mat("", motion.getFunctionInf(xb)); d.out.mat("", copCon.getFunction(x)); d.out.mat("", comCon.getFunction(x)); d.out.mat("", tiltCon.getFunction(x)); break;
          default: d.out.mat("", tv.getGradient(xt)); d.out.mat("", tp.getGradient(xt)); d.out.mat("", tj.getGradient(xt)); d.out.mat("", tm.getFunctionInf(xt)); d.dyn("", none.getPosLinearDynamic()); d.dyn("", none.getVelLinearDynamic()); d.dyn("", none.getAccLinearDynamic()); d.dyn("", none.getJerkLinearDynamic());
        }
        s.push_back(d.out.v);
      }
    }
  };
  template <typename R> void readers(Case& c)
  {
    const int N = c.r.i(1, 8), k = c.r.i(1, 5), n = c.r.i(2, 5), calls = c.r.i(2, 12); const R T = (R)(0.01*c.r.i(8, 20));
    c.desc << n << " readers of models with N=" << N;
    Rng mr = c.r; c.r.next();
    Shared<R> m(mr, N, k, T, c.r.p(0.3));
    std::vector<Stream> got(n), want(n); const uint64_t s0 = c.r.next();
    std::vector<std::thread> th; Race race(n);
    for (int i = 0; i < n; ++i) th.push_back(std::thread([&, i]() { race.arrive(); m.read(s0 + i, calls, got[i]); }));
    for (int i = 0; i < n; ++i) th[i].join();
    for (int i = 0; i < n; ++i) { m.read(s0 + i, calls, want[i]); compare(c, got[i], want[i], "a reader of shared models", "with others"); }
    c.h(s0); c.count("shared_cases");
  }
  void fn(Case& c)
  {
    std::cerr.rdbuf(0);
    switch (c.r.i(0, 5))
    {
      case 0: case 1: case 2: threads(c); break;
      case 3: if (c.r.p(0.5)) readers<float>(c); else readers<double>(c); break;
      default: turns(c);
    }
    c.nontrivial = true;
  }
}
VH_MAIN(fn)
