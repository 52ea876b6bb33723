// Comparison of two generators that must behave alike, with the tolerance calibrated by a slightly perturbed third one.
#pragma once
#include <hum.h>
#include <qpref.h>
#include <traj.h>
#include <zeb.h>

namespace vh
{
  template <typename R> Vec outs(const MPCWalkgen::TrajectoryWalkgen<R>& g) { Vec o = toVec(g.getState()); return o; }
  template <typename R> Vec outs(const MPCWalkgen::ZebulonWalkgen<R>& g)
  {
    Vec o;
    const typename Type<R>::VectorX* s[] = {&g.getComStateX(), &g.getComStateY(), &g.getBaseStateX(), &g.getBaseStateY()};
    for (int i = 0; i < 4; ++i) { const Vec v = toVec(*s[i]); o.insert(o.end(), v.begin(), v.end()); }
    return o;
  }
  template <typename R> Vec outs(const MPCWalkgen::HumanoidWalkgen<R>& g)
  {
    Vec o;
    const typename Type<R>::VectorX* s[] = {&g.getComStateX(), &g.getComStateY(), &g.getComStateZ(), &g.getLeftFootStateX(), &g.getLeftFootStateY(), &g.getLeftFootStateZ(), &g.getRightFootStateX(), &g.getRightFootStateY(), &g.getRightFootStateZ()};
    for (int i = 0; i < 9; ++i) { const Vec v = toVec(*s[i]); o.insert(o.end(), v.begin(), v.end()); }
    return o;
  }

  // a: reached by detours, b: configured directly, p: like b with slightly different states
  struct Compare
  {
    Vec dev, big; int cycles; bool over; L factor; Vec extra;   // extra: additional tolerance of each element; factor: multiple of the deviation of the perturbed generator which is allowed
    Compare() : cycles(0), over(false), factor(0) {}
    template <typename Qf> void cycle(Case& c, bool oka, bool okb, bool okp, const Vec& a, const Vec& b, const Vec& p, L floor, const std::string& at, Qf contradicted)
    {
      if (dev.empty()) { dev.assign(b.size(), 0); big.assign(b.size(), 0); }
      if (oka != okb)
      {
        if (okp == okb && contradicted(oka)) c.fail("result", at + ": " + (oka ? "success" : "failure") + " instead of " + (okb ? "success" : "failure") + " of the generator it is compared with");
        c.count("marginal_results"); over = true; return;
      }
      if (!okb || !okp) { c.count("both_failed"); over = true; return; }
      if (a.size() != b.size()) c.fail("size", at + ": states of different sizes");
      L m = 0;
      for (size_t i = 0; i < b.size(); ++i) { big[i] = std::max(big[i], std::fabs(b[i])); if (i%3 != 2) m = std::max(m, big[i]); }
      if (!(m < 50)) { c.count("exploding"); over = true; return; }
      L md = 0;
      for (size_t i = 0; i < b.size(); ++i) { dev[i] = std::max(dev[i], std::fabs(p[i] - b[i])); if (dev[i] > md) md = dev[i]; }
      for (size_t i = 0; i < b.size(); ++i)
      {
        const L tol = (factor > 0 ? factor : floor > 1e-6L ? 2000 : 300)*(dev[i] + 1e-3L*md) + floor*(1 + big[i])*(i%3 == 2 && floor > 1e-4L ? 10 : 1) + (i < extra.size() ? extra[i] : 0);
        if (tol > (floor > 1e-4L ? 0.02L : 0.05L)*(0.2L + big[i])) { c.count("illconditioned_states"); continue; }
        checkClose(c, a[i], b[i], tol, "state", at + ": state element " + std::to_string(i) + " of the two generators");
        c.count("states_compared");
      }
      ++cycles;
    }
  };
  // a flying foot divides the rounding of what is left of its way by the feedback period
  template <typename R> Vec footRounding(L far, L f)
  {
    const L noise = 2*(L)std::numeric_limits<R>::epsilon()*far;
    Vec x(27, 0); for (size_t i = 9; i < 27; ++i) x[i] = i%3 == 0 ? noise : i%3 == 1 ? 10*noise/f : 60*noise/(f*f);
    return x;
  }
  // how strongly the third generator is perturbed: a difference counts as one only if it exceeds what perturbations of growing size explain
  inline L& shaking() { static L s = 1; return s; }
  inline uint64_t& shakingSalt() { static uint64_t s = 0; return s; }
  template <typename R> L shake() { return isF<R>() ? 1e-6L*std::min(shaking(), (L)10) : 1e-13L*shaking(); }
  template <typename R> L shakeWalk() { return isF<R>() ? 1e-5L*std::min(shaking(), (L)10) : 1e-10L*shaking(); }
  inline L jig(Case& c) { const uint64_t z = c.r.next(); Rng r(z + shakingSalt()); return r.u(-1, 1); }
  template <typename F> void persistently(Case& c, F f)
  {
    static const L scale[] = {1, 10, 1, 100, 30, 1000};
    const Rng r0 = c.r; const uint64_t sig = c.sig;
    for (int i = 0;; ++i)
    {
      c.r = r0; c.sig = sig; c.nontrivial = false; c.desc.str(""); shaking() = scale[i]; shakingSalt() = 0x5bd1e995u*i; vqp_hooks()->jitterState = 77 + i;
      try { f(c); shaking() = 1; shakingSalt() = 0; return; }
      catch (const Fail&) { if (i == 5) { shaking() = 1; shakingSalt() = 0; throw; } c.count("recalibrated"); }
      catch (...) { shaking() = 1; shakingSalt() = 0; throw; }
    }
  }
  // What the solver thought of the programs of the generators which are compared.
  struct Ran
  {
    Watch w; bool undecided; L big;
    Ran() : undecided(false), big(0) {}
    void clear() { undecided = false; big = 0; }
    template <typename G, typename R> bool go(G& g, R f)
    {
      w.rc = -1; const bool ok = g.solve(f);
      if (w.rc == 64) undecided = true;
      if (ok) big = std::max(big, w.big);
      return ok;
    }
    // the perturbed generator, with programs rounded as single precision rounds them
    template <typename R, typename G> bool rounded(G& g, R f)
    {
      VqpHooks* h = vqp_hooks(); if (isF<R>()) h->jitter = (double)(3e-7L*std::min(shaking(), (L)30));
      const bool ok = go(g, f); h->jitter = 0; return ok;
    }
    // verdicts may differ: the stand-in could not decide, or rounding made inconsistent rows consistent with controls of the order of its inverse
    bool marginal(L limit) const { return undecided || big > limit; }
  };
  template <typename R> bool different(const Qp& q, bool oka, L e, L mar)
  {
    Best b = best(q, Rng(1), e, 1, 2); Vec x;
    return oka ? b.rc == 1 && q.widened(mar).solve(x) == 1 : b.rc == 0 && q.widened(-mar).solve(x) == 0;
  }
}
