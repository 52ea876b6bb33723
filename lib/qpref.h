// The oracle's own quadratic programs, built from simulated quantities, and the comparison of
// an applied control with their certified minimisers.
#pragma once
#include <ref.h>
#include <vqp.h>

namespace vh
{
  struct Qp
  {
    int n; Vec H, g, gs, lb, ub; std::vector<Row> c;   // gs: magnitude of the terms behind g
    explicit Qp(int n_) : n(n_), H((size_t)n_*n_, 0), g(n_, 0), gs(n_, 0), lb(n_, -1e30L), ub(n_, 1e30L) {}
    // w/2 sum_i sw_i r_i(x)^2
    void cost(const Aff& a, L w, const Vec* sw = 0)
    {
      for (int k = 0; k < n; ++k)
      {
        L s = 0, m = 0;
        for (int i = 0; i < a.m; ++i) { const L u = (sw ? (*sw)[i] : 1)*a.J[k][i]; s += u*a.r0[i]; m += std::fabs(u)*(std::fabs(a.r0[i]) + a.cancel); }
        g[k] += w*s; gs[k] += w*m;
        for (int l = 0; l <= k; ++l)
        {
          L h = 0; for (int i = 0; i < a.m; ++i) { h += (sw ? (*sw)[i] : 1)*a.J[k][i]*a.J[l][i]; }
          H[k*n + l] += w*h; if (l != k) { H[l*n + k] += w*h; }
        }
      }
    }
    // lo <= a_i(x) <= hi for every row
    void rows(const Aff& a, L lo, L hi) { for (int i = 0; i < a.m; ++i) row(a, i, lo, hi); }
    void row(const Aff& a, int i, L lo, L hi)
    {
      Row r; r.a.resize(n); for (int k = 0; k < n; ++k) { r.a[k] = a.J[k][i]; }
      r.lo = lo < -1e20L ? lo : lo - a.r0[i]; r.hi = hi > 1e20L ? hi : hi - a.r0[i]; r.sc = std::fabs(a.r0[i]) + (lo < -1e20L ? 0 : std::fabs(lo)) + (hi > 1e20L ? 0 : std::fabs(hi));
      c.push_back(r);
    }
    int solve(Vec& x, int* act = 0) const
    {
      const int m = (int)c.size();
      Vec A((size_t)m*n + 1), lo(m + 1), hi(m + 1);
      for (int i = 0; i < m; ++i) { for (int k = 0; k < n; ++k) A[i*n + k] = c[i].a[k]; lo[i] = c[i].lo; hi[i] = c[i].hi; }
      x.assign(n, 0);
      return vqp_solve_ld(n, m, H.data(), g.data(), A.data(), lb.data(), ub.data(), lo.data(), hi.data(), x.data(), act);
    }
    // the same program with data off by e (relative to the terms they are made of; the gradient may be
    // evaluated around a control of magnitude x0)
    Qp off(Rng& r, L e, L x0) const
    {
      Qp q(*this);
      Vec d(n, 0); L mh = 0;
      for (int k = 0; k < n; ++k) { d[k] = std::sqrt(std::fabs(H[k*n + k])); mh = std::max(mh, d[k]); }
      for (int k = 0; k < n; ++k)
      {
        q.g[k] += e*r.u(-1, 1)*(gs[k] + x0*d[k]*mh);
        for (int l = 0; l <= k; ++l) { const L v = e*r.u(-1, 1)*d[k]*d[l]; q.H[k*n + l] += v; if (l != k) q.H[l*n + k] += v; }
      }
      for (size_t i = 0; i < c.size(); ++i)
      {
        L m = 0; for (int k = 0; k < n; ++k) m = std::max(m, std::fabs(c[i].a[k]));
        for (int k = 0; k < n; ++k) if (c[i].a[k] != 0) q.c[i].a[k] += e*r.u(-1, 1)*m;
        const bool eq = c[i].lo == c[i].hi;
        const L z = c[i].sc + m*(1 + x0), v = e*r.u(-1, 1)*z, v2 = eq ? v : e*r.u(-1, 1)*z;
        if (c[i].lo > -1e20L) q.c[i].lo += v;
        if (c[i].hi < 1e20L) q.c[i].hi += v2;
      }
      for (int k = 0; k < n; ++k)
      {
        if (lb[k] > -1e20L) q.lb[k] += e*r.u(-1, 1)*(1 + std::fabs(lb[k]));
        if (ub[k] < 1e20L) q.ub[k] += e*r.u(-1, 1)*(1 + std::fabs(ub[k]));
      }
      return q;
    }
    // inequality bounds widened (d>0) or tightened (d<0)
    Qp widened(L d) const
    {
      Qp q(*this);
      for (size_t i = 0; i < c.size(); ++i)
      {
        L m = 0; for (int k = 0; k < n; ++k) m = std::max(m, std::fabs(c[i].a[k]));
        const L v = d*(c[i].sc + m);
        if (c[i].lo == c[i].hi && d < 0) { continue; }
        if (c[i].lo > -1e20L) q.c[i].lo -= v;
        if (c[i].hi < 1e20L) q.c[i].hi += v;
      }
      for (int k = 0; k < n; ++k)
      {
        if (lb[k] > -1e20L) q.lb[k] -= d*(1 + std::fabs(lb[k]));
        if (ub[k] < 1e20L) q.ub[k] += d*(1 + std::fabs(ub[k]));
      }
      return q;
    }
    L violation(const Vec& x) const
    {
      L v = 0;
      for (size_t i = 0; i < c.size(); ++i)
      {
        L s = 0, m = 0; for (int k = 0; k < n; ++k) { s += c[i].a[k]*x[k]; m = std::max(m, std::fabs(c[i].a[k])); }
        v = std::max(v, std::max(c[i].lo - s, s - c[i].hi)/(c[i].sc + m + 1e-30L));
      }
      for (int k = 0; k < n; ++k) v = std::max(v, std::max(lb[k] - x[k], x[k] - ub[k])/(1 + (std::min(std::fabs(lb[k]), std::fabs(ub[k])) < 1e20L ? std::min(std::fabs(lb[k]), std::fabs(ub[k])) : 0)));
      return v;
    }
  };

  // The minimiser and how far rounding of relative size e can move each of its elements.
  struct Best { int rc; Vec x, tol; int active; L scale; };
  inline Best best(const Qp& q, Rng r, L e, L x0, int trials = 3)
  {
    Best b; b.active = 0; b.scale = 0;
    b.rc = q.solve(b.x, &b.active);
    b.tol.assign(q.n, 0);
    if (b.rc) { return b; }
    for (int k = 0; k < q.n; ++k) { b.scale = std::max(b.scale, std::fabs(b.x[k])); }
    for (int t = 0; t < trials; ++t)
    {
      Vec y; if (q.off(r, e, x0 + b.scale).solve(y)) { b.rc = 100; return b; }
      for (int k = 0; k < q.n; ++k) b.tol[k] = std::max(b.tol[k], std::fabs(y[k] - b.x[k]));
    }
    L m = 0; for (int k = 0; k < q.n; ++k) { m = std::max(m, b.tol[k]); }
    for (int k = 0; k < q.n; ++k) { b.tol[k] = 30*std::max(b.tol[k], 0.1L*m) + 30*e*(b.scale + x0 + 1e-6L); }
    return b;
  }

  // What the generators' programs looked like to the solver in the last call.
  struct Watch
  {
    int n, m, kind, rc; long calls; L big; Vec x;
    int inject;   // failure the solver is to report (see VqpHooks), 0: none
    Watch() : n(0), m(0), kind(0), rc(0), calls(0), big(0), inject(0) { VqpHooks* h = vqp_hooks(); h->ctx = this; h->fault = fault; h->done = done; }
    ~Watch() { VqpHooks* h = vqp_hooks(); h->ctx = 0; h->fault = 0; h->done = 0; }
    static int fault(void* ctx, const VqpCall*) { return static_cast<Watch*>(ctx)->inject; }
    static void done(void* ctx, const VqpCall* q, const double* x, int rc)
    {
      Watch* w = static_cast<Watch*>(ctx);
      w->n = q->n; w->m = q->m; w->kind = q->kind; w->rc = rc; ++w->calls; w->big = 0; w->x.assign(x, x + q->n);
      for (int i = 0; i < q->n; ++i) w->big = std::max(w->big, std::fabs((L)x[i]));
    }
  private:
    Watch(const Watch&); Watch& operator=(const Watch&);
  };
  // A verdict of the generator which contradicts its program, for programs whose data are off by e at most; or "".
  // (Data off by e make an inconsistent set of rows consistent with a control of the order of 1/e.)
  inline std::string contradiction(const Qp& q, bool ok, const Best& b, const Watch& w, L e, L mar)
  {
    Vec x;
    if (w.rc == 64) return "";      // the stand-in for qpOASES could not decide the generator's program
    if (!ok && b.rc == 0 && q.widened(-mar).solve(x) == 0) return "no solution reported although the program has one";
    if (ok && b.rc == 1 && w.big < mar/e && q.widened(mar).solve(x) == 1) return "success reported although the constraints cannot be met";
    return "";
  }
}
