// C18: programs reach the solver unchanged and solutions come back unchanged; normalisation keeps the program.
// needs: qpsolverfactory qpsolver_qpoases_double qpsolver_qpoases_float
#include <qpref.h>
#include <mpc-walkgen/qpsolverfactory.h>
#include <memory>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  typedef std::vector<double> D;
  struct Seen { int kind, n, m; bool isFloat; int nWSR, rc; const void* solver; D H, g, A, lb, ub, lbA, ubA, x; };
  struct Rec
  {
    std::vector<Seen> calls; int fault;
    static int onFault(void* ctx, const VqpCall*) { return static_cast<Rec*>(ctx)->fault; }
    static void onDone(void* ctx, const VqpCall* q, const double* x, int rc)
    {
      Seen s; s.kind = q->kind; s.n = q->n; s.m = q->m; s.isFloat = q->isFloat; s.nWSR = q->nWSR; s.rc = rc; s.solver = q->solver;
      s.H.assign(q->H, q->H + q->n*q->n); s.g.assign(q->g, q->g + q->n); s.A.assign(q->A, q->A + q->m*q->n);
      s.lb.assign(q->lb, q->lb + q->n); s.ub.assign(q->ub, q->ub + q->n); s.lbA.assign(q->lbA, q->lbA + q->m); s.ubA.assign(q->ubA, q->ubA + q->m);
      s.x.assign(x, x + q->n);
      static_cast<Rec*>(ctx)->calls.push_back(s);
    }
    Rec() : fault(0) { VqpHooks* h = vqp_hooks(); h->ctx = this; h->fault = onFault; h->done = onDone; }
    ~Rec() { VqpHooks* h = vqp_hooks(); h->ctx = 0; h->fault = 0; h->done = 0; }
  };

  template <typename R> QPMatrices<R> random(Case& c, int n, int m)
  {
    QPMatrices<R> q; q.Q.resize(n, n); q.p.resize(n); q.A.resize(m, n); q.xl.resize(n); q.xu.resize(n); q.bl.resize(m); q.bu.resize(m);
    const double inf = 10e10;
    const int k = c.r.i(1, n + 2);
    std::vector<D> f(k, D(n)); for (int a = 0; a < k; ++a) for (int i = 0; i < n; ++i) f[a][i] = c.r.u(-1, 1);
    const double sc = std::pow(10, c.r.u(-3, 3)), sa = std::pow(10, c.r.u(-3, 3));
    const bool skew = c.r.p(0.2);      // the hessian is handed over as it is, even if it is not symmetric
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    { double s = i == j ? 0.1 : (skew ? c.r.u(-1e-3, 1e-3) : 0); for (int a = 0; a < k; ++a) s += f[a][i]*f[a][j]; q.Q(i, j) = (R)(sc*s); }
    for (int i = 0; i < n; ++i) q.p(i) = (R)(sc*c.r.u(-2, 2));
    D z(n); for (int i = 0; i < n; ++i) z[i] = c.r.u(-1, 1);
    for (int i = 0; i < m; ++i)
    {
      double s = 0;
      for (int j = 0; j < n; ++j) { q.A(i, j) = (R)(c.r.p(0.2) ? (c.r.p(0.5) ? 0 : sa*1e-6*c.r.u(-1, 1)) : sa*c.r.u(-1, 1)); s += q.A(i, j)*z[j]; }
      const int t = c.r.i(0, 4);
      q.bl(i) = (R)(t == 0 ? -inf : t == 4 ? s : s - sa*c.r.u(0, 2)); q.bu(i) = (R)(t == 1 ? inf : t == 4 ? s : s + sa*c.r.u(0, 2));
      if (t == 4) q.bl(i) = q.bu(i);
      if (c.r.p(0.03)) { q.bl(i) = (R)(s + sa*c.r.u(0, 1)); }      // may be inconsistent
      if (!(q.bl(i) <= q.bu(i)) && c.r.p(0.9)) q.bl(i) = q.bu(i);
    }
    for (int i = 0; i < n; ++i)
    {
      const int t = c.r.i(0, 3);
      q.xl(i) = (R)(t & 1 ? z[i] - c.r.u(0, 1) : -inf); q.xu(i) = (R)(t & 2 ? z[i] + c.r.u(0, 1) : inf);
    }
    return q;
  }
  template <typename M> D flat(const M& a) { D o; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) o.push_back((double)a(i, j)); return o; }
  void same(Case& c, const D& got, const D& want, const char* what, const std::string& at)
  {
    if (got.size() != want.size()) c.fail(what, at + what + ": size " + num(got.size()) + " instead of " + num(want.size()));
    for (size_t i = 0; i < got.size(); ++i)
      if (!(got[i] == want[i])) c.fail(what, at + what + "[" + std::to_string(i) + "]: solver got " + num(got[i]) + ", the program says " + num(want[i]));
  }

  struct Any { virtual ~Any() {} virtual void step(Case& c, Rec& rec, int t) = 0; };
  template <typename R> struct Unit : Any
  {
    int n, m; std::unique_ptr<QPSolver<R>> s; QPMatrices<R> q; bool done, can; D H, A; const void* id;
    Unit(Case& c) : n(c.r.p(0.1) ? c.r.tail(10, 20, 80, 0.1) : c.r.i(1, 8)), m(c.r.p(0.15) ? 0 : c.r.p(0.1) ? c.r.tail(10, 30, 130, 0.1) : c.r.i(1, 8)), done(false), can(false), id(0)
    {
      s.reset(makeQPSolver<R>(n, m)); q = random<R>(c, n, m);
      if (s->getNbVar() != n || s->getNbCtr() != m) c.fail("sizes", "the solver forgot its sizes");
      if (!q.dimensionsAreConsistent(n, m)) c.fail("consistent", "consistent dimensions reported inconsistent");
      const int e = c.r.i(0, 8); QPMatrices<R> w(q); const int d = c.r.p(0.5) && n > 1 && m > 1 ? -1 : 1;
      switch (e) { case 0: w.Q.resize(n + d, n); break; case 1: w.Q.resize(n, n + d); break; case 2: w.p.resize(n + d); break; case 3: w.xl.resize(n + d); break; case 4: w.xu.resize(n + d); break;
                   case 5: w.A.resize(m, n + d); break; case 6: w.A.resize(m + d, n); break; case 7: w.bl.resize(m + d); break; default: w.bu.resize(m + d); }
      if (w.dimensionsAreConsistent(n, m)) c.fail("consistent", "inconsistent dimensions reported consistent (part " + std::to_string(e) + ")");
    }
    void normalise(Case& c)
    {
      const R eps = (R)std::pow(10, c.r.u(-8, -1));
      const QPMatrices<R> o(q); q.normalizeMatrices(eps);
      const L te = 8*epsOf<R>();
      if (!q.dimensionsAreConsistent(n, m)) c.fail("normalised", "normalisation changes dimensions");
      struct { L operator()(const typename QPMatrices<R>::MatrixXrm& a, R e) const { L f = 1; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { const L v = std::fabs((L)a(i, j)); if (v > e && v < f) f = v; } return 1/f; } } factor;
      const L fq = factor(o.Q, eps), fa = factor(o.A, eps);
      checkClose(c, QPMatrices<R>::getNormalizationFactor(o.Q, eps), fq, te*fq, "factor", "factor of the hessian");
      checkClose(c, QPMatrices<R>::getNormalizationFactor(o.A, eps), fa, te*fa, "factor", "factor of the constraints");
      const L mn = std::numeric_limits<R>::min();
      for (int i = 0; i < n; ++i)
      {
        for (int j = 0; j < n; ++j) checkClose(c, q.Q(i, j), fq*o.Q(i, j), te*fq*std::fabs((L)o.Q(i, j)) + mn, "normalised", "hessian");
        checkClose(c, q.p(i), fq*o.p(i), te*fq*std::fabs((L)o.p(i)) + mn, "normalised", "gradient");
        if (q.xl(i) != o.xl(i) || q.xu(i) != o.xu(i)) c.fail("normalised", "normalisation changes the bounds of the variable");
      }
      for (int i = 0; i < m; ++i)
      {
        for (int j = 0; j < n; ++j) checkClose(c, q.A(i, j), fa*o.A(i, j), te*fa*std::fabs((L)o.A(i, j)) + mn, "normalised", "constraints");
        checkClose(c, q.bl(i), fa*o.bl(i), te*fa*std::fabs((L)o.bl(i)) + mn, "normalised", "lower bounds");
        checkClose(c, q.bu(i), fa*o.bu(i), te*fa*std::fabs((L)o.bu(i)) + mn, "normalised", "upper bounds");
      }
      // nothing that is inconsistent with the bounds: the order of the bounds is kept
      for (int i = 0; i < m; ++i) if ((o.bl(i) <= o.bu(i)) != (q.bl(i) <= q.bu(i))) c.fail("normalised", "normalisation swaps bounds");
      c.count("normalised"); if (fq > 1) c.count("hessians_scaled_up"); if (fa > 1) c.count("constraints_scaled_up");
    }
    void step(Case& c, Rec& rec, int t)
    {
      const std::string at = "call " + std::to_string(t) + (isF<R>() ? " (float): " : " (double): ");
      if (c.r.p(0.8)) { QPMatrices<R> z = random<R>(c, n, m); if (c.r.p(0.5)) { q = z; } else { q.p = z.p; q.bl = z.bl; q.bu = z.bu; q.xl = z.xl; q.xu = z.xu; } }
      if (c.r.p(0.3)) normalise(c);
      const QPMatrices<R> keep(q);
      const bool warm = c.r.p(0.6), os = c.r.p(0.5); const int it = c.r.i(1, 20000);
      rec.fault = c.r.p(0.25) ? c.r.pick(std::vector<int>{1, 33, 37, 57, 64, -1, -37, -57, -64, -200}) : 0;
      rec.calls.clear();
      typename QPMatrices<R>::VectorX x(n); for (int i = 0; i < n; ++i) x(i) = (R)c.r.u(-9, 9);
      const D x0 = flat(x); std::ostringstream out;
      bool ok; if (os || c.r.p(0.5)) { ok = s->solve(q, it, x, warm, os ? &out : 0); } else if (!warm && c.r.p(0.5)) { ok = s->solve(q, it, x); c.count("default_arguments"); } else { ok = s->solve(q, it, x, warm); }
      c.count("solves");
      if (rec.calls.empty()) c.fail("no-call", at + "no program reached the solver (warm start of a solver without a valid start?)");
      const Seen& d = rec.calls.back();
      for (size_t i = 0; i < rec.calls.size(); ++i)
      {
        const Seen& e = rec.calls[i];
        if (id && e.solver != id) c.fail("mixed", at + "another solver object was used"); id = e.solver;
        if (e.n != n || e.m != m) c.fail("sizes", at + "wrong sizes");
        if (e.isFloat != isF<R>()) c.fail("precision", at + "solver used in another precision");
        if (e.nWSR != it) c.fail("iterations", at + "iteration limit " + std::to_string(e.nWSR) + " instead of " + std::to_string(it));
        if (e.kind == 1)
        {
          if (!warm) c.fail("unrequested", at + "warm start although none was requested");
          if (!done) c.fail("uninitialised", at + "warm start before any initial solve");
          if (!can) c.fail("uninitialised", at + "warm start from a failed solve");
          c.count("warm");
        }
        else { H = flat(keep.Q); A = flat(keep.A); c.count("cold"); }
        if (e.kind == 0) { same(c, e.H, H, "hessian", at); same(c, e.A, A, "matrix", at); }
        else { same(c, e.H, H, "warm-hessian", at); same(c, e.A, A, "warm-matrix", at); }
        same(c, e.g, flat(keep.p), "gradient", at);
        same(c, e.lb, flat(keep.xl), "xl", at); same(c, e.ub, flat(keep.xu), "xu", at);
        same(c, e.lbA, flat(keep.bl), "bl", at); same(c, e.ubA, flat(keep.bu), "bu", at);
        // (a warm start may follow an infeasible program, not an interrupted one)
        if (e.rc == 0) { done = true; } can = e.rc == 0 || e.rc == 37 || e.rc == 57;
        if (e.kind == 0 && e.rc != 0) done = false;
      }
      if (ok != (d.rc == 0)) c.fail("verdict", at + "returned " + (ok ? "true" : "false") + " but the solver said " + std::to_string(d.rc));
      if (x.size() != n) c.fail("solution", at + "size of the solution changed");
      if (ok || rec.fault >= 0)
      {
        for (int i = 0; i < n; ++i) if (ok || d.rc != 64) if (!((R)d.x[i] == x(i))) c.fail("solution", at + "element " + std::to_string(i) + " is " + num(x(i)) + ", the solver found " + num(d.x[i]));
      }
      else { c.count("nothing_written"); }
      if (ok && os && !out.str().empty()) c.fail("stream", at + "debug output although solved");
      if (flat(q.Q) != flat(keep.Q) || flat(q.A) != flat(keep.A) || flat(q.p) != flat(keep.p)) c.fail("modified", at + "the program was modified");
      c.count(ok ? "solved" : "unsolved"); if (os) c.count("with_stream");
      c.h(n*100 + m); c.h((uint64_t)it*4 + warm*2 + ok); c.state(mix(n*1000 + m*8 + d.kind*4 + warm*2 + ok));
    }
  };

  void fn(Case& c)
  {
    Rec rec; rec.fault = 0;
    std::vector<std::unique_ptr<Any>> u;
    const int k = c.r.i(1, 3);
    for (int i = 0; i < k; ++i) u.emplace_back(c.r.p(0.4) ? (Any*)new Unit<float>(c) : (Any*)new Unit<double>(c));
    const int calls = c.r.tail(2, 12, 300, 0.01);
    for (int t = 0; t < calls; ++t) u[c.r.i(0, k - 1)]->step(c, rec, t);
    c.desc << k << " solvers, " << calls << " calls"; c.nontrivial = true;
  }
}
VH_MAIN(fn)
