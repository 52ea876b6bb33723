// Reference simulations and the comparison of objectives and constraints with them.
#pragma once
#include <vh.h>
#include <algorithm>
#include <functional>
#include <mpc-walkgen/type.h>

namespace vh
{
  using MPCWalkgen::Type;
  template <typename R> inline L epsOf() { return sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L; }
  // choices fit for single precision in both precisions
  inline bool& likeFloat() { static bool b = false; return b; }
  template <typename R> inline bool isF() { return sizeof(R) == 4 || likeFloat(); }

  template <typename V> inline Mot mot(const V& s) { Mot m = {(L)s(0), (L)s(1), (L)s(2)}; return m; }
  template <typename R> inline typename Type<R>::VectorX st(const Mot& m)
  { typename Type<R>::VectorX v(3); v << static_cast<R>(m.p), static_cast<R>(m.v), static_cast<R>(m.a); return v; }
  template <typename R> inline typename Type<R>::VectorX rndState(Case& c, double p, double v, double a)
  {
    typename Type<R>::VectorX s(3);
    s << static_cast<R>(c.r.u(-p, p)), static_cast<R>(c.r.u(-v, v)), static_cast<R>(c.r.u(-a, a));
    if (c.r.p(0.15)) { s(c.r.i(0, 2)) = 0; }
    if (c.r.p(0.05)) { s.setZero(); }
    return s;
  }
  template <typename R> inline typename Type<R>::VectorX rndVec(Case& c, int n, double m)
  {
    typename Type<R>::VectorX s(n);
    for (int i = 0; i < n; ++i) { s(i) = static_cast<R>(c.r.u(-m, m)); }
    if (c.r.p(0.05)) { s.setZero(); }
    return s;
  }
  // A new value for a setting: usually any other one; sometimes the present one again, a small step away from it, or another
  // one in some elements only. Always the same number of draws.
  template <typename R> inline R near(Case& c, R cur, R fresh)
  {
    const double z = c.r.u(), e = std::pow(10., c.r.u(-6, -1));
    if (!(cur == cur) || z < 0.65) { return fresh; }
    return z < 0.75 ? cur : static_cast<R>(cur + static_cast<R>(e)*(fresh - cur));
  }
  template <typename R> inline R nearPos(Case& c, R cur, R fresh) { const R v = near<R>(c, cur, fresh); return cur > 0 ? v : fresh; }
  template <typename R, typename V, typename = typename V::Scalar> inline V near(Case& c, const V& cur, const V& fresh)
  {
    const double z = c.r.u(), e = std::pow(10., c.r.u(-6, -1)); Rng q(c.r.next());
    if (cur.size() != fresh.size() || !(cur == cur) || z < 0.6) { return fresh; }
    if (z < 0.7) { return cur; }
    V v(fresh); const double keep = q.u(0.3, 1);
    for (int i = 0; i < (int)v.size(); ++i) { if (z < 0.85) { if (q.p(keep)) v(i) = cur(i); } else { v(i) = static_cast<R>(cur(i) + static_cast<R>(e)*(fresh(i) - cur(i))); } }
    return v;
  }
  // a reference: every coordinate independently anything, constant, zero, a ramp or like the first one
  template <typename R> inline typename Type<R>::VectorX rndRef(Case& c, int N, double mag, int axes = 2, double even = 0.35)
  {
    typename Type<R>::VectorX v = rndVec<R>(c, axes*N, mag);
    const bool together = c.r.p(0.5); int shape = 0;
    for (int a = 0; a < axes; ++a)
    {
      if (!a || !together) { shape = c.r.p(even) ? 1 : c.r.p(0.25) ? c.r.i(2, 4) : 0; }
      const R s = static_cast<R>(c.r.u(-mag, mag)/N);
      for (int i = 0; i < N; ++i)
      {
        R& e = v(a*N + i);
        switch (shape) { case 1: e = v(a*N); break; case 2: e = 0; break; case 3: if (i) { e = v(a*N + i - 1) + s; } break; case 4: e = v(i); break; default: break; }
      }
    }
    return v;
  }
  template <typename V> inline Vec toVec(const V& v) { Vec r(v.size()); for (int i = 0; i < (int)v.size(); ++i) r[i] = v(i); return r; }
  inline Vec sub(const Vec& v, size_t from, size_t n) { return Vec(v.begin() + from, v.begin() + from + n); }

  // centre of pressure of a point mass at height h, gravity (gx, gz)
  inline L copOf(const Mot& m, L h, L gx, L gz) { return m.p - h*(m.a + gx)/gz; }

  // an affine function seen through its value at 0 and its columns
  typedef std::function<Vec(const Vec&)> Fun;
  struct Aff
  {
    int m, n; std::vector<Vec> J; Vec r0;  // J[col][row]
    L cancel, under;                       // magnitude of the terms which may cancel in r0, in a column
    Aff(const Fun& f, int n_) : n(n_), cancel(0), under(0)
    {
      Vec x(n, 0); r0 = f(x); m = (int)r0.size();
      for (int k = 0; k < n; ++k)
      {
        x[k] = 1; Vec y = f(x); x[k] = 0;
        for (int i = 0; i < m; ++i) { y[i] -= r0[i]; }
        J.push_back(y);
      }
    }
    Aff() : m(0), n(0), cancel(0), under(0) {}
    Vec at(const Vec& x) const
    { Vec y(r0); for (int k = 0; k < n; ++k) if (x[k] != 0) for (int i = 0; i < m; ++i) y[i] += J[k][i]*x[k]; return y; }
    L maxJ() const { L v = 0; for (int k = 0; k < n; ++k) for (int i = 0; i < m; ++i) v = std::max(v, std::fabs(J[k][i])); return v; }
    L maxR() const { L v = 0; for (int i = 0; i < m; ++i) v = std::max(v, std::fabs(r0[i])); return v; }
  };

  // H and g must be those of sum_i w_i/2 r_i(x)^2
  template <typename R, typename MH, typename MG>
  void checkQuad(Case& c, const MH& H, const MG& g, const Vec& x, const Aff& a, const std::string& key, const std::string& where, L tol, const Vec* w = 0)
  {
    if (H.rows() != a.n || H.cols() != a.n) c.fail(key + ":size", where + ": Hessian " + std::to_string(H.rows()) + "x" + std::to_string(H.cols()) + " for " + std::to_string(a.n) + " variables");
    if (g.rows() != a.n || g.cols() != 1) c.fail(key + ":size", where + ": gradient size " + std::to_string(g.rows()));
    const Vec r = a.at(x);
    L mr = a.maxR() + a.cancel, mx = 0;
    for (int k = 0; k < a.n; ++k) { mx = std::max(mx, std::fabs(x[k])); }
    std::vector<L> colAbs(a.n);
    for (int k = 0; k < a.n; ++k) { L s = 0; for (int i = 0; i < a.m; ++i) s = std::max(s, std::fabs(a.J[k][i])); colAbs[k] = s; }
    const L mj = a.maxJ(), fl = 1e-3L*mj + 2e-3L*a.under;   // columns may be small differences of large terms
    for (int k = 0; k < a.n; ++k)
    {
      L wg = 0;
      for (int i = 0; i < a.m; ++i) { wg += (w ? (*w)[i] : 1)*a.J[k][i]*r[i]; }
      const L sg = a.m*(colAbs[k] + fl)*(mr + a.n*mj*mx) + 1e-12L;
      checkClose(c, g(k, 0), wg, tol*sg, key + ":gradient", where + " gradient(" + std::to_string(k) + ")");
      for (int l = 0; l < a.n; ++l)
      {
        L wh = 0;
        for (int i = 0; i < a.m; ++i) { wh += (w ? (*w)[i] : 1)*a.J[k][i]*a.J[l][i]; }
        checkClose(c, H(k, l), wh, tol*a.m*(colAbs[k] + fl)*(colAbs[l] + fl) + 1e-15L, key + ":hessian", where + " Hessian(" + std::to_string(k) + "," + std::to_string(l) + ")");
      }
    }
    c.count("objectives_checked");
  }
}

namespace vh
{
  // ---- constraint rows, compared as sets: order and positive scale of the rows do not matter ----
  struct Row { Vec a; L lo, hi, sc; };   // lo <= a.x <= hi ; sc: magnitude of the terms behind the bounds
  inline Row normal(Row r, bool anySign)
  {
    L m = 0; size_t at = 0;
    for (size_t i = 0; i < r.a.size(); ++i) { m = std::max(m, std::fabs(r.a[i])); }
    if (m == 0) { return r; }
    // the sign is decided by the first element which is clearly not zero
    for (size_t i = 0; i < r.a.size(); ++i) if (std::fabs(r.a[i]) > 0.3L*m) { at = i; break; }
    const bool neg = anySign && r.a[at] < 0;
    for (size_t i = 0; i < r.a.size(); ++i) { r.a[i] /= neg ? -m : m; }
    if (neg) { std::swap(r.lo, r.hi); r.lo = -r.lo; r.hi = -r.hi; }
    r.lo /= m; r.hi /= m; r.sc /= m;
    return r;
  }
  inline L dist(L a, L b)
  {
    if (!(a == a) || !(b == b)) { return 1e29L; }
    const bool ia = std::isinf(a), ib = std::isinf(b);
    if (ia || ib) { return ia && ib && (a > 0) == (b > 0) ? 0 : 1e29L; }
    return std::fabs(a - b);
  }

  inline void matchRows(Case& c, std::vector<Row> got, std::vector<Row> want, L tol, bool anySign, const std::string& key, const std::string& where)
  {
    if (got.size() != want.size()) c.fail(key + ":count", where + ": " + std::to_string(got.size()) + " rows instead of " + std::to_string(want.size()));
    for (size_t i = 0; i < got.size(); ++i) { got[i] = normal(got[i], anySign); want[i] = normal(want[i], anySign); }
    std::vector<char> used(got.size(), 0);
    for (size_t w = 0; w < want.size(); ++w)
    {
      // the unused row with the smallest deviation, in units of the tolerance
      long best = -1; L bd = 1e30L; std::string why;
      const L ts = tol*(want[w].sc + 1e-6L);
      for (size_t k0 = 0; k0 < got.size() && bd > 1e-3L; ++k0)
      {
        const size_t k = (w + k0)%got.size();
        if (used[k]) { continue; }
        if (got[k].a.size() != want[w].a.size()) c.fail(key + ":size", where + ": " + std::to_string(got[k].a.size()) + " columns instead of " + std::to_string(want[w].a.size()));
        L d = 0; int at = -1;
        for (size_t i = 0; i < want[w].a.size() && d < bd; ++i)
        {
          L e = std::fabs(got[k].a[i] - want[w].a[i])/tol;
          if (!(e == e)) { e = 1e29L; }
          if (e > d) { d = e; at = (int)i; }
        }
        if (d < bd)
        {
          L e = dist(got[k].lo, want[w].lo)/ts; if (e > d) { d = e; at = -2; }
          e = dist(got[k].hi, want[w].hi)/ts; if (e > d) { d = e; at = -3; }
        }
        if (d < bd)
        {
          bd = d; best = (long)k;
          if (d > 1)
            why = at == -2 ? "lower bound " + num(got[k].lo) + " instead of " + num(want[w].lo) : at == -3 ? "upper bound " + num(got[k].hi) + " instead of " + num(want[w].hi)
                : at >= 0 ? "coefficient " + std::to_string(at) + " is " + num(got[k].a[at]) + " instead of " + num(want[w].a[at]) : "";
        }
      }
      if (!(bd <= 1)) c.fail(key + ":row", where + ": no row for constraint " + std::to_string(w) + "; the nearest (row " + std::to_string(best) + "): " + why + " (" + num(bd) + " tolerances)");
      c.max("err_ppm_of_tol", (long)(1e6L*bd));
      used[best] = 1;
      c.count("rows_matched");
    }
  }
}
