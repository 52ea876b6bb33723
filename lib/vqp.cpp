// Goldfarb-Idnani dual active set method in extended precision, with an
// independent check of the optimality conditions of every returned solution.
#include "vqp.h"
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <limits>
#include <vector>

typedef long double L;
typedef std::vector<L> V;

namespace
{
  const L BIG = 1e10L;

  struct Con { int kind; int idx; int sign; L b; L norm; };  // sign*(row.x) >= b, normalised by norm

  // 0: done, 2: not definite up to rounding, 3: clearly not convex
  int cholesky(V& M, int n)
  {
    for (int j = 0; j < n; ++j)
    {
      L d = M[j*n + j];
      const L d0 = d;
      for (int k = 0; k < j; ++k) { d -= M[j*n + k]*M[j*n + k]; }
      if (!(d > 1e-18L*(std::fabs(d0)))) { return d < -1e-4L*std::fabs(d0) ? 3 : 2; }
      d = std::sqrt(d);
      M[j*n + j] = d;
      for (int i = j + 1; i < n; ++i)
      {
        L s = M[i*n + j];
        for (int k = 0; k < j; ++k) { s -= M[i*n + k]*M[j*n + k]; }
        M[i*n + j] = s/d;
      }
    }
    return 0;
  }
  void fsub(const V& M, int n, V& b)
  {
    for (int i = 0; i < n; ++i)
    {
      L s = b[i];
      for (int k = 0; k < i; ++k) { s -= M[i*n + k]*b[k]; }
      b[i] = s/M[i*n + i];
    }
  }
  void bsub(const V& M, int n, V& b)
  {
    for (int i = n - 1; i >= 0; --i)
    {
      L s = b[i];
      for (int k = i + 1; k < n; ++k) { s -= M[k*n + i]*b[k]; }
      b[i] = s/M[i*n + i];
    }
  }
}

extern "C" int vqp_solve_ld(int n, int m, const L* H, const L* g, const L* A, const L* lb, const L* ub,
                            const L* lbA, const L* ubA, L* xo, int* nActive)
{
  const L inf = std::numeric_limits<L>::infinity();
  if (nActive) { *nActive = 0; }
  for (int i = 0; i < n*n; ++i) { if (!(std::fabs(H[i]) < inf)) { return 2; } }
  for (int i = 0; i < n; ++i) { if (!(std::fabs(g[i]) < inf)) { return 2; } }
  for (int i = 0; i < n*m; ++i) { if (!(std::fabs(A[i]) < inf)) { return 2; } }

  V C(H, H + n*n);
  // symmetrise
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { L s = (H[i*n+j] + H[j*n+i])/2; C[i*n+j] = C[j*n+i] = s; }
  V Hs(C);
  { const int k = cholesky(C, n); if (k) { return k; } }

  std::vector<Con> con;
  std::vector<int> eq;
  bool infeasible = false;
  for (int r = 0; r < n + m; ++r)
  {
    const bool isB = r < n;
    const L lo = isB ? lb[r] : lbA[r - n], hi = isB ? ub[r] : ubA[r - n];
    if (lo != lo || hi != hi) { return 2; }
    L nn = 1;
    if (!isB) { nn = 0; for (int j = 0; j < n; ++j) { nn += A[(r-n)*n + j]*A[(r-n)*n + j]; } nn = std::sqrt(nn); }
    if (!isB && nn < 1e-14L)
    {
      if (lo > 1e-9L || hi < -1e-9L) { infeasible = true; }
      continue;
    }
    const int idx = isB ? r : r - n;
    const int kind = isB ? 0 : 1;
    if (lo > -BIG && hi < BIG && lo > hi + 1e-9L*(1 + std::fabs(hi))) { infeasible = true; continue; }
    if (lo > -BIG && hi < BIG && lo >= hi)
    {
      Con c = {kind, idx, 1, lo/nn, nn};
      eq.push_back(static_cast<int>(con.size())); con.push_back(c);
      continue;
    }
    if (lo > -BIG) { Con c = {kind, idx, 1, lo/nn, nn}; con.push_back(c); }
    if (hi < BIG) { Con c = {kind, idx, -1, -hi/nn, nn}; con.push_back(c); }
  }

  V x(n);
  for (int i = 0; i < n; ++i) { x[i] = -g[i]; }
  fsub(C, n, x); bsub(C, n, x);
  if (infeasible) { for (int i = 0; i < n; ++i) { xo[i] = x[i]; } return 1; }

  const int nc = static_cast<int>(con.size());
  std::vector<char> isEq(nc, 0), active(nc, 0);
  std::vector<int> flip(nc, 1);
  for (size_t i = 0; i < eq.size(); ++i) { isEq[eq[i]] = 1; }

  struct Rows
  {
    int n; const L* A;
    void get(const Con& c, int flip, V& out) const
    {
      out.assign(n, 0);
      if (c.kind == 0) { out[c.idx] = c.sign*flip; }
      else { for (int j = 0; j < n; ++j) { out[j] = flip*c.sign*A[c.idx*n + j]/c.norm; } }
    }
    L dot(const Con& c, const V& x) const
    {
      if (c.kind == 0) { return c.sign*x[c.idx]; }
      L s = 0; for (int j = 0; j < n; ++j) { s += A[c.idx*n + j]*x[j]; }
      return c.sign*s/c.norm;
    }
  } rows = {n, A};

  std::vector<int> W;       // active constraints
  std::vector<V> LW;        // L^{-1} n_i of the active constraints
  V u;                      // multipliers
  const int maxIt = 50*(n + m) + 200;
  int it = 0;
  size_t nextEq = 0;
  int rc = -1;
  while (rc < 0)
  {
    if (++it > maxIt) { rc = 2; break; }
    int p = -1;
    if (nextEq < eq.size()) { p = eq[nextEq++]; }
    else
    {
      L worst = 0;
      for (int i = 0; i < nc; ++i)
      {
        if (active[i] || isEq[i]) { continue; }
        const L s = rows.dot(con[i], x) - con[i].b;
        const L tol = 1e-13L*(1 + std::fabs(con[i].b));
        if (s < -tol && s < worst) { worst = s; p = i; }
      }
      if (p < 0) { rc = 0; break; }
    }
    L s = rows.dot(con[p], x) - con[p].b;
    flip[p] = 1;
    if (isEq[p] && s > 0) { flip[p] = -1; s = -s; }
    V np; rows.get(con[p], flip[p], np);
    V lp(np); fsub(C, n, lp);     // L^{-1} n_p
    L up = 0;
    for (;;)
    {
      if (++it > maxIt) { rc = 2; break; }
      const int q = static_cast<int>(W.size());
      // r = (N'H^-1N)^-1 N'H^-1 n_p by modified Gram-Schmidt least squares on LW
      V r(q, 0), z(lp);
      if (q > 0)
      {
        std::vector<V> Q(LW);
        V R(q*q, 0);
        V d(q, 0);
        for (int i = 0; i < q; ++i)
        {
          for (int pass = 0; pass < 2; ++pass)
            for (int k = 0; k < i; ++k)
            {
              L a = 0; for (int j = 0; j < n; ++j) { a += Q[k][j]*Q[i][j]; }
              R[k*q + i] += a;
              for (int j = 0; j < n; ++j) { Q[i][j] -= a*Q[k][j]; }
            }
          L nn = 0; for (int j = 0; j < n; ++j) { nn += Q[i][j]*Q[i][j]; }
          nn = std::sqrt(nn);
          R[i*q + i] = nn;
          if (nn > 0) { for (int j = 0; j < n; ++j) { Q[i][j] /= nn; } }
        }
        for (int pass = 0; pass < 2; ++pass)
          for (int k = 0; k < q; ++k)
          {
            L a = 0; for (int j = 0; j < n; ++j) { a += Q[k][j]*z[j]; }
            d[k] += a;
            for (int j = 0; j < n; ++j) { z[j] -= a*Q[k][j]; }
          }
        for (int i = q - 1; i >= 0; --i)
        {
          L a = d[i]; for (int k = i + 1; k < q; ++k) { a -= R[i*q + k]*r[k]; }
          r[i] = R[i*q + i] != 0 ? a/R[i*q + i] : 0;
        }
      }
      L zz = 0, ll = 0;
      for (int j = 0; j < n; ++j) { zz += z[j]*z[j]; ll += lp[j]*lp[j]; }
      const bool zzero = zz < 1e-22L*ll;
      L t1 = inf; int drop = -1;
      for (int k = 0; k < q; ++k)
      {
        if (isEq[W[k]]) { continue; }
        if (r[k] > 1e-16L) { const L t = u[k]/r[k]; if (t < t1) { t1 = t; drop = k; } }
      }
      const L t2 = zzero ? inf : -s/zz;
      if (zzero && std::fabs(s) < 1e-10L*(1 + std::fabs(con[p].b)))
      {
        break;     // dependent and (numerically) satisfied
      }
      if (t1 == inf && t2 == inf) { rc = 1; break; }
      if (t2 <= t1)
      {
        V zx(z); bsub(C, n, zx);
        for (int j = 0; j < n; ++j) { x[j] += t2*zx[j]; }
        for (int k = 0; k < q; ++k) { u[k] -= t2*r[k]; }
        up += t2;
        W.push_back(p); LW.push_back(lp); u.push_back(up); active[p] = 1;
        break;
      }
      for (int k = 0; k < q; ++k) { u[k] -= t1*r[k]; }
      up += t1;
      if (!zzero)
      {
        V zx(z); bsub(C, n, zx);
        for (int j = 0; j < n; ++j) { x[j] += t1*zx[j]; }
        s += t1*zz;
      }
      active[W[drop]] = 0;
      W.erase(W.begin() + drop); LW.erase(LW.begin() + drop); u.erase(u.begin() + drop);
      s = (rows.dot(con[p], x) - con[p].b)*(isEq[p] ? flip[p] : 1);
    }
  }
  for (int i = 0; i < n; ++i) { xo[i] = x[i]; }
  if (nActive) { *nActive = static_cast<int>(W.size()); }
  if (rc != 0) { return rc; }

  // independent optimality check
  V res(n); L scale = 1;
  for (int i = 0; i < n; ++i)
  {
    L a = g[i]; L sc = std::fabs(g[i]);
    for (int j = 0; j < n; ++j) { a += Hs[i*n + j]*x[j]; sc += std::fabs(Hs[i*n + j]*x[j]); }
    res[i] = a; if (sc > scale) { scale = sc; }
  }
  for (size_t k = 0; k < W.size(); ++k)
  {
    if (!isEq[W[k]] && u[k] < -1e-9L*scale) { return 2; }
    V nk; rows.get(con[W[k]], flip[W[k]], nk);
    for (int j = 0; j < n; ++j) { res[j] -= u[k]*nk[j]; }
    if (std::fabs(rows.dot(con[W[k]], x) - con[W[k]].b) > 1e-9L*(1 + std::fabs(con[W[k]].b))) { return 2; }
  }
  for (int j = 0; j < n; ++j) { if (!(std::fabs(res[j]) < 1e-8L*scale)) { return 2; } }
  for (int i = 0; i < nc; ++i)
  {
    const L s = rows.dot(con[i], x) - con[i].b;
    const L tol = 1e-9L*(1 + std::fabs(con[i].b));
    if (s < -tol || (isEq[i] && s > tol)) { return 2; }
  }
  return 0;
}

extern "C" VqpHooks* vqp_hooks()
{
  static thread_local VqpHooks h = {0, 0, 0};
  return &h;
}
extern "C" long* vqp_counters()
{
  static thread_local long c[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  return c;
}

namespace
{
  // what rounding the data of the program does to them
  void jitter(VqpHooks* h, int n, int m, V& H, V& g, V& A, V& lb, V& ub, V& lbA, V& ubA)
  {
    const L e = h->jitter;
    struct U { unsigned long long& s; L operator()() { s = s*6364136223846793005ULL + 1442695040888963407ULL; return static_cast<L>(s >> 33)/static_cast<L>(1ULL << 30) - 1; } } u = {h->jitterState};
    V d(n, 0); L mg = 0;
    for (int i = 0; i < n; ++i) { d[i] = std::sqrt(std::fabs(H[i*n + i])); mg = std::max(mg, std::fabs(g[i])); }
    for (int i = 0; i < n; ++i)
    {
      g[i] += e*u()*mg;
      for (int j = 0; j <= i; ++j) { const L v = e*u()*d[i]*d[j]; H[i*n + j] += v; if (j != i) { H[j*n + i] += v; } }
      const L v = e*u();
      if (std::fabs(lb[i]) < BIG) { lb[i] += v*(1 + std::fabs(lb[i])); }
      if (std::fabs(ub[i]) < BIG) { ub[i] += v*(1 + std::fabs(ub[i])); }
    }
    for (int i = 0; i < m; ++i)
    {
      L a = 0; for (int j = 0; j < n; ++j) { a = std::max(a, std::fabs(A[i*n + j])); }
      for (int j = 0; j < n; ++j) { if (A[i*n + j] != 0) { A[i*n + j] += e*u()*a; } }
      const L v = e*u();
      if (std::fabs(lbA[i]) < BIG) { lbA[i] += v*(a + std::fabs(lbA[i])); }
      if (std::fabs(ubA[i]) < BIG) { ubA[i] += v*(a + std::fabs(ubA[i])); }
    }
  }
}

extern "C" int vqp_run(const VqpCall* c, double* x, int* write)
{
  VqpHooks* h = vqp_hooks();
  long* cnt = vqp_counters();
  ++cnt[c->kind ? 1 : 0];
  *write = 1;
  const int n = c->n, m = c->m;
  V H(c->H, c->H + n*n), g(c->g, c->g + n), A(c->A, c->A + m*n), lb(c->lb, c->lb + n), ub(c->ub, c->ub + n),
    lbA(c->lbA, c->lbA + m), ubA(c->ubA, c->ubA + m), xl(n, 0);
  if (h->jitter > 0) { jitter(h, n, m, H, g, A, lb, ub, lbA, ubA); }
  int na = 0;
  int rc = vqp_solve_ld(n, m, H.data(), g.data(), A.data(), lb.data(), ub.data(), lbA.data(), ubA.data(), xl.data(), &na);
  cnt[4] += na;
  if (rc == 1) { ++cnt[2]; rc = c->kind ? 57 : 37; }
  else if (rc == 2) { ++cnt[3]; rc = 64; }
  else if (rc == 3) { ++cnt[3]; rc = 33; }   // not convex: the caller's fault
  const int f = h->fault ? h->fault(h->ctx, c) : 0;
  if (f > 0) { rc = f; ++cnt[5]; }
  if (f < 0) { rc = -f; *write = 0; ++cnt[5]; }
  for (int i = 0; i < n; ++i) { if (!(std::fabs(xl[i]) < 1e100L)) { *write = 0; if (rc == 0) { rc = 64; } } }
  // 64 is kept for programs this solver cannot decide; broken data are the caller's fault
  bool finite = true;
  for (int i = 0; i < n*n; ++i) { if (!(std::fabs(c->H[i]) < 1e100)) { finite = false; } }
  for (int i = 0; i < n*m; ++i) { if (!(std::fabs(c->A[i]) < 1e100)) { finite = false; } }
  for (int i = 0; i < n; ++i) { if (!(std::fabs(c->g[i]) < 1e100) || c->lb[i] != c->lb[i] || c->ub[i] != c->ub[i]) { finite = false; } }
  for (int i = 0; i < m; ++i) { if (c->lbA[i] != c->lbA[i] || c->ubA[i] != c->ubA[i]) { finite = false; } }
  if (!finite && !f && rc) { rc = 33; }
  if (*write) { for (int i = 0; i < n; ++i) { x[i] = static_cast<double>(xl[i]); } }
  if (h->done) { h->done(h->ctx, c, x, rc); }
  return rc;
}
