// C01: preview matrices reproduce the exact constant-jerk motion.
// needs: tools lineardynamic
#include <vh.h>
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  struct Par { int N; L S, T, h, gx, gz, m, M; };

  // value of every kind at every sample, by step-by-step integration
  void simulate(int kind, const Par& p, const Vec& x0, const Vec& u, Vec& y, Vec& scale)
  {
    y.assign(p.N, 0); scale.assign(p.N, 0);
    if (kind == 3 || kind == 4)        // order 2: state (pos, vel), control = acceleration
    {
      L pos = x0[0], vel = x0[1], sp = std::fabs(x0[0]), sv = std::fabs(x0[1]);
      for (int i = 0; i < p.N; ++i)
      {
        const L t = i ? p.T : p.S;
        const L v2 = vel + u[i]*t, sv2 = sv + std::fabs(u[i])*t;
        pos += t*(vel + v2)/2; sp += t*(sv + sv2)/2;
        vel = v2; sv = sv2;
        y[i] = kind == 3 ? pos : vel; scale[i] = kind == 3 ? sp : sv;
      }
      return;
    }
    Mot m = {x0[0], x0[1], x0[2]}, s = {std::fabs(x0[0]), std::fabs(x0[1]), std::fabs(x0[2])};
    for (int i = 0; i < p.N; ++i)
    {
      const L t = i ? p.T : p.S;
      m = step(m, u[i], t); s = step(s, std::fabs(u[i]), t);
      switch (kind)
      {
        case 0: y[i] = m.p; scale[i] = s.p; break;
        case 1: y[i] = m.v; scale[i] = s.v; break;
        case 2: y[i] = m.a; scale[i] = s.a; break;
        case 5: y[i] = u[i]; scale[i] = std::fabs(u[i]); break;
        // centre of pressure: mass fraction times (position - h*(acc+gx)/gz)
        default:
          y[i] = p.m/p.M*(m.p - p.h*(m.a + p.gx)/p.gz);
          scale[i] = p.m/p.M*(s.p + std::fabs(p.h/p.gz)*(s.a + std::fabs(p.gx)));
      }
    }
  }

  const char* names[] = {"pos", "vel", "acc", "order2pos", "order2vel", "jerk", "cop"};

  template <typename R>
  void one(Case& c)
  {
    typedef Tools::ConstantJerkDynamic<R> D;
    typedef typename Type<R>::MatrixX MatrixX;
    const bool isF = sizeof(R) == 4;
    const L eps = isF ? 1.2e-7L : 2.3e-16L;
    LinearDynamic<R> dyn;               // reused across kinds and sizes: stale content must not survive
    const int rounds = c.r.i(1, 3);
    for (int rd = 0; rd < rounds; ++rd)
    {
      Par p;
      const bool big = !isF && c.r.p(0.003);
      p.N = c.r.p(0.15) ? 1 : big ? c.r.i(100, 280) : c.r.i(1, isF ? 14 : 30);
      if (big) { c.count("long_previews"); }
      const R T = static_cast<R>(c.r.p(0.3) ? 0.1*c.r.i(1, 10) : c.r.u(0.02, 1.0));
      const R S = c.r.p(0.25) ? T : static_cast<R>(c.r.p(0.5) ? T*c.r.i(1, 9)/10 : T*c.r.u(0.01, 1.0));
      const R h = static_cast<R>(c.r.p(0.1) ? 0 : c.r.u(0.1, 2.0));
      const R gx = static_cast<R>(c.r.p(0.3) ? 0 : c.r.u(-4, 4)), gz = static_cast<R>(c.r.p(0.5) ? 9.81 : c.r.p(0.2) ? -c.r.u(1, 15) : c.r.u(1, 15));
      const R M = static_cast<R>(c.r.p(0.3) ? 1 : c.r.u(0.5, 60)), m = c.r.p(0.3) ? M : static_cast<R>(M*c.r.u(0.02, 1.0));
      p.S = S; p.T = T; p.h = h; p.gx = gx; p.gz = gz; p.m = m; p.M = M;
      for (int k = 0; k < 7; ++k)
      {
        const int kind = (k + rd*3)%7;
        // keep the centre-of-pressure inverse well conditioned when it is inspected
        switch (kind)
        {
          case 0: D::computePosDynamic(S, T, p.N, dyn); break;
          case 1: D::computeVelDynamic(S, T, p.N, dyn); break;
          case 2: D::computeAccDynamic(S, T, p.N, dyn); break;
          case 3: D::computeOrder2PosDynamic(S, T, p.N, dyn); break;
          case 4: D::computeOrder2VelDynamic(S, T, p.N, dyn); break;
          case 5: D::computeJerkDynamic(p.N, dyn); break;
          default: D::computeCopDynamic(S, T, p.N, dyn, h, gx, gz, m, M);
        }
        const std::string nm = names[kind];
        const int N = p.N, ns = (kind == 3 || kind == 4) ? 2 : 3;
        if (c.verbose || k == 0) { c.desc << nm << " N=" << N << " S=" << (double)S << " T=" << (double)T << " h=" << (double)h << " gx=" << (double)gx << " gz=" << (double)gz << " m=" << (double)m << " M=" << (double)M << (isF ? " float; " : "; "); }
        if (dyn.U.rows() != N || dyn.U.cols() != N || dyn.UT.rows() != N || dyn.UT.cols() != N || dyn.S.rows() != N || dyn.S.cols() != ns
            || dyn.K.size() != N || dyn.Uinv.rows() != N || dyn.UTinv.rows() != N || dyn.Uinv.cols() != N || dyn.UTinv.cols() != N)
          c.fail("size:" + nm, "matrix sizes of " + nm + " do not match N=" + std::to_string(N));
        // columns one by one, then random combinations
        std::vector<Vec> ucol;
        for (int j = 0; j < N; ++j) { Vec u(N, 0); u[j] = 1; ucol.push_back(u); }
        for (int j = 0; j < 2; ++j) { Vec u(N, 0); for (int i = 0; i < N; ++i) { u[i] = c.r.p(0.2) ? 0 : c.r.u(-20, 20); } ucol.push_back(u); }
        for (size_t q = 0; q < ucol.size() + 3; ++q)
        {
          Vec x(3, 0), u(N, 0);
          if (q < ucol.size()) { u = ucol[q]; } else { x[q - ucol.size()] = 1; }
          if (q >= static_cast<size_t>(N) && q < ucol.size()) { for (int i = 0; i < ns; ++i) { x[i] = c.r.u(-3, 3); } }
          if (ns == 2) { x[2] = 0; }
          Vec y, sc;
          simulate(kind, p, x, u, y, sc);
          for (int i = 0; i < N; ++i)
          {
            L got = dyn.K(i);
            for (int j = 0; j < ns; ++j) { got += static_cast<L>(dyn.S(i, j))*x[j]; }
            for (int j = 0; j < N; ++j) { got += static_cast<L>(dyn.U(i, j))*u[j]; }
            checkClose(c, got, y[i], (60 + N)*eps*sc[i] + 1e-30L, "preview:" + nm, nm + " sample " + std::to_string(i) + " probe " + std::to_string(q) + " N=" + std::to_string(N));
          }
          c.count("probes");
        }
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
          if (!(dyn.UT(i, j) == dyn.U(j, i))) c.fail("transpose:" + nm, "UT is not U transposed for " + nm);
        // inverse: compare with the exact inverse of the exact lower-triangular preview matrix
        std::vector<Vec> G(N, Vec(N, 0)), I(N, Vec(N, 0)), GS(N, Vec(N, 0));
        for (int j = 0; j < N; ++j) { Vec y, sc; Vec z(3, 0); Par pz = p; if (kind == 6) { pz.gx = 0; } simulate(kind, pz, z, ucol[j], y, sc); for (int i = 0; i < N; ++i) { G[i][j] = y[i]; GS[i][j] = sc[i]; } }
        L nG = 0, nI = 0; bool sing = false;
        for (int i = 0; i < N; ++i) if (std::fabs(G[i][i]) < 1e-9L) { sing = true; }
        if (!sing)
        {
          for (int j = 0; j < N; ++j) for (int i = j; i < N; ++i)
          {
            L a = i == j ? 1 : 0;
            for (int k2 = j; k2 < i; ++k2) { a -= G[i][k2]*I[k2][j]; }
            I[i][j] = a/G[i][i];
          }
          for (int i = 0; i < N; ++i) { L a = 0, b = 0; for (int j = 0; j < N; ++j) { a += GS[i][j]; b += std::fabs(I[i][j]); } nG = std::max(nG, a); nI = std::max(nI, b); }
          const L cond = nG*nI;
          const L relErr = eps*cond*40*N;
          if (relErr < 1e-3L && nI < 1e12L)
          {
            const L tol = 1.001e-4L + relErr*nI;      // entries below 1e-4 are set to zero by design
            for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j)
            {
              checkClose(c, dyn.Uinv(i, j), I[i][j], tol, "inverse:" + nm, nm + " Uinv(" + std::to_string(i) + "," + std::to_string(j) + ") N=" + std::to_string(N));
              checkClose(c, dyn.UTinv(j, i), I[i][j], tol, "invtransp:" + nm, nm + " UTinv");
            }
            c.count("inverses"); if (S != T && N > 1) { c.count("inverses_S_ne_T"); }
            c.count(std::string("inverse_") + nm);
          }
        }
        c.h(static_cast<uint64_t>(kind)*1000003 + N*17 + isF); c.h(static_cast<uint64_t>(S*1e6L) ^ (static_cast<uint64_t>(T*1e6L) << 24));
        c.state((static_cast<uint64_t>(kind) << 32) | (N << 4) | (isF << 2) | ((S == T) << 1) | (gx == 0));
        if (N > 1) { c.nontrivial = true; }
      }
    }
  }
  void fn(Case& c) { if (c.r.p(0.3)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
