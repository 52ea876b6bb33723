// C02: state integration is exact, additive in time, axis-isolated and consistent with the preview.
// needs: tools lineardynamic lip_model zebulon_base_model no_dynamic_model convexpolygon
#include <vh.h>
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R> struct VX { typedef typename Type<R>::VectorX T; };

  template <typename R>
  typename Type<R>::VectorX rnd(Case& c)
  {
    typename Type<R>::VectorX v(3);
    for (int i = 0; i < 3; ++i) { v(i) = static_cast<R>(c.r.p(0.15) ? 0 : c.r.u(-5, 5)); }
    return v;
  }

  template <typename R>
  void expectAdvance(Case& c, const typename Type<R>::VectorX& before, const typename Type<R>::VectorX& after, R j, R t, const std::string& what)
  {
    const L eps = sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L;
    Mot m = {before(0), before(1), before(2)}, s = {std::fabs((L)before(0)), std::fabs((L)before(1)), std::fabs((L)before(2))};
    m = step(m, j, t); s = step(s, std::fabs((L)j), t);
    if (after.size() != 3) c.fail("size", what + ": state size changed");
    checkClose(c, after(0), m.p, 40*eps*s.p, "advance:pos", what + " position");
    checkClose(c, after(1), m.v, 40*eps*s.v, "advance:vel", what + " velocity");
    checkClose(c, after(2), m.a, 40*eps*s.a, "advance:acc", what + " acceleration");
    c.count("advances");
  }

  // A model seen as a list of axes.
  template <typename R> struct Axes
  {
    typedef typename Type<R>::VectorX V;
    virtual ~Axes() {}
    virtual int n() const = 0;            // all axes
    virtual int nUpd() const = 0;         // those that can be advanced (first ones)
    virtual V get(int a) const = 0;
    virtual void set(int a, const V& v) = 0;
    virtual void upd(int a, R j, R t) = 0;
    virtual const char* name() const = 0;
  };
  template <typename R> struct LipA : Axes<R>
  {
    typedef typename Type<R>::VectorX V;
    LIPModel<R> m;
    LipA(int N, R T) : m(N, T, true) {}
    int n() const { return 4; }  int nUpd() const { return 3; }
    V get(int a) const { return a == 0 ? m.getStateX() : a == 1 ? m.getStateY() : a == 2 ? m.getStateYaw() : m.getStateZ(); }
    void set(int a, const V& v) { if (a == 0) m.setStateX(v); else if (a == 1) m.setStateY(v); else if (a == 2) m.setStateYaw(v); else m.setComHeight(v(0)); }
    void upd(int a, R j, R t) { if (a == 0) m.updateStateX(j, t); else if (a == 1) m.updateStateY(j, t); else m.updateStateYaw(j, t); }
    const char* name() const { return "com"; }
  };
  template <typename R> struct BaseA : Axes<R>
  {
    typedef typename Type<R>::VectorX V;
    BaseModel<R> m;
    BaseA(int N, R T) : m(N, T, true) {}
    int n() const { return 5; }  int nUpd() const { return 2; }
    V get(int a) const { return a == 0 ? m.getStateX() : a == 1 ? m.getStateY() : a == 2 ? m.getStateRoll() : a == 3 ? m.getStatePitch() : m.getStateYaw(); }
    void set(int a, const V& v) { if (a == 0) m.setStateX(v); else if (a == 1) m.setStateY(v); else if (a == 2) m.setStateRoll(v); else if (a == 3) m.setStatePitch(v); else m.setStateYaw(v); }
    void upd(int a, R j, R t) { if (a == 0) m.updateStateX(j, t); else m.updateStateY(j, t); }
    const char* name() const { return "base"; }
  };
  template <typename R> struct TrajA : Axes<R>
  {
    typedef typename Type<R>::VectorX V;
    NoDynamicModel<R> m;
    TrajA(int N, R T) : m(N, T, true) {}
    int n() const { return 1; }  int nUpd() const { return 1; }
    V get(int) const { return m.getState(); }
    void set(int, const V& v) { m.setState(v); }
    void upd(int, R j, R t) { m.updateState(j, t); }
    const char* name() const { return "trajectory"; }
  };

  template <typename R>
  void previewFirst(Case& c, const LinearDynamic<R>& pos, const LinearDynamic<R>& vel, const LinearDynamic<R>& acc,
                    const typename Type<R>::VectorX& x, R j, const typename Type<R>::VectorX& after, const std::string& what)
  {
    const L eps = sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L;
    const LinearDynamic<R>* d[3] = {&pos, &vel, &acc};
    for (int k = 0; k < 3; ++k)
    {
      L y = d[k]->K(0) + static_cast<L>(d[k]->U(0, 0))*j, s = std::fabs((L)d[k]->U(0, 0)*j);
      for (int i = 0; i < 3; ++i) { y += static_cast<L>(d[k]->S(0, i))*x(i); s += std::fabs((L)d[k]->S(0, i)*x(i)); }
      for (int i = 1; i < d[k]->U.cols(); ++i) { if (d[k]->U(0, i) != 0) c.fail("preview:causal", what + ": first sample depends on later controls"); }
      checkClose(c, after(k), y, 100*eps*(s + 1e-12L), "preview:first", what + " derivative " + std::to_string(k));
    }
    c.count("preview_checks");
  }

  template <typename R>
  void one(Case& c)
  {
    typedef typename Type<R>::VectorX V;
    const L eps = sizeof(R) == 4 ? 1.2e-7L : 2.3e-16L;
    // additivity and exactness of the raw integration
    {
      V s = rnd<R>(c), a(s), b(s);
      const R j = static_cast<R>(c.r.u(-30, 30)), t1 = static_cast<R>(c.r.p(0.2) ? std::pow(10, c.r.p(0.3) ? c.r.u(0, 3) : c.r.u(-8, -2)) : c.r.u(0.001, 2)), t2 = static_cast<R>(c.r.p(0.1) ? std::pow(10, c.r.u(-8, 3)) : c.r.u(0.001, 2));
      typedef Tools::ConstantJerkDynamic<R> D;
      D::updateState(j, t1, a);
      expectAdvance<R>(c, s, a, j, t1, "integration");
      V mid(a);
      D::updateState(j, t2, a);
      expectAdvance<R>(c, mid, a, j, t2, "integration (second leg)");
      D::updateState(j, t1 + t2, b);
      Mot sc = {std::fabs((L)s(0)), std::fabs((L)s(1)), std::fabs((L)s(2))};
      sc = step(sc, std::fabs((L)j), t1 + t2);
      for (int k = 0; k < 3; ++k)
        checkClose(c, a(k), b(k), 100*eps*(k == 0 ? sc.p : k == 1 ? sc.v : sc.a), "additive", "advance over a then b against a+b");
      c.desc << "j=" << (double)j << " t1=" << (double)t1 << " t2=" << (double)t2 << "; ";
    }
    // a history of updates on one model, every axis watched
    const int kind = c.r.i(0, 2);
    const int N = c.r.tail(1, 8, 40);
    const R T = static_cast<R>(0.05*c.r.i(1, 10));
    const int nf = c.r.tail(1, 5, 60);
    const R F = T/nf;
    LipA<R> lip(N, T); BaseA<R> base(N, T); TrajA<R> traj(N, T);
    lip.m.setFeedbackPeriod(F);
    Axes<R>* m = kind == 0 ? static_cast<Axes<R>*>(&lip) : kind == 1 ? static_cast<Axes<R>*>(&base) : static_cast<Axes<R>*>(&traj);
    c.desc << m->name() << " N=" << N << " T=" << (double)T << " nf=" << nf << ":";
    const int ops = c.r.tail(3, 15, 600, 0.02);
    uint64_t hist = kind;
    for (int o = 0; o < ops; ++o)
    {
      std::vector<V> before;
      for (int a = 0; a < m->n(); ++a) { before.push_back(m->get(a)); }
      int touched; V want; bool isSet = c.r.p(0.35); R j = 0, t = 0;
      if (isSet) { touched = c.r.i(0, m->n() - 1); want = rnd<R>(c); m->set(touched, want); }
      else
      {
        touched = c.r.i(0, m->nUpd() - 1);
        j = static_cast<R>(c.r.u(-20, 20)); t = c.r.p(0.5) ? F*c.r.i(1, nf) : static_cast<R>(c.r.p(0.3) ? std::pow(10, c.r.u(-8, -2)) : c.r.u(0.005, 0.5)); if (t < R(1e-4)) c.count("tiny_advances");
        m->upd(touched, j, t);
      }
      c.desc << (isSet ? " set" : " adv") << touched;
      hist = mix(hist*31 + touched*2 + isSet);
      for (int a = 0; a < m->n(); ++a)
      {
        const V now = m->get(a);
        const std::string w = std::string(m->name()) + " axis " + std::to_string(a);
        if (a != touched) { if (!(now == before[a])) c.fail("isolation", w + " changed by an update of axis " + std::to_string(touched)); continue; }
        if (!isSet) { expectAdvance<R>(c, before[a], now, j, t, w); continue; }
        if (kind == 0 && a == 3) { if (!(now(0) == want(0))) c.fail("set", "CoM height state"); }
        else if (!(now == want)) c.fail("set", w + ": state read back differs from state set");
      }
      c.state(hist & 0xffffff);
    }
    // the state reached after the remaining time is the first preview sample
    const R j = static_cast<R>(c.r.u(-20, 20));
    const int ax = c.r.i(0, m->nUpd() - 1);
    const V x = m->get(ax);
    if (kind == 0)
    {
      const int k = c.r.i(0, nf - 1);
      m->upd(ax, j, static_cast<R>(k + 1)*F);
      previewFirst<R>(c, lip.m.getComPosLinearDynamic(k), lip.m.getComVelLinearDynamic(k), lip.m.getComAccLinearDynamic(k), x, j, m->get(ax), "com preview index " + std::to_string(k));
      m->set(ax, x); m->upd(ax, j, static_cast<R>(nf)*F);
      previewFirst<R>(c, lip.m.getComPosLinearDynamic(), lip.m.getComVelLinearDynamic(), lip.m.getComAccLinearDynamic(), x, j, m->get(ax), "com preview default");
    }
    else if (kind == 1)
    {
      m->upd(ax, j, T);
      previewFirst<R>(c, base.m.getBasePosLinearDynamic(), base.m.getBaseVelLinearDynamic(), base.m.getBaseAccLinearDynamic(), x, j, m->get(ax), "base preview");
    }
    else
    {
      m->upd(ax, j, T);
      previewFirst<R>(c, traj.m.getPosLinearDynamic(), traj.m.getVelLinearDynamic(), traj.m.getAccLinearDynamic(), x, j, m->get(ax), "trajectory preview");
    }
    c.h(hist); c.h(N*100 + nf); c.nontrivial = true;
  }
  void fn(Case& c) { if (c.r.p(0.3)) { one<float>(c); } else { one<double>(c); } }
}
VH_MAIN(fn)
