// C22: objects of every class live as globals, made before main, and work like those made later.
// needs: all
#include <drive.h>
#include <iostream>
using namespace MPCWalkgen;
using namespace vh;

namespace
{
  template <typename R> struct Globals
  {
    LIPModel<R> lip0, lip; BaseModel<R> base0, base; NoDynamicModel<R> none; HumanoidFootModel<R> foot; HumanoidFeetSupervisor<R> sup; Interpolator<R> interp; ConvexPolygon<R> poly;
    TrajectoryWalkgen<R> traj; ZebulonWalkgen<R> zeb; HumanoidWalkgen<R> hum;
    Globals() : lip(5, (R)0.1, true), base(5, (R)0.1, true), sup(5, (R)0.1) {}
    // everything a fresh object shows, and what it does
    Vec look()
    {
      Vec v; const auto add = [&](const Vec& o) { v.insert(v.end(), o.begin(), o.end()); };
      const auto mat = [&](const typename Type<R>::MatrixX& m) { for (int i = 0; i < m.size(); ++i) v.push_back(m.data()[i]); };
      const auto dyn = [&](const LinearDynamic<R>& d) { mat(d.U); mat(d.S); mat(d.Uinv); mat(d.K); };
      LIPModel<R>* l[] = {&lip0, &lip};
      for (int i = 0; i < 2; ++i) { dyn(l[i]->getCopXLinearDynamic()); dyn(l[i]->getComPosLinearDynamic()); dyn(l[i]->getComVelLinearDynamic()); for (int k = 0; k < 3; ++k) v.push_back(l[i]->getGravity()(k)); v.push_back(l[i]->getComHeight()); }
      BaseModel<R>* b[] = {&base0, &base};
      for (int i = 0; i < 2; ++i) { dyn(b[i]->getCopXLinearDynamic()); dyn(b[i]->getBasePosLinearDynamic()); dyn(b[i]->getBaseTiltAngleLinearDynamic()); v.push_back(b[i]->getComHeight()); v.push_back(b[i]->getVelocityLimit()); }
      v.push_back(poly.getNbVertices()); v.push_back(foot.getMaxHeight()); v.push_back(sup.getNbPreviewedSteps()); v.push_back(none.getSamplingPeriod());
      return v;
    }
    Vec use()
    {
      Vec v; const auto add = [&](const Vec& o) { v.insert(v.end(), o.begin(), o.end()); };
      hum.setMove(true);
      for (int t = 0; t < 30; ++t) { v.push_back(hum.solve((R)0.02)); add(outs(hum)); }
      Quiet q(5);
      for (int i = 0; i < 3; ++i)
      {
        const Traj<R> z(q.c); z.applyAll(traj, q.c);
        for (int t = 0; t < 10; ++t) { v.push_back(traj.solve(z.T/2)); add(outs(traj)); }
        try { const Zeb<R> y(q.c); y.applyAll(zeb, q.c); for (int t = 0; t < 5; ++t) { v.push_back(zeb.solve(y.T/2)); add(outs(zeb)); } } catch (const Skip&) {}
      }
      return v;
    }
  };
  struct Hush { Hush() { std::cerr.rdbuf(0); } } hush;
  Globals<float> gf; Globals<double> gd;
  Vec gLookF = gf.look(), gLookD = gd.look(), gUseF = gf.use(), gUseD = gd.use();

  template <typename R> void one(Case& c, const Vec& look, const Vec& use)
  {
    Globals<R> g; const Vec a = g.look(), b = g.use();
    const auto same = [&](const Vec& x, const Vec& y, const char* what) {
      if (x.size() != y.size()) c.fail("global", std::string(what) + ": different sizes");
      for (size_t i = 0; i < x.size(); ++i) if (x[i] != y[i] && (x[i] == x[i] || y[i] == y[i])) c.fail("global", std::string(what) + " of an object made before main: value " + std::to_string(i) + " is " + num(x[i]) + " instead of " + num(y[i])); };
    same(look, a, "state"); same(use, b, "behaviour"); c.count("values_compared", (long)(a.size() + b.size()));
  }
  void fn(Case& c) { std::cerr.rdbuf(0); one<float>(c, gLookF, gUseF); one<double>(c, gLookD, gUseD); c.h(c.idx); c.nontrivial = true; c.desc << "globals"; }
}
VH_MAIN(fn)
