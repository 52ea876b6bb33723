// Drivers: random legal use of every public class, one call (or a few) at a time, with everything a caller can read
// written to a stream. All choices come from the driver's own generator, so a stream can be reproduced, compared
// between precisions, threads, builds and memory contents, or simply watched by a sanitizer.
#pragma once
#include <same.h>
#include <memory>
#include <mpc-walkgen/function/humanoid_cop_centering_objective.h>
#include <mpc-walkgen/function/humanoid_cop_constraint.h>
#include <mpc-walkgen/function/humanoid_foot_constraint.h>
#include <mpc-walkgen/function/humanoid_lip_com_jerk_minimization_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_velocity_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_jerk_minimization_objective.h>
#include <mpc-walkgen/function/trajectory_motion_constraint.h>
#include <mpc-walkgen/function/trajectory_position_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_base_position_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_com_centering_objective.h>
#include <mpc-walkgen/function/zebulon_com_constraint.h>
#include <mpc-walkgen/function/zebulon_cop_centering_objective.h>
#include <mpc-walkgen/function/zebulon_cop_constraint.h>
#include <mpc-walkgen/function/zebulon_jerk_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_tilt_velocity_minimization_objective.h>
#include <mpc-walkgen/humanoid_feet_supervisor.h>
#include <mpc-walkgen/interpolator.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/tools.h>

namespace vh
{
  struct Out
  {
    struct Group { size_t from; std::string name; L extra; };
    std::vector<double> v; std::vector<Group> g; int sizes;
    Out() : sizes(0) {}
    void grp(const std::string& n, L extra = 0) { Group q = {v.size(), n, extra}; g.push_back(q); }
    void num(double d) { v.push_back(d); }
    template <typename M> void mat(const std::string& n, const M& m, L extra = 0)
    {
      grp(n, extra);
      for (int j = 0; j < (int)m.cols(); ++j) for (int i = 0; i < (int)m.rows(); ++i) v.push_back(m(i, j));
    }
    // sizes are values which must agree exactly
    void count(const std::string& n, long k) { grp(n, -1); v.push_back((double)k); }
  };

  // Source of the choices. float: values are those a float can hold, in both precisions; e: relative perturbation.
  template <typename R>
  struct In
  {
    Rng r, z; L e; bool wild, flat;
    In(uint64_t seed, L e_, uint64_t salt, bool wild_, bool flat_) : r(seed), z(seed*31 + salt), e(e_), wild(wild_), flat(flat_) {}
    R fix(double a, double b) { const double d = r.u(a, b); return flat ? (R)(float)d : (R)d; }
    R x(double a, double b) { const R v = fix(a, b); return e != 0 ? (R)(v*(1 + e*z.u(-1, 1))) : v; }
    // a positive quantity
    R pos(double a, double b) { R v = x(a, b); if (wild && r.p(0.15)) { const double f = std::pow(10., r.i(-4, 4)); v = (R)(v*f); } return v; }
    R any(double a) { R v = x(-a, a); if (wild && r.p(0.15)) { const int k = r.i(0, 5); v = k == 0 ? (R)0 : k == 1 ? (R)(v*1e5) : k == 2 ? (R)(v*1e-5) : v; } return v; }
    typename Type<R>::VectorX state(double p, double v, double a) { typename Type<R>::VectorX s(3); s(0) = any(p); s(1) = any(v); s(2) = any(a); return s; }
    typename Type<R>::VectorX vec(int n, double m) { typename Type<R>::VectorX s(n); for (int i = 0; i < n; ++i) s(i) = any(m); return s; }
    int nbs(int hi) { if (wild && r.p(0.05)) return r.i(20, 30); return r.p(0.15) ? 1 : r.i(1, hi); }
    // points on a grid far coarser than the resolution of polygons, or in clearly convex position
    typename Type<R>::vectorOfVector2 points(int lo, int hi)
    {
      typedef typename Type<R>::Vector2 V2; typename Type<R>::vectorOfVector2 p;
      const int n = r.i(lo, hi); const int kind = r.i(0, wild ? 4 : 2);
      const R cx = fix(-0.2, 0.2), cy = fix(-0.2, 0.2); const double a0 = r.u(0, 6.28);
      for (int i = 0; i < n; ++i)
      {
        const double a = a0 + 6.283185307179586*i/n;
        switch (kind)
        {
          case 0: p.push_back(V2((R)(0.125*r.i(-4, 4)), (R)(0.125*r.i(-4, 4)))); break;
          case 1: case 2: { const float px = (float)(0.3*std::cos(a)), py = (float)(0.2*std::sin(a)); p.push_back(V2(cx + (R)px, cy + (R)py)); break; }
          case 3: p.push_back(V2((R)(0.01*r.i(-1, 1)), (R)(0.01*r.i(-30, 30)))); break;
          default: p.push_back(V2((R)(100*r.i(-4, 4)), (R)(100*r.i(-4, 4))));
        }
      }
      return p;
    }
    // a polygon with an interior
    MPCWalkgen::ConvexPolygon<R> poly()
    {
      for (;;) { const MPCWalkgen::ConvexPolygon<R> q(points(3, 9)); if (q.getNbVertices() >= 3) return q; }
    }
  };

  template <typename R>
  struct Driver
  {
    In<R> in; Out out; bool over; const char* name; int maxN; L inverse;
    Driver(const In<R>& i, const char* n) : in(i), over(false), name(n), maxN(i.flat ? 4 : 8), inverse(2.1e-4L) {}
    virtual ~Driver() {}
    virtual void step() = 0;
    void dyn(const std::string& n, const MPCWalkgen::LinearDynamic<R>& d, bool inv = false)
    {
      out.count(n + ".n", d.U.rows()*100 + d.S.cols());
      out.mat(n + ".U", d.U); out.mat(n + ".UT", d.UT); out.mat(n + ".S", d.S); out.mat(n + ".K", d.K);
      // inverses amplify rounding by themselves
      const L u = d.U.size() ? (L)d.U.cwiseAbs().maxCoeff() : 0, v = d.Uinv.size() ? (L)d.Uinv.cwiseAbs().maxCoeff() : 0, x = inv ? inverse*(1 + v*0.01L) + 3e-7L*v*v*u*d.U.rows() : 0;
      out.mat(n + ".Uinv", d.Uinv, x == x ? x : 0); out.mat(n + ".UTinv", d.UTinv, x == x ? x : 0);
    }
    void polygon(const std::string& n, const MPCWalkgen::ConvexPolygon<R>& p)
    {
      out.count(n + ".vertices", p.getNbVertices()); out.count(n + ".constraints", p.getNbGeneralConstraints());
      for (int i = 0; i < (int)p.getVertices().size(); ++i) out.mat(n + ".vertex", p.getVertices()[i]);
      out.mat(n + ".A", p.getGeneralConstraintsMatrixCoefsForX()); out.mat(n + ".B", p.getGeneralConstraintsMatrixCoefsForY()); out.mat(n + ".C", p.getGeneralConstraintsConstantPart());
      out.grp(n + ".bounds"); out.num(p.getXSupBound()); out.num(p.getXInfBound()); out.num(p.getYSupBound()); out.num(p.getYInfBound());
    }
  private:
    Driver(const Driver&); Driver& operator=(const Driver&);
  };

  // the mass never exceeds the total mass on the way
  template <typename M, typename R> void putMass(M& m, R mass, R total)
  { if (total >= m.getMass()) { m.setTotalMass(total); m.setMass(mass); } else { m.setMass(mass); m.setTotalMass(total); } }

  template <typename R>
  struct ToolsDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V; typedef MPCWalkgen::Tools::ConstantJerkDynamic<R> D;
    using Driver<R>::in; using Driver<R>::out;
    MPCWalkgen::LinearDynamic<R> d, e; MPCWalkgen::Interpolator<R> interp; V state, factor;
    explicit ToolsDriver(const In<R>& i) : Driver<R>(i, "tools"), state(V::Zero(3)) {}
    void step()
    {
      const int n = in.nbs(this->maxN), kind = in.r.i(0, 9); const R T = in.fix(0.1, 0.4), S = in.r.p(0.3) ? T : (R)(T*in.fix(0.3, 1));
      switch (kind)
      {
        case 0: { const R mm = in.x(1, 20); D::computeCopDynamic(S, T, n, d, in.x(0.4, 1.2), in.x(-2, 2), in.x(7, 12), mm, mm + in.x(0, 20)); this->dyn("cop", d, true); break; }
        case 1: D::computePosDynamic(S, T, n, d); this->dyn("pos", d, true); break;
        case 2: D::computeVelDynamic(S, T, n, d); this->dyn("vel", d, true); break;
        case 3: D::computeAccDynamic(S, T, n, d); this->dyn("acc", d, true); break;
        case 4: D::computeOrder2PosDynamic(S, T, n, e); this->dyn("order2pos", e, true); break;
        case 5: D::computeOrder2VelDynamic(S, T, n, e); this->dyn("order2vel", e, true); break;
        case 6: D::computeJerkDynamic(n, d); this->dyn("jerk", d, true); break;
        case 7: if (in.r.p(0.1)) { state = in.state(1, 1, 1); } D::updateState(in.any(3), in.pos(0.01, 0.3), state); out.mat("state", state); if (!(std::fabs((L)state(0)) < 20)) state = V::Zero(3); break;
        case 8:
        {
          typename Type<R>::Vector3 a, b; for (int i = 0; i < 3; ++i) { a(i) = in.x(-1, 1); b(i) = in.x(-1, 1); }
          if (in.r.p(0.5)) factor.setZero(12); else if (factor.size() != 12) factor = V::Zero(12);
          const R P = in.x(0.3, 1.5); interp.computePolynomialNormalisedFactors(factor, a, b, P); out.mat("factors", factor);
          typename Type<R>::Vector4 sub; sub.setZero(); const int q = in.r.i(0, 2); const R f = (R)((q + in.fix(0.05, 0.95))/3);
          interp.selectFactors(sub, factor, P*f, P); out.mat("piece", sub);
          out.grp("point"); out.num(MPCWalkgen::Tools::polynomValue<R>(sub, f)); out.num(MPCWalkgen::Tools::dPolynomValue<R>(sub, f)); out.num(MPCWalkgen::Tools::ddPolynomValue<R>(sub, f));
          break;
        }
        default: { MPCWalkgen::LinearDynamic<R>& q = in.r.p(0.5) ? d : e; q.reset(n, in.r.i(2, 3), n); this->dyn("reset", q); }
      }
    }
  };

  template <typename R>
  struct PolyDriver : Driver<R>
  {
    using Driver<R>::in;
    MPCWalkgen::ConvexPolygon<R> keep; std::vector<MPCWalkgen::ConvexPolygon<R>, Eigen::aligned_allocator<MPCWalkgen::ConvexPolygon<R> > > all;
    explicit PolyDriver(const In<R>& i) : Driver<R>(i, "polygon") {}
    void step()
    {
      switch (in.r.i(0, 4))
      {
        case 0: keep = MPCWalkgen::ConvexPolygon<R>(in.points(3, 9)); break;
        case 1: all.push_back(keep); if (all.size() > 6) all.erase(all.begin() + in.r.i(0, 5)); break;
        case 2: if (!all.empty()) keep = all[in.r.i(0, (int)all.size() - 1)]; break;
        case 3: { MPCWalkgen::ConvexPolygon<R> q(in.points(in.wild ? 1 : 3, in.wild ? 20 : 9)); std::swap(q, keep); break; }
        default: keep = keep; if (in.wild && in.r.p(0.1)) keep = MPCWalkgen::ConvexPolygon<R>();
      }
      this->polygon("polygon", keep);
    }
  };

  template <typename R>
  struct LipDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    using Driver<R>::in; using Driver<R>::out;
    std::unique_ptr<MPCWalkgen::LIPModel<R> > m; R mass;
    explicit LipDriver(const In<R>& i) : Driver<R>(i, "lip"), mass(1)
    { if (in.r.p(0.2)) m.reset(new MPCWalkgen::LIPModel<R>()); else { const int n = in.nbs(this->maxN); const R T = in.fix(0.1, 0.4); m.reset(new MPCWalkgen::LIPModel<R>(n, T, true)); } }
    void step()
    {
      switch (in.r.i(0, 15))
      {
        case 0: m->setNbSamples(in.nbs(this->maxN)); break;
        case 1: { const R T = in.fix(0.1, 0.4); m->setSamplingPeriod(T); m->setFeedbackPeriod(T); break; }
        case 2: m->setFeedbackPeriod(m->getSamplingPeriod()/(R)in.r.i(1, 10)); break;
        case 3: m->setComHeight(in.pos(0.5, 1.2)); break;
        case 4: { mass = in.pos(1, 20); const R more = in.pos(0, 20); putMass(*m, mass, (R)(mass + more)); break; }
        case 5: m->setGravity(V3(in.any(2), in.any(2), in.pos(6, 12))); break;
        case 6: m->setStateX(in.state(1, 1, 1)); break;
        case 7: m->setStateY(in.state(1, 1, 1)); break;
        case 8: m->setStateYaw(in.state(1, 1, 1)); break;
        case 9: m->updateStateX(in.any(5), in.pos(0.01, 0.2)); break;
        case 10: m->updateStateY(in.any(5), in.pos(0.01, 0.2)); break;
        case 11: m->updateStateYaw(in.any(5), in.pos(0.01, 0.2)); break;
        case 12: m->computeDynamics(); break;
        case 13: switch (in.r.i(0, 5)) { case 0: m->computeCopXDynamicVec(); break; case 1: m->computeCopYDynamicVec(); break; case 2: m->computeComPosDynamicVec(); break; case 3: m->computeComVelDynamicVec(); break; case 4: m->computeComAccDynamicVec(); break; default: m->computeComJerkDynamic(); } break;
        default:
        {
          const int k = m->getFeedbackPeriod() > 0 ? (int)std::floor(m->getSamplingPeriod()/m->getFeedbackPeriod() + 0.5) : 1;
          const int i = in.r.i(0, k - 1);
          this->dyn("pos", m->getComPosLinearDynamic(i), true); this->dyn("vel", m->getComVelLinearDynamic(i), true); this->dyn("acc", m->getComAccLinearDynamic(i), true); this->dyn("jerk", m->getComJerkLinearDynamic(i), true);
          this->dyn("copX", m->getCopXLinearDynamic(i), true); this->dyn("copY", m->getCopYLinearDynamic(i), true);
          this->dyn("copX", m->getCopXLinearDynamic(), true);
        }
      }
      out.mat("x", m->getStateX()); out.mat("y", m->getStateY()); out.mat("yaw", m->getStateYaw()); out.mat("z", m->getStateZ());
      out.grp("values"); out.num(m->getComHeight()); out.num(m->getMass()); out.num(m->getSamplingPeriod()); out.num(m->getFeedbackPeriod()); out.mat("g", m->getGravity());
      out.count("N", m->getNbSamples());
      for (int a = 0; a < 3; ++a) { const V& s = a == 0 ? m->getStateX() : a == 1 ? m->getStateY() : m->getStateYaw(); if (!(s.cwiseAbs().maxCoeff() < 30)) { const V z = V::Zero(3); if (a == 0) m->setStateX(z); else if (a == 1) m->setStateY(z); else m->setStateYaw(z); } }
    }
  };

  template <typename R>
  struct BaseDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    using Driver<R>::in; using Driver<R>::out;
    std::unique_ptr<MPCWalkgen::BaseModel<R> > m;
    explicit BaseDriver(const In<R>& i) : Driver<R>(i, "base")
    { if (in.r.p(0.2)) m.reset(new MPCWalkgen::BaseModel<R>()); else { const int n = in.nbs(this->maxN); const R T = in.fix(0.1, 0.4); m.reset(new MPCWalkgen::BaseModel<R>(n, T, true)); } }
    void step()
    {
      switch (in.r.i(0, 19))
      {
        case 0: m->setNbSamples(in.nbs(this->maxN)); break;
        case 1: m->setSamplingPeriod(in.fix(0.1, 0.4)); break;
        case 2: m->setComHeight(in.pos(0.05, 0.4)); break;
        case 3: { const R mass = in.pos(1, 20), more = in.pos(1, 20); putMass(*m, mass, (R)(mass + more)); break; }
        case 4: m->setGravity(V3(in.any(2), in.any(2), in.pos(6, 12))); break;
        case 5: m->setStateX(in.state(1, 1, 1)); break;
        case 6: m->setStateY(in.state(1, 1, 1)); break;
        case 7: m->setStateYaw(in.state(1, 1, 1)); break;
        case 8: m->setStateRoll(in.state(1, 1, 1)); break;
        case 9: m->setStatePitch(in.state(1, 1, 1)); break;
        case 10: m->updateStateX(in.any(5), in.pos(0.01, 0.2)); break;
        case 11: m->updateStateY(in.any(5), in.pos(0.01, 0.2)); break;
        case 12: m->setVelocityLimit(in.pos(0.1, 3)); m->setAccelerationLimit(in.pos(0.1, 3)); m->setJerkLimit(in.pos(0.1, 30)); break;
        case 13: m->setCopSupportConvexPolygon(in.poly()); break;
        case 14: m->setComSupportConvexPolygon(in.poly()); break;
        case 15: m->setTiltContactPointX(in.any(0.3)); m->setTiltContactPointY(in.any(0.3)); break;
        case 16: switch (in.r.i(0, 6)) { case 0: m->computeCopXDynamic(); break; case 1: m->computeCopYDynamic(); break; case 2: m->computeBasePosDynamic(); break; case 3: m->computeBaseVelDynamic(); break; case 4: m->computeBaseAccDynamic(); break; case 5: m->computeBaseJerkDynamic(); break; default: m->computeDynamics(); } break;
        default:
          this->dyn("pos", m->getBasePosLinearDynamic(), true); this->dyn("vel", m->getBaseVelLinearDynamic(), true); this->dyn("acc", m->getBaseAccLinearDynamic(), true); this->dyn("jerk", m->getBaseJerkLinearDynamic(), true);
          this->dyn("copX", m->getCopXLinearDynamic(), true); this->dyn("copY", m->getCopYLinearDynamic(), true);
          this->dyn("tilt", m->getBaseTiltAngleLinearDynamic(), true); this->dyn("tiltVel", m->getBaseTiltAngularVelLinearDynamic(), true);
          this->polygon("cop polygon", m->getCopSupportConvexPolygon()); this->polygon("com polygon", m->getComSupportConvexPolygon());
      }
      out.mat("x", m->getStateX()); out.mat("y", m->getStateY()); out.mat("yaw", m->getStateYaw()); out.mat("roll", m->getStateRoll()); out.mat("pitch", m->getStatePitch());
      out.grp("values"); out.num(m->getComHeight()); out.num(m->getMass()); out.num(m->getSamplingPeriod());
      out.grp("limits"); out.num(m->getVelocityLimit()); out.num(m->getAccelerationLimit()); out.num(m->getJerkLimit());
      out.grp("contact"); out.num(m->getTiltContactPointX()); out.num(m->getTiltContactPointY());
      out.count("N", m->getNbSamples());
      for (int a = 0; a < 2; ++a) { const V& s = a == 0 ? m->getStateX() : m->getStateY(); if (!(s.cwiseAbs().maxCoeff() < 30)) { const V z = V::Zero(3); if (a == 0) m->setStateX(z); else m->setStateY(z); } }
    }
  };

  // The model of the trajectory with its objectives and constraint
  template <typename R>
  struct NoDynDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V;
    using Driver<R>::in; using Driver<R>::out;
    MPCWalkgen::NoDynamicModel<R> m; MPCWalkgen::VelocityTrackingObjective<R> vel; MPCWalkgen::PositionTrackingObjective<R> pos; MPCWalkgen::TrajectoryJerkMinimizationObjective<R> jerk; MPCWalkgen::MotionConstraint<R> con;
    explicit NoDynDriver(const In<R>& i) : Driver<R>(i, "trajectory functions"), m(2, (R)0.25, true), vel(m), pos(m), jerk(m), con(m) { size(); }
    void size() { const int n = in.nbs(this->maxN); m.setNbSamples(n); constant(); refs(); }
    void constant() { vel.computeConstantPart(); pos.computeConstantPart(); jerk.computeConstantPart(); con.computeConstantPart(); }
    void refs() { const int n = m.getNbSamples(); vel.setVelRefInWorldFrame(in.vec(n, 1)); pos.setPosRefInWorldFrame(in.vec(n, 1)); }
    void step()
    {
      const int n = m.getNbSamples();
      switch (in.r.i(0, 11))
      {
        case 0: size(); break;
        case 1: m.setSamplingPeriod(in.fix(0.1, 0.4)); constant(); break;
        case 2: m.setState(in.state(1, 1, 1)); break;
        case 3: m.updateState(in.any(5), in.pos(0.01, 0.2)); if (!(m.getState().cwiseAbs().maxCoeff() < 30)) m.setState(V::Zero(3)); break;
        case 4: m.setVelocityLimit(in.pos(0.1, 3)); m.setAccelerationLimit(in.pos(0.1, 3)); m.setJerkLimit(in.pos(0.1, 30)); break;
        case 5: refs(); break;
        case 6: { switch (in.r.i(0, 4)) { case 0: m.computePosDynamic(); break; case 1: m.computeVelDynamic(); break; case 2: m.computeAccDynamic(); break; case 3: m.computeJerkDynamic(); break; default: m.computeDynamics(); } break; }
        case 7: this->dyn("pos", m.getPosLinearDynamic(), true); this->dyn("vel", m.getVelLinearDynamic(), true); this->dyn("acc", m.getAccLinearDynamic(), true); this->dyn("jerk", m.getJerkLinearDynamic(), true); break;
        default:
        {
          const V x = in.vec(n, 2);
          out.mat("velocity gradient", vel.getGradient(x)); out.mat("velocity hessian", vel.getHessian());
          out.mat("position gradient", pos.getGradient(x)); out.mat("position hessian", pos.getHessian());
          out.mat("jerk gradient", jerk.getGradient(x)); out.mat("jerk hessian", jerk.getHessian());
          out.mat("limits inf", con.getFunctionInf(x)); out.mat("limits sup", con.getFunctionSup(x)); out.mat("limits gradient", con.getGradient()); out.count("rows", con.getNbConstraints());
        }
      }
      out.mat("state", m.getState()); out.grp("limits"); out.num(m.getVelocityLimit()); out.num(m.getAccelerationLimit()); out.num(m.getJerkLimit()); out.grp("T"); out.num(m.getSamplingPeriod());
    }
  };

  // Body and base with all objectives and constraints of the mobile base
  template <typename R>
  struct ZebFunDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    using Driver<R>::in; using Driver<R>::out;
    MPCWalkgen::LIPModel<R> lip; MPCWalkgen::BaseModel<R> base;
    MPCWalkgen::BaseVelocityTrackingObjective<R> vel; MPCWalkgen::BasePositionTrackingObjective<R> pos; MPCWalkgen::JerkMinimizationObjective<R> jerk;
    MPCWalkgen::CopCenteringObjective<R> cop; MPCWalkgen::ComCenteringObjective<R> com; MPCWalkgen::TiltMinimizationObjective<R> tilt; MPCWalkgen::TiltVelMinimizationObjective<R> tiltVel;
    MPCWalkgen::BaseMotionConstraint<R> motion; MPCWalkgen::CopConstraint<R> copCon; MPCWalkgen::ComConstraint<R> comCon; MPCWalkgen::TiltMotionConstraint<R> tiltCon;
    explicit ZebFunDriver(const In<R>& i) : Driver<R>(i, "mobile base functions"), lip(2, (R)0.125, true), base(2, (R)0.125, true), vel(base), pos(base), jerk(lip, base), cop(lip, base), com(lip, base), tilt(lip, base), tiltVel(lip, base), motion(base), copCon(lip, base), comCon(lip, base), tiltCon(lip, base)
    {
      base.setCopSupportConvexPolygon(in.poly()); base.setComSupportConvexPolygon(in.poly()); heights(); masses(); gravity(); size();
    }
    void heights() { lip.setComHeight(in.x(0.6, 1.2)); base.setComHeight(in.x(0.05, 0.4)); }
    void masses() { const R a = in.x(2, 20), b = in.x(2, 20); putMass(lip, a, (R)(a + b)); putMass(base, b, (R)(a + b)); }
    void gravity() { const V3 g(in.x(-2, 2), in.x(-2, 2), in.x(7, 12)); lip.setGravity(g); base.setGravity(g); }
    void constant()
    {
      vel.computeConstantPart(); pos.computeConstantPart(); jerk.computeConstantPart(); cop.computeConstantPart(); com.computeConstantPart(); com.updateGravityShift(); tilt.computeConstantPart(); tiltVel.computeConstantPart();
      motion.computeConstantPart(); copCon.computeConstantPart(); comCon.computeConstantPart(); tiltCon.computeConstantPart();
    }
    void size() { const int n = in.nbs(this->maxN); lip.setNbSamples(n); base.setNbSamples(n); com.setNbSamples(n); constant(); refs(); }
    void refs()
    {
      const int n = lip.getNbSamples(); vel.setVelRefInWorldFrame(in.vec(2*n, 1)); pos.setPosRefInWorldFrame(in.vec(2*n, 1)); com.setComRefInLocalFrame(in.vec(2*n, 0.2));
      if (in.r.p(0.5)) cop.setCopRefInLocalFrame(in.vec(2*n, 0.2));
      else { const V a = in.vec(2*n, 1), b = in.vec(2*n, 1), c = in.vec(2*n, 1), d = in.vec(2*n, 1); cop.setCopRefInWorldFrame(a, b, c, d); }
    }
    void step()
    {
      const int n = lip.getNbSamples();
      switch (in.r.i(0, 17))
      {
        case 0: size(); break;
        case 1: { const R T = in.fix(0.1, 0.2); lip.setSamplingPeriod(T); lip.setFeedbackPeriod(T); base.setSamplingPeriod(T); constant(); break; }
        case 2: heights(); constant(); break;
        case 3: masses(); constant(); break;
        case 4: gravity(); constant(); break;
        case 5: refs(); break;
        case 6: lip.setStateX(in.state(1, 1, 1)); lip.setStateY(in.state(1, 1, 1)); break;
        case 7: base.setStateX(in.state(1, 1, 1)); base.setStateY(in.state(1, 1, 1)); break;
        case 8: { V y = in.state(3, 0, 0); base.setStateYaw(y); tiltCon.computeConstantPart(); break; }
        case 9: base.setStateRoll(in.state(0.1, 0.1, 0.1)); base.setStatePitch(in.state(0.1, 0.1, 0.1)); break;
        case 10: base.setVelocityLimit(in.pos(0.1, 3)); base.setAccelerationLimit(in.pos(0.1, 3)); base.setJerkLimit(in.pos(0.1, 30)); break;
        case 11: base.setCopSupportConvexPolygon(in.poly()); base.setComSupportConvexPolygon(in.poly()); copCon.computeConstantPart(); comCon.computeConstantPart(); break;
        case 12: base.setTiltContactPointX(in.any(0.2)); base.setTiltContactPointY(in.any(0.2)); tilt.updateTiltContactPoint(); tiltVel.updateTiltContactPoint(); break;
        default:
        {
          const V x = in.vec(4*n, 2), xb = x.tail(2*n);
          switch (in.r.i(0, 3))
          {
            case 0:
              out.mat("velocity gradient", vel.getGradient(xb)); out.mat("velocity hessian", vel.getHessian());
              out.mat("position gradient", pos.getGradient(xb)); out.mat("position hessian", pos.getHessian());
              out.mat("jerk gradient", jerk.getGradient(x)); out.mat("jerk hessian", jerk.getHessian()); break;
            case 1:
              out.mat("cop gradient", cop.getGradient(x)); out.mat("cop hessian", cop.getHessian());
              out.mat("com gradient", com.getGradient(x)); out.mat("com hessian", com.getHessian()); break;
            case 2:
              out.mat("tilt gradient", tilt.getGradient(x)); out.mat("tilt hessian", tilt.getHessian());
              out.mat("tilt velocity gradient", tiltVel.getGradient(x)); out.mat("tilt velocity hessian", tiltVel.getHessian()); break;
            default:
              out.mat("motion inf", motion.getFunctionInf(xb)); out.mat("motion sup", motion.getFunctionSup(xb)); out.mat("motion rows", motion.getGradient()); out.count("motion", motion.getNbConstraints());
              out.mat("cop function", copCon.getFunction(x)); out.mat("cop rows", copCon.getGradient()); out.count("cop", copCon.getNbConstraints());
              out.mat("com function", comCon.getFunction(x)); out.mat("com rows", comCon.getGradient()); out.count("com", comCon.getNbConstraints());
              out.mat("tilt function", tiltCon.getFunction(x)); out.mat("tilt rows", tiltCon.getGradient()); out.count("tilt", tiltCon.getNbConstraints());
          }
        }
      }
    }
  };

  template <typename R>
  struct FootDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V; typedef typename Type<R>::Vector3 V3;
    using Driver<R>::in; using Driver<R>::out;
    std::unique_ptr<MPCWalkgen::HumanoidFootModel<R> > m;
    explicit FootDriver(const In<R>& i) : Driver<R>(i, "foot")
    { if (in.r.p(0.3)) m.reset(new MPCWalkgen::HumanoidFootModel<R>()); else { const int n = in.nbs(8); const R T = in.fix(0.1, 0.4); m.reset(new MPCWalkgen::HumanoidFootModel<R>(n, T)); } }
    void step()
    {
      switch (in.r.i(0, 11))
      {
        case 0: m->setNbSamples(in.nbs(8)); break;
        case 1: m->setSamplingPeriod(in.fix(0.1, 0.4)); break;
        case 2: m->setCopConvexPolygon(in.poly()); break;
        case 3: m->setKinematicConvexPolygon(in.poly()); break;
        case 4: m->setMaxHeight(in.pos(0.01, 0.2)); break;
        case 5: m->setHipYawUpperBound(in.pos(0.1, 1)); m->setHipYawLowerBound(-in.pos(0.1, 1)); m->setHipYawSpeedUpperBound(in.pos(0.1, 1)); m->setHipYawAccelerationUpperBound(in.pos(0.1, 1)); break;
        case 6: { const V s = in.state(1, 1, 1); const int a = in.r.i(0, 3); if (a == 0) m->setStateX(s); else if (a == 1) m->setStateY(s); else if (a == 2) m->setStateZ(s); else m->setStateYaw(s); break; }
        default:
        {
          const V3 o(in.x(-1, 1), in.r.p(0.5) ? (R)0 : in.x(-1, 1), in.r.p(0.5) ? (R)0 : in.x(-1, 1)); const R P = in.x(0.2, 1); const R t = P*(R)((in.r.i(0, 2) + in.fix(0.05, 0.95))/3);
          const int a = in.r.i(0, 2); if (a == 0) m->updateStateX(o, P, t); else if (a == 1) m->updateStateY(o, P, t); else m->updateStateZ(o, P, t);
          const V& s = a == 0 ? m->getStateX() : a == 1 ? m->getStateY() : m->getStateZ();
          if (!(s.cwiseAbs().maxCoeff() < 30)) { const V z = V::Zero(3); if (a == 0) m->setStateX(z); else if (a == 1) m->setStateY(z); else m->setStateZ(z); }
        }
      }
      out.mat("x", m->getStateX()); out.mat("y", m->getStateY()); out.mat("z", m->getStateZ()); out.mat("yaw", m->getStateYaw());
      out.grp("height"); out.num(m->getMaxHeight()); out.grp("T"); out.num(m->getSamplingPeriod()); out.count("N", m->getNbSamples()); out.count("contact", m->isInContact(in.r.i(0, m->getNbSamples() - 1)));
      this->polygon("cop", m->getCopConvexPolygon()); this->polygon("kinematic", m->getKinematicConvexPolygon());
    }
  };

  // Supervisor with the objectives and constraints of the humanoid
  template <typename R>
  struct SupDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V;
    using Driver<R>::in; using Driver<R>::out;
    int N, k, s, d; R T; std::unique_ptr<MPCWalkgen::LIPModel<R> > lip; std::unique_ptr<MPCWalkgen::HumanoidFeetSupervisor<R> > sup;
    std::unique_ptr<MPCWalkgen::HumanoidCopConstraint<R> > cop; std::unique_ptr<MPCWalkgen::HumanoidFootConstraint<R> > foot; std::unique_ptr<MPCWalkgen::HumanoidCopCenteringObjective<R> > centre;
    std::unique_ptr<MPCWalkgen::HumanoidLipComJerkMinimizationObjective<R> > jerk; std::unique_ptr<MPCWalkgen::HumanoidLipComVelocityTrackingObjective<R> > vel;
    V X; bool move; Walk w; double eval; int kx, sx, sn;   // finest feedback, longest and shortest step so far
    explicit SupDriver(const In<R>& i) : Driver<R>(i, "feet"), move(false), w(2, 1)
    {
      k = in.r.pick(std::vector<int>{1, 2, 4, 5}); s = in.r.i(2, 4); N = in.r.i(s, in.flat ? 5 : 7); d = in.r.i(1, 4);
      T = in.flat ? (R)(float)(0.01*in.r.i(6, 25)) : (R)(0.01*in.r.i(6, 25)); eval = in.r.pick(std::vector<double>{0.05, 0.5});
      kx = k; sx = std::max(s, 2); sn = 2;
      lip.reset(new MPCWalkgen::LIPModel<R>(N, T, true)); sup.reset(new MPCWalkgen::HumanoidFeetSupervisor<R>(N, T)); lip->setFeedbackPeriod(T/(R)k);
      if (s != 2) sup->setStepPeriod((R)s*T);
      if (d != 2) sup->setInitialDoubleSupportLength((R)d*T);
      w = Walk(N, k); w.setStep(s); w.setDs(d);
      lip->setComHeight(in.x(0.6, 1));
      for (int a = 0; a < 4; ++a) { shape(a); }
      for (int a = 0; a < 2; ++a) { V q = V::Zero(3); q(0) = in.x(-0.3, 0.3); if (a) sup->setLeftFootStateX(q); else sup->setRightFootStateX(q); q(0) = in.x(0.1, 0.2)*(a ? 1 : -1); if (a) sup->setLeftFootStateY(q); else sup->setRightFootStateY(q); }
      sup->setLeftFootMaxHeight(in.x(0.01, 0.1)); sup->setRightFootMaxHeight(in.x(0.01, 0.1));
      cop.reset(new MPCWalkgen::HumanoidCopConstraint<R>(*lip, *sup)); foot.reset(new MPCWalkgen::HumanoidFootConstraint<R>(*lip, *sup));
      centre.reset(new MPCWalkgen::HumanoidCopCenteringObjective<R>(*lip, *sup)); jerk.reset(new MPCWalkgen::HumanoidLipComJerkMinimizationObjective<R>(*lip, *sup)); vel.reset(new MPCWalkgen::HumanoidLipComVelocityTrackingObjective<R>(*lip, *sup));
      vel->setVelRefInWorldFrame(in.vec(2*N, 0.3)); X = V::Zero(2*N);
    }
    void shape(int a)
    {
      const R cx = in.fix(-0.03, 0.03), hx = in.fix(0.08, 0.15), hy = in.fix(0.04, 0.07), t = in.fix(0.1, 0.9); const R cy = a < 2 ? in.fix(-0.02, 0.02) : (R)((a == 2 ? -1 : 1)*0.21875);
      typename Type<R>::vectorOfVector2 p; typedef typename Type<R>::Vector2 V2;
      p.push_back(V2(cx - hx, cy - hy)); p.push_back(V2(cx + hx*t, cy - hy*(R)1.25)); p.push_back(V2(cx + hx, cy + hy*t)); p.push_back(V2(cx - hx*t, cy + hy*(R)1.5));
      const MPCWalkgen::ConvexPolygon<R> q(p);
      if (a == 0) sup->setLeftFootCopConvexPolygon(q); else if (a == 1) sup->setRightFootCopConvexPolygon(q); else if (a == 2) sup->setLeftFootKinematicConvexPolygon(q); else sup->setRightFootKinematicConvexPolygon(q);
    }
    void foot3(const std::string& n, const V& v)
    {
      static const char* el[] = {" position", " velocity", " acceleration"};
      for (int b = 0; b < 3; ++b)
      {
        // the last tick of a flight divides what is left of the way by the period
        const L noise = 1e-6L*(1 + std::fabs((L)v(0)));
        const L f = T/kx, at = noise*(1 + 1.0L*sx*sx*kx*kx), P = sn*T;   // where that residue leads during the next flight
        out.grp(n + el[b], b == 0 ? at : b == 1 ? 10*noise/f + 4*at/P : 60*noise/(f*f) + 20*at/(P*P)); out.num(v(b));
      }
    }
    void step()
    {
      if (in.r.p(0.02)) { const int n = in.r.pick(std::vector<int>{1, 2, 4, 5}); if (w.canTick(n)) { w.setTick(n); k = n; kx = std::max(kx, k); lip->setFeedbackPeriod(T/(R)k); } }
      if (in.r.p(0.02)) { const int n = in.r.i(2, N); if (w.canStep(n)) { sup->setStepPeriod((R)n*T); w.setStep(n); s = n; sx = std::max(sx, s); sn = std::min(sn, s); } }
      if (in.r.p(0.02)) { const int n = in.r.i(1, 4); if (w.canDs(n)) { sup->setInitialDoubleSupportLength((R)n*T); w.setDs(n); d = n; } }
      if (in.r.p(0.02))
      {
        const int lo = std::max(s, (int)((w.rem + k - 1)/k)), n = in.r.i(lo, std::max(lo, in.flat ? 5 : 9));
        if (w.type == Walk::DS || n >= (w.dur + k - 1)/k)
        { const int P = sup->getNbPreviewedSteps(); N = w.N = n; lip->setNbSamples(N); sup->setNbSamples(N); X = V::Zero(2*N + 2*P); cop->computeConstantPart(); vel->setVelRefInWorldFrame(in.vec(2*N, 0.3)); }
      }
      const R f = T/(R)k;
      if (in.r.p(0.04)) { move = !move; w.move = move; sup->setMove(move); }
      if (in.r.p(0.03)) shape(in.r.i(0, 3));
      if (in.r.p(0.03)) { lip->setStateX(in.state(0.2, 0.2, 0.2)); lip->setStateY(in.state(0.2, 0.2, 0.2)); }
      if (in.r.p(0.02)) { vel->setVelRefInWorldFrame(in.vec(2*N, 0.3)); }
      if (in.r.p(0.02)) { sup->setLeftFootYawUpperBound(in.x(0, 1)); sup->setLeftFootYawLowerBound(in.x(-1, 0)); sup->setRightFootYawUpperBound(in.x(0, 1)); sup->setRightFootYawLowerBound(in.x(-1, 0)); sup->setLeftFootYawSpeedUpperBound(in.x(0, 1)); sup->setRightFootYawSpeedUpperBound(in.x(0, 1)); sup->setLeftFootYawAccelerationUpperBound(in.x(0, 1)); sup->setRightFootYawAccelerationUpperBound(in.x(0, 1)); }
      sup->updateTimeline(X, f); w.update();
      const int M = sup->getNbPreviewedSteps();
      out.count("steps", M); out.count("calls", sup->getNbOfCallsBeforeNextSample()); out.count("ds", sup->isInDS()); out.count("variables", X.size());
      if (M != (int)w.landings.size() || X.size() != 2*N + 2*M) { this->over = true; return; }
      if (in.r.p(eval))
      {
        const MPCWalkgen::SelectionMatrices<R>& v = sup->getSelectionMatrices();
        out.mat("V", v.V); out.mat("VT", v.VT); out.mat("V0", v.V0);
        out.mat("W", sup->getSampleWeightMatrix()); this->dyn("feet", sup->getFeetPosLinearDynamic()); out.mat("rot", sup->getRotationMatrix()); out.mat("rotT", sup->getRotationMatrixT());
        foot3("support x", sup->getSupportFootStateX()); foot3("support y", sup->getSupportFootStateY());
        const V x = in.vec(2*N + 2*M, 0.3);
        out.mat("cop function", cop->getFunction(x)); out.mat("cop gradient", cop->getGradient(x.size())); out.mat("cop sup", cop->getSupBounds(x)); out.mat("cop inf", cop->getInfBounds(x)); out.count("cop n", cop->getNbConstraints());
        out.mat("foot function", foot->getFunction(x)); out.mat("foot gradient", foot->getGradient(x.size())); out.mat("foot sup", foot->getSupBounds(x)); out.mat("foot inf", foot->getInfBounds(x)); out.count("foot n", foot->getNbConstraints());
        out.mat("centre gradient", centre->getGradient(x)); out.mat("centre hessian", centre->getHessian());
        if (!in.flat) { out.mat("jerk gradient", jerk->getGradient(x)); out.mat("jerk hessian", jerk->getHessian()); out.mat("velocity gradient", vel->getGradient(x)); out.mat("velocity hessian", vel->getHessian()); }
        else { jerk->getGradient(x); jerk->getHessian(); vel->getGradient(x); vel->getHessian(); }
        for (int i = 0; i < N; ++i) out.count("vertices", sup->getCopConvexPolygon(i).getNbVertices());
        for (int i = 0; i < M; ++i) this->polygon("kinematic", sup->getKinematicConvexPolygon(i));
      }
      for (int j = 0; j < M; ++j)
      {
        const int sf = w.landings[j]; const V& px = sf == 1 ? sup->getLeftFootStateX() : sup->getRightFootStateX();
        X(2*N + j) = (j ? X(2*N + j - 1) : px(0)) + in.x(-0.05, 0.1); X(2*N + M + j) = (R)(sf == 1 ? -1 : 1)*in.x(0.1, 0.2);
        if (std::fabs((L)X(2*N + j)) > 20) { this->over = true; return; }
      }
      sup->updateFeetStates(X.segment(2*N, 2*M), f); w.tick();
      const V* st[] = {&sup->getLeftFootStateX(), &sup->getLeftFootStateY(), &sup->getLeftFootStateZ(), &sup->getRightFootStateX(), &sup->getRightFootStateY(), &sup->getRightFootStateZ()};
      static const char* nm[] = {"left x", "left y", "left z", "right x", "right y", "right z"};
      for (int a = 0; a < 6; ++a) foot3(nm[a], *st[a]);
    }
  };

  // The generators
  struct Quiet { std::map<std::string, long> cnt; std::set<uint64_t> st; Case c; explicit Quiet(uint64_t seed) : c(seed, 0) { c.cnt = &cnt; c.states = &st; } };

  template <typename R>
  struct TrajDriver : Driver<R>
  {
    using Driver<R>::in; using Driver<R>::out;
    Quiet q; Traj<R> z; std::unique_ptr<MPCWalkgen::TrajectoryWalkgen<R> > g; int k;
    explicit TrajDriver(const In<R>& i) : Driver<R>(i, "trajectory"), q(Driver<R>::in.r.next()), z(q.c) { fresh(); }
    void fresh() { g.reset(new MPCWalkgen::TrajectoryWalkgen<R>()); z = Traj<R>(q.c); z.applyAll(*g, q.c); k = q.c.r.pick(std::vector<int>{1, 2, 5, 10}); }
    void step()
    {
      if (in.r.p(0.01)) { fresh(); }
      else if (in.r.p(0.3)) { const std::vector<int> ch = z.pick(q.c, in.r.i(0, Traj<R>::FIELDS - 1)); for (size_t i = 0; i < ch.size(); ++i) z.apply(*g, ch[i]); }
      if (in.wild && in.r.p(0.02)) { z.w.jerkMinimization = in.pos(1e-6, 1e-1); z.w.velocityTracking = in.pos(0, 1e4); z.vL = in.pos(1e-3, 100); z.apply(*g, z.WEIGHTS); z.apply(*g, z.VELLIM); }
      const bool ok = g->solve(z.T/(R)k); out.count("solve", ok);
      out.mat("state", g->getState()); out.grp("jerk"); out.num(g->getJerk());
      z.read(*g);
      if (!ok || !(g->getState().cwiseAbs().maxCoeff() < 50)) { fresh(); }
    }
  };
  template <typename R>
  struct ZebDriver : Driver<R>
  {
    using Driver<R>::in; using Driver<R>::out;
    Quiet q; Zeb<R> z; std::unique_ptr<MPCWalkgen::ZebulonWalkgen<R> > g; int k;
    explicit ZebDriver(const In<R>& i) : Driver<R>(i, "mobile base"), q(Driver<R>::in.r.next()), z(q.c) { fresh(); }
    void fresh() { g.reset(new MPCWalkgen::ZebulonWalkgen<R>()); for (;;) { try { z = Zeb<R>(q.c); break; } catch (const Skip&) {} } z.applyAll(*g, q.c); k = q.c.r.pick(std::vector<int>{1, 2, 5, 10}); }
    void step()
    {
      if (in.r.p(0.02)) { fresh(); }
      else if (in.r.p(0.4)) try { const std::vector<int> ch = z.pick(q.c, in.r.i(0, Zeb<R>::FIELDS - 1)); for (size_t i = 0; i < ch.size(); ++i) z.apply(*g, ch[i]); } catch (const Skip&) { fresh(); }
      if (z.tilting() && !zTiltMeaningful(z.robot())) { fresh(); return; }
      const bool ok = g->solve(z.T/(R)k); out.count("solve", ok);
      out.mat("com x", g->getComStateX()); out.mat("com y", g->getComStateY()); out.mat("base x", g->getBaseStateX()); out.mat("base y", g->getBaseStateY());
      z.read(*g);
      L m = 0; for (int i = 0; i < 4; ++i) m = std::max(m, (L)z.s[i].cwiseAbs().maxCoeff());
      if (!ok || !(m < 100)) { fresh(); }
    }
  };
  template <typename R>
  struct HumDriver : Driver<R>
  {
    typedef Hum<R> H;
    using Driver<R>::in; using Driver<R>::out;
    Quiet q; H z; std::unique_ptr<MPCWalkgen::HumanoidWalkgen<R> > g; int age;
    explicit HumDriver(const In<R>& i) : Driver<R>(i, "humanoid"), q(Driver<R>::in.r.next()), z(make()), age(0) { fresh(); }
    H make() { for (;;) { try { return H(q.c, isF<R>() ? 3 : 6); } catch (const Skip&) {} } }
    void fresh() { g.reset(new MPCWalkgen::HumanoidWalkgen<R>()); z = make(); z.applyAll(*g, q.c); age = 0; if (in.r.p(0.8)) move(); }
    void move() { z.walk.move = !z.walk.move; g->setMove(z.walk.move); }
    void step()
    {
      if (in.r.p(0.01)) { fresh(); }
      if (age && in.r.p(0.04)) { move(); }
      if (age && in.r.p(0.1))
      {
        int f = in.r.i(0, H::FIELDS - 1);
        if (f != H::PERIOD && f != H::STEP && f != H::DSLEN && !(f >= H::LX && f <= H::RZ)) try { z.pick(q.c, f); z.apply(*g, f); if (f == H::NBS) z.apply(*g, H::VELREF); } catch (const Skip&) {}
      }
      if (in.r.p(0.02)) { g->setLeftFootYawUpperBound(in.x(0, 1)); g->setLeftFootYawLowerBound(in.x(-1, 0)); g->setRightFootYawUpperBound(in.x(0, 1)); g->setRightFootYawLowerBound(in.x(-1, 0)); g->setLeftFootYawSpeedUpperBound(in.x(0, 1)); g->setRightFootYawSpeedUpperBound(in.x(0, 1)); g->setLeftFootYawAccelerationUpperBound(in.x(0, 1)); g->setRightFootYawAccelerationUpperBound(in.x(0, 1)); }
      if (age && in.r.p(0.03)) { const int n = in.r.pick(std::vector<int>{1, 2, 4, 5, 10}); if (z.walk.canTick(n)) { z.walk.setTick(n); z.k = n; } }
      z.walk.N = z.N; z.walk.update();
      const bool ok = g->solve(z.fb()); ++age; z.walk.tick();
      out.count("solve", ok);
      const Vec o = outs(*g); out.grp("states"); L m = 0; for (size_t i = 0; i < o.size(); ++i) { out.num((double)o[i]); if (i%3 < 2) m = std::max(m, std::fabs(o[i])); }
      z.read(*g);
      if (!ok || !(m < 5) || !(g->getComStateX().cwiseAbs().maxCoeff() < 50)) { fresh(); }
    }
  };

  // Objects just made, and copies of them: everything they can be asked before they are told anything
  template <typename R>
  struct FreshDriver : Driver<R>
  {
    typedef typename Type<R>::VectorX V;
    using Driver<R>::in; using Driver<R>::out;
    explicit FreshDriver(const In<R>& i) : Driver<R>(i, "fresh") {}
    template <typename T> std::unique_ptr<T> copied(std::unique_ptr<T> p)
    {
      switch (in.r.i(0, 2))
      {
        case 0: return p;
        case 1: { std::unique_ptr<T> q(new T(*p)); return q; }
        default: { std::unique_ptr<T> q(new T()); *q = *p; p.reset(); return q; }
      }
    }
    void tell(MPCWalkgen::LIPModel<R>& m)
    {
      this->dyn("pos", m.getComPosLinearDynamic()); this->dyn("vel", m.getComVelLinearDynamic()); this->dyn("acc", m.getComAccLinearDynamic()); this->dyn("jerk", m.getComJerkLinearDynamic(0));
      this->dyn("copX", m.getCopXLinearDynamic(), true); this->dyn("copY", m.getCopYLinearDynamic(), true); this->dyn("copX", m.getCopXLinearDynamic(0), true);
      out.mat("x", m.getStateX()); out.mat("y", m.getStateY()); out.mat("yaw", m.getStateYaw()); out.mat("z", m.getStateZ()); out.mat("g", m.getGravity());
      out.grp("values"); out.num(m.getComHeight()); out.num(m.getMass()); out.num(m.getSamplingPeriod()); out.num(m.getFeedbackPeriod()); out.count("N", m.getNbSamples());
    }
    void tell(MPCWalkgen::BaseModel<R>& m)
    {
      this->dyn("pos", m.getBasePosLinearDynamic()); this->dyn("vel", m.getBaseVelLinearDynamic()); this->dyn("acc", m.getBaseAccLinearDynamic()); this->dyn("jerk", m.getBaseJerkLinearDynamic());
      out.mat("x", m.getStateX()); out.mat("y", m.getStateY()); out.mat("yaw", m.getStateYaw()); out.mat("roll", m.getStateRoll()); out.mat("pitch", m.getStatePitch());
      out.grp("values"); out.num(m.getComHeight()); out.num(m.getMass()); out.num(m.getSamplingPeriod()); out.num(m.getVelocityLimit()); out.num(m.getAccelerationLimit()); out.num(m.getJerkLimit()); out.num(m.getTiltContactPointX()); out.num(m.getTiltContactPointY());
      this->polygon("cop", m.getCopSupportConvexPolygon()); this->polygon("com", m.getComSupportConvexPolygon()); out.count("N", m.getNbSamples());
    }
    void tell(MPCWalkgen::NoDynamicModel<R>& m)
    {
      this->dyn("pos", m.getPosLinearDynamic()); this->dyn("vel", m.getVelLinearDynamic()); this->dyn("acc", m.getAccLinearDynamic()); this->dyn("jerk", m.getJerkLinearDynamic());
      out.mat("state", m.getState()); out.grp("values"); out.num(m.getVelocityLimit()); out.num(m.getAccelerationLimit()); out.num(m.getJerkLimit()); out.num(m.getSamplingPeriod()); out.count("N", m.getNbSamples());
    }
    void tell(MPCWalkgen::HumanoidFootModel<R>& m)
    {
      out.mat("x", m.getStateX()); out.mat("y", m.getStateY()); out.mat("z", m.getStateZ()); out.mat("yaw", m.getStateYaw());
      out.grp("values"); out.num(m.getMaxHeight()); out.num(m.getSamplingPeriod()); out.count("N", m.getNbSamples()); for (int i = 0; i < m.getNbSamples(); ++i) out.count("contact", m.isInContact(i));
      this->polygon("cop", m.getCopConvexPolygon()); this->polygon("kinematic", m.getKinematicConvexPolygon());
    }
    void tell(MPCWalkgen::HumanoidFeetSupervisor<R>& m)
    {
      out.count("N", m.getNbSamples()); out.count("steps", m.getNbPreviewedSteps()); out.count("calls", m.getNbOfCallsBeforeNextSample()); out.count("ds", m.isInDS()); out.grp("values"); out.num(m.getSamplingPeriod()); out.num(m.getStepPeriod());
      const V* st[] = {&m.getLeftFootStateX(), &m.getLeftFootStateY(), &m.getLeftFootStateZ(), &m.getRightFootStateX(), &m.getRightFootStateY(), &m.getRightFootStateZ(), &m.getSupportFootStateX(), &m.getSupportFootStateY()};
      for (int i = 0; i < 8; ++i) out.mat("foot", *st[i]);
    }
    void step()
    {
      const int n = in.nbs(8); const R T = in.fix(0.1, 0.4); const bool plain = in.r.p(0.4);
      switch (in.r.i(0, 8))
      {
        case 0: { typedef MPCWalkgen::LIPModel<R> M; tell(*copied(std::unique_ptr<M>(plain ? new M() : new M(n, T, true)))); break; }
        case 1: { typedef MPCWalkgen::BaseModel<R> M; tell(*copied(std::unique_ptr<M>(plain ? new M() : new M(n, T, true)))); break; }
        case 2: { typedef MPCWalkgen::NoDynamicModel<R> M; tell(*copied(std::unique_ptr<M>(plain ? new M() : new M(n, T, true)))); break; }
        case 3: { typedef MPCWalkgen::HumanoidFootModel<R> M; tell(*copied(std::unique_ptr<M>(plain ? new M() : new M(n, T)))); break; }
        case 4: { typedef MPCWalkgen::HumanoidFeetSupervisor<R> M; tell(*copied(std::unique_ptr<M>(plain ? new M() : new M(n, T)))); break; }
        case 5: { std::unique_ptr<MPCWalkgen::TrajectoryWalkgen<R> > g(new MPCWalkgen::TrajectoryWalkgen<R>()); out.mat("state", g->getState()); out.grp("jerk"); out.num(g->getJerk()); break; }
        case 6: { std::unique_ptr<MPCWalkgen::ZebulonWalkgen<R> > g(new MPCWalkgen::ZebulonWalkgen<R>()); out.mat("com x", g->getComStateX()); out.mat("com y", g->getComStateY()); out.mat("base x", g->getBaseStateX()); out.mat("base y", g->getBaseStateY()); break; }
        case 7:
        {
          std::unique_ptr<MPCWalkgen::HumanoidWalkgen<R> > g(new MPCWalkgen::HumanoidWalkgen<R>());
          const V* st[] = {&g->getLeftFootStateX(), &g->getLeftFootStateY(), &g->getLeftFootStateZ(), &g->getRightFootStateX(), &g->getRightFootStateY(), &g->getRightFootStateZ(), &g->getComStateX(), &g->getComStateY(), &g->getComStateZ()};
          for (int i = 0; i < 9; ++i) out.mat("state", *st[i]);
          break;
        }
        default:
        {
          std::unique_ptr<MPCWalkgen::ConvexPolygon<R> > p(new MPCWalkgen::ConvexPolygon<R>()); this->polygon("polygon", *p);
          std::unique_ptr<MPCWalkgen::LinearDynamic<R> > d(new MPCWalkgen::LinearDynamic<R>()); this->dyn("dynamic", *d);
          std::unique_ptr<MPCWalkgen::TrajectoryWalkgenWeighting<R> > a(new MPCWalkgen::TrajectoryWalkgenWeighting<R>()); std::unique_ptr<MPCWalkgen::ZebulonWalkgenWeighting<R> > b(new MPCWalkgen::ZebulonWalkgenWeighting<R>()); std::unique_ptr<MPCWalkgen::HumanoidWalkgenWeighting<R> > c(new MPCWalkgen::HumanoidWalkgenWeighting<R>());
          out.grp("weights"); const R v[] = {a->velocityTracking, a->positionTracking, a->jerkMinimization, b->velocityTracking, b->positionTracking, b->copCentering, b->comCentering, b->jerkMinimization, b->tiltMinimization, b->tiltVelMinimization, c->velocityTracking, c->copCentering, c->jerkMinimization};
          for (R w : v) out.num(w);
          std::unique_ptr<MPCWalkgen::TrajectoryWalkgenConfig<R> > e(new MPCWalkgen::TrajectoryWalkgenConfig<R>()); std::unique_ptr<MPCWalkgen::ZebulonWalkgenConfig<R> > f(new MPCWalkgen::ZebulonWalkgenConfig<R>()); std::unique_ptr<MPCWalkgen::HumanoidWalkgenConfig<R> > g(new MPCWalkgen::HumanoidWalkgenConfig<R>());
          const bool q[] = {e->withMotionConstraints, f->withCopConstraints, f->withComConstraints, f->withBaseMotionConstraints, f->withTiltMotionConstraints, g->withCopConstraints, g->withFeetConstraints};
          for (bool w : q) out.count("config", w);
        }
      }
    }
  };

  enum { DRIVERS = 12 };
  template <typename R> Driver<R>* makeDriver(int i, const In<R>& in)
  {
    switch (i)
    {
      case 0: return new ToolsDriver<R>(in);
      case 1: return new PolyDriver<R>(in);
      case 2: return new LipDriver<R>(in);
      case 3: return new BaseDriver<R>(in);
      case 4: return new NoDynDriver<R>(in);
      case 5: return new ZebFunDriver<R>(in);
      case 6: return new FootDriver<R>(in);
      case 7: return new SupDriver<R>(in);
      case 8: return new TrajDriver<R>(in);
      case 9: return new ZebDriver<R>(in);
      case 11: return new FreshDriver<R>(in);
      default: return new HumDriver<R>(in);
    }
  }
}
