// Stand-in for qpOASES: same call surface as the part the repository uses.
// It is a monitor (every program and solution is reported to the hooks of the
// calling thread), a solver (exact dual active set in extended precision,
// lib/vqp.cpp) and a fault injector.
#pragma once
#include <vector>
#include <vqp.h>

namespace qpOASES
{
  enum returnValue { SUCCESSFUL_RETURN = 0, RET_MAX_NWSR_REACHED = 64, RET_INIT_FAILED_INFEASIBILITY = 37,
                     RET_HOTSTART_STOPPED_INFEASIBILITY = 57, RET_NOT_SOLVED = 200 };
  enum PrintLevel { PL_NONE = 0, PL_LOW, PL_MEDIUM, PL_HIGH };

  class QProblem
  {
  public:
    QProblem(int nV, int nC) : n_(nV), m_(nC), x_(nV, 0.), written_(false), inited_(false) {}

    void setPrintLevel(PrintLevel) {}

    template <typename R>
    returnValue init(const R* H, const R* g, const R* A, const R* lb, const R* ub, const R* lbA, const R* ubA,
                     int& nWSR, R* = 0)
    {
      H_.assign(H, H + n_*n_);
      A_.assign(A, A + m_*n_);
      return run<R>(0, g, lb, ub, lbA, ubA, nWSR);
    }

    template <typename R>
    returnValue hotstart(const R* g, const R* lb, const R* ub, const R* lbA, const R* ubA, int& nWSR, R* = 0)
    {
      if (!inited_) { return RET_NOT_SOLVED; }
      return run<R>(1, g, lb, ub, lbA, ubA, nWSR);
    }

    template <typename R, typename Z>
    returnValue init(const R* H, const R* g, const R* A, const R* lb, const R* ub, const R* lbA, const R* ubA,
                     int& nWSR, Z)
    { return init<R>(H, g, A, lb, ub, lbA, ubA, nWSR, static_cast<R*>(0)); }

    template <typename R, typename Z>
    returnValue hotstart(const R* g, const R* lb, const R* ub, const R* lbA, const R* ubA, int& nWSR, Z)
    { return hotstart<R>(g, lb, ub, lbA, ubA, nWSR, static_cast<R*>(0)); }

    template <typename R>
    returnValue getPrimalSolution(R* x) const
    {
      if (!written_) { return RET_NOT_SOLVED; }
      for (int i = 0; i < n_; ++i) { x[i] = static_cast<R>(x_[i]); }
      return SUCCESSFUL_RETURN;
    }

    int getNV() const { return n_; }
    int getNC() const { return m_; }

  private:
    template <typename R>
    static std::vector<double> copied(const R* p, int n, double missing)
    { return p ? std::vector<double>(p, p + n) : std::vector<double>(n, missing); }

    template <typename R>
    returnValue run(int kind, const R* g, const R* lb, const R* ub, const R* lbA, const R* ubA, int& nWSR)
    {
      // as qpOASES: bounds which are not given are infinite
      const double inf = 1e20;
      std::vector<double> dg(g, g + n_), dlb = copied(lb, n_, -inf), dub = copied(ub, n_, inf), dlbA = copied(lbA, m_, -inf),
        dubA = copied(ubA, m_, inf);
      VqpCall c;
      c.kind = kind; c.n = n_; c.m = m_; c.isFloat = (sizeof(R) == sizeof(float)); c.nWSR = nWSR; c.solver = this;
      c.H = H_.data(); c.g = dg.data(); c.A = A_.data();
      c.lb = dlb.data(); c.ub = dub.data(); c.lbA = dlbA.data(); c.ubA = dubA.data();
      int write = 1;
      const int rc = vqp_run(&c, x_.data(), &write);
      if (write) { written_ = true; }
      // as qpOASES: an interrupted homotopy cannot be continued by a hotstart, a finished one can, even if infeasible
      inited_ = rc == SUCCESSFUL_RETURN || rc == RET_INIT_FAILED_INFEASIBILITY || rc == RET_HOTSTART_STOPPED_INFEASIBILITY;
      return static_cast<returnValue>(rc);
    }

    int n_, m_;
    std::vector<double> H_, A_;
    std::vector<double> x_;
    bool written_, inited_;
  };
}
