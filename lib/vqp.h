// Monitored QP solver used behind the qpOASES stand-in and by the oracles.
#pragma once

struct VqpCall
{
  int kind;            // 0: cold start (init), 1: warm start (hotstart)
  int n, m;
  bool isFloat;
  int nWSR;
  const void* solver;  // identity of the solver object
  const double *H, *g, *A, *lb, *ub, *lbA, *ubA;  // row major
};

struct VqpHooks
{
  void* ctx;
  // Decide whether this call fails. 0: no; >0: fail with that code after writing the iterate;
  // <0: fail with code -rc and write nothing.
  int (*fault)(void* ctx, const VqpCall* c);
  // Told about every program, its primal solution and the return code.
  void (*done)(void* ctx, const VqpCall* c, const double* x, int rc);
  // Relative rounding added to the program before it is solved (0: none), and the state of its generator.
  double jitter;
  unsigned long long jitterState;
};

extern "C" {
  // Hooks of the calling thread.
  VqpHooks* vqp_hooks();
  // Counters of the calling thread: [0] cold, [1] warm, [2] infeasible, [3] not converged / failed self-check
  long* vqp_counters();
  int vqp_run(const VqpCall* c, double* x, int* write);
  // min 0.5 x'Hx + g'x, lb<=x<=ub, lbA<=Ax<=ubA ; bounds beyond 1e10 are infinite.
  // 0: optimal, certified by an independent KKT check; 1: infeasible; 2: no certificate; 3: not convex.
  int vqp_solve_ld(int n, int m, const long double* H, const long double* g, const long double* A,
                   const long double* lb, const long double* ub, const long double* lbA, const long double* ubA,
                   long double* x, int* nActive);
}
