// The integrator as users see it, on an equation nobody knows: steps, then dense output.  Analysed, never run.
#include "ode.h"
#define MAKE(N) EQUATION(N) \
void w_dense_##N(double tol, int dense, const double *y, int steps, int n, double *at, double *out, double *o) { \
    Equation##N e; RKDP45<N> s(tol); s.SetEquation(&e); s.ToggleDenseOutput(dense != 0); \
    Vector<N> y0(y); s.InitialValue(y0); \
    for (int i = 0; i < steps; i++) s.Step(); \
    for (int i = 0; i <= steps; i++) { *o++ = s.TimeAt(i); for (int j = 0; j < N; j++) *o++ = s.SolutionAt(i)[j]; for (int j = 0; j < N; j++) *o++ = s.DerivativeAt(i)[j]; } \
    s.OutputDense(n, at, out); } \
void w_range_##N(double tol, const double *y, int steps, int n, double lo, double hi, double *out, double *at) { \
    Equation##N e; RKDP45<N> s(tol); s.SetEquation(&e); \
    Vector<N> y0(y); s.InitialValue(y0); \
    for (int i = 0; i < steps; i++) s.Step(); \
    s.OutputDense(n, lo, hi, out, at); }
MAKE(1)
MAKE(2)
MAKE(3)
