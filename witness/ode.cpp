// The integrator on an equation nobody knows: one step of the method, and one step of the controller around a method nobody knows.
// Analysed, never run.
#include "ode.h"
extern "C" void ode_inner(double T, double h, const double *y, const double *dy, double *yout, double *yerr, double *dyout);
extern "C" void ode_dense(double h, const double *y1, const double *y2, const double *d1, const double *d2);
#define MAKE(N) EQUATION(N) \
struct Method##N : public RKDP45<N> { \
    Method##N(double tol) : RKDP45<N>(tol) {} \
    void step(double T, double h, const double *y, const double *d, double *o) { \
        Vector<N> a(y), b(d); Vector<N> &r = this->InnerStep(T, h, a, b); \
        r.ToArray(o); this->yout.ToArray(o+N); this->yerr.ToArray(o+2*N); this->dydxout.ToArray(o+3*N); a.ToArray(o+4*N); b.ToArray(o+5*N); } \
}; \
void w_method_##N(double T, double h, const double *y, const double *d, double *o) { \
    Equation##N e; Method##N s(1e-6); s.SetEquation(&e); s.step(T, h, y, d, o); } \
struct Control##N : public RungeKutta<N> { \
    Control##N(double tol) : RungeKutta<N>(tol) {} \
    virtual Vector<N>& InnerStep(const slibreal_t T, const slibreal_t h, const Vector<N> &y, const Vector<N> &dy) { \
        double a[N], b[N], c[N], d[N], e[N]; y.ToArray(a); dy.ToArray(b); ode_inner(T, h, a, b, c, d, e); \
        this->yout = c; this->yerr = d; this->dydxout = e; return this->yout; } \
    virtual void PrepareDense(const slibreal_t h, const Vector<N> &y1, const Vector<N> &y2, const Vector<N> &d1, const Vector<N> &d2) { \
        double a[N], b[N], c[N], d[N]; y1.ToArray(a); y2.ToArray(b); d1.ToArray(c); d2.ToArray(d); ode_dense(h, a, b, c, d); } \
    virtual void OutputDense(const unsigned int, slibreal_t*, slibreal_t*) {} \
}; \
void w_control_##N(double tol, double lo, double hi, int set, int dense, const double *y, int n, double *o, unsigned int *k) { \
    Equation##N e; Control##N s(tol); s.SetEquation(&e); \
    if (set) { s.SetMinScaleFactor(lo); s.SetMaxScaleFactor(hi); } \
    s.ToggleDenseOutput(dense != 0); \
    Vector<N> y0(y); s.InitialValue(y0); \
    double last = 0; \
    for (int i = 0; i < n; i++) last = s.Step(); \
    *k = s.StepsTaken(); o[0] = last; o[1] = s.LastTime(); \
    double *q = o+2; \
    for (int i = 0; i <= n; i++) { *q++ = s.TimeAt(i); for (int j = 0; j < N; j++) *q++ = s.SolutionAt(i)[j]; for (int j = 0; j < N; j++) *q++ = s.DerivativeAt(i)[j]; } \
    for (int j = 0; j < N; j++) { *q++ = s.LastSolution()[j]; *q++ = s.LastDerivative()[j]; } \
}
MAKE(1)
MAKE(2)
MAKE(3)
