// An equation nobody knows.
#include <softlib/RKDP45.h>
extern "C" void ode_rhs(double t, const double *y, double *dy);
#define EQUATION(N) \
struct Equation##N : public IntegratorEquation<N> { \
    virtual Vector<N>& Evaluate(const slibreal_t t, const Vector<N> &y, Vector<N> &dy) { double a[N], b[N]; y.ToArray(a); ode_rhs(t, a, b); dy = b; return dy; } \
};
