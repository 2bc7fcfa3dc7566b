// variants: COPY ASSIGN ADD SUB MUL DIV NEG DOT NORM CROSS ALIAS CONV
// One function per vector operation: the operands are built from arrays, the operation is applied,
// and the result followed by the operands is written out.  Analysed, never run.
#include <softlib/Vector.h>
template<unsigned N> static inline void out2(double *o, const Vector<N> &r, const Vector<N> &x, const Vector<N> &y) {
    double R[N], X[N], Y[N];
    for (unsigned i = 0; i < N; i++) { R[i] = r[i]; X[i] = x[i]; Y[i] = y[i]; }
    for (unsigned i = 0; i < N; i++) { o[i] = R[i]; o[N+i] = X[i]; o[2*N+i] = Y[i]; }
}
#define EACH(M) M(1) M(2) M(3) M(4) M(6)
#define OP(name, N, ...) void w_##name##_##N(const double *a, const double *b, double s, double *o) { Vector<N> x(a), y(b); __VA_ARGS__ }
#define BIN(name, N, e) OP(name, N, Vector<N> r; r = (e); out2<N>(o, r, x, y);)
/* compound: result is the modified operand and the returned reference */
#define CMP(name, N, e) OP(name, N, Vector<N> r(x); Vector<N> &q = (e); out2<N>(o, r, q, y);)
#ifdef W_COPY
#define F(N) OP(copy, N, Vector<N> r(x); out2<N>(o, r, x, y);) OP(toarray, N, double t[N]; x.ToArray(t); Vector<N> r(t); out2<N>(o, r, x, y);) \
  OP(zero, N, Vector<N> r; out2<N>(o, r, x, y);) OP(index, N, Vector<N> r; for (unsigned i = 0; i < N; i++) r[i] = ((const Vector<N>&)x)[i]; out2<N>(o, r, x, y);) \
  OP(size, N, o[0] = (double)x.size();)
#endif
#ifdef W_ASSIGN
#define F(N) CMP(asgv, N, r = y) CMP(asgp, N, r = b) CMP(asgs, N, r = s)
#endif
#ifdef W_ADD
#define F(N) BIN(add, N, x + y) BIN(adds, N, x + s) BIN(sadd, N, s + x) CMP(addv, N, r += y) CMP(addsc, N, r += s)
#endif
#ifdef W_SUB
#define F(N) BIN(sub, N, x - y) BIN(subs, N, x - s) BIN(ssub, N, s - x) CMP(subv, N, r -= y) CMP(subsc, N, r -= s)
#endif
#ifdef W_MUL
#define F(N) BIN(mul, N, x * s) BIN(smul, N, s * x) CMP(mulsc, N, r *= s)
#endif
#ifdef W_DIV
#define F(N) BIN(div, N, x / s) CMP(divsc, N, r /= s)
#endif
#ifdef W_NEG
#define F(N) BIN(neg, N, -x)
#endif
#ifdef W_DOT
#define F(N) OP(dot, N, Vector<N> r; r = x.Dot(y); out2<N>(o, r, x, y);) OP(dotself, N, Vector<N> r; r = x.Dot(x); out2<N>(o, r, x, y);)
#endif
#ifdef W_NORM
#define F(N) OP(norm, N, Vector<N> r; r = x.Norm(); out2<N>(o, r, x, y);) OP(normalize, N, Vector<N> r(x); r.Normalize(); out2<N>(o, r, x, y);)
#endif
#ifdef W_CROSS
#define F(N)
OP(cross, 3, Vector<3> r = Vector<3>::Cross(x, y); out2<3>(o, r, x, y);)
OP(crossr, 3, Vector<3> r; Vector<3> &q = Vector<3>::Cross(x, y, r); out2<3>(o, r, x, q);)
OP(crossaa, 3, Vector<3>::Cross(x, y, x); out2<3>(o, x, x, y);)
OP(crossab, 3, Vector<3>::Cross(x, y, y); out2<3>(o, y, x, y);)
#endif
#ifdef W_ALIAS
#define F(N) OP(selfadd, N, x += x; out2<N>(o, x, x, y);) OP(selfsub, N, x -= x; out2<N>(o, x, x, y);) OP(selfasg, N, Vector<N> &z = x; x = z; out2<N>(o, x, x, y);) \
  OP(elemul, N, x *= x[0]; out2<N>(o, x, x, y);) OP(eleadd, N, x += x[0]; out2<N>(o, x, x, y);) OP(elesub, N, x -= x[0]; out2<N>(o, x, x, y);) \
  OP(elediv, N, x /= x[0]; out2<N>(o, x, x, y);) OP(eleasg, N, x = x[N-1]; out2<N>(o, x, x, y);)
#endif
#ifdef W_CONV
#define F(N) OP(conv, N, Vector<N,float> f(x); Vector<N> r(f); out2<N>(o, r, x, y);)
#endif
EACH(F)
