// variants: CTOR OUTER ACCESS ASSIGN ADD ADDS SUB SUBS MUL MULEQ MULS NEG MV VM
#include <softlib/Matrix.h>
template<unsigned M, unsigned N> static inline void put(double *o, const Matrix<M,N> &r) { double R[M*N]; for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) R[i*N+j] = r(i,j); for (unsigned i = 0; i < M*N; i++) o[i] = R[i]; }
template<unsigned N> static inline void putv(double *o, const Vector<N> &r) { for (unsigned i = 0; i < N; i++) o[i] = r[i]; }
#define EACH(F) F(1,1) F(2,2) F(3,3) F(2,3) F(3,2) F(1,3) F(3,1) F(2,4)
/* results: o = value, p = first operand afterwards, q = second operand afterwards */
#define OP(name, M, N, ...) void w_##name##_##M##_##N(const double *a, const double *b, double s, double *__restrict o, double *__restrict p, double *__restrict q) { __VA_ARGS__ }
#define AB(M,N) Matrix<M,N> x(a), y(b);
#define BIN(name, M, N, e) OP(name, M, N, AB(M,N) Matrix<M,N> r(e); put(o, r); put(p, x); put(q, y);)
#define CMP(name, M, N, e) OP(name, M, N, AB(M,N) Matrix<M,N> &r = (e); put(o, x); put(p, r); put(q, y);)
#ifdef W_CTOR
#define F(M,N) OP(zero, M, N, Matrix<M,N> x; put(o, x);) OP(copy, M, N, Matrix<M,N> x(a); Matrix<M,N> r(x); put(o, r); put(p, x);) \
  OP(rows, M, N, const double *t[M]; for (unsigned i = 0; i < M; i++) t[i] = a + i*N; Matrix<M,N> x(t); put(o, x);) \
  OP(size, M, N, Matrix<M,N> x(a); o[0] = x.Rows(); o[1] = x.Cols();)
#endif
#ifdef W_OUTER
#define F(M,N) OP(outer, M, N, Vector<M> x(a); Vector<N> y(b); Matrix<M,N> r(x, y); put(o, r); putv<M>(p, x); putv<N>(q, y);)
#endif
#ifdef W_ACCESS
#define F(M,N) OP(lin, M, N, Matrix<M,N> x(a); for (unsigned i = 0; i < M*N; i++) o[i] = ((const Matrix<M,N>&)x)(i);) \
  OP(linw, M, N, Matrix<M,N> x; for (unsigned i = 0; i < M*N; i++) x(i) = a[i]; put(o, x);) \
  OP(elw, M, N, Matrix<M,N> x; for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) x(i,j) = a[i*N+j]; for (unsigned i = 0; i < M*N; i++) o[i] = x(i);)
#endif
#ifdef W_ASSIGN
#define F(M,N) CMP(asg, M, N, x = y)
#endif
#ifdef W_ADD
#define F(M,N) BIN(add, M, N, x + y) CMP(addm, M, N, x += y)
#endif
#ifdef W_ADDS
#define F(M,N) BIN(adds, M, N, x + s) BIN(sadd, M, N, s + x) CMP(addsc, M, N, x += s)
#endif
#ifdef W_SUB
#define F(M,N) BIN(sub, M, N, x - y) CMP(subm, M, N, x -= y)
#endif
#ifdef W_SUBS
#define F(M,N) BIN(subs, M, N, x - s) BIN(ssub, M, N, s - x) CMP(subsc, M, N, x -= s)
#endif
#ifdef W_MUL
#define F(M,N) OP(mul, M, N, Matrix<M,N> x(a); Matrix<N,3> y(b); Matrix<M,3> r(x * y); put(o, r); put(p, x); put(q, y);) \
  OP(mul2, M, N, Matrix<M,N> x(a); Matrix<N,2> y(b); Matrix<M,2> r(x * y); put(o, r); put(p, x); put(q, y);)
#endif
#ifdef W_MULEQ
#define F(M,N)
#define G(N) OP(muleq, N, N, AB(N,N) Matrix<N,N> &r = (x *= y); put(o, x); put(p, r); put(q, y);) OP(mulself, N, N, AB(N,N) x *= x; put(o, x);)
G(1) G(2) G(3) G(4)
#endif
#ifdef W_MULS
#define F(M,N) BIN(muls, M, N, x * s) BIN(smul, M, N, s * x) CMP(mulsc, M, N, x *= s)
#endif
#ifdef W_NEG
#define F(M,N) BIN(neg, M, N, -x)
#endif
#ifdef W_MV
#define F(M,N) OP(mv, M, N, Matrix<M,N> x(a); Vector<N> y(b); Vector<M> r(x * y); putv<M>(o, r); put(p, x); putv<N>(q, y);)
#endif
#ifdef W_VM
#define F(M,N) OP(vm, M, N, Vector<M> x(a); Matrix<M,N> y(b); Vector<N> r(x * y); putv<N>(o, r); putv<M>(p, x); put(q, y);)
#endif
EACH(F)
