"""C26: matrix arithmetic, by compile witnesses and polynomial identity of unrolled instantiations."""
from absint import Poly
from fractions import Fraction
from lin import run_family
from c25 import compile_fail

Z = Poly()


def expect(name, dims, w):
    M, N = dims; a, b, s = w.a, w.b, w.s
    n = M * N
    A = [a(i) for i in range(n)]; B = [b(i) for i in range(n)]
    def out(r, p=None, q=None):
        o = [(3, i, x, 'element %d of the result' % i) for i, x in enumerate(r)]
        if p: o += [(4, i, x, 'element %d of the first operand afterwards' % i) for i, x in enumerate(p)]
        if q: o += [(5, i, x, 'element %d of the second operand afterwards' % i) for i, x in enumerate(q)]
        return o
    def mul(X, Y, m_, n_, k_):
        R = []
        for i in range(m_):
            for j in range(k_):
                t = Z
                for l in range(n_): t = t + X[i * n_ + l] * Y[l * k_ + j]
                R.append(t)
        return R
    add = [x + y for x, y in zip(A, B)]; sub = [x - y for x, y in zip(A, B)]
    if name == 'zero': return out([Z] * n)
    if name == 'copy': return out(A, A)
    if name in ('rows', 'lin', 'linw', 'elw'): return out(A)
    if name == 'size': return [(3, 0, Poly.const(Fraction(M)), 'Rows()'), (3, 1, Poly.const(Fraction(N)), 'Cols()')]
    if name == 'outer':
        return out([a(i) * b(j) for i in range(M) for j in range(N)], [a(i) for i in range(M)], [b(i) for i in range(N)])
    if name == 'asg': return out(B, B, B)
    if name == 'add': return out(add, A, B)
    if name == 'addm': return out(add, add, B)
    if name in ('adds', 'sadd'): return out([x + s for x in A], A, B)
    if name == 'addsc': r = [x + s for x in A]; return out(r, r, B)
    if name == 'sub': return out(sub, A, B)
    if name == 'subm': return out(sub, sub, B)
    if name == 'subs': return out([x - s for x in A], A, B)
    if name == 'ssub': return out([s - x for x in A], A, B)
    if name == 'subsc': r = [x - s for x in A]; return out(r, r, B)
    if name in ('muls', 'smul'): return out([x * s for x in A], A, B)
    if name == 'mulsc': r = [x * s for x in A]; return out(r, r, B)
    if name == 'neg': return out([-x for x in A], A, B)
    if name in ('mul', 'mul2'):
        k = 3 if name == 'mul' else 2
        Y = [b(i) for i in range(N * k)]
        return out(mul(A, Y, M, N, k), A, Y)
    if name == 'muleq': r = mul(A, B, M, N, N); return out(r, r, B)
    if name == 'mulself': return out(mul(A, A, M, N, N))
    if name == 'mv': Y = [b(i) for i in range(N)]; return out(mul(A, Y, M, N, 1), A, Y)
    if name == 'vm': X = [a(i) for i in range(M)]; return out(mul(X, B, 1, M, N), X, B)
    return None


def run(ctx):
    ctx.rule('every declared matrix operation compiles for square and rectangular shapes and, fully unrolled, stores polynomials identical to the textbook ones; operands unchanged')
    m = ctx.module('--unroll', '--only', r'^w_', witness=('mat',))
    compile_fail(ctx, 'mat', 14, 'Matrix')
    ctx.need('matrix operations', run_family(ctx, m, '', expect, 'Matrix'), 100)
