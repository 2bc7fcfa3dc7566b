"""C25: vector arithmetic, by polynomial identity of unrolled witness instantiations."""
from absint import Poly
from fractions import Fraction
from lin import run_family, sqrtp
from extract import AnalysisError

Z = Poly()
ONE = Poly.const(Fraction(1))


def expect(name, dims, w):
    N = dims[0]; a, b, s = w.a, w.b, w.s
    A = [a(i) for i in range(N)]; B = [b(i) for i in range(N)]; S = [s] * N
    def three(r, x=A, y=B):
        out = []
        for i in range(N):
            out += [(3, i, r[i], 'element %d of the result' % i), (3, N + i, x[i], 'element %d of the first operand afterwards' % i), (3, 2 * N + i, y[i], 'element %d of the second operand afterwards' % i)]
        return out
    dot = Z
    for i in range(N): dot = dot + A[i] * B[i]
    nrm = Z
    for i in range(N): nrm = nrm + A[i] * A[i]
    add = [x + y for x, y in zip(A, B)]; sub = [x - y for x, y in zip(A, B)]
    if name in ('copy', 'toarray', 'index', 'conv'): return three(A)
    if name == 'zero': return three([Z] * N)
    if name == 'size': return [(3, 0, Poly.const(Fraction(N)), 'size')]
    if name in ('asgv', 'asgp'): return three(B, B)
    if name == 'asgs': return three(S, S)
    if name == 'add': return three(add)
    if name in ('adds', 'sadd'): return three([x + s for x in A])
    if name == 'addv': return three(add, add)
    if name == 'addsc': r = [x + s for x in A]; return three(r, r)
    if name == 'sub': return three(sub)
    if name == 'subs': return three([x - s for x in A])
    if name == 'ssub': return three([s - x for x in A])
    if name == 'subv': return three(sub, sub)
    if name == 'subsc': r = [x - s for x in A]; return three(r, r)
    if name in ('mul', 'smul'): return three([x * s for x in A])
    if name == 'mulsc': r = [x * s for x in A]; return three(r, r)
    if name == 'div': return three([x * s.inv() for x in A])
    if name == 'divsc': r = [x * s.inv() for x in A]; return three(r, r)
    if name == 'neg': return three([-x for x in A])
    if name == 'dot': return three([dot] * N)
    if name == 'dotself': return three([nrm] * N)
    if name == 'norm': return three([sqrtp(nrm)] * N)
    if name == 'normalize': return three([x * sqrtp(nrm).inv() for x in A])
    if name.startswith('cross'):
        c = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
        return {'cross': lambda: three(c), 'crossr': lambda: three(c, A, c), 'crossaa': lambda: three(c, c, B), 'crossab': lambda: three(c, A, c)}[name]()
    if name == 'selfadd': r = [x + x for x in A]; return three(r, r)
    if name == 'selfsub': r = [Z] * N; return three(r, r)
    if name == 'selfasg': return three(A)
    if name == 'elemul': r = [x * A[0] for x in A]; return three(r, r)
    if name == 'eleadd': r = [x + A[0] for x in A]; return three(r, r)
    if name == 'elesub': r = [x - A[0] for x in A]; return three(r, r)
    if name == 'elediv': r = [x * A[0].inv() for x in A]; return three(r, r)
    if name == 'eleasg': r = [A[N - 1]] * N; return three(r, r)
    return None


def run(ctx):
    ctx.rule('every vector operation, instantiated for 1,2,3,4,6 elements and fully unrolled, stores polynomials identical to the textbook ones; operands unchanged; aliased operands allowed')
    m = ctx.module('--unroll', '--inline', r'^(double )?std::(norm|sqrt|abs|conj)', '--inline', r'std::_Norm|__gnu_cxx::__promote', '--only', r'^w_', witness=('vec',))
    compile_fail(ctx, 'vec', 12, 'Vector')
    ctx.need('vector operations', run_family(ctx, m, '', expect, 'Vector'), 100)


def compile_fail(ctx, stem, nvar, kind):
    bad = [f for f in ctx.failed_units if '/' + stem + '.cpp' in f[0]]
    if len(bad) >= nvar: raise AnalysisError('no witness compiles: ' + bad[0][1][-1500:])
    for f, err in bad:
        v = f.split(':')[-1]
        line = next((l for l in err.splitlines() if 'error:' in l and '/witness/' not in l), None) or next((l for l in err.splitlines() if 'error:' in l), '?')
        ctx.bad('%s:compile:%s' % (kind, v), line.split(': error')[0], 'the %s operations of group %s do not compile: %s' % (kind, v, line.split('error: ')[-1]))
