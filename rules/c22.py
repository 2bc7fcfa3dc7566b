"""C22: one step of the integrator is a fifth-order Runge-Kutta step with its embedded fourth-order estimate.

The method is followed on an equation that is an unknown function: each evaluation's time and point, the new solution, the error
estimate and the new derivative come out as formulas in the step, the old solution and the unknown derivatives.  They must be linear
in those derivatives, element by element; the weights are read off and put into the order conditions."""
from fractions import Fraction as F
import alg
from alg import V
from c04 import fin
import ode

TOL = 1e-11


def trees(b, A, c):
    """elementary weights by order, each with the value it must have"""
    n = len(b); R = range(n)
    Ac = [sum(A[i][j] * c[j] for j in R) for i in R]
    Ac2 = [sum(A[i][j] * c[j] ** 2 for j in R) for i in R]
    Ac3 = [sum(A[i][j] * c[j] ** 3 for j in R) for i in R]
    AAc = [sum(A[i][j] * Ac[j] for j in R) for i in R]
    AAc2 = [sum(A[i][j] * Ac2[j] for j in R) for i in R]
    AcAc = [sum(A[i][j] * c[j] * Ac[j] for j in R) for i in R]
    AAAc = [sum(A[i][j] * AAc[j] for j in R) for i in R]
    s = lambda f: sum(b[i] * f(i) for i in R)
    return [
        (1, 'sum b', s(lambda i: 1), F(1)),
        (2, 'sum b c', s(lambda i: c[i]), F(1, 2)),
        (3, 'sum b c^2', s(lambda i: c[i] ** 2), F(1, 3)),
        (3, 'sum b A c', s(lambda i: Ac[i]), F(1, 6)),
        (4, 'sum b c^3', s(lambda i: c[i] ** 3), F(1, 4)),
        (4, 'sum b c A c', s(lambda i: c[i] * Ac[i]), F(1, 8)),
        (4, 'sum b A c^2', s(lambda i: Ac2[i]), F(1, 12)),
        (4, 'sum b A A c', s(lambda i: AAc[i]), F(1, 24)),
        (5, 'sum b c^4', s(lambda i: c[i] ** 4), F(1, 5)),
        (5, 'sum b c^2 A c', s(lambda i: c[i] ** 2 * Ac[i]), F(1, 10)),
        (5, 'sum b (A c)^2', s(lambda i: Ac[i] ** 2), F(1, 20)),
        (5, 'sum b c A c^2', s(lambda i: c[i] * Ac2[i]), F(1, 15)),
        (5, 'sum b A c^3', s(lambda i: Ac3[i]), F(1, 20)),
        (5, 'sum b c A A c', s(lambda i: c[i] * AAc[i]), F(1, 30)),
        (5, 'sum b A c A c', s(lambda i: AcAc[i]), F(1, 40)),
        (5, 'sum b A A c^2', s(lambda i: AAc2[i]), F(1, 60)),
        (5, 'sum b A A A c', s(lambda i: AAAc[i]), F(1, 120)),
    ]


class Lin:
    """formulas of one path, as linear forms in the derivatives"""
    def __init__(self, N, n):
        self.N, self.n = N, n                     # n evaluations; derivative 0 is the one given
        self.names = ['T', 'h'] + ['y%d' % k for k in range(N)] + [self.k(j, c) for j in range(n + 1) for c in range(N)]

    def k(self, j, c): return 'd%d' % c if j == 0 else 'k%d_%d' % (j - 1, c)

    def at(self, e, tag, **kw):
        env = {x: 0 for x in self.names}; env.update(kw)
        return alg.value(e, alg.Point(tag, env))

    def coeffs(self, e, c, y=True):
        """weights of the derivatives of element c, or None: not old solution + step * sum of weights * derivatives"""
        w = [self.at(e, 'w', h=1, **{self.k(j, c): 1}) for j in range(self.n + 1)]
        for t in range(4):
            env = {x: (-2, 2) if x != 'h' else ((0.1, 3), (-3, -0.1), (1e-6, 1e-5), (0.5, 1))[t] for x in self.names}
            p = alg.Point('l%d' % t, env)
            want = (p.get('y%d' % c) if y else 0) + p.get('h') * sum(w[j] * p.get(self.k(j, c)) for j in range(self.n + 1))
            if not abs(alg.value(e, p) - want) <= 1e-11 * (1 + abs(want)): return None
        return [float(x) for x in w]

    def time(self, e):
        c = self.at(e, 'w', h=1)
        for t in range(3):
            p = alg.Point('t%d' % t, {'T': (-5, 5), 'h': ((0.1, 3), (-3, -0.1), (1e-6, 1e-5))[t]})
            if not abs(alg.value(e, p) - p.get('T') - c * p.get('h')) <= 1e-11: return None
        return float(c)


REGIONS = [('generic', {}), ('backward', {'h': (-2, -1)}), ('tiny', {'h': (1e-9, 1e-8)}), ('negative', {'T': (-3, -2), 'y0': (-9, -8), 'd0': (-5, -4)}), ('large', {'y0': (1e8, 1e9), 'd1': (1e8, 1e9), 'T': (1e3, 1e4)}), ('still', {'d0': 0, 'd1': 0, 'd2': 0, 'y0': 0})]


def follow(ctx, m, N, tag, env):
    fs = m.find(r'(^|[ *&])w_method_%d\(' % N)
    cls = type('Ode%d' % N, (ode.Ode,), {'N': N})
    A = lambda nm, k: ode.Ode.addr(None, ('t', nm), 8 * k)
    mem = {}
    for nm in 'yd':
        for k in range(N): mem[A(nm, k)] = ('e', V('%s%d' % (nm, k)))
    o = cls(m, fs[0], [('e', V('T')), ('e', V('h')), ('t', 'y'), ('t', 'd'), ('t', 'o')], mem, point=alg.Point(tag, env))
    return fs[0], o, A


def where(m, N, short='InnerStep'):
    for f in m.find(r'(^|[ *&])RKDP45<%du>::%s\(' % (N, short)): return f
    return None


def one(ctx, m, N, tag, env):
    key = 'RKDP45<%d>.%s' % (N, tag)
    w, o, A = follow(ctx, m, N, tag, env)
    f = where(m, N) or w
    if o.unk or len(o.out) != 1:
        if not o.unk and not o.out and o.excs: fin(ctx, key, 'RKDP45::InnerStep', f, [(f.loc(), 'does not return')], []); return
        fin(ctx, key, 'RKDP45::InnerStep', f, [], list(o.unk) or ['%d paths' % len(o.out)]); return
    st, I, v, mem = o.out[0]
    evs = [e for e in st[1] if e[0] == 'ode_rhs']
    n = len(evs); L = Lin(N, n); probs = []; und = []
    def P(loc, t): probs.append((loc, t))
    rows = [[[0.0] * (n + 1)] for c in range(N)]
    cs = [0.0]
    for i, (_, t, y, loc) in enumerate(evs):
        c = L.time(t)
        if c is None: P(f.loc(), 'evaluation %d of the equation is at a time that is not the old time plus a multiple of the step' % (i + 2)); c = 0.0
        cs.append(c)
        for k in range(N):
            r = L.coeffs(y[k], k)
            if r is None: P(f.loc(), 'evaluation %d of the equation is at a point that is not the old solution plus the step times a combination of derivatives (element %d)' % (i + 2, k)); r = [0.0] * (n + 1)
            rows[k].append(r)
    outs = {}
    for s, nm in enumerate(('returned', 'yout', 'yerr', 'dydxout', 'y', 'dydx')):
        outs[nm] = []
        for k in range(N):
            x = o.num(o.read(mem, A('o', s * N + k), 'double'))
            if x is None: und.append('%s is not known' % nm)
            outs[nm].append(x)
    if und: fin(ctx, key, 'RKDP45::InnerStep', f, [], und); return
    if probs: fin(ctx, key, 'RKDP45::InnerStep', f, probs, []); return
    eq = lambda a, b: alg.equal(a, b)[0] == 'yes'
    for k in range(N):
        Arr, c = rows[k], cs
        for i in range(n + 1):
            if abs(sum(Arr[i]) - c[i]) > TOL: P(f.loc(), 'evaluation %d is at old time + %.12g step, but its weights sum to %.12g' % (i + 1, c[i], sum(Arr[i])))
            if any(abs(Arr[i][j]) > 0 for j in range(i, n + 1)): P(f.loc(), 'evaluation %d uses a derivative not yet evaluated' % (i + 1))
        b = L.coeffs(outs['yout'][k], k)
        if b is None: P(f.loc(), 'the new solution is not the old one plus the step times a combination of derivatives (element %d)' % k); continue
        cc = [sum(x) for x in Arr]
        for q, nm, have, want in trees(b, Arr, cc):
            if not abs(have - want) <= TOL: P(f.loc(), 'condition of order %d violated: %s = %.12g, not %s' % (q, nm, have, want)); break
        e = L.coeffs(outs['yerr'][k], k, y=False)
        if e is None: P(f.loc(), 'the error estimate is not the step times a combination of derivatives (element %d)' % k); continue
        tr = trees(e, Arr, cc)
        for q, nm, have, want in tr:
            if q <= 4 and not abs(have) <= TOL: P(f.loc(), 'the error estimate is not a difference to a method of order 4: %s = %.12g, not 0' % (nm.replace('b', 'e'), have)); break
        # the estimate of the published pair, up to its sign: sum e c^4 = 71/270000
        lead = next(have for q, nm, have, want in tr if nm == 'sum b c^4')
        if not abs(abs(lead) - 71 / 270000.) <= 1e-10: P(f.loc(), 'the error estimate is not that of the Dormand-Prince pair: sum e c^4 = %.12g, not 71/270000' % lead)
        if not eq(outs['returned'][k], outs['yout'][k]): P(f.loc(), 'what is returned is not the new solution (element %d)' % k)
        if not any(eq(outs['dydxout'][k], V('k%d_%d' % (i, k))) and abs(cs[i + 1] - 1) <= TOL and max(abs(p - q) for p, q in zip(Arr[i + 1], b)) <= TOL for i in range(n)): P(f.loc(), 'the new derivative is not the equation at the new time and solution (element %d)' % k)
        if not eq(outs['y'][k], V('y%d' % k)) or not eq(outs['dydx'][k], V('d%d' % k)): P(f.loc(), 'changes its arguments')
    fin(ctx, key, 'RKDP45::InnerStep', f, probs, [])


def run(ctx):
    ctx.rule('one step followed on an unknown equation, for 1-3 dimensions: stage times and points, new solution and error estimate as linear forms in the unknown derivatives; row sums, the 17 conditions to order 5, the 8 conditions to order 4 of the estimate, first-same-as-last')
    m = ode.module(ctx)
    if ode.missing(ctx, m, 'method'): return
    n = 0
    for N in (1, 2, 3):
        for tag, env in REGIONS:
            n += 1; one(ctx, m, N, tag, env)
    ctx.need('steps of the method followed', n, 3)
