"""C24: dense output interpolates inside the stored interval only.

The integrator is followed on an unknown equation through a few steps and asked for a time in, at the ends of, or outside the stored
steps: what it returns is a formula in that time, the stored solutions and the unknown derivatives, to be that of the step containing
the time."""
import alg
from alg import V, C
from c04 import fin
from c22 import trees
import ode

TOL = 0.0009765625
GEN = [{'y': (0.5, 1.5)}, {'y': (-2, -1)}]


def follow(m, N, steps, ats, dense=1, n=None):
    f = m.find(r'(^|[ *&])w_dense_%d\(' % N)[0]
    cls = type('Den%d' % N, (ode.Ode,), {'N': N, 'reads': []})
    A = lambda nm, k: ode.Ode.addr(None, ('t', nm), 8 * k)
    mem = {A('y', k): ('e', V('y%d' % k)) for k in range(N)}
    for k in range(len(ats)): mem[A('at', k)] = ('e', V('at%d' % k))
    class P(alg.Point):                      # the equation is constant where branches are decided: every step is accepted
        def get(self, x):
            if isinstance(x, str):
                if x.startswith('at'): return alg.mp.mpf(ats[int(x[2:])])
                if x[0] == 'k' and '_' in x: return alg.mp.mpf(0.25)
                if x[0] == 'y': return alg.mp.mpf(1)
            return alg.Point.get(self, x)
    o = cls(m, f, [('e', C(TOL)), ('i', dense), ('t', 'y'), ('i', steps), ('i', len(ats) if n is None else n), ('t', 'at'), ('t', 'out'), ('t', 'o')], mem, point=P('d', {}))
    return f, o, A


def where(m, N, short='OutputDense'):
    for f in m.find(r'(^|[ *&])RKDP45<%du>::%s\(unsigned int, double\*, double\*\)' % (N, short)): return f


class Stored:
    def __init__(self, o, mem, A, N, steps):
        rd = lambda k: o.num(o.read(mem, A('o', k), 'double'))
        self.t, self.y, self.d = [], [], []; k = 0
        for i in range(steps + 1):
            self.t.append(rd(k)); self.y.append([rd(k + 1 + c) for c in range(N)]); self.d.append([rd(k + 1 + N + c) for c in range(N)]); k += 1 + 2 * N
        self.known = None not in self.t and not any(x is None for r in self.y + self.d for x in r)


def times(m, N, steps):
    """the stored times where branches are decided"""
    f, o, A = follow(m, N, steps, [0.5])
    if len(o.out) != 1: return None, list(o.unk) or ['%d paths' % len(o.out)]
    s = Stored(o, o.out[0][3], A, N, steps)
    if not s.known: return None, ['stored solution not known']
    return [float(o.value(t)) for t in s.t], []


def poly(e, x, p, lo, hi):
    """value of e and of its derivative along x at lo and hi (degree at most 4 checked at a sixth point)"""
    mp = alg.mp; xs = [lo + (hi - lo) * mp.mpf(j) / 5 for j in range(6)]
    class Q(alg.Point):
        def get(self, n): return self.x if n == x else p.get(n)
    vs = []
    for v in xs:
        q = Q('q', {}); q.x = v; vs.append(alg.value(e, q))
    def lag(t, n, der):
        r = mp.mpf(0)
        for j in range(n):
            if not der:
                w = mp.mpf(1)
                for i in range(n):
                    if i != j: w *= (t - xs[i]) / (xs[j] - xs[i])
            else:
                w = mp.mpf(0)
                for l in range(n):
                    if l == j: continue
                    z = mp.mpf(1) / (xs[j] - xs[l])
                    for i in range(n):
                        if i not in (j, l): z *= (t - xs[i]) / (xs[j] - xs[i])
                    w += z
            r += w * vs[j]
        return r
    return vs[0], vs[5], lag(lo, 6, True), lag(hi, 6, True)


def inside(ctx, m, N, steps, name, ats, ivs):
    """each time ats[j] lies in step ivs[j] (alternatives: a time on a border belongs to either)"""
    key = 'RKDP45<%d>.%s' % (N, name)
    w, o, A = follow(m, N, steps, ats); f = where(m, N) or w; probs, und = [], []
    def P(t): probs.append((f.loc(), t))
    if o.unk: fin(ctx, key, 'RKDP45::OutputDense', f, [(f.loc(), x) for x in o.reads[:1]], list(o.unk)); return
    for b in o.bad: P(b)
    if len(o.out) != 1:
        if o.excs and not o.out: P('refuses a time inside the stored steps')
        fin(ctx, key, 'RKDP45::OutputDense', f, probs, ['%d paths' % len(o.out)]); return
    st, I, v, mem = o.out[0]; s = Stored(o, mem, A, N, steps)
    if not s.known: fin(ctx, key, 'RKDP45::OutputDense', f, probs, ['stored solution not known']); return
    mp = alg.mp
    for j in range(len(ats)):
        e = [o.num(o.read(mem, A('out', j * N + c), 'double')) for c in range(N)]
        if None in e: und.append('result %d not known' % j); continue
        at = 'at%d' % j
        for c in range(N):
            good = []
            for i in ivs[j]:
                bad = None
                for t in range(2):
                    p = alg.Point('g%d' % t, {})
                    lo, hi = alg.value(s.t[i], p), alg.value(s.t[i + 1], p)
                    a, b, da, db = poly(e[c], at, p, lo, hi)
                    tol = lambda x: 1e-9 * (1 + abs(x))
                    for have, want, what in ((a, s.y[i][c], 'the stored solution at the start'), (b, s.y[i + 1][c], 'the stored solution at the end'), (da, s.d[i][c], 'the stored derivative at the start'), (db, s.d[i + 1][c], 'the stored derivative at the end')):
                        x = alg.value(want, p)
                        if not abs(have - x) <= tol(x) * 100: bad = what; break
                    if bad: break
                good.append(bad)
            if None not in good: P('the value for a time in step %d does not reproduce %s of that step (element %d)' % (ivs[j][0] + 1, good[0], c))
    fin(ctx, key, 'RKDP45::OutputDense', f, probs, und)


def order(ctx, m, N, T):
    """inside a step the interpolant is a Runge-Kutta method of order 4 for the intermediate time"""
    key = 'RKDP45<%d>.order' % N
    w, o, A = follow(m, N, 1, [0.5 * T[1]]); f = where(m, N) or w; probs = []
    if o.unk or len(o.out) != 1: fin(ctx, key, 'RKDP45::OutputDense', f, [], list(o.unk) or ['%d paths' % len(o.out)]); return
    st, I, v, mem = o.out[0]
    evs = [e for e in st[1] if e[0] == 'ode_rhs']; n = len(evs); h = T[1]
    names = ['y%d' % c for c in range(N)] + ['k%d_%d' % (i, c) for i in range(n) for c in range(N)]
    def weights(e, c, at=0):
        r = []
        for j in range(n):
            env = dict.fromkeys(names, 0); env['k%d_%d' % (j, c)] = 1; env['at0'] = at
            r.append(float(alg.value(e, alg.Point('w', env))) / h)
        return r
    for c in range(N):
        e = o.num(o.read(mem, A('out', c), 'double'))
        if e is None: fin(ctx, key, 'RKDP45::OutputDense', f, [], ['result not known']); return
        rows = [weights(ev[2][c], c) for ev in evs]; cs = [sum(r) for r in rows]
        for th in (0.25, 0.5, 0.8125):
            for q, nm, have, want in trees(weights(e, c, th * h), rows, cs):
                if q <= 4 and not abs(have - float(want) * th ** q) <= 1e-12: probs.append((f.loc(), 'inside a step the solution is not of order 4: at %g of the step %s = %.12g, not %.12g' % (th, nm.replace('b', 'b(s)'), have, float(want) * th ** q))); break
            else: continue
            break
    fin(ctx, key, 'RKDP45::OutputDense', f, probs, [])


def refused(ctx, m, N, steps, name, ats, dense=1):
    key = 'RKDP45<%d>.%s' % (N, name)
    w, o, A = follow(m, N, steps, ats, dense); f = where(m, N) or w; probs = []
    if o.unk:
        fin(ctx, key, 'RKDP45::OutputDense', f, [(f.loc(), x) for x in o.reads[:1]], list(o.unk)); return
    if o.out: probs.append((f.loc(), 'does not refuse a request outside the stored steps (%s)' % name))
    fin(ctx, key, 'RKDP45::OutputDense', f, probs, [] if o.excs else ['no end found'])


def uniform(ctx, m, N, T):
    for n in (2, 3, 5):
        key = 'Integrator<%d>.uniform%d' % (N, n)
        f = m.find(r'(^|[ *&])w_range_%d\(' % N)[0]
        cls = type('Den%d' % N, (ode.Ode,), {'N': N})
        A = lambda nm, k: ode.Ode.addr(None, ('t', nm), 8 * k)
        lo, hi = 0.25 * T[1], T[2] * 0.75
        pt = {'lo': lo, 'hi': hi}
        class P(alg.Point):
            def get(self, x):
                if x in pt: return alg.mp.mpf(pt[x])
                return alg.mp.mpf(1 if x[0] == 'y' else 0.25)
        o = cls(m, f, [('e', C(TOL)), ('t', 'y'), ('i', 2), ('i', n), ('e', V('lo')), ('e', V('hi')), ('t', 'out'), ('t', 'at')], {A('y', k): ('e', V('y%d' % k)) for k in range(N)}, point=P('u', {}))
        g = where(m, N) or f; probs = []; und = list(o.unk)
        if not und and len(o.out) != 1: und = ['%d paths' % len(o.out)]
        if not und:
            mem = o.out[0][3]
            for j in range(n):
                x = o.num(o.read(mem, A('at', j), 'double'))
                if x is None: und.append('time %d not known' % j); continue
                want = lo + (hi - lo) * j / (n - 1.0); have = float(o.value(x))
                if abs(have - want) > 1e-9 * (1 + abs(want)): probs.append((g.loc(), 'the requested times are not uniform from the first to the last (%d of %d)' % (j + 1, n)))
                y = [o.num(o.read(mem, A('out', j * N + c), 'double')) for c in range(N)]
                if None in y: probs.append((g.loc(), 'no value for time %d of %d' % (j + 1, n)))
                elif any(abs(float(o.value(q)) - (1 + 0.25 * want)) > 1e-6 * (1 + abs(want)) for q in y): probs.append((g.loc(), 'the value for time %d of %d is not the solution there' % (j + 1, n)))
        fin(ctx, key, 'Integrator::OutputDense', g, probs, und)


def run(ctx):
    ctx.rule('dense output followed on an unknown equation: in each stored step the returned formula reproduces both stored solutions and derivatives and is of order 4 between them; times outside, before the first step or without dense output are refused; in any order of the times')
    m = ode.module(ctx)
    if ode.missing(ctx, m, 'dense'): return
    k = 0
    for N in (1, 2, 3):
        T, und = times(m, N, 3)
        f = where(m, N)
        if T is None: fin(ctx, 'RKDP45<%d>' % N, 'RKDP45', f, [], und); continue
        if not all(a < b for a, b in zip(T, T[1:])): fin(ctx, 'RKDP45<%d>' % N, 'RKDP45', f, [], ['stored times %s' % T]); continue
        mid = lambda i, s=0.5: T[i] + s * (T[i + 1] - T[i])
        order(ctx, m, N, T); k += 1
        for name, ats, ivs in (
                ('first', [mid(0)], [(0,)]), ('second', [mid(1, 0.1)], [(1,)]), ('last', [mid(2, 0.95)], [(2,)]),
                ('start', [T[0]], [(0,)]), ('end', [T[3]], [(2,)]), ('border', [T[1], T[2]], [(0, 1), (1, 2)]),
                ('near.start', [mid(0, 1e-6)], [(0,)]), ('near.border', [mid(1, 1e-6), mid(1, 1 - 1e-6)], [(1,), (1,)]),
                ('increasing', [mid(0), mid(0, 0.9), mid(2)], [(0,), (0,), (2,)]), ('decreasing', [mid(2), mid(1), mid(0)], [(2,), (1,), (0,)]),
                ('ends', [T[3], T[0]], [(2,), (0,)]), ('single', None, None)):
            if N != 2 and name in ('near.start', 'near.border', 'ends') or N == 3 and name in ('second', 'start', 'increasing'): continue
            k += 1
            if ats is None: inside(ctx, m, N, 1, name, [mid(0)], [(0,)])
            else: inside(ctx, m, N, 3, name, ats, ivs)
        for name, steps, ats, dense in (('after', 3, [T[3] * 1.01], 1), ('far.after', 3, [T[3] * 1e3], 1), ('after.single', 1, [T[1] * 1.5], 1), ('after.inside', 3, [mid(1), T[3] * 1.01], 1),
                ('before', 3, [T[0] - 0.01 * T[1]], 1), ('far.before', 3, [-1e6], 1), ('inside.before', 3, [mid(1), T[0] - 0.5], 1),
                ('no.step', 0, [0.0], 1), ('off', 2, [mid(0)], 0)):
            k += 1; refused(ctx, m, N, steps, name, ats, dense)
        uniform(ctx, m, N, T); k += 3
    if not ctx.und: ctx.need("requests followed", k, 10)
