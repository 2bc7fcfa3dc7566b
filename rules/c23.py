"""C23: only accepted steps advance the integrator.

The controller is followed around a method that is an unknown function, on histories of its error estimate (accepted, rejected, not a
number, zero): every call of the method must start from what was last accepted, every accepted step must be stored as computed."""
import alg
from alg import V, C, add
from c04 import fin
import ode

TOL = 0.0009765625            # 2^-10
# name -> (steps, error of each call of the method relative to the tolerance; None: not a number)
HIST = {
    'accepted': (3, [0.5, 0.9, 0.3]),
    'exact': (3, [0.0, 0.0, 0.5]),
    'tiny': (2, [1e-12, 1e-9]),
    'border': (2, [0.999, 1.001, 0.999]),
    'rejected': (3, [2.0, 1e-9, 1e-9, 1e-9]),
    'rejected.exact': (3, [3.0, 0.0, 0.0, 0.5]),
    'rejected.later': (4, [0.5, 3.0, 1e-9, 1e-9, 40.0, 7.0, 0.9]),
    'rejected.often': (2, [1e3, 1e6, 50.0, 1.5, 0.2, 0.2]),
    'nan': (3, [None, 1e-9, 1e-9, 1e-9]),
    'nan.later': (3, [0.5, None, None, 2.0, 1e-9, 0.1]),
    'rejected.nan': (2, [2.0, None, 0.5, 0.5]),
    'one-element': (2, [('one', 30.0), 0.5, ('one', 0.2)]),
}
NEVER = {'never.nan': (2, [0.5, None]), 'never': (2, [0.5, 1e6])}     # the last error is repeated for ever


def point(N, errs, ys):
    """values of the unknowns: solutions about 1, errors as asked for"""
    env = {}
    for k in range(N): env['y%d' % k] = ys
    class P(alg.Point):
        def get(self, n):
            if isinstance(n, str) and '_' in n:
                c, k = n[1:].split('_'); c = int(c); k = int(k)
                if n[0] == 'y': return alg.mp.mpf(ys) * (1 + alg.mp.mpf(k + 1) / 64)
                if n[0] == 'e':
                    r = errs[min(c, len(errs) - 1)]
                    if isinstance(r, tuple): r = r[1] if k == N - 1 else 0
                    sk = TOL * (1 + abs(ys) * (1 + alg.mp.mpf(k + 1) / 64))
                    return (r or 0) * sk * (-1 if k & 1 else 1)
            return alg.Point.get(self, n)
    return P('c', env)


def control(ctx, m, N, errs, n, lims, dense, ys):
    f = m.find(r'(^|[ *&])w_control_%d\(' % N)[0]
    cls = type('Ctl%d' % N, (ode.Ode,), {'N': N, 'isnan': lambda self, k: errs[min(k, len(errs) - 1)] is None})
    A = lambda nm, k: ode.Ode.addr(None, ('t', nm), 8 * k)
    mem = {A('y', k): ('e', V('y%d' % k)) for k in range(N)}
    lo, hi = lims or (0, 0)
    o = cls(m, f, [('e', C(TOL)), ('e', C(lo)), ('e', C(hi)), ('i', 1 if lims else 0), ('i', dense), ('t', 'y'), ('i', n), ('t', 'o'), ('t', 'k')], mem, point=point(N, errs, ys))
    return f, o, A


def where(m, N, cls, short):
    for f in m.find(r'(^|[ *&])%s<%du>::%s\(' % (cls, N, short)): return f


def val(o, e): return o.value(e)
def near(a, b): return a is not None and b is not None and abs(a - b) <= 1e-12 * (abs(a) + abs(b))


def history(ctx, m, N, name, n, errs, lims, dense, ys):
    key = 'RungeKutta<%d>.%s.%s%s%s' % (N, name, 'limits' if lims else 'default', '' if dense else '.plain', '' if ys > 0 else '.negative')
    w, o, A = control(ctx, m, N, errs, n, lims, dense, ys)
    f = where(m, N, 'RungeKutta', 'Step') or w; nm = 'RungeKutta'
    probs = []
    def P(t): probs.append((f.loc(), t))
    if o.unk: fin(ctx, key, nm, f, [], list(o.unk)); return
    for b in o.bad: P('%s' % (b,))
    if len(o.out) != 1:
        if o.excs and not o.out: P('gives up although the step is accepted')
        if not probs: fin(ctx, key, nm, f, [], ['%d paths' % len(o.out)]); return
        fin(ctx, key, nm, f, probs, []); return
    st, I, v, mem = o.out[0]
    check_calls(o, st[1], errs, N, lims or (0.2, 10), P, n)
    calls = [e for e in st[1] if e[0] == 'ode_inner']
    acc = [i for i, r in enumerate(errs) if accepted(r, N)]
    if len(calls) != len(errs): P('the method is called %d times for %d steps, not %d' % (len(calls), n, len(errs)))
    if probs: fin(ctx, key, nm, f, probs, []); return
    rd = lambda k: o.num(o.read(mem, A('o', k), 'double'))
    k = o.read(mem, ('t', 'k'), 'i32')
    if k is None or k[0] != 'i': fin(ctx, key, nm, f, [], ['number of steps not known']); return
    if k[1] != n + 1: P('%d solutions stored after %d steps' % (k[1], n))
    j = 2
    T = alg.ZERO
    und = []
    for i in range(n + 1):
        ci = acc[i - 1] if i else None
        if i: T = add(calls[ci][1], calls[ci][2])
        t = rd(j); j += 1
        if t is None: und.append('stored time not known'); break
        if not near(val(o, t), val(o, T)) and val(o, T) != val(o, t): P('the time stored for step %d is not the previous time plus the step used' % i)
        for s, first in (('y', 'y%d'), ('d', 'k0_%d')):
            for c in range(N):
                x = rd(j); j += 1
                want = V('%s%d_%d' % (s, ci, c)) if i else V(first % c)
                if x is None: und.append('stored value not known')
                elif alg.equal(x, want)[0] != 'yes': P('the %s stored for step %d is not the one computed with the accepted step (element %d)' % ('solution' if s == 'y' else 'derivative', i, c))
    for c in range(N):
        for s in 'yd':
            x = rd(j); j += 1
            if x is None: und.append('last value not known')
            elif alg.equal(x, V('%s%d_%d' % (s, acc[n - 1], c)))[0] != 'yes': P('the last %s is not the one of the last step' % ('solution' if s == 'y' else 'derivative'))
    for q in (0, 1):
        t = rd(q)
        if t is None: und.append('last time not known')
        elif not near(val(o, t), val(o, T)): P('the time %s is not that of the last step' % ('returned' if q == 0 else 'reported'))
    ds = [e for e in st[1] if e[0] == 'ode_dense']
    if len(ds) != (n if dense else 0): P('dense output is prepared %d times in %d steps' % (len(ds), n))
    else:
        for i, e in enumerate(ds):
            ci = acc[i]; pi = acc[i - 1] if i else None
            want = [[V('y%d_%d' % (pi, c)) if i else V('y%d' % c) for c in range(N)], [V('y%d_%d' % (ci, c)) for c in range(N)], [V('d%d_%d' % (pi, c)) if i else V('k0_%d' % c) for c in range(N)], [V('d%d_%d' % (ci, c)) for c in range(N)]]
            if not near(val(o, e[1]), val(o, calls[ci][2])): P('dense output of step %d is prepared with another step size' % (i + 1))
            if any(x is None or alg.equal(x, y)[0] != 'yes' for a, b in zip(e[2], want) for x, y in zip(a or [None], b)): P('dense output of step %d is prepared from other values than those of the step' % (i + 1))
    ini = [e for e in st[1] if e[0] == 'ode_rhs']
    if not ini or val(o, ini[0][1]) != 0 or any(alg.equal(x, V('y%d' % c))[0] != 'yes' for c, x in enumerate(ini[0][2])): P('the initial derivative is not the equation at the initial value')
    fin(ctx, key, nm, f, probs, und)


def accepted(r, N):
    if r is None: return False
    if isinstance(r, tuple): return r[1] <= 1
    return r <= 1


def check_calls(o, evs, errs, N, lims, P, n):
    calls = [e for e in evs if e[0] == 'ode_inner']
    lo, hi = lims
    y = [V('y%d' % c) for c in range(N)]; d = [V('k0_%d' % c) for c in range(N)]; T = alg.ZERO
    prev = None
    for i, (_, t, h, yy, dd, loc) in enumerate(calls):
        if not near(val(o, t), val(o, T)) and val(o, t) != val(o, T): P('call %d of the method starts at a time other than that of the last accepted step' % (i + 1)); return
        if any(alg.equal(a, b)[0] != 'yes' for a, b in zip(yy, y)): P('call %d of the method starts from a solution other than the last accepted one' % (i + 1)); return
        if any(alg.equal(a, b)[0] != 'yes' for a, b in zip(dd, d)): P('call %d of the method starts from a derivative other than the last accepted one' % (i + 1)); return
        H = val(o, h)
        if H is None or not H > 0: P('step %s used' % H); return
        if prev is not None:
            r = H / prev; e = errs[min(i - 1, len(errs) - 1)]; ok = accepted(e, N)
            after = i > 1 and not accepted(errs[min(i - 2, len(errs) - 1)], N)
            if not ok:
                if not r < 1: P('the step is not smaller after a rejected one')
                elif e is not None and r < lo * (1 - 1e-9): P('the step is reduced by more than the limit')
            else:
                if r > hi * (1 + 1e-9): P('the step is enlarged by more than the limit')
                if r < lo * (1 - 1e-9): P('the step is reduced by more than the limit')
                if not after and not isinstance(e, tuple) and e <= 1e-6 and not r > 1: P('the step is not enlarged again although the error is far below the tolerance')
                if after and r > 1 + 1e-12: P('the step is enlarged right after a rejected one')
        prev = H
        if accepted(errs[min(i, len(errs) - 1)], N):
            T = add(t, h); y = [V('y%d_%d' % (i, c)) for c in range(N)]; d = [V('d%d_%d' % (i, c)) for c in range(N)]


def never(ctx, m, N, name, n, errs):
    key = 'RungeKutta<%d>.%s' % (N, name)
    w, o, A = control(ctx, m, N, errs, n, None, 1, 1.0)
    f = where(m, N, 'RungeKutta', 'Step') or w; probs = []
    if o.unk: fin(ctx, key, 'RungeKutta', f, [], list(o.unk)); return
    for b in o.bad: probs.append((f.loc(), b))
    for st, I, v, mem in o.out: probs.append((f.loc(), 'returns although no step is accepted'))
    if not probs and not o.excs: fin(ctx, key, 'RungeKutta', f, [], ['no end found']); return
    fin(ctx, key, 'RungeKutta', f, probs, [])


def run(ctx):
    ctx.rule('the step controller followed around an unknown method on histories of accepted, rejected, undefined and vanishing error estimates, for 1-3 dimensions: each call starts from the last accepted step, the step factor stays within its limits, what is stored is what the accepted call computed, an unreachable tolerance ends in an exception')
    m = ode.module(ctx)
    if ode.missing(ctx, m, 'control'): return
    k = 0
    for N in (1, 2, 3):
        for name, (n, errs) in HIST.items():
            for lims in (None, (0.5, 2)):
                for dense, ys in ((1, 1.0), (0, 1.0), (1, -2.0)):
                    if (N != 2 or lims) and (dense, ys) != (1, 1.0): continue
                    k += 1; history(ctx, m, N, name, n, errs, lims, dense, ys)
        for name, (n, errs) in NEVER.items(): k += 1; never(ctx, m, N, name, n, errs)
    ctx.need('histories followed', k, 10)
