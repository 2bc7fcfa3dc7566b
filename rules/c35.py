"""C35: the domain test reports exactly the segments that meet the boundary."""
import re
from math import isqrt
from fractions import Fraction as Q
import alg
from alg import C, V, add, sub, mul, div, neg, sq, sqrt, equal
from small import Small, UNK, ALGO
from px import Limit
from c04 import fin
from c20 import adr, uniq

CLS = 'MagneticField2D'


class Cross(Small):
    def __init__(self, m, f, n, point, axis=None):
        self.m, self.npts, self.tests = m, n, []; self.memo = {}
        o = {k: m.field_off(CLS, k) for k in ('ndomain', 'rdomain', 'zdomain', 'magnetic_axis')}
        self.o = o
        Small.__init__(self, f, point)

    def arg(self, k):
        k -= max(self.fn.this, 0)
        if k == 0: return ('arg', 0)
        names = ('x1', 'y1', 'z1', 'x2', 'y2', 'z2')
        d = len([a for a in self.fn.dem.split('(')[-1].split(',')])
        if '*' in self.fn.dem.split('(')[-1]:
            return ('t', ('q1', 'q2')[k - 1] if d == 2 else 'q2')
        return ('e', V(names[k - 1] if d == 6 else names[k + 2]))

    def initial(self, a, ty):
        b, o = self.split_ptr(a)
        if b == ('arg', 0):
            if o == self.o['ndomain']: return ('i', self.npts)
            if o == self.o['rdomain']: return ('t', 'R')
            if o == self.o['zdomain']: return ('t', 'Z')
            if o == self.o['magnetic_axis']: return ('e', V('x1'))
            if o == self.o['magnetic_axis'] + 8: return ('e', V('z1'))
        if b[0] == 't' and b[1] in ('R', 'Z') and o % 8 == 0:
            k = o // 8
            if 0 <= k < self.npts: return ('e', V('%s%d' % (b[1], k)))
            self.bad.append('boundary point %d of %d is read' % (k, self.npts))
        if b[0] == 't' and b[1] in ('q1', 'q2') and o in (0, 8, 16): return ('e', V('xyz'[o // 8] + b[1][1]))
        return None

    def value(self, e):
        try: return rational(e, self.point.env, self.memo)
        except (ValueError, KeyError, ZeroDivisionError): return Small.value(self, e)

    def pure(self, I, env, st, exc):
        r = Small.pure(self, I, env, st, exc)
        if I.op == 'fcmp':
            a, b = self.num(self.val(env, I.ops[0])), self.num(self.val(env, I.ops[1]))
            if a is not None and b is not None: self.tests.append((sub(a, b), I))
        return r


def rational(e, env, memo):
    if e in memo: return memo[e]
    k = e[0]
    if k == 'c': r = e[1]
    elif k == 'v': r = Q(env[e[1]])
    elif k == '+': r = rational(e[1], env, memo) + rational(e[2], env, memo)
    elif k == '*': r = rational(e[1], env, memo) * rational(e[2], env, memo)
    elif k == '/': r = rational(e[1], env, memo) / rational(e[2], env, memo)
    elif k == 'neg': r = -rational(e[1], env, memo)
    elif k == 'fn' and e[1] == 'sqrt':
        x = rational(e[2][0], env, memo)
        if x < 0: raise ValueError
        r = Q(isqrt(x.numerator), isqrt(x.denominator))
        if r * r != x: raise ValueError
    else: raise ValueError
    memo[e] = r
    return r


def meets(P, A, B):
    """does the segment P have a point in common with the edge A-B; None if parallel and on one line"""
    (x0, y0), (x1, y1) = P
    dx, dy, ex, ey = x1 - x0, y1 - y0, B[0] - A[0], B[1] - A[1]
    det = ex * dy - dx * ey
    if det == 0: return None if (A[0] - x0) * dy == (A[1] - y0) * dx else False
    s = ((x0 - A[0]) * dy - (y0 - A[1]) * dx) / Q(det)
    t = ((x0 - A[0]) * ey - (y0 - A[1]) * ex) / Q(det)
    return 0 <= s <= 1 and 0 <= t <= 1


def shapes():
    yield 'an edge', [(10, -4), (10, 4)]
    yield 'a triangle', [(5, -5), (20, -5), (10, 10), (5, -5)]
    yield 'a rectangle', [(5, -10), (25, -10), (25, 10), (5, 10), (5, -10)]
    yield 'an indented shape', [(5, -10), (25, -10), (15, 0), (25, 10), (5, 10), (5, -10)]


def segments(B):
    """(what, start, end): across each edge from both sides, inside and outside, along the directions of the edges, ending and starting on edges and corners"""
    out = []
    n = len(B)
    k = len(B) - 1
    cx, cz = Q(sum(b[0] for b in B[:k]), k), Q(sum(b[1] for b in B[:k]), k)
    if n == 2: cx, cz = Q(5), Q(0)
    elif n == 4: cx, cz = Q(11), Q(1)
    elif n == 6: cx, cz = Q(10), Q(0)
    c = (cx, cz)
    for i in range(n - 1):
        A, D = B[i], B[i + 1]
        for w in (Q(1, 8), Q(3, 8), Q(7, 8)):
            p = (A[0] + (D[0] - A[0]) * w, A[1] + (D[1] - A[1]) * w)
            far = (p[0] + (p[0] - c[0]) / 4, p[1] + (p[1] - c[1]) / 4)
            if far[0] < 0: continue
            near = (c[0] + (p[0] - c[0]) * Q(3, 4), c[1] + (p[1] - c[1]) * Q(3, 4))
            out += [('from the middle across edge %d' % i, c, far), ('from outside across edge %d' % i, far, c), ('across edge %d nearby' % i, near, far), ('up to edge %d but not across' % i, c, near),
                    ('ending on edge %d' % i, c, p), ('starting on edge %d' % i, p, c)]
        w = Q(5, 8); p = (A[0] + (D[0] - A[0]) * w, A[1] + (D[1] - A[1]) * w)
        st = ((p[0] - c[0]) / 65536, (p[1] - c[1]) / 65536)
        out += [('across edge %d in a small step' % i, (p[0] - st[0], p[1] - st[1]), (p[0] + 2 * st[0], p[1] + 2 * st[1])), ('up to edge %d in a small step' % i, (p[0] - 3 * st[0], p[1] - 3 * st[1]), (p[0] - st[0], p[1] - st[1]))]
        par = ((D[0] - A[0]) * Q(1, 16), (D[1] - A[1]) * Q(1, 16))
        out.append(('parallel to edge %d, inside' % i, c, (c[0] + par[0], c[1] + par[1])))
        out.append(('parallel to edge %d, outside' % i, (Q(40), Q(30)), (40 + par[0], 30 + par[1])))
        out.append(('parallel to edge %d, all across' % i, (c[0] - 15 * par[0], c[1] - 15 * par[1]), (c[0] + 30 * par[0], c[1] + 30 * par[1])))
        out.append(('through corner %d' % i, c, (A[0] + (A[0] - c[0]) / 4, A[1] + (A[1] - c[1]) / 4)))
    out += [('inside', (c[0] - 1, c[1] + Q(1, 2)), (c[0] + 1, c[1] - Q(1, 4))), ('beyond', (Q(40), Q(0)), (Q(45), Q(1))), ('above', (Q(10), Q(40)), (Q(12), Q(45))), ('pointing at the boundary from afar', (Q(40), Q(0)), (Q(35), Q(0)))]
    return [s for s in out if s[1][0] > 0 and s[2][0] > 0 and s[1] != s[2]]


def run(ctx):
    ctx.rule('for boundaries of one to five edges, a segment is reported exactly when it has a point in common with some edge (not when it is merely parallel to one); the decision for one edge is made by the signs of the intersection parameters, which holds for every edge and segment')
    m = ctx.module('--inline', ALGO, '--only', r'^MagneticField2D::CrossesDomain')
    o = [m.field_off(CLS, k) for k in ('ndomain', 'rdomain', 'zdomain', 'magnetic_axis')]
    if None in o: ctx.undecided(CLS, 'members not found'); return
    k = 0
    for f in m.method(CLS, 'CrossesDomain'):
        if f.suf: continue
        a = f.dem.split('(')[-1].rstrip(')')
        kind = {'double, double, double, double, double, double': 'points', 'double, double, double': 'point', 'double*': 'point array', 'double*, double*': 'point arrays'}.get(a)
        if kind is None: continue
        k += 1
        for name, B in shapes(): shape(ctx, m, f, kind, name, B)
        if kind == 'points': edge(ctx, m, f)
    ctx.need('domain tests', k, 1)


def tiny(p): return (Q(p[0]) / 1024, Q(p[1]) / 1024)


def shape(ctx, m, f, kind, name, B):
    probs, und = [], []
    n = len(B)
    for what, p, q, B in [(a, b, c, B) for a, b, c in segments(B)] + ([(a + ', all a thousandth of the size', tiny(b), tiny(c), [tiny(x) for x in B]) for a, b, c in segments(B)] if kind == 'points' and n < 6 else []):
        r = [meets((p, q), B[i], B[i + 1]) for i in range(n - 1)]
        if None in r and True not in r: continue                     # runs along an edge
        want = True in r
        for turn in (0, 1):
            # the poloidal plane in which the points lie
            fx, fy = (Q(1), Q(0)) if not turn else (Q(3, 5), Q(4, 5))
            gx, gy = (Q(1), Q(0)) if not turn else (Q(-4, 5), Q(3, 5))
            if kind in ('point', 'point array'): fx, fy = Q(1), Q(0)
            env = {'x1': p[0] * fx, 'y1': p[0] * fy, 'z1': p[1], 'x2': q[0] * gx, 'y2': q[0] * gy, 'z2': q[1]}
            for i, (a, b) in enumerate(B): env['R%d' % i] = a; env['Z%d' % i] = b
            try: w = Cross(m, f, n, Exact('s', env))
            except Limit: und.append('too many states'); continue
            for b in w.bad: probs.append((f.loc(), b))
            und += w.unk
            if not w.out:
                if w.exc: probs.append((w.exc[0][1].loc(), 'exception'))
                elif not w.unk: und.append('no outcome')
                continue
            for st, I, v, mem in w.out:
                if v is None or v[0] != 'i': und.append('result not known'); continue
                if bool(v[1]) != want: probs.append((I.loc(), '%s with a segment %s (%s to %s): %s' % (name, what, pt(p), pt(q), 'reported although it does not meet the boundary' if v[1] else 'not reported although it meets the boundary')))
    fin(ctx, '%s.CrossesDomain.%s.%d' % (CLS, kind.replace(' ', ''), n), CLS + '::CrossesDomain', f, uniq(probs), sorted(set(und))[:3])


def pt(p): return '(%g, %g)' % (float(p[0]), float(p[1]))


class Exact(alg.Point):
    def get(self, n):
        v = self.env.get(n)
        if isinstance(v, (Q, int)): return alg.mp.mpf(Q(v).numerator) / Q(v).denominator
        return alg.Point.get(self, n)


def edge(ctx, m, f):
    """every comparison made for one edge is the sign of an intersection parameter"""
    und = []
    x0, z0, x1, z1 = sqrt(add(sq(V('x1')), sq(V('y1')))), V('z1'), sqrt(add(sq(V('x2')), sq(V('y2')))), V('z2')
    dx, dz, ex, ez = sub(x1, x0), sub(z1, z0), sub(V('R1'), V('R0')), sub(V('Z1'), V('Z0'))
    det = sub(mul(ex, dz), mul(dx, ez))
    sn = sub(mul(sub(x0, V('R0')), dz), mul(sub(z0, V('Z0')), dx))
    tn = sub(mul(sub(x0, V('R0')), ez), mul(sub(z0, V('Z0')), ex))
    quant = []
    for q in (sn, sub(sn, det), tn, sub(tn, det), det):
        for h in (q, div(q, det)): quant += [h, neg(h)]
    quant += [sub(x0, V('R0')), sub(V('R0'), x0), sub(z0, V('Z0')), sub(V('Z0'), z0)]
    seen = set()
    nt = 0
    for env in ({'R0': 10, 'Z0': -4, 'R1': 10, 'Z1': 4, 'x1': 5, 'y1': 0, 'z1': 0, 'x2': 15, 'y2': 0, 'z2': 1}, {'R0': 10, 'Z0': 4, 'R1': 10, 'Z1': -4, 'x1': 5, 'y1': 0, 'z1': 0, 'x2': 15, 'y2': 0, 'z2': 1}):
        try: w = Cross(m, f, 2, Exact('e', env))
        except Limit: und.append('too many states'); continue
        und += w.unk
        for d, I in w.tests:
            if d in seen: continue
            seen.add(d); nt += 1
            if not any(equal(d, q)[0] == 'yes' for q in quant): und.append('%s: the comparison is not one of an intersection parameter' % I.loc())
    if nt == 0 and not und: und.append('no comparison found')
    fin(ctx, CLS + '.CrossesDomain.edge', CLS + '::CrossesDomain', f, [], sorted(set(und))[:3])
