"""Initialisation of tabulated distributions on a finite instance: which table elements reach the interpolation library, and
with which flag."""
import re
import alg
from alg import C, V, fn as fun
from small import Small, KEEPVEC, ALGO, INF, UNK
from px import Limit

MS = 'NumericMomentumSpaceDistributionFunction'
DF = 'NumericDistributionFunction'
KEEP = r'^gsl_|SFile::|SOFTLibException::|DistributionFunction::Eval\(double, double\)|' + KEEPVEC
ONLY = 'NumericDistributionFunction|GOCODE|NumericMomentumSpace|CODEDistributionFunction'


class Init(Small):
    """args: position (after this) -> value; tables: name -> tuple of values; mem0: initial cells"""

    def __init__(self, m, fn, args, tables, point, cells=None, vecs=None):
        self.m = m; self.args = args; self.tables = tables; self.cells = cells or {}; self.vecs = vecs or {}
        self.bad = []; self.unk = []
        Small.__init__(self, fn, point)

    def arg(self, k):
        k -= max(self.fn.this, 0)
        return ('arg', 0) if k == 0 else self.args.get(k)

    def contents(self, A):
        return self.vecs.get(A)

    def initial(self, a, ty):
        if a in self.cells: return self.cells[a]
        b, o = self.split_ptr(a)
        if b[0] == 't' and b[1] in self.tables:
            t = self.tables[b[1]]
            if o % 8 == 0 and 0 <= o // 8 < len(t): return t[o // 8]
            self.bad.append('element %d of table %s (%d elements) is read' % (o // 8, b[1], len(t)))
        if b[0] == 'g' and b[1].startswith('gsl_interp'): return ('t', 'type', b[1])
        return None

    def outside(self, I, k, n): self.bad.append('element %d of a vector of %d is used at %s' % (k, n, I.loc()))
    def row(self, mem, p, n):
        if p is None: return None
        return tuple(self.read(mem, self.addr(p, 8 * k), 'double') for k in range(n))

    def opaque(self, st, I, dem, args, mem):
        n = dem.split('(')[0]
        if n in ('gsl_spline2d_alloc', 'gsl_interp2d_alloc', 'gsl_interp_alloc', 'gsl_spline_alloc'):
            h = ('h', I.id, st[0])
            return [(h, (st[0] + 1, st[1] + (('alloc', h) + tuple(args),)), None, None)]
        if n == 'gsl_interp_accel_alloc': return [(('h', I.id, st[0]), (st[0] + 1, st[1]), None, None)]
        if n == 'gsl_spline2d_init':
            a, b = args[4], args[5]
            if a and b and a[0] == b[0] == 'i' and 0 < a[1] < 50 and 0 < b[1] < 50:
                x, y, z = self.row(mem, args[1], a[1]), self.row(mem, args[2], b[1]), self.row(mem, args[3], a[1] * b[1])
            else: x = y = z = None
            return [(('i', 0), self.event(st, 'init', args[0], x, y, z, I.loc()), None, None)]
        if n == 'gsl_interp_init':
            a = args[3]
            k = a[1] if a and a[0] == 'i' and 0 < a[1] < 50 else 0
            return [(('i', 0), self.event(st, 'init', args[0], self.row(mem, args[1], k), None, self.row(mem, args[2], k), I.loc()), None, None)]
        if n.startswith('gsl_') and n.endswith('_free'): return [(None, self.event(st, 'free', args[0]), None, None)]
        return None


def module(ctx): return ctx.module('--keep', KEEP, '--inline', ALGO, '--only', ONLY)


def table(name, n): return tuple(('e', V('%s%d' % (name, k))) for k in range(n))


def same(a, b):
    """are two values (('e', formula)) the same number"""
    if a is None or b is None or a == UNK or b == UNK: return None
    if a == b: return True
    if a[0] == 'e' and b[0] == 'e':
        if a[1] in INF.values() or b[1] in INF.values(): return a[1] is b[1]
        r = alg.equal(a[1], b[1])
        return {'yes': True, 'no': False}.get(r[0])
    if a[0] != b[0]: return False
    return a == b


def obj(w, mem, m, o):
    """what an initialised momentum-space table interpolates: dict(flag, x, y, z, type, loc)"""
    def f(n, ty='i32'): return w.read(mem, w.addr(o, m.field_off(MS, n)), ty)
    return {'flag': f('logarithmic'), 'spline': f('fspline', 'ptr'), 'interp': f('interptype')}


def interpolated(st, s):
    """last initialisation of an interpolation object, its allocation"""
    i = [e for e in st[1] if e[0] == 'init' and e[1] == s]
    a = [e for e in st[1] if e[0] == 'alloc' and e[1] == s]
    return (i[-1] if i else None), (a[-1] if a else None)


def stored(z, want, point):
    """'plain' | 'log' | 'log twice' | 'other' | None: how the stored elements z relate to the table elements want"""
    if z is None or None in z or len(z) != len(want): return None
    kinds = set()
    for a, w in zip(z, want):
        if same(a, w): kinds.add('plain'); continue
        v = alg.value(w[1], point)
        if same(a, ('e', fun('log', w[1]))) and v >= 0 or v <= 0 and a[1] is INF['-inf']: kinds.add('log'); continue
        if same(a, ('e', fun('log', fun('log', w[1])))): kinds.add('log twice'); continue
        kinds.add('other')
    if 'other' in kinds or len(kinds) > 1: return 'other'
    return kinds.pop()
