"""Limits of the domain on finite instances: boundaries of three to eight points, followed through sequences of calls (set a boundary,
query, set another, query again); values are compared at the point the instance stands for."""
import itertools, re
import alg
from alg import V
from px import Limit
from small import KEEPVEC, ALGO
from deep import Deep
from c04 import fin

CLS = 'MagneticField2D'
OBJ = ('t', 'field')
AX, LEV = 1.0, 0.125
# boundaries around the axis (1, 0.125): name -> points
SHAPES = {
    'triangle': [(0.41, -0.77), (1.93, -0.31), (1.07, 1.13)],
    'triangle turned': [(1.93, -0.31), (1.07, 1.13), (0.41, -0.77)],
    'triangle backwards': [(1.07, 1.13), (1.93, -0.31), (0.41, -0.77)],
    'closed diamond': [(1.83, 0.125), (1.1, 1.2), (0.37, 0.125), (0.9, -0.9), (1.83, 0.125)],
    'open diamond': [(1.1, 1.2), (0.37, 0.125), (0.9, -0.9), (1.83, 0.125)],
    'level edge': [(0.61, -0.7), (1.71, -0.83), (1.59, 0.125), (1.97, 0.125), (1.3, 0.91), (0.29, 0.73)],
    'level edge inside': [(0.61, -0.7), (1.71, -0.83), (1.97, 0.125), (1.59, 0.125), (1.3, 0.91), (0.29, 0.73)],
    'level edge last': [(1.97, 0.125), (1.3, 0.91), (0.29, 0.73), (0.61, -0.7), (1.71, -0.83), (1.59, 0.125)],
    'fingers': [(0.31, -0.5), (0.53, 0.9), (0.67, -0.2), (0.79, 0.97), (1.61, 0.83), (1.71, -0.13), (1.87, 0.71), (1.97, -0.6)],
    'fingers turned': [(1.61, 0.83), (1.71, -0.13), (1.87, 0.71), (1.97, -0.6), (0.31, -0.5), (0.53, 0.9), (0.67, -0.2), (0.79, 0.97)],
    'sideways': [(0.3, -1.0), (1.9, -0.9), (0.8, 0.3), (1.8, -0.2), (0.9, 1.1), (1.95, 0.9), (0.2, 0.7), (0.3, -1.0)],
    'sideways turned': [(1.8, -0.2), (0.9, 1.1), (1.95, 0.9), (0.2, 0.7), (0.3, -1.0), (1.9, -0.9), (0.8, 0.3), (1.8, -0.2)],
    'sideways backwards': [(0.8, 0.3), (1.9, -0.9), (0.3, -1.0), (0.2, 0.7), (1.95, 0.9), (0.9, 1.1), (1.8, -0.2), (0.8, 0.3)],
    'far away': [(1.31, 0.4), (1.93, 0.5), (1.07, 1.13)],
    'touching': [(0.43, 0.125), (1.7, 1.3), (1.9, -0.8), (0.9, -1.4)],
    'axis extreme': [(1.21, 0.31), (1.57, 0.47), (1.33, 0.125)],
    'negative': [(-0.41, -0.77), (1.93, -0.31), (1.07, 1.13)],
}
MEM = ('rdomain', 'zdomain', 'ndomain', 'maxradius', 'minradius', 'bounds_set', 'magnetic_axis', 'bounds')


def crossings(pts, lev, closed, by):
    """values of the other coordinate where the boundary crosses `lev' in coordinate `by'"""
    out = []
    n = len(pts)
    for i in range(n if closed else n - 1):
        a, b = pts[i], pts[(i + 1) % n]
        u, v = a[by], b[by]; x, y = a[1 - by], b[1 - by]
        if not min(u, v) <= lev <= max(u, v): continue
        if u == v: out += [x, y]
        else: out.append(x + (y - x) * (lev - u) / (v - u))
    return out


class Seq:
    """a sequence of calls on one object"""
    def __init__(self, m, cls, off, shapes):
        self.m = m; self.und = []; self.bad = []; self.n = 0
        vt = '_ZTV%d%s' % (len(cls), cls)
        mem = {OBJ: ('g', vt, 16)}
        pt = {'axR': AX, 'axZ': LEV, 'junk1': 33.0, 'junk2': 44.0}
        A = Small_addr
        mem[A(OBJ, off['magnetic_axis'])] = ('e', V('axR')); mem[A(OBJ, off['magnetic_axis'] + 8)] = ('e', V('axZ'))
        mem[A(OBJ, off['bounds_set'])] = ('i', 0); mem[A(OBJ, off['ndomain'])] = ('i', 0)
        mem[A(OBJ, off['rdomain'])] = ('i', 0); mem[A(OBJ, off['zdomain'])] = ('i', 0)
        if off['maxradius0'] is not None: mem[A(OBJ, off['maxradius'])] = off['maxradius0']
        if off['minradius0'] is not None: mem[A(OBJ, off['minradius'])] = off['minradius0']
        for s in shapes:
            for k, (r, z) in enumerate(SHAPES[s]):
                for c, x in (('r', r), ('z', z)):
                    mem[A(('t', c, s), 8 * k)] = ('e', V('%s:%s%d' % (s, c, k))); pt['%s:%s%d' % (s, c, k)] = x
        self.mem = mem; self.point = alg.Point('d', pt)

    def call(self, f, *args):
        """-> value | None (not known) | 'refused'"""
        try: w = Deep(self.m, f, [OBJ] + list(args), self.mem, point=self.point)
        except Limit: self.und.append('too many states'); return None
        self.bad += ['%s: %s' % (f.short, b) for b in w.bad]
        if w.unk: self.und += w.unk; return None
        if len(w.out) == 1 and not w.excs and not w.exc:
            st, I, v, self.mem = w.out[0]; self.last = w
            return ('done', v)
        if not w.out and (w.excs or w.exc): return 'refused'
        self.und.append('%s: outcome not decided' % f.short); return None

    def num(self, v):
        if v is None: return None
        if v[0] == 'i': return float(v[1])
        if v[0] != 'e': return None
        try: return float(alg.value(v[1], self.point))
        except Exception: return None

    def at(self, a, ty='double'): return self.last.read(self.mem, a, ty)


def Small_addr(b, o): return b if o == 0 else ('p', b, o)


def run(ctx):
    m = ctx.module('--keep', r'SOFTLibException::|' + KEEPVEC, '--inline', ALGO, '--only', 'MagneticField2D|MagneticFieldNumeric2D', '--ctors')
    cls = 'MagneticFieldNumeric2D'
    off = {n: m.field_off(CLS, n) for n in MEM}
    F = {}
    for n, k in (('SetDomain', 4), ('GetDomainBounds', 5), ('GetMaxRadius', 1), ('GetMinRadius', 1), ('FindMaxZ', 4)):
        fs = [f for f in m.method(CLS, n) if f.cls == CLS and not f.suf and len(f.args) - max(f.this, 0) == k]
        if len(fs) != 1: ctx.undecided('instances', n + ' not found'); return False
        F[n] = fs[0]
    if None in off.values() or cls not in m.classes: ctx.undecided('instances', 'members not found'); return False
    fresh = {f for n, o, t, s, ow in m.fields(CLS) for f in (n,)}
    off['maxradius0'] = ('e', alg.C(-1)) ; off['minradius0'] = ('e', alg.C(-1))
    decided = True
    names = list(SHAPES)
    for k, a in enumerate(names):
        for b in (names[(k + 1) % len(names)], names[(k + 5) % len(names)], names[k - 2]):
            probs, und = [], []
            for qs in (('bounds', 'radii', 'heights'), ('radii', 'bounds'), ('heights', 'bounds', 'min')):
                s = Seq(m, cls, off, (a, b))
                history(s, F, off, a, b, qs, probs, und)
            fin(ctx, 'history.%s.%s' % (a.replace(' ', '-'), b.replace(' ', '-')), 'limits of the domain:', F['SetDomain'], uniq(probs), sorted(set(und))[:3])
            decided = decided and not und
    return decided


def history(s, F, off, a, b, qs, probs, und):
    prev = 'no earlier boundary'
    for sh in (a, b):
        pts = SHAPES[sh]; n = len(pts)
        cr = crossings(pts, LEV, True, 1)
        r = s.call(F['SetDomain'], ('t', 'r', sh), ('t', 'z', sh), ('i', n))
        where = 'boundary "%s" (%d points), after %s' % (sh, n, prev)
        if r is None: und += s.und; return
        if r == 'refused':
            if cr: probs.append((F['SetDomain'].loc(), where + ': the boundary is refused'))
            return
        if not cr: probs.append((F['SetDomain'].loc(), where + ': a boundary that does not enclose the level of the axis is accepted')); return
        for q in qs: query(s, F, q, sh, pts, cr, where, probs, und)
        # again: answers do not depend on earlier queries
        for q in qs[::-1]: query(s, F, q, sh, pts, cr, where + ', second query', probs, und)
        prev = '"%s"' % sh
    und += s.und
    probs += [(F['SetDomain'].loc(), x) for x in s.bad]


def close(x, y): return abs(x - y) < 1e-9


def query(s, F, q, sh, pts, cr, where, probs, und):
    O = [('t', 'out', k) for k in range(4)]
    def judge(f, what, got, want):
        x = s.num(got)
        if x is None: und.append('%s: %s not known' % (f.short, what))
        elif not close(x, want): probs.append((f.loc(), '%s: %s is %.4g instead of %.4g' % (where, what, x, want)))
    if q == 'bounds':
        f = F['GetDomainBounds']
        for k, o in enumerate(O): s.mem = dict(s.mem); s.mem[o] = ('e', V('junk1'))
        r = s.call(f, *O)
        if r is None: und += s.und; return
        if r == 'refused': probs.append((f.loc(), where + ': query of the bounds fails')); return
        R = [p[0] for p in pts] + [AX]; Z = [p[1] for p in pts] + [LEV]
        for k, (nm, w) in enumerate((('smallest R', min(R)), ('largest R', max(R)), ('smallest Z', min(Z)), ('largest Z', max(Z)))): judge(f, nm, s.at(O[k]), w)
    if q in ('radii', 'min'):
        for nm, what, w in (('GetMaxRadius', 'largest radius', max(cr)), ('GetMinRadius', 'smallest radius', min(cr)))[0 if q == 'radii' else 1:]:
            r = s.call(F[nm])
            if r is None: und += s.und; return
            if r == 'refused': probs.append((F[nm].loc(), where + ': query of the %s fails' % what)); continue
            judge(F[nm], what, r[1], w)
    if q == 'heights':
        f = F['FindMaxZ']
        for x in (1.03, 1.65, pts[0][0], pts[-1][0], 9.5):
            c = crossings(pts, x, False, 0)
            if len(pts) > 2 and crossings(pts, x, True, 0) != c: continue                    # whether the last edge is meant is not specified
            name = 'x:%s' % x
            s.mem = dict(s.mem)
            for o in O[:2]: s.mem[o] = ('e', V('junk1'))
            r = s.call(f, ('e', alg.C(x)), O[0], O[1])
            if r is None: und += s.und; return
            if r == 'refused':
                if c: probs.append((f.loc(), '%s: query of the heights at a radius inside fails' % where))
                continue
            if not c: probs.append((f.loc(), '%s: heights are reported at a radius outside' % where)); continue
            for k, (nm, w) in enumerate((('smallest Z', min(c)), ('largest Z', max(c)))): judge(f, '%s at radius %g' % (nm, x), s.at(O[k]), w)


def uniq(probs):
    out = {}
    for l, t in probs: out.setdefault(t.split(': ')[-1].split(' is ')[0], (l, t))
    return list(out.values())[:4]
