"""C33: radial interpolation of tabulated distributions is linear between the neighbouring radii, each radius with its own table."""
import re
import alg
from alg import C, V, add, sub, mul, div, equal, show
from small import Small, KEEPVEC, UNK
from px import Limit
from c04 import fin
from c20 import adr
from distinit import DF, MS, Init, module, table, same, obj, interpolated

HALF = C('1/2')


class Radial(Small):
    """evaluation with grid symbols r0..rn-1, slices F0..Fn-1"""

    def __init__(self, m, cls, fn, n, grid, slices, count, rho, point, flags, limits):
        self.m, self.cls, self.nrad, self.rho = m, cls, n, rho
        self.grid, self.slices, self.count, self.flags, self.limits = grid, slices, count, flags, limits
        self.bad = []
        Small.__init__(self, fn, point)

    def arg(self, k):
        k -= self.fn.this if hasattr(self, 'fn') else 0
        if k == 1: return ('e', add(self.rho, V('drift')))
        if k == 2: return ('e', V('p'))
        if k == 3: return ('e', V('xi'))
        if k == 4: return ('e', V('drift'))
        return ('arg', k)

    def contents(self, A):
        b, o = self.split_ptr(A)
        if b == ('arg', 0):
            if o == self.grid[1]: return ('vc', tuple(('e', V('r%d' % k)) for k in range(self.nrad)))
            if o == self.slices[1]: return ('vc', tuple(('t', 'obj', k) for k in range(self.nrad)))
        return None

    def initial(self, a, ty):
        b, o = self.split_ptr(a)
        if b == ('arg', 0):
            if o in self.flags: return ('i', self.flags[o])
            if o in self.limits: return ('e', self.limits[o])
            if self.grid[0] == 'ptr' and o == self.grid[1]: return ('t', 'grid')
            if self.slices[0] == 'ptr' and o == self.slices[1]: return ('t', 'slices')
            if self.count is not None and o == self.count: return ('i', self.nrad)
        if b == ('t', 'grid') and o % 8 == 0:
            k = o // 8
            if 0 <= k < self.nrad: return ('e', V('r%d' % k))
            self.bad.append('radius %d of %d is read' % (k, self.nrad))
        if b == ('t', 'slices') and o % 8 == 0:
            k = o // 8
            if 0 <= k < self.nrad: return ('t', 'obj', k)
            self.bad.append('slice %d of %d is read' % (k, self.nrad))
        if b[0] == 't' and b[1] == 'obj' and o == 0 and ty == 'ptr': return ('t', 'vt', b[2])
        if b[0] == 't' and b[1] == 'vt': return ('vf', ('t', 'obj', b[2]), o)
        return None

    def outside(self, I, k, n): self.bad.append('element %d of %d is read at %s' % (k, n, I.loc()))

    def slice(self, st, obj, a):
        if a[0] != ('e', V('p')) or a[1] != ('e', V('xi')):
            self.bad.append('the table of radius %d is asked for another momentum or pitch' % obj[2])
        return [(('e', V('F%d' % obj[2])), st, None, None)]

    def virtual(self, st, I, obj, slot, args, mem):
        if len(args) == 3 and obj[1] == 'obj': return self.slice(st, obj, args[1:])
        return None

    def opaque(self, st, I, dem, args, mem):
        if re.search(r'DistributionFunction::Eval\(double, double\)$', dem) and len(args) == 3 and args[0] and args[0][0] == 't': return self.slice(st, args[0], args[1:])
        return None


SPECS = [
    ('NumericDistributionFunction', 'r', 'msdf', None, ('rmin', 'rmax')),
    ('GOCODEDistributionFunction', 'rho', 'code', 'nr', ('rhomin', 'rhomax')),
]


def line(k, rho):
    """value at rho of the straight line through radii k and k+1"""
    a, b = V('r%d' % k), V('r%d' % (k + 1))
    t = div(sub(rho, a), sub(b, a))
    return add(mul(sub(C(1), t), V('F%d' % k)), mul(t, V('F%d' % (k + 1))))


def run(ctx):
    ctx.rule('for radial grids of one to five radii (increasing, and decreasing where these are accepted) and every position of the query relative to the radii, the value returned is that of the straight line through the two nearest radii and their own tables, asked for the momentum and pitch of the query')
    m = ctx.module('--keep', r'^gsl_|SFile::|SOFTLibException::|DistributionFunction::Eval\(double, double\)|' + KEEPVEC, '--only', 'NumericDistributionFunction|GOCODE|NumericMomentumSpace|CODEDistributionFunction')
    k = 0
    for cls, g, s, cnt, lim in SPECS:
        fs = [f for f in m.method(cls, 'Eval') if not f.suf and f.dem.count('double') == 4]
        if cls not in m.classes or len(fs) != 1: ctx.undecided(cls, 'evaluator not found'); continue
        k += 1
        evaluate(ctx, m, cls, fs[0], g, s, cnt, lim)
    tables(ctx)
    ctx.need('evaluators', k, 1)


def slices(w, st, mem, m, vec, want, probs, und, where, f, interp=0):
    """each kept object interpolates its own slice on the given grids; want: [(x, y, z) tables | object]"""
    c = mem.get(('vec', vec))
    if c is None: und.append(where + ': contents of the table list not known'); return
    if len(c[1]) != len(want): probs.append((f.loc(), '%s: %d tables are kept instead of %d' % (where, len(c[1]), len(want)))); return
    for i, (o, t) in enumerate(zip(c[1], want)):
        if t[0] == 't':
            if o != t: probs.append((f.loc(), '%s: the table of radius %d is not its own' % (where, i)))
            continue
        ini, al = interpolated(st, obj(w, mem, m, o)['spline'])
        if ini is None: probs.append((f.loc(), '%s: the table of radius %d is not initialised' % (where, i))); continue
        k = METHOD.get(interp)
        if al is not None and al[2] is not None and al[2][:2] == ('t', 'type') and k and al[2][2] != k: probs.append((ini[5], '%s: interpolation method %d selects %s' % (where, interp, al[2][2])))
        for nm, got, exp in zip(('momentum grid', 'pitch grid', 'table'), ini[2:5], t):
            if got is None or None in got: und.append('%s: %s of radius %d not known' % (where, nm, i)); continue
            r = [same(a, b) for a, b in zip(got, exp)] if len(got) == len(exp) else [False]
            if False in r: probs.append((ini[5], '%s: radius %d gets another %s' % (where, i, nm)))
            elif None in r: und.append('%s: %s of radius %d not decided' % (where, nm, i))


def limits(w, mem, m, lo, hi, probs, und, where, f):
    for n, want in (('rmin', lo), ('rmax', hi)):
        v = w.read(mem, adr(m.field_off(DF, n)), 'double')
        r = same(v, want)
        if r is False: probs.append((f.loc(), '%s: %s is not the %s radius' % (where, n, 'smallest' if n == 'rmin' else 'largest')))
        elif r is None: und.append('%s: %s not known' % (where, n))


def tables(ctx):
    m = module(ctx)
    ro, mo = m.field_off(DF, 'r'), m.field_off(DF, 'msdf')
    if None in (ro, mo, m.field_off(DF, 'rmin'), m.field_off(DF, 'rmax'), m.field_off(MS, 'fspline')): ctx.undecided(DF + '.tables', 'members not found'); return
    f = [f for f in m.method(DF, 'Initialize') if not f.suf]
    if len(f) != 1: ctx.undecided(DF + '.Initialize', 'not found')
    else: initialise(ctx, m, f[0], ro, mo)
    f = [f for f in m.method(DF, 'InsertMomentumSpaceDistribution') if not f.suf]
    for g in f: insert(ctx, m, g, ro, mo, 'unsigned int' in g.dem)
    if not f: ctx.undecided(DF + '.Insert', 'not found')


NP, NXI = 3, 2
METHOD = {0: 'gsl_interp2d_bilinear', 1: 'gsl_interp2d_bicubic'}


def initialise(ctx, m, f, ro, mo):
    for n in range(1, 5):
        for desc, used, interp in ((0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 1)):
            if desc and n == 1: continue
            probs, und = [], []
            rs = [1.0 + k * 0.75 for k in range(n)]
            if desc: rs = rs[::-1]
            pt = {'r%d' % k: x for k, x in enumerate(rs)}; pt.update({'p0': 0.0, 'p1': 1.0, 'p2': 3.0, 'xi0': -0.5, 'xi1': 0.5, 'old': 9.0})
            tabs = {'r': table('r', n), 'p': table('p', NP), 'xi': table('xi', NXI), 'f': table('f', n * NP * NXI)}
            args = {1: ('i', n), 2: ('i', NP), 3: ('i', NXI), 4: ('t', 'r'), 5: ('t', 'p'), 6: ('t', 'xi'), 7: ('t', 'f'), 8: ('i', interp)}
            w = attempt(m, f, args, tabs, pt, {}, {adr(ro): ('vc', (('e', V('old')),) * used), adr(mo): ('vc', (('t', 'oldobj'),) * used)}, und)
            where = '%d radii%s%s' % (n, ' (decreasing)' if desc else '', ', object used before' if used else '')
            if w is None: continue
            judge(w, probs, und, where, f)
            for st, I, v, mem in w.out:
                c = mem.get(('vec', adr(ro)))
                if c is None: und.append(where + ': radii not known')
                elif len(c[1]) != n or False in [same(a, b) for a, b in zip(c[1], tabs['r'])]: probs.append((f.loc(), '%s: the radii kept are not the radii given' % where))
                k = NP * NXI
                slices(w, st, mem, m, adr(mo), [(tabs['p'], tabs['xi'], tabs['f'][i * k:(i + 1) * k]) for i in range(n)], probs, und, where, f, interp)
                limits(w, mem, m, tabs['r'][n - 1 if desc else 0], tabs['r'][0 if desc else n - 1], probs, und, where, f)
            fin(ctx, '%s.Initialize.%d%s%s.%d' % (DF, n, '.decreasing' if desc else '', '.again' if used else '', interp), DF + '::Initialize', f, uniq(probs), sorted(set(und))[:3])
    # grids that are not monotonic
    probs, und = [], []
    for rs in ((1.0, 3.0, 2.0), (1.0, 1.0, 2.0), (3.0, 1.0, 2.0), (1.0, 2.0, 2.0), (1.0, 1.0)):
        n = len(rs)
        pt = {'r%d' % k: x for k, x in enumerate(rs)}; pt.update({'p0': 0.0, 'p1': 1.0, 'p2': 3.0, 'xi0': -0.5, 'xi1': 0.5})
        tabs = {'r': table('r', n), 'p': table('p', NP), 'xi': table('xi', NXI), 'f': table('f', n * NP * NXI)}
        args = {1: ('i', n), 2: ('i', NP), 3: ('i', NXI), 4: ('t', 'r'), 5: ('t', 'p'), 6: ('t', 'xi'), 7: ('t', 'f'), 8: ('i', 0)}
        w = attempt(m, f, args, tabs, pt, {}, {adr(ro): ('vc', ()), adr(mo): ('vc', ())}, und)
        if w and w.out: probs.append((w.out[0][1].loc(), 'radii %s are accepted although they are neither increasing nor decreasing' % (rs,)))
        elif w and not w.exc: und.append('no outcome')
    fin(ctx, DF + '.Initialize.monotonic', DF + '::Initialize', f, uniq(probs), sorted(set(und))[:3])


def judge(w, probs, und, where, f):
    for b in w.bad: probs.append((f.loc(), '%s: %s' % (where, b)))
    und += w.unk
    if not w.out:
        if w.exc: probs.append((w.exc[0][1].loc(), '%s: refused' % where))
        else: und.append(where + ': no outcome')


def attempt(m, f, args, tabs, pt, cells, vecs, und):
    try: return Init(m, f, args, tabs, alg.Point('i', pt), cells, vecs)
    except Limit: und.append('too many states'); return None


def insert(ctx, m, f, ro, mo, raw):
    for n in range(0, 4):
        probs, und = [], []
        rs = [1.0 + k for k in range(n)]
        for pos in range(n + 1):
            pt = {'r%d' % k: x for k, x in enumerate(rs)}; pt.update({'p0': 0.0, 'p1': 1.0, 'p2': 3.0, 'xi0': -0.5, 'xi1': 0.5, 'rr': 0.5 + pos})
            tabs = {'p': table('p', NP), 'xi': table('xi', NXI), 'f': table('f', NP * NXI)}
            args = {1: ('i', NP), 2: ('i', NXI), 3: ('e', V('rr')), 4: ('t', 'p'), 5: ('t', 'xi'), 6: ('t', 'f'), 7: ('i', 0)} if raw else {1: ('e', V('rr')), 2: ('t', 'newobj')}
            old = table('r', n)
            cells = {adr(m.field_off(DF, 'rmin')): old[0], adr(m.field_off(DF, 'rmax')): old[-1]} if n else {}
            w = attempt(m, f, args, tabs, pt, cells, {adr(ro): ('vc', old), adr(mo): ('vc', tuple(('t', 'obj', k) for k in range(n)))}, und)
            where = 'insertion at place %d of %d' % (pos, n)
            if w is None: continue
            judge(w, probs, und, where, f)
            for st, I, v, mem in w.out:
                c = mem.get(('vec', adr(ro)))
                exp = old[:pos] + (('e', V('rr')),) + old[pos:]
                if c is None: und.append(where + ': radii not known')
                elif len(c[1]) != n + 1 or False in [same(a, b) for a, b in zip(c[1], exp)]: probs.append((f.loc(), '%s: the radii are not kept in order' % where))
                objs = [('t', 'obj', k) for k in range(n)]
                objs.insert(pos, (tabs['p'], tabs['xi'], tabs['f']) if raw else ('t', 'newobj'))
                slices(w, st, mem, m, adr(mo), objs, probs, und, where, f)
                limits(w, mem, m, exp[0], exp[-1], probs, und, where, f)
                if v is not None and v != ('i', pos): probs.append((I.loc(), '%s: returns %s' % (where, v[1])))
        fin(ctx, '%s.Insert%s.%d' % (DF, '.table' if raw else '', n), DF + '::InsertMomentumSpaceDistribution', f, uniq(probs), sorted(set(und))[:3])


def evaluate(ctx, m, cls, f, g, s, cnt, lim):
    go, so, co = m.field_off(cls, g), m.field_off(cls, s), m.field_off(cls, cnt) if cnt else None
    lo, hi, al = [m.field_off(cls, x) for x in lim + ('allowExtrapolation',)]
    if None in (go, so, lo, hi, al) or (cnt and co is None): ctx.undecided(cls + '.Eval', 'members not found', f); return
    kind = 'vec' if not cnt else 'ptr'
    for n in range(1, 6):
        for desc in ((False, True) if not cnt and n > 1 else (False,)):
            rs = [1.0 + 0.7 * k + 0.3 * k * k for k in range(n)]
            if desc: rs = rs[::-1]
            srt = sorted(rs)
            qs = [('below', srt[0] - 0.5, None), ('far below', -srt[-1], None), ('zero', 0, C(0)), ('above', srt[-1] + 0.5, None)]
            for k in range(n): qs.append(('on radius %d' % k, rs[k], V('r%d' % k)))
            for k in range(n - 1): qs.append(('between %d and %d' % (k, k + 1), 0.7 * rs[k] + 0.3 * rs[k + 1], None))
            probs, und = [], []
            for allow, fv in ((1, [2.0 + k for k in range(n)]), (1, [8.0 * 0.25 ** k for k in range(n)]), (1, [8.0 * 0.25 ** (n - 1 - k) for k in range(n)]), (0, [2.0 + k for k in range(n)])):
                for name, x, e in qs:
                    rho = e if e is not None else V('rho')
                    pt = {'r%d' % k: r for k, r in enumerate(rs)}
                    pt.update({'rho': x, 'drift': 0.125, 'p': 1.5, 'xi': 0.25}); pt.update({'F%d' % k: fv[k] for k in range(n)})
                    a, b = ('r0', 'r%d' % (n - 1)) if not desc else ('r%d' % (n - 1), 'r0')
                    try: w = Radial(m, cls, f, n, (kind, go), (kind, so), co, rho, alg.Point('q', pt), {al: allow}, {lo: V(a), hi: V(b)})
                    except Limit: und.append('too many states'); continue
                    where = '%d radii%s, query %s' % (n, ' (decreasing)' if desc else '', name)
                    out = x < srt[0] or x > srt[-1]
                    for t in w.bad: probs.append((f.loc(), '%s: %s' % (where, t)))
                    if out and not allow:
                        if w.out: probs.append((w.out[0][1].loc(), '%s: accepted although extrapolation is not permitted' % where))
                        elif not w.exc: und.append(where + ': no outcome')
                        continue
                    if w.exc: probs.append((w.exc[0][1].loc(), '%s: refused' % where)); continue
                    if not w.out: und.append(where + ': no outcome'); continue
                    exp = want(n, rs, desc, x, rho)
                    for st, I, v, mem in w.out:
                        if v is None or v[0] != 'e': und.append('%s: result not understood' % where); continue
                        r = equal(v[1], exp)
                        if r[0] == 'no': probs.append((I.loc(), '%s: the value is not that of the line through the nearest radii (%s)' % (where, r[1])))
                        elif r[0] == '?':
                            if 'division' in r[1] or 'div0' in repr(v[1]): probs.append((I.loc(), '%s: the value is undefined (0/0)' % where))
                            else: und.append('%s: %s' % (where, r[1]))
            fin(ctx, '%s.Eval.%d%s' % (cls, n, '.decreasing' if desc else ''), cls + '::Eval', f, uniq(probs), sorted(set(und))[:3])


def uniq(probs):
    out = {}
    for l, t in probs: out.setdefault(t, (l, t))
    return list(out.values())[:6]


def want(n, rs, desc, x, rho):
    if n == 1: return V('F0')
    for k in range(n - 1):
        a, b = sorted((rs[k], rs[k + 1]))
        if a <= x <= b: return line(k, rho)
    first = (x < rs[0]) != desc if x != rs[0] else True
    return line(0, rho) if first else line(n - 2, rho)
