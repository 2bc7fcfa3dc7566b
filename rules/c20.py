"""C20: tables are exponentiated on evaluation exactly when they were stored as logarithms."""
import itertools, re
import alg
from alg import V, fn as fun
from small import Small
from px import Limit
from c04 import fin
from distinit import MS, DF, Init, module, table, same, obj, interpolated, stored

NP, NXI = 2, 2
SIGNS = [(1, 1, 1, 1), (1, 0, 1, 1), (1, 1, -1, 1), (-1, 1, 1, 1), (1, 1, 1, 0)]


def point(n, signs, extra=()):
    e = {'f%d' % k: (2.0 + k / 4) * signs[k % len(signs)] for k in range(n)}
    e.update({'r0': 1.0, 'r1': 2.0, 'p0': 0.5, 'p1': 1.5, 'xi0': -0.5, 'xi1': 0.75, 'rr': 1.5, 'old': 9.0}); e.update(extra)
    return alg.Point('t', e)


def run(ctx):
    ctx.rule('after every initialisation entry point (from a fresh object and from one initialised the other way) the elements handed to the interpolation library are the table elements, or each its logarithm exactly once, as the entry point promises, and the flag of the object says which; evaluation returns the interpolated value, or its exponential, according to that flag')
    m = module(ctx)
    if MS not in m.classes or m.field_off(MS, 'logarithmic') is None or m.field_off(MS, 'fspline') is None:
        ctx.undecided(MS, 'members not found'); return
    k = 0
    P = ('t', 'p'), ('t', 'xi'), ('t', 'f')
    dims = {'np': ('i', NP), 'nxi': ('i', NXI), 'nr': ('i', 2), 'p': P[0], 'xi': P[1], 'f': P[2], 'rtab': ('t', 'r'), 'r': ('e', V('rr'))}
    for cls, short, sig, order, log in [
            (MS, 'Initialize', r'\(unsigned int, unsigned int, double\*, double\*, double\*, int\)', ('np', 'nxi', 'p', 'xi', 'f', 'interp'), False),
            (MS, 'InitializeLog', r'\(unsigned int, unsigned int, double\*, double\*, double\*, int\)', ('np', 'nxi', 'p', 'xi', 'f', 'interp'), True),
            (DF, 'Initialize', r'\(unsigned int, unsigned int, unsigned int, .*int\)', ('nr', 'np', 'nxi', 'rtab', 'p', 'xi', 'f', 'interp'), False),
            (DF, 'InitializeLog', r'\(unsigned int, unsigned int, unsigned int, .*int, bool\)', ('nr', 'np', 'nxi', 'rtab', 'p', 'xi', 'f', 'interp', 'alloc'), True),
            (DF, 'InsertMomentumSpaceDistribution', r'\(unsigned int, unsigned int, double, .*int\)', ('np', 'nxi', 'r', 'p', 'xi', 'f', 'interp'), False),
            (DF, 'InsertMomentumSpaceDistributionLog', r'\(unsigned int, unsigned int, double, .*int, bool\)', ('np', 'nxi', 'r', 'p', 'xi', 'f', 'interp', 'alloc'), True)]:
        fs = [f for f in m.method(cls, short) if not f.suf and re.search(re.escape(short) + sig + '$', f.dem)]
        if len(fs) != 1: ctx.undecided('%s::%s' % (cls, short), 'not found'); continue
        k += 1
        entry(ctx, m, cls, short, fs[0], order, dims, log)
    for f in m.method(MS, 'Eval'):
        if not f.suf and f.dem.endswith('(double, double)'): k += 1; evaluate(ctx, m, f)
    code(ctx, m)
    ctx.need('entry points', k, 2)


def entry(ctx, m, cls, short, f, order, dims, log):
    probs, und = [], []
    fl = m.field_off(MS, 'logarithmic')
    nr = 2 if 'nr' in order else 1
    n = nr * NP * NXI
    name = '%s::%s' % (cls, short)
    for interp, alloc, was, sg in itertools.product((0, 1), (0, 1) if 'alloc' in order else (0,), (0, 1, 2) if 'Insert' in short else (0, 1), SIGNS):
        pt = point(n, sg, {'old': 0.25 if was == 2 else 9.0})
        args = {i + 1: dims.get(o, ('i', {'interp': interp, 'alloc': -1 if alloc else 0}.get(o, 0))) for i, o in enumerate(order)}
        tabs = {'p': table('p', NP), 'xi': table('xi', NXI), 'f': table('f', n), 'r': table('r', 2)}
        cells, vecs = {}, {}
        if cls == MS: cells[('p', ('arg', 0), fl) if fl else ('arg', 0)] = ('i', was)
        else:
            cells[('p', ('t', 'oldobj'), fl) if fl else ('t', 'oldobj')] = ('i', 0 if log else 1)
            vecs = {}
            ro, mo = m.field_off(DF, 'r'), m.field_off(DF, 'msdf')
            if ro is None or mo is None: ctx.undecided(name, 'members not found', f); return
            vecs[adr(ro)] = ('vc', (('e', V('old')),) if was else ()); vecs[adr(mo)] = ('vc', (('t', 'oldobj'),) if was else ())
            cells[adr(m.field_off(DF, 'logarithmic') or 0)] = ('i', 0)
            for x in ('rmin', 'rmax'):
                if was and m.field_off(DF, x) is not None: cells[adr(m.field_off(DF, x))] = ('e', V('old'))
        where = 'interpolation %d%s%s%s' % (interp, ', separate copy' if alloc else '', ', object used before' if was else '', {0: ', with a zero', -1: ', with a negative value'}.get(min(sg), ''))
        try: w = Init(m, f, args, tabs, pt, cells, vecs)
        except Limit: und.append('too many states'); continue
        for b in w.bad: probs.append((f.loc(), '%s: %s' % (where, b)))
        for b in w.unk: und.append(b)
        if not w.out:
            if log and min(sg) < 0 and w.exc: continue
            if w.exc: probs.append((w.exc[0][1].loc(), '%s: refused' % where))
            else: und.append(where + ': no outcome')
            continue
        for st, I, v, mem in w.out:
            if cls == MS: objs = [(0, ('arg', 0))]
            else:
                c = mem.get(('vec', adr(mo)))
                if c is None: und.append('contents of msdf not known'); continue
                new = [o for o in c[1] if o != ('t', 'oldobj')]
                objs = list(enumerate(new))
                if was and 'Insert' in short:
                    v = w.read(mem, w.addr(('t', 'oldobj'), fl), 'i8')
                    if v is not None and v[0] == 'i' and bool(v[1]) == log: probs.append((f.loc(), '%s: the table of another radius is marked anew' % where)); continue
                if len(new) != nr: probs.append((f.loc(), '%s: %d tables are kept instead of %d' % (where, len(new), nr))); continue
            for i, o in objs:
                d = obj(w, mem, m, o)
                if d['spline'] is None: und.append('%s: interpolation object not known' % where); continue
                ini, al = interpolated(st, d['spline'])
                if ini is None: probs.append((f.loc(), '%s: the interpolation object is never initialised' % where)); continue
                want = tabs['f'][i * NP * NXI:(i + 1) * NP * NXI]
                s = stored(ini[4], want, pt)
                if s is None: und.append('%s: stored elements not known' % where); continue
                if d['flag'] is None or d['flag'][0] != 'i': und.append('%s: flag not known' % where); continue
                flag = bool(d['flag'][1])
                exp = 'log' if log else 'plain'
                if s == 'other': probs.append((ini[5], '%s: what is interpolated is neither the table nor its logarithm' % where))
                elif s != exp: probs.append((ini[5], '%s: the table is stored %s' % (where, {'plain': 'as it is instead of as logarithms', 'log': 'as logarithms', 'log twice': 'as logarithms of logarithms'}[s])))
                elif flag != log: probs.append((f.loc(), '%s: the table is stored %s but marked as %slogarithmic' % (where, 'as logarithms' if log else 'as it is', '' if flag else 'not ')))
            if cls == DF and 'Initialize' in short:
                o = m.field_off(DF, 'logarithmic')
                if o is not None:
                    v = w.read(mem, adr(o), 'i8')
                    if v is not None and v[0] == 'i' and bool(v[1]) != log: probs.append((f.loc(), '%s: IsLogarithmic() does not tell how the table is stored' % where))
    fin(ctx, name, name, f, uniq(probs), sorted(set(und))[:3])


def adr(o): return ('p', ('arg', 0), o) if o else ('arg', 0)


def uniq(probs):
    out = {}
    for l, t in probs: out.setdefault(t, (l, t))
    return list(out.values())[:4]


class Ev(Small):
    def __init__(self, m, f, pt, cells): self.m, self.cells = m, cells; Small.__init__(self, f, pt)
    def arg(self, k): return {1: ('e', V('p')), 2: ('e', V('xi'))}.get(k - self.fn.this, ('arg', 0))
    def initial(self, a, ty): return self.cells.get(a)
    def opaque(self, st, I, dem, args, mem):
        if re.match(r'gsl_(spline2d|interp2d)_eval', dem): return [(('e', V('s')), st, None, None)]
        return None


def evaluate(ctx, m, f):
    probs, und = [], []
    o = {n: m.field_off(MS, n) for n in ('logarithmic', 'flipPitchSign', 'pmin', 'pmax', 'ximin', 'ximax')}
    for log, flip, s in itertools.product((0, 1), (0, 1), (-0.75, 0.75, 40.0, -800.0)):
        cells = {adr(o['logarithmic']): ('i', log)}
        if o['flipPitchSign'] is not None: cells[adr(o['flipPitchSign'])] = ('i', flip)
        for n in ('pmin', 'pmax', 'ximin', 'ximax'):
            if o[n] is not None: cells[adr(o[n])] = ('e', V(n))
        w = Ev(m, f, alg.Point('e', {'pmin': 0, 'pmax': 4, 'ximin': -1, 'ximax': 1, 'p': 1.5, 'xi': 0.25, 's': s}), cells)
        where = 'table %s' % ('of logarithms' if log else 'of values')
        if not w.out: und.append(where + ': no outcome')
        for st, I, v, mem in w.out:
            if v is None or v[0] != 'e': und.append(where + ': result not understood'); continue
            e = fun('exp', V('s')) if log else V('s')
            r = same(v, ('e', e))
            if r is False: probs.append((I.loc(), '%s: evaluation returns %s of the interpolated value s' % (where, alg.show(v[1]))))
            elif r is None: und.append(where + ': result not decided')
    fin(ctx, MS + '::Eval', MS + '::Eval', f, uniq(probs), sorted(set(und))[:3])


def code(ctx, m): pass
