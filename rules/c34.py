"""C34: a Legendre-mode (CODE) distribution is the sum of its modes, however it is evaluated."""
import re, itertools
from fractions import Fraction
import alg
from alg import C, V, add, sub, mul, div, neg, fn as fun
from small import Small, INF, UNK
from px import Limit
from c04 import fin
from c20 import adr, uniq
from distinit import MS, Init, module, table, same, obj, interpolated, stored

CD = 'CODEDistributionFunction'
TYPES = {'INTERPOLATION_LINEAR': 'gsl_interp_linear', 'INTERPOLATION_POLYNOMIAL': 'gsl_interp_polynomial', 'INTERPOLATION_CSPLINE': 'gsl_interp_cspline',
         'INTERPOLATION_CSPLINE_PERIODIC': 'gsl_interp_cspline_periodic', 'INTERPOLATION_AKIMA': 'gsl_interp_akima', 'INTERPOLATION_AKIMA_PERIODIC': 'gsl_interp_akima_periodic',
         'INTERPOLATION_STEFFEN': 'gsl_interp_steffen'}


def legendre(k, x):
    """P_k(x)"""
    a, b = C(1), x
    if k == 0: return a
    for n in range(1, k):
        a, b = b, div(sub(mul(C(2 * n + 1), mul(x, b)), mul(C(n), a)), C(n + 1))
    return b


def series(modes, xi):
    """modes are stored for the opposite direction of xi"""
    s = C(0)
    for k, c in enumerate(modes): s = add(s, mul(c, legendre(k, neg(xi))))
    return s


class Ev(Init):
    """evaluation: interp[k] are objects ('t','interp',k), rows of f identified by address"""

    def initial(self, a, ty):
        b, o = self.split_ptr(a)
        if b == ('t', 'interps') and o % 8 == 0: return ('t', 'interp', o // 8)
        return Init.initial(self, a, ty)

    def opaque(self, st, I, dem, args, mem):
        if re.match(r'gsl_interp_eval(_e)?$', dem.split('(')[0]) and len(args) >= 5:
            it, x, y, at = args[:4]
            if it is None or it[:2] != ('t', 'interp') or y is None or at is None: return [(None, st, None, None)]
            b, o = self.split_ptr(y)
            if b != ('t', 'f') or o != 8 * self.np * it[2]: self.bad.append('mode %d is interpolated with the table of another mode' % it[2])
            if x != ('t', 'p'): self.bad.append('mode %d is interpolated on another grid' % it[2])
            if at != ('e', V('pp')): self.bad.append('mode %d is asked for another momentum' % it[2])
            return [(('e', V('c%d' % it[2])), st, None, None)]
        return Init.opaque(self, st, I, dem, args, mem)


def run(ctx):
    ctx.rule('for one to five Legendre modes, evaluation returns the sum over all modes of the interpolated mode times its Legendre polynomial (of the opposite pitch), and zero where that sum is negative, whatever pitch was evaluated before; conversion to a momentum-space table stores the same sum at every grid point; each mode is interpolated over its own row with the method asked for')
    m = module(ctx)
    if CD not in m.classes: ctx.undecided(CD, 'class not found'); return
    k = 0
    for f in m.method(CD, 'Eval'):
        if not f.suf and f.dem.endswith('(double, double)'): k += 1; evaluate(ctx, m, f)
    for f in m.method(CD, 'ToMomentumSpace'):
        if not f.suf: k += 1; convert(ctx, m, f)
    for f in m.method(CD, 'Initialize'):
        if not f.suf: k += 1; init(ctx, m, f)
    ctx.need('routines', k, 1)


def cells(m, np, nleg):
    o = {n: m.field_off(CD, n) for n in ('np', 'nleg', 'p', 'f', 'interp', 'legendre', 'xileg')}
    if None in o.values(): return None, None
    c = {adr(o['np']): ('i', np), adr(o['nleg']): ('i', nleg), adr(o['p']): ('t', 'p'), adr(o['f']): ('t', 'f'), adr(o['interp']): ('t', 'interps'), adr(o['legendre']): ('t', 'leg')}
    return c, o


def evaluate(ctx, m, f):
    np = 3
    for n in range(1, 6):
        probs, und = [], []
        for hist in ('fresh', 'same pitch', 'another pitch', 'opposite pitch', 'close pitch'):
            for sg in ((1, -1) if hist != 'fresh' else (1, -1, 2, 'pmin', 'pmax', 'below', 'above', 'pmin, decreasing', 'pmax, decreasing', 'above, decreasing')):
                off, at, down = isinstance(sg, str) and sg[:5] in ('below', 'above'), sg if isinstance(sg, str) else '', str(sg).endswith('decreasing')
                mixed = sg == 2
                sg = 1 if isinstance(sg, str) or mixed else sg
                c, o = cells(m, np, n)
                if c is None: ctx.undecided(CD + '.Eval', 'members not found', f); return
                before = {'fresh': None, 'same pitch': V('xi'), 'another pitch': V('xi2'), 'opposite pitch': neg(V('xi')), 'close pitch': add(V('xi'), V('eps'))}[hist]
                c[adr(o['xileg'])] = ('e', INF['nan'] if before is None else before)
                tabs = {'p': table('p', np), 'f': table('f', np * n), 'leg': tuple(('e', legendre(k, before)) if before is not None else ('e', V('junk%d' % k)) for k in range(n))}
                pt = {'p0': 0.0, 'p1': 1.0, 'p2': 3.0, 'pp': 1.25, 'xi': 0.3, 'xi2': -0.4, 'eps': 1e-12}
                pt.update({'c%d' % k: sg * (3.0 if k == 0 else 0.25 / k) for k in range(n)})
                if mixed: pt.update({'c%d' % k: -0.25 / k for k in range(1, n)})
                if down: pt.update(p0=3.0, p2=0.0)
                if at: pt['pp'] = {'pmin': 0.0, 'pmax': 3.0, 'below': -0.5, 'above': 3.5}[at.split(',')[0]]
                w = build(Ev, m, f, {1: ('e', V('pp')), 2: ('e', V('xi'))}, tabs, pt, c, und, np)
                if w is None: continue
                where = '%d modes, %s%s' % (n, {'fresh': 'first evaluation', 'same pitch': 'same pitch as before', 'another pitch': 'another pitch before', 'opposite pitch': 'the opposite pitch before', 'close pitch': 'a pitch close by before'}[hist], ', negative sum' if sg < 0 else ', modes of both signs' if mixed else ', momentum %s' % {'pmin': 'at the lower end of the grid', 'pmax': 'at the upper end of the grid', 'below': 'below the grid', 'above': 'above the grid'}[at.split(',')[0]] if at else '')
                for b in w.bad: probs.append((f.loc(), '%s: %s' % (where, b)))
                und += w.unk
                if not w.out: und.append(where + ': no outcome')
                for st, I, v, mem in w.out:
                    v = ('e', w.num(v)) if v is not None and w.num(v) is not None else None
                    if v is None: und.append(where + ': result not understood'); continue
                    r = same(v, ('e', series([V('c%d' % k) for k in range(n)], V('xi')) if sg > 0 and not off else C(0)))
                    if r is False: probs.append((I.loc(), '%s: the value is not %s' % (where, 'the sum of the modes' if sg > 0 and not off else 'zero')))
                    elif r is None: und.append(where + ': not decided')
        fin(ctx, '%s.Eval.%d' % (CD, n), CD + '::Eval', f, uniq(probs), sorted(set(und))[:3])


def build(K, m, f, args, tabs, pt, c, und, np):
    class W(K): pass
    W.np = np
    try: return W(m, f, args, tabs, alg.Point('c', pt), c, {})
    except Limit: und.append('too many states'); return None


def convert(ctx, m, f):
    np, n = 2, 3
    for log, theta, nxi, it in ((0, 0, 3, 0), (1, 0, 3, 1), (0, 1, 4, 1), (1, 1, 3, 0), (0, 0, 2, 0)):
        probs, und = [], []
        c, o = cells(m, np, n)
        if c is None: ctx.undecided(CD + '.ToMomentumSpace', 'members not found', f); return
        c[adr(o['xileg'])] = ('e', V('xi2'))
        tabs = {'p': table('p', np), 'f': table('f', np * n), 'leg': tuple(('e', legendre(k, V('xi2'))) for k in range(n))}
        pt = {'p0': 0.0, 'p1': 1.0}
        pt.update({'f%d' % k: 3.0 + k / 8 if k < np else 0.25 / k for k in range(np * n)})
        w = build(Ev, m, f, {1: ('i', -log), 2: ('i', -theta), 3: ('i', nxi), 4: ('i', it)}, tabs, pt, c, und, np)
        where = '%s, %d points uniform in %s' % ('logarithmic' if log else 'plain', nxi, 'angle' if theta else 'pitch')
        if w is not None:
            for b in w.bad: probs.append((f.loc(), '%s: %s' % (where, b)))
            und += w.unk
            if not w.out: und.append(where + ': no outcome')
            for st, I, v, mem in w.out:
                if v is None or v[0] not in ('h', 'p'): und.append(where + ': result not understood'); continue
                d = obj(w, mem, m, v)
                ini, al = interpolated(st, d['spline'])
                if ini is None: probs.append((I.loc(), '%s: the table is not initialised' % where)); continue
                import math
                pi = C(Fraction(math.pi))
                grid = [('e', fun('cos', mul(pi, C(Fraction(nxi - 1 - i, nxi - 1)))) if theta else C(Fraction(2 * i, nxi - 1) - 1)) for i in range(nxi)]
                for nm, got, exp in (('momentum', ini[2], tabs['p']), ('pitch', ini[3], grid)):
                    if got is None or None in got: und.append('%s: %s grid not known' % (where, nm)); continue
                    r = [same(a, b) for a, b in zip(got, exp)] if len(got) == len(exp) else [False]
                    if False in r: probs.append((ini[5], '%s: the %s grid is not the expected one' % (where, nm)))
                    elif None in r: und.append('%s: %s grid not decided' % (where, nm))
                want = [('e', series([tabs['f'][k * np + j][1] for k in range(n)], grid[i][1])) for i in range(nxi) for j in range(np)]
                s = stored(ini[4], want, w.point)
                if s is None: und.append(where + ': stored table not known')
                elif s != ('log' if log else 'plain'): probs.append((ini[5], '%s: the table %s' % (where, {'other': 'is not the sum of the modes at its grid points', 'plain': 'is not stored as logarithms', 'log': 'is stored as logarithms', 'log twice': 'is stored as logarithms of logarithms'}[s])))
                elif d['flag'] is not None and d['flag'][0] == 'i' and bool(d['flag'][1]) != bool(log): probs.append((I.loc(), '%s: the table is marked as %slogarithmic' % (where, '' if d['flag'][1] else 'not ')))
        fin(ctx, '%s.ToMomentumSpace.%d%d%d' % (CD, log, theta, nxi), CD + '::ToMomentumSpace', f, uniq(probs), sorted(set(und))[:3])
    # the series cached for the next evaluation must not be left inconsistent
    probs, und = [], []
    c, o = cells(m, np, n)
    c[adr(o['xileg'])] = ('e', V('xi2'))
    tabs = {'p': table('p', np), 'f': table('f', np * n), 'leg': tuple(('e', legendre(k, V('xi2'))) for k in range(n))}
    pt = {'p0': 0.0, 'p1': 1.0}; pt.update({'f%d' % k: 1.0 for k in range(np * n)})
    w = build(Ev, m, f, {1: ('i', 0), 2: ('i', 0), 3: ('i', 3), 4: ('i', 0)}, tabs, pt, c, und, np)
    for st, I, v, mem in w.out if w else ():
        x = w.read(mem, adr(o['xileg']), 'double')
        if x is None or x[0] != 'e': und.append('pitch of the cached polynomials not known'); continue
        if x[1] is INF['nan']: continue
        for k in range(n):
            g = w.read(mem, w.addr(('t', 'leg'), 8 * k), 'double')
            r = same(g, ('e', legendre(k, x[1])))
            if r is False: probs.append((I.loc(), 'after conversion the cached Legendre polynomials belong to another pitch than recorded')); break
            if r is None: und.append('cached polynomials not known')
    fin(ctx, CD + '.ToMomentumSpace.cache', CD + '::ToMomentumSpace', f, uniq(probs), sorted(set(und))[:3])


def init(ctx, m, f):
    np, n = 3, 2
    o = {x: m.field_off(CD, x) for x in ('np', 'nleg', 'p', 'f', 'interp', 'xileg')}
    if None in o.values(): ctx.undecided(CD + '.Initialize', 'members not found', f); return
    en = {}
    for x in m.enums.values():
        if x['name'].startswith(CD + '::'): en.update(dict(x['vals']))
    for t, (nm, want) in enumerate(TYPES.items()):
        if nm not in en: continue
        t = en[nm]
        probs, und = [], []
        tabs = {'p': table('p', np), 'f': table('f', np * n)}
        w = build(Init, m, f, {1: ('i', np), 2: ('i', n), 3: ('t', 'p'), 4: ('t', 'f'), 5: ('i', t)}, tabs, {}, {}, und, np)
        if w is not None:
            for b in w.bad: probs.append((f.loc(), b))
            und += w.unk
            if not w.out: (probs.append((w.exc[0][1].loc(), 'method %d is refused' % t)) if w.exc else und.append('no outcome'))
            for st, I, v, mem in w.out:
                x = w.read(mem, adr(o['xileg']), 'double')
                if x is None or x[0] != 'e' or x[1] is not INF['nan']: probs.append((I.loc(), 'a new object already records a pitch for its cached polynomials'))
                arr = w.read(mem, adr(o['interp']), 'ptr')
                for k in range(n):
                    h = w.read(mem, w.addr(arr, 8 * k), 'ptr') if arr is not None else None
                    if h is None: und.append('interpolation object of mode %d not known' % k); continue
                    ini, al = interpolated(st, h)
                    if ini is None or al is None: probs.append((I.loc(), 'mode %d has no interpolation' % k)); continue
                    for what, got, exp in (('grid', ini[2], tabs['p']), ('table', ini[4], tabs['f'][k * np:(k + 1) * np])):
                        if got is None or None in got: und.append('%s of mode %d not known' % (what, k))
                        elif len(got) != len(exp) or False in [same(a, b) for a, b in zip(got, exp)]: probs.append((ini[5], 'mode %d is initialised with another %s' % (k, what)))
                    if al[2] and al[2][:2] == ('t', 'type') and al[2][2] != want: probs.append((I.loc(), 'method %d (%s) selects %s' % (t, nm, al[2][2])))
        fin(ctx, '%s.Initialize.%d' % (CD, t), CD + '::Initialize', f, uniq(probs), sorted(set(und))[:3])
