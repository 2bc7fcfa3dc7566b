"""C36: closed-form distributions and the analytical field equal their documented formulas."""
import re, itertools
from fractions import Fraction
import alg
from alg import C, V, add, sub, mul, div, neg, sq, sqrt, power, equal, show, fn as fun
from small import Small, UNK, ALGO, INF
from px import Limit
from c04 import fin
from c20 import adr, uniq

PI = C(Fraction(3.14159265358979323846))
MC = C(Fraction(9.10938356e-31) * 299792458)


class Run(Small):
    """args: position -> value; cells: members of the object"""

    def __init__(self, m, f, args, cells, point, inner=None):
        self.m, self.args, self.cells, self.inner = m, args, cells, inner
        Small.__init__(self, f, point)

    def arg(self, k):
        k -= max(self.fn.this, 0)
        return ('arg', 0) if k == 0 else self.args.get(k)

    def initial(self, a, ty):
        if a in self.cells: return self.cells[a]
        b, o = self.split_ptr(a)
        if b[0] == 't' and b[1] == 'part' and o == 0 and ty == 'ptr': return ('t', 'vt', b[2])
        if b[0] == 't' and b[1] == 'vt': return ('vf', ('t', 'part', b[2]), o)
        return None

    def virtual(self, st, I, obj, slot, args, mem):
        if obj[1] == 'part' and len(args) == 3 and None not in args[1:]:
            n = [self.num(x) for x in args[1:]]
            if None not in n: return [(('e', fun(obj[2], *n)), st, None, None)]
        return None


P, XI = V('p'), V('xi')


def avalanche(a, absxi, pt):
    E, L, Z = a
    g = sqrt(add(sq(P), C(1)))
    A = mul(div(add(E, C(1)), add(Z, C(1))), g)
    g0 = mul(L, sqrt(add(Z, C(5))))
    return div(mul(div(mul(MC, A), mul(mul(mul(C(2), PI), g0), sq(P))), fun('exp', sub(neg(div(g, g0)), mul(A, sub(C(1), absxi))))), sub(C(1), fun('exp', neg(mul(C(2), A)))))


def connor(a, absxi, pt):
    E, Z, M, W = a
    e = neg(div(mul(div(add(E, C(1)), mul(C(2), add(Z, C(1)))), mul(P, sub(C(1), sq(XI)))), absxi))
    if pt['W'] != 0 and pt['p'] > pt['M']: e = sub(e, sq(div(sub(P, M), W)))
    return mul(div(C(1), mul(P, absxi)), fun('exp', e))


def pitch(a, absxi, pt): return fun('exp', mul(a[0], absxi))


DISTS = [('AnalyticalAvalanche', ('E', 'L', 'Z'), avalanche), ('ConnorHastieDistribution', ('E', 'Z', 'M', 'W'), connor), ('ExponentialPitch', ('C',), pitch), ('UnitDistributionFunction', (), lambda a, x, pt: C(1))]


def members(m, cls):
    out, seen, todo = [], set(), [(cls, 0)]
    while todo:
        c, b = todo.pop()
        if c in seen or c not in m.classes: continue
        seen.add(c)
        for name, off, ty, sz in m.classes[c]['members']: out.append((name, b + off, ty, sz))
        for x in m.classes[c].get('bases', ()):
            n, o = (x[0], x[1]) if isinstance(x, (list, tuple)) else (x, 0)
            todo.append((n, b + (o or 0)))
    return out


def run(ctx):
    ctx.rule('the value of every closed-form distribution, with the members as its constructor or Initialize leaves them, equals the documented formula in momentum and pitch on each region (either sign of the pitch, below and above the cut-off); a radial distribution is the product of its profile and momentum part')
    ctx.rule('the analytical field and flux equal their formulas for every sign convention and safety-factor profile, and the tabulated copy of the field holds exactly these at every node of a grid spanning the plasma')
    m = ctx.module('--inline', ALGO, '--only', r'^(AnalyticalAvalanche|ConnorHastieDistribution|ExponentialPitch|UnitDistributionFunction|RadialDistributionFunction|UniformRadialProfile|MagneticFieldAnalytical2D)::', '--ctors', '--keep', r'^MagneticFieldNumeric2D::|SOFTLibException::', witness=('headers',))
    k = 0
    for cls, par, form in DISTS:
        if cls not in m.classes: ctx.undecided(cls, 'class not found'); continue
        k += dist(ctx, m, cls, par, form)
    k += radial(ctx, m)
    import c36b
    k += c36b.field(ctx, m)
    ctx.need('formulas', k, 2)


def regions(par):
    for xi, mode in itertools.product((0.375, -0.375), ('below', 'above', 'none') if 'W' in par else ('',)):
        pt = {'p': 2.5, 'xi': xi, 'E': 3.0, 'L': 1.5, 'Z': 2.0, 'C': 0.75, 'M': 4.0, 'W': 0.5}
        if mode == 'above': pt['M'] = 1.0
        if mode == 'none': pt['W'] = 0.0; pt['M'] = 1.0
        yield mode, pt


def dist(ctx, m, cls, par, form):
    ev = [f for f in m.method(cls, 'Eval') if not f.suf and re.search(r'::Eval\(double, double\)$', f.dem)]
    setups = [f for f in m.method(cls, 'Initialize') + m.method(cls, cls) if not f.suf and len(f.args) - f.this - 1 == len(par)] if par else [None]
    if len(ev) != 1 or not setups: ctx.undecided(cls, 'evaluation or initialisation not found'); return 0
    ev = ev[0]
    for su in setups:
        probs, und = [], []
        for mode, pt in regions(par):
            point = alg.Point('d', pt)
            exact = {} if mode != 'none' else {'W': C(0)}
            a = [exact.get(n, V(n)) for n in par]
            cells = {}
            if su is not None:
                try: w = Run(m, su, {i + 1: ('e', x) for i, x in enumerate(a)}, {}, point)
                except Limit: und.append('too many states'); continue
                und += w.unk
                if len(w.out) != 1: und.append('initialisation not understood'); continue
                mem = w.out[0][3]
                for name, off, ty, sz in members(m, cls):
                    v = w.read(mem, adr(off), 'double')
                    if v is not None: cells[adr(off)] = v
            try: w = Run(m, ev, {1: ('e', P), 2: ('e', XI)}, cells, point)
            except Limit: und.append('too many states'); continue
            und += w.unk
            where = 'at pitch %s0%s' % ('>' if pt['xi'] > 0 else '<', {'below': ', below the cut-off', 'above': ', above the cut-off', 'none': ', without cut-off'}.get(mode, ''))
            if not w.out:
                if w.exc: probs.append((w.exc[0][1].loc(), where + ': refused'))
                elif not w.unk: und.append(where + ': no outcome')
                continue
            for st, I, v, mem in w.out:
                e = w.num(v) if v is not None else None
                if e is None: und.append(where + ': result not understood'); continue
                r = equal(e, form(a, XI if pt['xi'] > 0 else neg(XI), pt))
                if r[0] == 'no': probs.append((I.loc(), '%s: the value is not that of the formula (%s)' % (where, r[1])))
                elif r[0] == '?': und.append('%s: %s' % (where, r[1]))
        nm = cls + ('.' + su.dem.split('(')[0].split('::')[-1] if su is not None else '')
        fin(ctx, nm, cls + '::Eval', ev, uniq(probs), sorted(set(und))[:3])
    return 1


def radial(ctx, m):
    cls = 'RadialDistributionFunction'
    ev = [f for f in m.method(cls, 'Eval') if not f.suf and f.dem.count('double') == 4] if cls in m.classes else []
    o = [m.field_off(cls, n) for n in ('rp', 'msdf')] if ev else [None]
    if len(ev) != 1 or None in o: ctx.undecided(cls, 'evaluation or members not found'); return 0
    probs, und = [], []
    f = ev[0]
    try: w = Run(m, f, {1: ('e', V('rho')), 2: ('e', P), 3: ('e', XI), 4: ('e', V('drift'))}, {adr(o[0]): ('t', 'part', 'profile'), adr(o[1]): ('t', 'part', 'momentum')}, alg.Point('r', {}))
    except Limit: w = None; und.append('too many states')
    if w:
        und += w.unk
        for st, I, v, mem in w.out:
            e = w.num(v) if v is not None else None
            if e is None: und.append('result not understood'); continue
            if equal(e, mul(fun('profile', V('rho'), V('drift')), fun('momentum', P, XI)))[0] == 'no': probs.append((I.loc(), 'the value is not the product of the radial profile and the momentum-space distribution'))
        if not w.out and not w.unk: und.append('no outcome')
    fin(ctx, cls + '.Eval', cls + '::Eval', f, uniq(probs), sorted(set(und))[:3])
    # which part is which
    for su in [f for f in m.method(cls, 'Initialize') + m.method(cls, cls) if not f.suf and len(f.args) - f.this - 1 == 2]:
        probs, und = [], []
        try: w = Run(m, su, {1: ('t', 'part', 'profile'), 2: ('t', 'part', 'momentum')}, {}, alg.Point('r', {}))
        except Limit: continue
        for st, I, v, mem in w.out:
            if w.read(mem, adr(o[0]), 'ptr') not in (None, ('t', 'part', 'profile')) or w.read(mem, adr(o[1]), 'ptr') not in (None, ('t', 'part', 'momentum')): probs.append((su.loc(), 'the parts given are not the parts used'))
        fin(ctx, cls + '.' + su.dem.split('(')[0].split('::')[-1], cls, su, probs, und)
    cls = 'UniformRadialProfile'
    for f in [f for f in m.method(cls, 'Eval') if not f.suf] if cls in m.classes else []:
        w = Run(m, f, {1: ('e', V('rho')), 2: ('e', V('drift'))}, {}, alg.Point('r', {}))
        bad = [(I.loc(), 'the uniform profile is not 1') for st, I, v, mem in w.out if v is not None and equal(w.num(v), C(1))[0] == 'no']
        fin(ctx, cls + '.Eval', cls + '::Eval', f, bad, w.unk[:2])
    return 1
