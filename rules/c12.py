"""C12: the interpolation library is only asked for points inside its grid."""
import re, itertools, math
from absint import AbsInt, base_off, fmt
from numev import Num, Unknown, Undefined
from filemodel import returns
from c04 import fin

PURE = r'^(std::)?(hypotf?|sqrtf?|fabsf?|absf?|sinf?|cosf?|expf?|logf?|fminf?|fmaxf?|powf?|atan2f?|llvm\.(fabs|sqrt|minnum|maxnum|pow|exp|log|sin|cos))\b'
EVAL = re.compile(r'^gsl_(spline2d|interp2d|spline|interp)_eval(_deriv\w*|_integ)?(_e)?$')
XG = [2.0, 3.0, 5.0, 6.0]
YG = [-0.5, 0.0, 0.25, 0.5, 0.75]
INF = float('inf')


class Spec:
    """class, initialiser regex, how its grids are reached, evaluators"""
    def __init__(self, cls, init, grids, evals, args):
        self.cls, self.init, self.grids, self.evals, self.args = cls, init, grids, evals, args


# grids: 'x'/'y' -> ('arg', pointer index, count index) | ('member', pointer name, count name)
SPECS = [
    Spec('MagneticFieldNumeric2D', r'^MagneticFieldNumeric2D::InitInterpolation\(', {'x': ('member', 'R', 'nr'), 'y': ('member', 'Z', 'nz')},
         r'^MagneticFieldNumeric2D::(Eval|EvalDerivatives|EvalFlux|EvalFluxDerivatives|__EvalJacobian)\(double, double, double\)', 'cart'),
    Spec('NumericMomentumSpaceDistributionFunction', r'^NumericMomentumSpaceDistributionFunction::Initialize\(unsigned int, unsigned int, double\*', {'x': ('arg', 3, 1), 'y': ('arg', 4, 2)},
         r'^NumericMomentumSpaceDistributionFunction::Eval\(double, double\)', 'pxi'),
    Spec('CODEDistributionFunction', r'^CODEDistributionFunction::Initialize\(unsigned int, unsigned int, double\*', {'x': ('arg', 3, 1)},
         r'^CODEDistributionFunction::Eval\(double, double\)', 'pxi'),
]
PTS = {'x': (0.0, 1.0, 2.0, 2.5, 5.0, 6.0, 6.5, 1e300, INF), 'y': (-INF, -1e300, -1.0, -0.75, -0.6, -0.5, -0.25, 0.0, 0.3, 0.5, 0.6, 0.75, 1.0, 1e300, INF)}


def grid_load(b, o):
    g = {'gx': XG, 'gy': YG}.get(b)
    if g is None: raise Unknown('memory')
    if o % 8 or not 0 <= o // 8 < len(g): raise Undefined('element %s of a grid of %d' % (o / 8, len(g)))
    return g[o // 8]


def run(ctx):
    ctx.rule('for grids with known end points and every region of the query point (below, on, inside, on, above; in both coordinates), each call of the interpolation library that is reached receives coordinates inside the grid, namely those of the query (fields: of the nearest grid point); outside the grid distributions are zero')
    m = ctx.module('--keep', r'^gsl_|SFile::', '--only', 'MagneticFieldNumeric2D|DistributionFunction|MagneticField2D')
    k = 0
    for sp in SPECS:
        fi = m.find(sp.init, suf='')
        fe = m.find(sp.evals, suf='')
        if sp.cls not in m.classes or len(fi) != 1 or not fe:
            ctx.undecided(sp.cls, 'initialiser or evaluators not found'); continue
        mv = members(ctx, m, sp, fi[0])
        if mv is None: continue
        for f in fe:
            if any(evalcalls(m, f)): k += 1
            check(ctx, m, sp, f, mv)
    ctx.need('evaluators', k, 1)


def evalcalls(m, f):
    for b in f.blocks.values():
        for i in b.insts:
            if i.is_call() and i.callee and EVAL.match(m.dem(i.callee).split('(')[0]): yield i


def members(ctx, m, sp, f):
    """values of the members after initialisation, by offset"""
    me = ('arg', f.this)
    offs = {}
    base = {}
    for ax, (kind, p, n) in sp.grids.items():
        nm, ln = ('gx', len(XG)) if ax == 'x' else ('gy', len(YG))
        if kind == 'arg': base[('arg', p)] = ('P', nm, 0); base[('arg', n)] = ln
        else:
            po, no = m.field_off(sp.cls, p), m.field_off(sp.cls, n)
            if po is None or no is None: ctx.undecided(sp.cls, 'members %s, %s not found' % (p, n)); return None
            offs[po] = ('P', nm, 0); offs[no] = ln

    def leaf(t):
        if t in base: return base[t]
        if t == me: return ('P', 'this', 0)
        if t[0] == 'ld':
            b, o, v = base_off(t[1])
            if b == me and not v and o in offs: return offs[o]
        if t[0] == 'arg': return ('P', t, 0) if f.args[t[1]].get('ty') == 'ptr' else None
        return None
    num = Num(leaf, grid_load)

    def cmp(p, a, b):
        try: return num.cmp(p, a, b)
        except Undefined: return None
    ai = AbsInt(f, cmp=cmp, eh='catch', purepat=PURE)
    rs = returns(ai)
    if not rs: ctx.undecided(sp.cls + '.init', 'initialisation does not return', f); return None
    out = dict(offs)
    for r in rs:
        mem = ai.mem_at(f.insts[r])
        for a, vs in mem.c.items():
            if not isinstance(a, tuple) or a[0] in ('strval', 'meta', 'cell'): continue
            try: b, o, v = base_off(a)
            except Exception: continue
            if b != me or v or len(vs) != 1: continue
            try: out[o] = num(next(iter(vs)))
            except Unknown: continue
            except Undefined as e:
                ctx.bad(sp.cls + '.init', f.loc(), 'initialisation of %s reads %s' % (sp.cls, e), f); return None
    ctx.ok(sp.cls + '.init', f)
    return out


def queries(sp, f):
    n = [k for k, a in enumerate(f.args) if a.get('ty') in ('double', 'float')]
    xs, ys = PTS['x'], PTS['y']
    if sp.args == 'cart':
        for r in xs:
            for z in ys:
                for x, y in ({(r, 0.0), (0.0, r), (-0.6 * r, 0.8 * r)} if r < 1e200 else {(r, 0.0)}): yield dict(zip(n, (x, y, z)))
    else:
        for p in (-1.0,) + xs:
            for q in ys: yield dict(zip(n, (p, q)))


def expected(sp, f, q, on):
    """coordinates at which to interpolate; None: outside, where a distribution is zero"""
    v = list(q.values())
    if sp.args == 'cart': return {'x': min(max(math.hypot(v[0], v[1]), XG[0]), XG[-1]), 'y': min(max(v[2], YG[0]), YG[-1])}
    if not XG[0] <= v[0] <= XG[-1]: return None
    if 'y' not in sp.grids: return {'x': v[0]}
    y = -v[1] if 'flipPitchSign' in on else v[1]
    return {'x': v[0], 'y': y} if YG[0] <= y <= YG[-1] else None


def check(ctx, m, sp, f, mv):
    me = ('arg', f.this)
    flags = [(n, o) for n, o, ty, sz in m.classes[sp.cls]['members'] if sz == 1 and n not in ('allowExtrapolation',)]
    flags += [(n, m.field_off(sp.cls, n)) for n in ('hasFluxCoordinates',) if m.field_off(sp.cls, n) is not None]
    flags = list({o: (n, o) for n, o in flags}.values())
    lohi = {'x': (XG[0], XG[-1]), 'y': (YG[0], YG[-1])}
    seen = {}; und = set(); zero = {}
    for bits in itertools.product((0, 1), repeat=len(flags)):
        fl = {o: b for (n, o), b in zip(flags, bits)}
        for q in queries(sp, f):
            def leaf(t):
                if t == me: return ('P', 'this', 0)
                if t[0] == 'arg': return q.get(t[1])
                if t[0] == 'ld':
                    b, o, v = base_off(t[1])
                    if b == me and not v:
                        if o in fl: return fl[o]
                        if o in mv: return mv[o]
                return None
            num = Num(leaf, grid_load)

            def cmp(p, a, b):
                try: return num.cmp(p, a, b)
                except Undefined: return None
            def flag(t):
                if t[0] == 'ld':
                    b, o, v = base_off(t[1])
                    if b == me and not v and o in fl: return ('i', fl[o])
                return t
            ai = AbsInt(f, cmp=cmp, eh='catch', purepat=PURE, hook=flag)
            want = expected(sp, f, q, {n for n, o in flags if fl[o]})
            if want is None:
                want = {}
                for r in returns(ai):
                    for t in ai.ev(f.insts[r].ops[0]) if f.insts[r].ops else ():
                        try: v = num(t)
                        except (Unknown, Undefined): zero.setdefault('und', 'value outside the grid not understood'); continue
                        if v != 0: zero.setdefault('bad', (f.insts[r].loc(), 'is %s outside the grid (query %s)' % (v, ', '.join('%g' % x for x in q.values()))))
            for i in ai.reached_insts():
                if not i.is_call() or not i.callee: continue
                g = EVAL.match(m.dem(i.callee).split('(')[0])
                if not g: continue
                two = '2d' in g.group(1)
                at = 1 if 'spline' in g.group(1) else (4 if two else 3)
                key = (i.id, i.loc())
                seen.setdefault(key, None)
                for ax, o in (('x', i.ops[at]),) + ((('y', i.ops[at + 1]),) if two else ()):
                    for t in ai.ev(o):
                        try: v = num(t)
                        except (Unknown, Undefined): und.add('%s: coordinate %s not understood' % (i.loc(), fmt(t)[:60])); continue
                        lo, hi = lohi[ax]
                        if isinstance(v, tuple) or v != v: continue
                        w = want.get(ax)
                        if lo <= v <= hi and w is not None and seen[key] is None and not (abs(v - w) <= 1e-9 * (1 + abs(w))):
                            seen[key] = 'interpolates at %s=%g instead of %g (query %s%s)' % ('first' if ax == 'x' else 'second', v, w, ', '.join('%g' % x for x in q.values()), ''.join(', %s' % n for n, o2 in flags if fl[o2]))
                        if not (lo <= v <= hi) and seen[key] is None:
                            seen[key] = 'asks for %s=%g outside the grid [%g, %g] (query %s%s)' % ('first' if ax == 'x' else 'second', v, lo, hi, ', '.join('%g' % x for x in q.values()),
                                                                                                 ''.join(', %s' % n for n, o2 in flags if fl[o2]))
    short = f.dem.split('(')[0]
    for n, ((iid, loc), p) in enumerate(sorted(seen.items())):
        fin(ctx, '%s.%d' % (short, n), short, f, [(loc, p)] if p else [], [])
    if sp.args == 'pxi': fin(ctx, short + '.outside', short, f, [zero['bad']] if 'bad' in zero else [], [zero['und']] if 'und' in zero else [])
    if und: fin(ctx, short + '.und', short, f, [], sorted(und))
