"""C19: radial profiles: zero outside the limits, the documented shape inside, bad limits refused."""
import re
from absint import AbsInt, base_off
from alg import C, V, ONE, ZERO, Opaque, add, conv, div, equal, fn as fun, mul, neg, power, show, sign, sq, sub
import alg

RMIN, RMAX, RHO = V('rmin'), V('rmax'), V('rho')
X = div(sub(RHO, RMIN), sub(RMAX, RMIN))
J01 = C(2.4048255576957727686)
SHAPES = {
    'LinearRadialProfile': (lambda p: sub(ONE, X), '1 - x'),
    'PowerRadialProfile': (lambda p: sub(ONE, fun('pow', X, p[0])), '1 - x^b'),
    'BesselRadialProfile': (lambda p: fun('gsl_sf_bessel_J0', mul(J01, X)), 'J0(j01 x)'),
    'GaussianRadialProfile': (lambda p: mul(p[0], fun('exp', neg(div(sq(sub(RHO, p[1])), sq(p[2]))))), 'a exp(-(rho-b)^2/c^2)'),
}


def ctor_state(m, cls, ct):
    """member offset -> formula over the constructor's parameters, at every normal return"""
    par = {}
    names = ['rmin', 'rmax']
    k = 0
    for i in range(ct.this + 1, len(ct.args)):
        par[i] = V(names[k]) if k < 2 else V('p%d' % (k - 2)); k += 1

    def leaf(t):
        if t[0] == 'arg' and t[1] in par: return par[t[1]]
        return None
    return par, leaf


def run(ctx):
    ctx.rule('for every position of the shifted radius relative to the limits (below, at the inner limit, inside, above), with the members as the constructor left them, evaluation returns 0 outside and the documented shape of the shifted radius inside')
    ctx.rule('the constructor returns normally for an inner limit below the outer one and never for an inner limit equal to or above it')
    m = ctx.module('--only', r'RadialProfile')
    n = 0
    for cls in sorted(m.derived('RadialProfile')):
        if cls not in SHAPES: continue
        ev = [f for f in m.method(cls, 'Eval') if f.cls == cls and re.search(r'::Eval\(double, double\)', f.dem)]
        ct = [f for f in m.method(cls, cls) if f.cls == cls and len(f.args) >= f.this + 3]
        if not ev or not ct: ctx.undecided(cls, 'evaluation or constructor not found'); continue
        n += 1
        ev, ct = ev[0], ct[0]
        par, leaf = ctor_state(m, cls, ct)
        construct(ctx, m, cls, ct, par, leaf)
        # member state after construction
        def okcmp(pred, a, b): return ordered(pred, a, b, leaf, {RMAX: add(RMIN, V('w'))}, [V('w')])
        ai = AbsInt(ct, cmp=okcmp)
        st = {}
        bad = False
        for r in ai.rets:
            if ct.insts[r].blk.id not in ai.reached: continue
            mem = ai.mem_at(ct.insts[r])
            for name, off, ty, sz in m.classes[cls]['members'] if cls in m.classes else []:
                a = ('ptr', ('arg', ct.this), off) if off else ('arg', ct.this)
                ts = ai.load(mem, a, ty)
                try: es = {conv(t, leaf) for t in ts}
                except Opaque: continue
                if off in st and st[off] != es: bad = True
                st[off] = es
        st = {o: next(iter(e)) for o, e in st.items() if len(e) == 1}
        npar = len(par) - 2
        shape = SHAPES[cls][0]([V('p%d' % k) for k in range(npar)])
        evaluate(ctx, m, cls, ev, st, shape, SHAPES[cls][1])
    ctx.need('bounded radial profiles', n, 2)


def ordered(pred, a, b, leaf, case, pos):
    """decide a comparison from the sign of the difference under a case"""
    try: d = alg.subst(sub(conv(a, leaf), conv(b, leaf)), case)
    except Opaque: return None
    s = sign(d, pos)
    if s is None: return None
    q = pred[1:] if pred[0] in 'ou' and pred not in ('ord', 'uno') else pred
    if pred == 'ord': return True
    if pred == 'uno': return False
    return {'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}.get(q)


def construct(ctx, m, cls, ct, par, leaf):
    W = V('w')
    pp = [v for v in par.values() if v not in (RMIN, RMAX)]
    for nm, case, want in (('inner limit below the outer one', {RMAX: add(RMIN, W)}, True), ('equal limits', {RMAX: RMIN}, False), ('outer limit below the inner one', {RMAX: sub(RMIN, W)}, False)):
        ai = AbsInt(ct, cmp=lambda p, a, b: ordered(p, a, b, leaf, case, [W] + pp))
        normal = any(ct.insts[r].blk.id in ai.reached for r in ai.rets)
        key = '%s.construct.%s' % (cls, nm.replace(' ', '-'))
        if normal == want: ctx.ok(key, ct)
        elif want: ctx.bad(key, ct.loc(), '%s: construction always fails for an %s' % (cls, nm), ct)
        else:
            und = forks(ct, ai)
            if und: ctx.undecided(key, 'construction depends on a condition that is not an order of the limits', ct)
            else: ctx.bad(key, ct.loc(), '%s: construction succeeds with %s' % (cls, nm), ct)


def evaluate(ctx, m, cls, ev, st, shape, text):
    R, S = ('arg', ev.this + 1), ('arg', ev.this + 2)

    def leaf(t):
        if t == R: return V('r')
        if t == S: return V('shift')
        if t[0] == 'ld':
            b, o, v = base_off(t[1])
            if b == ('arg', ev.this) and not v: return st.get(o)
        return None
    U, W, T = V('u'), V('w'), V('t')
    sh = V('shift')
    cases = (('below the inner limit', {V('r'): add(sh, sub(RMIN, U)), RMAX: add(RMIN, W)}, False),
             ('at the inner limit', {V('r'): add(sh, RMIN), RMAX: add(RMIN, W)}, True),
             ('between the limits', {V('r'): add(sh, add(RMIN, U)), RMAX: add(RMIN, add(U, W))}, True),
             ('above the outer limit', {V('r'): add(sh, add(RMIN, add(U, W))), RMAX: add(RMIN, W)}, False))
    for nm, case, inside in cases:
        key = '%s.Eval.%s' % (cls, nm.replace(' ', '-'))
        ai = AbsInt(ev, cmp=lambda p, a, b: ordered(p, a, b, leaf, case, [U, W]))
        verdict = judge(ev, ai, leaf, case, inside, nm, shape, text)
        if not verdict: ctx.bad(key, ev.loc(), '%s never returns for a shifted radius %s' % (ev.dem, nm), ev); continue
        if all(v[0] == 'yes' for v in verdict): ctx.ok(key, ev); continue
        if all(v[0] == 'no' for v in verdict): ctx.bad(key, ev.loc(), '%s: for a shifted radius %s %s' % (ev.dem, nm, verdict[0][1]), ev); continue
        # some comparison does not follow from the case: look for limits and a radius in this case that decide it wrongly
        hit = None
        for q, (a, b, c, d) in enumerate([(1, 3, 50, 2), (0, 1, 1000, 3), (5, 2, 10, 7), (2, 7, 300, 1), (0, 4, 3, 5), (3, 1, 100000, 2), (1, 3, 5, -90), (2, 5, 7, 80), (0, 2, 9, -3)]):
            pt = {RMIN: C(alg.Fraction(a, 4)), W: C(alg.Fraction(b, 3)), U: C(alg.Fraction(1, c)), sh: C(alg.Fraction(d, 11))}
            full = {k: alg.subst(alg.subst(v, pt), pt) for k, v in case.items()}; full.update(pt)
            for t in range(4): full[V('p%d' % t)] = C(alg.Fraction(3 + 2 * t + q, 4))
            ai = AbsInt(ev, cmp=lambda p, x, y: ordered(p, x, y, leaf, full, []))
            v = judge(ev, ai, leaf, full, inside, nm, shape, text)
            if v and all(x[0] == 'no' for x in v): hit = v[0][1] + ', e.g. with rmin = %s, rmax = %s, rho = %s' % tuple(show(alg.subst(x, full)) for x in (RMIN, RMAX, sub(V('r'), sh))); break
        if hit: ctx.bad(key, ev.loc(), '%s: for a shifted radius %s %s' % (ev.dem, nm, hit), ev)
        else: ctx.undecided(key, '; '.join(v[1] for v in verdict if v[0] != 'yes'), ev)


def judge(ev, ai, leaf, case, inside, nm, shape, text):
    out = []
    for t in ai.ret_terms():
        try: e = conv(t, leaf)
        except Opaque as x: out.append(('?', 'returns %s' % x)); continue
        if inside:
            want = alg.subst(shape, {RHO: sub(V('r'), V('shift'))})
            r, how = same(alg.subst(e, case), alg.subst(want, case))
            out.append((r, 'it returns %s, not the shape %s of the shifted radius (%s)' % (show(e)[:120], text, how)))
        else: out.append(('yes', '') if e == ZERO else ('no', 'it returns %s instead of 0' % show(e)[:120]))
    return out


def same(a, b):
    if alg.Normal().zero(sub(a, b)): return 'yes', 'normal form'
    return equal(a, b)


def forks(fn, ai):
    """does a reached conditional branch go both ways?"""
    for b in ai.reached:
        if fn.blocks[b].insts[-1].op in ('br', 'switch') and sum((b, s) in ai.edges for s in fn.blocks) > 1: return True
    return False
