"""C32: derivatives returned by a magnetic field are the derivatives of the field it returns."""
import re
from absint import AbsInt, base_off, mkptr, padd
from alg import C, V, ONE, ZERO, Opaque, Point, add, conv, diff, div, equal, fn as fun, mul, neg, show, size, sq, sqrt, ssum, sub, value
import alg

XYZ = [V('x'), V('y'), V('z')]
INTERP = re.compile(r'^gsl_spline2d_eval(_deriv_([xy]+))?(_extrap)?$')


class Field:
    """formulas of one evaluation routine on the region of a representative point"""

    def __init__(self, m, cls, pt, ints=None):
        self.m, self.cls, self.pt = m, cls, pt
        self.ints = ints or {}
        self.funcs = set()

    def leaf(self, fn):
        memo = {}; cm = {}

        def leaf(t):
            h = memo.get(id(t))
            if h is not None: return h[1]
            r = None
            if t[0] == 'arg' and t[1] > fn.this: r = [V('x'), V('y'), V('z')][t[1] - fn.this - 1] if t[1] - fn.this <= 3 else None
            elif t[0] == 'ld':
                b, o, v = base_off(t[1])
                if b == ('arg', fn.this) and not v:
                    n = self.m.field_at(fn.cls, o)
                    r = V(n) if n else None
            elif t[0] == 'pure' and t[1].startswith('spl:'):
                r = fun(t[1], *[conv(a, leaf, cm) for a in t[2]])
            memo[id(t)] = (t, r)
            return r
        return leaf

    def run(self, fn):
        leaf = self.leaf(fn)

        def cmp(pred, a, b):
            try: ea, eb = conv(a, leaf), conv(b, leaf)
            except Opaque: return None
            try: x, y = self.val(ea), self.val(eb)
            except (Opaque, ValueError, ZeroDivisionError): return None
            if pred in ('ord', 'uno'): return pred == 'ord'
            q = pred[1:] if pred[0] in 'ouse' and pred not in ('eq',) else pred
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q)

        def hook(t):
            if t[0] == 'ld':
                b, o, v = base_off(t[1])
                if b == ('arg', fn.this) and not v and self.ints:
                    n = self.m.field_at(fn.cls, o)
                    if n in self.ints: return ('i', self.ints[n])
            return t

        def callhook(inst, dem, args, mem, ai_):
            mt = INTERP.match(dem.split('(')[0])
            if mt and len(args) >= 3:
                d = mt.group(2) or ''
                s = next(iter(args[0])) if len(args[0]) == 1 else None
                n = None
                if s is not None and s[0] == 'ld':
                    b, o, v = base_off(s[1])
                    if b == ('arg', fn.this) and not v: n = self.m.field_at(fn.cls, o)
                if n and len(args[1]) == 1 and len(args[2]) == 1:
                    return frozenset([('pure', 'spl:%s:%d:%d' % (n, d.count('x'), d.count('y')), (next(iter(args[1])), next(iter(args[2]))))])
            return None
        self.funcs.add(fn)
        ai = AbsInt(fn, cmp=cmp, hook=hook, callhook=callhook)
        return ai, leaf

    def val(self, e):
        if e[0] == 'v' and isinstance(e[1], tuple) and e[1][0] == 'const': return {'inf': alg.mp.inf, '-inf': -alg.mp.inf}.get(e[1][1], alg.mp.nan)
        return value(e, self.pt)

    def at(self, ai, fn, addr, leaf):
        """formula stored at an address on return"""
        out = set()
        for r in ai.rets:
            if fn.insts[r].blk.id not in ai.reached: continue
            for t in ai.load(ai.mem_at(fn.insts[r]), addr, 'double'): out.add(t)
        if len(out) != 1: raise Opaque('%d possible values' % len(out))
        t = out.pop()
        e = conv(t, leaf)
        if e[0] == 'v' and t[0] == 'ld': raise Opaque('not written')
        return e

    def ret(self, ai):
        ts = ai.ret_terms()
        if len(ts) != 1: raise Opaque('%d possible results' % len(ts))
        return next(iter(ts))


def dspl(e, da):
    if not e[1].startswith('spl:'): return None
    _, n, i, j = e[1].split(':'); i, j = int(i), int(j)
    return add(mul(da[0], fun('spl:%s:%d:%d' % (n, i + 1, j), *e[2])), mul(da[1], fun('spl:%s:%d:%d' % (n, i, j + 1), *e[2])))


def D(e, x): return diff(e, x, dspl)


def method(m, cls, short, np=3):
    for f in m.method(cls, short):
        if not f.suf and f.dem.endswith('(%s)' % ', '.join(['double'] * np)): return f
    return None


def sub_off(m, struct, name):
    for n, o, t, sz in m.classes[struct]['members']:
        if n == name: return o
    return None


def members(m, cls, name):
    return m.field_off(cls, name)


def points(cls):
    out = []
    for k in range(10):
        env = {'x': (0.3, 1.5) if k % 2 else (-1.5, -0.3), 'y': (0.3, 1.5) if k % 4 < 2 else (-1.5, -0.3), 'z': (-0.9, -0.2) if k % 3 else (0.2, 0.9), 'maxis_z': (-0.1, 0.1),
               'Rm': (1.6, 2.2), 'rminor': (0.8, 1.2), 'B0': (2, 5), 'rmin': (0.05, 0.1), 'rmax': (3, 4), 'zmin': (-4, -3), 'zmax': (3, 4)}
        if k % 3 == 1: env.update(sigmaB=-1, sigmaI=1)
        elif k % 3 == 2: env.update(sigmaB=1, sigmaI=-1)
        else: env.update(sigmaB=1, sigmaI=1)
        out.append(Point('%s%d' % (cls, k), env))
    return out


def compare(ctx, key, loc, what, got, want, pts, fn, sink):
    """obligation `got is the same function as want'"""
    r, how = equal(got, want, pts)
    sink.setdefault(key, []).append((r, loc, '%s: %s (%s); it computes %s' % (fn.dem.split('(')[0], what, how, show(got)[:160]), fn))


def settle(ctx, sink):
    for key, vs in sorted(sink.items()):
        if '.interpolant.' in key:  # the same call seen from several entry points
            vs = [v for v in vs if v[0] != '?' or not any(w[0] != '?' and w[1] == v[1] for w in vs)]
        bad = [v for v in vs if v[0] == 'no']; und = [v for v in vs if v[0] == '?']
        if bad: ctx.bad(key, bad[0][1], bad[0][2], bad[0][3])
        elif und: ctx.undecided(key, und[0][2], und[0][3])
        else: ctx.ok(key, vs[0][3])


def lastloc(fn, ai, addr):
    """location of the last store to an address"""
    loc = fn.loc()
    for i in ai.reached_insts():
        if i.op == 'store' and addr in ai.val(i.ops[1]): loc = i.loc()
    return loc


def field(ctx, m, cls, label, ints, sink, env=None):
    n = 0
    ev, ed, ef, efd = (method(m, cls, s) for s in ('Eval', 'EvalDerivatives', 'EvalFlux', 'EvalFluxDerivatives'))
    pts = points(cls)
    if env:
        for p in pts: p.env.update(env)
    seen = set()
    for pt in pts:
        F = Field(m, cls, pt, ints)
        gp = [pt] + pts[:3]
        if ev is None: break
        try:
            ai, lf = F.run(ev)
            base = F.ret(ai)
            B = [F.at(ai, ev, padd(base, 8 * k), lf) for k in range(3)]
        except Opaque as x: sink.setdefault(label + '.Eval', []).append(('?', ev.loc(), str(x), ev)); continue
        sig = [tuple(sorted(ai.edges))]
        work = []
        if ed is not None:
            aid, ld = F.run(ed); sig.append(tuple(sorted(aid.edges)))
        if ef is not None:
            aif, lff = F.run(ef); aig, lg = F.run(efd); sig += [tuple(sorted(aif.edges)), tuple(sorted(aig.edges))]
        sig = tuple(sig)
        if sig in seen: continue
        seen.add(sig)
        x, y, z = XYZ
        R = sqrt(add(sq(x), sq(y)))
        # axisymmetry: the cylindrical components are those at (R, 0, z)
        rot = {x: R, y: ZERO}
        pl = [alg.subst(b, rot) for b in B]
        for k, (w, g) in enumerate((('radial', div(add(mul(x, B[0]), mul(y, B[1])), R)), ('toroidal', div(sub(mul(x, B[1]), mul(y, B[0])), R)), ('vertical', B[2]))):
            try: compare(ctx, '%s.axisymmetric.%s' % (label, w), ev.loc(), 'the %s component is not the one at the same major radius and height' % w, g, pl[k], gp, ev, sink)
            except Opaque as xx: sink.setdefault('%s.axisymmetric.%s' % (label, w), []).append(('?', ev.loc(), str(xx), ev))
        ab = sqrt(ssum(*[sq(b) for b in B]))
        if ed is not None:
            base = F.ret(aid)
            if base is None: continue
            S = 'magnetic_field_data'

            def chk(key, what, addr, want):
                try: g = F.at(aid, ed, addr, ld)
                except Opaque as xx: sink.setdefault(key, []).append(('?', ed.loc(), '%s: %s' % (what, xx), ed)); return None
                try: compare(ctx, key, lastloc(ed, aid, addr), what, g, want, gp, ed, sink)
                except Opaque as xx: sink.setdefault(key, []).append(('?', ed.loc(), '%s: %s' % (what, xx), ed))
                return g
            for k in range(3):
                c = 'xyz'[k]
                chk('%s.B%s' % (label, c), 'the %s component returned with the derivatives is not the field' % c, padd(base, sub_off(m, S, 'B') + 8 * k), B[k])
                chk('%s.gradB%s' % (label, c), 'the %s component of the gradient is not the derivative of |B|' % c, padd(base, sub_off(m, S, 'gradB') + 8 * k), D(ab, XYZ[k]))
                cu = sub(D(B[(k + 2) % 3], XYZ[(k + 1) % 3]), D(B[(k + 1) % 3], XYZ[(k + 2) % 3]))
                chk('%s.curlB%s' % (label, c), 'the %s component of the curl is not that of the field' % c, padd(base, sub_off(m, S, 'curlB') + 8 * k), cu)
            chk('%s.Babs' % label, 'the magnitude is not that of the field', padd(base, sub_off(m, S, 'Babs')), ab)
            try:
                jp = set()
                for r in aid.rets:
                    jp |= set(aid.load(aid.mem_at(ed.insts[r]), padd(base, sub_off(m, S, 'J')), 'ptr'))
                if len(jp) != 1: raise Opaque('Jacobian pointer')
                jp = jp.pop()
                for i in range(3):
                    row = set()
                    for r in aid.rets: row |= set(aid.load(aid.mem_at(ed.insts[r]), padd(jp, 8 * i), 'ptr'))
                    if len(row) != 1: raise Opaque('Jacobian row')
                    row = row.pop()
                    for j in range(3):
                        chk('%s.J%d%d' % (label, i, j), 'element (%d,%d) of the Jacobian is not dB%s/d%s' % (i, j, 'xyz'[i], 'xyz'[j]), padd(row, 8 * j), D(B[i], XYZ[j]))
            except Opaque as xx: sink.setdefault(label + '.J', []).append(('?', ed.loc(), str(xx), ed))
        if ef is not None and efd is not None:
            try:
                psi = conv(F.ret(aif), lff)
                base = F.ret(aig)
                fd = {q: F.at(aig, efd, padd(base, sub_off(m, 'flux_diff', q)), lg) for q in ('psi', 'dpsi_dR', 'dpsi_dZ')}
            except Opaque as xx: sink.setdefault(label + '.flux', []).append(('?', ef.loc(), str(xx), ef)); continue
            for q, g, w, what in (('psi', fd['psi'], psi, 'the flux returned with the derivatives is not the flux'),
                                  ('dpsi_dR', mul(fd['dpsi_dR'], div(x, R)), D(psi, x), 'dpsi_dR is not the derivative of the flux with the major radius'),
                                  ('dpsi_dR.y', mul(fd['dpsi_dR'], div(y, R)), D(psi, y), 'dpsi_dR is not the derivative of the flux with the major radius'),
                                  ('dpsi_dZ', fd['dpsi_dZ'], D(psi, z), 'dpsi_dZ is not the derivative of the flux with the height')):
                loc = lastloc(efd, aig, padd(base, sub_off(m, 'flux_diff', q.split('.')[0])))
                try: compare(ctx, '%s.%s' % (label, q), loc, what, g, w, gp, efd, sink)
                except Opaque as xx: sink.setdefault('%s.%s' % (label, q), []).append(('?', loc, str(xx), efd))
    return len(seen)


def run(ctx):
    ctx.rule('on every region separated by the branches of the evaluation routines (one representative point each), the formulas stored as field, |B|, gradient, curl, Jacobian and flux derivatives equal the symbolic derivatives of the formulas returned by the plain evaluation')
    ctx.rule('the cylindrical components of the field at (x,y,z) are those at (R,0,z)')
    m = ctx.module('--only', r'MagneticField')
    sink = {}
    n = 0
    for cls in sorted(m.derived('MagneticField2D')):
        if method(m, cls, 'Eval') is None: continue
        if members(m, cls, 'safety_factor_type') is not None and 'MFASafetyFactorType' in m.enums:
            en = dict(m.enums['MFASafetyFactorType']['vals'])
            for name, v in sorted(en.items(), key=lambda q: q[1]):
                n += field(ctx, m, cls, '%s.%s' % (cls, name), {'safety_factor_type': v}, sink, {'safety_factor_param1': (0.5, 1.5), 'safety_factor_param2': (1.5, 2.5)})
                safety(ctx, m, cls, name, v, sink)
        else: n += field(ctx, m, cls, cls, {}, sink)
    tables(ctx, m, sink)
    settle(ctx, sink)
    ctx.need('regions of evaluation formulas', n, 3)


def safety(ctx, m, cls, name, v, sink):
    q, dq = method(m, cls, '__GetSafetyFactor', 1), method(m, cls, '__GetrDqDr', 1)
    if q is None or dq is None: return
    for inf in (0, 1):
        for pt in points(cls)[:3]:
            pt.env.update({'safety_factor_param1': (0.5, 1.5), 'safety_factor_param2': (1.5, 2.5)})
            if inf: pt.env['safety_factor_param2'] = 'inf'
            F = Field(m, cls, pt, {'safety_factor_type': v})
            key = '%s.%s.rdqdr%s' % (cls, name, '.inf' if inf else '')
            try:
                a, la = F.run(q); b, lb = F.run(dq)
                e, g = conv(F.ret(a), la), conv(F.ret(b), lb)
                w = mul(V('x'), D(e, V('x')))
            except Opaque as xx: sink.setdefault(key, []).append(('?', q.loc(), str(xx), q)); continue
            if inf and V('safety_factor_param2') in alg.variables(e) | alg.variables(g): continue
            try: compare(ctx, key, dq.loc(), 'the result is not r dq/dr of the safety factor', g, w, points(cls)[:3], dq, sink)
            except Opaque as xx: sink.setdefault(key, []).append(('?', q.loc(), str(xx), q))
            break


def tables(ctx, m, sink):
    """the interpolant used for a component is built from the table of that component"""
    cls = 'MagneticFieldNumeric2D'
    ev, ef = method(m, cls, 'Eval'), method(m, cls, 'EvalFlux')
    if ev is None: return
    use = {}
    for fn, names in ((ev, ('Br', 'Bphi', 'Bz')), (ef, ('Psi',))):
        if fn is None: continue
        pt = points(cls)[0]; pt.env['y'] = 0; pt.env['x'] = (0.4, 1.5)
        F = Field(m, cls, pt)
        try:
            ai, lf = F.run(fn)
            if fn is ev: es = [alg.subst(F.at(ai, ev, padd(F.ret(ai), 8 * k), lf), {V('y'): ZERO, V('x'): sqrt(sq(V('x')))}) for k in range(3)]
            else: es = [alg.subst(conv(F.ret(ai), lf), {V('y'): ZERO})]
        except Opaque: continue
        for n, e in zip(names, es):
            cand = {x[1].split(':')[1] for x in nodes(e) if x[0] == 'fn' and x[1].startswith('spl:')}
            hit = [c for c in cand if equal(e, fun('spl:%s:0:0' % c, sqrt(sq(V('x'))), V('z')), [pt])[0] == 'yes']
            key = '%s.interpolant.%s' % (cls, n)
            if len(hit) == 1: use[n] = hit[0]
            elif cand: sink.setdefault(key, []).append(('?', fn.loc(), 'at y = 0 the %s component is not the plain value of one interpolant' % n, fn))
    for fn in m.find(r'^MagneticField\w+::\w+\(', suf=''):
        if fn.cls is None or fn.cls not in [cls] + m.derived(cls): continue
        if not fn.calls(r'^gsl_spline2d_init'): continue
        ai = AbsInt(fn)
        for c in fn.calls(r'^gsl_spline2d_init'):
            if c.blk.id not in ai.reached: continue
            # who is initialised: the member, or the object just stored in it
            names = []
            for k, o in enumerate(c.ops[:6]):
                ns = set()
                for t in ai.val(o):
                    while t[0] == 'cast': t = t[2]
                    ns.add(member_of(m, fn, ai, c, t))
                names.append(ns.pop() if len(ns) == 1 else None)
            sp, R, Z, tab, nr, nz = (names + [None] * 6)[:6]
            for n, s_ in use.items():
                if s_ != sp: continue
                key = '%s.interpolant.%s' % (cls, n)
                got = (R, Z, tab, nr, nz); want = ('R', 'Z', n, 'nr', 'nz')
                if got == want: sink.setdefault(key, []).append(('yes', c.loc(), '', fn))
                elif None in got: sink.setdefault(key, []).append(('?', c.loc(), 'interpolant built from %s' % (got,), fn))
                else: sink.setdefault(key, []).append(('no', c.loc(), '%s builds the interpolant of the %s component from %s instead of %s' % (fn.dem.split('(')[0], n, got, want), fn))


def nodes(e, seen=None):
    if seen is None: seen = set()
    if e in seen: return seen
    seen.add(e)
    for y in (e[2] if e[0] == 'fn' else e.t[1:] if e[0] not in ('c', 'v') else ()): nodes(y, seen)
    return seen


def member_of(m, fn, ai, inst, t):
    """name of the member the value was loaded from or is stored in"""
    if t[0] == 'ld':
        b, o, v = base_off(t[1])
        if b == ('arg', fn.this) and not v: return m.field_at(fn.cls, o)
    hits = set()
    for a, vs in ai.mem_at(inst).c.items():
        b, o, v = base_off(a)
        if b == ('arg', fn.this) and not v and vs == frozenset([t]): hits.add(m.field_at(fn.cls, o))
    return hits.pop() if len(hits) == 1 else None
