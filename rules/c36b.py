"""The analytical magnetic field (C36)."""
import math, re, itertools
import alg
from alg import C, V, add, sub, mul, div, neg, sq, sqrt, power, equal, fn as fun
from small import INF
from px import Limit
from c04 import fin
from c20 import adr, uniq

AF = 'MagneticFieldAnalytical2D'
B0, RM, ZM, A, Q1, Q2 = [V(n) for n in ('B0', 'Rm', 'zm', 'a', 'q1', 'q2')]
RANGE = {'B0': (1, 5), 'Rm': (3, 4), 'zm': (0.1, 0.4), 'a': (0.5, 1), 'q1': (1, 2), 'q2': (1.1, 2), 'x': (1.5, 2), 'y': (1.5, 2), 'z': (0.6, 0.9)}
TYPES = {
    'MFASF_CONSTANT': lambda t: Q1, 'MFASF_LINEAR': lambda t: add(mul(Q1, t), Q2), 'MFASF_QUADRATIC': lambda t: add(mul(Q1, sq(t)), Q2),
    'MFASF_EXPONENTIAL': lambda t: add(fun('exp', mul(t, Q1)), Q2),
    'MFASF_CURRENT': lambda t: div(Q1, sub(C(1), mul(div(C(2), add(Q2, C(2))), fun('pow', t, Q2)))),
}
PTS = [alg.Point('a%d' % k, RANGE) for k in range(3)]
OUT = [alg.Point('o%d' % k, dict(RANGE, x=(-4, -3.6), y=(1.5, 2), z=(-0.6, -0.3))) for k in range(3)]


def eq(a, b, pts=PTS):
    return equal(a, b, points=pts)


def enums(m, name):
    for k, x in m.enums.items():
        if name in (k, x.get('name')): return dict(x['vals'])
    return {}


def expect(q, sI, sB, x, y, z):
    """Bx, By, Bz, flux at (x, y, z)"""
    R = sqrt(add(sq(x), sq(y))) if y != C(0) else x
    Z = sub(z, ZM)
    r2 = add(sq(sub(RM, R)), sq(Z))
    qv = q(div(sqrt(r2), A))
    BR = mul(C(sI), div(mul(B0, Z), mul(qv, R)))
    BZ = mul(C(sI), div(mul(B0, sub(RM, R)), mul(qv, R)))
    BP = mul(C(sB), div(mul(B0, RM), R))
    c, s = div(x, R), div(y, R)
    return (sub(mul(BR, c), mul(BP, s)), add(mul(BR, s), mul(BP, c)), BZ), mul(C(sI), div(mul(mul(C(PIQ), B0), r2), qv))


from fractions import Fraction
PIQ = Fraction(3.14159265358979323846)


def offs(m):
    o = {n: m.field_off(AF, n) for n in ('B0', 'Rm', 'maxis_z', 'rminor', 'sigmaB', 'sigmaI', 'safety_factor_type', 'safety_factor_param1', 'safety_factor_param2')}
    return None if None in o.values() else o


def cells(o, sI, sB, t, q2=None):
    return {adr(o['B0']): ('e', B0), adr(o['Rm']): ('e', RM), adr(o['maxis_z']): ('e', ZM), adr(o['rminor']): ('e', A), adr(o['sigmaB']): ('e', C(sB)), adr(o['sigmaI']): ('e', C(sI)),
            adr(o['safety_factor_type']): ('i', t), adr(o['safety_factor_param1']): ('e', Q1), adr(o['safety_factor_param2']): ('e', q2 or Q2)}


def field(ctx, m):
    from c36 import Run
    if AF not in m.classes: ctx.undecided(AF, 'class not found'); return 0
    o = offs(m); en = enums(m, 'MFASafetyFactorType'); sg = enums(m, 'MFAFieldSign')
    if o is None or not en: ctx.undecided(AF, 'members not found'); return 0
    ev = [f for f in m.method(AF, 'Eval') if not f.suf and f.dem.endswith('(double, double, double)')]
    fl = [f for f in m.method(AF, 'EvalFlux') if not f.suf and f.dem.endswith('(double, double, double)')]
    X = (V('x'), V('y'), V('z'))
    args = {i + 1: ('e', v) for i, v in enumerate(X)}
    for nm, q in TYPES.items():
        if nm not in en: ctx.undecided('%s.%s' % (AF, nm), 'enumerator not found'); continue
        for inf in ((False, True) if nm == 'MFASF_CURRENT' else (False,)):
            for kind, fs in (('field', ev), ('flux', fl)):
                probs, und = [], []
                if len(fs) != 1: ctx.undecided('%s.%s.%s' % (AF, kind, nm), 'not found'); continue
                f = fs[0]
                for sI, sB, pts in itertools.product((1, -1), (1, -1), (PTS, OUT)):
                    want, flux = expect(q if not inf else (lambda t: Q1), sI, sB, *X)
                    try: w = Run(m, f, args, cells(o, sI, sB, en[nm], INF['inf'] if inf else None), pts[0])
                    except Limit: und.append('too many states'); continue
                    und += w.unk
                    where = '%s, signs %+d %+d' % (nm, sB, sI)
                    if not w.out and not w.unk: probs.append((w.exc[0][1].loc(), where + ': refused')) if w.exc else und.append('no outcome')
                    for st, I, v, mem in w.out:
                        if kind == 'flux': got, exp, names = [v], [flux], ['the flux']
                        else:
                            if v is None or v[0] in 'ie': und.append('result not understood'); continue
                            got, exp, names = [w.read(mem, w.addr(v, 8 * k), 'double') for k in range(3)], want, ['component %s of the field' % c for c in 'xyz']
                        for g, e, n in zip(got, exp, names):
                            g = w.num(g) if g is not None else None
                            if g is None: und.append('%s: %s not understood' % (where, n)); continue
                            r = eq(g, e, pts)
                            if r[0] == 'no': probs.append((I.loc(), '%s: %s is not that of the formula (%s)' % (where, n, r[1])))
                            elif r[0] == '?': und.append('%s: %s' % (where, r[1]))
                fin(ctx, '%s.%s.%s%s' % (AF, kind, nm, '.flat' if inf else ''), f.dem.split('(')[0], f, uniq(probs), sorted(set(und))[:3])
    if len(ev) == 1 and 'MFASF_LINEAR' in en:
        f = ev[0]; probs, und = [], []
        for s in (1, -1):
            try: w = Run(m, f, {1: ('e', RM), 2: ('e', C(0)), 3: ('e', ZM)}, cells(o, 1, s, en['MFASF_LINEAR']), PTS[0])
            except Limit: und.append('too many states'); continue
            und += w.unk
            if not w.out and not w.unk: probs.append((w.exc[0][1].loc(), 'refused on the axis')) if w.exc else und.append('no outcome')
            for st, I, v, mem in w.out:
                if v is None or v[0] in 'ie': und.append('result not understood'); continue
                for k, e in enumerate((C(0), mul(C(s), B0), C(0))):
                    g = w.read(mem, w.addr(v, 8 * k), 'double'); g = w.num(g) if g is not None else None
                    if g is None: und.append('component %s on the axis not understood' % 'xyz'[k]); continue
                    try: finite = alg.mp.isfinite(alg.value(g, PTS[0]))
                    except alg.Opaque as x:
                        if 'division by zero' not in str(x): und.append(str(x)); continue
                        finite = False
                    except Exception as x: und.append(str(x)); continue
                    if not finite: probs.append((I.loc(), 'component %s of the field on the magnetic axis is not a number' % 'xyz'[k])); continue
                    r = eq(g, e)
                    if r[0] == 'no': probs.append((I.loc(), 'component %s of the field on the magnetic axis is wrong (%s)' % ('xyz'[k], r[1])))
                    elif r[0] == '?': und.append(r[1])
        fin(ctx, AF + '.field.axis', AF + '::Eval', f, uniq(probs), sorted(set(und))[:3])
    numeric(ctx, m, o, en)
    construct(ctx, m, o, en, sg)
    return 1


def numeric(ctx, m, o, en):
    from c36 import Run

    class Tab(Run):
        def opaque(self, st, I, dem, args, mem):
            if dem.startswith('MagneticFieldNumeric2D::MagneticFieldNumeric2D('):
                rows = {}
                ptr = [a for a in args]
                return [(None, self.event(st, 'make', dem, tuple(args), tuple(sorted(((k, v) for k, v in mem.items() if k[0] in ('h', 'p', 'lost')), key=repr)), I.loc()), None, None)]
            return None

        def initial(self, a, ty):
            b, k = self.split_ptr(a)
            if b in (('t', 'rd'), ('t', 'zd')) and k % 8 == 0 and 0 <= k < 24: return ('e', V('%s%d' % (b[1][0] + 'w', k // 8)))
            return Run.initial(self, a, ty)
    fs = [f for f in m.method(AF, 'ToNumeric2D') if not f.suf]
    od = [m.field_off('MagneticField2D', n) for n in ('rdomain', 'zdomain', 'ndomain', 'magnetic_axis')]
    if len(fs) != 1 or None in od: ctx.undecided(AF + '.ToNumeric2D', 'not found'); return
    f = fs[0]
    for nr, nz in ((4, 2), (2, 4), (4, 6)):
        probs, und = [], []
        for sI, sB, q in ((1, 1, 'MFASF_CONSTANT'), (-1, 1, 'MFASF_LINEAR'), (1, -1, 'MFASF_CONSTANT')):
            if q not in en: continue
            c = cells(o, sI, sB, en[q])
            c.update({adr(od[0]): ('t', 'rd'), adr(od[1]): ('t', 'zd'), adr(od[2]): ('i', 3), adr(od[3]): ('e', RM), adr(od[3] + 8): ('e', ZM)})
            try: w = Tab(m, f, {1: ('i', nr), 2: ('i', nz)}, c, PTS[0])
            except Limit: und.append('too many states'); continue
            und += w.unk
            where = '%d x %d nodes, signs %+d %+d' % (nr, nz, sB, sI)
            if not w.out and not w.unk: probs.append((w.exc[0][1].loc(), where + ': refused')) if w.exc else und.append('no outcome')
            for st, I, v, mem in w.out:
                mk = [e for e in st[1] if e[0] == 'make']
                if len(mk) != 1: und.append('construction of the numeric field not found'); continue
                _, dem, a, snap, loc = mk[0]
                sig = dem
                while '<' in sig: sig = re.sub(r'<[^<>]*>', '', sig)
                tys = [t.strip() for t in sig[sig.index('(') + 1:sig.rindex(')')].split(',')]
                tys = ['this'] + tys
                if len(tys) != len(a): und.append('constructor not recognised'); continue
                ptrs = [x for x, t in zip(a, tys) if t.startswith('double*')]; nums = [x for x, t in zip(a, tys) if t == 'double']; ints = [x for x, t in zip(a, tys) if t == 'unsigned int']
                if len(ptrs) < 10 or len(nums) != 2 or len(ints) < 4: und.append('constructor not recognised'); continue
                cell = dict(snap)
                def row(p, n):
                    if p is None or p[0] in 'ie': return None
                    gone = any(k[0] == 'lost' for k in cell)
                    return [w.num(cell[w.addr(p, 8 * k)]) if w.addr(p, 8 * k) in cell else None if gone or w.addr(p, 0) not in cell else 'unset' for k in range(n)]
                Rs = [add(sub(RM, A), div(mul(mul(C(2), A), C(i)), C(nr - 1))) for i in range(nr)]
                Zs = [add(sub(ZM, A), div(mul(mul(C(2), A), C(i)), C(nz - 1))) for i in range(nz)]
                chk(probs, und, loc, where, 'the radial grid', row(ptrs[0], nr), Rs)
                chk(probs, und, loc, where, 'the vertical grid', row(ptrs[1], nz), Zs)
                if ints[0] != ('i', nr) or ints[1] != ('i', nz): probs.append((loc, where + ': the extents handed on are not those of the grids'))
                E = [expect(TYPES[q], sI, sB, Rs[k % nr], C(0), Zs[k // nr]) for k in range(nr * nz)]
                for j, n in enumerate(('the radial component', 'the toroidal component', 'the vertical component')): chk(probs, und, loc, where, n, row(ptrs[2 + j], nr * nz), [e[0][j] for e in E])
                chk(probs, und, loc, where, 'the flux', row(ptrs[5], nr * nz), [e[1] for e in E])
                for x, e, n in zip(nums, (RM, ZM), ('radius', 'height')):
                    if x is not None and eq(w.num(x), e)[0] == 'no': probs.append((loc, '%s: the %s of the magnetic axis is not kept' % (where, n)))
                chk(probs, und, loc, where, 'the wall (radius)', row(ptrs[8], 3), [V('rw%d' % k) for k in range(3)])
                chk(probs, und, loc, where, 'the wall (height)', row(ptrs[9], 3), [V('zw%d' % k) for k in range(3)])
                if ints[3] != ('i', 3): probs.append((loc, where + ': the number of wall points is not kept'))
        fin(ctx, '%s.ToNumeric2D.%dx%d' % (AF, nr, nz), AF + '::ToNumeric2D', f, uniq(probs), sorted(set(und))[:3])


def chk(probs, und, loc, where, what, got, want):
    if got is None or None in got: und.append('%s: %s not known' % (where, what)); return
    for k, (g, e) in enumerate(zip(got, want)):
        if g == 'unset': probs.append((loc, '%s: element %d of %s is never set' % (where, k, what))); return
        r = eq(g, e)
        if r[0] == 'no': probs.append((loc, '%s: element %d of %s is wrong (%s)' % (where, k, what, r[1]))); return
        if r[0] == '?': und.append('%s: %s: %s' % (where, what, r[1])); return


def gaps(w, mem, r, z, N):
    """angles between consecutive points of the domain, seen from the axis"""
    p = PTS[0]; th = []
    for k in range(N):
        q = [w.num(w.read(mem, w.addr(b, 8 * k), 'double') or ('?',)) for b in (r, z)]
        if None in q: return None
        try: x, y = [float(alg.value(e, p)) for e in (sub(q[0], RM), sub(q[1], ZM))]
        except Exception: return None
        th.append(math.atan2(y, x))
    d = [abs(b - a) % (2 * math.pi) for a, b in zip(th, th[1:])]
    return [min(x, 2 * math.pi - x) for x in d]


def construct(ctx, m, o, en, sg):
    from c36 import Run
    fs = [f for f in m.method(AF, AF) if not f.suf and len(f.args) - f.this - 1 in (9, 11)]
    if not fs or len(sg) < 2: ctx.undecided(AF + '.construct', 'constructor not found'); return
    od = [m.field_off('MagneticField2D', n) for n in ('rdomain', 'zdomain', 'ndomain', 'magnetic_axis', 'rseparatrix', 'zseparatrix', 'nseparatrix')]
    for f in fs:
        probs, und = [], []
        for b, i in itertools.product(('MFAFS_CW', 'MFAFS_CCW'), repeat=2):
            if b not in sg or i not in sg: continue
            t = en.get('MFASF_LINEAR', 1)
            args = {1: ('e', B0), 2: ('e', RM), 3: ('e', ZM), 4: ('e', A), 5: ('i', sg[b]), 6: ('i', sg[i]), 7: ('i', t), 8: ('e', Q1), 9: ('e', Q2), 10: ('t', 'name'), 11: ('t', 'text')}
            try: w = Run(m, f, args, {}, PTS[0])
            except Limit: und.append('too many states'); continue
            und += w.unk
            where = 'field %s, current %s' % (b[6:], i[6:])
            if not w.out and not w.unk: probs.append((w.exc[0][1].loc(), where + ': refused')) if w.exc else und.append('no outcome')
            want = cells(o, -1 if i == 'MFAFS_CW' else 1, -1 if b == 'MFAFS_CW' else 1, t)
            if None not in od: want.update({adr(od[3]): ('e', RM), adr(od[3] + 8): ('e', ZM)})
            for st, I, v, mem in w.out:
                for a, e in want.items():
                    g = w.read(mem, a, 'double')
                    if g is None: und.append('%s: member not known' % where); continue
                    x, y = w.num(g), w.num(e)
                    if x is None or eq(x, y)[0] == 'no': probs.append((f.loc(), '%s: %s is not what the constructor was given' % (where, [n for n, k in o.items() if adr(k) == a] or ['the magnetic axis'])))
                if None in od: continue
                n = w.read(mem, adr(od[2]), 'i32')
                if n is None or n[0] != 'i': und.append('size of the domain not known'); continue
                N = n[1]
                r, z = w.read(mem, adr(od[0]), 'ptr'), w.read(mem, adr(od[1]), 'ptr')
                if r is None or z is None or not 3 < N < 2000: und.append('domain not known'); continue
                for k in list(range(0, N - 1, 7)) + [N - 2, N - 1]:
                    x, y = w.read(mem, w.addr(r, 8 * k), 'double'), w.read(mem, w.addr(z, 8 * k), 'double')
                    if x is None or y is None: und.append('point %d of the domain not known' % k); continue
                    d2 = add(sq(sub(w.num(x), RM)), sq(sub(w.num(y), ZM)))
                    if eq(d2, sq(A))[0] == 'no': probs.append((f.loc(), '%s: point %d of the domain is not at the minor radius from the axis' % (where, k)))
                x0, xn = [[w.num(w.read(mem, w.addr(q, 8 * k), 'double') or ('?',)) for q in (r, z)] for k in (0, N - 1)]
                if None not in x0 + xn and 'no' in [eq(p, q)[0] for p, q in zip(x0, xn)]: probs.append((f.loc(), where + ': the domain is not closed'))
                g = gaps(w, mem, r, z, N)
                if g and max(g) > 1.5 * 2 * math.pi / (N - 1): probs.append((f.loc(), '%s: the domain cuts a segment of %.3g times the regular one off the circle' % (where, max(g) * (N - 1) / (2 * math.pi))))
        fin(ctx, AF + '.construct.%d' % (len(f.args) - f.this - 1), AF + '::' + AF, f, uniq(probs), sorted(set(und))[:3])
