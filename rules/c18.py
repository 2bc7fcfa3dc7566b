"""C18: the limits reported for the domain are those of the boundary in force."""
from fractions import Fraction
from absint import AbsInt, Poly, base_off, fmt, mkptr, padd
from alg import C, V, Opaque, add, conv, div, equal, mul, sub
import alg
import domaininst, extrema, loops
from extrema import after, callhook, entry_value, header_phis, top_loops
from part import Part

CLS = 'MagneticField2D'


def run(ctx):
    ctx.rule('every function that replaces the boundary (rdomain, zdomain, ndomain) stores its arguments in the matching members and leaves the cached bounds invalid and the radial limits recomputed on every normal return')
    ctx.rule('GetDomainBounds: cached bounds are handed out under their own names and only when marked valid; otherwise the scan covers [0, ndomain) and one iteration maps (min, max, element) to (min(min, element), max(max, element)) for every order of the three')
    ctx.rule('FindMaxRadius/FindMaxMin: every boundary segment is examined, one iteration records the linear interpolation of the coordinate exactly when the segment crosses the level, and the extremes are taken over all recorded points')
    m = ctx.module('--only', r'MagneticField2D')
    mem = {n: o for n, o in ((k, m.field_off(CLS, k)) for k in ('rdomain', 'zdomain', 'ndomain', 'maxradius', 'minradius', 'bounds_set', 'magnetic_axis', 'bounds'))}
    if any(v is None for v in mem.values()):
        ctx.undecided('members', 'members of MagneticField2D not found: %s' % [k for k, v in mem.items() if v is None]); return
    ctx.rule('on boundaries of three to eight points of every kind (vertices and edges on the level of the axis, several crossings, either sense, closed or not), after every sequence of setting a boundary, querying, setting another and querying again in another order, the bounds, radial and vertical limits are those of the boundary in force; a boundary that does not reach the level of the axis is refused')
    known = domaininst.run(ctx)
    if known: ctx = Soft(ctx)
    setters(ctx, m, mem)
    n = bounds(ctx, m, mem)
    n += crossings(ctx, m, mem)
    getters(ctx, m, mem)
    ctx.need('limit computations', n, 1)


class Soft:
    """arguments for every size depend on how loops are written: where the instances decide, these only add to the count"""
    def __init__(self, ctx): self.ctx = ctx
    def __getattr__(self, n): return getattr(self.ctx, n)
    def bad(self, key, loc, txt, fn=None): self.ctx.undecided(key, txt, fn)


def mcell(fn, off): return mkptr(('arg', fn.this), off)


def methods(m, short, np=None):
    return [f for f in m.method(CLS, short) if f.cls == CLS and not f.suf and (np is None or len(f.args) - f.this - 1 == np)]


# ---------------------------------------------------------------- replacing the boundary
def setters(ctx, m, mem):
    for f in m.find(r'^MagneticField2D::', suf=''):
        if f.cls != CLS or f.suf or f.short.startswith('~') or f.short == CLS: continue
        w = set()
        ai = AbsInt(f, eh=False)
        for i in ai.reached_insts():
            if i.op == 'store':
                for a in ai.val(i.ops[1]):
                    for k in ('rdomain', 'zdomain', 'ndomain'):
                        if a == mcell(f, mem[k]): w.add(k)
        if not w: continue
        for r in ai.rets:
            ri = f.insts[r]
            if ri.blk.id not in ai.reached: continue
            st = ai.mem_at(ri)
            key = '%s.cached-bounds' % f.short
            vs = ai.load(st, mcell(f, mem['bounds_set']), 'i8')
            if vs == {('i', 0)}: ctx.ok(key, f)
            elif all(t == ('ld', mcell(f, mem['bounds_set'])) or t == ('i', 1) for t in vs) and not calls_bounds(m, f, ai):
                ctx.bad(key, f.loc(), '%s replaces the boundary (%s) but the bounds computed for the previous one stay marked as valid' % (f.dem, ', '.join(sorted(w))), f)
            else: ctx.undecided(key, 'bounds_set on return: %s' % sorted(fmt(t) for t in vs), f)
            if f.short == 'SetDomain' and len(f.args) - f.this == 4:
                for k, q in (('rdomain', 1), ('zdomain', 2), ('ndomain', 3)):
                    vs = ai.load(st, mcell(f, mem[k]), '')
                    a = ('arg', f.this + q)
                    key = '%s.stores.%s' % (f.short, k)
                    if vs == {a}: ctx.ok(key, f)
                    elif all(t[0] == 'arg' and t != a or t == ('ld', mcell(f, mem[k])) or t[0] in ('i', 'null') for t in vs): ctx.bad(key, f.loc(), '%s stores %s in %s' % (f.dem, ', '.join(sorted(fmt(t) for t in vs)), k), f)
                    else: ctx.undecided(key, '%s becomes %s' % (k, sorted(fmt(t) for t in vs)), f)
        recomputed(ctx, m, mem, f, ai, w)


def calls_bounds(m, f, ai):
    return any(i.is_call() and (i.callee is None or 'GetDomainBounds' in m.dem(i.callee)) and 'FindM' not in vname(m, f, i) for i in ai.reached_insts())


def vname(m, f, i):
    """name of the method an indirect call selects from the object's own table"""
    if i.callee: return m.dem(i.callee)
    return vslot(m, f, i) or ''


def vslot(m, f, i):
    cv = i.d.get('cv')
    if not isinstance(cv, int): return None
    l = f.insts[cv]
    if l.op != 'load': return None
    off = 0; p = l.ops[0]
    if isinstance(p, int) and f.insts[p].op == 'getelementptr': off = f.insts[p].d.get('off', 0)
    for cls in [CLS] + sorted(m.derived(CLS)):
        vt = m.vts.get(cls)
        if vt and off // 8 < len(vt):
            s = vt[off // 8]
            d = m.dem(s) if isinstance(s, str) else ''
            if d and 'pure_virtual' not in d: return d
    return None


def recomputed(ctx, m, mem, f, ai, w):
    """every path from the stores to a return recomputes the radial limits, or marks them as unknown"""
    key = '%s.radial-limits' % f.short
    for r in ai.rets:
        ri = f.insts[r]
        if ri.blk.id not in ai.reached: continue
        st = ai.mem_at(ri)
        vs = {k: ai.load(st, mcell(f, mem[k]), 'double') for k in ('maxradius', 'minradius')}
        keep = [k for k in vs if ('ld', mcell(f, mem[k])) in vs[k]]
        find = [i for i in ai.reached_insts() if i.is_call() and 'FindM' in vname(m, f, i)]
        opaque = [i for i in ai.reached_insts() if i.is_call() and i not in find and ('arg', f.this) in {b for o in i.ops for t in ai.val(o) for b in [base_off(t)[0]]}]
        if find or not keep: 
            # the call has to come after the stores
            late = [i for i in ai.reached_insts() if i.op == 'store' and any(a in [mcell(f, mem[k]) for k in w] for a in ai.val(i.ops[1])) and find and all(before(f, c, i) for c in find)]
            if late: ctx.bad(key, late[0].loc(), '%s recomputes the radial limits before the boundary is replaced' % f.dem, f)
            else: ctx.ok(key, f)
        elif opaque or any(t[0] not in ('ld', 'f', 'arg') for k in keep for t in vs[k]): ctx.undecided(key, 'limits possibly recomputed by a called function', f)
        else: ctx.bad(key, f.loc(), '%s replaces the boundary but keeps %s of the previous one' % (f.dem, ' and '.join(keep)), f)


def before(f, a, b):
    """a executes before b on every path through both (same block or dominating)"""
    if a.blk.id == b.blk.id: return a.pos < b.pos
    idom = f.dominators(); x = b.blk.id
    while True:
        if x == a.blk.id: return True
        n = idom.get(x)
        if n is None or n == x: return False
        x = n


# ---------------------------------------------------------------- GetDomainBounds
def bounds(ctx, m, mem):
    fs = methods(m, 'GetDomainBounds', 4)
    for f in fs:
        names = ['rmin', 'rmax', 'zmin', 'zmax']
        P = {nm: ('arg', f.this + 1 + k) for k, nm in enumerate(names)}
        B = {nm: mcell(f, mem['bounds'] + 8 * k) for k, nm in enumerate(names)}
        flag = ('ld', mcell(f, mem['bounds_set']))

        def cached(v):
            def hook(t):
                if t == flag: return ('i', v)
                return t
            return hook
        # valid cache
        ai = AbsInt(f, hook=cached(1), eh=False, callhook=callhook)
        if any(h in ai.reached for h in loops.natural(f)): ctx.undecided('GetDomainBounds.cached', 'the valid bounds are recomputed', f)
        else:
            for nm in names:
                got = set()
                for r in ai.rets:
                    if f.insts[r].blk.id in ai.reached: got |= ai.load(ai.mem_at(f.insts[r]), P[nm], 'double')
                key = 'GetDomainBounds.cached.' + nm
                if got == {('ld', B[nm])}: ctx.ok(key, f)
                elif got and all(t[0] == 'ld' and t[1] in list(B.values()) + list(P.values()) or t[0] in ('f', 'i') for t in got): ctx.bad(key, f.loc(), '%s hands out %s as %s when the bounds are cached' % (f.dem, ' or '.join(sorted(fmt(t) for t in got)), nm), f)
                else: ctx.undecided(key, '%s = %s' % (nm, sorted(fmt(t) for t in got)), f)
        # fresh scan
        ai = AbsInt(f, hook=cached(0), eh=False, callhook=callhook)

        def elem(b, f=f):
            return {('ld', mcell(f, mem['rdomain'])): 'rdomain', ('ld', mcell(f, mem['zdomain'])): 'zdomain'}.get(b)
        axis = {'rdomain': ('ld', mcell(f, mem['magnetic_axis'])), 'zdomain': ('ld', mcell(f, mem['magnetic_axis'] + 8))}
        scan(ctx, m, f, ai, 'GetDomainBounds', [('rdomain', P['rmin'], P['rmax']), ('zdomain', P['zmin'], P['zmax'])], elem, ('ld', mcell(f, mem['ndomain'])), axis, {'hook': cached(0)},
             also=[(B[nm], P[nm], 'bounds.' + nm) for nm in names], flag=(mcell(f, mem['bounds_set'])))
    return len(fs)


def scan(ctx, m, f, ai, key, quads, elem, N, axis, kw, also=(), flag=None, ret=None):
    hs = top_loops(f, ai)
    if not hs: ctx.undecided(key, 'no loop over the boundary', f); return
    # values on return in terms of what the last loop carries
    post = after(f, ai, hs[-1], callhook=callhook, **kw)
    if post is None: ctx.undecided(key, 'the scan can end early', f); return
    fin = {}
    for r in post.rets:
        ri = f.insts[r]
        if ri.blk.id not in post.reached: continue
        st = post.mem_at(ri)
        for nm, lo, hi in quads:
            for kind, a in (('minimum', lo), ('maximum', hi)):
                if a is not None: fin.setdefault((nm, kind), set()).update(post.load(st, a, 'double'))
        for b, p, nm in also:
            x, y = post.load(st, b, 'double'), post.load(st, p, 'double')
            k = '%s.stores.%s' % (key, nm)
            if x == y and len(x) == 1: ctx.ok(k, f)
            elif len(x) == 1 and len(y) == 1 and x != y:
                vs = post.load(st, flag, 'i8')
                if vs == {('i', 0)} or vs == {('ld', flag)}: ctx.ok(k, f, 'not marked valid')
                elif vs == {('i', 1)}: ctx.bad(k, f.loc(), '%s marks %s as valid but stores %s in it while returning %s' % (f.dem, nm, fmt(next(iter(x))), fmt(next(iter(y)))), f)
                else: ctx.undecided(k, 'flag %s' % vs, f)
            else: ctx.undecided(k, '%s / %s' % (x, y), f)
    for h in reversed(hs):
        qs = []
        for nm, lo, hi in quads:
            a, b = fin.get((nm, 'minimum')), fin.get((nm, 'maximum'))
            if a is None or b is None or len(a) != 1 or len(b) != 1: ctx.undecided('%s.%s' % (key, nm), 'value on return not determined', f); return
            qs.append((nm, next(iter(a)), next(iter(b))))
        for nm, a, b in qs:
            if a == b: ctx.bad('%s.%s' % (key, nm), f.loc(), '%s returns the same quantity as minimum and as maximum of %s' % (f.dem, nm), f); return
        res, starts = extrema.reduce(f, ai, h, qs, elem, kw)
        touched = set()
        for (nm, kind), vs in sorted(res.items()):
            k = '%s.%s.%s' % (key, nm, kind)
            T = [q for q in qs if q[0] == nm][0][1 if kind == 'minimum' else 2]
            bad = [v for v in vs if v[0] == 'no']
            und = [v for v in vs if v[0] == '?']
            if nm not in starts and len(hs) > 1: continue      # this loop does not look at the array
            touched.add((nm, kind))
            if bad: ctx.bad(k, f.blocks[h].insts[0].loc(), '%s: %s' % (f.dem, bad[0][1]), f)
            elif und: ctx.undecided(k, und[0][1], f)
            else: ctx.ok(k, f)
            # first value and range
            ini = entry_value(f, ai, h, T)
            st = starts.get(nm, set())
            k2 = '%s.%s.%s.start' % (key, nm, kind)
            s = next(iter(st)) if len(st) == 1 else None
            if s is None: ctx.undecided(k2, 'index not understood: %s' % st, f); continue
            okini = True
            first = set()
            for t in ini:
                if t == axis.get(nm): first.add('axis')
                elif t[0] == 'f' and abs(t[1]) > 1e300 and (t[1] > 0) == (kind == 'minimum'): first.add('inf')
                else:
                    x = extrema.index_of(ai, ai, t, elem)
                    if x and x[0] == nm and x[1] == Poly.const(Fraction(0)): first.add('0')
                    elif x and x[0] != nm or t in axis.values() or t[0] in ('f', 'i'): first.add('bad:' + fmt(t))
                    else: first.add('?')
            if any(x.startswith('bad') for x in first): ctx.bad(k2, f.loc(), '%s: the %s of %s starts from %s' % (f.dem, kind, nm, [x for x in first if x.startswith('bad')][0][4:]), f)
            elif '?' in first or not first: ctx.undecided(k2, 'starts from %s' % sorted(fmt(t) for t in ini), f)
            else: ctx.ok(k2, f)
            k3 = '%s.%s.range' % (key, nm)
            ends = [e for e in loops.bounds(ai, h)]
            zero = Poly.const(Fraction(0)); one = Poly.const(Fraction(1))
            if any(e is None for e in ends): ctx.undecided(k3, 'number of iterations not understood', f); continue
            Np = ai.expand(N) if isinstance(N, tuple) else N
            good = (s == zero or s == one and first == {'0'}) and all(e + s == Np for e in ends)
            if good: ctx.ok(k3, f)
            elif all((e + s - Np).m.keys() <= {()} for e in ends) and s.m.keys() <= {()}:
                ctx.bad(k3, f.blocks[h].insts[0].loc(), '%s: the scan of %s covers elements %s up to %s, not all of them' % (f.dem, nm, s, ends[0] + s), f)
            else: ctx.undecided(k3, 'covers [%s, %s)' % (s, ends[0] + s), f)
        if len(touched) == 2 * len(quads): return
        # step over this loop for what it leaves alone: only if nothing of interest is carried through it
        if touched: ctx.undecided(key + '.loops', 'several loops', f); return
        ctx.undecided(key + '.loops', 'the last loop does not scan the boundary', f); return


# ---------------------------------------------------------------- crossings of a level
def crossings(ctx, m, mem):
    n = 0
    for short in ('FindMaxRadius', 'FindMinRadius'):
        for f in methods(m, short):
            a = f.this; k = len(f.args) - a - 1
            lev = ('ld', mcell(f, mem['magnetic_axis'] + 8))
            if k == 3: N, X, Y = ('arg', a + 1), ('arg', a + 2), ('arg', a + 3)
            elif k == 0: N, X, Y = (('ld', mcell(f, mem[q])) for q in ('ndomain', 'rdomain', 'zdomain'))
            else: continue
            n += 1
            cross(ctx, m, f, short + ('' if k else '()'), N, X, Y, lev, mcell(f, mem['minradius']), mcell(f, mem['maxradius']), True, 'minimum' if 'Min' in short else 'maximum', mem)
    for short in ('FindMaxMin', 'FindMaxZ'):
        for f in methods(m, short):
            a = f.this; k = len(f.args) - a - 1
            if short == 'FindMaxMin' and k == 6: N, X, Y, q = ('arg', a + 1), ('arg', a + 2), ('arg', a + 3), a + 4
            elif short == 'FindMaxZ' and k == 6: N, X, Y, q = ('arg', a + 1), ('arg', a + 3), ('arg', a + 2), a + 4
            elif short == 'FindMaxZ' and k == 3: N, X, Y, q = ('ld', mcell(f, mem['ndomain'])), ('ld', mcell(f, mem['zdomain'])), ('ld', mcell(f, mem['rdomain'])), a + 1
            else: continue
            n += 1
            cross(ctx, m, f, short + ('' if k == 6 else '()'), N, X, Y, ('arg', q), ('arg', q + 1), ('arg', q + 2), False, None, mem)
    return n


def cross(ctx, m, f, key, N, X, Y, lev, omin, omax, closed, ret, mem):
    # calls on local containers and strings do not write the caller's arrays or this object
    ai = AbsInt(f, eh=False, callhook=callhook)
    hs = top_loops(f, ai)
    if len(hs) != 2: ctx.undecided(key, '%d loops' % len(hs), f); return
    h1, h2 = hs
    one = Poly.const(Fraction(1))
    segment(ctx, f, key + '.segment', ai, h1, X, Y, lev, N)
    ends = loops.bounds(ai, h1)
    k = key + '.segments.range'
    Np = ai.expand(N)
    if any(e is None for e in ends): ctx.undecided(k, 'number of iterations not understood', f)
    elif all(e + one == Np for e in ends): ctx.ok(k, f)
    elif all((e - Np).m.keys() <= {()} for e in ends): ctx.bad(k, f.blocks[h1].insts[0].loc(), '%s examines %s segments of a boundary of n points' % (f.dem, ends[0]), f)
    else: ctx.undecided(k, 'iterations: %s' % ends[0], f)
    # code between the loops: the closing segment
    if closed: closing(ctx, f, key + '.closing', ai, h1, h2, X, Y, lev, N)
    vec = {b for i in ai.reached_insts() if i.op == 'store' for t in ai.val(i.ops[1]) for b in [base_off(t)[0]] if b[0] == 'vec'}
    if len(vec) != 1: ctx.undecided(key + '.extremes', 'recorded points not found', f); return
    V_ = next(iter(vec))

    def elem(b): return 'points' if b == V_ else None
    scan2(ctx, m, f, ai, key, h1, h2, elem, omin, omax)
    if ret:
        post = after(f, ai, h2, callhook=callhook)
        ts = post.ret_terms() if post is not None else set()
        me, ot = (('ld', omin), ('ld', omax)) if ret == 'minimum' else (('ld', omax), ('ld', omin))
        if ts == {me}: ctx.ok(key + '.returns', f)
        elif ts == {ot}: ctx.bad(key + '.returns', f.loc(), '%s does not return the %s it found' % (f.dem, ret), f)
        else: ctx.undecided(key + '.returns', 'returns %s' % sorted(fmt(t) for t in ts), f)


class Fixed(AbsInt):
    """some values are symbols"""

    def __init__(self, fn, fixed, **kw):
        self.fixed = fixed
        super().__init__(fn, **kw)

    def step(self, inst, mem, pred=None):
        if inst.id in self.fixed: return frozenset([self.fixed[inst.id]])
        return super().step(inst, mem, pred)


def limit_of(f, h):
    """value computed before the loop that its header compares with"""
    body = loops.natural(f)[h]
    c = [i for i in f.blocks[h].insts if i.op == 'icmp']
    if len(c) != 1: return None
    cand = [o for o in c[0].ops if isinstance(o, int) and f.insts[o].blk.id not in body]
    return cand[0] if len(cand) == 1 else None


def scan2(ctx, m, f, ai, key, h1, h2, elem, omin, omax):
    o = limit_of(f, h2)
    if o is None: ctx.undecided(key + '.extremes.range', 'number of iterations not understood', f); return
    T = ('count', o)
    scan(ctx, m, f, Fixed(f, {o: T}, eh=False, callhook=callhook), key + '.extremes', [('points', omin, omax)], elem, T, {}, {})


LI, LJ = V('xi'), V('xj')
KI, KJ, LV = V('yi'), V('yj'), V('level')


def want(): return add(LI, div(mul(sub(LJ, LI), sub(LV, KI)), sub(KJ, KI)))


def evaluate(ctx, f, key, mk, idx, X, Y, lev, count, dest):
    """one segment, for every position of its ends relative to the level.
    mk(cmp) -> (part, [exits]); idx(poly) -> 'i'|'j'|None; count(exit) -> terms; dest(part) -> address recorded to"""
    res = []
    for yi in (-1, 0, 1):
        for yj in (-1, 0, 1):
            if yi == yj == 0: continue
            ref = [None]

            def which(t):
                if t == lev: return 'level'
                if t[0] != 'ld': return None
                b, o, var = base_off(t[1])
                if b not in (X, Y): return None
                p = Poly.const(Fraction(o, 8))
                for y, sc in var: p = p + ref[0].expand(y) * Poly.const(Fraction(sc, 8))
                w = idx(p)
                return None if w is None else ('x' if b == X else 'y') + w
            # equal keys on the same side can be equal or not
            for eq, (xi, xj) in [(q, x) for q in ((0, 1, -1) if yi == yj else (0,)) for x in ((7, 9), (-9, -7), (-7, 9))]:
                rk = {'level': 0, 'yi': yi * 2, 'yj': yj * 2 + eq, 'xi': xi, 'xj': xj}

                def cmp(pred, a, b):
                    x, y = rk.get(which(a)), rk.get(which(b))
                    if x is None or y is None: return None
                    if pred in ('ord', 'uno'): return pred == 'ord'
                    q = pred[1:] if pred[0] in 'ou' else pred
                    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q)
                part, exits = mk(cmp, ref)
                hit = yi * yj <= 0
                name = 'for a segment from %s to %s' % tuple({-1: 'below', 0: 'at', 1: 'above'}[v] + ' the level' for v in (yi, yj))
                if not exits: res.append(('?', name + ': no exit')); continue
                for e in exits:
                    c0, c1s = count(part, e)
                    if c0 is None: res.append(('?', name + ': number of recorded points not understood')); continue
                    for c1 in c1s:
                        d = part.expand(c1) - part.expand(c0)
                        if d.m.keys() - {()}: res.append(('?', name + ': count becomes %s' % fmt(c1))); continue
                        d = d.m.get((), Fraction(0))
                        amb = len(c1s) > 1
                        if d != (1 if hit else 0): res.append(('?' if amb else 'no', '%s %s' % (name, 'no crossing is recorded' if d == 0 else 'a crossing is recorded' if not hit else '%s points are recorded' % d)))
                        else: res.append(('yes', ''))
                    if not hit: continue
                    for t in e.cell(dest(c0)):
                        def leaf(t):
                            w = which(t)
                            return {'xi': LI, 'xj': LJ, 'yi': KI, 'yj': KJ, 'level': LV}.get(w)
                        try: g = conv(t, leaf)
                        except Opaque as x:
                            res.append(('?', '%s: records %s' % (name, fmt(t)[:120]))); continue
                        sb = {}
                        if yi == 0: sb[KI] = LV
                        if yj == 0: sb[KJ] = LV
                        r, how = equal(alg.subst(g, sb), alg.subst(want(), sb))
                        res.append((r if len(e.cell(dest(c0))) == 1 or r == 'yes' else '?', '%s the point recorded is %s, not the interpolated one (%s)' % (name, alg.show(g)[:140], how)))
    bad = [r for r in res if r[0] == 'no']; und = [r for r in res if r[0] == '?']
    if bad: ctx.bad(key, f.loc(), '%s: %s' % (f.dem, bad[0][1]), f)
    elif und: ctx.undecided(key, und[0][1], f)
    else: ctx.ok(key, f)


def vec_base(ai):
    vec = {b for i in ai.reached_insts() if i.op == 'store' for t in ai.val(i.ops[1]) for b in [base_off(t)[0]] if b[0] == 'vec'}
    return next(iter(vec)) if len(vec) == 1 else None


def counter(f, ai, h):
    """header phi that counts recorded points: used as index of a store into the container"""
    out = set()
    vb = vec_base(ai)
    if vb is None: return None
    part = Part(f, h, (), outer=ai, blocks=loops.natural(f)[h], callhook=callhook, eh=False)
    for i in part.reached_insts():
        if i.op == 'store':
            for t in part.val(i.ops[1]):
                b, o, var = base_off(t)
                if b == vb:
                    p = Poly.const(Fraction(o, 8))
                    for y, sc in var: p = p + part.expand(y) * Poly.const(Fraction(sc, 8))
                    for k in p.m:
                        for a, _ in k:
                            if a[0] == 'hv': out.add(a[1])
    return next(iter(out)) if len(out) == 1 else None


def segment(ctx, f, key, ai, h, X, Y, lev, N):
    cid = counter(f, ai, h)
    vb = vec_base(ai)
    if cid is None: ctx.undecided(key, 'number of recorded points not found', f); return
    body = loops.natural(f)[h]

    def mk(cmp, ref):
        class P(Part):
            def run(self):
                ref[0] = self
                super().run()
        p = P(f, h, (), outer=ai, blocks=body, cmp=cmp, callhook=callhook, eh=False)
        return p, p.out(h)

    def idx(p):
        s = extrema.induction(f, ai, h, p)
        if s == Poly.const(Fraction(0)): return 'i'
        if s == Poly.const(Fraction(1)): return 'j'
        return None

    def count(part, e): return ('hv', cid), e.phi(f.insts[cid])

    def dest(c0):
        z = {t for i in ai.reached_insts() if i.op == 'store' for t in ai.val(i.ops[1]) if base_off(t)[0] == vb}
        # address written with the counter on entry of the iteration, through the casts the code uses
        part = Part(f, h, (), outer=ai, blocks=body, callhook=callhook, eh=False)
        for i in part.reached_insts():
            if i.op == 'store':
                for t in part.val(i.ops[1]):
                    b, o, var = base_off(t)
                    if b == vb and o == 0 and len(var) == 1 and part.expand(var[0][0]) == Poly.atom(c0): return t
        return ('null',)
    evaluate(ctx, f, key, mk, idx, X, Y, lev, count, dest)


def closing(ctx, f, key, ai, h1, h2, X, Y, lev, N):
    cid = counter(f, ai, h1)
    vb = vec_base(ai)
    s = extrema.exit_target(f, ai, h1)
    if cid is None or s is None: ctx.undecided(key, 'closing segment not found', f); return
    env = {p.id: frozenset([('hv', p.id)]) for p in header_phis(f, h1)}
    Np = ai.expand(N)
    body2 = loops.natural(f)[h2]
    pre = [p for p in f.preds()[h2] if p not in body2]

    def mk(cmp, ref):
        def c2(pred, a, b):
            r = cmp(pred, a, b)
            if r is None and b == ('i', 0) and a == N: return {'ugt': True, 'eq': False, 'ne': True, 'ule': False, 'ult': False, 'uge': True}.get(pred)
            return r

        class P(Part):
            def run(self):
                ref[0] = self
                super().run()
        p = P(f, s, {h2}, outer=ai, env=env, cmp=c2, callhook=callhook, eh=False)
        return p, p.out(h2)

    def idx(p):
        if p == Np - Poly.const(Fraction(1)): return 'i'
        if p == Poly.const(Fraction(0)): return 'j'
        return None

    def count(part, e):
        o = limit_of(f, h2)
        if o is None: return None, ()
        v = part.opv(o)
        return ('hv', cid), v

    def dest(c0):
        p = Part(f, s, {h2}, outer=ai, env=env, callhook=callhook, eh=False)
        for i in p.reached_insts():
            if i.op == 'store':
                for t in p.val(i.ops[1]):
                    b, o, var = base_off(t)
                    if b == vb and o == 0 and len(var) == 1 and p.expand(var[0][0]) == Poly.atom(c0): return t
        return ('null',)
    evaluate(ctx, f, key, mk, idx, X, Y, lev, count, dest)


# ---------------------------------------------------------------- radial limits
def getters(ctx, m, mem):
    for short, mine, other in (('GetMaxRadius', 'maxradius', 'minradius'), ('GetMinRadius', 'minradius', 'maxradius')):
        for f in methods(m, short, 0):
            me = ('ld', mcell(f, mem[mine])); ot = ('ld', mcell(f, mem[other]))
            for nm, rank in (('known', 2), ('unknown', -1)):
                def cmp(pred, a, b):
                    r = {me: rank, ot: rank, ('f', 0.0): 0}
                    x, y = r.get(a), r.get(b)
                    if x is None or y is None: return None
                    q = pred[1:] if pred[0] in 'ou' else pred
                    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q)

                def hk(inst, dem, args, mm, ai):
                    if 'FindMaxRadius' in dem or 'FindMinRadius' in dem: return frozenset([('found', 'max' if 'Max' in dem else 'min')])
                    v = vname(m, f, inst) if inst.callee is None else ''
                    if 'FindM' in v: return frozenset([('found', 'max' if 'Max' in v else 'min')])
                    return callhook(inst, dem, args, mm, ai)
                ai = AbsInt(f, cmp=cmp, eh=False, callhook=hk)
                ts = ai.ret_terms()
                hs = top_loops(f, ai)
                if nm == 'unknown' and hs:      # the search was expanded in place
                    post = after(f, ai, hs[-1], cmp=cmp, callhook=hk)
                    ts = post.ret_terms() if post is not None else ts
                    ts = {('found', mine[:3]) if t == me else ('found', other[:3]) if t == ot else t for t in ts}
                key = '%s.%s' % (short, nm)
                good = {me, ('found', mine[:3])}
                wrong = {ot, ('found', other[:3])}
                if ts and ts <= good and (nm == 'known' or me not in ts): ctx.ok(key, f)
                elif ts and ts <= (good | wrong) and (ts & wrong or nm == 'unknown' and me in ts): ctx.bad(key, f.loc(), '%s returns %s' % (f.dem, ' or '.join(sorted(fmt(t) for t in ts)) + (' although it was never computed' if nm == 'unknown' and me in ts else '')), f)
                else: ctx.undecided(key, 'returns %s' % sorted(fmt(t) for t in ts), f)
