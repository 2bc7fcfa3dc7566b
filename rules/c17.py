"""C17: what a numeric equilibrium saves is what it loads."""
import re
from fractions import Fraction
from absint import AbsInt, Poly, base_off, fmt, mkptr
import loops
from loops import pf, strip_casts
from filemodel import KEEP, Model, N, method, returns, stores_into, trace
from numev import Num
from c04 import fin
import fieldload

CLS = 'MagneticFieldNumeric2D'
T2 = ('Br', 'Bphi', 'Bz', 'Psi')
G = lambda s: Poly.atom(('sym', s))


def run(ctx):
    ctx.rule('Save writes every name Load reads, with the member of that meaning and the extents of its grids; flux, separatrix and wall exactly when present')
    ctx.rule('Load puts element (z, r) of each table (stored either way round) at r + z*nr of the member of that meaning, over the whole grid, and copies grids, outlines, axis and texts')
    m = ctx.module('--keep', KEEP, '--keep', r'MagneticFieldNumeric2D::Transpose|MagneticField2D::Set', '--only', CLS)
    off = {n: o for n, o, ty, sz in m.classes[CLS]['members']}
    for n in ('magnetic_axis', 'name', 'description'): off[n] = m.field_off(CLS, n)
    need = list(T2) + ['R', 'Z', 'rsep', 'zsep', 'rwall', 'zwall', 'nr', 'nz', 'nwall', 'nsep', 'magnetic_axis', 'name', 'description']
    miss = [n for n in need if off.get(n) is None]
    if miss: ctx.undecided('members', 'members %s not found' % miss); ctx.need('members', 0, 0); return
    k = 0
    for f in m.find(r'^MagneticFieldNumeric2D::Save\(.*sfile_type\)', suf=''): k += 1; save(ctx, m, f, off)
    ctx.rule('on model files (grids of 2x2, 2x3 and 3x2 points, tables stored either way round, with and without flux, wall, separatrix and verification vectors) every element of every member is the element of the file it stands for, the domain is the wall if there is one, and a verification vector that does not match is refused')
    known = fieldload.run(ctx)
    for f in m.find(r'^MagneticFieldNumeric2D::Load\(.*sfile_type\)', suf=''): k += 1; load(ctx, m, f, off, Soft(ctx) if known else ctx)
    for f in m.find(r'^MagneticFieldNumeric2D::Transpose\(', suf=''): transpose(Soft(ctx) if known else ctx, m, f)
    ctx.need('save and load functions', k, 2)


class Soft:
    """for arguments that hold for every size but depend on how loops are written: element by element the instances decide"""
    def __init__(self, ctx): self.ctx = ctx
    def __getattr__(self, n): return getattr(self.ctx, n)
    def bad(self, key, loc, txt, fn=None): self.ctx.undecided(key, txt, fn)


# ---------------------------------------------------------------- saving
WRITE = {  # name: (member, extents)
    'Br': ('Br', ('nz', 'nr')), 'Bphi': ('Bphi', ('nz', 'nr')), 'Bz': ('Bz', ('nz', 'nr')), 'Psi': ('Psi', ('nz', 'nr')),
    'r': ('R', ('nr',)), 'z': ('Z', ('nz',)), 'maxis': ('magnetic_axis', (2,)),
    'separatrix': (('rsep', 'zsep'), (2, 'nsep')), 'wall': (('rwall', 'zwall'), (2, 'nwall'))}


def member(t, me, off):
    """name of the member whose value (or address, for embedded arrays) the term is"""
    if t[0] == 'ld':
        b, o, v = base_off(t[1])
        if b == me and not v:
            for n, x in off.items():
                if x == o: return n
    b, o, v = base_off(t)
    if b == me and not v:
        for n, x in off.items():
            if x == o: return '&' + n
    return None


def save(ctx, m, f, off):
    me = ('arg', f.this)
    for sep in (0, 3):
        for wall in (0, 4):
            for flux in (0, 1):
                if sep == wall == 0: continue
                vals = {off['nsep']: sep, off['nwall']: wall, off['nr']: 5, off['nz']: 7}
                if 'hasFluxCoordinates' in off: vals[off['hasFluxCoordinates']] = flux

                def leaf(t):
                    if t[0] == 'ld':
                        b, o, v = base_off(t[1])
                        if b == me and not v:
                            if o in vals: return vals[o]
                            if o == off['Psi']: return ('P', 'Psi', 0) if flux else 0
                            if o in (off['rsep'], off['zsep']): return ('P', 'sep', 0) if sep else 0
                            if o in (off['rwall'], off['zwall']): return ('P', 'wall', 0) if wall else 0
                    if t == me: return ('P', 'this', 0)
                    return None
                sc = '%s%s%s' % ('s' if sep else '', 'w' if wall else '', 'f' if flux else '')
                md = Model(m, {}, {}, leaf=leaf)
                def flag(t):
                    if t[0] == 'ld':
                        b, o, v = base_off(t[1])
                        if b == me and not v and o == off.get('hasFluxCoordinates'): return ('i', flux)
                    return t
                ai = md.run(f, hook=flag)
                saved(ctx, m, f, off, ai, md, me, sc, sep, wall, flux)


def inevitable(ai, i):
    """every analysed path from entry to a return passes the call"""
    seen = {ai.fn.entry}; st = [ai.fn.entry]
    if i.blk.id == ai.fn.entry: return True
    rets = {ai.fn.insts[r].blk.id for r in returns(ai)}
    while st:
        b = st.pop()
        if b in rets: return False
        for (x, y) in ai.edges:
            if x == b and y != i.blk.id and y not in seen: seen.add(y); st.append(y)
    return True


def saved(ctx, m, f, off, ai, md, me, sc, sep, wall, flux):
    desc = '%sseparatrix, %swall, %sflux' % tuple('' if x else 'no ' for x in (sep, wall, flux))
    w = {}; unk = []
    for i in ai.reached_insts():
        if not i.is_call(): continue
        s = method(m, ai, i)
        if not s or not s.startswith('Write'): continue
        ns = md.names(ai, ai.mem_at(i), ai.ev(i.ops[1]))
        if len(ns) != 1 or None in ns: unk.append(i); continue
        w.setdefault(next(iter(ns)), []).append((i, s))
    if not returns(ai): ctx.undecided('save.%s' % sc, 'saving does not return', f); return
    must = {'name', 'desc', 'maxis', 'r', 'z', 'Br', 'Bphi', 'Bz'} | ({'Psi'} if flux else set()) | ({'separatrix'} if sep else set()) | ({'wall'} if wall else set())
    mustnot = ({'Psi'} if not flux else set()) | ({'separatrix'} if not sep else set()) | ({'wall'} if not wall else set())
    for n in sorted(must):
        key = 'save.%s.%s' % (sc, n)
        if n not in w:
            if unk: ctx.undecided(key, 'a variable name is not understood', f)
            else: ctx.bad(key, f.loc(), 'Save does not write "%s" (%s)' % (n, desc), f)
            continue
        probs, und = [], []
        if len(w[n]) > 1: und.append('written several times')
        for i, s in w[n]:
            if not inevitable(ai, i): probs.append((i.loc(), 'does not write "%s" on every path (%s)' % (n, desc)))
            one(ai, f, off, me, n, i, s, probs, und)
        fin(ctx, key, 'Save', f, probs, und)
    for n in sorted(mustnot):
        key = 'save.%s.no-%s' % (sc, n)
        if n in w: ctx.bad(key, w[n][0][0].loc(), 'Save writes "%s" of a field which has none (%s)' % (n, desc), f)
        else: ctx.ok(key, f)
    for n in ('Br', 'Bphi', 'Bz'):
        for i, s in w.get('ver' + n, []):
            probs, und = [], []
            ds = {member(t, me, off) for t in ai.ev(i.ops[2])}
            if ds != {n}: (probs.append((i.loc(), 'writes %s as the verification vector of %s' % ('/'.join(sorted(map(str, ds))), n))) if None not in ds else und.append('verification vector'))
            ex = {pf(ai.expand(t)) for t in ai.ev(i.ops[3])}
            mm = {member(strip_casts(t)[0], me, off) for t in ai.ev(i.ops[3])}
            if mm <= {'nz', 'nsep', 'nwall'} : probs.append((i.loc(), 'writes %s values of %s for verification, but Load accepts nr' % (next(iter(mm)), n)))
            fin(ctx, 'save.%s.ver%s' % (sc, n), 'Save', f, probs, und)


def one(ai, f, off, me, n, i, s, probs, und):
    mem = ai.mem_at(i)
    single = lambda ts: next(iter(ts)) if len(ts) == 1 else None
    if n in ('name', 'desc'):
        want = '&name' if n == 'name' else '&description'
        ds = {member(t, me, off) for t in ai.ev(i.ops[2])}
        if ds == {want}: return
        if None in ds: und.append('text')
        else: probs.append((i.loc(), 'writes %s as "%s"' % ('/'.join(ds).replace('&', ''), n)))
        return
    mb, ex = WRITE[n]
    dim = {'nr': 'nr', 'nz': 'nz'}

    def extent(t, want, k):
        if t is None: und.append('extent'); return
        t = strip_casts(t)[0]
        if isinstance(want, int):
            if t == ('i', want): return
            if t[0] == 'i' or member(t, me, off): probs.append((i.loc(), 'writes "%s" with %s as extent %d, expected %d' % (n, member(t, me, off) or t[1], k + 1, want))); return
        else:
            g = member(t, me, off)
            if g == want: return
            if g or t[0] == 'i': probs.append((i.loc(), 'writes "%s" with %s as extent %d, expected %s' % (n, g or t[1], k + 1, want))); return
        und.append('extent of "%s"' % n)
    if s in ('WriteMultiArray',):
        nd = single(ai.ev(i.ops[3]))
        if nd is None or nd[0] != 'i': und.append('number of dimensions'); return
        if nd[1] != len(ex): probs.append((i.loc(), 'writes "%s" with %d dimensions' % (n, nd[1]))); return
        for k in range(len(ex)):
            vs = set()
            for d in ai.ev(i.ops[4]): vs |= ai.load(mem, mkptr(d, 8 * k), 'i64')
            extent(single(vs), ex[k], k)
    elif s == 'WriteList':
        if len(ex) != 1:
            probs.append((i.loc(), 'writes "%s" as a list' % n)) if len(ex) == 2 else None
            return
        extent(single(ai.ev(i.ops[3])), ex[0], 0)
    elif s == 'WriteArray':
        if len(ex) != 2: und.append('written as a matrix'); return
        for k in range(2): extent(single(ai.ev(i.ops[3 + k])), ex[k], k)
        if isinstance(mb, str): und.append('row table'); return
        rows(ai, f, off, me, n, i, mb, ex, probs, und); return
    else: und.append('%s of "%s"' % (s, n)); return
    if not isinstance(mb, str): und.append('written as %s' % s); return
    ds = {member(t, me, off) for t in ai.ev(i.ops[2])}
    want = '&' + mb if mb == 'magnetic_axis' else mb
    if ds == {want}: return
    if None in ds: und.append('data of "%s"' % n)
    else: probs.append((i.loc(), 'writes %s as "%s"' % ('/'.join(sorted(ds)).replace('&', ''), n)))


def rows(ai, f, off, me, n, i, mbs, ex, probs, und):
    ts = ai.ev(i.ops[2])
    tab = next(iter(ts)) if len(ts) == 1 else None
    if not tab or tab[0] not in ('new', 'alloca'): und.append('row table of "%s"' % n); return
    mem = ai.mem_at(i)
    first = (None, None)
    src = {('ld', mkptr(me, off[x])): x for x in off if off[x] is not None}
    for k, mb in enumerate(mbs):
        rp = ai.load(mem, mkptr(tab, 8 * k), 'ptr')
        if len(rp) != 1: und.append('row %d' % k); continue
        p = next(iter(rp))
        if member(p, me, off) is not None:
            if member(p, me, off) != mb: probs.append((i.loc(), 'writes %s as row %d of "%s"' % (member(p, me, off), k + 1, n)))
            continue
        b, o, v = base_off(p)
        if b[0] not in ('new', 'alloca'): und.append('row %d' % k); continue
        base = ai.expand(p) - Poly.atom(b)
        nn = Poly.atom(('ld', mkptr(me, off[ex[1]])))
        if k == 0: first = (b, base)
        elif first[0] == b and base - first[1] not in (nn * N(8), nn * N(-8)):
            d = base - first[1]
            if all(member(t, me, off) for kk in d.m for t, _ in kk): probs.append((i.loc(), 'the rows of "%s" are %s/8 elements apart' % (n, nm(d, me, off))))
            else: und.append('rows of "%s"' % n)
        hit = False
        for st, q, vs in stores_into(ai, b):
            d = q - base
            it = loops.its(d)
            if len(it) != 1 or d != Poly.atom(next(iter(it))) * N(8): continue
            hit = True
            h = next(iter(it))
            nn = Poly.atom(('ld', mkptr(me, off[ex[1]])))
            for bd in loops.bounds(ai, h[1]):
                if bd != nn: (und.append('number of points') if bd is None or not all(member(t, me, off) for kk in bd.m for t, _ in kk) else probs.append((st.loc(), 'writes %s points of "%s"' % (nm(bd, me, off), n))))
            for t in vs:
                x = trace(ai, t, set(src))
                if x is None: und.append('source of "%s"' % n); continue
                for bb, r, oo in x:
                    if src[bb] != mb: probs.append((st.loc(), 'row %d of "%s" is filled from %s, expected %s' % (k + 1, n, src[bb], mb)))
                    elif r is not None or oo != d: probs.append((st.loc(), 'point %s of "%s" is written at %s' % (pf(oo), n, pf(d))))
        if not hit: und.append('contents of row %d of "%s"' % (k + 1, n))


def nm(p, me, off):
    return ' + '.join('*'.join([str(c)] * (c != 1 or not k) + [member(t, me, off) or fmt(t) for t, _ in k]) for k, c in p.m.items())


# ---------------------------------------------------------------- loading
NUM = {'NR': 5, 'NZ': 7, 'NS': 3, 'NW': 4}


def load(ctx, m, f, off, soft):
    base = {'name': 'string', 'desc': 'string', 'maxis': (2,), 'r': ('NR',), 'z': ('NZ',)}
    n = 0
    for tr in (False, True):
        d = ('NR', 'NZ') if tr else ('NZ', 'NR')
        for flux in (True, False):
            for out in ('s', 'w', 'sw'):
                for otr in (False, True):
                    if (otr and (tr or not flux)): continue
                    T = dict(base, Br=d, Bphi=d, Bz=d)
                    if flux: T['Psi'] = d
                    if 's' in out: T['separatrix'] = ('NS', 2) if otr else (2, 'NS')
                    if 'w' in out: T['wall'] = ('NW', 2) if otr else (2, 'NW')
                    sc = '%s%s.%s%s' % ('transposed' if tr else 'straight', '' if flux else '-noflux', out, '-transposed' if otr else '')
                    loaded(soft, m, f, off, T, sc, tr)
                    n += 1
    # nothing that marks the end of the plasma: refused
    T = dict(base, Br=('NZ', 'NR'), Bphi=('NZ', 'NR'), Bz=('NZ', 'NR'))
    md, ai, seen = model(m, f, T)
    if md.bad: ctx.undecided('load.nothing', md.bad[0][1], f)
    elif returns(ai): ctx.bad('load.nothing', f.loc(), 'an equilibrium with neither wall nor separatrix is accepted', f)
    else: ctx.ok('load.nothing', f)
    for miss in ('r', 'z', 'Br', 'Bphi', 'Bz', 'maxis'):
        T2_ = dict(T, separatrix=(2, 'NS')); del T2_[miss]
        md, ai, seen = model(m, f, T2_)
        if md.bad: ctx.undecided('load.without-' + miss, md.bad[0][1], f)
        elif returns(ai): ctx.bad('load.without-' + miss, f.loc(), 'an equilibrium without "%s" is accepted' % miss, f)
        else: ctx.ok('load.without-' + miss, f)


def model(m, f, T):
    seen = []

    def extra(i, dem, args, mem, ai):
        g = re.match(r'MagneticField2D::(Set\w+)\(', dem)
        if g:
            seen.append((i, g.group(1), [next(iter(a)) if len(a) == 1 else None for a in args]))
            return frozenset([('res', i.id)])
        if 'MagneticFieldNumeric2D::Transpose(' in dem:
            k = len(args) - 3
            a = next(iter(args[k])) if len(args[k]) == 1 else None
            if a and a[0] == 'file':
                e = [strip_casts(next(iter(x)))[0] if len(x) == 1 else None for x in args[k + 1:]]
                want = [('sym', s) if isinstance(s, str) else ('i', s) for s in T.get(a[1], ())]
                if e == want: return frozenset([('fileT', a[1])])
                return frozenset([('fileX', a[1])])
            return None
        return None
    def leaf(t):
        # rows of a table are pointers
        if t[0] in ('new', 'fileT'): return ('P', repr(t), 0)
        if t[0] == 'ld' and t[1][0] in ('file', 'fileT'): return ('P', repr(t), 0)
        if t[0] == 'ld':
            b, o, v = base_off(t[1])
            if b[0] in ('file', 'fileT') and not v and isinstance(T.get(b[1]), tuple) and len(T[b[1]]) == 2: return ('P', repr(t), 0)
        return None
    md = Model(m, T, NUM, leaf=leaf, extra=extra)
    ai = md.run(f)
    return md, ai, seen


def files(T):
    return {(k, n) for n in T for k in ('file', 'fileT', 'fileX')}


def loaded(ctx, m, f, off, T, sc, tr):
    md, ai, seen = model(m, f, T)
    key = 'load.%s.' % sc
    if ai.diverged: ctx.undecided(key + 'all', 'analysis did not converge', f); return
    if md.bad: ctx.undecided(key + 'all', md.bad[0][1], f); return
    rs = returns(ai)
    if not rs: ctx.bad(key + 'all', f.loc(), 'Load refuses a complete equilibrium (%s)' % sc, f); return
    if len(rs) != 1: ctx.undecided(key + 'all', 'several returns', f); return
    me = ('arg', f.this)
    mem = ai.mem_at(f.insts[rs[0]])
    val = lambda n, ty='ptr': ai.load(mem, mkptr(me, off[n]), ty)
    fs = files(T)
    S = lambda x: Poly.atom(('sym', x)) if isinstance(x, str) else N(x)
    # numbers of points
    for n, want in (('nr', 'NR'), ('nz', 'NZ'), ('nsep', 'NS' if 'separatrix' in T else 0), ('nwall', 'NW' if 'wall' in T else 0)):
        vs = {strip_casts(t)[0] for t in val(n, 'i32')}
        w = ('sym', want) if isinstance(want, str) else ('i', want)
        if vs == {w} or (want == 0 and vs <= {w, ('ld', mkptr(me, off[n]))}): ctx.ok(key + n, f)
        elif all(t[0] in ('sym', 'i') for t in vs): ctx.bad(key + n, f.loc(), 'after Load (%s) %s is %s, expected %s' % (sc, n, '/'.join(str(t[1]) for t in vs), want), f)
        else: ctx.undecided(key + n, 'value of %s' % n, f)
    # arrays
    for n, src, ext, row in [('R', 'r', ('NR',), None), ('Z', 'z', ('NZ',), None), ('Br', 'Br', 2, None), ('Bphi', 'Bphi', 2, None), ('Bz', 'Bz', 2, None), ('Psi', 'Psi', 2, None),
                             ('rsep', 'separatrix', ('NS',), 0), ('zsep', 'separatrix', ('NS',), 1), ('rwall', 'wall', ('NW',), 0), ('zwall', 'wall', ('NW',), 1)]:
        if src not in T:
            if n in ('Psi', 'rsep', 'rwall'):
                vs = val(n)
                if any(t[0] in ('new', 'file') for t in vs): ctx.bad(key + n, f.loc(), 'Load sets %s although the file has no "%s"' % (n, src), f)
                else: ctx.ok(key + n, f)
            continue
        probs, und = [], []
        array(ai, f, val(n), n, src, ext, row, T, fs, probs, und, S)
        fin(ctx, key + n, 'Load (%s)' % sc, f, probs, und)
    # axis, texts, flag
    for k in (0, 1):
        vs = ai.load(mem, mkptr(me, off['magnetic_axis'] + 8 * k), 'double')
        w = ('ld', mkptr(('file', 'maxis'), 8 * k)) if k else ('ld', ('file', 'maxis'))
        got = {strip_casts(t)[0][:2] for t in vs}
        if got == {w}: ctx.ok(key + 'axis%d' % k, f)
        elif all(t[0] == 'ld' and base_off(t[1])[0][0] == 'file' or t[0] in ('i', 'f') for t in got): ctx.bad(key + 'axis%d' % k, f.loc(), 'coordinate %d of the magnetic axis is taken from %s' % (k + 1, '/'.join(fmt(t) for t in got)), f)
        else: ctx.undecided(key + 'axis%d' % k, 'axis', f)
    for n, src in (('name', 'name'), ('description', 'desc')):
        vs = mem.c.get(('strval', mkptr(me, off[n])), frozenset())
        if vs == frozenset([('file', src)]): ctx.ok(key + n, f)
        elif vs and all(t[0] in ('file', 'lit') for t in vs): ctx.bad(key + n, f.loc(), '%s is set to %s' % (n, '/'.join('"%s"' % t[1] for t in vs)), f)
        else: ctx.undecided(key + n, 'text', f)
    if 'hasFluxCoordinates' in off:
        vs = val('hasFluxCoordinates', 'i8')
        has = 'Psi' in T
        if all(t[0] == 'i' and bool(t[1] & 1) == has for t in vs): ctx.ok(key + 'flux', f)
        elif all(t[0] == 'i' or t[0] == 'ld' for t in vs): ctx.bad(key + 'flux', f.loc(), 'the field loaded from a file %s flux says it has %s' % (('with', 'none') if has else ('without', 'some')), f)
        else: ctx.undecided(key + 'flux', 'flag', f)
    # the domain
    a, b, c = ('rwall', 'zwall', 'nwall') if 'wall' in T else ('rsep', 'zsep', 'nsep')
    for what, (r, z, nn) in (('SetDomain', (a, b, c)), ('SetSeparatrix', ('rsep', 'zsep', 'nsep'))):
        cs = [x for x in seen if x[1] == what and x[0].blk.id in ai.reached]
        if what == 'SetSeparatrix' and 'separatrix' not in T: continue
        if not cs:
            if what == 'SetDomain': ctx.undecided(key + what, 'not called', f)
            continue
        want = [val(x) for x in (r, z)]
        for i in {x[0].id: x[0] for x in cs}.values():
            got = [ai.ev(o) for o in i.ops[1:3]]
            if got != want: break
        if got == want: ctx.ok(key + what, f)
        elif all(x and all(y[0] in ('new', 'null') for y in x) for x in got): ctx.bad(key + what, i.loc(), '%s is not given %s and %s (%s)' % (what, r, z, sc), f)
        else: ctx.undecided(key + what, 'arguments', f)


def array(ai, f, vs, n, src, ext, row, T, fs, probs, und, S):
    if len(vs) != 1: und.append('%s has several values' % n); return
    a = next(iter(vs))
    if a[0] == 'ld':
        b, o, v = base_off(a[1])
        if b in fs:   # a row of the table itself
            if b[1] != src or (T[src][0] != 2) or o != 8 * (row or 0) or v: probs.append((f.loc(), '%s is %s of "%s"' % (n, fmt(a), b[1])))
            return
    if a[0] in ('file',):
        if a[1] != src: probs.append((f.loc(), '%s is table "%s"' % (n, a[1])))
        return
    if a[0] != 'new':
        (probs.append((f.loc(), '%s is not set from "%s"' % (n, src))) if a[0] in ('null', 'i') or a == ('ld', mkptr(('arg', f.this), 0)) else und.append('value of %s' % n)); return
    st = stores_into(ai, a)
    if not st: und.append('contents of %s' % n); return
    for i, d, vals in st:
        for t in vals:
            x = trace(ai, t, fs)
            if x is None: und.append('source of %s' % n); continue
            for bb, r, o in x:
                if bb[1] != src: probs.append((i.loc(), '%s is filled from "%s", expected "%s"' % (n, bb[1], src))); continue
                if bb[0] == 'fileX': probs.append((i.loc(), '"%s" is transposed with the extents of another shape' % src)); continue
                if ext == 2:
                    if r is None: und.append('row of "%s"' % src); continue
                    if (bb[0] == 'fileT') != (T[src] == ('NR', 'NZ')):
                        if (T[src] == ('NR', 'NZ')): r, o = o, r       # read column-wise instead of transposed
                        else: probs.append((i.loc(), '"%s" is transposed although it is stored with z first' % src)); continue
                    if d != o + r * S('NR'):
                        (probs.append((i.loc(), 'element (%s, %s) of "%s" is put at %s of %s' % (pf(r), pf(o), src, pf(d), n))) if ok(r) and ok(o) and ok(d) else und.append('index of %s' % n)); continue
                    for p, w, wn in ((r, 'NZ', 'nz'), (o, 'NR', 'nr')):
                        for it in loops.its(p): trip(ai, it, S(w), n, probs, und, i)
                else:
                    if row is not None:
                        otr = T[src][1] == 2 and T[src][0] != 2
                        rr, oo = (o, r) if otr else (r, o)
                        if rr is None or oo is None: und.append('row of "%s"' % src); continue
                        if rr != N(8 * row):
                            (probs.append((i.loc(), '%s is filled from coordinate %s/8 of "%s"' % (n, pf(rr), src))) if ok(rr) else und.append('coordinate')); continue
                        o = oo
                    elif r is not None and loops.isc(r) != 0: und.append('row'); continue
                    if o != d:
                        (probs.append((i.loc(), 'element %s/8 of "%s" is put at %s/8 of %s' % (pf(o), src, pf(d), n))) if ok(o) and ok(d) else und.append('index')); continue
                    for it in loops.its(d): trip(ai, it, S(ext[0]), n, probs, und, i)


def ok(p): return all(t[0] in ('sym', 'it') for k in p.m for t, _ in k)


def trip(ai, it, want, n, probs, und, i):
    for b in loops.bounds(ai, it[1]):
        if b == want: continue
        if b is not None and ok(b): probs.append((i.loc(), 'copies %s elements of %s, expected %s' % (pf(b), n, pf(want))))
        else: und.append('number of elements of %s' % n)


def transpose(ctx, m, f):
    """r[i][j] = a[j][i] for i < cols, j < rows"""
    ai = AbsInt(f)
    a = len(f.args) - 3
    src, rows_, cols = ('arg', a), Poly.atom(('arg', a + 1)), Poly.atom(('arg', a + 2))
    probs, und = [], []
    rs = ai.ret_terms()
    if len(rs) != 1 or next(iter(rs))[0] != 'new': ctx.undecided('transpose', 'result', f); return
    tab = next(iter(rs))
    ts = stores_into(ai, tab)
    if len(ts) != 1 or len(ts[0][2]) != 1: ctx.undecided('transpose', 'row table', f); return
    i, p, vs = ts[0]
    it = loops.its(p)
    if len(it) != 1 or p != Poly.atom(next(iter(it))) * N(8): ctx.undecided('transpose', 'row table', f); return
    h = next(iter(it)); rowt = next(iter(vs)); b = base_off(rowt)[0]
    if b[0] == 'phi':
        e = ai.expand(rowt); bb = [k[0][0] for k in e.m if len(k) == 1 and k[0][0][0] == 'new']
        b = bb[0] if len(bb) == 1 else b
    rp = ai.expand(rowt) - Poly.atom(b)
    if b[0] != 'new': ctx.undecided('transpose', 'row', f); return
    want = Poly.atom(h) * rows_ * N(8)
    if rp != want:
        if all(t[0] in ('arg', 'it') for k in rp.m for t, _ in k): probs.append((i.loc(), 'row i starts at %s/8, expected i*rows' % pf(rp)))
        else: und.append('row')
    for bd in loops.bounds(ai, h[1]):
        if bd != cols: (probs.append((i.loc(), 'makes %s rows' % pf(bd))) if bd is not None and ok2(bd) else und.append('rows'))
    els = [x for x in stores_into(ai, b)]
    if not els: und.append('elements')
    for s, q, vals in els:
        e = q - rp
        for t in vals:
            x = trace(ai, t, {src})
            if x is None: und.append('element'); continue
            for bb, r, o in x:
                if r is None: und.append('element'); continue
                if r == e and o == p:
                    for it in loops.its(e):
                        for bd in loops.bounds(ai, it[1]):
                            if bd != rows_: (probs.append((s.loc(), 'copies %s elements per row' % pf(bd))) if bd is not None and ok2(bd) else und.append('elements'))
                elif ok2(r) and ok2(o) and ok2(e): probs.append((s.loc(), 'element (%s, %s) of the matrix becomes (%s, %s)' % (pf(r), pf(o), pf(p), pf(e))))
                else: und.append('element')
    fin(ctx, 'transpose', 'Transpose', f, probs, und)


def ok2(p): return all(t[0] in ('arg', 'it') for k in p.m for t, _ in k)
