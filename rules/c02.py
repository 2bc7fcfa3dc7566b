"""C02: shape and row-major order in HDF5/MAT files."""
import re
from fractions import Fraction
import h5
from absint import fmt, base_off, padd, Poly

W2 = ['WriteArray', 'WriteInt32Array', 'WriteInt64Array', 'WriteUInt32Array', 'WriteUInt64Array']
W1 = ['WriteList', 'WriteInt32List', 'WriteInt64List', 'WriteUInt32List', 'WriteUInt64List']
WN = ['WriteMultiArray', 'WriteMultiInt32Array', 'WriteMultiInt64Array', 'WriteMultiUInt32Array', 'WriteMultiUInt64Array']
R2 = ['GetDoubles', 'GetInt32_2D', 'GetInt64_2D', 'GetUInt32_2D', 'GetUInt64_2D']
R1 = ['GetDoubles1D', 'GetInt32_1D', 'GetInt64_1D', 'GetUInt32_1D', 'GetUInt64_1D']


def A(fn, k):
    """k-th declared parameter as a term (0 = first after this)"""
    return ('arg', fn.this + 1 + k)


def strip(t):
    while t[0] == 'cast': t = t[2]
    return t


def spaces(ai, args, mem, ti):
    """dataspace constructions reaching a createDataSet call"""
    out = set()
    for t in args[ti]:
        v = mem.c.get(('meta', t))
        if v is None: out.add(None)
        else:
            for x in v: out.add(x)
    return out


def check_write(ctx, m, fn, cls, w, rank, ext, buf):
    """ext(ai, ctorinst, mem) -> list of problems; buf: allowed buffer terms"""
    ai = h5.run(fn)
    key = '%s.%s%s' % (cls, w, '' if fn.scls != 'SFile' else '[' + '/'.join(h5.ctype(s)[0] + str(h5.ctype(s)[1]) for s in fn.sig if '*' in s and h5.ctype(s))[:8] + ']')
    n = 0
    for i, d in h5.h5calls(ai, r'.*::createDataSet\('):
        args = [ai.val(o) for o in i.ops]; mem = ai.mem_at(i)
        ti = 4 if i.d.get('sret') else 3
        for sp in spaces(ai, args, mem, ti):
            if sp is None or sp[0] != 'space':
                ctx.undecided(key + ':extents', '%s: dataspace not resolved' % i.loc(), fn); continue
            c = fn.insts[sp[1]]; cm = ai.mem_at(c)
            cargs = [ai.val(o) for o in c.ops]
            n += 1
            probs, und = ext(ai, c, cm, cargs)
            if probs: ctx.bad(key + ':extents', c.loc(), '%s::%s: %s' % (cls, w, '; '.join(probs)), fn)
            elif und: ctx.undecided(key + ':extents', und, fn)
            else: ctx.ok(key + ':extents', fn)
    for i, d in h5.h5calls(ai, r'H5::DataSet::write\(void const\*'):
        for t in ai.val(i.ops[1]):
            if t in buf: ctx.ok(key + ':data', fn)
            elif base_off(t)[0] in [base_off(b)[0] for b in buf]:
                ctx.bad(key + ':data', i.loc(), '%s::%s writes from %s instead of the start of the data' % (cls, w, fmt(t, fn)), fn)
            elif base_off(t)[0][0] == 'ld' and base_off(base_off(t)[0][1])[0] in [base_off(b)[0] for b in buf] + [base_off(base_off(b)[0][1])[0] for b in buf if base_off(b)[0][0] == 'ld']:
                ctx.bad(key + ':data', i.loc(), '%s::%s writes from %s instead of the first row' % (cls, w, fmt(t, fn)), fn)
            else: ctx.undecided(key + ':data', '%s: buffer %s' % (i.loc(), fmt(t, fn)), fn)
    return n


def fixed(expect):
    def f(ai, c, cm, cargs):
        probs = []; und = None
        rk = {strip(t) for t in cargs[1]}
        if rk != {('i', len(expect))}:
            if all(t[0] == 'i' for t in rk): probs.append('stores a dataset of rank %s, expected %d' % (sorted(t[1] for t in rk), len(expect)))
            else: und = 'rank not resolved'
            return probs, und
        for p in cargs[2]:
            for k, e in enumerate(expect):
                got = {strip(t) for t in ai.load(cm, padd(p, 8 * k), 'i64')}
                if got == {e}: continue
                known = all(t[0] in ('arg', 'i') or (t[0] == 'op') for t in got)
                if known: probs.append('extent %d is %s, expected %s' % (k, '/'.join(fmt(t, ai.fn) for t in got), fmt(e, ai.fn)))
                else: und = 'extent %d not resolved: %s' % (k, got)
        return probs, und
    return f


def multi(fn):
    nd, dm = A(fn, 2), A(fn, 3)

    def f(ai, c, cm, cargs):
        probs = []; und = None
        rk = {strip(t) for t in cargs[1]}
        if rk != {nd}:
            if all(t[0] in ('arg', 'i', 'op') for t in rk): probs.append('rank is %s, expected %s' % ('/'.join(fmt(t, ai.fn) for t in rk), fmt(nd, ai.fn)))
            else: und = 'rank not resolved'
        if set(cargs[2]) != {dm}:
            if all(base_off(t)[0] == dm for t in cargs[2]): probs.append('extents are taken from %s' % '/'.join(fmt(t, ai.fn) for t in cargs[2]))
            elif all(base_off(t)[0][0] in ('alloca', 'new') or t[0] in ('call', 'ld') for t in cargs[2]): und = und or 'extents are copied before use'
            else: probs.append('extents are taken from %s, expected the caller\'s' % '/'.join(fmt(t, ai.fn) for t in cargs[2]))
        return probs, und
    return f


def run(ctx):
    ctx.rule('writer: dataspace rank/extents equal the caller\'s in order and data is written from its start; reader: reported extents, allocation size and row stride follow the stored extents; unsupported rank refused')
    m = ctx.module('--only', r'SFile')
    nw = nr = 0
    for cls in ('SFile_HDF5', 'SFile_MAT'):
        for w in W2:
            for fn in m.method(cls, w):
                nw += check_write(ctx, m, fn, cls, w, 2, fixed([A(fn, 2), A(fn, 3)]), {('ld', A(fn, 1))})
        for fn in m.method(cls, 'WriteImage'):
            nw += check_write(ctx, m, fn, cls, 'WriteImage', 2, fixed([A(fn, 2), A(fn, 2)]), {('ld', A(fn, 1))})
        for w in W1:
            for fn in m.method(cls, w):
                nw += check_write(ctx, m, fn, cls, w, 1, fixed([A(fn, 2)]), {A(fn, 1)})
        for w in WN:
            for fn in m.method(cls, w):
                nw += check_write(ctx, m, fn, cls, w, None, multi(fn), {A(fn, 1)})
        for r in R2 + R1:
            for fn in m.method(cls, r):
                for rank in (0, 1, 2, 3, 4):
                    nr += check_read(ctx, m, fn, cls, r, rank, r in R2)
        for fn in m.method(cls, 'GetMultiArray_linear'):
            nr += check_multi(ctx, m, fn, cls)
    ms = ctx.module('--only', r'SFile', '--keep', r'SFileException::|SOFTLibException::|::(GetMultiArray_linear|WriteList)\(')
    for cls in ('SFile_HDF5', 'SFile_MAT'):
        for fn in ms.method(cls, 'GetMultiArray_linear'): nr += multi_data(ctx, ms, fn, cls)
    for fn in ms.method('SFile_HDF5', 'GetMultiArray'):
        if fn.suf: nr += multi_table(ctx, ms, fn)
    for cls in ('SFile_HDF5', 'SFile_MAT', 'SFile_SDT'):
        for fn in ms.method(cls, 'WriteScalar'):
            if fn.suf or fn.scls != 'SFile': nw += scalar(ctx, ms, fn, cls)
    ctx.need('dataset creations', nw, 40); ctx.need('reader cases', nr, 60)


def new_size(ai, fn, new):
    return ai.val(fn.insts[new[1]].ops[0])


def check_read(ctx, m, fn, cls, r, rank, two):
    def extra(inst, dem, args, mem, ai):
        if re.search(r'::HasVariable\(', dem) : return frozenset([('i', 1)])
        return None
    ai = h5.run(fn, extra, rank=rank)
    key = '%s.%s(rank %d)' % (cls, r, rank)
    rk = h5.ret_kind(fn)
    if rk is None: return 0
    esz = rk[1] // 8
    rets = ai.ret_terms()
    rets = {t for t in rets if t != ('null',)}
    if rank == 0 or rank > 2:
        # extents written past the caller's / local buffer?
        for inst, outs in ai.h5dims_out:
            if not any(i.id == inst.id for i in ai.reached_insts()): continue
            for o in outs:
                b, off, var = base_off(o)
                lim = 2
                if b[0] == 'alloca':
                    sz = fn.insts[b[1]].d.get('sz', 16); lim = (sz - off) // 8
                if rank > lim:
                    ctx.bad(key, inst.loc(), '%s::%s lets HDF5 write %d extents of a rank-%d dataset into room for %d' % (cls, r, rank, rank, lim), fn); return 1
        if rets: 
            ctx.bad(key, fn.loc(), '%s::%s accepts a dataset of rank %d, whose extents it cannot represent' % (cls, r, rank), fn)
        else: ctx.ok(key, fn, 'refused')
        return 1
    D0, D1 = ('sym', 'dim0'), ('sym', 'dim1')
    d0, d1 = Poly.atom(D0), Poly.atom(D1)
    one = Poly.const(Fraction(1))
    if two: want = [one, d0] if rank == 1 else [d0, d1]
    else: want = [d0] if rank == 1 else [d0 * d1]
    total = d0 if rank == 1 else d0 * d1
    if not rets:
        ctx.bad(key, fn.loc(), '%s::%s refuses every dataset of rank %d' % (cls, r, rank), fn); return 1
    probs = []; und = []
    dm = A(fn, 1)
    for rid in ai.rets:
        ri = fn.insts[rid]
        if ri.blk.id not in ai.reached: continue
        mem = ai.mem_at(ri)
        for k, e in enumerate(want):
            for t in ai.load(mem, padd(dm, 8 * k), 'i64'):
                p = ai.expand(t)
                if p == e: continue
                if atoms_ok(p, {D0, D1}): probs.append('reports extent %d as %s, expected %s' % (k, pf(p), pf(e)))
                else: und.append('extent %d: %s' % (k, fmt(t, fn)))
    for i, d in h5.h5calls(ai, r'H5::DataSet::read\(void\*'):
        for t in ai.val(i.ops[1]):
            b, off, var = base_off(t)
            if b[0] != 'new' or off or var: und.append('buffer %s' % fmt(t, fn)); continue
            for s in new_size(ai, fn, b):
                if s == ('i', -1): continue
                p = ai.expand(s)
                if p == total * Poly.const(Fraction(esz)): pass
                elif atoms_ok(p, {D0, D1}): probs.append('allocates %s bytes for %s elements of %d bytes' % (pf(p), pf(total), esz))
                else: und.append('allocation size %s' % fmt(s, fn))
            if two:
                probs2, und2 = rows(ai, fn, b, rank, esz, d0 if rank == 2 else one, d1 if rank == 2 else d0)
                probs += probs2; und += und2
            else:
                for t2 in rets:
                    if t2 != b: 
                        (probs if base_off(t2)[0] == b else und).append('returns %s' % fmt(t2, fn))
    if probs: ctx.bad(key, fn.loc(), '%s::%s: %s' % (cls, r, '; '.join(sorted(set(probs)))), fn)
    elif und: ctx.undecided(key, '; '.join(sorted(set(und))), fn)
    else: ctx.ok(key, fn)
    return 1


def rows(ai, fn, data, rank, esz, nrows, ncols):
    probs = []; und = []
    tabs = set()
    for i in ai.reached_insts():
        if i.op != 'store': continue
        for v in ai.val(i.ops[0]):
            vb = base_off(v)[0]
            pv = ai.expand(v)
            if Poly.atom(data).m.keys() & pv.m.keys():
                for a in ai.val(i.ops[1]):
                    pa = ai.expand(a)
                    ab = [k[0][0] for k in pa.m if len(k) == 1 and k[0][0][0] == 'new']
                    if len(ab) != 1: 
                        if base_off(a)[0][0] == 'alloca': continue
                        und.append('row pointer stored at %s' % fmt(a, fn)); continue
                    tab = ab[0]; tabs.add(tab)
                    row8 = pa - Poly.atom(tab)
                    off = pv - Poly.atom(data)
                    # off == row * ncols * esz  <=> off*8 == row8*ncols*esz
                    lhs = off * Poly.const(Fraction(8)); rhs = row8 * ncols * Poly.const(Fraction(esz))
                    if rank == 1 and not row8.m and not off.m: continue
                    if lhs == rhs: continue
                    if lin_ok(lhs) and lin_ok(rhs): probs.append('row pointer at byte %s of the row table points to byte %s of the data (row length %s x %d bytes)' % (pf(row8), pf(off), pf(ncols), esz))
                    else: und.append('row layout %s vs %s' % (pf(lhs), pf(rhs)))
    for tab in tabs:
        for s in new_size(ai, fn, tab):
            if s == ('i', -1): continue
            p = ai.expand(s)
            if p != nrows * Poly.const(Fraction(8)):
                if atoms_ok(p, {('sym', 'dim0'), ('sym', 'dim1')}): probs.append('row table has %s bytes for %s rows' % (pf(p), pf(nrows)))
                else: und.append('row table size')
        for t in ai.ret_terms():
            if t[0] == 'new' and t != tab: probs.append('returns a different array than the row table')
    if not tabs: und.append('no row table found')
    return probs, und


def lin_ok(p):
    return all(t[0] in ('sym', 'it') for k in p.m for t, _ in k)


def atoms_ok(p, allowed):
    return all(t in allowed for k in p.m for t, _ in k)


def pf(p):
    if not p.m: return '0'
    return ' + '.join(('%s*' % v if v != 1 or not k else '') + '*'.join(str(t[1]) for t, e in k) for k, v in p.m.items()).replace('* ', ' ').rstrip('*')


def check_multi(ctx, m, fn, cls):
    def extra(inst, dem, args, mem, ai):
        if re.search(r'::HasVariable\(', dem): return frozenset([('i', 1)])
        return None
    n = 0
    for rank in (1, 2, 3, 4):
        for room in (rank - 1, rank, rank + 1):
            def cmp(pred, a, b, room=room):
                def r(t):
                    t = strip(t)
                    if t == A(fn, 1): return room
                    if t[0] == 'i': return t[1]
                    return None
                x, y = r(a), r(b)
                if x is None or y is None: return None
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(pred)
            ai = h5.run(fn, extra, rank=rank, cmp=cmp)
            key = '%s.GetMultiArray_linear(rank %d, room %d)' % (cls, rank, room)
            n += 1
            wrote = [(i, o) for i, o in ai.h5dims_out if i.blk.id in ai.reached]
            if rank > room:
                over = [i for i, o in wrote if any(base_off(t)[0] == A(fn, 3) for t in o)]
                if over: ctx.bad(key, over[0].loc(), 'a dataset with more dimensions than the caller has room for overruns the caller\'s extent array', fn)
                else: ctx.ok(key, fn, 'refused')
                continue
            probs = []; und = []
            for rid in ai.rets:
                ri = fn.insts[rid]
                if ri.blk.id not in ai.reached: continue
                if ai.rets[rid] == frozenset([('null',)]): continue
                mem = ai.mem_at(ri)
                for t in ai.load(mem, A(fn, 2), 'i64'):
                    if strip(t) != ('i', rank): (probs if strip(t)[0] == 'i' else und).append('reports %s dimensions' % fmt(t, fn))
                for k in range(rank):
                    for t in ai.load(mem, padd(A(fn, 3), 8 * k), 'i64'):
                        if strip(t) != ('sym', 'dim%d' % k): (probs if strip(t)[0] in ('sym', 'i', 'op') else und).append('extent %d reported as %s' % (k, fmt(t, fn)))
            if not any(s - {('null',)} for i, s in ai.rets.items() if fn.insts[i].blk.id in ai.reached): probs.append('never returns data')
            if probs: ctx.bad(key, fn.loc(), '%s::GetMultiArray_linear: %s' % (cls, '; '.join(sorted(set(probs)))), fn)
            elif und: ctx.undecided(key, '; '.join(sorted(set(und))), fn)
            else: ctx.ok(key, fn)
    return n


DIMS = [(4,), (1,), (2, 3), (3, 2), (2, 3, 4), (3, 1, 2), (2, 1, 2, 3)]


def _report(ctx, key, fn, name, r, probs, und):
    und = list(r.unk) + und
    if not und and not r.out and not probs: und.append('no outcome')
    if probs and not r.unk: ctx.bad(key, fn.loc(), '%s: %s' % (name, '; '.join(sorted(set(probs)))), fn)
    elif und: ctx.undecided(key, '; '.join(sorted(set(und))), fn)
    else: ctx.ok(key, fn)


def multi_data(ctx, m, fn, cls):
    """a block of exactly the stored number of elements, read from its start"""
    from readers import Rd
    n = 0
    for dims in DIMS:
        n += 1; tot = 1
        for d in dims: tot *= d
        k = fn.this + 1
        r = Rd(m, fn, {}, dims, multi=True, args={k + 1: ('i', len(dims))}); probs, und = [], []
        for st, I, v, mem in r.out:
            if v is None: und.append('result not known'); continue
            if v not in r.sizes: probs.append('does not return a block of its own'); continue
            if r.sizes[v][0] != 8 * tot: probs.append('allocates %d bytes for %d elements' % (r.sizes[v][0], tot))
            rd = [e[1] for e in st[1] if e[0] == 'read']
            if rd != [v]: probs.append('does not read the data into the block it returns')
        if r.exc: probs.append('refuses a variable of %d dimensions' % len(dims))
        _report(ctx, '%s.GetMultiArray_linear(%s)' % (cls, 'x'.join(map(str, dims))), fn, cls + '::GetMultiArray_linear', r, probs, und)
    return n


def multi_table(ctx, m, fn):
    """following one pointer per dimension reaches the element of these indices"""
    from readers import Rd
    from itertools import product
    n = 0
    for dims in DIMS:
        n += 1
        k = fn.this + 1
        r = Rd(m, fn, {}, dims, multi=True, args={k + 1: ('i', len(dims))}); probs, und = [], []
        for st, I, v, mem in r.out:
            lin = 0
            for ix in product(*map(range, dims)):
                p = v
                for x in ix[:-1]:
                    p = r.read(mem, r.addr(p, 8 * x), 'ptr') if p is not None else None
                p = r.addr(p, 8 * ix[-1]) if p is not None else None
                if p is None: und.append('result not known'); break
                b, o = r.split_ptr(p)
                if b[:2] != ('t', 'data') or o != 8 * lin: probs.append('indices %s of an array of %s elements lead to another element' % (list(ix), ' x '.join(map(str, dims)))); break
                lin += 1
            for h, (size, kind) in r.sizes.items():
                top = max([r.split_ptr(a)[1] + 8 for a in mem if isinstance(a, tuple) and a[0] in ('p', 'h') and r.split_ptr(a)[0] == h] or [0])
                if top > size: probs.append('a table of %d bytes is written up to byte %d' % (size, top))
        if r.exc: probs.append('refuses a variable of %d dimensions' % len(dims))
        _report(ctx, 'SFile.GetMultiArray(%s)' % 'x'.join(map(str, dims)), fn, 'SFile::GetMultiArray', r, probs, und)
    return n


def scalar(ctx, m, fn, cls):
    """a scalar is written as a list of one element, the value given"""
    from readers import Rd

    class W(Rd):
        def opaque(self, st, I, dem, args, mem):
            if re.search(r'::WriteList\(', dem) and I.callee: return [(None, self.event(st, 'list', args[1], None if args[2] is None else self.read(mem, args[2], 'double'), args[3]), None, None)]
            return Rd.opaque(self, st, I, dem, args, mem)
    k = fn.this
    r = W(m, fn, {}, (1, 1), args={k + 1: ('t', 'name'), k + 2: ('x', 'value', ())}); probs, und = [], []
    for st, I, v, mem in r.out:
        ev = [e for e in st[1] if e[0] == 'list']
        if len(ev) != 1: und.append('not written as a list'); continue
        if None in ev[0][2:]: und.append('list not known'); continue
        if ev[0][1] != ('t', 'name'): und.append('name not known')
        if ev[0][2] != ('x', 'value', ()) or ev[0][3] != ('i', 1): probs.append('does not write one element with the value given')
    _report(ctx, cls + '.WriteScalar', fn, cls + '::WriteScalar', r, probs, und)
    return 1
