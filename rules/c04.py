"""C04: type-independent reads dispatch on the stored type and convert element by element."""
import re
from fractions import Fraction
from absint import AbsInt, Poly, base_off, fmt, padd
import h5, loops
from loops import ref, pf, strip_casts

TYPED = {'GetDoubles': (('f', 64), 2), 'GetInt32_2D': (('i', 32), 2), 'GetInt64_2D': (('i', 64), 2), 'GetUInt32_2D': (('u', 32), 2), 'GetUInt64_2D': (('u', 64), 2),
         'GetDoubles1D': (('f', 64), 1), 'GetInt32_1D': (('i', 32), 1), 'GetInt64_1D': (('i', 64), 1), 'GetUInt32_1D': (('u', 32), 1), 'GetUInt64_1D': (('u', 64), 1)}
ENUM = {'SFILE_DATA_DOUBLE': ('f', 64), 'SFILE_DATA_INT32': ('i', 32), 'SFILE_DATA_INT64': ('i', 64), 'SFILE_DATA_UINT32': ('u', 32), 'SFILE_DATA_UINT64': ('u', 64)}
KEEP = r'::(GetDataType|' + '|'.join(TYPED) + r')\(|SFileException::|SOFTLibException::'
D0, D1 = ('sym', 'rows'), ('sym', 'cols')
EIGHT = Poly.const(Fraction(8))


def kname(k):
    return {'f': 'double', 'i': 'int%d' % k[1], 'u': 'uint%d' % k[1]}[k[0]]


def analyse(fn, dtype, facts=None):
    """dtype: value GetDataType reports (None: unknown); facts(pred,a,b)"""
    used = []

    def ch(inst, dem, args, mem, ai):
        m = re.search(r'(\w+)\(', dem)
        n = m.group(1) if m else ''
        mm = re.search(r'::(\w+)\([^()]*(?:<[^()]*>)?[^()]*\)', dem)
        sh = re.sub(r'\(.*', '', dem).split('::')[-1]
        if sh == 'GetDataType' and dtype is not None: return frozenset([('i', dtype)])
        if sh in TYPED and 'SFile' in dem:
            k, nd = TYPED[sh]
            used.append((inst, sh, k, nd, args))
            for t in args[-1]:
                if nd == 2:
                    ai.store(mem, frozenset([t]), frozenset([D0]), inst); ai.store(mem, frozenset([padd(t, 8)]), frozenset([D1]), inst)
                else: ai.store(mem, frozenset([t]), frozenset([D0]), inst)
            return frozenset([('src', sh)])
        if sh == 'operator==' and 'type_info' in dem: return None
        return None
    ai = AbsInt(fn, callhook=ch, eh='catch', cmp=facts)
    u = {}
    for x in used:
        if x[0].blk.id in ai.reached: u[x[0].id] = x
    return ai, list(u.values())


def dimfacts(d0, d1):
    """d0,d1: '1' (equal one) or '*' (anything but one)"""
    st = {D0: d0, D1: d1}

    def f(pred, a, b):
        if a in st and b[0] == 'i' and b[1] == 1:
            one = st[a] == '1'
            if pred == 'eq': return one
            if pred == 'ne': return not one
            if one: return {'ult': False, 'ule': True, 'ugt': False, 'uge': True, 'slt': False, 'sle': True, 'sgt': False, 'sge': True}.get(pred)
        if a in st and st[a] == '1' and b[0] == 'i':
            x, y = 1, b[1]
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}.get(pred)
        if pred in ('eq', 'ne') and a[0] == 'op' and a[1] == 'mul' and set(a[2:4]) == {D0, D1} and b == ('i', 1):
            return ((d0 == '1' and d1 == '1') == (pred == 'eq'))
        return None
    return f


def castok(src, dst, ops, lsz):
    """are the cast instructions (outermost first) the value-preserving conversion of element kind src to dst?"""
    if lsz is not None and lsz * 8 != src[1]: return 'reads %d-byte elements of %s data' % (lsz, kname(src))
    ops = [o for o in ops if o not in ('bitcast',)]
    if src[0] == 'f':
        if dst[0] == 'f': return None if not ops else 'converts double through %s' % ops
        want = 'fptosi' if dst[0] == 'i' else 'fptoui'
        if ops == [want]: return None
        if not ops: return 'reinterprets the bits of a double'
        if any(o in ('fptosi', 'fptoui') for o in ops) and len(ops) > 1: return 'narrows the converted value (%s)' % ' '.join(ops[::-1])
        return 'uses %s for a double' % ' '.join(ops[::-1])
    if dst[0] == 'f':
        want = 'sitofp' if src[0] == 'i' else 'uitofp'
        return None if want in ops and 'trunc' not in ops else 'uses %s for %s' % (' '.join(ops[::-1]) or 'no conversion', kname(src))
    if 'trunc' in ops and src[1] <= dst[1]: return 'truncates the value on the way'
    if any(o in ('sitofp', 'uitofp') for o in ops): return 'converts integers through floating point'
    if src[1] < dst[1]:
        want = 'sext' if src[0] == 'i' else 'zext'
        if ops != [want]: return 'extends %s elements with %s' % (kname(src), ' '.join(ops[::-1]) or 'nothing')
    elif ops and src[1] == dst[1]: return 'uses %s for %s' % (' '.join(ops[::-1]), kname(src))
    return None


def run(ctx):
    ctx.rule('for every stored-type value GetDataType can report, the generic reader reaches exactly the typed reader of that type, converts each element with the conversion of that type at the same index over the whole extent, and throws for any other type; single values require extents 1x1, lists one extent 1')
    m = ctx.module('--only', r'SFile', '--keep', KEEP)
    en = m.enums.get('SFile::sfile_data_type')
    if not en: raise __import__('extract').AnalysisError('enum sfile_data_type not found')
    n = 0
    for cls in ('SFile_HDF5', 'SFile_MAT', 'SFile_SDT'):
        for short, nd in (('GetIntArray', 2), ('GetIntList', 1), ('GetInt', 0)):
            for fn in m.method(cls, short):
                if not fn.suf: continue
                for name, v in en['vals']:
                    n += 1
                    generic(ctx, m, fn, cls, short, nd, name, v)
        for short, k in (('GetInt32', ('i', 32)), ('GetInt64', ('i', 64)), ('GetUInt32', ('u', 32)), ('GetUInt64', ('u', 64)), ('GetScalar', ('f', 64))):
            for fn in m.method(cls, short):
                if fn.suf: n += 1; single(ctx, m, fn, cls, short, k)
        for fn in m.method(cls, 'GetList'):
            if fn.suf: n += 1; getlist(ctx, m, fn, cls)
    for short, (k, nd) in TYPED.items():
        if k[0] == 'f': continue
        for fn in m.method('SFile_SDT', short):
            n += 1; sdt(ctx, m, fn, short, k, nd)
    for short, nd in (('GetDoubles', 2), ('GetDoubles1D', 1)):
        for fn in m.method('SFile_SDT', short):
            for rows, cols in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2)): n += 1; sdtmatrix(ctx, m, fn, short, nd, rows, cols)
    for fn in m.method('SFile_SDT', 'GetDataType'):
        n += 1; sdttype(ctx, m, fn, dict((a, b) for a, b in en['vals']))
    ctx.need('generic reader cases', n, 60)


def returns(ai):
    return [ai.fn.insts[r] for r in ai.rets if ai.fn.insts[r].blk.id in ai.reached]


def generic(ctx, m, fn, cls, short, nd, ename, ev):
    key = '%s.%s(%s)' % (cls, short, ename)
    name = 'SFile::%s' % short
    ai, used = analyse(fn, ev, dimfacts('1', '1') if nd == 0 else None)
    rets = returns(ai)
    want = ENUM.get(ename)
    if want is None:
        if rets: ctx.bad(key, (used[0][0] if used else rets[0]).loc(), '%s returns data for a variable of type %s' % (name, ename), fn)
        else: ctx.ok(key, fn, 'refused')
        return
    if not rets:
        ctx.bad(key, fn.loc(), '%s refuses a variable stored as %s' % (name, kname(want)), fn); return
    for i, sh, k, d, args in used:
        if k != want: ctx.bad(key, i.loc(), '%s reads a variable stored as %s with %s' % (name, kname(want), sh), fn); return
    if not used: ctx.undecided(key, 'no typed reader reached', fn); return
    if nd == 0:
        probs, und = scalar_value(ai, fn, want, ('i', 64))
    else:
        if nd == 1 and used[0][3] == 2:
            # list through the 2-D reader: rows or columns may be one
            probs, und = [], []
            for a, b in (('1', '*'), ('*', '1'), ('1', '1')):
                ai2, u2 = analyse(fn, ev, dimfacts(a, b))
                p2, u_ = copy_check(ai2, fn, u2, want, ('i', 64), 1, D1 if a == '1' else D0)
                probs += p2; und += u_
        else:
            probs, und = copy_check(ai, fn, used, want, ('i', 64), nd, D0)
        if probs or und: probs, und = by_instance(m, fn, want, ('i', 64), nd, ev, probs, und)
    fin(ctx, key, name + ' (stored %s)' % kname(want), fn, probs, und)


SHAPES = [(1, 1), (1, 3), (3, 1), (1, 67)]
SHAPES2 = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (9, 11)]


def by_instance(m, fn, src, dst, nd, ev, probs, und):
    """the same question on finite instances, where loops of any form are followed"""
    from readers import Rd, elements
    bad, unk = [], []
    for rows, cols in (SHAPES if nd == 1 else SHAPES2):
        r = Rd(m, fn, TYPED, (rows, cols), ev)
        if r.unk: unk += r.unk; continue
        if not r.out: unk.append('no outcome for %d x %d' % (rows, cols)); continue
        for st, I, v, mem in r.out:
            n = rows * cols
            e = elements(r, mem, v, nd, rows if nd == 2 else 1, cols if nd == 2 else n, dst[1] // 8)
            if e is None or None in e: unk.append('elements not known'); continue
            for k, x in enumerate(e):
                if x[0] != 'x': bad.append((fn.loc(), 'element %d of a %d x %d variable is not an element of it' % (k, rows, cols))); continue
                if x[1] != k: bad.append((fn.loc(), 'element %d of a %d x %d variable is its element %d' % (k, rows, cols, x[1]))); continue
                c = castok(src, dst, [o.split(':')[0] for o in x[2][::-1]], None)
                if c: bad.append((fn.loc(), c))
            d = ('arg', len(fn.d['args']) - 1) if False else None
    if bad: return probs + bad[:3], []
    if unk: return probs, und or unk
    return [], []


def fin(ctx, key, name, fn, probs, und):
    if probs: ctx.bad(key, probs[0][0], '%s %s' % (name, '; '.join(sorted({p[1] for p in probs}))), fn)
    elif und: ctx.undecided(key, '; '.join(sorted(set(und))), fn)
    else: ctx.ok(key, fn)


def scalar_value(ai, fn, src, dst):
    probs, und = [], []
    for t in ai.ret_terms():
        v, ops = strip_casts(t)
        if v[0] == 'ld':
            r = ref(ai, v[1], {('src', s) for s in TYPED})
            if r and r.row is not None:
                if loops.isc(r.row) != 0 or loops.isc(r.off) != 0:
                    probs.append((fn.loc(), 'returns an element other than the first'))
                e = castok(src, dst, ops, None)
                if e: probs.append((fn.loc(), e))
                continue
        if v[0] in ('i', 'f', 'undef'): probs.append((fn.loc(), 'returns %s, not the value read' % fmt(v, fn))); continue
        und.append('return value %s' % fmt(t, fn))
    return probs, und


def single(ctx, m, fn, cls, short, k):
    key = '%s.%s' % (cls, short); name = 'SFile::' + short
    probs, und = [], []
    ai, used = analyse(fn, None, dimfacts('1', '1'))
    if not returns(ai): probs.append((fn.loc(), 'refuses a 1x1 variable'))
    for i, sh, kk, d, a in used:
        if kk != k: probs.append((i.loc(), 'reads with %s' % sh))
    if not used: und.append('no typed reader')
    p, u = scalar_value(ai, fn, k, k); probs += p; und += u
    for d in (('1', '*'), ('*', '1'), ('*', '*')):
        ai, used = analyse(fn, None, dimfacts(*d))
        if returns(ai): probs.append((fn.loc(), 'returns a value for a variable that is not 1x1'))
    fin(ctx, key, name, fn, probs, und)


def getlist(ctx, m, fn, cls):
    key = '%s.GetList' % cls
    probs, und = [], []
    L = ('arg', fn.this + 2)
    for d, want in ((('1', '*'), {D1}), (('*', '1'), {D0}), (('1', '1'), {D0, D1, ('i', 1)}), (('*', '*'), None)):
        ai, used = analyse(fn, None, dimfacts(*d))
        rs = returns(ai)
        if want is None:
            if rs: probs.append((fn.loc(), 'returns a list for a matrix with more than one row and column'))
            continue
        if not rs: probs.append((fn.loc(), 'refuses a variable with %s' % ('one row' if d[0] == '1' else 'one column'))); continue
        for r in rs:
            mem = ai.mem_at(r)
            got = ai.load(mem, L, 'i64')
            for t in got:
                t2 = t
                if t2 in want: continue
                if t2[0] in ('sym', 'i'): probs.append((r.loc(), 'reports length %s for a variable with %s' % (fmt(t2), 'one row' if d[0] == '1' else 'one column')))
                else:
                    p = ai.expand(t2)
                    if p == Poly.atom(D0) * Poly.atom(D1): continue
                    und.append('length %s' % fmt(t2, fn))
            for t in ai.rets[r.id]:
                rr = ref(ai, t[1], {('src', s) for s in TYPED}) if t[0] == 'ld' else None
                if rr and rr.row is None and loops.isc(rr.off) == 0: continue
                if rr: probs.append((r.loc(), 'returns row %s' % pf(rr.off))); continue
                if t[0] == 'null': probs.append((r.loc(), 'returns no data')); continue
                if t[0] == 'new': continue       # copied: decided by the copy check
                und.append('returns %s' % fmt(t, fn))
    fin(ctx, key, 'SFile::GetList', fn, probs, und)


def copy_check(ai, fn, used, src, dst, nd, length):
    """the returned array holds every element of the source array, converted, at the same index"""
    probs, und = [], []
    esz_o = dst[1] // 8; esz_i = src[1] // 8
    srcs = {('src', s) for s in TYPED} | {('ld', ('src', s)) for s in TYPED}
    rets = [r for r in returns(ai)]
    outs = set()
    for r in rets:
        for t in ai.rets[r.id]:
            b, o, v = base_off(t)
            if b[0] == 'new' and not o and not v: outs.add(b)
            elif b[0] == 'src' and src == dst: pass
            elif b[0] == 'src': probs.append((r.loc(), 'returns the %s array uncoverted' % kname(src)))
            else: und.append('returns %s' % fmt(t, fn))
    tabs = set(outs)
    data = set(outs)
    if nd == 2:
        # data blocks: whatever is stored into slot 0 of the table
        data = set()
        for i in ai.reached_insts():
            if i.op != 'store': continue
            for a in ai.val(i.ops[1]):
                if a in tabs:
                    for v in ai.val(i.ops[0]):
                        if v[0] == 'new': data.add(v)
        p, u = table(ai, fn, tabs, data, esz_o); probs += p; und += u
    elems = 0
    for i in ai.reached_insts():
        if i.op != 'store': continue
        for a in ai.val(i.ops[1]):
            r = ref(ai, a, tabs | data)
            if r is None: continue
            if nd == 2 and r.base in tabs and r.row is None: continue      # row table itself
            for v in ai.val(i.ops[0]):
                w, ops = strip_casts(v)
                if w[0] != 'ld':
                    if w[0] in ('i', 'f', 'undef'): probs.append((i.loc(), 'stores the constant %s instead of the element read' % fmt(w, fn)))
                    else: und.append('element value %s' % fmt(v, fn))
                    continue
                s = ref(ai, w[1], srcs)
                if s is None: und.append('element value %s' % fmt(v, fn)); continue
                elems += 1
                lsz = None
                e = castok(src, dst, ops, lsz)
                if e: probs.append((i.loc(), e))
                # index agreement
                srow, soff = s.row, s.off
                drow, doff = r.row, r.off
                if s.base[0] == 'ld': srow = srow if srow is not None else Poly()
                if nd == 1 and srow is not None and not srow.m: srow = None
                if srow is not None and drow is None and r.base in data: drow = Poly()
                if (srow is None) != (drow is None): und.append('row structure'); continue
                if srow is not None and srow != drow:
                    if _known(srow - drow): probs.append((i.loc(), 'takes element of row %s/8 for row %s/8' % (pf(srow), pf(drow)))); continue
                    und.append('row index'); continue
                x = soff * Poly.const(Fraction(1, esz_i)) - doff * Poly.const(Fraction(1, esz_o))
                if x.m:
                    if _known(x): probs.append((i.loc(), 'takes element %s for element %s' % (pf(soff * Poly.const(Fraction(1, esz_i))), pf(doff * Poly.const(Fraction(1, esz_o)))))); continue
                    und.append('element index'); continue
                # coverage
                total = None
                its = loops.its(soff) | (loops.its(srow) if srow is not None else set())
                ok = True
                cov = Poly.const(Fraction(1))
                for it in its:
                    bs = loops.bounds(ai, it[1])
                    if any(b is None for b in bs) or len({b.key() for b in bs}) != 1: und.append('loop bound'); ok = False; break
                    cov = cov * bs[0]
                if not ok: continue
                tot = Poly.atom(length) if nd == 1 else Poly.atom(D0) * Poly.atom(D1)
                first = [soff, doff] + ([srow, drow] if srow is not None else [])
                z = [Poly({k: c for k, c in q.m.items() if not any(t[0] == 'it' for t, _ in k)}) for q in first]
                if any(q.m for q in z):
                    if all(_known(q) for q in z): probs.append((i.loc(), 'copying starts at element %s' % pf(z[0]))); continue
                    und.append('start index'); continue
                if cov != tot:
                    if _known(cov - tot): probs.append((i.loc(), 'copies %s of %s elements' % (pf(cov), pf(tot))))
                    else: und.append('copied extent %s' % pf(cov))
    if outs and not elems and not probs and not und: und.append('no element copy found')
    # reported extents are untouched
    return probs, und


def _known(p):
    return all(t[0] in ('sym', 'it') for k in p.m for t, _ in k)


def table(ai, fn, tabs, data, esz):
    """row table: row i points to data + i*ncols"""
    probs, und = [], []
    cols = Poly.atom(D1)
    for t in data:
        for s in ai.val(fn.insts[t[1]].ops[0]):
            if s == ('i', -1): continue
            p = ai.expand(s); w = Poly.atom(D0) * cols * Poly.const(Fraction(esz))
            if p != w: (probs.append((fn.insts[t[1]].loc(), 'allocates %s bytes for rows*cols elements of %d bytes' % (pf(p), esz))) if _known(p) else und.append('allocation size'))
    for t in tabs:
        for s in ai.val(fn.insts[t[1]].ops[0]):
            if s == ('i', -1): continue
            p = ai.expand(s); w = Poly.atom(D0) * EIGHT
            if p != w: (probs.append((fn.insts[t[1]].loc(), 'allocates %s bytes for the row table' % pf(p))) if _known(p) else und.append('table size'))
    n = 0
    for i in ai.reached_insts():
        if i.op != 'store': continue
        for a in ai.val(i.ops[1]):
            r = ref(ai, a, tabs)
            if r is None or r.row is not None: continue
            for v in ai.val(i.ops[0]):
                pv = ai.expand(v)
                hit = False
                for d in data:
                    if Poly.atom(d).m.keys() & pv.m.keys():
                        off = pv - Poly.atom(d); hit = True; n += 1
                        if off * EIGHT != r.off * cols * Poly.const(Fraction(esz)):
                            if _known(off): probs.append((i.loc(), 'row pointer %s/8 set to data byte %s' % (pf(r.off), pf(off))))
                            else: und.append('row layout')
                if hit: continue
                # previous row + ncols
                for k in pv.m:
                    if len(k) == 1 and k[0][1] == 1 and pv.m[k] == 1 and k[0][0][0] == 'ld':
                        q = ref(ai, k[0][0][1], tabs)
                        if q is None or q.row is not None: continue
                        hit = True; n += 1
                        off = pv - Poly({k: Fraction(1)})
                        drow = r.off - q.off
                        if off * EIGHT != drow * cols * Poly.const(Fraction(esz)):
                            if _known(off) and _known(drow): probs.append((i.loc(), 'row pointer %s/8 is row %s/8 plus %s bytes (row length is cols*%d)' % (pf(r.off), pf(q.off), pf(off), esz)))
                            else: und.append('row layout')
                        break
                if not hit and v[0] not in ('undef',): und.append('row pointer %s' % fmt(v, fn))
    if not n: und.append('no row table')
    return probs, und


def sdt(ctx, m, fn, short, k, nd):
    key = 'SFile_SDT.%s' % short
    ai, used = analyse(fn, None, None)
    used = [u for u in used if u[2][0] == 'f']
    if not used: ctx.undecided(key, 'does not go through the double reader', fn); return
    if used[0][3] != nd: ctx.undecided(key, 'reader of other rank', fn); return
    probs, und = copy_check(ai, fn, used, ('f', 64), k, nd, D0)
    if probs or und: probs, und = by_instance(m, fn, ('f', 64), k, nd, None, probs, und)
    fin(ctx, key, 'SFile_SDT::' + short, fn, probs, und)


def sdtmatrix(ctx, m, fn, short, nd, rows, cols):
    """the matrix held by the file object is handed out element by element; a list only if it is one row or column"""
    from readers import Rd, elements
    key = 'SFile_SDT.%s(%d x %d)' % (short, rows, cols)
    r = Rd(m, fn, {}, (rows, cols)); probs, und = [], list(r.unk)
    if not r.unk and not r.out and not r.exc: und.append('no outcome')
    if nd == 1 and rows > 1 and cols > 1:
        if r.out: probs.append((fn.loc(), 'returns a list for a matrix with more than one row and column'))
    else:
        if r.exc and not und: probs.append((fn.loc(), 'refuses a variable of %d x %d elements' % (rows, cols)))
        for st, I, v, mem in r.out:
            e = elements(r, mem, v, nd, rows if nd == 2 else 1, cols if nd == 2 else rows * cols, 8)
            d = [r.read(mem, r.addr(('arg', fn.this + 2), 8 * k), 'i64') for k in range(nd)]
            if e is None or None in e or None in d: und.append('result not known'); continue
            if d != ([('i', rows), ('i', cols)] if nd == 2 else [('i', rows * cols)]): probs.append((fn.loc(), 'reports the extents of a %d x %d variable as %s' % (rows, cols, [x[1] for x in d])))
            if e != [('x', k, ()) for k in range(rows * cols)]: probs.append((fn.loc(), 'hands out the elements of a %d x %d variable in another order' % (rows, cols)))
    fin(ctx, key, 'SFile_SDT::' + short, fn, probs, und)


def sdttype(ctx, m, fn, ev):
    """a matrix is reported as numeric (the hint if numeric), a string as string, anything else as undefined"""
    offm = m.field_off('SFile_SDT', 'matrices'); offs = m.field_off('SFile_SDT', 'strings')
    if offm is None or offs is None: ctx.undecided('SFile_SDT.GetDataType', 'members not found', fn); return
    this = ('arg', fn.this); hint = ('arg', fn.this + 2)
    num = {ev[k] for k in ENUM}
    for inm in (0, 1):
        for ins in (0, 1):
            if inm and ins: continue
            for hn, hv in ev.items():
                key = 'SFile_SDT.GetDataType(%s,%s)' % ('matrix' if inm else 'string' if ins else 'absent', hn)

                def which(args):
                    for t in args[0] if True else ():
                        b, o, v = base_off(t)
                        if b == this and o == offm: return 'm'
                        if b == this and o == offs: return 's'
                    return None

                def ch(inst, dem, args, mem, ai):
                    mm = re.search(r'::(find|end|count|contains)\(', dem)
                    if mm:
                        w = which(args)
                        if w:
                            present = inm if w == 'm' else ins
                            if mm.group(1) == 'find': return frozenset([('sym', 'it_' + w) if present else ('sym', 'end_' + w)])
                            if mm.group(1) == 'end': return frozenset([('sym', 'end_' + w)])
                            return frozenset([('i', present)])
                    if re.search(r'operator(==|!=)\(', dem) and 'iterator' in dem and len(args) == 2:
                        va = set().union(*[ai.load(mem, a, 'ptr') for a in args[0]]); vb = set().union(*[ai.load(mem, a, 'ptr') for a in args[1]])
                        if len(va) == 1 and len(vb) == 1:
                            x, y = next(iter(va)), next(iter(vb))
                            if x[0] == 'sym' and y[0] == 'sym' and x[1][-1] == y[1][-1]:
                                return frozenset([('i', -1 if (x == y) == ('operator==' in dem) else 0)])
                    return None
                ai = AbsInt(fn, callhook=ch, eh='catch', arg_terms={fn.this + 2: ('i', hv)})
                got = ai.ret_terms()
                if any(t[0] != 'i' for t in got) or not got: ctx.undecided(key, str(got), fn); continue
                g = {t[1] for t in got}
                if inm: good = g <= ({hv} if hv in num else {ev['SFILE_DATA_DOUBLE']}) or (hv in num and g <= num and len(g) == 1 and g == {ev['SFILE_DATA_DOUBLE']})
                elif ins: good = g == {ev['SFILE_DATA_STRING']}
                else: good = not (g & num) and ev['SFILE_DATA_STRING'] not in g
                if len(g) > 1 and not good: ctx.undecided(key, str(g), fn)
                elif good: ctx.ok(key, fn)
                else: ctx.bad(key, fn.loc(), 'SFile_SDT::GetDataType reports %s for %s' % (sorted(k for k, v in ev.items() if v in g), 'a matrix' if inm else 'a string' if ins else 'a variable that does not exist'), fn)
