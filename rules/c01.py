"""C01: HDF5/MAT storage keeps the numeric type of every value."""
import re
import h5
from h5 import KIND, fits, ctype
from absint import fmt

WR = {  # public writer -> C element kind, reported type
    'WriteArray': None, 'WriteInt32Array': None, 'WriteInt64Array': None, 'WriteUInt32Array': None, 'WriteUInt64Array': None,
    'WriteList': None, 'WriteInt32List': None, 'WriteInt64List': None, 'WriteUInt32List': None, 'WriteUInt64List': None,
    'WriteMultiArray': None, 'WriteMultiInt32Array': None, 'WriteMultiInt64Array': None, 'WriteMultiUInt32Array': None,
    'WriteMultiUInt64Array': None, 'WriteAttribute_scalar': None, 'WriteImage': None}
RD = ['GetDoubles', 'GetInt32_2D', 'GetInt64_2D', 'GetUInt32_2D', 'GetUInt64_2D', 'GetDoubles1D', 'GetInt32_1D', 'GetInt64_1D',
      'GetUInt32_1D', 'GetUInt64_1D', 'GetMultiArray_linear', 'GetAttributeScalar']
ENUM = {('f', 64): 'DOUBLE', ('i', 32): 'INT32', ('i', 64): 'INT64', ('u', 32): 'UINT32', ('u', 64): 'UINT64'}


def data_arg(fn):
    """IR index and kind of the (only) numeric data parameter"""
    for j, t in enumerate(fn.sig[2:]):
        k = ctype(t)
        if k and ('*' in t) and not (k == ('u', 64) and 'unsigned long long' in t and j > 0 and '**' not in t.replace(' ', '').replace('const', '') and j >= 3):
            return fn.this + 1 + j, k
        if k == ('f', 64) and '*' not in t: return fn.this + 1 + j, k
    return None, None


def run(ctx):
    ctx.rule('writer: file type represents every value of the element type, memory type == element type; reader: memory type == element type of the returned buffer; type query maps each stored file type back')
    m = ctx.module('--only', r'SFile')
    stored = {}
    nw = nr = 0
    for cls in ('SFile_HDF5', 'SFile_MAT'):
        for w in WR:
            for fn in m.method(cls, w):
                if fn.scls == 'SFile' and not fn.suf: continue
                _, ck = data_arg(fn)
                if ck is None: continue
                ai = h5.run(fn)
                key0 = '%s.%s(%s%d)' % (cls, w, ck[0], ck[1])
                ncre = 0
                for i, d in h5.h5calls(ai, r'.*::(createDataSet|createAttribute)\('):
                    args = [ai.val(o) for o in i.ops]
                    mem = ai.mem_at(i)
                    # DataType const& is the 2nd parameter after sret/this/name
                    ti = 3 if i.d.get('sret') else 2
                    name = 'attribute' if 'createAttribute' in d else 'dataset'
                    ps = h5.preds_of(m, mem, args[ti])
                    if name == 'attribute' and w != 'WriteAttribute_scalar': continue      # tags: C03
                    if name == 'attribute' and cls == 'SFile_MAT': continue
                    for p in ps:
                        if p is None or p not in KIND:
                            ctx.undecided(key0 + ':file', '%s: file type of %s not resolved' % (i.loc(), name), fn); continue
                        ncre += 1
                        if KIND[p][0] == 's': ctx.bad(key0 + ':file', i.loc(), '%s::%s stores numeric data as a string type (%s)' % (cls, w, p), fn); continue
                        if fits(KIND[p], ck):
                            ctx.ok(key0 + ':file', fn, '%s stored as %s' % (ck, p))
                            stored.setdefault(ck, set()).add(p)
                        else:
                            ctx.bad(key0 + ':file', i.loc(), '%s::%s stores %s%d elements with file type %s, which cannot represent all their values' % (cls, w, ck[0], ck[1], p), fn)
                nwr = 0
                for i, d in h5.h5calls(ai, r'H5::(DataSet|Attribute)::write\('):
                    args = [ai.val(o) for o in i.ops]
                    mem = ai.mem_at(i)
                    if 'Attribute' in d:
                        ti, bi = 1, 2
                        if 'basic_string' in d: continue
                    else:
                        bi, ti = 1, 2
                        if 'basic_string' in d: continue
                    ps = h5.preds_of(m, mem, args[ti]); ks = h5.elem_kinds(ai, fn, args[bi])
                    for p in ps:
                        if p is None or p not in KIND:
                            ctx.undecided(key0 + ':mem', '%s: memory type not resolved' % i.loc(), fn); continue
                        for k in ks:
                            if k is None or k[0] == 'new':
                                ctx.undecided(key0 + ':mem', '%s: buffer not traced to the parameter' % i.loc(), fn); continue
                            nwr += 1
                            if KIND[p][1] == k[1] and (k[0] == '?' or KIND[p][0] == k[0]) and KIND[p][2] == 'LE': ctx.ok(key0 + ':mem', fn, '%s from %s' % (p, k))
                            else: ctx.bad(key0 + ':mem', i.loc(), '%s::%s transfers %s%d elements with memory type %s' % (cls, w, k[0], k[1], p), fn)
                if ncre and nwr: nw += 1
        for r in RD:
            for fn in m.method(cls, r):
                rk = h5.ret_kind(fn)
                if rk is None: continue
                ai = h5.run(fn)
                key0 = '%s.%s' % (cls, r)
                got = 0
                for i, d in h5.h5calls(ai, r'H5::(DataSet|Attribute)::read\('):
                    if 'basic_string' in d: continue
                    args = [ai.val(o) for o in i.ops]; mem = ai.mem_at(i)
                    ti, bi = (1, 2) if 'Attribute' in d else (2, 1)
                    got += 1
                    for t in args[ti]:
                        v = mem.c.get(('meta', t))
                        if v and any(x[0] == 'stored' for x in v):
                            ctx.bad(key0 + ':mem', i.loc(), '%s::%s reads with whatever type is stored in the file into a %s%d buffer' % (cls, r, rk[0], rk[1]), fn)
                            continue
                        for p in h5.preds_of(m, mem, {t}):
                            if p is None or p not in KIND:
                                ctx.undecided(key0 + ':mem', '%s: memory type not resolved' % i.loc(), fn); continue
                            if KIND[p][:2] == rk and KIND[p][2] == 'LE': ctx.ok(key0 + ':mem', fn, '%s into %s' % (p, rk))
                            else: ctx.bad(key0 + ':mem', i.loc(), '%s::%s returns %s%d elements but reads them with memory type %s' % (cls, r, rk[0], rk[1], p), fn)
                nr += 1 if got else 0
    ctx.need('typed writers', nw, 30); ctx.need('typed readers', nr, 22)
    # type query
    enum = m.enums.get('SFile::sfile_data_type')
    vals = {n.replace('SFILE_DATA_', ''): v for n, v in enum['vals']}
    nq = 0
    for cls in ('SFile_HDF5', 'SFile_MAT'):
        for fn in m.method(cls, 'GetDataType'):
            for ck, ps in sorted(stored.items()):
                for p in sorted(ps):
                    cur = KIND[p]

                    def extra(inst, dem, args, mem, ai, cur=cur):
                        if re.match(r'H5::DataType::operator==\(H5::DataType const&\) const', dem) or re.match(r'H5::DataType::operator!=', dem):
                            q = h5.preds_of(ai.mod, mem, args[1]); o = h5.preds_of(ai.mod, mem, args[0])
                            if q == {None}: q = o
                            if len(q) == 1 and list(q)[0] in KIND:
                                r = KIND[list(q)[0]] == cur
                                if '!=' in dem: r = not r
                                return frozenset([('i', -1 if r else 0)])
                        if re.match(r'H5::DataType::getClass\(\) const', dem):
                            return frozenset([('i', {'i': 0, 'u': 0, 'f': 1, 's': 3}[cur[0]])])
                        if re.search(r'::getSize\(\) const', dem): return frozenset([('i', cur[1] // 8)])
                        if re.search(r'IntType::getSign\(\) const', dem): return frozenset([('i', 1 if cur[0] == 'i' else 0)])
                        return None
                    ai = h5.run(fn, extra, cap=12)
                    ai2 = ai
                    rets = set()
                    for t in ai.ret_terms(): rets.add(t)
                    # the handler path (variable missing) may add UNDEFINED
                    key = '%s.GetDataType(%s)' % (cls, p)
                    want = vals[ENUM[ck]]
                    ints = {t[1] for t in rets if t[0] == 'i'}
                    nq += 1
                    if any(t[0] != 'i' for t in rets):
                        ctx.undecided(key, 'result not resolved to constants', fn)
                    elif want not in ints:
                        ctx.bad(key, fn.loc(), 'the type query of %s never reports %s for data stored as %s (reports %s)' % (cls, ENUM[ck], p, sorted(n for n, v in vals.items() if v in ints)), fn)
                    elif ints - {want, vals['UNDEFINED']}:
                        if len(ints) > 3: ctx.undecided(key, 'comparison of types not resolved', fn)
                        else: ctx.bad(key, fn.loc(), 'the type query of %s may report %s for data stored as %s (%s)' % (cls, sorted(n for n, v in vals.items() if v in ints and v != want), p, ENUM[ck]), fn)
                    else:
                        ctx.ok(key, fn, ENUM[ck])
    ctx.need('type queries', nq, 10)

