"""C03: MATLAB class tags in MAT files."""
import re
import h5
from absint import fmt, base_off

TAG = {('f', 64): 'double', ('i', 32): 'int32', ('i', 64): 'int64', ('u', 32): 'uint32', ('u', 64): 'uint64'}


def wanted(fn):
    s = fn.short
    if s in ('WriteString', 'WriteAttribute_string'): return 'char'
    if s in ('WriteAttribute_scalar', 'WriteScalar', 'WriteImage'): return 'double'
    if s == 'CreateStruct': return 'struct'
    for t in fn.sig:
        if '*' in t and h5.ctype(t) in TAG:
            if 'sfilesize' in t: continue
            return TAG[h5.ctype(t)]
    return None


def run(ctx):
    ctx.rule('every normal path of every MAT writer creates the dataset once and writes attribute MATLAB_class with the text matching the element type to that dataset; strings also MATLAB_int_decode and 16-bit storage')
    m = ctx.module('--only', r'SFile')
    n = 0
    seen = set()
    for d, c, sc, key, f in m.index:
        if c != 'SFile_MAT': continue
        o = m._raw[key]
        if not (o['short'].startswith('Write') or o['short'] == 'CreateStruct'): continue
        if o['short'].startswith('WriteMATLAB') or '<' in o['short'] or o['short'].endswith('Num') or 'Num' in o['short']: continue
        if sc == 'SFile_HDF5' and not key[1]: continue
        fn = m.get(key)
        w = wanted(fn)
        if w is None: continue
        n += 1
        check(ctx, m, fn, w)
    ctx.need('MAT writers', n, 20)


def check(ctx, m, fn, want):
    ai = h5.run(fn)
    key = 'SFile_MAT.%s%s' % (fn.short, '' if fn.scls != 'SFile' else '[%s]' % want)
    name = 'SFile_MAT::' + fn.short
    creates = list(h5.h5calls(ai, r'.*::(createDataSet|createGroup)\('))
    tags = {}; und = []
    for i, d in h5.h5calls(ai, r'.*::createAttribute\('):
        mem = ai.mem_at(i); sr = 1 if i.d.get('sret') else 0
        args = [ai.val(o) for o in i.ops]
        nm = h5.strvals(ai, mem, args[sr + 1])
        att = args[0] if sr else {('call', i.id)}
        obj = args[sr]
        for x in nm:
            if x[0] != 'lit': und.append('attribute name not constant'); continue
            tags.setdefault(x[1], []).append((i, att, obj))
    # attribute writes
    good = {}          # tag -> set of write insts with the right value
    wrong = []
    for i, d in h5.h5calls(ai, r'H5::Attribute::write\('):
        mem = ai.mem_at(i); args = [ai.val(o) for o in i.ops]
        for tag, lst in tags.items():
            for (ci, att, obj) in lst:
                if not (set(args[0]) & set(att)): continue
                if tag == 'MATLAB_class':
                    vs = h5.strvals(ai, mem, args[2])
                    for nb in strlens(ai, args[1] | (ai.val(ci.ops[(1 if ci.d.get('sret') else 0) + 2]))):
                        if nb < len(want): wrong.append((i, 'declares MATLAB_class as %d characters, too short for "%s"' % (nb, want)))
                    if vs == {('lit', want)}: good.setdefault(tag, {})[i.id] = (ci, obj)
                    elif all(v[0] == 'lit' for v in vs): wrong.append((i, 'writes MATLAB_class %s, expected "%s"' % ('/'.join('"%s"' % v[1] for v in vs), want)))
                    else: und.append('class text not constant')
                elif tag == 'MATLAB_int_decode':
                    vs = set()
                    for p in args[2]: vs |= set(ai.load(mem, p, 'i32'))
                    if vs == {('i', 2)}: good.setdefault(tag, {})[i.id] = (ci, obj)
                    elif all(v[0] == 'i' for v in vs): wrong.append((i, 'writes MATLAB_int_decode %s, expected 2' % sorted(v[1] for v in vs)))
                    else: und.append('decode value not constant')
    if wrong:
        for i, t in wrong: ctx.bad(key, i.loc(), '%s %s' % (name, t), fn)
        return
    if und: ctx.undecided(key, '; '.join(sorted(set(und))), fn); return
    if not creates: ctx.undecided(key, 'no dataset creation found', fn); return
    for tag in ['MATLAB_class'] + (['MATLAB_int_decode'] if want == 'char' else []):
        stop = set(good.get(tag, {}))
        if not stop or reaches_ret(ai, fn, stop):
            ctx.bad(key + ':' + tag, creates[0][0].loc(), '%s can return without writing attribute %s%s' % (name, tag, ' = "%s"' % want if tag == 'MATLAB_class' else ''), fn)
            return
    # all tagged objects are the created dataset (same name), and only one dataset is created
    cn = set()
    for i, d in creates:
        sr = 1 if i.d.get('sret') else 0
        mem = ai.mem_at(i)
        cn |= {frozenset(h5.strvals(ai, mem, ai.val(i.ops[sr + 1])))}
    if len(creates) > 1 and len(cn) == 1 and can_follow(ai, fn, creates):
        ctx.bad(key + ':twice', creates[1][0].loc(), '%s creates the same dataset twice' % name, fn); return
    for tag, d in good.items():
        for wi, (ci, obj) in d.items():
            for ob in obj:
                src = opened(ai, ob)
                if src is None: continue
                if src not in cn and all(x[0] == 'same' for y in cn for x in y) and all(x[0] in ('same', 'lit') for x in src):
                    ctx.bad(key + ':object', ci.loc(), '%s tags another object than the dataset it writes' % name, fn); return
    if want == 'char':
        for i, d in creates:
            sr = 1 if i.d.get('sret') else 0
            ps = h5.preds_of(m, ai.mem_at(i), ai.val(i.ops[sr + 2]))
            for p in ps:
                k = h5.KIND.get(p)
                if p is None: ctx.undecided(key + ':u16', 'storage type not resolved', fn); return
                if not k or k[:2] != ('u', 16): ctx.bad(key + ':u16', i.loc(), '%s stores characters as %s, not as 16-bit' % (name, p), fn); return
    ctx.ok(key, fn, want)


def strlens(ai, objs):
    """constant lengths the string types `objs' were made with"""
    out = set()
    for i in ai.reached_insts():
        if not i.is_call() or not i.callee: continue
        d = ai.mod.dem(i.callee)
        g = re.match(r'H5::StrType::StrType\((?:int, |H5::PredType const&, )(unsigned long|unsigned long const&|int)\)', d)
        if g and set(ai.val(i.ops[0])) & set(objs):
            vs = ai.val(i.ops[-1])
            if '&' in g.group(1): vs = set().union(*[set(ai.load(ai.mem_at(i), p, 'i64')) for p in vs])
            out |= {v[1] for v in vs if v[0] == 'i' and v[1] >= 0}
        elif re.match(r'H5::(StrType|DataType)::setSize\(', d) and set(ai.val(i.ops[0])) & set(objs):
            out |= {v[1] for v in ai.val(i.ops[-1]) if v[0] == 'i' and v[1] >= 0}
    return out


def opened(ai, ob):
    """name (as string value set) of the dataset object `ob' was opened/created with"""
    b = base_off(ob)[0]
    for i in ai.reached_insts():
        if not i.is_call() or not i.callee: continue
        d = ai.mod.dem(i.callee)
        if re.search(r'::(openDataSet|createDataSet|createGroup|openGroup)\(', d) and i.d.get('sret') and any(base_off(t)[0] == b for t in ai.val(i.ops[0])):
            return frozenset(h5.strvals(ai, ai.mem_at(i), ai.val(i.ops[2])))
    return None


def reaches_ret(ai, fn, stop):
    """is a return reachable along analysed edges without executing an instruction of `stop'?"""
    seen = set(); st = [fn.entry]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        blk = fn.blocks[b]
        if any(i.id in stop for i in blk.insts): continue
        if blk.insts[-1].op == 'ret': return True
        st += [y for x, y in ai.edges if x == b]
    return False


def can_follow(ai, fn, creates):
    a = creates[0][0].blk.id
    seen = set(); st = [a]
    tgt = {c[0].blk.id for c in creates[1:]}
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if b in tgt: return True
        st += [y for x, y in ai.edges if x == b]
    return False
