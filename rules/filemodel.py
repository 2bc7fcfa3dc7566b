"""A loader or saver run against a model of the file: which tables exist, with symbolic extents.

Reading a table gives ('file', name); element (r, c) of a two-dimensional one is *(*(file + 8 r) + 8 c).  Nothing is executed:
the abstract interpreter follows the loader's source with these values, comparisons of extents are decided by representative numbers."""
import re
from fractions import Fraction
import h5, loops, strmodel
from absint import AbsInt, Poly, base_off, fmt, padd
from loops import strip_casts, ref
from numev import Num, Unknown, Undefined
from clone import table as vtable

KEEP = r'SFile::(Create|Get|Write)'
N = lambda c: Poly.const(Fraction(c))


def method(m, ai, i, filearg=None):
    """short name of the SFile method a call reaches"""
    if i.callee:
        d = m.dem(i.callee)
        g = re.match(r'(?:[\w:*& <>,]+ )?SFile(?:_\w+)?::(\w+)(?:\[abi:cxx11\])?\(', d)
        return g.group(1) if g else None
    for t in ai.opv(i.d['cv']):
        if t[0] != 'ld': continue
        b, off, var = base_off(t[1])
        if var or b[0] != 'ld' or not (is_file(b[1]) or (filearg is not None and b[1] == filearg)): continue
        d = vtable(m, 'SFile').get(off // 8)
        if d:
            g = re.search(r'::(\w+)(?:\[abi:cxx11\])?\(', d)
            return g.group(1) if g else None
    return None


def is_file(t):
    return t[0] == 'call' and 'Create' in t[1] and 'SFile' in t[1]


class Model:
    """tables: name -> tuple of extents (symbol names or numbers) | 'string' | 'scalar'; anything else is absent.
    num: values of symbols and of loaded members for deciding comparisons"""
    def __init__(self, m, tables, num, leaf=None, extra=None, strargs=None, filearg=None):
        self.m = m; self.tables = tables; self.num = num; self.xleaf = leaf; self.extra = extra
        self.reads = {}; self.bad = []; self.kind = {}; self.filearg = filearg
        self.strargs = {t: frozenset([('lit', v)]) for t, v in (strargs or {}).items()}

    def leaf(self, t):
        if t[0] == 'sym': return self.num.get(t[1])
        if t[0] == 'file': return ('P', t[1], 0)
        return self.xleaf(t) if self.xleaf else None

    def ext(self, e): return ('i', e) if isinstance(e, int) else ('sym', e)

    def cmp(self, p, a, b):
        n = Num(self.leaf, self.load)
        try: return n.cmp(p, a, b)
        except Undefined: return None

    def load(self, b, o): raise Unknown('memory')

    def names(self, ai, mem, ts):
        v = strmodel.val(ai, mem, ts)
        if v is not None: return {v}
        return {x[1] if x[0] == 'lit' else None for x in h5.strvals(ai, mem, ts)}

    def call(self, i, dem, args, mem, ai):
        if self.extra:
            r = self.extra(i, dem, args, mem, ai)
            if r is not None: return r
        if re.match(r'std::__cxx11::basic_string<.*>::operator=\((std::__cxx11::basic_string<|char const\*)', dem):
            v = strmodel.val(ai, mem, args[1])
            vs = h5.strvals(ai, mem, args[1]) if v is None else {('lit', v)}
            for x in args[0]: mem.c[('strval', x)] = frozenset(vs)
            return args[0]
        s = method(self.m, ai, i, self.filearg)
        if s is None: return None
        k = 1 if i.d.get('sret') else 0
        if s.startswith('Get') and len(args) > k + 1:
            ns = self.names(ai, mem, args[k + 1])
            if len(ns) != 1 or None in ns: self.bad.append((i.id, 'name of the variable read')); return None
            nm = next(iter(ns))
            self.reads[i.id] = nm
            t = self.tables.get(nm)
            if s == 'GetString' or s == 'GetAttributeString':
                for x in args[0]: mem.c[('strval', x)] = frozenset([('file', nm)])
                return frozenset([('undef',)])
            if t is None: return frozenset([('undef',)])
            if s in ('GetScalar', 'GetInt', 'GetAttributeScalar', 'GetInt32', 'GetInt64', 'GetUInt32', 'GetUInt64', 'GetReal', 'GetDouble'): return frozenset([('filescalar', nm)])
            if s in ('GetMultiArray_linear', 'GetMultiArray'):
                for x in args[k + 3]: ai.store(mem, frozenset([x]), frozenset([('i', len(t))]), i)
                for x in args[k + 4]:
                    for j, e in enumerate(t): ai.store(mem, frozenset([padd(x, 8 * j)]), frozenset([self.ext(e)]), i)
                self.kind[nm] = 'flat'
                return frozenset([('file', nm)])
            ex = list(t) if isinstance(t, tuple) else [1]
            one = s in ('GetList',) or s.endswith('1D') or s.endswith('List')
            if one: ex = ex[-1:] if len(ex) < 2 or ex[0] == 1 else ex[:1]
            elif len(ex) == 1: ex = [1] + ex
            self.kind[nm] = 'flat' if one else 'rows'
            if len(args) > k + 2:
                for x in args[k + 2]:
                    for j, e in enumerate(ex): ai.store(mem, frozenset([padd(x, 8 * j)]), frozenset([self.ext(e)]), i)
            return frozenset([('file', nm)])
        if s == 'HasVariable':
            ns = self.names(ai, mem, args[k + 1])
            if len(ns) == 1 and None not in ns: return frozenset([('i', -1 if next(iter(ns)) in self.tables else 0)])
            return None
        if s in ('Close', 'Open', 'CreateStruct') or s.startswith('Write'): return frozenset([('res', i.id)])
        if s == 'Create': return frozenset([('call', i.callee, i.id)])
        return None

    def throws(self, i, dem, args, mem, ai):
        s = method(self.m, ai, i, self.filearg)
        if s and s.startswith('Get'):
            k = 1 if i.d.get('sret') else 0
            if len(args) <= k + 1: return None
            ns = self.names(ai, mem, args[k + 1])
            if len(ns) == 1 and None not in ns and next(iter(ns)) not in self.tables: return ({'SFileException'}, False)
        return None

    def run(self, fn, **kw):
        class A(AbsInt):
            h5rank = None; h5dims_out = []; strargs = self.strargs
        uh = kw.pop('hook', None)
        kw['hook'] = (lambda t: strmodel.load(uh(t))) if uh else strmodel.load

        def ch(i, dem, args, mem, ai):
            r = self.call(i, dem, args, mem, ai)
            if r is None: r = strmodel.hook(i, dem, args, mem, ai)
            return r if r is not None else h5.hook(i, dem, args, mem, ai)
        return A(fn, callhook=ch, throws=self.throws, cmp=self.cmp, eh='catch', **kw)


# ---------------------------------------------------------------- copies
def stores_into(ai, base):
    out = []
    for i in ai.reached_insts():
        if i.op != 'store': continue
        for d in ai.ev(i.ops[1]):
            p = ai.expand(d)
            if p.m.get(((base, 1),)) == 1: out.append((i, p - Poly.atom(base), ai.ev(i.ops[0])))
    return out


def rename(p, mp):
    r = Poly({})
    for k, v in p.m.items():
        q = Poly.const(v)
        for t, e in k:
            for _ in range(e): q = q * Poly.atom(mp.get(t, t))
        r = r + q
    return r


def unify(ai, q, src):
    """loops of q renamed so that it equals src (equal coefficients, equal trip counts); None if impossible"""
    co = lambda p, h: Poly({tuple(e for e in k if e[0] != h): v for k, v in p.m.items() if (h, 1) in k})
    mp = {}
    for h in sorted(loops.its(q)):
        c = [g for g in sorted(loops.its(src)) if co(src, g) == co(q, h) and loops.bounds(ai, g[1]) == loops.bounds(ai, h[1])]
        if len(c) != 1: return None
        mp[h] = c[0]
    if len(set(mp.values())) != len(mp): return None
    return mp if rename(q, mp) == src else None


def trace(ai, t, bases, depth=0):
    """where an element comes from: set of (base, row poly|None, offset poly) or None"""
    v, ops = strip_casts(t)
    if v[0] != 'ld' or depth > 3 or any(o not in ('fptrunc', 'fpext', 'sext', 'zext') for o in ops): return None
    r = ref(ai, v[1], bases)
    if r is not None: return [(r.base, r.row, r.off)]
    p = ai.expand(v[1])
    bs = [k[0][0] for k in p.m if len(k) == 1 and k[0][1] == 1 and p.m[k] == 1 and k[0][0][0] == 'new']
    if len(bs) != 1: return None
    src = p - Poly.atom(bs[0])
    out = []
    for i, q, vs in stores_into(ai, bs[0]):
        mp = unify(ai, q, src)
        if mp is None: continue
        for w in vs:
            x = trace(ai, w, bases, depth + 1)
            if x is None: return None
            out += [(b, None if r is None else rename(r, mp), rename(o, mp)) for b, r, o in x]
    return out or None


def returns(ai):
    return [r for r in ai.rets if ai.fn.insts[r].blk.id in ai.reached]
