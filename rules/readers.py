"""Readers of numeric arrays on finite instances: extents are constants, every element of the stored variable is a symbol that records
the conversions applied to it, so where each element of the result comes from is known whatever loops copy it."""
import re
from px import Limit
from small import Small, UNK

CASTS = ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'bitcast')


class Rd(Small):
    """typed: {reader: (kind, rank)}; dims: extents; dtype: what GetDataType reports; args: {n: value}"""

    def __init__(self, m, fn, typed, dims, dtype=None, multi=None, args=None, cap=200000):
        self.m = m; self.typed = typed; self.dims = dims; self.dtype = dtype; self.used = []; self.args = args or {}; self.multi = multi; self.sizes = {}
        self.unk = []
        f = lambda n: m.field_off('SFile_SDT::matrix', n)
        self.sdt = {n: f(n) for n in ('nrows', 'ncols', 'value')}
        self.mapoff = m.field_off('SFile_SDT', 'matrices')
        try: Small.__init__(self, fn, None, cap)
        except Limit: self.unk = ['too many states']; self.out, self.exc = [], []

    def arg(self, n): return self.args.get(n, ('arg', n))

    def pure(self, I, env, st, exc):
        if I.op in CASTS:
            v = self.val(env, I.ops[0])
            if v is not None and v[0] == 'x': return v if I.op == 'bitcast' else ('x', v[1], v[2] + (I.op + ':' + I.ty,))
        return Small.pure(self, I, env, st, exc)

    def initial(self, a, ty):
        b, o = self.split_ptr(a)
        if b[:1] == ('t',) and len(b) == 3:
            kind, esz = b[1], b[2]
            if kind == 'rows' and o % 8 == 0 and 0 <= o // 8 < self.dims[0]: return self.addr(('t', 'data', esz), o // 8 * self.dims[1] * esz)
            if kind == 'data':
                n = 1
                for d in self.dims: n *= d
                if o % esz == 0 and 0 <= o // esz < n: return ('x', o // esz, ())
                self.unk.append('element outside')
            if kind == 'node':
                for f, v in (('nrows', ('i', self.dims[0])), ('ncols', ('i', self.dims[1])), ('value', ('t', 'rows', 8))):
                    if self.sdt[f] is not None and o == 32 + self.sdt[f]: return v
        return None

    def opaque(self, st, I, dem, args, mem):
        name = dem.split('(')[0]; sh = name.split('::')[-1]
        if sh == 'GetDataType' and self.dtype is not None: return [(('i', self.dtype), st, None, None)]
        if sh == 'HasVariable': return [(('i', 1), st, None, None)]
        if 'SFile' in name and sh in self.typed and I.callee:
            k, nd = self.typed[sh]; self.used.append((I, sh, k, nd)); d = args[-1]; e = k[1] // 8
            if d is None: return None
            if nd == 2: return [(('t', 'rows', e), st, None, {d: ('i', self.dims[0]), self.addr(d, 8): ('i', self.dims[1])})]
            return [(('t', 'data', e), st, None, {d: ('i', self.dims[0] * self.dims[1])})]
        if sh == 'GetMultiArray_linear' and self.multi and I.callee:
            nd, dd = args[-2:]
            if nd is None or dd is None: return None
            up = {nd: ('i', len(self.dims))}
            for k, x in enumerate(self.dims): up[self.addr(dd, 8 * k)] = ('i', x)
            return [(('t', 'data', 8), st, None, up)]
        if re.match(r'(bool )?std::type_info::operator(==|!=)', dem) and None not in args[:2]: return [(('i', -1 if (args[0] == args[1]) == ('==' in name) else 0), st, None, None)]
        if sh == 'getSimpleExtentNdims': return [(('i', len(self.dims)), st, None, None)]
        if sh == 'getSimpleExtentDims' and args[1] is not None: return [(('i', len(self.dims)), st, None, {self.addr(args[1], 8 * k): ('i', x) for k, x in enumerate(self.dims)})]
        if sh == 'read' and 'H5::DataSet' in dem and args[1] is not None and self.multi:
            n = 1
            for d in self.dims: n *= d
            return [(None, self.event(st, 'read', args[1], I.loc()), None, {self.addr(args[1], 8 * k): ('x', k, ()) for k in range(n)})]
        if 'H5::' in dem: return [(None, st, None, None)]
        if re.search(r'Exception::', dem): return [(None, st, None, None)]
        g = re.search(r'std::(map|unordered_map)<.*>::(find|end|cend|at|count)\(', dem)
        if g and 'matrix' in dem:
            if g.group(2) == 'count': return [(('i', 1), st, None, None)]
            return [(self.addr(('t', 'node', 0), 32) if g.group(2) == 'at' else ('t', 'node', 0) if g.group(2) == 'find' else ('t', 'end', 0), st, None, None)]
        if 'iterator<' in dem:
            r = re.search(r'operator(==|!=)\(', dem)
            if r and len(args) == 2 and None not in args:
                x, y = self.read(mem, args[0], 'ptr'), self.read(mem, args[1], 'ptr')
                if x is not None and y is not None: return [(('i', -1 if (x == y) == (r.group(1) == '==') else 0), st, None, None)]
            if re.search(r'::operator(->|\*)\(', dem) and args[0] is not None: return [(self.read(mem, args[0], 'ptr'), st, None, None)]
            if re.search(r'_iterator<.*>::_Rb_tree_(const_)?iterator\(', dem) and len(args) == 2 and None not in args:
                v = self.read(mem, args[1], 'ptr')
                return [(None, st, None, {args[0]: v if v is not None else UNK})]
        if dem.startswith('operator new') and args[0] is not None and args[0][0] == 'i':
            h = ('h', I.id, st[0]); self.sizes[h] = (args[0][1], 'new[]' if '[]' in name else 'new')
            return [(h, (st[0] + 1,) + tuple(st[1:]), None, None)]
        if dem.startswith('operator delete'):
            return [(None, self.event(st, 'free', args[0]), None, None)]
        return None


def elements(r, mem, v, rank, rows, cols, esz):
    """list of (position, value) of the array returned: 2-D through its row table; None when it is not known"""
    out = []
    if v is None: return None
    for i in range(rows if rank == 2 else 1):
        p = r.read(mem, r.addr(v, 8 * i), 'ptr') if rank == 2 else v
        if p is None: return None
        for j in range(cols): out.append(r.read(mem, r.addr(p, j * esz), 'i%d' % (8 * esz)))
    return out
