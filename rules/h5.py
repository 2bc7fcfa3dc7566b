"""Shared model of the HDF5 C++ API for the abstract interpreter."""
import re
from absint import AbsInt, base_off, padd, fmt

PT = re.compile(r'H5::PredType::(\w+)$')

KIND = {}
for w in (8, 16, 32, 64):
    KIND['STD_I%dLE' % w] = ('i', w, 'LE'); KIND['STD_U%dLE' % w] = ('u', w, 'LE')
    KIND['STD_I%dBE' % w] = ('i', w, 'BE'); KIND['STD_U%dBE' % w] = ('u', w, 'BE')
    KIND['NATIVE_INT%d' % w] = ('i', w, 'LE'); KIND['NATIVE_UINT%d' % w] = ('u', w, 'LE')
    KIND['INTEL_I%d' % w] = ('i', w, 'LE'); KIND['INTEL_U%d' % w] = ('u', w, 'LE')
KIND.update({'IEEE_F64LE': ('f', 64, 'LE'), 'IEEE_F64BE': ('f', 64, 'BE'), 'IEEE_F32LE': ('f', 32, 'LE'), 'IEEE_F32BE': ('f', 32, 'BE'),
             'INTEL_F64': ('f', 64, 'LE'), 'INTEL_F32': ('f', 32, 'LE'),
             'NATIVE_DOUBLE': ('f', 64, 'LE'), 'NATIVE_FLOAT': ('f', 32, 'LE'), 'NATIVE_LDOUBLE': ('f', 80, 'LE'),
             'NATIVE_INT': ('i', 32, 'LE'), 'NATIVE_UINT': ('u', 32, 'LE'), 'NATIVE_LONG': ('i', 64, 'LE'), 'NATIVE_ULONG': ('u', 64, 'LE'),
             'NATIVE_LLONG': ('i', 64, 'LE'), 'NATIVE_ULLONG': ('u', 64, 'LE'), 'NATIVE_SHORT': ('i', 16, 'LE'), 'NATIVE_USHORT': ('u', 16, 'LE'),
             'NATIVE_CHAR': ('i', 8, 'LE'), 'NATIVE_SCHAR': ('i', 8, 'LE'), 'NATIVE_UCHAR': ('u', 8, 'LE'),
             'NATIVE_HSIZE': ('u', 64, 'LE'), 'C_S1': ('s', 8, ''), 'FORTRAN_S1': ('s', 8, '')})

CT = {'double': ('f', 64), 'float': ('f', 32), 'int': ('i', 32), 'unsigned int': ('u', 32), 'long': ('i', 64), 'unsigned long': ('u', 64),
      'long long': ('i', 64), 'unsigned long long': ('u', 64), 'short': ('i', 16), 'unsigned short': ('u', 16), 'char': ('i', 8),
      'long int': ('i', 64), 'long unsigned int': ('u', 64), 'short unsigned int': ('u', 16), 'unsigned char': ('u', 8),
      'long long int': ('i', 64), 'long long unsigned int': ('u', 64), 'short int': ('i', 16), 'signed char': ('i', 8)}


def ctype(s):
    """C element kind of a (pointer) type string"""
    b = re.sub(r'\bconst\b|\*|&', ' ', s)
    b = ' '.join(b.split())
    return CT.get(b)


def pred_name(mod, gname):
    m = PT.search(mod.dem_g(gname))
    return m.group(1) if m else None


def demg(mod, g):
    o = mod.globals.get(g)
    return o['dem'] if o else g


def preds_of(mod, mem, terms):
    """set of HDF5 predefined-type names an argument (DataType const&) can be; None in it = unknown"""
    out = set()
    for t in terms:
        if t[0] == 'ld' and t[1][0] == 'g':
            m = PT.search(demg(mod, t[1][1]))
            out.add(m.group(1) if m else None)
            continue
        v = mem.c.get(('meta', t))
        if v is None: out.add(None)
        else:
            for x in v: out.add(x[1] if x[0] == 'pred' else None)
    return out


def cat(x, y):
    p = (x[1:] if x[0] == 'cat' else (x,)) + (y[1:] if y[0] == 'cat' else (y,))
    out = []
    for q in p:
        if out and out[-1][0] == 'lit' and q[0] == 'lit': out[-1] = ('lit', out[-1][1] + q[1])
        else: out.append(q)
    return ('cat',) + tuple(out)


def hook(inst, dem, args, mem, ai):
    """call model: type objects carry their predefined type; DataSpace carries rank and extents"""
    if not dem: return None
    if re.match(r'std::__cxx11::basic_string<.*>::basic_string(<.*>)?\(char const\*', dem):
        vals = set()
        for t in args[1]:
            lit = ai.mod.cstr(t[1], t[2]) if t[0] == 'g' else None
            vals.add(('lit', lit) if lit is not None else ('cptr', t))
        for t in args[0]: mem.c[('strval', t)] = frozenset(vals)
        return frozenset([('undef',)])
    if re.match(r'std::__cxx11::basic_string<.*>::basic_string\(std::__cxx11::basic_string<[^()]*(const&|&&)\)$', dem):
        vals = set()
        for t in args[1]: vals |= mem.c.get(('strval', t), frozenset([('same', t)]))
        for t in args[0]: mem.c[('strval', t)] = frozenset(vals)
        return frozenset([('undef',)])
    if re.match(r'std::__cxx11::basic_string<.*> std::operator\+<char', dem) and inst.d.get('sret') and len(args) == 3:
        def sv(ts):
            out = set()
            for t in ts:
                if t[0] == 'g':
                    lit = ai.mod.cstr(t[1], t[2]); out.add(('lit', lit) if lit is not None else ('same', t))
                else: out |= mem.c.get(('strval', t), frozenset([('same', t)]))
            return out
        vals = frozenset(cat(x, y) for x in sv(args[1]) for y in sv(args[2]))
        if len(vals) <= 6:
            for t in args[0]: mem.c[('strval', t)] = vals
            return frozenset([('undef',)])
    m = re.match(r'H5::(?:PredType|DataType|AtomType|IntType|FloatType)::(?:PredType|DataType|AtomType|IntType|FloatType)\(H5::(?:PredType|DataType|AtomType|IntType|FloatType) const&\)', dem)
    if m:
        ps = preds_of(ai.mod, mem, args[1])
        for t in args[0]:
            mem.c[('meta', t)] = frozenset(('pred', p) if p else ('unk',) for p in ps)
        return frozenset([('undef',)])
    if re.match(r'H5::DataSpace::DataSpace\(int, unsigned long long const\*', dem):
        for t in args[0]:
            mem.c[('meta', t)] = frozenset([('space', inst.id)])
        return frozenset([('undef',)])
    if re.match(r'H5::DataSpace::DataSpace\(H5S_class_t\)', dem):
        for t in args[0]:
            mem.c[('meta', t)] = frozenset([('scalar',)])
        return frozenset([('undef',)])
    if re.match(r'H5::DataSpace::getSimpleExtentDims\(', dem) and ai.h5rank is not None:
        for t in args[1]:
            for k in range(ai.h5rank):
                ai.store(mem, frozenset([padd(t, 8 * k)]), frozenset([('sym', 'dim%d' % k)]), inst)
        ai.h5dims_out.append((inst, args[1]))
        return frozenset([('i', ai.h5rank)])
    if re.match(r'H5::DataSpace::getSimpleExtentNdims\(', dem) and ai.h5rank is not None:
        return frozenset([('i', ai.h5rank)])
    if re.search(r'::getDataType\(\) const$', dem) and inst.d.get('sret'):
        for t in args[0]:
            mem.c[('meta', t)] = frozenset([('stored', inst.id)])
        return frozenset([('undef',)])
    return None


def run(fn, extra=None, rank=None, **kw):
    def ch(inst, dem, args, mem, ai):
        if extra:
            r = extra(inst, dem, args, mem, ai)
            if r is not None: return r
        return hook(inst, dem, args, mem, ai)
    class A(AbsInt):
        h5rank = rank
        h5dims_out = []
    A.h5dims_out = []
    return A(fn, callhook=ch, eh='catch', **kw)


def h5calls(ai, pat):
    r = re.compile(pat)
    for i in ai.reached_insts():
        if i.is_call() and i.callee:
            d = ai.mod.dem(i.callee)
            if r.match(d): yield i, d


def elem_kinds(ai, fn, terms, depth=0):
    """C element kinds of a data pointer: parameter (or its first row), fresh array, local"""
    out = set()
    for t in terms:
        b, off, var = base_off(t)
        if b[0] == 'ld':
            # *(param) : row table
            bb, o2, v2 = base_off(b[1])
            if bb[0] == 'arg':
                out.add(arg_kind(fn, bb[1])); continue
        if b[0] == 'arg': out.add(arg_kind(fn, b[1])); continue
        if b[0] == 'alloca':
            at = fn.insts[b[1]].d['at']
            out.add({'double': ('f', 64), 'float': ('f', 32), 'i32': ('?', 32), 'i64': ('?', 64), 'i16': ('?', 16), 'i8': ('?', 8)}.get(at)); continue
        if b[0] == 'new':
            out.add(('new', b[1])); continue
        out.add(None)
    return out


def arg_kind(fn, k):
    """kind of IR argument k via the debug-info signature (return type first, then this, params)"""
    j = k - fn.this          # 0 = this for methods
    sig = fn.sig             # [ret, this?, p...]
    if j + 1 < len(sig): return ctype(sig[j + 1])
    return None


def ret_kind(fn):
    return ctype(fn.sig[0]) if fn.sig else None


def fits(file_kind, ck):
    """can every value of C kind ck be represented in the file type?"""
    k, w = file_kind[0], file_kind[1]
    if ck[0] == 'f': return k == 'f' and w >= ck[1]
    if ck[0] == 'i': return k == 'i' and w >= ck[1]
    if ck[0] == 'u': return (k == 'u' and w >= ck[1]) or (k == 'i' and w > ck[1])
    return True


def strvals(ai, mem, terms):
    """text values a char const* / std::string const& argument can have: ('lit',text) / ('same',term)"""
    out = set()
    for t in terms:
        if t[0] == 'g':
            lit = ai.mod.cstr(t[1], t[2])
            out.add(('lit', lit) if lit is not None else ('same', t))
        else: out |= mem.c.get(('strval', t), frozenset([('same', t)]))
    return out
