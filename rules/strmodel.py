"""Constant propagation of std::string values through the library's string operations (the parts the loaders use)."""
import re
import h5

S = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
TRUE, FALSE = frozenset([('i', -1)]), frozenset([('i', 0)])
MET = re.compile(r'std::__cxx11::basic_string<.*?>::(?:basic_string|[a-z_]+|operator(?:\+=|=|\[\]))(?:\[abi:cxx11\])?\(')


def val(ai, mem, ts):
    """the only literal value, or None"""
    vs = set()
    for t in ts:
        if t[0] == 'g':
            l = ai.mod.cstr(t[1], t[2]) if len(t) > 2 else None
            if l is None:
                w = mem.c.get(('strval', t))
                if not w: return None
                vs |= w
            else: vs.add(('lit', l))
        else: vs |= mem.c.get(('strval', t), ai.strargs.get(t, frozenset([('same', t)])) if hasattr(ai, 'strargs') else frozenset([('same', t)]))
    if len(vs) != 1: return None
    v = next(iter(vs))
    if v[0] == 'cat' and all(x[0] == 'lit' for x in v[1:]): return ''.join(x[1] for x in v[1:])
    return v[1] if v[0] == 'lit' else None


def put(mem, ts, s):
    for t in ts: mem.c[('strval', t)] = frozenset([('lit', s)])


def intval(ts):
    if len(ts) != 1: return None
    t = next(iter(ts))
    while t[0] == 'cast': t = t[2]
    return t[1] if t[0] == 'i' else None


def hook(i, dem, args, mem, ai):
    """None: not modelled; otherwise the value of the call.  ai.strbad collects calls that raise a standard exception"""
    U = frozenset([('undef',)])
    if re.match(r'(?:%s )?std::__cxx11::to_string(?:\[abi:cxx11\])?\(' % S, dem) and i.d.get('sret'):
        put(mem, args[0], '*'); return U
    g = re.match(r'(?:bool )?std::operator(==|!=)<char', dem)
    if g and len(args) == 2:
        a, b = val(ai, mem, args[0]), val(ai, mem, args[1])
        if a is None or b is None or '*' in a + b: return None
        return TRUE if (a == b) == (g.group(1) == '==') else FALSE
    g = re.match(r'%s std::operator\+<char' % S, dem)
    if g and i.d.get('sret') and len(args) == 3:
        a, b = val(ai, mem, args[1]), val(ai, mem, args[2])
        if a is None or b is None: return None
        put(mem, args[0], a + b); return U
    g = re.match(S + r'::(basic_string|operator\+=|operator=|operator\[\]|at|append|assign|substr|length|size|empty|back|front|compare|c_str|data|push_back|find|rfind|starts_with|ends_with)(?:\[abi:cxx11\])?\((.*)\)( const)?$', dem)
    if not g: return None
    n, sig = g.group(1), g.group(2)
    k = 1 if i.d.get('sret') else 0
    me = args[k]
    if n == 'basic_string' and sig == '': put(mem, me, ''); return U
    if n == 'basic_string' and (sig.startswith('char const*, std::allocator') or re.match(r'std::__cxx11::basic_string<[^()]*(const&|&&)$', sig)):
        v = val(ai, mem, args[1])
        if v is None: return None
        put(mem, me, v); return U
    if n in ('operator+=', 'append', 'push_back', 'assign', 'operator='):
        if len(args) != 2: return None
        v = val(ai, mem, args[1]) if sig != 'char' else (lambda c: None if c is None else chr(c & 255))(intval(args[1]))
        old = '' if n in ('assign', 'operator=') else val(ai, mem, me)
        if v is None or old is None:
            for t in me: mem.c[('strval', t)] = frozenset([('same', ('res', i.id))])
        else: put(mem, me, old + v)
        return me
    v = val(ai, mem, me)
    if v is None or '*' in v: return None
    if n in ('length', 'size'): return frozenset([('i', len(v))])
    if n == 'empty': return TRUE if not v else FALSE
    if n == 'back' and v: return frozenset([('chr', ord(v[-1]))])
    if n == 'front' and v: return frozenset([('chr', ord(v[0]))])
    if n in ('operator[]', 'at'):
        x = intval(args[k + 1])
        if x is not None and 0 <= x < len(v): return frozenset([('chr', ord(v[x]))])
        if x == len(v) and n != 'at': return frozenset([('chr', 0)])
        return None
    if n == 'substr':
        x, l = intval(args[2]), intval(args[3])
        if x is None or l is None: return None
        if x < 0: x += 2**64
        if l < 0: l += 2**64
        if x > len(v): return None
        put(mem, args[0], v[x:x + l]); return U
    if n in ('find', 'rfind') and len(args) >= 3:
        w = val(ai, mem, args[1]); x = intval(args[2])
        if w is None or x is None: return None
        if x < 0: x += 2**64
        r = v.find(w, x) if n == 'find' else v.rfind(w, 0, min(len(v), x + len(w)))
        return frozenset([('i', r)])
    if n == 'compare':
        if len(args) == 2: a, w = v, val(ai, mem, args[1])
        elif len(args) == 4:
            x, l = intval(args[1]), intval(args[2]); w = val(ai, mem, args[3])
            if x is None or l is None or x < 0 or x > len(v): return None
            a = v[x:] if l < 0 else v[x:x + l]
        else: return None
        if w is None: return None
        return frozenset([('i', (a > w) - (a < w))])
    return None


def throws(i, dem, args, mem, ai):
    """True when the call certainly raises a standard exception"""
    g = re.match(S + r'::(substr|at|compare)\(', dem)
    if not g: return False
    k = 1 if i.d.get('sret') else 0
    v = val(ai, mem, args[k])
    if v is None or '*' in v or (g.group(1) == 'compare' and len(args) != 4): return False
    x = intval(args[k + 1])
    if x is None: return False
    if x < 0: x += 2**64
    return x > len(v) or (g.group(1) == 'at' and x == len(v))


def load(t):
    return ('i', t[1][1]) if t[0] == 'ld' and t[1][0] == 'chr' else t
