"""A loader followed on a model file (finite instance): which variables the file has, their extents, and a symbol for every element.
Text is propagated as constants, so the name of every variable asked for is known; a read gives a fresh copy of the variable."""
import re
import alg
from alg import C, V, add, mul
from small import UNK, Small
from distinit import Init
from clone import table as vtable

S = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
STR = re.compile(r'^(?:[^(]* )?' + S + r'::(basic_string|~basic_string|operator\+=|operator=|operator\[\]|at|append|assign|insert|substr|length|size|empty|back|front|compare|c_str|data|push_back|find|rfind|starts_with|ends_with|reserve|clear|_M_dispose)(?:<std::allocator<char>>)?(?:\[abi:cxx11\])?\((.*)\)( const)?$')
FILE = ('t', 'sfile')
MF = ('t', 'mf')


class Stop(Exception): pass


class First(list):
    def append(self, x):
        list.append(self, x); raise Stop()


class Load(Init):
    """tables: name -> extents | text | number;  file: ('t', 'sfile')"""

    def __init__(self, m, fn, args, files, point, texts=None, data=None, static=False, **kw):
        self.files = files; self.data = data or {}
        self.off = max(fn.this, 0) - (1 if static else 0)
        self.texts = {('arg', k + self.off): t for k, t in (texts or {}).items()}
        self.asked = set()
        a = dict(args)
        for k in texts or {}: a[k] = ('arg', k + self.off)
        self.m = m; self.args = a; self.tables = {}; self.cells = kw.get('cells') or {}; self.vecs = kw.get('vecs') or {}
        self.bad = []; self.unk = First()
        try: Small.__init__(self, fn, point, 20000)
        except Stop: self.out, self.exc, self.bad, self.unk = [], [], [], list(self.unk)      # part of the path is not understood: no verdict

    def arg(self, k):
        k -= self.off
        return ('arg', self.off) if k == 0 else self.args.get(k)

    # -- text
    def text(self, mem, a):
        if a is None: return None
        c = mem.get(('vec', a))
        if c is not None: return c[1] if c[0] == 's' else None
        if a in self.texts: return self.texts[a]
        b, o = self.split_ptr(a)
        if b[0] == 'g':
            if 'basic_string' in (self.mod.globals.get(b[1], {}).get('dty') or ''): return self.static(b[1])
            return self.mod.cstr(b[1], o)
        if b[0] == 'lit': return b[1][o:]
        return None

    def static(self, g):
        """text a global string is constructed from"""
        if not hasattr(self.mod, '_statics'):
            t = self.mod._statics = {}
            for f in self.mod.find('global_var_init|_GLOBAL__sub_I'):
                for i in f.insts.values():
                    if i.is_call() and i.callee and len(i.ops) > 1 and not isinstance(i.ops[0], int) and i.ops[0].get('k') == 'g' and not isinstance(i.ops[1], int) and i.ops[1].get('k') == 'g' and '::basic_string' in self.mod.dem(i.callee):
                        t.setdefault(i.ops[0]['v'], self.mod.cstr(i.ops[1]['v'], i.ops[1].get('o', 0)))
        return self.mod._statics.get(g)

    def put(self, a, t): return {('vec', a): ('s', t) if t is not None else UNK}

    def one(self, st, v=None, up=None): return [(v, st, None, up)]

    def strings(self, st, I, dem, args, mem):
        k = 1 if I.d.get('sret') else 0
        T = lambda j: self.text(mem, args[j])
        def n(j):
            a = args[j]
            return None if a is None or a[0] != 'i' else a[1] if a[1] >= 0 else a[1] + 2 ** 64
        if re.match(r'(?:%s )?std::__cxx11::to_string(?:\[abi:cxx11\])?\(' % S, dem) and k:
            v = args[1]
            if v is None or v[0] not in 'ie' or v[0] == 'e': return self.one(st, None, self.put(args[0], None))
            x = v[1]
            if 'unsigned' in dem and x < 0: x += 2 ** (32 if 'long' not in dem else 64)
            return self.one(st, None, self.put(args[0], str(x)))
        g = re.match(r'(?:bool )?std::operator(==|!=)<char', dem)
        if g and len(args) == 2:
            a, b = T(0), T(1)
            if a is None or b is None: return self.one(st)
            return self.one(st, ('i', -1 if (a == b) == (g.group(1) == '==') else 0))
        if re.match(r'%s std::operator\+<char' % S, dem) and k and len(args) == 3:
            def piece(j):
                if args[j] is not None and args[j][0] == 'i': return chr(args[j][1] & 255)
                return T(j)
            a, b = piece(1), piece(2)
            return self.one(st, None, self.put(args[0], None if a is None or b is None else a + b))
        g = STR.match(dem)
        if not g: return None
        name, sig = g.group(1), g.group(2)
        if name in ('~basic_string', '_M_dispose', 'reserve'): return self.one(st)
        me = args[k]
        if me is None: return None
        if name == 'basic_string':
            if sig == '' or sig.startswith('std::allocator'): return self.one(st, None, self.put(me, ''))
            if re.match(r'(char const\*|%s (const&|&&)|%s&&)(, std::allocator<char> const&)?$' % (S, S), sig): return self.one(st, None, self.put(me, T(1)))
            return self.one(st, None, self.put(me, None))
        if name in ('operator+=', 'append', 'push_back', 'assign', 'operator='):
            v = None
            if len(args) == 2: v = T(1) if sig != 'char' else (None if n(1) is None else chr(n(1) & 255))
            old = '' if name in ('assign', 'operator=') else self.text(mem, me)
            return self.one(st, me, self.put(me, None if v is None or old is None else old + v))
        if name == 'clear': return self.one(st, None, self.put(me, ''))
        v = self.text(mem, me)
        if name == 'substr' and k:
            x, l = n(2), n(3)
            if v is None or x is None or l is None: return self.one(st, None, self.put(args[0], None))
            if x > len(v): return [(None, st, 'std::out_of_range', None)]
            return self.one(st, None, self.put(args[0], v[x:x + l]))
        if v is None: return self.one(st)
        if name in ('length', 'size'): return self.one(st, ('i', len(v)))
        if name == 'empty': return self.one(st, ('i', -1 if not v else 0))
        if name in ('c_str', 'data'): return self.one(st, ('lit', v))
        if name in ('back', 'front'): return self.one(st, ('t', 'chr', ord(v[-1 if name == 'back' else 0])) if v else None)
        if name in ('operator[]', 'at'):
            x = n(k + 1)
            if x is None or x > len(v): return self.one(st)
            return self.one(st, ('t', 'chr', ord(v[x]) if x < len(v) else 0))
        if name in ('starts_with', 'ends_with') and len(args) == 2:
            w = T(1)
            return self.one(st, None if w is None else ('i', -1 if (v.startswith(w) if name[0] == 's' else v.endswith(w)) else 0))
        if name in ('find', 'rfind') and len(args) >= 3:
            w = T(1) if sig[:4] != 'char' or sig.startswith('char const*') else (None if n(1) is None else chr(n(1) & 255)); x = n(2)
            if w is None or x is None: return self.one(st)
            return self.one(st, ('i', v.find(w, x) if name == 'find' else v.rfind(w, 0, min(len(v), x + len(w)))))
        if name == 'compare':
            if len(args) == 2: a, w = v, T(1)
            elif len(args) == 4 and None not in (n(1), n(2)):
                if n(1) > len(v): return [(None, st, 'std::out_of_range', None)]
                a, w = v[n(1):n(1) + n(2)], T(3)
            else: return self.one(st)
            return self.one(st, None if w is None else ('i', (a > w) - (a < w)))
        return self.one(st)

    # -- memory
    def initial(self, a, ty):
        b, o = self.split_ptr(a)
        if b[:2] == ('t', 'chr') and o == 0: return ('i', b[2])
        if b == FILE and o == 0: return ('t', 'vt', 'SFile')
        if b == MF and o == 0: return ('t', 'vt', 'MagneticField2D')
        if b[:2] == ('t', 'vt'): return ('vf', FILE if b[2] == 'SFile' else MF, (b[2], o))
        return Init.initial(self, a, ty)

    def virtual(self, st, I, obj, slot, args, mem):
        cls, o = slot
        d = vtable(self.m, cls).get(o // 8)
        if d is None: return None
        return self.method(st, I, d, args, mem)

    def opaque(self, st, I, dem, args, mem):
        if dem.startswith('SFile::Create('): return self.one(st, FILE)
        if re.match(r'(?:[\w:*& <>,\[\]]+ )?SFile(?:_\w+)?::', dem) and 'Exception' not in dem.split('(')[0]: return self.method(st, I, dem, args, mem)
        if re.match(r'(?:double )?MagneticField2D::Get', dem): return self.method(st, I, dem, args, mem)
        if 'Exception::' in dem.split('(')[0]: return self.one(st)
        r = self.strings(st, I, dem, args, mem)
        if r is not None: return r
        return Init.opaque(self, st, I, dem, args, mem)

    def element(self, nm, k):
        d = self.data.get(nm)
        if d is None: return ('e', V('%s#%d' % (nm, k)))
        return ('e', C(d)) if not isinstance(d, str) else None

    def method(self, st, I, dem, args, mem):
        g = re.search(r'(?:^|[ ])(SFile(?:_\w+)?|MagneticField2D)::(\w+)(?:\[abi:cxx11\])?\(', dem)
        if not g: return None
        s = g.group(2)
        if g.group(1) == 'MagneticField2D':
            if s in ('GetMagneticAxisR', 'GetMaxRadius', 'GetMagneticAxisZ', 'GetMinRadius'): return self.one(st, ('e', V(s)))
            return None
        k = 1 if I.d.get('sret') else 0
        if s in ('Close',): return self.one(st)
        if s == 'HasVariable':
            n = self.text(mem, args[k + 1])
            if n is None: self.unk.append('%s: name of a variable is not known' % I.loc()); return self.one(st)
            return self.one(st, ('i', -1 if n in self.files else 0))
        if not s.startswith('Get') or len(args) <= k + 1: return None
        n = self.text(mem, args[k + 1])
        if n is None: self.unk.append('%s: name of a variable is not known' % I.loc()); return self.one(st)
        self.asked.add(n)
        ex = self.files.get(n)
        if ex is None: return [(None, st, 'SFileException', None)]
        if s == 'GetString': return self.one(st, None, self.put(args[0], ex if isinstance(ex, str) else None))
        if isinstance(ex, str): return [(None, st, 'SFileException', None)]
        if s in ('GetScalar', 'GetInt', 'GetInt32', 'GetInt64', 'GetUInt32', 'GetUInt64'):
            e = self.element(n, 0)
            if s != 'GetScalar': e = ('i', int(e[1][1])) if e[1][0] == 'c' else None
            return self.one(st, e)
        h = ('h', I.id, st[0]); b = ('h', (I.id, 'data'), st[0]); st = (st[0] + 1,) + tuple(st[1:])
        N = 1
        for x in ex: N *= x
        if s in ('GetMultiArray_linear', 'GetMultiArray'):
            if args[k + 2] is None or args[k + 2][0] != 'i': return None
            up = {self.addr(args[k + 3], 0): ('i', len(ex))}
            if len(ex) > args[k + 2][1]: return self.one(st, ('i', 0), up)
            up.update({self.addr(args[k + 4], 8 * j): ('i', x) for j, x in enumerate(ex)})
            up.update({self.addr(b, 8 * j): self.element(n, j) for j in range(N)})
            return self.one(st, b, up)
        if s == 'GetDoubles1D' or s == 'GetList':
            if len(ex) > 2 or len(ex) == 2 and 1 not in ex: return [(None, st, 'SFileException', None)]
            up = {args[k + 2]: ('i', N)}
            up.update({self.addr(b, 8 * j): self.element(n, j) for j in range(N)})
            return self.one(st, b, up)
        if s == 'GetDoubles':
            e2 = (1,) + tuple(ex) if len(ex) == 1 else tuple(ex)
            if len(e2) != 2: return [(None, st, 'SFileException', None)]
            up = {self.addr(args[k + 2], 8 * j): ('i', x) for j, x in enumerate(e2)}
            up.update({self.addr(h, 8 * j): self.addr(b, 8 * j * e2[1]) for j in range(e2[0])})
            up.update({self.addr(b, 8 * j): self.element(n, j) for j in range(N)})
            return self.one(st, h, up)
        return None
