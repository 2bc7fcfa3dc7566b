"""Small, across calls: a call to a function of the library that the view does not inline (recursion, virtual methods of objects of
known class, destructors) is followed into its own view with the caller's memory.  Text is a constant or a symbol (loader);
std::vector<std::string> is modelled by its contents ('vs', texts).  Objects are cells: pass `mem' to start from given ones."""
import re
from px import root
from small import UNK, Small
from loader import Load, First, Stop, S

VS = re.compile(r'(?:^|[ *&])std::vector<' + S + r', std::allocator<' + S + r'>>::([^(<]+)')
PURE = re.compile(r'llvm\.(experimental\.noalias|lifetime|dbg|assume|trap)')


class Deep(Load):
    MAXDEPTH = 12

    def __init__(self, m, fn, argv, mem, st=(0, ()), depth=0, point=None, cap=20000):
        self.m = m; self.argv = argv; self.mem0 = mem; self.st0 = st; self.depth = depth
        self.frame = depth
        self.files = {}; self.data = {}; self.texts = {}; self.asked = set(); self.args = {}; self.tables = {}; self.cells = {}; self.vecs = {}
        self.off = 0
        self.bad = []; self.unk = First(); self.excs = []
        if depth:
            try: Small.__init__(self, fn, point, cap)
            except Stop as e: raise Stop(*(list(self.unk) or e.args))
            return
        try: Small.__init__(self, fn, point, cap)
        except Stop as e: self.out, self.exc, self.excs, self.bad, self.unk = [], [], [], [], list(self.unk) or list(e.args) or ['not understood']

    def init(self, px): return self.st0
    def arg(self, k): return self.argv[k] if k < len(self.argv) else None

    # -- exceptions with their memory
    def do_resume(self, I, env, mem, st, exc):
        self.excs.append((st, I, exc, dict(mem))); return ()

    def do_call(self, I, env, mem, st, exc):
        for v, q, T, m2 in self.results(I, env, mem, st, exc):
            if T is not None: self.excs.append((q, I, T, dict(m2))); continue
            e = dict(env)
            if v is None: e.pop(I.id, None)
            else: e[I.id] = v
            yield 'on', e, m2, q, exc

    def escape(self, px, st, I, T): self.unk.append('%s: exception leaves a call' % I.loc())

    def do_invoke(self, I, env, mem, st, exc):
        for v, q, T, m2 in self.results(I, env, mem, st, exc):
            e = dict(env)
            if v is None: e.pop(I.id, None)
            else: e[I.id] = v
            if T is None: yield 'go', I.d['nd'], e, m2, q, exc; continue
            lp = self.fn.blocks[I.d['ud']].lp
            if lp is not None and (lp.d.get('cleanup') or self.selector(lp, T) is not None): yield 'go', I.d['ud'], e, m2, q, T
            else: self.excs.append((q, I, T, dict(m2)))

    # -- calls
    def results(self, I, env, mem, st, exc):
        c = I.callee
        if c and PURE.match(c) and not c.startswith('llvm.lifetime'): return [(None, st, None, mem)]
        if c is None:
            cv = I.d.get('cv')
            f = self.val(env, cv) if cv is not None else None
            if f is not None and f[0] == 'fn':
                r = self.enter_call(f[1], [self.val(env, o) for o in I.ops], mem, st, I)
                if r is not None: return r
        elif self.follows(c):
            r = self.enter_call(c, [self.val(env, o) for o in I.ops], mem, st, I)
            if r is not None: return r
        return Small.results(self, I, env, mem, st, exc)

    def follows(self, c):
        return (c, '') in self.m._raw and not re.match(r'(?:[^(]* )?(std|__gnu_cxx)::', self.m.dem(c)) and 'Exception::' not in self.m.dem(c).split('(')[0]

    def enter_call(self, c, args, mem, st, I):
        if (c, '') not in self.m._raw: return None
        if self.depth >= self.MAXDEPTH: self.unk.append('%s: calls nested too deep' % I.loc()); return None
        n = type(self)(self.m, self.m.get((c, '')), args, mem, st, self.depth + 1, self.point)
        self.bad += [b for b in n.bad if b not in self.bad]
        def clean(mm):
            def dead(a):
                a = root(a[1]) if a[0] in ('vec', 'el', 'lost') and isinstance(a[1], tuple) else root(a)
                while a is not None and a[0] in ('el', 'vec'): a = root(a[1])
                return a is not None and a[0] == 'a' and isinstance(a[1], tuple) and a[1][0] > self.depth
            return {k: v for k, v in mm.items() if not dead(k)}
        return [(v, s2, None, clean(mm)) for s2, _, v, mm in n.out] + [(None, s2, T, clean(mm)) for s2, _, T, mm in n.excs]

    def opaque(self, st, I, dem, args, mem):
        if dem.startswith('operator delete'):
            if args[0] is None: self.unk.append('%s: pointer released is not known' % I.loc()); return self.one(st)
            return self.one(self.event(st, 'free', args[0], I.loc()) if args[0] != ('i', 0) else st)
        g = re.match(r'std::numeric_limits<(unsigned )?(char|short|int|long|long long)>::(max|min)\(', dem)
        if g:
            b = {'char': 8, 'short': 16, 'int': 32}.get(g.group(2), 64)
            return self.one(st, ('i', {('max', False): 2 ** (b - 1) - 1, ('min', False): -2 ** (b - 1), ('max', True): 2 ** b - 1, ('min', True): 0}[g.group(3), bool(g.group(1))]))
        g = re.match(r'std::type_info::operator(==|!=)\(', dem)
        if g and None not in args[:2]: return self.one(st, ('i', -1 if (args[0] == args[1]) == (g.group(1) == '==') else 0))
        if I.callee == '__dynamic_cast' and args[0] is not None:
            v = self.read(mem, args[0], 'ptr'); b = self.split_ptr(v)[0] if v is not None else None
            if b is not None and b[0] == 'g' and b[1].startswith('_ZTV') and args[2] is not None and args[2][0] == 'g':
                if args[2][1][4:] == b[1][4:]: return self.one(st, args[0])
                if args[2][1][4:] == '13SettingScript' or args[2][1][4:] == '12SettingSFile': return self.one(st, ('i', 0))
        r = self.textvec(st, I, dem, args, mem)
        if r is not None: return r
        if 'Exception::' in dem.split('(')[0]: return self.one(st)
        r = self.strings(st, I, dem, args, mem)
        if r is not None: return r
        return None

    def initial(self, a, ty):
        b, o = self.split_ptr(a)
        if b[:2] == ('t', 'chr') and o == 0: return ('i', b[2])
        if b[0] == 'g':
            g = re.match(r'_ZTV\d+(\w+)$', b[1])
            s = self.m.vts.get(g.group(1)) if g else None
            if s and o == 8: return ('g', '_ZTI' + b[1][4:])
            if s and o % 8 == 0 and 0 <= o // 8 - 2 < len(s) and isinstance(s[o // 8 - 2], str): return ('fn', s[o // 8 - 2])
        return None

    def contents(self, A): return None

    # -- vectors of text
    def text(self, mem, a):
        if a is not None:
            b, o = self.split_ptr(a)
            if b[0] == 'el':
                c = mem.get(('vec', b[1]))
                if c is not None and c[0] == 'vs': return c[1][o // 32] if o % 32 == 0 and 0 <= o // 32 < len(c[1]) else None
        return Load.text(self, mem, a)

    def textvec(self, st, I, dem, args, mem):
        g = VS.search(dem)
        if not g: return None
        k = 1 if I.d.get('sret') else 0
        name = g.group(1).strip(); A = args[k] if len(args) > k else None
        if A is None: return None
        key = ('vec', A); base = ('el', A)
        def ret(v=None, new=None): return [(v, st, None, {key: ('vs', tuple(new))} if new is not None else None)]
        def other(a):
            c = mem.get(('vec', a)) if a is not None else None
            return c[1] if c is not None and c[0] == 'vs' else None
        if name == 'vector':
            if len(args) == 1 or 'vector(std::allocator' in dem: return ret(None, ())
            if len(args) in (2, 3):
                o = other(args[1])
                if o is not None: return ret(None, o)
                if args[1] is not None and args[1][0] == 'i' and 0 <= args[1][1] <= 64 and '::vector(unsigned long' in dem: return ret(None, ('',) * args[1][1])
            self.unk.append('%s: list of text is not known' % I.loc()); return ret()
        if name == '~vector': return [(None, st, None, {key: None})]
        c = other(A)
        if c is None: self.unk.append('%s: list of text is not known' % I.loc()); return ret()
        n = len(c)
        if name in ('size',): return ret(('i', n))
        if name == 'empty': return ret(('i', -1 if n == 0 else 0))
        if name in ('begin', 'cbegin', 'front', 'data'): return ret(base)
        if name in ('end', 'cend'): return ret(self.addr(base, 32 * n))
        if name == 'back': return ret(self.addr(base, 32 * (n - 1)))
        if name in ('reserve', 'shrink_to_fit', 'capacity'): return ret(None)
        if name == 'clear': return ret(None, ())
        if name == 'pop_back': return ret(None, c[:-1])
        if name in ('operator[]', 'at'):
            x = args[1]
            if x is None or x[0] != 'i': return None
            if not 0 <= x[1] < n:
                if name == 'at': return [(None, st, 'std::out_of_range', None)]
                self.unk.append('%s: element %d of a list of %d' % (I.loc(), x[1], n))
            return ret(self.addr(base, 32 * x[1]))
        if name in ('push_back', 'emplace_back'):
            t = self.text(mem, args[1])
            if t is None: self.unk.append('%s: text is not known' % I.loc()); return ret()
            return ret(self.addr(base, 32 * n), c + (t,))
        if name == 'operator=':
            o = other(args[1])
            if o is not None: return ret(A, o)
        if name == 'insert' and len(args) == 4 and args[1] is not None:
            b, o = self.split_ptr(args[1]); l = self.texts_between(mem, args[2], args[3])
            if b == base and l is not None: return ret(args[1], c[:o // 32] + l + c[o // 32:])
        self.unk.append('%s: %s of a list of text' % (I.loc(), name))
        return ret()

    def texts_between(self, mem, a, b):
        if a is None or b is None: return None
        (x, o), (y, o2) = self.split_ptr(a), self.split_ptr(b)
        if x != y: return None
        l = [self.text(mem, self.addr(x, k)) for k in range(o, o2, 32)]
        return None if None in l else tuple(l)
