"""Product dataflow (px) over a finite instance: extents and indices are constants, the contents of tables are symbols, so every
element access names its element, whatever loop or search computes the index.  Numbers are formulas over those symbols (alg);
a comparison of formulas is decided by the region the instance stands for (a representative point), any other is followed both
ways.  std::vector is modelled by its contents.

Subclass and override: initial(a, ty) -> value | None; opaque(st, inst, dem, args, mem) -> None | [(value, st, exception, updates)];
virtual(st, inst, obj, slot, args, mem) likewise; done(st, inst, value, mem); thrown(st, inst, T)."""
import re
from fractions import Fraction
import alg
from alg import C, V, E, add, sub, mul, div, neg, fn as fun
from px import PX, root, icmp

VEC = re.compile(r'(?:^|[ *&])std::vector<([^<>]*), std::allocator<[^<>]*>>::([^(<]+)')
ALGO = r'^(?:[^(]* )?std::(?:transform|copy|copy_n|fill|fill_n|for_each|accumulate|inner_product|swap|reverse|iota|swap_ranges|is_sorted|adjacent_find|copy_backward|partial_sum|generate|move|forward|__copy_move_a[12]?|__copy_move|__fill_a1?|__fill_n_a1?|__niter_base|__niter_wrap|__miter_base|__iterator_category|__reverse|__size_to_integer|iter_swap|abs|isnan|isinf|begin|end|max|min|clamp)<'.replace('(?:', '(')
ITER = re.compile(r'^(?:[^(]* )?__gnu_cxx::__normal_iterator<[^()]*>::(__normal_iterator|operator[-+*>=!<]+|base)(?:<|\()')
KEEPVEC = r'std::vector<[^<>]*, std::allocator<[^<>]*>>::'
MATH = re.compile(r'^(?:double |float )?(?:std::)?(log10|log2|log1p|log|expm1|exp2|exp|sqrt|cbrt|fabs|abs|sin|cos|tan|pow|hypot|atan2|acos|asin|atan|cosh|sinh|tanh|floor|ceil)f?(?:\(.*)?$')
INTR = re.compile(r'^llvm\.(log10|log2|log|exp2|exp|sqrt|fabs|sin|cos|pow|floor|ceil)\.f')
INF = {'inf': V(('const', 'inf')), '-inf': V(('const', '-inf')), 'nan': V(('const', 'nan'))}
UNK = ('?',)
TEXTS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>*'          # iterators over text


class State(tuple):
    """(allocations, events)"""
    __slots__ = ()


class Small(PX):
    fork_select = False

    def __init__(self, fn, point=None, cap=60000):
        self.point = point; self.out = []; self.exc = []
        if not hasattr(self, 'unk'): self.unk = []
        if not hasattr(self, 'bad'): self.bad = []
        PX.__init__(self, fn, self, cap)
        self.unk = list(dict.fromkeys(self.unk))
        if self.unk: self.out, self.exc, self.bad = [], [], []          # part of the path is not understood: no verdict

    # -- client side
    def init(self, px): return (0, ())

    def initial(self, a, ty): return None
    def opaque(self, st, I, dem, args, mem): return None
    def virtual(self, st, I, obj, slot, args, mem): return None
    def done(self, st, I, v, mem): self.out.append((st, I, v, dict(mem)))
    def thrown(self, st, I, T): self.exc.append((st, I, T))
    def ret(self, px, st, I, v, mem): self.done(st, I, v, mem)
    def escape(self, px, st, I, T): self.thrown(st, I, T)

    def event(self, st, *e): return (st[0], st[1] + (e,))

    # -- values
    def val(self, env, o):
        if isinstance(o, int):
            v = env.get(o)
            if v is None: v = self.const.get(o)
            return None if v == UNK else v
        k = o['k']
        if k == 'f':
            s = str(o['v']).lower()
            if s in INF: return ('e', INF[s])
            return ('e', C(Fraction(float(o['v']))))
        if k == 'fn': return ('fn', o['v'])
        if k == 'a': return self.arg(o['v'])
        if k == 'z': return None if False else ('i', 0)
        return PX.val(self, env, o)

    def arg(self, n): return ('arg', n)

    def num(self, v):
        if v is None: return None
        if v[0] == 'e': return v[1]
        if v[0] == 'i': return C(v[1])
        return None

    def value(self, e):
        if self.point is None: return None
        if e[0] == 'v' and isinstance(e[1], tuple) and e[1][0] == 'const': return {'inf': alg.mp.inf, '-inf': -alg.mp.inf}.get(e[1][1], alg.mp.nan)
        try: return alg.value(e, self.point)
        except Exception: return None

    def pure(self, I, env, st, exc):
        op = I.op; v = [self.val(env, o) for o in I.ops]
        if op == 'getelementptr':
            off = I.d.get('off')
            if off is None or not v or v[0] is None: return None
            for o, sc in I.d.get('var') or ():
                x = self.val(env, o)
                if x is None or x[0] != 'i': return None
                off += x[1] * sc
            return self.addr(v[0], off)
        if op == 'extractvalue' and v[0] and v[0][0] == 'agg':
            ix = I.d['ix']
            return v[0][1][ix[0]] if len(ix) == 1 and ix[0] < len(v[0][1]) else None
        if op in ('sub',) and v[0] and v[1] and v[0][0] not in 'ie' and v[1][0] not in 'ie':
            a, b = self.split_ptr(v[0]), self.split_ptr(v[1])
            return ('i', a[1] - b[1]) if a[0] == b[0] else None
        if op == 'add' and v[0] and v[1] and 'i' in (v[0][0], v[1][0]) and {v[0][0], v[1][0]} & {'p', 'h', 'a', 'arg', 't'}:
            a, b = (v[0], v[1]) if v[1][0] == 'i' else (v[1], v[0])
            return self.addr(a, b[1])
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr'):
            if not (v[0] and v[1] and v[0][0] == v[1][0] == 'i'): return None
            x, y = v[0][1], v[1][1]
            w = int(I.ty[1:])
            if op in ('udiv', 'urem', 'lshr'): x &= (1 << w) - 1; y &= (1 << w) - 1
            if op in ('ashr', 'lshr'): r = x >> y
            elif y == 0: return None
            elif op in ('sdiv', 'udiv'): r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            else: r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            return ('i', r)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.num(v[0]), self.num(v[1])
            if a is None or b is None: return None
            if op == 'fdiv' and b == alg.ZERO: return ('e', fun('div0', a))
            try: return ('e', {'fadd': add, 'fsub': sub, 'fmul': mul, 'fdiv': div}[op](a, b))
            except ZeroDivisionError: return ('e', fun('div0', a))
        if op == 'fneg':
            a = self.num(v[0])
            if a is None: return None
            if a is INF['inf']: return ('e', INF['-inf'])
            return ('e', neg(a))
        if op in ('sitofp', 'uitofp'):
            if v[0] and v[0][0] == 'i':
                n = v[0][1]
                if op == 'uitofp':
                    fw = int(I.d.get('fty', 'i64')[1:]); n &= (1 << fw) - 1
                return ('e', C(n))
            return None
        if op in ('fptosi', 'fptoui'):
            if v[0] and v[0][0] == 'e' and v[0][1][0] == 'c': return ('i', int(v[0][1][1]))
            return None
        if op in ('fpext', 'fptrunc'): return v[0]
        if op == 'fcmp':
            a, b = self.num(v[0]), self.num(v[1])
            p = I.d['p']
            if a is None or b is None: return None
            if p in ('ord', 'uno'):
                if a is INF['nan'] or b is INF['nan']: return ('i', -1 if p == 'uno' else 0)
                return ('i', -1 if p == 'ord' else 0)
            x, y = self.value(a), self.value(b)
            if x is None or y is None: return None
            q = p[1:]
            if x != x or y != y: return ('i', -1 if p[0] == 'u' else 0)
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q)
            return None if r is None else ('i', -1 if r else 0)
        if op in ('add', 'sub', 'mul', 'shl') and v[0] and v[1] and v[0][0] == v[1][0] == 'i':
            x, y = v[0][1], v[1][1]
            w = int(I.ty[1:]) if re.fullmatch(r'i\d+', I.ty) else 64
            n = {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << (y & 63)}[op] & ((1 << w) - 1)
            if w == 1: return ('i', -1 if n else 0)
            return ('i', n - (1 << w) if n >= 1 << (w - 1) else n)
        return PX.pure(self, I, env, st, exc)

    def split_ptr(self, v):
        return (v[1], v[2]) if v[0] == 'p' else (v, 0)

    # -- memory
    def read(self, mem, a, ty):
        if a in mem: return None if mem[a] == UNK else mem[a]
        b, o = self.split_ptr(a)
        if ('lost', root(b[1]) if b[0] == 'el' else root(b)) in mem: return None
        if b[0] == 'el':                     # elements of a vector
            c = mem.get(('vec', b[1]))
            if c is not None and o % 8 == 0 and 0 <= o // 8 < len(c[1]): return c[1][o // 8]
            return None
        if b[0] == 'g':
            g = self.mod.globals.get(b[1])
            if g and g['const']:
                from absint import AbsInt
                r = AbsInt.gload(_Glob(self), g, o, ty)
                if r is not None:
                    if r[0] == 'f': return ('e', C(Fraction(r[1])))
                    if r[0] == 'i': return r
                    if r[0] in ('fn', 'g'): return r
        return self.initial(a, ty)

    def write(self, mem, a, v):
        b, o = self.split_ptr(a)
        if b[0] == 'el':
            c = mem.get(('vec', b[1]))
            if c is not None and o % 8 == 0 and 0 <= o // 8 < len(c[1]):
                l = list(c[1]); l[o // 8] = v if v is not None else UNK; mem[('vec', b[1])] = ('vc', tuple(l))
            return
        mem[a] = v if v is not None else UNK

    def do_load(self, I, env, mem, st, exc):
        a = self.val(env, I.ops[0]); v = None
        if a is not None: v = self.read(mem, a, I.ty)
        e = dict(env)
        if v is None: e.pop(I.id, None)
        else: e[I.id] = v
        yield 'on', e, mem, st, exc

    def do_store(self, I, env, mem, st, exc):
        v, a = self.val(env, I.ops[0]), self.val(env, I.ops[1])
        m2 = dict(mem)
        if a is None: self.lost(I)
        else: self.write(m2, a, v)
        yield 'on', env, m2, st, exc

    def lost(self, I):
        """a store to an address that is not known"""
        self.unk.append('%s: store to an address that is not known' % I.loc())

    def do_icmp(self, I, env, mem, st, exc):
        a, b = [self.val(env, o) for o in I.ops]; p = I.d['p']
        if a is not None and b is not None and a[0] not in ('i', 'tid', 'e') and p in ('eq', 'ne', 'ult', 'ugt', 'ule', 'uge') and b[0] not in ('tid', 'e'):
            r = None
            if b[0] == 'i': r = (p in ('ne', 'ugt', 'uge')) if b[1] == 0 else None
            else:
                x, y = self.split_ptr(a), self.split_ptr(b)
                if x[0] == y[0]: r = icmp(p, x[1], y[1])
                elif p in ('eq', 'ne') and self.distinct(x[0], y[0]): r = p == 'ne'
            e = dict(env)
            if r is None: e.pop(I.id, None)
            else: e[I.id] = ('i', -1 if r else 0)
            yield 'on', e, mem, st, exc; return
        if a is not None and b is not None and a[0] == b[0] == 'i' and p[0] == 'u':
            ty = I.d.get('oty') or 'i64'
            e = dict(env); e[I.id] = ('i', -1 if icmp(p, a[1], b[1]) else 0)
            yield 'on', e, mem, st, exc; return
        yield from PX.do_icmp(self, I, env, mem, st, exc)

    def distinct(self, a, b): return a[0] in ('h', 'a', 'el', 't') and b[0] in ('h', 'a', 'el', 't')

    def do_br(self, I, env, mem, st, exc):
        if I.ops and (self.val(env, I.ops[0]) or ('?',))[0] != 'i' and not self.free(I): self.unk.append('%s: branch on a value that is not known' % I.loc())
        yield from PX.do_br(self, I, env, mem, st, exc)

    def free(self, I): return False

    def do_switch(self, I, env, mem, st, exc):
        if (self.val(env, I.ops[0]) or ('?',))[0] != 'i': self.unk.append('%s: switch on a value that is not known' % I.loc())
        yield from PX.do_switch(self, I, env, mem, st, exc)

    # -- calls
    def results(self, I, env, mem, st, exc):
        c = I.callee
        args = [self.val(env, o) for o in I.ops]
        if c is None:
            cv = I.d.get('cv')
            f = self.val(env, cv) if cv is not None else None
            if f is not None and f[0] == 'vf':
                r = self.virtual(st, I, f[1], f[2], args, mem)
                if r is not None: return [self.upd(mem, x) for x in r]
            return self.generic(I, '', args, mem, st)
        if c.startswith(('llvm.lifetime', '__cxa_', 'llvm.eh', 'llvm.dbg', 'llvm.assume')):
            if c == '__cxa_allocate_exception': return [(('h', 'exc', I.id), st, None, mem)]
            if c.startswith('__cxa_') and c not in ('__cxa_throw', '__cxa_rethrow'): return [(None, st, None, mem)]
            return PX.results(self, I, env, mem, st, exc)
        dem = self.mod.dem(c)
        r = self.opaque(st, I, dem, args, mem)
        if r is not None: return [self.upd(mem, x) for x in r]
        r = self.std(st, I, c, dem, args, mem)
        if r is not None: return [self.upd(mem, x) for x in r]
        return self.generic(I, dem, args, mem, st)

    def upd(self, mem, x):
        if len(x) > 3 and x[3]:
            mem = dict(mem)
            for k, v in x[3].items():
                if v is None: mem.pop(k, None)
                else: mem[k] = v
        return (x[0], x[1], x[2], mem)

    def generic(self, I, dem, args, mem, st):
        if I.d.get('nr') or (I.callee and self.mod.decls.get(I.callee, {}).get('nr')): return []
        if I.callee and (dem.startswith('operator delete') or I.callee in ('free', 'printf', 'fprintf')): return [(None, st, None, mem)]
        bases = {root(a) for a in args if a is not None and a[0] not in 'ie'}
        bases.discard(None)
        if bases:
            mem, bases = self.poison(mem, bases)
            self.havoc(I, dem, bases)
        return [(None, st, None, mem)]

    def poison(self, mem, bases):
        """contents of the given objects, and of what they point to, are no longer known"""
        def base(k): return root(k[1]) if k[0] in ('vec', 'el') else root(k)
        bases = {base(b) for b in bases}
        while True:
            more = set()
            for k, v in mem.items():
                if k[0] == 'lost' or base(k) not in bases: continue
                for x in (v[1] if v[0] == 'vc' else (v,)):
                    if x is not None and x[0] in ('p', 'h', 'a', 'arg', 't', 'el') and base(x) not in bases: more.add(base(x))
            if not more: break
            bases |= more
        mem = {k: v for k, v in mem.items() if k[0] == 'lost' or base(k) not in bases}
        for b in bases: mem[('lost', b)] = ('i', 1)
        return mem, bases

    def havoc(self, I, dem, bases):
        if any(b[0] in ('t', 'arg', 'el') or b[0] == 'h' and b[1] != 'exc' for b in bases): self.unk.append('%s: %s' % (I.loc(), dem.split('(')[0]))

    def std(self, st, I, c, dem, args, mem):
        if dem.startswith('operator new') or c in ('malloc', 'calloc'):
            return [(('h', I.id, st[0]), (st[0] + 1,) + tuple(st[1:]), None, None)]
        if c.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow')):
            if all(x is not None and x[0] == 'i' for x in args[:2]):
                n = args[0][1] * args[1][1] if 'umul' in c else args[0][1] + args[1][1]
                return [(('agg', (('i', n), ('i', 0))), st, None, None)]
            return [(None, st, None, None)]
        m = INTR.match(c) or MATH.match(dem)
        if m:
            a = [self.num(x) for x in args if x is not None and x[0] in 'ie']
            if len(a) == len(args) or (c.startswith('llvm.') and a):
                n = m.group(1)
                if n in ('fabs', 'abs'):
                    x = self.value(a[0])
                    if x is not None: return [(('e', a[0] if x >= 0 else neg(a[0])), st, None, None)]
                if n in ('log10', 'log2'): return [(('e', div(fun('log', a[0]), fun('log', C(10 if n == 'log10' else 2)))), st, None, None)]
                if n == 'hypot': return [(('e', alg.sqrt(add(alg.sq(a[0]), alg.sq(a[1])))), st, None, None)]
                if n == 'log1p': return [(('e', fun('log', add(C(1), a[0]))), st, None, None)]
                if n == 'expm1': return [(('e', sub(fun('exp', a[0]), C(1))), st, None, None)]
                return [(('e', fun({'abs': 'fabs'}.get(n, n), *a)), st, None, None)]
            return [(None, st, None, None)]
        if c.startswith('llvm.fmuladd'):
            a = [self.num(x) for x in args]
            if None in a: return [(None, st, None, None)]
            return [(('e', add(mul(a[0], a[1]), a[2])), st, None, None)]
        if c.startswith('llvm.is.fpclass') or c in ('isnan',) or re.match(r'^(bool )?std::isnan', dem):
            a = self.num(args[0])
            return [(None if a is None else ('i', -1 if a is INF['nan'] else 0), st, None, None)]
        mm = re.match(r'std::numeric_limits<double>::(infinity|quiet_NaN)\(\)', dem)
        if mm: return [(('e', INF['inf' if mm.group(1) == 'infinity' else 'nan']), st, None, None)]
        if c == 'nan': return [(('e', INF['nan']), st, None, None)]
        mm = re.match(r'^(?:\w[\w ]*) const& std::(max|min)<', dem)
        if mm and len(args) == 2 and None not in args:
            x, y = self.read(mem, args[0], 'double'), self.read(mem, args[1], 'double')
            if x and y and x[0] == y[0] == 'i': s = (x[1] < y[1])
            elif x and y and self.num(x) is not None and self.num(y) is not None:
                p, q = self.value(self.num(x)), self.value(self.num(y))
                if p is None or q is None: return None
                s = p < q
            else: return None
            return [(args[0] if s == (mm.group(1) == 'min') else args[1], st, None, None)]
        if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
            d, s, n = args[:3]
            if d is None or s is None or n is None or n[0] != 'i': return None
            up = {}
            for k in range(0, n[1], 8):
                v = self.read(mem, self.addr(s, k), 'double')
                up[self.addr(d, k)] = v if v is not None else UNK
            return [(d, st, None, up)]
        if c.startswith('llvm.memset') or c == 'memset':
            d, v, n = args[:3]
            if d is None or n is None or n[0] != 'i' or v != ('i', 0) or n[1] > 4096: return None
            return [(d, st, None, {self.addr(d, k): ('i', 0) for k in range(0, n[1], 4)})]
        for pre, which in (('llvm.umax', max), ('llvm.umin', min), ('llvm.smax', max), ('llvm.smin', min)):
            if c.startswith(pre):
                if all(x is not None and x[0] == 'i' for x in args[:2]): return [(('i', which(args[0][1], args[1][1])), st, None, None)]
                return [(None, st, None, None)]
        if re.match(r'^(?:[^(]* )?std::__cxx11::basic_string<[^()]*>::|^std::allocator<char>::', dem): return [(args[0] if 'operator=' in dem or 'append' in dem else None, st, None, None)]
        r = self.iterator(st, I, c, dem, args, mem)
        if r is not None: return r
        m = VEC.search(dem)
        if m and args and args[0] is not None: return self.vector(st, I, m.group(2).strip(), dem, args, mem)
        return None

    def iterator(self, st, I, c, dem, args, mem):
        k = ITER.search(dem)
        name = None
        if k: name = k.group(1)
        else:
            k = re.search(r'(?:^|[ >])(?:__gnu_cxx|std)::(operator[-!=<>+]+|upper_bound|lower_bound|distance|next|prev|find)<', dem)
            if k and ('normal_iterator' in dem or '*' in dem): name = k.group(1)
        if name is None or None in args or not args: return None
        W = 32 if TEXTS in dem else 8
        def ptr(a): return self.read(mem, a, 'ptr')
        def one(v): return [(v, st, None, None)]
        if name == '__normal_iterator':
            if len(args) == 1: return one(None)
            v = ptr(args[1])
            return [(None, st, None, {args[0]: v if v is not None else UNK})]
        if name in ('upper_bound', 'lower_bound', 'find'):
            (b, o), (b2, o2) = self.split_ptr(args[0]), self.split_ptr(args[1])
            x = self.num(self.read(mem, args[2], 'double'))
            if b != b2 or x is None: return None
            x = self.value(x)
            while o < o2:
                y = self.num(self.read(mem, self.addr(b, o), 'double'))
                y = self.value(y) if y is not None else None
                if x is None or y is None: return None
                if name == 'upper_bound' and x < y or name == 'lower_bound' and not y < x or name == 'find' and x == y: break
                o += 8
            return one(self.addr(b, o) if o else b)
        if name in ('operator+', 'operator-', 'operator+=', 'operator-=', 'next', 'prev') and len(args) == 2 and args[1][0] == 'i':
            v = ptr(args[0]) if name.startswith('op') else args[0]
            if v is None: return None
            r = self.addr(v, W * args[1][1] * (-1 if '-' in name or name == 'prev' else 1))
            if name.endswith('='): return [(args[0], st, None, {args[0]: r})]
            return one(r)
        if name in ('operator++', 'operator--'):
            v = ptr(args[0])
            if v is None: return None
            r = self.addr(v, W if name == 'operator++' else -W)
            return [(args[0] if len(args) == 1 else v, st, None, {args[0]: r})]
        if name in ('operator*', 'base', 'operator->') and len(args) == 1:
            v = ptr(args[0])
            return one(args[0] if name == 'base' else v)
        if name in ('operator-', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'distance') and len(args) == 2:
            a, b = (ptr(args[0]), ptr(args[1])) if name.startswith('op') else args
            if a is None or b is None: return None
            (x, o), (y, o2) = self.split_ptr(a), self.split_ptr(b)
            if x != y: return None
            if name == 'operator-': return one(('i', (o - o2) // W))
            if name == 'distance': return one(('i', (o2 - o) // W))
            return one(('i', -1 if icmp({'==': 'eq', '!=': 'ne', '<': 'slt', '>': 'sgt', '<=': 'sle', '>=': 'sge'}[name[8:]], o, o2) else 0))
        return None

    def vector(self, st, I, name, dem, args, mem):
        A = args[0]; key = ('vec', A); base = ('el', A)
        if name == 'vector':
            if len(args) == 1 or len(args) == 2 and 'vector(std::allocator' in dem: return [(None, st, None, {key: ('vc', ())})]
            if len(args) == 2 and args[1] is not None and '&)' in dem:
                o = mem.get(('vec', args[1])) or (self.contents(args[1]) if ('lost', root(args[1])) not in mem else None)
                if o is not None: return [(None, st, None, {key: o})]
            if len(args) in (3, 4) and args[1] is not None and args[1][0] != 'i' and args[2] is not None:
                l = self.between(mem, args[1], args[2])
                if l is not None: return [(None, st, None, {key: ('vc', l)})]
            if len(args) in (3, 4) and args[1] is not None and args[1][0] == 'i' and 0 <= args[1][1] < 200:
                v = self.read(mem, args[2], 'double') if len(args) == 4 and args[2] is not None else ('i', 0)
                return [(None, st, None, {key: ('vc', (v if v is not None else UNK,) * args[1][1])})]
            return None
        if name == 'assign' and len(args) == 3 and args[1] is not None and args[2] is not None:
            if args[1][0] != 'i':
                l = self.between(mem, args[1], args[2])
                return [(None, st, None, {key: ('vc', l)})] if l is not None else None
            v = self.read(mem, args[2], 'double')
            return [(None, st, None, {key: ('vc', (v if v is not None else UNK,) * args[1][1])})] if 0 <= args[1][1] < 200 else None
        if name.startswith('~'): return [(None, st, None, None)]
        cell = mem.get(key)
        if cell is None:
            cell = self.contents(A) if ('lost', root(A)) not in mem else None
            if cell is None: return None
        c = cell[1]; n = len(c)
        def ret(v=None, new=None): return [(v, st, None, {key: ('vc', tuple(new))} if new is not None else ({key: cell} if key not in mem else None))]
        def ref(a):
            v = self.read(mem, a, 'double') if a is not None else None
            return v if v is not None else UNK
        if name == 'size': return ret(('i', n))
        if name == 'empty': return ret(('i', -1 if n == 0 else 0))
        if name in ('begin', 'cbegin', 'data', 'front'): return ret(base)
        if name in ('end', 'cend'): return ret(self.addr(base, 8 * n))
        if name == 'back': return ret(self.addr(base, 8 * (n - 1)))
        if name in ('operator[]', 'at'):
            if args[1] is None or args[1][0] != 'i': return None
            k = args[1][1]
            if not 0 <= k < n:
                if name == 'at': return [(None, st, 'std::out_of_range', None)]
                self.outside(I, k, n)
            return ret(self.addr(base, 8 * k))
        if name in ('push_back', 'emplace_back'): return ret(self.addr(base, 8 * n), c + (ref(args[1]),))
        if name == 'pop_back': return ret(None, c[:-1])
        if name == 'clear': return ret(None, ())
        if name in ('reserve', 'shrink_to_fit', 'capacity', '_M_check_len'): return ret(None)
        if name in ('insert', 'emplace') and len(args) == 3 and args[1] is not None:
            b, o = self.split_ptr(args[1])
            if b == base and o % 8 == 0 and 0 <= o // 8 <= n: return ret(args[1], c[:o // 8] + (ref(args[2]),) + c[o // 8:])
            if b == base: self.outside(I, o // 8, n); return ret(args[1])
            return None
        if name == 'resize' and args[1] is not None and args[1][0] == 'i':
            k = args[1][1]
            return ret(None, (c + (('i', 0),) * k)[:k])
        if name == 'operator=' and args[1] is not None:
            o = mem.get(('vec', args[1])) or (self.contents(args[1]) if ('lost', root(args[1])) not in mem else None)
            if o is not None: return ret(A, o[1])
        return None

    def between(self, mem, a, b):
        (x, o), (y, o2) = self.split_ptr(a), self.split_ptr(b)
        if x != y or not 0 <= o2 - o < 1600: return None
        l = [self.read(mem, self.addr(x, k), 'double') for k in range(o, o2, 8)]
        return tuple(v if v is not None else UNK for v in l)

    def contents(self, A): return None

    def outside(self, I, k, n): self.exc.append((None, I, 'element %d of a vector of %d' % (k, n)))


class _Glob:
    def __init__(self, px): self.px = px

    def opv(self, o):
        k = o['k']
        if k == 'i': return [('i', o['v'])]
        if k == 'f': return [('f', float(o['v']))]
        if k in ('fn',): return [('fn', o['v'])]
        if k == 'g': return [('g', o['v'], o.get('o', 0))]
        return [('i', 0)]
