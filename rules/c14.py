"""C14: a clone carries every piece of state that evaluation of the original depends on."""
import itertools, re
from fractions import Fraction
from absint import AbsInt, Poly, base_off, fmt, mkptr, padd
from alg import Opaque, V, conv, equal
import clone, cloneinst, loops

SETTER = re.compile(r'^(Initialize\w*|Load\w*|Set\w*|Flip\w*|Toggle\w*|Allow\w*|Enable\w*|Use\w*|Insert\w*)$')


def norm(t):
    """loads without the bookkeeping of intermediate writes"""
    if not isinstance(t, tuple): return t
    if t and t[0] == 'ld': return ('ld', norm(t[1]))
    if t and t[0] == 'cast':
        # booleans stored as bytes and read back
        x = norm(t[2])
        if len(t) < 5: return t[:2] + (x,)
        if t[1] == 'zext' and t[3] == 'i1':
            if x[0] == 'cast' and x[1] == 'trunc': return x[2]
            return x
        if t[1] == 'trunc' and t[4] == 'i1':
            if x[0] == 'cast' and x[1] == 'zext' and x[3] == 'i1': return x[2]
            if x[0] in ('i', 'arg'): return x
        return t[:2] + (x,) + tuple(t[3:])
    return tuple(norm(x) for x in t)


def subst(t, f):
    """replace loads from members by what f(offset) says"""
    if not isinstance(t, tuple): return t
    if t and t[0] == 'ld':
        r = f(t[1])
        if r is not None: return r
    if t and t[0] in ('ptr', 'idx'):
        b, o, v = base_off(t)
        nb = subst(b, f); nv = tuple((subst(x, f), s) for x, s in v)
        if nb != b or nv != v:
            c = o; vs = []
            for x, s in nv:
                if x[0] == 'i': c += x[1] * s
                else: vs.append((x, s))
            return padd(nb, c, tuple(vs))
        return t
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    return n


def run(ctx):
    ctx.rule('for every class with a clone method, every member whose value an evaluation routine uses has in the clone the value it has in the original: the member itself, a full copy of the array it points to, a clone of the object it points to, or the value that every initialiser and setter of the class derives from the same data')
    ctx.rule('an object whose class inherits its clone method is evaluated by the same routines as the class the clone is made of')
    m = clone.module(ctx)
    n = 0
    done = set()
    for k, f in clone.classes(m):
        made = created(ctx, m, k, f)
        if made is None: ctx.undecided(k + '.clone', 'class of the clone not found', f); continue
        if made != k:
            same(ctx, m, k, made, f); n += 1
            continue
        n += 1
        One(ctx, m, k, f).check()
    ctx.rule('on finite instances (one to three radii in either order, every combination of flags) the clone of a tabulated distribution has the radii, limits, flags and, radius by radius, the tables of the original')
    cloneinst.run(ctx)
    ctx.need('classes with a clone method', n, 6)


def created(ctx, m, k, f):
    ai = clone.Run(m, f, k)
    out = set()
    for r in ai.rets:
        if f.insts[r].blk.id not in ai.reached: continue
        for t in ai.rets[r]:
            out.add(ai.static_class(t, ai.mem_at(f.insts[r])))
    return next(iter(out)) if len(out) == 1 else None


def same(ctx, m, k, made, f):
    key = '%s.evaluated-as.%s' % (k, made)
    a, b = m.vts.get(k) or [], m.vts.get(made) or []
    diff = []
    for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str) and x != y:
            nm = m.dem(x).split('(')[0].split('::')[-1]
            if clone.EVALS.match(nm): diff.append((m.dem(x), m.dem(y)))
    if diff: ctx.bad(key, f.loc(), 'the clone of a %s is a %s, which is evaluated by %s instead of %s' % (k, made, diff[0][1], diff[0][0]), f)
    else: ctx.ok(key, f)


def ccmp(pred, a, b, val):
    """val(term) -> sign or None"""
    x, y = val(a), val(b)
    if x is None or y is None or (x != 0 and y != 0): return None
    d = x - y
    q = pred[1:] if pred[0] in 'ous' and pred not in ('ord', 'uno') else pred
    return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}.get(q)


def sgn(t, look):
    if t[0] in ('i', 'f'): return 0 if t[1] == 0 else None
    if t[0] == 'null': return 0
    return look(t)


class One:
    def __init__(self, ctx, m, k, f):
        self.ctx, self.m, self.k, self.f = ctx, m, k, f
        self.reads = clone.reads(m, k)
        self.fields = {}
        for n, o, t, sz, ow in m.fields(k): self.flat(n, o, t, sz)
        self.writers = self.find_writers(); self._wc = {}; self.sub = {}; self.gsl = self.tables()

    def flat(self, n, o, t, sz):
        mt = re.match(r'(double|float|int|unsigned int|bool)\[(\d+)\]$', t)
        if mt:
            e = sz // int(mt.group(2))
            for q in range(int(mt.group(2))): self.fields[o + q * e] = ('%s[%d]' % (n, q), mt.group(1), e)
        elif t in self.m.classes and not t.startswith('std::'):
            for nn, oo, tt, ss, ow in self.m.fields(t): self.flat(n + '.' + nn, o + oo, tt, ss)
        else: self.fields[o] = (n, t, sz)

    # ---- the original: what its initialisers and setters store
    def find_writers(self):
        out = []
        m = self.m
        for c in [self.k] + m.allbases(self.k):
            for d, cc, sc, key, fl in m.index:
                if cc != c: continue
                o = m._raw[key]; s = o['short']
                if key[1] and key[1] != '@' + self.k: continue
                if s in clone.CLONES or clone.EVALS.match(s) or s.startswith('~') or 'operator' in s or re.match(r'(Destroy|Free|Clear|Reset|Delete)', s): continue
                if c != self.k and s == c: continue                    # constructors of bases run inside those of the class
                g = m.get(key)
                if c == self.k and s == self.k and len(g.args) == g.this + 2 and self.k in (g.sig[2] if len(g.sig) > 2 else ''): continue   # copy constructor
                out.append(g)
        names = {}
        for g in out:
            kk = (g.short, g.dem.split('(', 1)[1])
            if kk not in names or g.suf: names[kk] = g
        return list(names.values())

    def state(self, g, cmp=None, args=None):
        """member offset -> terms on return of a writer; only members it stores to"""
        kw = {'arg_terms': {i: args.get(i, ('arg', i)) for i in range(len(g.args))}} if args else {}
        ai = clone.Run(self.m, g, self.k, cmp=cmp, **kw)
        written = set(); st = {}
        for r in ai.rets:
            if g.insts[r].blk.id not in ai.reached: continue
            mem = ai.mem_at(g.insts[r])
            for a in mem.c:
                b, o, v = base_off(a)
                if b == ('arg', g.this) and not v and o in self.fields: written.add(o)
        for o in written:
            vs = set()
            for r in ai.rets:
                if g.insts[r].blk.id not in ai.reached: continue
                vs |= ai.load(ai.mem_at(g.insts[r]), mkptr(('arg', g.this), o), '')
            st[o] = {norm(t) for t in vs}
        return ai, st

    # ---- cases on the members the clone method tests
    def atoms(self):
        """member -> kind of test against zero; ('eq', a, b): two pointer members compared"""
        ai = clone.Run(self.m, self.f, self.k)
        out = {}

        def mem(x):
            x = norm(x)
            if x[0] == 'ld':
                b, o, v = base_off(x[1])
                if b == ('arg', self.f.this) and not v and o in self.fields: return o
            return None

        def see(t):
            if t[0] != 'cmp': return
            x, y = mem(t[2]), mem(t[3])
            if x is not None and y is not None:
                if self.fields[x][1].endswith('*'): out[('eq', min(x, y), max(x, y))] = 'e'
                return
            for o, z in ((x, t[3]), (y, t[2])):
                if o is not None and z[0] in ('i', 'null', 'f') and (z[0] == 'null' or z[1] == 0):
                    out[o] = 'f' if z[0] == 'f' else 'p' if z[0] == 'null' else 'i'
        for i in ai.reached_insts():
            if i.op in ('icmp', 'fcmp', 'select', 'br'):
                for o in i.ops:
                    for t in ai.val(o): see(t)
                for t in ai.env.get(i.id, ()): see(t)
        return out

    def cases(self):
        """two families: combinations of the tests against zero, and of the comparisons between members"""
        at = self.at = self.atoms()
        zs = sorted(k for k in at if at[k] in 'if')[:4]
        ps = sorted(k for k in at if at[k] == 'p')
        es = sorted(k for k in at if at[k] == 'e')[:4]

        def fam(ks): return [dict(zip(ks, c)) for c in itertools.product(*[((1, -1) if at[k] == 'f' else (0, 1)) for k in ks])]
        # pointers tested by the same clone method are split one at a time, those the method itself allocates for first
        out = [fam(zs + [p]) for p in ps] or [fam(zs)]
        if es: out.append(fam(es))
        return out

    def check(self):
        ctx, m, f = self.ctx, self.m, self.f
        fams = []
        for fam in self.cases():
            res = {}
            for case in fam: self.one_case(case, res)
            fams.append(res)
        for o in sorted(fams[0]):
            n = self.fields[o][0] if o in self.fields else '+%d' % o
            key = '%s.%s' % (self.k, n)
            rs = [r.get(o, []) for r in fams]
            vs = rs[0]
            bad = [v for r in rs for v in r if v[0] == 'no']
            und = None
            for r in rs:
                u = [v for v in r if v[0] == '?']
                if not u: und = None; break
                und = und or u
            use = self.used(o)
            if bad: ctx.bad(key, f.loc(), '%s: %s, which %s uses, %s' % (f.dem, n, use, bad[0][1]), f)
            elif und: ctx.undecided(key, und[0][1], f)
            else: ctx.ok(key, f, vs[0][1])

    def used(self, o, direct=False):
        n, t, sz = self.fields[o]
        if not direct and o in self.gsl: return self.gsl[o].dem.split('(')[0]
        for q, g in self.reads.items():
            if o <= q < o + max(sz, 1): return g.dem.split('(')[0]
        return None

    def relevant(self, o):
        return self.used(o) is not None

    # ---- interpolation objects: made from members when the object is initialised
    def recipe(self, ai, me, held):
        """member holding an interpolation object -> [members it was made from, per argument]; held: term -> members"""
        def mem(t):
            t = norm(t)
            while t[0] == 'cast': t = t[2]
            if t in held: return frozenset(held[t])
            if t[0] == 'ld':
                b, o, v = base_off(t[1])
                if b == me and not v and o in self.fields: return frozenset([o])
            return None
        out = {}
        for inst, args in ai.inits:
            if any(len(a) != 1 for a in args[1:]) or not args[0]: continue
            ms = [mem(next(iter(a))) for a in args]
            if any(mem(t) != ms[0] for t in args[0]): continue
            if ms[0] is None: continue
            for o in ms[0]: out.setdefault(o, []).append(ms[1:])
        return out

    def held(self, st):
        h = {}
        for o, ts in st.items():
            for t in ts:
                if t[0] not in ('i', 'f', 'null', 'ld') or t[0] == 'ld' and len(ts) == 1: h.setdefault(t, set()).add(o)
        return h

    def selects(self, g, i):
        """the outcome of the test picks between allocations of interpolation objects"""
        succ = set(i.blk.succs)
        if i.op == 'icmp' and (not i.blk.insts or i.blk.insts[-1].op != 'br' or i.id not in i.blk.insts[-1].ops): return False
        return any(j.is_call() and re.match(r'gsl_(interp|spline)\w*_alloc$', j.callee or '') and 'accel' not in j.callee for b in succ for j in g.blocks[b].insts)

    def tables(self):
        """members an interpolation object used by evaluation depends on -> function that makes it"""
        out = {}
        self.rec = {}
        for g in self.writers:
            ai, st = self.wstate(g)
            if not ai.inits: continue
            me = ('arg', g.this); held = self.held(st)
            for o, rs in self.recipe(ai, me, held).items():
                if not self.used(o, direct=True): continue
                for r in rs:
                    for p in r:
                        for q in p or (): out.setdefault(q, g)
                self.rec.setdefault(o, []).append((g, rs))
            for i in ai.reached_insts():
                if i.op in ('switch', 'icmp') and self.selects(g, i):
                    for op in i.ops[:1] if i.op == 'switch' else i.ops:
                        for t in ai.val(op):
                            t = norm(t)
                            if t[0] == 'arg' and t in held:
                                for o in held[t]:
                                    if not self.fields[o][1].endswith('*') and 'int' in self.fields[o][1]: out.setdefault(o, g)
                            if t[0] == 'ld':
                                b, o, v = base_off(t[1])
                                if b == me and not v and o in self.fields and not self.fields[o][1].endswith('*') and g.short.startswith('Init'): out.setdefault(o, g)
        return out

    def setup(self, case):
        m, f = self.m, self.f
        me = ('arg', f.this)

        def mem(x):
            x = norm(x)
            if x[0] == 'ld':
                b, o, v = base_off(x[1])
                if b == me and not v: return o
            return None

        def mine(p, a, b):
            x, y = mem(a), mem(b)
            if x is not None and y is not None:
                e = case.get(('eq', min(x, y), max(x, y)))
                if e is not None and p in ('eq', 'ne'): return (p == 'eq') == bool(e)
                return None
            return ccmp(p, a, b, lambda t: sgn(t, lambda t: case.get(mem(t))))
        ai = clone.Run(m, f, self.k, cmp=mine)
        rets = [f.insts[r] for r in ai.rets if f.insts[r].blk.id in ai.reached]
        objs = {t for r in rets for t in ai.rets[r.id]}
        if len(objs) != 1: return (None, rets, None, None)
        self.ai, self.obj = ai, next(iter(objs))
        return ai, self.obj, rets, self.arrays(ai)

    def one_case(self, case, res):
        ai, obj, rets, arrays = self.setup(case)
        if ai is None:
            if obj:
                for o in self.fields:
                    if self.relevant(o): res.setdefault(o, []).append(('?', 'several objects returned'))
            return
        val = {}; raw = {}
        for o in self.fields:
            vs = set()
            for r in rets: vs |= ai.load(ai.mem_at(r), padd(obj, o), '')
            raw[o] = {norm(t) for t in vs}
            val[o] = {self.resolve(norm(t), arrays) for t in vs}
        self.val = val; self.raw = raw
        ws = [g for g in self.writers if any(o in self.wstate(g)[1] for o in self.fields if self.relevant(o))]
        for o, (n, t, sz) in self.fields.items():
            if not self.relevant(o): continue
            try: v = self.member(o, n, t, case, val, ws, arrays)
            except Opaque as x: v = ('?', str(x))
            if v[0] != 'no' and any(x[0] == 'gslnew' for x in val[o]):
                w = self.made(o, case, val, ws)
                if w: v = w
            res.setdefault(o, []).append(v)

    def wstate(self, g):
        if not hasattr(self, '_ws'): self._ws = {}
        if g not in self._ws: self._ws[g] = self.state(g)
        return self._ws[g]

    def wcase(self, g, case):
        """the writer's result in the given case; None when it never leaves the object in that case"""
        ai0, st0 = self.wstate(g)
        zs = {o: c for o, c in case.items() if not isinstance(o, tuple)}
        al = {}
        for o, c in zs.items():
            vs = st0.get(o)
            if vs is None: al[('ld', mkptr(('arg', g.this), o))] = c; continue
            if c == 0 and all(t[0] in ('new', 'gslnew', 'clone') or t[0] in ('i', 'f') and t[1] != 0 for t in vs): return None
            if c != 0 and all(t[0] == 'null' or t[0] in ('i', 'f') and t[1] == 0 for t in vs): return None
            if len(vs) == 1: al[next(iter(vs))] = c
            for t in vs:
                if t[0] == 'arg': al[t] = c
        for k, e in case.items():
            if isinstance(k, tuple):
                # a pointer handed in by the caller may be any pointer; its companions are then the caller's choice
                for o in k[1:]:
                    if o in st0 and any(t[0] == 'arg' for t in st0[o]) and not all(x in st0 for x in k[1:]): return None
        if not al: return ai0, st0
        kk = (g, frozenset(al.items()))
        if kk not in self._wc:
            self._wc[kk] = self.state(g, cmp=lambda p, a, b: ccmp(p, a, b, lambda t: sgn(t, lambda x: al.get(norm(x)))))
        return self._wc[kk]

    def substates(self, g):
        """results of a writer for each choice among the integer arguments it tests"""
        if g in self.sub: return self.sub[g]
        ai0, st0 = self.wstate(g)
        cs = {}
        for i in ai0.reached_insts():
            if i.op == 'icmp':
                x, y = [ai0.val(o) for o in i.ops[:2]]
                for p, q in ((x, y), (y, x)):
                    if len(p) == len(q) == 1:
                        a, c = norm(next(iter(p))), next(iter(q))
                        if a[0] == 'arg' and c[0] == 'i': cs.setdefault(a[1], set()).add(c[1])
            elif i.op == 'switch':
                for a in ai0.val(i.ops[0]):
                    if a[0] == 'arg':
                        for c in i.ops[1:]:
                            for t in ai0.val(c) if not isinstance(c, (list, dict, str)) else ():
                                if t[0] == 'i': cs.setdefault(a[1], set()).add(t[1])
        vals = {a: sorted(c) + [max(c) + 1] for a, c in cs.items() if len(c) <= 4}
        out = []
        if vals and len(vals) <= 3:
            ks = sorted(vals)
            for combo in itertools.product(*[vals[k] for k in ks]):
                out.append(self.state(g, args={k: ('i', v) for k, v in zip(ks, combo)}))
        self.sub[g] = out
        return out

    def kinds(self, ai, ts):
        """kinds of interpolation the objects are allocated with"""
        out = set()
        for t in ts:
            if t[0] != 'gslnew': continue
            i = ai.fn.insts.get(t[1])
            if i is None or not i.is_call() or not i.ops: return None
            for k in ai.val(i.ops[0]):
                b = base_off(k[1])[0] if k[0] == 'ld' else None
                if b is None or b[0] != 'g': return None
                out.add(b[1])
        return out

    def strict(self, g, case, o, get):
        """what the writer leaves over all its choices consistent with the case; None when not determined"""
        out = set(); n = 0
        for ai, st in self.substates(g):
            fits = True
            for p, c in case.items():
                if isinstance(p, tuple): return None
                ts = st.get(p)
                if not ts: return None
                if all(t[0] in ('new', 'gslnew') for t in ts): fits = fits and c != 0; continue
                if len(ts) > 1 or next(iter(ts))[0] not in ('i', 'f'): return None
                v = next(iter(ts))[1]
                if (v != 0 if c == 0 else v == 0 if self.at.get(p) != 'f' else (v > 0) - (v < 0) != c): fits = False
            if not fits: continue
            n += 1
            r = get(ai, st)
            if r is None or len(r) != 1: return None
            out |= r
        return out if n else None

    # ---- arrays the clone allocates
    def arrays(self, ai):
        """fresh array -> ('copy', source pointer, count poly, store inst) | ('clones', source table) | ('?', why) | ('raw',)"""
        out = {}
        bases = {t for i in ai.reached_insts() if i.is_call() for t in ai.env.get(i.id, ()) if t[0] == 'new' and t[2] in ('new[]', 'malloc', 'calloc')}
        for b in bases:
            fills = clone.copied(ai, b)
            size = self.alloc(ai, b)
            if not fills: out[b] = ('raw', size); continue
            if len(fills) != 1 or fills[0] is None: out[b] = ('?', 'filled in a way that is not understood'); continue
            x = fills[0]
            if x[0] == 'mem':
                _, src, ln, o, v, inst = x
                if len(src) == 1 and len(ln) == 1 and not o and not v:
                    out[b] = ('copy', norm(next(iter(src))), ai.expand(next(iter(ln))) * Poly.const(Fraction(1, 8)), size, inst)
                else: out[b] = ('?', 'filled in a way that is not understood')
                continue
            vals, n, rest, it, inst = x
            if len(vals) != 1 or loops.isc(rest) != 0: out[b] = ('?', 'first element %s' % (rest,)); continue
            t = norm(next(iter(vals)))
            if t[0] == 'clone':
                src = ai.clones.get(t[1], frozenset())
                src = {norm(s) for s in src}
                if len(src) != 1: out[b] = ('?', 'clones of several objects'); continue
                kind, t = 'clones', next(iter(src))
            else: kind = 'copy'
            if t[0] != 'ld': out[b] = ('?', 'filled with %s' % fmt(t)); continue
            bb, oo, vv = base_off(t[1])
            q = ai.expand(t[1])
            r = q - Poly.atom(norm(bb)) if norm(bb) in [k[0][0] for k in q.m if len(k) == 1] else q - Poly.atom(bb)
            if r != Poly({((it, 1),): Fraction(8)}):
                out[b] = ('no', 'is filled with elements [%s] of the original\'s array' % r); continue
            out[b] = (kind, norm(bb), n, size, inst)
        return out

    def alloc(self, ai, b):
        i = ai.fn.insts.get(b[1])
        if i is None or not i.is_call(): return None
        s = ai.val(i.ops[0])
        return ai.expand(next(iter(s))) if len(s) == 1 else None

    def resolve(self, t, arrays):
        """reading an element of a copied array reads the source"""
        def f(addr):
            b, o, v = base_off(addr)
            a = arrays.get(b)
            if a and a[0] == 'copy': return ('ld', padd(subst(a[1], f), o, v))
            return None
        return norm(subst(t, f))

    # ---- how interpolation objects are made
    def made(self, o, case, val, ws):
        ai, f = self.ai, self.f
        mine = self.kinds(ai, val[o])
        if mine and len(mine) == 1:
            for g in ws:
                aig, st = self.wstate(g)
                if o not in st or not (g.short == self.k or SETTER.match(g.short)): continue
                zs = {p: c for p, c in case.items() if p in st}
                x = self.strict(g, zs, o, lambda a, s: self.kinds(a, s.get(o, ())))
                if x and not x <= mine:
                    return ('no', 'is always made with %s in the clone, while %s can make it with %s' % (min(mine), g.dem.split('(')[0], min(x - mine)))
        if o in self.rec:
            held = {}
            for p, ts in self.raw.items():
                for t in ts:
                    if t[0] not in ('i', 'f', 'null'): held.setdefault(t, set()).add(p)
            mine = self.recipe(ai, self.obj, held).get(o)
            if mine:
                for r in mine:
                    for g, rs in self.rec[o]:
                        for q in rs:
                            for n, (x, y) in enumerate(zip(r, q)):
                                if x is not None and y is not None and not x & y and not self.alike(x, y, val):
                                    return ('no', 'is made from %s in the clone, while %s makes it from %s' % (self.fields[min(x)][0], g.dem.split('(')[0], self.fields[min(y)][0]))
        return None

    def alike(self, x, y, val):
        return any(val[a] == val[b] for a in x for b in y)

    # ---- one member
    def member(self, o, n, t, case, val, ws, arrays):
        me = ('arg', self.f.this)
        V_ = val[o]; own = ('ld', mkptr(me, o))
        if V_ == {own}: return ('yes', 'the same')
        alias = {own}
        for k, e in case.items():
            if isinstance(k, tuple) and e and o in k[1:]: alias |= {('ld', mkptr(me, x)) for x in k[1:]}
        if V_ <= alias: return ('yes', 'the same')
        ai, obj = self.ai, self.obj
        if t.startswith('std::vector'): return self.vector(o, n)
        if 'basic_string' in t or t == 'std::string': return ('yes', 'text')
        if len(V_) == 1:
            v = next(iter(V_))
            if v[0] == 'new' and v in arrays:
                a = arrays[v]
                if a[0] == 'no': return ('no', a[1])
                if a[0] == '?': return ('?', a[1])
                if a[0] in ('copy', 'clones'):
                    _, src, cnt, size, inst = a
                    if size is not None and size != cnt * Poly.const(Fraction(8)):
                        d = size - cnt * Poly.const(Fraction(8))
                        if loops.isc(d) is not None: return ('no', 'is only partly copied (%s of %s bytes)' % (loops.pf(cnt * Poly.const(Fraction(8))), loops.pf(size)))
                        k8 = cnt * Poly.const(Fraction(8))
                        if len(k8.m) == 1 and len(size.m) == 1:
                            (ka, ca), (kb, cb) = next(iter(k8.m.items())), next(iter(size.m.items()))
                            if ca == cb and set(ka) < set(kb): return ('no', 'is only partly copied (%s of %s bytes)' % (loops.pf(k8), loops.pf(size)))
                        return ('?', 'copies %s elements into %s bytes' % (loops.pf(cnt), loops.pf(size)))
                    if src in alias: return self.extent(o, n, cnt)
                    return self.derived(o, n, {src}, case, ws, 'is a copy of %s' % self.name(src))
            if v[0] == 'clone':
                src = {norm(x) for x in ai.clones.get(v[1], ())}
                if src <= alias: return ('yes', 'a clone of it')
                if len(src) == 1: return self.derived(o, n, src, case, ws, 'is a clone of %s' % self.name(next(iter(src))))
                return ('?', 'clone of several objects')
            if v == ('null',):
                # absent when the number of elements is zero or the original has none
                if case.get(o) == 0: return ('yes', 'absent in both')
                if any(c == 0 for q, c in case.items() if q != o and self.counts(o, q)): return ('yes', 'no elements')
        return self.derived(o, n, V_, case, ws, None)

    def counts(self, o, q):
        """q is the number of elements of the array o (or of what o can point to) in the cases where it has some"""
        if not hasattr(self, '_cnt'):
            self._cnt = {}
            ai = clone.Run(self.m, self.f, self.k)
            arr = self.arrays(ai)
            rets = [self.f.insts[r] for r in ai.rets]
            for oo in self.fields:
                for r in rets:
                    for obj in ai.rets[r.id]:
                        for t in ai.load(ai.mem_at(r), padd(obj, oo), ''):
                            a = arr.get(t)
                            if a and a[0] == 'copy' and len(a) > 2:
                                for k in a[2].m:
                                    for x, _ in k:
                                        if x[0] == 'ld':
                                            b, off, v = base_off(x[1])
                                            if b == ('arg', self.f.this) and not v: self._cnt.setdefault(oo, set()).add(off)
        return q in self._cnt.get(o, ())

    def extent(self, o, n, cnt):
        return ('yes', 'a copy of all %s elements' % loops.pf(cnt))

    def name(self, t):
        if t[0] == 'ld':
            b, o, v = base_off(t[1])
            if b == ('arg', self.f.this) and not v and o in self.fields: return self.fields[o][0]
        return fmt(t)[:80]

    def vector(self, o, n):
        ai, obj = self.ai, self.obj
        d = padd(obj, o); s = mkptr(('arg', self.f.this), o)
        if d in ai.vecs:
            if ai.vecs[d] == {s}: return ('yes', 'copied')
            if len(ai.vecs[d]) == 1 and base_off(next(iter(ai.vecs[d])))[0] == ('arg', self.f.this): return ('no', 'is a copy of another container')
            return ('?', 'copied from %s' % ai.vecs[d])
        p = ai.pushes.get(d)
        if not p: return ('?', 'contents of the container not understood') if self.touched(d) else ('no', 'stays empty in the clone')
        if len(p) != 1: return ('?', 'several insertions')
        iid, vals = next(iter(p.items()))
        if len(vals) != 1: return ('?', 'inserted values not understood')
        v = norm(next(iter(vals)))
        src = v
        if v[0] == 'clone':
            ss = {norm(x) for x in ai.clones.get(v[1], ())}
            if len(ss) != 1: return ('?', 'clones of several objects')
            src = next(iter(ss))
        if src[0] != 'ld': return ('?', 'inserts %s' % fmt(v))
        b, oo, var = base_off(src[1])
        if b[0] != 'vec': return ('?', 'inserts %s' % fmt(src))
        if b[1] != s: return ('no', 'is filled from another container')
        blk = self.f.insts[iid].blk.id
        hs = [h for h, body in loops.natural(self.f).items() if blk in body]
        if len(hs) != 1: return ('?', 'insertion not in a simple loop')
        nb = loops.bounds(ai, hs[0])
        p = ai.expand(src[1])
        it = [t for t in loops.its(p)]
        rest = {k: c for k, c in p.m.items() if not (len(k) == 1 and k[0][0] == b)}
        want = {((('it', hs[0]), 1),): Fraction(8)}
        if any(x is None for x in nb): return ('?', 'number of insertions not understood')
        full = Poly.atom(('size', s))
        if rest != want:
            if set(rest) <= set(want) | {()}: return ('no', 'is filled from element %s on' % (rest.get((), 0) / 8))
            return ('?', 'order of insertion not understood')
        if all(x == full for x in nb): return ('yes', 'filled with clones of all elements')
        if all(loops.isc(x - full) is not None for x in nb): return ('no', 'is filled with %s elements' % loops.pf(nb[0]))
        return ('?', 'filled with %s elements' % loops.pf(nb[0]))

    def touched(self, d):
        """some call or store reaches the container"""
        ai = self.ai
        for i in ai.reached_insts():
            if i.is_call() and 'vector()' not in ai.mod.dem(i.callee or '') and '~' not in ai.mod.dem(i.callee or ''):
                for op in i.ops:
                    if any(t == d for t in ai.val(op)) and 'memset' not in (i.callee or ''): return True
        return False

    # ---- value computed from other members
    def derived(self, o, n, V_, case, ws, how):
        """the clone's value as a function of the original's members, compared with what every writer of the member leaves there"""
        what = how or 'becomes %s' % ' or '.join(sorted(self.short(t) for t in V_))
        worst = ('yes', 'what its initialisers derive')
        nw = 0
        for g in ws:
            ai0, st0 = self.wstate(g)
            if o not in st0: continue
            nw += 1
            v = None
            for late in (0, 1):
                if late:
                    r = self.wcase(g, case)
                    if r is None: v = ('yes', ''); break
                    aig, st = r
                else: aig, st = ai0, st0
                gm = ('arg', g.this)

                def f(addr):
                    b, off, v = base_off(addr)
                    if b == ('arg', self.f.this) and not v:
                        s = st.get(off)
                        if s is None: return ('ld', mkptr(gm, off))
                        if len(s) == 1: return next(iter(s))
                        return ('many', off)
                    return None
                E = st.get(o, {('ld', mkptr(gm, o))})
                G = {norm(subst(t, f)) for t in V_}
                if case.get(o) is not None:
                    keep = {t for t in E if not (t[0] in ('i', 'f') and ((t[1] > 0) - (t[1] < 0)) != case[o])}
                    E = keep or E
                v = self.agree(G, E, aig, g, case, o)
                if v[0] == '?' and how is None and len(V_) == 1:
                    # simply another member, which holds something else
                    q = self.deps(V_) if next(iter(V_))[0] == 'ld' else ()
                    if len(q) == 1 and next(iter(V_)) == ('ld', mkptr(('arg', self.f.this), next(iter(q)))):
                        q = next(iter(q)); S = st.get(q)
                        if S and len(S) > 1 and len(E) > 1 and ('ld', mkptr(gm, o)) in E and ('ld', mkptr(gm, q)) in S and ('ld', mkptr(gm, q)) not in E: v = ('no', '')
                        if S and not S & E and not any(t[0] in ('top', 'memtop', 'opq') for t in S | E): v = ('no', '')
                if v[0] == 'yes' or not case: break
            if v[0] == 'yes': continue
            strong = g.short == self.k or SETTER.match(g.short)
            txt = '%s in the clone, while %s leaves %s in the original' % (what, g.dem.split('(')[0], ' or '.join(sorted(self.short(t, g) for t in E))[:120])
            if v[0] == 'no' and strong: return ('no', txt)
            if v[0] == 'no': continue                      # a step of the initialisers, not a state users see
            worst = ('?', txt + ' ' + v[1])
        if nw == 0:
            if all(t[0] in ('i', 'f', 'null', 'nan', 'zero') or t[0] == 'pure' and t[1] == 'nan' for t in V_): return ('yes', 'never set otherwise')
            if all(t[0] in ('gslnew', 'sum', 'new') for t in V_): return ('yes', 'made afresh')
            return ('?', what)
        return worst

    def deps(self, V_):
        out = set()

        def go(t):
            if not isinstance(t, tuple): return
            if t and t[0] == 'ld':
                b, o, v = base_off(t[1])
                if b == ('arg', self.f.this) and not v: out.add(o)
            for x in t:
                if isinstance(x, tuple): go(x)
        for t in V_: go(t)
        return out

    def short(self, t, g=None):
        s = fmt(t)
        fn = g or self.f
        def nm(mt):
            o = int(mt.group(2) or 0)
            return self.fields[o][0] if o in self.fields else mt.group(0)
        s = re.sub(r'\*\(arg(%d)(?:\+(\d+))?\)' % fn.this, nm, s)
        return s[:140]

    FRESH = ('gslnew', 'new', 'sum')

    def agree(self, G, E, aig, g, split, o):
        own = ('ld', mkptr(('arg', g.this), o))
        un = {t for t in G if t[0] == 'ld' and base_off(t[1])[0] == self.obj}
        if E == {own}: return ('yes', '') if G == un else ('?', '')
        if split and len(E) > 1 and (own in E or G <= E):
            if not G <= E: return ('?', '')
            if len(G) == 1 and next(iter(G))[0] in ('i', 'f'):
                zs = {p: c for p, c in split.items() if p in self.wstate(g)[1]}
                x = self.strict(g, zs, o, lambda ai, st: st.get(o) if all(t[0] in ('i', 'f') for t in st.get(o, ())) else None)
                if x is not None and not x <= G: return ('no', '')
            return ('yes', '')
        if G == E and len(G) == 1: return ('yes', '')
        if len(G) == 1 and len(E) == 1:
            a, b = next(iter(G)), next(iter(E))
            if a[0] in self.FRESH and b[0] in self.FRESH: return ('yes', '') if a[0] == b[0] else ('?', '')
            if a[0] in ('i', 'f', 'null') and b[0] in ('i', 'f', 'null'):
                return ('yes', '') if (a[0] == 'null' or a[1] == 0) and (b[0] == 'null' or b[1] == 0) or a == b else ('no', '')
            if {a[0], b[0]} & {'many', 'sum', 'call', 'top', 'memtop', 'phi', 'gslnew', 'new', 'clone', 'opq', 'zero', 'undef'}: return ('?', '')
            atoms = {}

            def leaf(t):
                if t[0] in ('arg', 'ld'): return V('q' + repr(t))
                return None
            try: r, how = equal(conv(a, leaf), conv(b, leaf))
            except Opaque as x:
                ca = a[0] in ('i', 'f', 'null', 'nan'); cb = b[0] in ('arg', 'ld')
                if ca and cb: return ('no', '')
                if a[0] in ('arg', 'ld') and b[0] in ('arg', 'ld') and a != b: return ('no', '')
                return ('?', str(x))
            return (r, how)
        if all(t[0] in self.FRESH for t in G) and all(t[0] in self.FRESH for t in E): return ('yes', '')
        con = ('i', 'f', 'null')
        if all(t[0] in con for t in G) and len(G) == 1:
            # a single constant where the original can hold several values
            oth = [t for t in E if t[0] in con and t != next(iter(G))]
            if oth or any(t[0] in ('arg',) for t in E): return ('no', '')
        return ('?', '')
