"""C15: a clone shares with its original nothing that evaluation modifies."""
import re
from absint import base_off, fmt, mkptr, padd
import clone
from c14 import One, created, norm

# arguments through which the interpolation library updates its lookup caches
CACHES = [(r'gsl_interp2d_eval', (6, 7)), (r'gsl_spline2d_eval', (3, 4)), (r'gsl_interp_eval', (4,)), (r'gsl_spline_eval', (2,)), (r'gsl_interp_accel_(find|reset)', (0,))]


def chain(t, me):
    """how a pointer is reached from the object: member offset followed by one entry per further load; None when it is not"""
    b, o, v = base_off(t)
    if b == me: return ('own',)
    n = 0
    while b[0] == 'ld':
        bb, oo, vv = base_off(b[1])
        if bb == me and not vv: return (oo,) + ('*',) * n
        if bb == me: return (oo,) + ('*',) * n
        if bb[0] == 'vec':
            b2, o2, v2 = base_off(bb[1])
            if b2 == me and not v2: return (o2, 'elem') + ('*',) * n
        b = bb; n += 1
    return None


class Writes:
    """what evaluating an object of a class modifies: {path: (function, place, what)}"""

    def __init__(self, m): self.m = m; self.cache = {}

    def of(self, cls):
        if cls in self.cache: return self.cache[cls]
        self.cache[cls] = out = {}
        for f in clone.evaluation(self.m, cls):
            ai = clone.Run(self.m, f, cls)
            me = ('arg', f.this)
            for i in ai.reached_insts():
                if i.op == 'store': self.note(out, ai, f, me, i, i.ops[1], 'stores to')
                elif i.is_call():
                    nm = (i.callee or '')
                    if nm.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or nm in ('memcpy', 'memmove', 'memset'): self.note(out, ai, f, me, i, i.ops[0], 'stores to')
                    for pat, args in CACHES:
                        if re.match(pat, nm):
                            for a in args:
                                if a < len(i.ops): self.note(out, ai, f, me, i, i.ops[a], 'looks up through')
                            break
                    dem = self.m.dem(nm) if nm else ''
                    if re.search(r'(gsl_)', nm): continue
                    if i.callee is None or re.search(r'::(Eval\w*)\(', dem):
                        if i.ops: self.sub(out, ai, f, me, i)
        return out

    def note(self, out, ai, f, me, i, op, what):
        for t in ai.val(op):
            p = chain(norm(t), me)
            if p and p != ('own',): out.setdefault(p, (f, i, what))
            b = base_off(t)[0]
            while b[0] == 'ld': b = base_off(b[1])[0]
            if b[0] == 'g': out.setdefault(('global', b[1]), (f, i, what))

    def sub(self, out, ai, f, me, i):
        """evaluation of an object a member refers to"""
        obj = i.ops[0]
        for t in ai.val(obj):
            p = chain(norm(t), me)
            p2 = None
            t = norm(t)
            if t[0] == 'ld':
                b, o, v = base_off(t[1])
                if b == me: p2 = (o,)
                elif b[0] == 'vec' and base_off(b[1])[0] == me: p2 = (base_off(b[1])[1], 'elem')
                elif b[0] == 'ld':
                    q = chain(t[1], me)
                    if q and q != ('own',): p2 = q + ('*',)
            if p2 is None: continue
            cls = ai.member_class(t)
            if cls is None: continue
            for k in [cls] + sorted(self.m.derived(cls)):
                if k in self.cache and self.cache[k] is out: continue
                w = self.of(k)
                if w: out.setdefault(p2, (f, i, 'evaluates, as a %s,' % k)); break


def run(ctx):
    ctx.rule('for every class with a clone method, the memory that evaluation modifies through a pointer member (stores, lookup caches of the interpolation library, objects that are evaluated in turn) is reached in the clone through a pointer of its own: newly allocated or a clone')
    ctx.rule('evaluation modifies no object of static storage duration')
    m = clone.module(ctx)
    W = Writes(m)
    n = 0; glob = {}
    for k, f in clone.classes(m):
        made = created(ctx, m, k, f)
        if made is None: ctx.undecided(k + '.clone', 'class of the clone not found', f); continue
        w = W.of(k)
        for p, (g, i, what) in w.items():
            if p[0] == 'global': glob.setdefault(p[1], (g, i))
        n += 1
        if made != k: continue
        ps = [p for p in w if p[0] != 'global']
        if not ps: ctx.ok(k + '.nothing-modified', f); continue
        Two(ctx, m, k, f, w).check()
    for gname in sorted(glob):
        g, i = glob[gname]
        d = m.globals.get(gname, {}) if hasattr(m, 'globals') else {}
        if d.get('tls'): continue
        if gname.startswith(('_ZSt', 'stdout', 'stderr')): continue
        ctx.bad('global.' + (m.dem_g(gname) or gname), i.loc(), '%s stores to %s, which all objects share' % (g.dem.split('(')[0], m.dem_g(gname) or gname), g)
    ctx.ok('globals')
    ctx.need('classes with a clone method', n, 6)


class Two(One):
    def __init__(self, ctx, m, k, f, w):
        self.w = w
        super().__init__(ctx, m, k, f)

    def find_writers(self): return []

    def tables(self): return {}

    def check(self):
        res = {}
        for fam in self.cases():
            for case in fam: self.one_case(case, res)
        for p in sorted(self.w, key=str):
            if p[0] == 'global': continue
            o = p[0]
            n = self.fields[o][0] if o in self.fields else '+%d' % o
            key = '%s.%s%s' % (self.k, n, ''.join('[]' for x in p[1:]))
            g, i, what = self.w[p]
            vs = res.get(p, [])
            bad = [v for v in vs if v[0] == 'no']; und = [v for v in vs if v[0] == '?']
            if bad: self.ctx.bad(key, self.f.loc(), '%s: the clone %s %s, which %s %s (%s)' % (self.f.dem, bad[0][1], n, g.dem.split('(')[0], what, i.loc()), self.f)
            elif und: self.ctx.undecided(key, und[0][1], self.f)
            elif vs: self.ctx.ok(key, self.f, vs[0][1])

    def one_case(self, case, res):
        m, f = self.m, self.f
        me = ('arg', f.this)
        ai, obj, rets, arrays = self.setup(case)
        if ai is None: return
        for p in self.w:
            if p[0] == 'global': continue
            o = p[0]
            if p[1:2] == ('elem',): v = self.elems(ai, obj, o); res.setdefault(p, []).append(v); continue
            vs = set()
            for r in rets: vs |= ai.load(ai.mem_at(r), padd(obj, o), '')
            own = {('ld', mkptr(me, q)) for q in self.fields}
            out = []
            for t in vs:
                t = norm(t)
                if t in own: out.append(('no', 'uses the same')); continue
                if t[0] in ('clone', 'gslnew', 'null'): out.append(('yes', 'its own')); continue
                if t[0] == 'new':
                    a = arrays.get(t)
                    if len(p) > 1 and a:
                        if a[0] == 'copy': out.append(('no', 'copies the pointers in')); continue
                        if a[0] == 'clones': out.append(('yes', 'clones')); continue
                        out.append(self.inner(ai, t, me)); continue
                    out.append(('yes', 'its own')); continue
                if t[0] == 'ld' and base_off(t[1])[0] == obj: out.append(('yes', 'not set')); continue
                if t[0] == 'sum': out.append(('yes', 'its own')); continue
                if t[0] == 'g' or t[0] == 'ld' and base_off(t[1])[0][0] == 'g': out.append(('no', 'uses a static object as')); continue
                out.append(('?', 'holds %s' % fmt(t)))
            for q in ('no', '?', 'yes'):
                h = [x for x in out if x[0] == q]
                if h: res.setdefault(p, []).append(h[0]); break

    def inner(self, ai, arr, me):
        """pointers stored into a table the clone allocates"""
        seen = []
        for i in ai.reached_insts():
            if i.op != 'store': continue
            for a in ai.val(i.ops[1]):
                if base_off(a)[0] == arr:
                    for t in ai.val(i.ops[0]):
                        t = norm(t); b = base_off(t)[0]
                        if b[0] in ('new', 'gslnew', 'clone', 'null', 'sum'): seen.append(('yes', 'its own'))
                        elif b[0] == 'ld' and chain(t, me): seen.append(('no', 'copies a pointer in'))
                        elif b[0] == 'ld' and base_off(b[1])[0] == arr: seen.append(('yes', 'its own'))
                        else: seen.append(('?', 'holds %s' % fmt(t)))
        for q in ('no', '?', 'yes'):
            h = [x for x in seen if x[0] == q]
            if h: return h[0]
        return ('?', 'contents of the table not understood')

    def elems(self, ai, obj, o):
        d = padd(obj, o); s = mkptr(('arg', self.f.this), o)
        if d in ai.vecs: return ('no', 'copies the pointers in') if ai.vecs[d] == {s} else ('?', 'copied from elsewhere')
        p = ai.pushes.get(d)
        if not p: return ('yes', 'empty')
        for iid, vals in p.items():
            for v in vals:
                v = norm(v)
                if v[0] in ('clone', 'new'): continue
                if v[0] == 'ld' and base_off(v[1])[0][0] == 'vec': return ('no', 'keeps the same objects in')
                return ('?', 'inserts %s' % fmt(v))
        return ('yes', 'clones')
