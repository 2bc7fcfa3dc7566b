"""What a clone's members are made of, relative to the original's."""
import re
from fractions import Fraction
from absint import AbsInt, Mem, Poly, base_off, fmt, mkptr, padd
import loops

BASES = ('MagneticField2D', 'RadialProfile', 'DistributionFunction')
CLONES = ('Clone', 'MinClone')
KEEP = r'SOFTLibException::|::(Min)?Clone\(\)'
EVALS = re.compile(r'^(Eval\w*|HasMagneticFlux|CrossesDomain|GetDomainBounds|GetMaxRadius|GetMinRadius|FindMaxRadius|FindMinRadius|FindMaxZ|GetMagneticAxis[RZ]?|IntersectsDomain3D|Get[RZN](Domain|Separatrix))$')


def module(ctx):
    return ctx.module('--ctors', '--keep', KEEP, '--only', r'(Profile|DistributionFunction|ConnorHastieDistribution|Avalanche|ExponentialPitch|MagneticField[A-Za-z0-9]*)::', witness=('headers',))


def sigof(f): return f.dem


def table(m, cls):
    """slots of the class's virtual table, pure ones filled from any derived class"""
    out = {}
    for k in [cls] + sorted(m.derived(cls)):
        for n, s in enumerate(m.vts.get(k) or []):
            if isinstance(s, str) and n not in out and 'pure_virtual' not in s: out[n] = m.dem(s)
    return out


class Run(AbsInt):
    """interpretation of a member function that follows virtual calls on objects of known class"""

    def __init__(self, m, f, cls, **kw):
        self.m_ = m; self.cls_ = cls; self.clones = {}; self.vecs = {}; self.pushes = {}; self.depth_ = kw.pop('depth', 0)
        self.inits = []
        self.extra = kw.pop('extra', None)
        super().__init__(f, eh=False, callhook=self.hook_call, **kw)

    def static_class(self, obj, mem):
        """class whose table the object's table pointer selects"""
        v = self.load(mem, obj, 'ptr')
        if len(v) == 1:
            t = next(iter(v))
            if t[0] in ('g', 'ptr') or t[0] == 'idx':
                b = t if t[0] == 'g' else base_off(t)[0]
                if b[0] == 'g':
                    mt = re.match(r'vtable for (.*)', self.mod.dem_g(b[1]) or '') or re.match(r'_ZTV\d+(\w+)$', b[1])
                    if mt: return mt.group(1)
        return None

    def slot(self, inst):
        cv = inst.d.get('cv')
        if not isinstance(cv, int): return None
        l = self.orig_inst(cv)
        if l.op != 'load': return None
        p = l.ops[0]
        if isinstance(p, int) and self.fn.insts[p].op == 'getelementptr': return self.fn.insts[p].d.get('off', 0) // 8
        return 0

    def orig_inst(self, i): return self.fn.insts[i]

    def member_class(self, t):
        """class a pointer loaded from a member points to, from the member's declared type"""
        if t[0] != 'ld': return None
        b, o, v = base_off(t[1])
        if b == ('arg', self.fn.this) and not v:
            for n, off, ty, sz, ow in self.m_.fields(self.cls_):
                if off == o: return re.sub(r'[\s*]+$', '', ty).replace('const ', '')
            return None
        if b[0] == 'ld':                                     # element of a table of pointers
            return self.member_class(b)
        if b[0] == 'vec':
            bb, oo, vv = base_off(b[1])
            if bb == ('arg', self.fn.this):
                for n, off, ty, sz, ow in self.m_.fields(self.cls_):
                    if off == oo:
                        mt = re.match(r'std::vector<([\w:]+) ?\*', ty)
                        return mt.group(1) if mt else None
        return None

    def hook_call(self, inst, dem, args, mem, ai):
        if self.extra:
            r = self.extra(inst, dem, args, mem, ai)
            if r is not None: return r
        h = dem.split('(')[0]
        if 'basic_string' in h or 'allocator<' in h and 'vector' not in h or 'SOFTLibException' in h: return frozenset([('opq', inst.id)])
        if re.match(r'std::vector<', dem):
            if '::operator[](' in dem or '::at(' in dem:
                out = set()
                for v in args[0]:
                    for i in args[1]: out.add(mkptr(('vec', v), 8 * i[1]) if i[0] == 'i' else mkptr(('vec', v), 0, ((i, 8),)))
                return frozenset(out)
            if '::size() const' in dem: return frozenset([('size', v) for v in args[0]])
            if '::operator=(' in dem and len(args) == 2:
                for d in args[0]: self.vecs[d] = args[1]
                return args[0]
            if '::push_back(' in dem and len(args) == 2:
                for d in args[0]:
                    for q in args[1]: self.pushes.setdefault(d, {})[inst.id] = self.load(mem, q, 'ptr')
                return frozenset([('opq', inst.id)])
            if '::empty() const' in dem or '::begin() const' in dem or '::end() const' in dem or '::capacity() const' in dem: return frozenset([('call', h, inst.id)])
            if re.search(r'>::vector\(\)', dem) or re.search(r'::~vector\(\)', dem): return frozenset([('opq', inst.id)])
        if re.search(r'::(Min)?Clone\(\)', dem):
            self.clones[inst.id] = args[0]
            return frozenset([('clone', inst.id)])
        if re.match(r'gsl_(spline2d|spline|interp2d|interp)_init$', dem.split('(')[0]):
            self.inits.append((inst, args))
            return frozenset([('i', 0)])
        if re.match(r'gsl_\w+_(alloc)$', dem.split('(')[0]): return frozenset([('gslnew', inst.id)])
        if inst.callee is None and args and len(args[0]) == 1:
            o = next(iter(args[0]))
            cls = self.static_class(o, mem)
            s = self.slot(inst)
            if cls is None and o == ('arg', self.fn.this): cls = self.cls_
            if cls is not None and s is not None:
                vt = self.mod.vts.get(cls)
                if vt and s < len(vt) and isinstance(vt[s], str): return self.summary(inst, vt[s], cls, args, mem)
            cls = self.member_class(o)
            if cls and s is not None:
                d = table(self.m_, cls).get(s, '')
                if re.search(r'::(Min)?Clone\(\)', d):
                    self.clones[inst.id] = args[0]
                    return frozenset([('clone', inst.id)])
                if d: return frozenset([('vcall', d.split('::')[-1].split('(')[0], inst.id)])
        return None

    def summary(self, inst, name, cls, args, mem):
        if self.depth_ > 3: return None
        fs = [f for f in self.m_.find('.*', suf='@' + cls) if f.name == name] or [f for f in self.m_.find('.*', suf='') if f.name == name]
        if not fs: return None
        if any(len(a) != 1 for a in args): return None
        sub = Run(self.m_, fs[0], cls, arg_terms={i: next(iter(a)) for i, a in enumerate(args)}, entry_mem=mem, hook=self.hook, cmp=self.cmp, depth=self.depth_ + 1, extra=self.extra)
        o = next(iter(args[0]))
        upd = {}
        for r in sub.rets:
            ri = fs[0].insts[r]
            if ri.blk.id not in sub.reached: continue
            st = sub.mem_at(ri)
            for k, v in st.c.items():
                if base_off(k)[0][0] == 'alloca': continue
                if mem.c.get(k) != v: upd[k] = upd.get(k, frozenset()) | v
        for k, v in upd.items():
            # values made of the callee's own temporaries are just unknown
            mem.c[k] = frozenset([('sum', inst.id, k)]) if any(mentions(t, ('phi', 'alloca', 'call', 'vec')) for t in v) else v
        ts = {('sum', inst.id) if mentions(t, ('phi', 'alloca', 'call', 'vec')) else t for t in sub.ret_terms()}
        return frozenset(ts) if ts else frozenset([('undef',)])


def mentions(t, kinds):
    if not isinstance(t, tuple): return False
    if t and t[0] in kinds: return True
    return any(mentions(x, kinds) for x in t if isinstance(x, tuple))


def classes(m):
    """[(class, view of its clone method, class created)]"""
    out = []
    for b in BASES:
        for k in sorted(m.derived(b)):
            for nm in CLONES:
                for f in m.method(k, nm):
                    if f.dem.split('(')[0].split('::')[-1] == nm: out.append((k, f))
    return out


def evaluation(m, cls):
    """views of the routines through which an object of the class is evaluated"""
    out = []
    for c in [cls] + m.allbases(cls):
        for d, cc, sc, key, fl in m.index:
            if cc == c:
                o = m._raw[key]
                if EVALS.match(o['short']) and (not key[1] or key[1] == '@' + cls): out.append(m.get(key))
    seen = {}
    for f in out:
        k = (f.short, f.dem.split('(', 1)[-1])
        if k not in seen or f.suf == '@' + cls: seen[k] = f
    return list(seen.values())


def reads(m, cls, cache={}):
    """offsets of members whose value on entry an evaluation routine uses -> name of one such routine"""
    key = (id(m), cls)
    if key in cache: return cache[key]
    out = {}
    for f in evaluation(m, cls):
        ai = Run(m, f, cls)
        for i in ai.reached_insts():
            if i.op == 'load':
                for a in ai.val(i.ops[0]):
                    b, o, v = base_off(a)
                    if b == ('arg', f.this):
                        for t in ai.env.get(i.id, ()):
                            if t[0] == 'ld' and base_off(t[1])[0] == ('arg', f.this): out.setdefault(o, f)
            elif i.is_call():
                # containers used through their own methods
                for op in i.ops:
                    for t in ai.val(op):
                        b, o, v = base_off(t)
                        if b == ('arg', f.this) and not v and o: out.setdefault(o, f)
    cache[key] = out
    return out


def copied(ai, base):
    """element-by-element fills of a fresh array: [(value at iteration, iterations, first index)] or None when some store is not understood"""
    fn = ai.fn; out = []
    for i in ai.reached_insts():
        if i.op == 'store':
            for a in ai.val(i.ops[1]):
                b, o, v = base_off(a)
                if b == base:
                    p = ai.expand(a) - Poly.atom(base)
                    it = [t for t in loops.its(p)]
                    if len(it) != 1: out.append(None); continue
                    h = it[0][1]
                    n = loops.bounds(ai, h)
                    c = p.m.get(((it[0], 1),))
                    rest = Poly({k: q for k, q in p.m.items() if k != ((it[0], 1),)})
                    if c != 8 or any(x is None for x in n) or len(n) != 1: out.append(None); continue
                    vals = ai.val(i.ops[0])
                    out.append((vals, n[0], rest, it[0], i))
        elif i.is_call() and i.callee and (i.callee.startswith(('llvm.memcpy', 'llvm.memmove')) or i.callee in ('memcpy', 'memmove')):
            for a in ai.val(i.ops[0]):
                b, o, v = base_off(a)
                if b == base:
                    out.append(('mem', ai.val(i.ops[1]), ai.val(i.ops[2]), o, v, i))
        elif i.is_call() and 'std::copy' in ai.mod.dem(i.callee or ''):
            for a in ai.val(i.ops[-1]):
                if base_off(a)[0] == base: out.append(None)
    return out
