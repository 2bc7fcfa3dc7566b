"""Abstract interpretation of a root view.

Domain: every SSA value is mapped to a finite set of symbolic *terms* (or widened to
an opaque symbol per instruction); memory is a flow-sensitive map from symbolic
addresses to such sets.  A branch whose condition is decided by the given facts
propagates along the decided edge only, any other branch along both.  The analysis is a
fixpoint over the whole CFG (no path is executed or enumerated, no solver is used)."""
import re
from fractions import Fraction

K = 6

PURE_C = {'sqrt', 'exp', 'log', 'pow', 'fabs', 'sin', 'cos', 'tan', 'atan', 'atan2', 'asin', 'acos', 'cosh', 'sinh',
          'tanh', 'floor', 'ceil', 'round', 'fmin', 'fmax', 'fmod', 'hypot', 'log10', 'cbrt', 'lround', 'llround', 'expm1', 'log1p',
          'isnan', 'gsl_sf_bessel_J0', 'gsl_sf_expint_E1', 'jn', 'j0', 'j1', 'strlen', 'strcmp', 'abs', 'labs', 'nan', 'trunc', 'rint', 'exp2', 'log2'}
INTR = {'llvm.fabs': 'fabs', 'llvm.sqrt': 'sqrt', 'llvm.exp': 'exp', 'llvm.log': 'log', 'llvm.pow': 'pow', 'llvm.sin': 'sin',
        'llvm.cos': 'cos', 'llvm.floor': 'floor', 'llvm.ceil': 'ceil', 'llvm.round': 'round', 'llvm.lround': 'lround', 'llvm.llround': 'llround', 'llvm.lrint': 'lrint', 'llvm.llrint': 'llrint', 'llvm.trunc': 'trunc', 'llvm.rint': 'rint', 'llvm.nearbyint': 'nearbyint', 'llvm.minnum': 'fmin', 'llvm.maxnum': 'fmax',
        'llvm.fmuladd': 'fmuladd', 'llvm.umul.with.overflow': 'umulo', 'llvm.uadd.with.overflow': 'uaddo', 'llvm.is.fpclass': 'isfpclass',
        'llvm.umax': 'umax', 'llvm.umin': 'umin', 'llvm.smax': 'smax', 'llvm.smin': 'smin', 'llvm.abs': 'iabs', 'llvm.trunc': 'trunc', 'llvm.rint': 'rint',
        'llvm.copysign': 'copysign', 'llvm.exp2': 'exp2', 'llvm.log10': 'log10', 'llvm.log2': 'log2', 'llvm.powi': 'powi'}
NOOP = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.stacksave')
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle',
        'oeq': 'oeq', 'one': 'one', 'olt': 'ogt', 'ole': 'oge', 'ogt': 'olt', 'oge': 'ole', 'ueq': 'ueq', 'une': 'une', 'uno': 'uno', 'ord': 'ord'}
NAN = 'nan'


def I(v):
    return ('i', v)


def base_off(t):
    """pointer term -> (base, constant offset, variable part)"""
    if t[0] == 'ptr': return t[1], t[2], ()
    if t[0] == 'idx': return t[1], t[3], t[2]
    if t[0] == 'g': return ('g', t[1], 0), t[2], ()
    return t, 0, ()


def mkptr(base, off, var=()):
    if base[0] == 'g' and not var:
        return ('g', base[1], off)
    if var:
        return ('idx', base, tuple(sorted(var, key=repr)), off)
    if off == 0: return base
    return ('ptr', base, off)


def padd(p, off, var=()):
    b, o, v = base_off(p)
    d = {}
    for t, s in tuple(v) + tuple(var):
        d[t] = d.get(t, 0) + s
    nv = []
    for t, s in d.items():
        if s == 0: continue
        if t[0] == 'i': off += t[1] * s
        else: nv.append((t, s))
    return mkptr(b, o + off, tuple(nv))


def split_params(dem):
    """top-level parameter list of a demangled name"""
    i = dem.rfind(')')
    if i < 0: return None
    depth = 0; j = i
    while j >= 0:
        if dem[j] == ')': depth += 1
        elif dem[j] == '(':
            depth -= 1
            if depth == 0: break
        j -= 1
    s = dem[j + 1:i]
    out = []; d = 0; cur = ''
    for c in s:
        if c in '<([{': d += 1
        if c in '>)]}': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


class Mem:
    __slots__ = ('c', 'dirty', 'regions')

    def __init__(self):
        self.c = {}; self.dirty = {}; self.regions = {}

    def copy(self):
        m = Mem(); m.c = dict(self.c); m.dirty = dict(self.dirty); m.regions = dict(self.regions)
        return m


class AbsInt:
    def __init__(self, fn, hook=None, cmp=None, callhook=None, cap=K, eh=True, arg_terms=None, purepat=None, entry_mem=None, widen_loops=False, throws=None):
        self.fn = fn; self.throws = throws  # throws(inst, dem, args, mem, ai) -> None | (set of type names, returns too?)
        self.pend = {}; self.escapes = set(); self._thr = {}; self.curexc = set(); self.mod = fn.mod
        self.hook = hook          # term -> term
        self.cmp = cmp            # (pred,a,b) -> True/False/None
        self.callhook = callhook  # (inst, callee_dem, argsets) -> set of terms or None
        self.cap = cap; self.eh = eh
        self.env = {}
        self.inmem = {}
        self.reached = set()
        self.edges = set()
        self.rets = {}            # inst id -> set
        self.arg_terms = arg_terms or {}
        self.purepat = re.compile(purepat) if purepat else None
        self.heads = fn.loop_headers()
        self.entry_mem = entry_mem
        self._sig = {}
        self.inductive = self._inductive()
        self.run()

    def _inductive(self):
        """loop-header phis whose back-edge value is computed from the phi itself"""
        fn = self.fn; out = {}
        if not self.heads: return out
        idx = {b: i for i, b in enumerate(fn.rpo())}
        AR = ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'getelementptr', 'udiv', 'sdiv', 'shl', 'lshr', 'ashr', 'urem', 'srem', 'call', 'invoke', 'fneg', 'and', 'or', 'xor')
        TR = AR + ('zext', 'sext', 'trunc', 'phi', 'select', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'extractvalue', 'freeze')
        for h in self.heads:
            for p in fn.blocks[h].insts:
                if p.op != 'phi': break
                for v, pb in zip(p.ops, p.d['pb']):
                    if idx.get(pb, -1) < idx.get(h, 0): continue
                    if not isinstance(v, int): continue
                    st = [(v, False)]; seen = set()
                    while st:
                        x, ar = st.pop()
                        if x == p.id:
                            if ar: out[p.id] = h; st = []
                            continue
                        if (x, ar) in seen: continue
                        seen.add((x, ar))
                        i = fn.insts[x]
                        if i.op not in TR: continue
                        a2 = ar or i.op in AR
                        for o in list(i.ops) + [w for w, _ in i.d.get('var', [])]:
                            if isinstance(o, int): st.append((o, a2))
        return out

    # ---- induction
    def affine(self, pid, depth=0):
        """('phi',pid) = init + step*iteration(header) -> (init terms, step term|None, header)"""
        p = self.fn.insts[pid]; h = p.blk.id
        idx = getattr(self, '_rpoi', None)
        if idx is None:
            idx = self._rpoi = {b: i for i, b in enumerate(self.fn.rpo())}
        init = set(); steps = set()
        me = ('phi', pid)
        for v, pb in zip(p.ops, p.d['pb']):
            if (pb, h) not in self.edges: continue
            if idx.get(pb, -1) < idx.get(h, 0): init |= self.opv(v)
            else:
                for t in self.opv(v):
                    if t[0] == 'op' and t[1] in ('add', 'fadd') and me in (t[2], t[3]):
                        steps.add(t[3] if t[2] == me else t[2])
                    elif t[0] == 'op' and t[1] == 'sub' and t[2] == me and t[3][0] == 'i': steps.add(('i', -t[3][1]))
                    elif t[0] in ('ptr', 'idx') and t[1] == me:
                        b, o, var = base_off(t); steps.add(('bytes', o, var))
                    elif t[0] == 'phi' and t != me and depth < 3: steps.add(self.inner_step(t, me, depth))
                    else: steps.add(None)
        if len(init) != 1 or len(steps) != 1 or None in steps: return None
        return next(iter(init)), next(iter(steps)), h

    def inner_step(self, t, me, depth):
        """step of an outer induction variable which an inner loop (left from its header) advances"""
        import loops
        a = self.affine(t[1], depth + 1) if isinstance(t[1], int) and t[1] in self.fn.insts else None
        if not a or a[0] != me: return None
        body = loops.natural(self.fn).get(a[2], ())
        if any(s not in body and (b, s) in self.edges for b in body if b != a[2] for s in self.fn.blocks[b].succs if s in loops.can_return(self)): return None
        n = loops.bounds(self, a[2])
        if len(n) != 1 or n[0] is None: return None
        return ('poly', self.step_poly(a[1], 1) * n[0])

    def step_poly(self, step, depth):
        if step[0] == 'poly': return step[1]
        if step[0] != 'bytes': return self.expand(step, depth + 1)
        s = Poly.const(Fraction(step[1]))
        for y, sc in step[2]: s = s + self.expand(y, depth + 1) * Poly.const(Fraction(sc))
        return s

    def expand(self, t, depth=0):
        """polynomial of a term: casts dropped, pointers in bytes, induction variables linear in ('it',header)"""
        def sub(x):
            if x[0] == 'phi' and depth < 6:
                a = self.affine(x[1]) if isinstance(x[1], int) and x[1] in self.fn.insts else None
                if a is None: return None
                init, step, h = a
                it = Poly.atom(('it', h))
                return self.expand(init, depth + 1) + self.step_poly(step, depth) * it
            if x[0] in ('ptr', 'idx'):
                b, o, var = base_off(x)
                r = self.expand(b, depth + 1) if b[0] == 'phi' else Poly.atom(b)
                r = r + Poly.const(Fraction(o))
                for y, sc in var: r = r + self.expand(y, depth + 1) * Poly.const(Fraction(sc))
                return r
            if x[0] == 'cast': return self.expand(x[2], depth + 1)
            return None
        return to_poly(t, sub)

    # ---- terms
    def H(self, t):
        return self.hook(t) if self.hook else t

    def opv(self, o):
        if isinstance(o, int):
            s = self.env.get(o)
            return s if s is not None else frozenset()
        k = o['k']
        if k == 'a':
            t = self.arg_terms.get(o['v'], ('arg', o['v']))
            return frozenset([self.H(t)])
        if k == 'i': return frozenset([('i', o['v'])])
        if k == 'f': return frozenset([('f', float(o['v']) if o['v'] not in ('NaN',) else float('nan'))]) if o['v'].lower() != 'nan' else frozenset([('nan',)])
        if k == 'n': return frozenset([('null',)])
        if k == 'g': return frozenset([('g', o['v'], o.get('o', 0))])
        if k == 'fn': return frozenset([('fn', o['v'])])
        if k == 'u': return frozenset([('undef',)])
        if k == 'z': return frozenset([('i', 0)])
        return frozenset([('?',)])

    def ev(self, o):
        return self.opv(o)

    def limit(self, I_, s):
        if len(s) > self.cap:
            return frozenset([self.H(('top', I_.id))])
        return frozenset(s)

    # ---- arithmetic
    def binop(self, op, a, b, ty):
        if ('undef',) == a or ('undef',) == b: return ('undef',)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            w = int(ty[1:]) if re.fullmatch(r'i\d+', ty) else 64
            r = None
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            elif op == 'mul': r = x * y
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op == 'shl' and 0 <= y < w: r = x << y
            elif op == 'sdiv' and y: r = int(x / y) if abs(x) < 2**53 else None
            elif op == 'udiv' and y and x >= 0 and y > 0: r = x // y
            elif op == 'urem' and y > 0 and x >= 0: r = x % y
            elif op == 'lshr' and x >= 0: r = x >> y
            elif op == 'ashr': r = x >> y
            if r is not None:
                r &= (1 << w) - 1
                if w > 1 and r >= 1 << (w - 1): r -= 1 << w
                if w == 1: r = -r if r else 0     # i1 true is -1 in getSExtValue
                return ('i', r)
        if a[0] == 'f' and b[0] == 'f':
            try:
                x, y = a[1], b[1]
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}.get(op)
                if r: return ('f', r())
            except Exception: pass
        if op in ('add', 'sub') and b[0] == 'i' and b[1] == 0: return a
        if op == 'add' and a[0] == 'i' and a[1] == 0: return b
        if op == 'mul':
            if a == ('i', 1): return b
            if b == ('i', 1): return a
            if a == ('i', 0) or b == ('i', 0): return ('i', 0)
        if op in ('or', 'xor') and b == ('i', 0): return a
        if op in ('or', 'xor') and a == ('i', 0): return b
        if op == 'and':
            if b == ('i', -1): return a
            if a == ('i', -1): return b
            if a == ('i', 0) or b == ('i', 0): return ('i', 0)
        if op == 'or' and (a == ('i', -1) or b == ('i', -1)): return ('i', -1)
        if op == 'xor' and b == ('i', -1) and a[0] == 'cmp': return negcmp(a)
        if op in ('fdiv',) and b == ('f', 1.0): return a
        if op == 'fmul' and b == ('f', 1.0): return a
        if op == 'fmul' and a == ('f', 1.0): return b
        if op == 'fsub' and b == ('f', 0.0): return a
        if op == 'fadd' and b == ('f', 0.0): return a
        if op == 'fadd' and a == ('f', 0.0): return b
        if op in ('add', 'mul', 'fadd', 'fmul', 'and', 'or', 'xor') and repr(b) < repr(a): a, b = b, a
        return self.H(('op', op, a, b))

    def compare(self, pred, a, b):
        r = None
        if self.cmp: r = self.cmp(pred, a, b)
        if r is None and self.cmp and pred in SWAP:
            r = self.cmp(SWAP[pred], b, a)
        if r is None: r = default_cmp(pred, a, b)
        if r is None: return ('cmp', pred, a, b)
        return ('i', -1 if r else 0)

    # ---- memory
    def load(self, mem, addr, ty, depth=0):
        if addr in mem.c: return mem.c[addr]
        b, off, var = base_off(addr)
        regs = mem.regions.get(b)
        if regs and not var and depth < 8:
            for (lo, ln, src) in reversed(regs):
                if lo <= off < lo + ln:
                    return self.load(mem, padd(src, off - lo), ty, depth + 1)
        if b[0] == 'g' and not var:
            g = self.mod.globals.get(b[1])
            if g and g['const']:
                v = self.gload(g, off, ty)
                if v is not None: return frozenset([v])
        d = mem.dirty.get(b)
        if b[0] == 'null': return frozenset([('undef',)])
        t = ('ld', addr) if not d else ('ld', addr, d)
        return frozenset([self.H(t)])

    def gload(self, g, off, ty):
        if 'data' in g:
            m = re.match(r'\[(\d+) x (.*)\]$', g['ty'])
            esz = {'double': 8, 'float': 4, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}
            et = re.sub(r'\[\d+ x ', '', g['ty']).strip('] ')
            sz = esz.get(et)
            if sz and off % sz == 0 and 0 <= off // sz < len(g['data']):
                s = self.opv(g['data'][off // sz])
                return next(iter(s))
        if g.get('zero'):
            return ('f', 0.0) if ty in ('double', 'float') else (('null',) if ty == 'ptr' else ('i', 0))
        if 'str' in g and ty == 'i8':
            if off < len(g['str']): return ('i', ord(g['str'][off]))
        return None

    def store(self, mem, addrs, vals, inst):
        strong = len(addrs) == 1
        for a in addrs:
            b, off, var = base_off(a)
            if a[0] in ('top', '?', 'undef', 'null'): continue
            if var:
                for k in [k for k in mem.c if base_off(k)[0] == b and k != a]:
                    if self._disjoint(k, a): continue
                    del mem.c[k]
                mem.dirty[b] = mem.dirty.get(b, frozenset()) | {inst.id}
                mem.c[a] = vals if strong else self.limit(inst, mem.c.get(a, frozenset()) | vals)
            else:
                for k in [k for k in mem.c if k[0] == 'idx' and k[1] == b]:
                    del mem.c[k]
                if strong: mem.c[a] = vals
                else:
                    old = mem.c.get(a)
                    if old is None: old = self.load(mem, a, inst.d.get('sty', ''))
                    mem.c[a] = self.limit(inst, old | vals)

    def _disjoint(self, k, a):
        """same variable part, different constant offset"""
        kb, ko, kv = base_off(k); ab, ao, av = base_off(a)
        return kv == av and ko != ao

    def extent(self, p):
        """(base, lo, hi) possibly modified through pointer p"""
        b, off, var = base_off(p)
        if b == ('arg', self.fn.this) and self.fn.cls:
            if off == 0 and not var: return b, 0, 1 << 40
            for n, o, t, sz, ow in self.mod.fields(self.fn.cls):
                if o <= off < o + max(sz, 1): return b, o, o + max(sz, 1)
        return b, (off if not var else 0), 1 << 40

    def clobber(self, mem, p, inst):
        if p[0] in ('i', 'f', 'null', 'undef', 'g', 'fn', 'cmp', 'nan'): 
            if p[0] != 'g': return
        b, lo, hi = self.extent(p)
        for k in [k for k in mem.c if base_off(k)[0] == b]:
            kb, ko, kv = base_off(k)
            if kv or lo <= ko < hi: del mem.c[k]
        if b == ('arg', self.fn.this) and (lo, hi) != (0, 1 << 40):
            # only a member: mark its cells dirty individually
            for o in range(lo, min(hi, lo + 64), 4):
                a = mkptr(b, o)
                mem.c[a] = frozenset([self.H(('ld', a, frozenset([inst.id])))])
            return
        mem.dirty[b] = mem.dirty.get(b, frozenset()) | {inst.id}
        mem.regions.pop(b, None)

    # ---- calls
    def constparams(self, callee):
        if callee in self._sig: return self._sig[callee]
        d = self.mod.dem(callee)
        r = None
        if '(' in d and callee.startswith('_Z'):
            ps = split_params(d)
            isc = bool(re.search(r'\)\s*const\s*&?$', d))
            r = (isc, ps)
        self._sig[callee] = r
        return r

    def tiname(self, terms):
        for t in terms:
            if t[0] == 'null': return '...'
            if t[0] == 'g':
                d = self.mod.dem_g(t[1]) if hasattr(self.mod, 'dem_g') else t[1]
                return d.replace('typeinfo for ', '')
        return '?'

    def isa(self, T, base):
        if T == base or base == '...' : return True
        if base in self.mod.allbases(T): return True
        if T.startswith('H5::') and base == 'H5::Exception': return True
        if base == 'std::exception': return T.startswith('std::') or 'std::exception' in self.mod.allbases(T)
        if base == 'std::logic_error': return T in ('std::out_of_range', 'std::invalid_argument', 'std::length_error', 'std::domain_error')
        if base == 'std::runtime_error': return T in ('std::range_error', 'std::overflow_error', 'std::underflow_error')
        return False

    def selector(self, lp, T):
        for c in lp.d.get('clauses') or ():
            n = self.tiname(self.opv(c))
            if n == '?': continue
            if self.isa(T, n): return n
        return None

    def call(self, inst, mem):
        r = self.call0(inst, mem)
        if self.throws and inst.callee is not None or self.throws and inst.op == 'invoke':
            args = [self.opv(o) for o in inst.ops]
            callee = inst.callee or ''
            if any(len(a) == 0 for a in args): self._thr[inst.id] = ((), False); return r
            if callee == '__cxa_throw':
                T = self.tiname(args[1]); v = ({T}, False)
            elif callee == '__cxa_rethrow': v = (set(self.curexc) or {'?'}, False)
            elif callee == '__cxa_begin_catch':
                for a in args[0]:
                    if a[0] == 'excp': self.curexc.add(a[1])
                v = None
            else:
                v = self.throws(inst, self.mod.dem(callee) if callee else '', args, mem, self)
                if v is None and (inst.d.get('nr') or callee and self.mod.decls.get(callee, {}).get('nr')): v = ((), False)
            v = v or ((), True)
            self._thr[inst.id] = v
            if inst.op == 'call':
                for T in v[0]: self.escapes.add((inst.id, T))
        return r

    def call0(self, inst, mem):
        callee = inst.callee
        args = [self.opv(o) for o in inst.ops]
        if callee is None:
            cv = self.opv(inst.d['cv'])
            dem = ''
        else:
            dem = self.mod.dem(callee)
        if any(len(a) == 0 for a in args): 
            # operand not yet computed
            return frozenset()
        if self.callhook:
            r = self.callhook(inst, dem, args, mem, self)
            if r is not None: return r
        if callee and self.throws:
            if callee.startswith('llvm.eh.typeid.for'):
                return frozenset([('tid', self.tiname(args[0]))])
        if callee:
            if callee.startswith(NOOP): return frozenset([('undef',)])
            if callee.startswith(('llvm.memcpy', 'llvm.memmove')):
                for dst in args[0]:
                    for src in args[1]:
                        self.memcpy(mem, dst, src, args[2], inst)
                return frozenset([('undef',)])
            if callee.startswith('llvm.memset'):
                for dst in args[0]:
                    self.memset(mem, dst, args[1], args[2], inst)
                return frozenset([('undef',)])
            for p, n in INTR.items():
                if callee.startswith(p):
                    return self.pure(inst, n, args)
            if callee in PURE_C: return self.pure(inst, callee, args)
            m = re.match(r'(?:double|float|int|long|bool|long double)? ?std::(abs|fabs|sqrt|exp|log|pow|isnan|floor|ceil|cos|sin|round|lround|llround|lrint|trunc|rint|nearbyint|fmod)\b', dem)
            if m: return self.pure(inst, {'abs': 'fabs'}.get(m.group(1), m.group(1)), args)
            m = re.match(r'std::numeric_limits<([\w ]+)>::(max|min|lowest|epsilon|infinity|quiet_NaN)\(\)', dem)
            if m:
                v = numlimit(m.group(1), m.group(2))
                if v is not None: return frozenset([v])
            m = re.match(r'(?:\w[\w ]*) const& std::(max|min)<', dem)
            if m and len(args) == 2:
                va = frozenset().union(*[self.load(mem, a, 'double') for a in args[0]])
                vb = frozenset().union(*[self.load(mem, a, 'double') for a in args[1]])
                # result is a reference; materialise a pseudo cell
                cell = ('cell', inst.id)
                out = set()
                for x in va:
                    for y in vb:
                        out.add(self.minmax(m.group(1), x, y))
                mem.c[cell] = self.limit(inst, out)
                return frozenset([cell])
            if dem.startswith(('operator new', )) or callee in ('malloc', 'calloc'):
                kind = 'new[]' if dem.startswith('operator new[]') else ('new' if dem.startswith('operator new') else callee)
                return frozenset([('new', inst.id, kind)])
            if callee == 'realloc':
                return frozenset([('new', inst.id, 'realloc')])
            if self.purepat and self.purepat.search(dem):
                return self.pure(inst, dem, args)
        # effects
        sig = self.constparams(callee) if callee else None
        # order of IR args: [sret] this params...
        k = 0
        n = len(args)
        sret = inst.d.get('sret')
        flags = [False] * n
        if sig:
            isc, ps = sig
            np = n - (1 if sret else 0)
            idx = 1 if sret else 0
            ismember = ps is not None and np == len(ps) + 1
            if ismember:
                flags[idx] = isc; idx += 1
            if ps is not None and (n - idx) == len(ps):
                for j, p in enumerate(ps):
                    flags[idx + j] = bool(re.search(r'const\s*[&*]$', p)) or p.endswith('const*') or not re.search(r'[&*\]]|\.\.\.', p)
        elif callee in ('free', 'fclose', 'printf', 'fprintf', 'puts', 'putchar', 'gsl_interp_accel_free', 'fwrite', '__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', 'snprintf'):
            flags = [True] * n
            if callee == 'snprintf': flags[0] = False
        elif callee and callee.startswith('gsl_') and 'eval' in callee:
            flags = [True] * n
        if dem.startswith('operator delete'): flags = [True] * n
        for a, c in zip(args, flags):
            if c: continue
            for t in a: self.clobber(mem, t, inst)
        if inst.ty == 'void': return frozenset([('undef',)])
        return frozenset([self.H(('call', callee or 'indirect', inst.id))])

    def minmax(self, which, x, y):
        lt = self.compare('olt', x, y)
        if lt == ('i', -1): return x if which == 'min' else y
        if lt == ('i', 0): return y if which == 'min' else x
        return self.H(('pure', which, (x, y)))

    def pure(self, inst, name, args):
        out = set()
        import itertools
        n = 1
        for a in args: n *= len(a)
        if n > 64: return frozenset([self.H(('top', inst.id))])
        for comb in itertools.product(*args):
            if name == 'fmuladd':
                out.add(self.binop('fadd', self.binop('fmul', comb[0], comb[1], inst.ty), comb[2], inst.ty))
            elif name in ('umulo', 'uaddo'):
                out.add(('agg', (self.binop({'umulo': 'mul', 'uaddo': 'add'}[name], comb[0], comb[1], 'i64'), ('i', 0))))
            elif name in ('fmin', 'fmax'): out.add(self.minmax(name[1:], *comb))
            elif name in ('umin', 'umax', 'smin', 'smax'):
                p = name[0] + 'lt'
                lt = self.compare(p, comb[0], comb[1])
                if lt[0] == 'i': out.add((comb[0] if lt[1] else comb[1]) if name.endswith('min') else (comb[1] if lt[1] else comb[0]))
                else: out.add(self.H(('pure', name, tuple(comb))))
            elif name in ('isnan',):
                out.add(self.compare('uno', comb[0], comb[0]))
            elif name == 'isfpclass' and len(comb) > 1 and comb[1] == ('i', 3):
                out.add(self.compare('uno', comb[0], comb[0]))
            else: out.add(self.H(('pure', name, tuple(comb))))
        return self.limit(inst, out)

    def memcpy(self, mem, dst, src, lens, inst):
        L = next(iter(lens)) if len(lens) == 1 else None
        db, do, dv = base_off(dst); sb, so, sv = base_off(src)
        if L is None or L[0] != 'i' or dv or sv:
            self.clobber(mem, dst, inst); 
            return
        L = L[1]
        for k in [k for k in mem.c if base_off(k)[0] == db]:
            kb, ko, kv = base_off(k)
            if kv or do <= ko < do + L: del mem.c[k]
        add = {}
        for k, v in mem.c.items():
            kb, ko, kv = base_off(k)
            if kb == sb and not kv and so <= ko < so + L: add[padd(dst, ko - so)] = v
        regs = mem.regions.get(db, ())
        mem.regions[db] = tuple(r for r in regs if not (do <= r[0] and r[0] + r[1] <= do + L)) + ((do, L, src),)
        mem.c.update(add)

    def memset(self, mem, dst, val, lens, inst):
        L = next(iter(lens)) if len(lens) == 1 else None
        b, o, v = base_off(dst)
        self.clobber(mem, dst, inst)
        if L and L[0] == 'i' and not v and val == frozenset([('i', 0)]):
            for k in range(0, min(L[1], 512), 4):
                mem.c[mkptr(b, o + k)] = frozenset([('zero',)])
        elif val == frozenset([('i', 0)]):
            pass

    # ---- transfer
    def step(self, inst, mem, pred=None):
        """-> set of terms for the instruction (None: no value)"""
        op = inst.op; o = inst.ops
        if op == 'phi':
            if inst.id in self.inductive: return frozenset([self.H(('phi', inst.id))])
            s = set()
            for v, pb in zip(o, inst.d['pb']):
                if (pb, inst.blk.id) in self.edges:
                    s |= self.opv(v)
            s.discard(('phi', inst.id))
            if len(s) > self.cap or (inst.blk.id in self.heads and any(mentions_growth(t, inst.id) for t in s)):
                return frozenset([self.H(('phi', inst.id))])
            return frozenset(s)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            out = set()
            for a in self.opv(o[0]):
                for b in self.opv(o[1]):
                    out.add(self.binop(op, a, b, inst.ty))
            return self.limit(inst, out)
        if op == 'fneg':
            return self.limit(inst, {('f', -a[1]) if a[0] == 'f' else self.H(('op', 'fneg', a)) for a in self.opv(o[0])})
        if op in ('icmp', 'fcmp'):
            out = set()
            for a in self.opv(o[0]):
                for b in self.opv(o[1]):
                    out.add(self.compare(inst.d['p'], a, b))
            return self.limit(inst, out)
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            return self.limit(inst, {self.cast(op, a, inst) for a in self.opv(o[0])})
        if op == 'select':
            c = self.opv(o[0]); out = set()
            for x in c:
                if x[0] == 'i': out |= self.opv(o[1] if x[1] else o[2])
                else: out |= self.opv(o[1]) | self.opv(o[2])
            return self.limit(inst, out)
        if op == 'getelementptr':
            out = set()
            bases = self.opv(o[0])
            if 'off' not in inst.d: return frozenset([('top', inst.id)])
            var = inst.d['var']
            combos = [()]
            for v, sc in var:
                combos = [c + ((t, sc),) for c in combos for t in self.opv(v)]
                if len(combos) > 32: return frozenset([self.H(('top', inst.id))])
            for b in bases:
                if b[0] in ('undef', ): out.add(b); continue
                for c in combos: out.add(self.H(padd(b, inst.d['off'], c)))
            return self.limit(inst, out)
        if op == 'alloca': return frozenset([('alloca', inst.id)])
        if op == 'load':
            s = set()
            for a in self.opv(o[0]):
                if a[0] in ('top', '?', 'undef'): s.add(self.H(('top', inst.id)))
                else: s |= self.load(mem, a, inst.ty)
            z = ('f', 0.0) if inst.ty in ('double', 'float') else (('null',) if inst.ty == 'ptr' else ('i', 0))
            s = {z if x == ('zero',) else x for x in s}
            return self.limit(inst, s)
        if op == 'store':
            v = self.opv(o[0]); a = self.opv(o[1])
            if v and a: self.store(mem, a, v, inst)
            return None
        if op in ('call', 'invoke'): return self.call(inst, mem)
        if op == 'extractvalue':
            out = set()
            for a in self.opv(o[0]):
                ix = inst.d['ix']
                if a[0] == 'agg' and len(ix) == 1 and ix[0] < len(a[1]): out.add(a[1][ix[0]])
                else: out.add(self.H(('ext', a, tuple(ix))))
            return self.limit(inst, out)
        if op == 'insertvalue':
            out = set()
            for a in self.opv(o[0]):
                for v in self.opv(o[1]):
                    ix = inst.d['ix']
                    if len(ix) == 1:
                        cur = list(a[1]) if a[0] == 'agg' else [('undef',)] * 2
                        while len(cur) <= ix[0]: cur.append(('undef',))
                        cur[ix[0]] = v; out.add(('agg', tuple(cur)))
                    else: out.add(('top', inst.id))
            return self.limit(inst, out)
        if op == 'landingpad':
            if self.throws:
                return frozenset(('agg', (('excp', T, self.selector(inst, T)), ('tid', self.selector(inst, T)))) for T in self.pend.get(inst.blk.id, ()))
            return frozenset([('lp', inst.id)])
        if op == 'resume' and self.throws:
            for a in self.opv(o[0]):
                if a[0] == 'agg' and a[1][0][0] == 'excp':
                    if a[1][0][2] is None: self.escapes.add((inst.id, a[1][0][1]))
                elif a[0] != 'undef': self.escapes.add((inst.id, '?'))
            return None
        if op == 'ret':
            if o: self.rets[inst.id] = self.opv(o[0])
            else: self.rets[inst.id] = frozenset([('void',)])
            return None
        if op in ('br', 'switch', 'unreachable', 'resume', 'fence'): return None
        return frozenset([self.H(('top', inst.id))])

    def cast(self, op, a, inst):
        if a[0] == 'undef': return a
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast', 'fpext'): return a
        if op == 'fptrunc' and a[0] in ('f', 'nan'): return a
        if a[0] == 'i':
            v = a[1]; fw = int(inst.d['fty'][1:]) if re.fullmatch(r'i\d+', inst.d.get('fty', '')) else 64
            if op == 'zext': return ('i', v & ((1 << fw) - 1))
            if op == 'sext': return a
            if op == 'sitofp': return ('f', float(v))
            if op == 'uitofp': return ('f', float(v & ((1 << fw) - 1)))
            if op == 'trunc':
                w = int(inst.ty[1:]); v &= (1 << w) - 1
                if w == 1: return ('i', -1 if v else 0)
                return ('i', v - (1 << w) if v >= 1 << (w - 1) else v)
        if a[0] == 'f' and op in ('fptosi', 'fptoui'):
            try: return ('i', int(a[1]))
            except Exception: return ('top', inst.id)
        if a[0] == 'cmp' and op in ('zext', 'trunc', 'sext'): return a
        if a[0] == 'i' : return a
        if op in ('zext', 'sext', 'trunc'): return self.H(('cast', op, a, inst.d.get('fty', ''), inst.ty))
        return self.H(('cast', op, a))

    def succs(self, B):
        t = B.insts[-1]
        if t.op == 'br':
            if not t.ops: return list(t.d['s'])
            c = self.opv(t.ops[0]); out = []
            for x in c:
                if x[0] == 'i': out.append(t.d['s'][0] if x[1] else t.d['s'][1])
                elif x == ('undef',): out += t.d['s']
                else: out += t.d['s']
            return out
        if t.op == 'switch':
            c = self.opv(t.ops[0]); out = []
            for x in c:
                if x[0] == 'i':
                    for v, b in t.d['cases']:
                        if v == x[1]: out.append(b); break
                    else: out.append(t.d['def'])
                else:
                    und = True
                    for v, b in t.d['cases']:
                        r = self.compare('eq', x, ('i', v))
                        if r == ('i', -1): out.append(b); und = False
                        elif r != ('i', 0): out.append(b)
                    if und: out.append(t.d['def'])
            return out
        if t.op == 'invoke' and self.throws:
            out = []
            T, ret = self._thr.get(t.id, ((), True))
            if ret: out.append(t.d['nd'])
            lp = self.fn.blocks[t.d['ud']].lp
            for ty in T:
                if lp is not None and (lp.d.get('cleanup') or self.selector(lp, ty) is not None):
                    if ty not in self.pend.setdefault(t.d['ud'], set()):
                        self.pend[t.d['ud']].add(ty); self._force = True
                    out.append(t.d['ud'])
                else: self.escapes.add((t.id, ty))
            return out
        if t.op == 'invoke':
            out = []
            nr = t.d.get('nr') or (t.callee and self.mod.decls.get(t.callee, {}).get('nr')) or t.callee in ('__cxa_throw', '__cxa_rethrow')
            if not nr: out.append(t.d['nd'])
            lp = self.fn.blocks[t.d['ud']].lp
            if self.eh is True or (self.eh == 'catch' and lp is not None and lp.d.get('clauses')) or nr and self.eh is not False:
                out.append(t.d['ud'])
            return out
        return []

    def join(self, b, mem):
        cur = self.inmem.get(b)
        if cur is None:
            self.inmem[b] = mem.copy(); return True
        ch = False
        for k in set(cur.c) | set(mem.c):
            x = cur.c.get(k); y = mem.c.get(k)
            if x is None: x = self.load(cur, k, '')
            if y is None: y = self.load(mem, k, '')
            n = x | y
            if len(n) > self.cap: n = frozenset([self.H(('memtop', b, k))])
            if cur.c.get(k) != n: cur.c[k] = n; ch = True
        for k, v in mem.dirty.items():
            n = cur.dirty.get(k, frozenset()) | v
            if n != cur.dirty.get(k): cur.dirty[k] = n; ch = True
        for k, v in mem.regions.items():
            if k not in cur.regions: cur.regions[k] = v; ch = True
        return ch

    def run(self):
        order = {b: i for i, b in enumerate(self.fn.rpo())}
        import heapq
        m0 = self.entry_mem.copy() if self.entry_mem else Mem()
        self.inmem[self.fn.entry] = m0
        wl = [(0, self.fn.entry)]; inq = {self.fn.entry}
        self.reached.add(self.fn.entry)
        steps = 0
        while wl:
            _, b = heapq.heappop(wl); inq.discard(b)
            steps += 1
            if steps > 60 * len(self.fn.blocks) + 2000:
                self.diverged = True; break
            B = self.fn.blocks[b]; mem = self.inmem[b].copy()
            changed = False; dead = False; self._force = False
            for inst in B.insts:
                v = self.step(inst, mem)
                if self.throws and inst.op == 'call' and not self._thr.get(inst.id, ((), True))[1]: dead = True; break
                if v is not None:
                    old = self.env.get(inst.id)
                    n = v if old is None else (v | old)
                    if inst.op == 'phi' and ('phi', inst.id) in v: n = v
                    if n != old and len(n) > self.cap: n = frozenset([self.H(('top', inst.id))])
                    if old is not None and (('top', inst.id) in old or (inst.op == 'phi' and old == frozenset([self.H(('phi', inst.id))]))):
                        n = old
                    if n != old: self.env[inst.id] = n; changed = True
            for s in (() if dead else self.succs(B)):
                if self._force: changed = True
                new = (b, s) not in self.edges
                self.edges.add((b, s)); self.reached.add(s)
                ch = self.join(s, mem)
                if (ch or new or changed) and s not in inq:
                    heapq.heappush(wl, (order.get(s, 1 << 30), s)); inq.add(s)
            if changed:
                # users elsewhere (dominated blocks) have to be revisited
                for s in list(self.reached):
                    if s != b and s not in inq and self._uses_from(s, b):
                        heapq.heappush(wl, (order.get(s, 1 << 30), s)); inq.add(s)
        self.diverged = getattr(self, 'diverged', False)

    def _uses_from(self, s, b):
        if not hasattr(self, '_ub'):
            self._ub = {}
            for x, B in self.fn.blocks.items():
                u = set()
                for i in B.insts:
                    os_ = list(i.ops)
                    if 'var' in i.d: os_ += [v for v, _ in i.d['var']]
                    if 'cv' in i.d: os_.append(i.d['cv'])
                    for o in os_:
                        if isinstance(o, int): u.add(self.fn.insts[o].blk.id)
                self._ub[x] = u
        return b in self._ub[s]

    # ---- queries
    def mem_at(self, inst):
        """memory just before inst"""
        B = inst.blk
        if B.id not in self.inmem: return None
        mem = self.inmem[B.id].copy()
        for i in B.insts:
            if i.id == inst.id: return mem
            self.step(i, mem)
        return mem

    def reached_insts(self):
        for b in sorted(self.reached):
            for i in self.fn.blocks[b].insts: yield i

    def ret_terms(self):
        out = set()
        for i, s in self.rets.items():
            if self.fn.insts[i].blk.id in self.reached: out |= s
        return out

    def val(self, o):
        return self.opv(o)


def mentions_growth(t, pid, depth=0):
    """does the term nest arithmetic deeply enough to be a loop-carried growth?"""
    n = count_ops(t)
    return n > 40


def count_ops(t):
    n = 0; st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            n += 1
            st.extend(x)
            if n > 4000: break
    return n


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'oeq': 'une', 'une': 'oeq', 'olt': 'uge', 'uge_f': 'olt', 'uno': 'ord', 'ord': 'uno'}


def negcmp(c):
    p = c[1]
    fl = {'olt': 'uge', 'uge': 'olt', 'ole': 'ugt', 'ugt': 'ole', 'ogt': 'ule', 'ule': 'ogt', 'oge': 'ult', 'ult': 'oge', 'oeq': 'une', 'une': 'oeq', 'one': 'ueq', 'ueq': 'one', 'uno': 'ord', 'ord': 'uno'}
    it = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
    if p in it: return ('cmp', it[p], c[2], c[3])
    if p in ('olt', 'ole', 'ogt', 'oge', 'oeq', 'une', 'one', 'ueq', 'uno', 'ord'): return ('cmp', fl[p], c[2], c[3])
    return ('not', c)


def numlimit(ty, f):
    import sys
    if ty in ('double', 'float', 'long double'):
        if f == 'infinity': return ('f', float('inf'))
        if f == 'quiet_NaN': return ('nan',)
        if ty == 'double': return ('f', {'max': sys.float_info.max, 'min': sys.float_info.min, 'lowest': -sys.float_info.max, 'epsilon': sys.float_info.epsilon}[f])
        return None
    w = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'short': 16, 'unsigned short': 16, 'char': 8, 'signed char': 8, 'unsigned char': 8}.get(ty)
    if not w: return None
    if ty.startswith('unsigned'): return ('i', ((1 << w) - 1 if w < 64 else -1) if f == 'max' else 0)
    return ('i', (1 << (w - 1)) - 1 if f == 'max' else -(1 << (w - 1)))


def default_cmp(pred, a, b):
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        if pred[0] == 'u' and pred != 'une' and pred in ('ult', 'ule', 'ugt', 'uge'):
            x &= (1 << 64) - 1; y &= (1 << 64) - 1
        return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(pred)
    if a[0] in ('f', 'nan') and b[0] in ('f', 'nan'):
        if a[0] == 'nan' or b[0] == 'nan': return pred[0] == 'u'
        return fcmp_num(pred, a[1], b[1])
    if a[0] == 'tid' and b[0] == 'tid' and pred in ('eq', 'ne'): return (a == b) == (pred == 'eq')
    if a == b and pred in ('eq', 'ule', 'uge', 'sle', 'sge') and a[0] not in ('top', 'undef', '?'): return True
    if a == b and pred in ('ne', 'ult', 'ugt', 'slt', 'sgt') and a[0] not in ('top', 'undef', '?'): return False
    nn = ('alloca', 'new', 'g', 'fn', 'ptr')
    if pred in ('eq', 'ne'):
        if a[0] in nn and b[0] == 'null' or b[0] in nn and a[0] == 'null':
            return pred == 'ne'
        if a[0] in ('alloca', 'new') and b[0] in ('alloca', 'new', 'arg', 'g') and a != b: return pred == 'ne'
        if a == b == ('null',): return pred == 'eq'
    if pred == 'ult' and b == ('i', 0): return False
    if pred == 'uge' and b == ('i', 0) and a[0] not in ('f', 'nan'): return True
    return None


def fcmp_num(p, x, y):
    import math
    if x != x or y != y: return p[0] == 'u'
    q = p[1:]
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q, p == 'ord')


class Order:
    """comparison oracle for a finite set of orderings: rank[term] = number or NAN."""

    def __init__(self, rank, wild=None):
        self.rank = rank; self.wild = wild

    def r(self, t):
        if t in self.rank: return self.rank[t]
        if t[0] == 'cast' and len(t) >= 3 and t[2] in self.rank: return self.rank[t[2]]
        if t[0] == 'op' and t[1] == 'fneg' and t[2] in self.rank and isinstance(self.rank[t[2]], (int, float)): return -self.rank[t[2]]
        if t[0] in ('i', 'f') and self.wild == 'const': return t[1]
        if t[0] == 'nan': return NAN
        return None

    def __call__(self, pred, a, b):
        x = self.r(a); y = self.r(b)
        if x == NAN or y == NAN:
            if pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') and a[0] in ('i',): return None
            return pred[0] == 'u'
        if x is None or y is None: return None
        q = pred[1:] if pred not in ('eq', 'ne') else pred
        if pred == 'uno': return False
        if pred == 'ord': return True
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q)


# ---------------------------------------------------------------- polynomials
class Poly:
    """multivariate polynomial with Fraction/float coefficients over atom terms"""
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def const(c): return Poly({(): c})

    @staticmethod
    def atom(t): return Poly({((t, 1),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.m)
        for k, v in o.m.items(): d[k] = d.get(k, 0) + v
        return Poly(d)

    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        d = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                e = dict(k1)
                for t, p in k2: e[t] = e.get(t, 0) + p
                k = tuple(sorted(((t, p) for t, p in e.items() if p), key=repr))
                d[k] = d.get(k, 0) + v1 * v2
        return Poly(d)

    def inv(self):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            return Poly({tuple((t, -p) for t, p in k): 1 / v if isinstance(v, Fraction) else Fraction(1) / v})
        return Poly.atom(('inv', self.key()))

    def key(self):
        return tuple(sorted(((k, v) for k, v in self.m.items()), key=repr))

    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m

    def __hash__(self): return hash(self.key())

    def close(self, o, tol=1e-12):
        for k in set(self.m) | set(o.m):
            a = float(self.m.get(k, 0)); b = float(o.m.get(k, 0))
            if abs(a - b) > tol * max(1.0, abs(a), abs(b)): return False
        return True

    def __repr__(self):
        return ' + '.join('%s*%s' % (v, '*'.join('%r^%d' % (t, p) for t, p in k)) for k, v in self.m.items()) or '0'


def to_poly(t, sub=None, memo=None):
    if sub:
        s = sub(t)
        if s is not None: return s
    k = t[0]
    if k == 'i': return Poly.const(Fraction(t[1]))
    if k == 'f': return Poly.const(Fraction(t[1]))
    if k == 'zero': return Poly()
    if k == 'cast' and t[1] in ('sitofp', 'uitofp', 'zext', 'sext'): return to_poly(t[2], sub)
    if k == 'op':
        o = t[1]
        if o == 'fneg': return -to_poly(t[2], sub)
        if o in ('add', 'fadd'): return to_poly(t[2], sub) + to_poly(t[3], sub)
        if o in ('sub', 'fsub'): return to_poly(t[2], sub) - to_poly(t[3], sub)
        if o in ('mul', 'fmul'): return to_poly(t[2], sub) * to_poly(t[3], sub)
        if o == 'fdiv': return to_poly(t[2], sub) * to_poly(t[3], sub).inv()
        if o == 'shl' and t[3][0] == 'i': return to_poly(t[2], sub) * Poly.const(Fraction(1 << t[3][1]))
    return Poly.atom(t)


def fmt(t, fn=None):
    """human-readable term"""
    k = t[0]
    if k in ('i', 'f'): return str(t[1])
    if k == 'null': return 'nullptr'
    if k == 'arg':
        if fn: 
            a = fn.args[t[1]]
            return a.get('name') or 'arg%d' % t[1]
        return 'arg%d' % t[1]
    if k == 'ld':
        b, o, v = base_off(t[1])
        if fn and b == ('arg', fn.this) and not v and fn.cls:
            n = fn.mod.field_at(fn.cls, o)
            if n: return 'this->' + n
        return '*(%s)' % fmt(t[1], fn)
    if k == 'ptr': return '%s+%d' % (fmt(t[1], fn), t[2])
    if k == 'idx': return '%s[%s+%d]' % (fmt(t[1], fn), '+'.join('%s*%d' % (fmt(x, fn), s) for x, s in t[2]), t[3])
    if k == 'op':
        sym = {'fadd': '+', 'add': '+', 'fsub': '-', 'sub': '-', 'fmul': '*', 'mul': '*', 'fdiv': '/', 'udiv': '/', 'sdiv': '/'}
        if len(t) == 4: return '(%s %s %s)' % (fmt(t[2], fn), sym.get(t[1], t[1]), fmt(t[3], fn))
        return '%s(%s)' % (t[1], fmt(t[2], fn))
    if k == 'cmp': return '(%s %s %s)' % (fmt(t[2], fn), t[1], fmt(t[3], fn))
    if k == 'cast': return fmt(t[2], fn)
    if k == 'call':
        return (fn.mod.dem(t[1]).split('(')[0] if fn else t[1]) + '()'
    if k == 'pure': return '%s(%s)' % (t[1], ', '.join(fmt(x, fn) for x in t[2]))
    if k == 'g': return t[1]
    if k == 'sym': return str(t[1])
    return str(t)
