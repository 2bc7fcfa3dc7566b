"""The integrator followed on finite instances (C22-C24): the equation and, for the controller, the method are unknown functions
whose every call is recorded; see witness/ode.cpp."""
import re
import alg
from alg import C, V
from small import ALGO, UNK, INF, INTR, MATH
from deep import Deep


def module(ctx):
    return ctx.module('--inline', ALGO, '--keep', r'SOFTLibException::', '--only', r'w_(method|control|dense|range)_[0-9]|(^|[ &*])(Method|Control|Equation)[0-9]::|(^|[ &*])(RKDP45|RungeKutta|Integrator|IntegratorEquation|Vector)<', witness=('ode', 'odeuse'))


def missing(ctx, m, what):
    """the witness does not compile against this interface: nothing is decided"""
    if m.find(r'(^|[ *&])w_%s_1\(' % what): return False
    ctx.undecided('witness', 'the witness of w_%s does not compile against the current interface' % what, None); return True


class Ode(Deep):
    """calls of the unknown functions become events; their results are symbols"""
    script = None

    def vec(self, mem, p, n):
        if p is None: return None
        r = [self.read(mem, self.addr(p, 8 * k), 'double') for k in range(n)]
        r = [self.num(x) for x in r]
        return None if None in r else tuple(r)

    def results(self, I, env, mem, st, exc):
        c = I.callee
        if c in ('ode_rhs', 'ode_inner', 'ode_dense', 'realloc', 'free'):
            a = [self.val(env, o) for o in I.ops]
            return self.known(c, a, I, mem, st)
        return Deep.results(self, I, env, mem, st, exc)

    # -- not a number stays so
    def pure(self, I, env, st, exc):
        if I.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg') and any(self.num(self.val(env, o)) is INF['nan'] for o in I.ops): return ('e', INF['nan'])
        return Deep.pure(self, I, env, st, exc)

    def std(self, st, I, c, dem, args, mem):
        if (INTR.match(c) or MATH.match(dem) or c.startswith('llvm.fmuladd')) and any(self.num(x) is INF['nan'] for x in args): return [(('e', INF['nan']), st, None, None)]
        return Deep.std(self, st, I, c, dem, args, mem)

    def initial(self, a, ty):
        b, o = self.split_ptr(a)
        if b[0] == 'g' and b[1].startswith('_ZTV'):
            d = self.m.globals.get(b[1], {}).get('data') or []
            if o % 8 == 0 and 0 <= o // 8 < len(d) and d[o // 8].get('k') in ('fn', 'g'): return (d[o // 8]['k'], d[o // 8]['v'])
        return Deep.initial(self, a, ty)

    reads = None                       # storage read before it is written, where the path is not understood after that

    def read(self, mem, a, ty):
        b, o = self.split_ptr(a)
        if self.reads is not None and b[0] == 'h' and isinstance(b[1], tuple) and b[1][0] == 're' and a not in mem: self.reads.append('reads stored values that were never written')
        return Deep.read(self, mem, a, ty)

    # -- storage has the size asked for
    def write(self, mem, a, v):
        b, o = self.split_ptr(a)
        if b[0] == 'h' and isinstance(b[1], tuple) and b[1][0] == 're' and not 0 <= o <= b[1][4] - 8: self.bad.append('writes at byte %d of storage of %d bytes' % (o, b[1][4]))
        Deep.write(self, mem, a, v)

    def known(self, c, a, I, mem, st):
        N = self.N
        if c == 'free': return [(None, st, None, mem)]
        if c == 'realloc':
            if None in a[:2]: self.unk.append('%s: storage not known' % I.loc()); return [(None, st, None, mem)]
            old, size = a[0], a[1]
            if size[0] != 'i': self.unk.append('%s: size of storage not known' % I.loc()); return [(None, st, None, mem)]
            h = ('h', ('re', len(st[1]), I.id, st[0], size[1])); st = (st[0] + 1, st[1])
            m2 = dict(mem)
            if old != ('i', 0):
                b = self.split_ptr(old)[0]
                for k, v in mem.items():
                    if isinstance(k, tuple) and k[0] in ('h', 'p') and self.split_ptr(k)[0] == b: m2[self.addr(h, self.split_ptr(k)[1])] = v
            return [(h, self.event(st, 'alloc', h, size), None, m2)]
        n = sum(1 for e in st[1] if e[0] == c)
        if c == 'ode_rhs':
            t, y = self.num(a[0]), self.vec(mem, a[1], N)
            if t is None or y is None or a[2] is None: self.unk.append('%s: arguments of the equation not known' % I.loc()); return [(None, st, None, mem)]
            m2 = dict(mem)
            for k in range(N): m2[self.addr(a[2], 8 * k)] = ('e', V('k%d_%d' % (n, k)))
            return [(None, self.event(st, c, t, y, I.loc()), None, m2)]
        if c == 'ode_inner':
            if n >= 150: self.bad.append('repeats the step for ever'); return []
            T, h = self.num(a[0]), self.num(a[1]); y, d = self.vec(mem, a[2], N), self.vec(mem, a[3], N)
            if None in (T, h, y, d) or None in a[4:7]: self.unk.append('%s: arguments of the method not known' % I.loc()); return [(None, st, None, mem)]
            m2 = dict(mem)
            for k in range(N):
                for j, s in ((4, 'y'), (5, 'e'), (6, 'd')): m2[self.addr(a[j], 8 * k)] = ('e', INF['nan'] if s == 'e' and k == 0 and self.isnan(n) else V('%s%d_%d' % (s, n, k)))
            return [(None, self.event(st, c, T, h, y, d, I.loc()), None, m2)]
        h = self.num(a[0]); v = [self.vec(mem, p, N) for p in a[1:5]]
        return [(None, self.event(st, c, h, tuple(v), I.loc()), None, mem)]

    def isnan(self, n): return False
