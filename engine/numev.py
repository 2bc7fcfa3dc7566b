"""Value of an extracted term for given values of its leaves (representative points of a region).

No program is run: terms are what the abstract interpreter extracted from the source; integers are unbounded,
conversions of a real outside the integer range are Undefined."""
import math
from absint import base_off


class Unknown(Exception): pass


class Undefined(Exception):
    """the program has no defined value here (conversion of a real out of range, ...)"""


class Num:
    def __init__(self, leaf, load):
        self.leaf = leaf          # term -> number | ('P', name, byte offset) | None
        self.load = load          # (name, byte offset) -> number/pointer or raises
        self.memo = {}

    def cmp(self, pred, a, b):
        """for AbsInt(cmp=...)"""
        try: x, y = self(a), self(b)
        except Unknown: return None
        return self.rel(pred, x, y)

    def rel(self, pred, x, y):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if pred in ('eq', 'ne'):
                if x == 0 or y == 0: return pred == 'ne'
                if isinstance(x, tuple) and isinstance(y, tuple) and x[1] == y[1]: return (x == y) == (pred == 'eq')
            return None
        nan = x != x or y != y
        if pred in ('ord', 'uno'): return nan == (pred == 'uno')
        if pred in ('eq', 'ne'): return (x == y) == (pred == 'eq')
        if pred in ('ult', 'ule', 'ugt', 'uge') and isinstance(x, int) and isinstance(y, int):
            x &= 2**64 - 1; y &= 2**64 - 1; nan = False
        if pred[0] == 'u' and nan: return True
        if pred[0] == 'o' and nan: return False
        q = pred[1:] if pred[0] in 'ous' else pred
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q)

    def __call__(self, t):
        k = t
        if k in self.memo:
            r = self.memo[k]
            if isinstance(r, Exception): raise r
            return r
        try: r = self.ev(t)
        except (Unknown, Undefined) as e: self.memo[k] = e; raise
        self.memo[k] = r
        return r

    def ptr(self, t):
        b, o, v = base_off(t)
        p = self(b) if b is not t or t[0] not in ('ptr', 'idx') else self.ev0(b)
        if p == 0: raise Undefined('null pointer')
        if not (isinstance(p, tuple) and p[0] == 'P'): raise Unknown('pointer %r' % (b,))
        off = p[2] + o
        for x, s in v: off += self(x) * s
        return ('P', p[1], off)

    def ev0(self, t):
        r = self.leaf(t)
        if r is None: raise Unknown(repr(t)[:100])
        return r

    def ev(self, t):
        r = self.leaf(t)
        if r is not None: return r
        k = t[0]
        if k in ('i', 'f'): return t[1]
        if k == 'nan': return float('nan')
        if k in ('null', 'zero'): return 0
        if k in ('ptr', 'idx'): return self.ptr(t)
        if k == 'ld':
            p = self.ptr(t[1])
            return self.load(p[1], p[2])
        if k == 'cmp':
            r = self.rel(t[1], self(t[2]), self(t[3]))
            if r is None: raise Unknown('comparison')
            return -1 if r else 0
        if k == 'not': return 0 if self(t[1]) else -1
        if k == 'sel' or k == 'select': return self(t[2]) if self(t[1]) else self(t[3])
        if k == 'cast':
            x = self(t[2]); o = t[1]
            if o in ('fptosi', 'fptoui'):
                if x != x or abs(x) >= 2.0**31: raise Undefined('conversion of %r to an integer' % x)
                if o == 'fptoui' and x <= -1: raise Undefined('conversion of %r to an unsigned integer' % x)
                return int(x)
            if o in ('sitofp', 'uitofp'):
                if o == 'uitofp' and x < 0: x += 2**32
                return float(x)
            if o == 'fptrunc': return x
            if o == 'zext':
                w = int(t[3][1:]) if len(t) > 3 and t[3][1:].isdigit() else 64
                return x & ((1 << w) - 1)
            if o == 'trunc' and len(t) > 4 and t[4][1:].isdigit():
                w = int(t[4][1:]); x &= (1 << w) - 1
                return x - (1 << w) if x >= 1 << (w - 1) else x
            return x
        if k == 'op':
            o = t[1]
            a = self(t[2])
            if o == 'fneg': return -a
            b = self(t[3])
            if isinstance(a, tuple) or isinstance(b, tuple):
                if o == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]: return a[2] - b[2]
                if o == 'add' and isinstance(a, tuple): return ('P', a[1], a[2] + b)
                raise Unknown('pointer arithmetic')
            if o in ('add', 'fadd'): return a + b
            if o in ('sub', 'fsub'): return a - b
            if o in ('mul', 'fmul'):
                return a * b
            if o == 'fdiv':
                if b == 0: return float('nan') if a == 0 or a != a else math.copysign(float('inf'), a) * math.copysign(1.0, b)
                return a / b
            if o in ('sdiv', 'udiv', 'srem', 'urem'):
                if b == 0: raise Undefined('division by zero')
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return q if 'div' in o else a - b * q
            if o == 'shl': return a << b
            if o == 'lshr': return (a if a >= 0 else a + 2**64) >> b
            if o == 'ashr': return a >> b
            if o == 'and': return a & b
            if o == 'or': return a | b
            if o == 'xor': return a ^ b
        if k == 'pure':
            n = t[1]; x = [self(y) for y in t[2]]
            try:
                if n in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
                    if x[0] != x[0] or abs(x[0]) == float('inf'): return x[0]
                    return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)}.get(n, round)(x[0]))
                if n in ('lround', 'llround', 'lrint', 'llrint'):
                    if x[0] != x[0] or abs(x[0]) >= 2.0**63: raise Undefined('conversion of %g to an integer' % x[0])
                    return int(math.floor(abs(x[0]) + 0.5)) * (1 if x[0] >= 0 else -1) if 'round' in n else int(round(x[0]))
                if n in ('fabs', 'abs'): return abs(x[0])
                if n in ('min', 'fmin'): return min(x)
                if n in ('max', 'fmax'): return max(x)
                if n in ('smin', 'umin'): return min(x)
                if n in ('smax', 'umax'): return max(x)
                if n == 'isnan': return -1 if x[0] != x[0] else 0
                if n in ('pow', 'powi'): return math.pow(*x)
                if n == 'hypot': return math.hypot(*x)
                if n == 'copysign': return math.copysign(*x)
                if n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'atan', 'atan2', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'fmod'): return getattr(math, n)(*x)
            except (ValueError, OverflowError): return float('nan')
        raise Unknown(repr(t)[:100])
