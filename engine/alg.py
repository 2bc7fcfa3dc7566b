"""Algebra of formulas extracted from the program.

A formula is a hash-consed tree over named quantities and uninterpreted or elementary
functions.  It can be differentiated, brought to a rational normal form (quotients of
polynomials over atoms, square roots reduced by their defining relation) and compared with
another formula.  Two formulas are told apart only by a witness: generic points at which
their values differ."""
import hashlib, sys
from fractions import Fraction
try:
    import mpmath
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import mpmath
mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
mp.dps = 40
NPTS = 3


class E:
    """interned node; equality is identity"""
    __slots__ = ('t', '__weakref__')

    def __init__(self, t): self.t = t

    def __getitem__(self, i): return self.t[i]

    def __repr__(self): return repr(self.t)


_TAB = {}


def mk(*t):
    e = _TAB.get(t)
    if e is None: e = _TAB[t] = E(t)
    return e


def C(x): return mk('c', Fraction(x))


ZERO, ONE, TWO = C(0), C(1), C(2)


def V(n): return mk('v', n)


def fn(name, *args): return mk('fn', name, tuple(args))


def add(a, b):
    if a == ZERO: return b
    if b == ZERO: return a
    if a[0] == 'c' and b[0] == 'c': return C(a[1] + b[1])
    return mk('+', a, b)


def neg(a):
    if a[0] == 'c': return C(-a[1])
    if a[0] == 'neg': return a[1]
    return mk('neg', a)


def sub(a, b): return add(a, neg(b))


def mul(a, b):
    if a == ZERO or b == ZERO: return ZERO
    if a == ONE: return b
    if b == ONE: return a
    if a[0] == 'c' and b[0] == 'c': return C(a[1] * b[1])
    return mk('*', a, b)


def div(a, b):
    if a == ZERO: return ZERO
    if b == ONE: return a
    return mk('/', a, b)


def sqrt(a): return fn('sqrt', a)


def sq(a): return mul(a, a)


def ssum(*xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r


def power(a, b):
    if b[0] == 'c' and b[1].denominator == 1 and abs(b[1]) <= 12:
        n = int(b[1]); r = ONE
        for _ in range(abs(n)): r = mul(r, a)
        return r if n >= 0 else div(ONE, r)
    if b is C(Fraction(1, 2)): return sqrt(a)
    return fn('pow', a, b)


def conv(t, leaf, memo=None):
    """term of the abstract interpreter -> formula; leaf(term) -> formula or None"""
    if memo is None: memo = {}
    h = memo.get(id(t))
    if h is not None: return h[1]
    r = leaf(t)
    if r is None: r = _conv(t, leaf, memo)
    memo[id(t)] = (t, r)
    return r


class Opaque(Exception): pass


def _conv(t, leaf, memo):
    k = t[0]
    if k in ('i', 'f'):
        if k == 'f' and (t[1] != t[1] or t[1] in (float('inf'), float('-inf'))): return V(('const', repr(t[1])))
        return C(t[1])
    if k == 'zero': return ZERO
    if k == 'cast' and t[1] in ('sitofp', 'uitofp', 'zext', 'sext', 'fpext', 'fptrunc'): return conv(t[2], leaf, memo)
    if k == 'op':
        o = t[1]
        if o == 'fneg': return neg(conv(t[2], leaf, memo))
        if o in ('add', 'fadd'): return add(conv(t[2], leaf, memo), conv(t[3], leaf, memo))
        if o in ('sub', 'fsub'): return sub(conv(t[2], leaf, memo), conv(t[3], leaf, memo))
        if o in ('mul', 'fmul'): return mul(conv(t[2], leaf, memo), conv(t[3], leaf, memo))
        if o == 'fdiv': return div(conv(t[2], leaf, memo), conv(t[3], leaf, memo))
    if k == 'pure':
        a = [conv(x, leaf, memo) for x in t[2]]
        n = t[1]
        if n == 'hypot': return sqrt(add(sq(a[0]), sq(a[1])))
        if n in ('pow', 'powi'): return power(a[0], a[1])
        if n == 'gsl_pow_2': return sq(a[0])
        return fn(n, *a)
    raise Opaque(repr(t)[:200])


# ---------------------------------------------------------------- derivatives
def diff(e, x, rules=None, memo=None):
    if memo is None: memo = {}
    if e in memo: return memo[e]
    k = e[0]
    D = lambda y: diff(y, x, rules, memo)
    if k == 'c': r = ZERO
    elif k == 'v': r = ONE if e == x else ZERO
    elif k == '+': r = add(D(e[1]), D(e[2]))
    elif k == 'neg': r = neg(D(e[1]))
    elif k == '*': r = add(mul(D(e[1]), e[2]), mul(e[1], D(e[2])))
    elif k == '/':
        da, db = D(e[1]), D(e[2])
        r = sub(div(da, e[2]), div(mul(e[1], db), mul(e[2], e[2]))) if db != ZERO else div(da, e[2])
    else:
        n, a = e[1], e[2]
        da = [D(y) for y in a]
        if all(d == ZERO for d in da): r = ZERO
        elif rules and (rr := rules(e, da)) is not None: r = rr
        elif n == 'sqrt': r = div(da[0], mul(TWO, e))
        elif n == 'exp': r = mul(da[0], e)
        elif n == 'log': r = div(da[0], a[0])
        elif n == 'sin': r = mul(da[0], fn('cos', a[0]))
        elif n == 'cos': r = neg(mul(da[0], fn('sin', a[0])))
        elif n == 'fabs': r = div(mul(a[0], da[0]), e)
        elif n == 'pow': r = add(mul(da[0], mul(a[1], div(e, a[0]))), mul(da[1], mul(e, fn('log', a[0]))))
        elif n == 'atan2':
            r = div(sub(mul(a[1], da[0]), mul(a[0], da[1])), add(sq(a[0]), sq(a[1])))
        else: raise Opaque('derivative of ' + n)
    memo[e] = r
    return r


def subst(e, m, memo=None):
    if memo is None: memo = {}
    if e in memo: return memo[e]
    if e in m: r = m[e]
    elif e[0] in ('c', 'v'): r = e
    elif e[0] == '+': r = add(subst(e[1], m, memo), subst(e[2], m, memo))
    elif e[0] == '*': r = mul(subst(e[1], m, memo), subst(e[2], m, memo))
    elif e[0] == '/': r = div(subst(e[1], m, memo), subst(e[2], m, memo))
    elif e[0] == 'neg': r = neg(subst(e[1], m, memo))
    else: r = mk('fn', e[1], tuple(subst(y, m, memo) for y in e[2]))
    memo[e] = r
    return r


def size(e, seen=None):
    if seen is None: seen = set()
    if e in seen: return 0
    seen.add(e)
    if e[0] in ('c', 'v'): return 1
    if e[0] == 'fn': return 1 + sum(size(y, seen) for y in e[2])
    return 1 + sum(size(y, seen) for y in e.t[1:])


def variables(e, out=None, seen=None):
    if out is None: out = set(); seen = set()
    if e in seen: return out
    seen.add(e)
    if e[0] == 'v': out.add(e)
    elif e[0] == 'fn':
        for y in e[2]: variables(y, out, seen)
    elif e[0] != 'c':
        for y in e.t[1:]: variables(y, out, seen)
    return out


# ---------------------------------------------------------------- values at generic points
def _rnd(key, lo=0.35, hi=1.65):
    h = int(hashlib.sha256(repr(key).encode()).hexdigest()[:24], 16)
    return mp.mpf(lo) + (mp.mpf(hi) - mp.mpf(lo)) * h / mp.mpf(16) ** 24


class Point:
    """a named assignment; quantities it does not mention get generic values"""

    def __init__(self, name, env): self.name = name; self.env = env

    def __repr__(self): return 'pt%s' % self.name

    def get(self, n):
        if n in self.env:
            v = self.env[n]
            return _rnd((self.name, n), *v) if isinstance(v, tuple) else mp.mpf(v)
        return _rnd((self.name, n))


def value(e, p, memo=None):
    if memo is None: memo = {}
    if e in memo: return memo[e]
    k = e[0]
    if k == 'c': r = mp.mpf(e[1].numerator) / e[1].denominator
    elif k == 'v': r = p.get(e[1]) if isinstance(p, Point) else _rnd((p, e[1]))
    elif k == '+': r = value(e[1], p, memo) + value(e[2], p, memo)
    elif k == '*': r = value(e[1], p, memo) * value(e[2], p, memo)
    elif k == 'neg': r = -value(e[1], p, memo)
    elif k == '/':
        d = value(e[2], p, memo)
        if d == 0: raise Opaque('division by zero')
        r = value(e[1], p, memo) / d
    else:
        n = e[1]; a = [value(y, p, memo) for y in e[2]]
        if n == 'sqrt': r = mp.sqrt(a[0])
        elif n == 'fabs': r = abs(a[0])
        elif n in ('exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos'): r = getattr(mp, n)(a[0])
        elif n == 'atan2': r = mp.atan2(a[0], a[1])
        elif n == 'pow': r = mp.power(a[0], a[1])
        elif n == 'expm1': r = mp.expm1(a[0])
        elif n == 'log1p': r = mp.log1p(a[0])
        elif n == 'cbrt': r = mp.cbrt(a[0])
        elif n in ('min', 'max', 'fmin', 'fmax') and len(a) == 2: r = min(a) if 'min' in n else max(a)
        elif n in ('gsl_sf_bessel_J0', 'j0'): r = mp.besselj(0, a[0])
        elif n == 'gsl_sf_expint_E1': r = mp.e1(a[0])
        else: r = _rnd(('fn', n, repr(p), tuple(mp.nstr(x, 20) for x in a)))
    memo[e] = r
    return r


def mag(e, p, memo):
    """magnitude scale of the summands of e"""
    if e[0] == '+': return mag(e[1], p, memo) + mag(e[2], p, memo)
    if e[0] == 'neg': return mag(e[1], p, memo)
    return abs(value(e, p, memo))


def differ(a, b, tol=1e-9, points=None):
    """a generic point at which the formulas have different values, or None"""
    for p in points or range(NPTS):
        memo = {}
        x, y = value(a, p, memo), value(b, p, memo)
        s = mag(a, p, memo) + mag(b, p, memo)
        if abs(x - y) > tol * s and abs(x - y) > 1e-25: return p, x, y
    return None


# ---------------------------------------------------------------- normal form
class Big(Exception): pass


BUDGET = [0]


def pm(a, b):
    BUDGET[0] -= len(a) * len(b)
    if BUDGET[0] < 0: raise Big()
    d = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            e = dict(k1)
            for t, q in k2: e[t] = e.get(t, 0) + q
            k = tuple(sorted(e.items())); d[k] = d.get(k, 0) + v1 * v2
    return {k: v for k, v in d.items() if v}


def pa(a, b):
    d = dict(a)
    for k, v in b.items(): d[k] = d.get(k, 0) + v
    return {k: v for k, v in d.items() if v}


class Normal:
    """rational normal form over interned atoms"""

    def __init__(self): self.atoms = []; self.rel = {}; self.memo = {}; self.keys = {}

    def atom(self, e):
        if e[0] == 'fn':
            key = (e[1], tuple(tuple(mp.nstr(value(y, p), 20) for y in e[2]) for p in range(NPTS)))
        else: key = e
        if key not in self.keys:
            i = len(self.atoms); self.keys[key] = i; self.atoms.append(e)
            if e[0] == 'fn' and e[1] == 'sqrt': self.rel[i] = e[2][0]
            elif e[0] == 'fn' and e[1] == 'fabs': self.rel[i] = sq(e[2][0])
        return {((self.keys[key], 1),): Fraction(1)}

    def rat(self, e):
        if e in self.memo: return self.memo[e]
        k = e[0]
        one = {(): Fraction(1)}
        if k == 'c': r = ({(): e[1]} if e[1] else {}, one)
        elif k in ('v', 'fn'): r = (self.atom(e), one)
        elif k == 'neg': n, d = self.rat(e[1]); r = ({q: -v for q, v in n.items()}, d)
        else:
            (n1, d1), (n2, d2) = self.rat(e[1]), self.rat(e[2])
            if k == '+': r = (pa(n1, n2), d1) if d1 == d2 else (pa(pm(n1, d2), pm(n2, d1)), pm(d1, d2))
            elif k == '*': r = (pm(n1, n2), pm(d1, d2))
            else: r = (pm(n1, d2), pm(d1, n2))
            r = self.strip(*r)
        self.memo[e] = r
        return r

    def strip(self, n, d):
        """cancel common monomial factors"""
        if not n: return {}, {(): Fraction(1)}
        com = None
        for k in list(n) + list(d):
            e = dict(k); com = e if com is None else {t: min(q, e.get(t, 0)) for t, q in com.items() if e.get(t, 0)}
            if not com: break
        def cut(x): return {tuple((t, q - com.get(t, 0)) for t, q in k if q - com.get(t, 0)): v for k, v in x.items()}
        if com: n, d = cut(n), cut(d)
        return n, d

    def zero(self, e, rounds=12):
        """is the formula identically zero by normal form?"""
        BUDGET[0] = 60000
        try:
            n, _ = self.rat(e)
            for _ in range(rounds):
                i = max((t for k in n for t, q in k if t in self.rel and q >= 2), default=None)
                if i is None: break
                un, ud = self.rat(self.rel[i])
                top = max(dict(k).get(i, 0) // 2 for k in n)
                out = {}
                for k, v in n.items():
                    q = dict(k).get(i, 0); h = q // 2
                    f = {tuple((t, x if t != i else q % 2) for t, x in k if t != i or q % 2): v}
                    for _ in range(h): f = pm(f, un)
                    for _ in range(top - h): f = pm(f, ud)
                    for kk, vv in f.items(): out[kk] = out.get(kk, 0) + vv
                n = {k: v for k, v in out.items() if v}
            return not n
        except (Big, Opaque): return False


def equal(a, b, points=None):
    """('yes', how) | ('no', witness) | ('?', why)"""
    try: w = differ(a, b, points=points)
    except (Opaque, ZeroDivisionError, ValueError, OverflowError) as ex: return '?', str(ex)
    if w: return 'no', 'at a generic point it is %s where %s is expected' % (mp.nstr(w[1], 8), mp.nstr(w[2], 8))
    if Normal().zero(sub(a, b)): return 'yes', 'normal form'
    return 'yes', 'agreement at generic points to many digits'


# ---------------------------------------------------------------- signs
def sign(e, positive, norm=None):
    """sign of e when every variable in `positive' is > 0: 1, -1, 0 or None"""
    N = norm or Normal(); BUDGET[0] = 60000
    try: n, d = N.rat(e)
    except (Big, Opaque): return None
    pos = {N.keys[v] for v in positive if v in N.keys}

    def s(p):
        if not p: return 0
        r = set()
        for k, v in p.items():
            if any(t not in pos and q % 2 for t, q in k): return None
            if any(t not in pos for t, q in k): return None
            r.add(1 if v > 0 else -1)
        return r.pop() if len(r) == 1 else None
    a, b = s(n), s(d)
    if a == 0: return 0
    return a * b if a is not None and b is not None else None


def show(e, depth=0):
    if e[0] == 'c': return str(float(e[1])) if e[1].denominator != 1 else str(e[1])
    if e[0] == 'v': return str(e[1])
    if depth > 7: return '...'
    if e[0] == 'neg': return '-' + show(e[1], depth + 1)
    if e[0] == 'fn': return '%s(%s)' % (e[1], ', '.join(show(y, depth + 1) for y in e[2]))
    return '(%s %s %s)' % (show(e[1], depth + 1), e[0], show(e[2], depth + 1))
