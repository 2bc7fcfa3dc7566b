"""Loops, trip counts and element-by-element copies, on top of the abstract interpreter."""
from fractions import Fraction
from absint import Poly, base_off, fmt


def natural(fn):
    """header -> blocks of the loop"""
    if hasattr(fn, '_loops'): return fn._loops
    P = fn.preds(); idom = fn.dominators(); out = {}

    def dom(a, b):
        while True:
            if a == b: return True
            n = idom.get(b)
            if n is None or n == b: return False
            b = n
    for b in fn.blocks:
        if b not in idom: continue
        for s in fn.blocks[b].succs:
            if dom(s, b):
                body = out.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += P[x]
    fn._loops = out
    return out


CONJ = {'ult': 'lt', 'slt': 'lt', 'ule': 'le', 'sle': 'le', 'ugt': 'gt', 'sgt': 'gt', 'uge': 'ge', 'sge': 'ge', 'ne': 'ne', 'eq': 'eq'}
NEGP = {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le', 'ne': 'eq', 'eq': 'ne'}


def bounds(ai, h):
    """[(iterations Poly, exact?)] for the normal exits of loop h; None entries: an exit that could not be read.
    An exit taken to a block that cannot reach a return (throw) is ignored."""
    fn = ai.fn; body = natural(fn).get(h)
    if not body: return [None]
    rr = can_return(ai)
    out = []
    it = ('it', h)
    for b in body:
        if b not in ai.reached: continue
        for s in fn.blocks[b].succs:
            if s in body or (b, s) not in ai.edges or s not in rr: continue
            t = fn.blocks[b].insts[-1]
            if t.op != 'br' or not t.ops: out.append(None); continue
            conds = ai.opv(t.ops[0])
            if len(conds) != 1: out.append(None); continue
            c = next(iter(conds))
            stay = t.d['s'][0] != s
            neg = not stay
            while c[0] == 'not': c = c[1]; neg = not neg
            if c[0] != 'cmp' or c[1] not in CONJ: out.append(None); continue
            p = CONJ[c[1]]
            if neg: p = NEGP[p]
            # loop continues while  lhs p rhs
            d = ai.expand(c[2]) - ai.expand(c[3])
            co = Fraction(0); rest = {}
            bad = False
            for k, v in d.m.items():
                if k == ((it, 1),): co = v
                elif any(x == it for x, _ in k): bad = True
                else: rest[k] = v
            if bad or co == 0: out.append(None); continue
            n = Poly({k: -v / co for k, v in rest.items()})
            if co < 0: p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
            # it p n
            if p == 'lt' or p == 'ne': out.append(n)
            elif p == 'le': out.append(n + Poly.const(Fraction(1)))
            else: out.append(None)
    return out or [None]


def can_return(ai):
    """blocks from which a return is reachable along analysed edges"""
    if hasattr(ai, '_rr'): return ai._rr
    pre = {}
    for a, b in ai.edges: pre.setdefault(b, []).append(a)
    st = [b for b in ai.reached if ai.fn.blocks[b].insts[-1].op == 'ret']; seen = set(st)
    while st:
        for a in pre.get(st.pop(), []):
            if a not in seen: seen.add(a); st.append(a)
    ai._rr = seen
    return seen


def its(p):
    return {t for k in p.m for t, _ in k if t[0] == 'it'}


def isc(p):
    """constant value of the polynomial or None"""
    if not p.m: return Fraction(0)
    if list(p.m) == [()]: return p.m[()]
    return None


class Ref:
    """address of an array element: base array, optional row index (via a table of row pointers), byte offset"""
    def __init__(self, base, row, off):
        self.base = base; self.row = row; self.off = off

    def __repr__(self):
        return 'Ref(%s,%s,%s)' % (self.base, self.row, self.off)


def ref(ai, addr, bases):
    """decompose an address into an element of one of the base terms (set), directly or through a row table"""
    p = ai.expand(addr)
    for k in list(p.m):
        if len(k) == 1 and k[0][1] == 1 and p.m[k] == 1:
            t = k[0][0]
            rest = p - Poly.atom(t)
            if t in bases: return Ref(t, None, rest)
            if t[0] == 'ld':
                q = ai.expand(t[1])
                for k2 in q.m:
                    if len(k2) == 1 and k2[0][1] == 1 and q.m[k2] == 1 and k2[0][0] in bases:
                        return Ref(k2[0][0], q - Poly.atom(k2[0][0]), rest)
    return None


def strip_casts(t):
    ops = []
    while t[0] == 'cast': ops.append(t[1]); t = t[2]
    return t, ops


def pf(p):
    if not p.m: return '0'
    def nm(t):
        return str(t[1]) if t[0] in ('sym', 'it') else fmt(t)
    return ' + '.join(('%s*' % v if v != 1 or not k else '') + '*'.join(nm(t) + ('^%s' % e if e != 1 else '') for t, e in k) for k, v in p.m.items()).replace('* ', ' ').rstrip('*')
