"""Which elements of the loaded tables a loader touches, for representative table sizes.

Iterations of counting loops are enumerated (the sizes are small numbers), each one kept only if the branch conditions
that dominate the access can hold in it; the address polynomial is evaluated for each."""
import itertools
from fractions import Fraction
from absint import Poly, base_off, fmt
from numev import Num, Unknown, Undefined
import loops


class Eval:
    def __init__(self, ai, md, extra=None):
        self.ai = ai; self.md = md; self.env = {}; self.extra = extra; self.dc = {}

    def atom(self, t):
        if t in self.env: return self.env[t]
        r = self.md.leaf(t)
        if r is not None and not isinstance(r, tuple): return r
        if self.extra:
            r = self.extra(t)
            if r is not None: return r
        n = Num(lambda x: self.env.get(x, self.md.leaf(x)), self.md.load)
        try: r = n(t)
        except Undefined: raise Unknown('undefined')
        if isinstance(r, tuple): raise Unknown('pointer')
        return r

    def poly(self, p):
        r = Fraction(0)
        for k, v in p.m.items():
            q = v
            for t, e in k:
                x = self.atom(t)
                if x != x or x in (float('inf'), float('-inf')): raise Unknown('value')
                q *= Fraction(x) ** e
            r += q
        return r

    def term(self, t): return self.poly(self.ai.expand(t))

    def its(self, p, seen=None):
        return loops.its(p)

    def doms(self, b):
        """branch conditions that hold whenever block b is entered: [(cond term, wanted truth, block)]"""
        if b in self.dc: return self.dc[b]
        fn = self.ai.fn; idom = fn.dominators(); P = fn.preds(); out = []
        x = b
        while True:
            d = idom.get(x)
            if d is None or d == x: break
            t = fn.blocks[d].insts[-1]
            if t.op == 'br' and t.ops and len(t.d['s']) == 2 and t.d['s'][0] != t.d['s'][1] and x in t.d['s'] and \
                    all(p == d or self.domd(x, p, idom) for p in P[x]):
                cs = self.ai.opv(t.ops[0])
                if len(cs) == 1: out.append((next(iter(cs)), t.d['s'][0] == x, d))
            x = d
        self.dc[b] = out
        return out

    def domd(self, a, b, idom):
        while True:
            if a == b: return True
            n = idom.get(b)
            if n is None or n == b: return False
            b = n

    def truth(self, c):
        while c[0] == 'cast': c = c[2]
        if c[0] == 'not':
            r = self.truth(c[1]); return None if r is None else not r
        if c[0] == 'i': return bool(c[1])
        if c[0] == 'cmp':
            try: x, y = self.term(c[2]), self.term(c[3])
            except Unknown: return None
            return Num(None, None).rel(c[1], int(x) if x.denominator == 1 else x, int(y) if y.denominator == 1 else y)
        return None

    def iterations(self, b, its, extra=()):
        """environments of loop iterations in which block b may be entered; raises Unknown if a loop is not understood.
        second value: were all dominating conditions on these loops decided (so each iteration is really entered)"""
        its = set(its)
        nat = loops.natural(self.ai.fn)
        rng = {}
        todo = sorted(its)
        while todo:
            h = todo.pop()
            if h in rng: continue
            bs = [x for x in loops.bounds(self.ai, h[1]) if x is not None]
            if not bs: raise Unknown('loop')
            rng[h] = bs
            for x in bs:
                for g in loops.its(x):
                    if g not in rng and g != h: todo.append(g)
        hs = sorted(rng, key=lambda h: -len(nat.get(h[1], ())))     # outer first
        doms = self.doms(b)

        def rec(k):
            if k == len(hs):
                exact = True
                for c, want, d in doms:
                    r = self.truth(c)
                    if r is None:
                        # a condition on data: both ways possible
                        continue
                    if r != want: return
                yield dict(self.env)
                return
            h = hs[k]
            n = min(int(self.poly(x)) if self.poly(x).denominator == 1 else int(self.poly(x)) + 1 for x in rng[h])
            if n > 2000: raise Unknown('loop of %d' % n)
            for v in range(max(n, 0) + 1):
                if v == n and b in nat.get(h[1], ()) and not self.header_only(h, b): continue
                self.env[h] = v
                yield from rec(k + 1)
            self.env.pop(h, None)
        save = dict(self.env)
        try:
            for e in rec(0): yield e
        finally: self.env = save

    def header_only(self, h, b):
        """block b also runs in the iteration in which the loop is left"""
        nat = loops.natural(self.ai.fn)[h[1]]; idom = self.ai.fn.dominators()
        rr = loops.can_return(self.ai)
        for x in nat:
            if x not in self.ai.reached: continue
            for s in self.ai.fn.blocks[x].succs:
                if s in nat or (x, s) not in self.ai.edges or s not in rr: continue
                if x != b and self.domd(x, b, idom): return False
        return True


class Tables:
    """bases accepted by loops.ref"""
    def __contains__(self, t): return t[0] in ('file', 'new')


def size(ev, base):
    """(level-1 elements, element bytes, columns | None) of a table"""
    md = ev.md
    if base[0] == 'file':
        t = md.tables[base[1]]
        ext = [ev.atom(md.ext(e)) if not isinstance(e, int) else e for e in t]
        if md.kind.get(base[1]) == 'rows':
            if len(ext) == 1: ext = [1] + ext
            return int(ext[0]), 8, int(ext[1])
        n = 1
        for e in ext: n *= int(e)
        return n, 8, None
    i = ev.ai.fn.insts[base[1]]
    if not i.is_call() or not i.ops: raise Unknown('allocation')
    vs = ev.ai.opv(i.ops[0])
    if len(vs) != 1: raise Unknown('size of allocation')
    return int(ev.term(next(iter(vs)))), 1, None


def scan(ai, md, ev, sinks=None, within=None):
    """(problems, undecided, count): accesses outside the tables; within: table -> (first, end) element allowed"""
    probs, und, n = [], [], 0

    def check(i, addr, count, what, width):
        nonlocal n
        r = loops.ref(ai, addr, Tables())
        if r is None: return
        if r.base[0] == 'file' and not isinstance(md.tables.get(r.base[1]), tuple): return
        nm = r.base[1] if r.base[0] == 'file' else 'a copy'
        pol = [r.off] + ([r.row] if r.row is not None else []) + ([count] if count is not None else [])
        hs = set()
        for p in pol: hs |= loops.its(p)
        if r.base[0] == 'new' and r.row is not None: return
        try:
            for e in ev.iterations(i.blk.id, hs):
                ev2 = ev; old = ev.env; ev.env = e
                try:
                    tot, el, cols = size(ev, r.base)
                    off = ev.poly(r.off); c = int(ev.poly(count)) if count is not None else 1
                    if r.base[0] == 'new': lo, hi, lim = off, off + width * c, tot
                    elif cols is None: lo, hi, lim = off, off + 8 * c, tot * 8
                    elif r.row is None: lo, hi, lim = off, off + 8 * c, tot * 8
                    else:
                        row = ev.poly(r.row) / 8
                        if not 0 <= row < tot: lo, hi, lim = row * 8, row * 8 + 8, tot * 8
                        else: lo, hi, lim = row * cols * 8 + off, row * cols * 8 + off + 8 * c, tot * cols * 8
                finally: ev.env = old
                w = within.get(r.base[1]) if within and r.base[0] == 'file' and (cols is None or r.row is not None) else None
                if c > 0 and w and (lo < w[0] * 8 or hi > w[1] * 8) and 0 <= lo and hi <= lim:
                    probs.append((i.loc(), '%s element %s%s of "%s" where the selection is %d..%d' % (what, int(lo // 8), '' if c == 1 else '..%d' % (int(hi // 8) - 1), nm, w[0], w[1] - 1)))
                    break
                if c > 0 and (lo < 0 or hi > lim):
                    probs.append((i.loc(), '%s element %s%s of "%s" which has %d' % (what, int(lo // 8), '' if c == 1 else '..%d' % (int(hi // 8) - 1), nm, lim // 8)))
                    break
            n += 1
        except Unknown as x:
            und.append('%s: %s of "%s": %s' % (i.loc(), what, nm, x))
    for i in list(ai.reached_insts()):
        if i.op in ('load', 'store'):
            for a in ai.ev(i.ops[-1]): check(i, a, None, 'reads' if i.op == 'load' else 'writes', i.d.get('sz') or 8)
        elif i.is_call() and sinks:
            for ptr, cnt, what in sinks(i, ai) or ():
                for a in ai.ev(ptr): check(i, a, cnt, what, 8)
    return probs, und, n


def feasible(ai, ev):
    """reached blocks when a loop that runs at least once can only be left after an iteration"""
    nat = loops.natural(ai.fn); hold = {}
    for h, body in nat.items():
        if h not in ai.reached: continue
        t = ai.fn.blocks[h].insts[-1]
        if t.op != 'br' or not t.ops: continue
        ex = [s for s in t.d['s'] if s not in body]
        if len(ex) != 1: continue
        c = ai.opv(t.ops[0])
        if len(c) != 1: continue
        old = dict(ev.env)
        ev.env[('it', h)] = 0
        for p in ai.fn.blocks[h].insts:       # first iteration: the values from outside
            if p.op != 'phi': break
            vs = set()
            for v, pb in zip(p.ops, p.d['pb']):
                if (pb, h) in ai.edges and pb not in body: vs |= ai.opv(v)
            if len(vs) == 1:
                try: ev.env[('phi', p.id)] = ev.term(next(iter(vs)))
                except Unknown: pass
        try: r = ev.truth(next(iter(c)))
        finally: ev.env = old
        if r is None: continue
        if (t.d['s'][0] in body) == r: hold[(h, ex[0])] = {b for b in body if h in ai.fn.blocks[b].succs}
    seen = {ai.fn.entry}; ch = True
    while ch:
        ch = False
        for a, b in ai.edges:
            if a in seen and b not in seen:
                k = hold.get((a, b))
                if k is not None and not any(x in seen and (x, a) in ai.edges for x in k): continue
                seen.add(b); ch = True
    return seen
