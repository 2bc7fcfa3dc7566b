"""Shared: evaluate the witness functions of the linear-algebra templates as polynomials of their inputs."""
import re
from fractions import Fraction
from absint import AbsInt, Poly, padd, to_poly, fmt, base_off


def canon(t):
    """term -> Poly, with sqrt arguments canonicalised"""
    def sub(x):
        if x[0] == 'pure' and x[1] in ('sqrt', 'fabs'):
            return Poly.atom((x[1], canon(x[2][0]).key()))
        if x[0] == 'pure' and x[1] == 'fmuladd':
            return canon(x[2][0]) * canon(x[2][1]) + canon(x[2][2])
        if x[0] == 'cast': return canon(x[2])
        return None
    return to_poly(t, sub)


def atoms(p):
    out = set()
    for k in p.m:
        for t, _ in k:
            if t[0] in ('sqrt', 'fabs', 'inv'):
                for k2, _v in t[1]:
                    for t2, _e in k2: out.add(t2)
            else: out.add(t)
    return out


class W:
    def __init__(self, fn):
        self.fn = fn
        self.ai = AbsInt(fn, eh=False)
        self.a = lambda k: Poly.atom(('ld', padd(('arg', 0), 8 * k)))
        self.b = lambda k: Poly.atom(('ld', padd(('arg', 1), 8 * k)))
        self.s = Poly.atom(('arg', 2))
        self.mems = [self.ai.mem_at(fn.insts[r]) for r in self.ai.rets if fn.insts[r].blk.id in self.ai.reached]

    def outs(self, arg, k):
        r = set()
        for m in self.mems:
            ad = padd(('arg', arg), 8 * k)
            if ad not in m.c: r.add(None); continue
            r |= set(m.c[ad])
        return r

    def check(self, arg, k, want):
        """-> ('ok'|'bad'|'und', text)"""
        o = self.outs(arg, k)
        if not o: return 'und', 'no return reached'
        res = 'ok'
        for t in o:
            if t is None: return 'und', 'element not written'
            if t == ('undef',): return 'bad', 'element is uninitialised'
            p = canon(t)
            if p == want: continue
            if p.close(want, 1e-13): continue
            ats = atoms(p)
            if all(x[0] in ('arg', 'undef') or (x[0] == 'ld' and base_off(x[1])[0][0] == 'arg' and not base_off(x[1])[2]) for x in ats):
                return 'bad', 'computes %s' % fmt(t, self.fn)[:160]
            res = 'und'
        return res, 'not resolved'


def sqrtp(p): return Poly.atom(('sqrt', p.key()))


def run_family(ctx, m, prefix_re, expect, kind):
    """expect(name, dims) -> list of (arg, k, Poly-builder(w)) or None"""
    n = 0
    for fn in m.find(r'^w_'):
        mm = re.match(r'w_([a-z0-9]+)_(\d+(?:_\d+)?)\(', fn.dem)
        if not mm: continue
        name = mm.group(1); dims = [int(x) for x in mm.group(2).split('_')]
        w = W(fn)
        exp = expect(name, dims, w)
        if exp is None: continue
        n += 1
        key = '%s:%s<%s>' % (kind, name, ','.join(map(str, dims)))
        bad = und = None
        for (arg, k, want, what) in exp:
            r, t = w.check(arg, k, want)
            if r == 'bad': bad = '%s: %s' % (what, t); break
            if r == 'und': und = '%s: %s' % (what, t)
        if bad: ctx.bad(key, srcloc(fn, w), 'operation "%s" on %s of size %s: %s' % (name, kind, 'x'.join(map(str, dims)), bad), fn)
        elif und: ctx.undecided(key, und, fn)
        else: ctx.ok(key, fn)
    return n


def srcloc(fn, w):
    """first instruction coming from the library template"""
    locs = {}
    for i in w.ai.reached_insts():
        if i.file.startswith(fn.mod.repo):
            locs[i.loc()] = locs.get(i.loc(), 0) + 1
    ar = [l for l in locs if '.tcc' in l]
    return ar[0] if ar else fn.loc()
