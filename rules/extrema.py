"""Running minima and maxima over arrays: decided on one iteration of the loop, from every order of the element and the values carried."""
import itertools
from fractions import Fraction
from absint import AbsInt, Poly, base_off, fmt, mkptr
from part import Part
import loops

VEC_AT = ('std::vector<double', '::operator[](unsigned long)')


def callhook(inst, dem, args, mem, ai):
    """std::vector<double> as an array; std::min/max choose a reference"""
    if dem.startswith('std::vector<double') and ('::operator[](' in dem or '::at(' in dem) and len(args) >= 2:
        out = set()
        for v in args[0]:
            for i in args[1]: out.add(mkptr(('vec', v), 8 * i[1]) if i[0] == 'i' else mkptr(('vec', v), 0, ((i, 8),)))
        return frozenset(out)
    h = dem.split('(')[0]
    for w in ('max', 'min'):
        if 'std::%s<double>' % w in h and len(args) == 2:
            out = set()
            for p in args[0]:
                for q in args[1]:
                    for a in ai.load(mem, p, 'double'):
                        for b in ai.load(mem, q, 'double'):
                            r = ai.compare('olt', a, b)
                            if r == ('i', 0): out.add(p if w == 'max' else q if ai.compare('olt', b, a) == ('i', -1) else p)
                            elif r == ('i', -1): out.add(q if w == 'max' else p)
                            else: out |= {p, q}
            return frozenset(out)
    return None


def top_loops(fn, ai):
    nat = loops.natural(fn)
    order = {b: i for i, b in enumerate(fn.rpo())}
    return sorted([h for h in nat if h in ai.reached and not any(h in nat[k] and k != h for k in nat)], key=lambda h: order[h])


def header_phis(fn, h): return [i for i in fn.blocks[h].insts if i.op == 'phi']


def entry_value(fn, ai, h, T):
    """values of a loop-carried location when the loop is entered"""
    body = loops.natural(fn)[h]; out = set()
    for p in fn.preds()[h]:
        if p in body or (p, h) not in ai.edges: continue
        if T[0] == 'hv':
            i = fn.insts[T[1]]
            for v, pb in zip(i.ops, i.d['pb']):
                if pb == p: out |= ai.opv(v)
        else:
            t = fn.blocks[p].insts[-1]; mem = ai.mem_at(t); ai.step(t, mem)
            out |= ai.load(mem, T[1], 'double')
    return out


def exit_target(fn, ai, h):
    """(block control reaches when the loop ends normally) if the header alone decides that"""
    body = loops.natural(fn)[h]; rr = loops.can_return(ai)
    ex = {(b, s) for b in body if b in ai.reached for s in fn.blocks[b].succs if s not in body and (b, s) in ai.edges and s in rr}
    if len(ex) == 1:
        b, s = ex.pop()
        if b == h: return s
    return None


def after(fn, ai, h, **kw):
    s = exit_target(fn, ai, h)
    if s is None: return None
    env = {p.id: frozenset([('hv', p.id)]) for p in header_phis(fn, h)}
    return Part(fn, s, (), outer=ai, env=env, eh=False, **kw)


def index_of(part, ai, t, elem):
    """(array name, offset polynomial) of an element load"""
    if t[0] != 'ld': return None
    b, o, var = base_off(t[1])
    nm = elem(b)
    if nm is None: return None
    p = Poly.const(Fraction(o, 8))
    for y, sc in var: p = p + part.expand(y) * Poly.const(Fraction(sc, 8))
    return nm, p


def induction(fn, ai, h, p):
    """(start, offset) when the index is  start + iteration, else None"""
    its = [k for k in p.m if k != ()]
    if len(its) != 1 or p.m[its[0]] != 1 or len(its[0]) != 1 or its[0][0][1] != 1: return None
    a = its[0][0][0]
    if a[0] != 'hv': return None
    af = ai.affine(a[1])
    if af is None or af[2] != h or af[1] != ('i', 1): return None
    return ai.expand(af[0]) + Poly.const(p.m.get((), Fraction(0)))


def reduce(fn, ai, h, quads, elem, kw):
    """quads: [(array name, T of the minimum, T of the maximum)].  -> list of (verdict, kind, why), start index per array"""
    body = loops.natural(fn)[h]
    res = {}; starts = {}
    arrs = [q[0] for q in quads]
    cases = []
    for lo, hi in ((0, 2), (1, 1)):
        for e in sorted({lo - 1, lo, (lo + hi) / 2, hi, hi + 1}): cases.append((lo, hi, e))
    for combo in itertools.product(cases, repeat=len(quads)):
        for offs in itertools.permutations([0, 50][:len(quads)]) if len(quads) > 1 else [(0,)]:
            rank = {}
            el = {}
            for (nm, tn, tx), (lo, hi, e), d in zip(quads, combo, offs):
                rank[tn] = lo + d; rank[tx] = hi + d; el[nm] = e + d
            seen = {}
            part = None

            def r(t):
                if t in rank: return rank[t]
                x = index_of(part_ref[0], ai, t, elem)
                if x and x[0] in el:
                    s = induction(fn, ai, h, x[1])
                    if s is None: return None
                    seen.setdefault(x[0], set()).add(s)
                    return el[x[0]]
                return None

            def cmp(pred, a, b):
                x, y = r(a), r(b)
                if x is None or y is None: return None
                if pred in ('ord', 'uno'): return pred == 'ord'
                q = pred[1:] if pred[0] in 'ou' else pred
                return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(q)
            part_ref = [None]

            class P(Part):
                def run(self):
                    part_ref[0] = self
                    super().run()
            part = P(fn, h, (), outer=ai, blocks=body, cmp=cmp, callhook=callhook, eh=False, **kw)
            back = part.out(h)
            for (nm, tn, tx), (lo, hi, e), d in zip(quads, combo, offs):
                for kind, T, want in (('minimum', tn, min(lo, e)), ('maximum', tx, max(hi, e))):
                    got = set()
                    for x in back:
                        if T[0] == 'hv': got |= x.phi(fn.insts[T[1]])
                        else: got |= x.cell(T[1])
                    rs = {r(t) for t in got}
                    k = (nm, kind)
                    if not back: res.setdefault(k, []).append(('?', 'no further iteration')); continue
                    where = 'when an element is %s' % ('below the minimum so far' if e < lo else 'above the maximum so far' if e > hi else 'between the extremes so far')
                    if rs == {want + d}: res.setdefault(k, []).append(('yes', ''))
                    elif None in rs or len(rs) != 1: res.setdefault(k, []).append(('?', '%s the %s becomes %s' % (where, kind, ' or '.join(sorted(fmt(t) for t in got))[:200])))
                    else: res.setdefault(k, []).append(('no', '%s, the %s becomes %s' % (where, kind, ' or '.join(sorted(fmt(t) for t in got))[:120])))
            for a, s in seen.items(): starts.setdefault(a, set()).update(s)
    return res, starts
