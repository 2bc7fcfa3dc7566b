"""Clones of tabulated distributions on finite instances: which tables, limits and flags the clone gets."""
import itertools, re
import alg
from alg import V
from px import Limit
from c04 import fin
from c20 import adr
from distinit import DF, MS, KEEP, ONLY, ALGO, Init, table, same, interpolated


class Clone(Init):
    def initial(self, a, ty):
        r = Init.initial(self, a, ty)
        if r is not None: return r
        b, o = self.split_ptr(a)
        if b[0] == 't' and b[1] == 'obj' and o == 0: return ('t', 'vt', b[2])
        if b[0] == 't' and b[1] == 'vt': return ('vf', ('t', 'obj', b[2]), o)
        return None

    def copy(self, st, o): return [(('t', 'clone', o[2]), st, None, None)]

    def virtual(self, st, I, obj, slot, args, mem):
        sl = self.m.vts.get(MS) or []
        nm = sl[slot // 8] if slot % 8 == 0 and slot // 8 < len(sl) else None
        if obj[1] == 'obj' and len(args) == 1 and isinstance(nm, str) and '::MinClone()' in self.m.dem(nm): return self.copy(st, obj)
        return None

    def opaque(self, st, I, dem, args, mem):
        if re.search(r'::MinClone\(\)$', dem) and args and args[0] and args[0][:2] == ('t', 'obj'): return self.copy(st, args[0])
        return Init.opaque(self, st, I, dem, args, mem)


def attempt(m, f, tabs, pt, cells, vecs, und):
    try: return Clone(m, f, {}, tabs, alg.Point('c', pt), cells, vecs)
    except Limit: und.append('too many states'); return None


def run(ctx):
    m = ctx.module('--keep', KEEP + r'|MomentumSpaceDistributionFunction::MinClone\(\)', '--inline', ALGO, '--only', ONLY)
    for cls, go in ((MS, momentum), (DF, radial)):
        fs = [f for f in m.method(cls, 'MinClone') if not f.suf]
        if cls not in m.classes or len(fs) != 1: continue
        go(ctx, m, fs[0])


def results(w, f, where, probs, und):
    if w is None: return
    for b in w.bad: probs.append((f.loc(), '%s: %s' % (where, b)))
    und += w.unk
    if not w.out:
        if w.exc: probs.append((w.exc[0][1].loc(), '%s: no clone is made' % where))
        else: und.append(where + ': no outcome')
    for st, I, v, mem in w.out:
        if v is None or v[0] not in ('h', 'p'): und.append(where + ': object returned not known'); continue
        yield st, v, mem


def flag(w, mem, a, want, ty, txt, f, probs, und):
    v = w.read(mem, a, ty)
    if v is None or v[0] != 'i': und.append(txt + ' not known')
    elif bool(v[1]) != bool(want) if ty == 'i8' else v[1] != want: probs.append((f.loc(), '%s is %d instead of %d' % (txt, v[1], want)))


def off(m, cls, names):
    o = {n: m.field_off(cls, n) for n in names}
    return o


def radial(ctx, m, f):
    o = off(m, DF, ('r', 'msdf', 'rmin', 'rmax', 'allowExtrapolation', 'logarithmic'))
    if None in o.values(): return
    for n in (1, 2, 3):
        probs, und = [], []
        for desc, ex, lg in itertools.product((0, 1), repeat=3):
            rs = [1.0 + 0.75 * k for k in range(n)]
            if desc: rs = rs[::-1]
            r = table('r', n)
            cells = {adr(o['rmin']): r[-1 if desc else 0], adr(o['rmax']): r[0 if desc else -1], adr(o['allowExtrapolation']): ('i', ex), adr(o['logarithmic']): ('i', lg)}
            it = m.field_off(DF, 'interptype')
            if it is not None: cells[adr(it)] = ('i', 1)
            vecs = {adr(o['r']): ('vc', r), adr(o['msdf']): ('vc', tuple(('t', 'obj', k) for k in range(n)))}
            w = attempt(m, f, {}, {'r%d' % k: x for k, x in enumerate(rs)}, cells, vecs, und)
            where = '%d radii%s' % (n, ' (decreasing)' if desc else '')
            for st, v, mem in results(w, f, where, probs, und):
                c, d = mem.get(('vec', w.addr(v, o['r']))), mem.get(('vec', w.addr(v, o['msdf'])))
                if c is None or d is None: und.append(where + ': radii or tables of the clone not known'); continue
                if len(c[1]) != n or False in [same(a, b) for a, b in zip(c[1], r)]: probs.append((f.loc(), where + ': the radii of the clone are not those of the original'))
                if len(d[1]) != n: probs.append((f.loc(), '%s: the clone has %d tables' % (where, len(d[1]))))
                else:
                    for k, x in enumerate(d[1]):
                        if x is None or x == ('?',): und.append(where + ': table of the clone not known')
                        elif x not in (('t', 'clone', k), ('t', 'obj', k)): probs.append((f.loc(), '%s: the clone does not have the table of radius %d' % (where, k)))
                for nm in ('rmin', 'rmax'):
                    q = same(w.read(mem, w.addr(v, o[nm]), 'double'), cells[adr(o[nm])])
                    if q is False: probs.append((f.loc(), '%s: %s of the clone is another than that of the original' % (where, nm)))
                    elif q is None: und.append('%s: %s of the clone not known' % (where, nm))
                flag(w, mem, w.addr(v, o['allowExtrapolation']), ex, 'i8', where + ': allowExtrapolation of the clone', f, probs, und)
                flag(w, mem, w.addr(v, o['logarithmic']), lg, 'i8', where + ': logarithmic of the clone', f, probs, und)
        fin(ctx, '%s.MinClone.%d' % (DF, n), DF + '::MinClone', f, uniq(probs), sorted(set(und))[:3])


METHOD = {0: 'gsl_interp2d_bilinear', 1: 'gsl_interp2d_bicubic'}


def momentum(ctx, m, f):
    o = off(m, MS, ('np', 'nxi', 'p', 'xi', 'f', 'logarithmic', 'flipPitchSign', 'interptype', 'fspline', 'pmin', 'pmax', 'ximin', 'ximax'))
    if None in o.values(): return
    probs, und = [], []
    for np, nxi, lg, fl, it in itertools.product((2, 3), (2, 4), (0, 1), (0, 1), (0, 1)):
        tabs = {'p': table('p', np), 'xi': table('xi', nxi), 'f': table('f', np * nxi)}
        cells = {adr(o['np']): ('i', np), adr(o['nxi']): ('i', nxi), adr(o['logarithmic']): ('i', lg), adr(o['flipPitchSign']): ('i', fl), adr(o['interptype']): ('i', it)}
        for t in tabs: cells[adr(o[t])] = ('t', t)
        lim = {'pmin': tabs['p'][0], 'pmax': tabs['p'][-1], 'ximin': tabs['xi'][0], 'ximax': tabs['xi'][-1]}
        for t, x in lim.items(): cells[adr(o[t])] = x
        pt = {'p%d' % k: 1.0 + k for k in range(np)}; pt.update({'xi%d' % k: -0.5 + k / 4 for k in range(nxi)}); pt.update({'f%d' % k: 2.0 + k / 8 for k in range(np * nxi)})
        w = attempt(m, f, tabs, pt, cells, {}, und)
        where = 'table of %s%s, method %d' % ('logarithms' if lg else 'values', ', pitch sign flipped' if fl else '', it)
        for st, v, mem in results(w, f, where, probs, und):
            flag(w, mem, w.addr(v, o['logarithmic']), lg, 'i8', where + ': logarithmic of the clone', f, probs, und)
            flag(w, mem, w.addr(v, o['flipPitchSign']), fl, 'i8', where + ': flipPitchSign of the clone', f, probs, und)
            for t, x in lim.items():
                q = same(w.read(mem, w.addr(v, o[t]), 'double'), x)
                if q is False: probs.append((f.loc(), '%s: %s of the clone is another than that of the original' % (where, t)))
                elif q is None: und.append('%s: %s of the clone not known' % (where, t))
            s = w.read(mem, w.addr(v, o['fspline']), 'ptr')
            ini, al = interpolated(st, s)
            if s is None: und.append(where + ': interpolation object not known'); continue
            if ini is None: probs.append((f.loc(), where + ': the clone has no initialised interpolation object')); continue
            if al is not None and al[2] is not None and al[2][:2] == ('t', 'type') and al[2][2] != METHOD[it]: probs.append((ini[5], '%s: the clone interpolates with %s' % (where, al[2][2])))
            for nm, got, exp in zip(('momentum grid', 'pitch grid', 'table'), ini[2:5], (tabs['p'], tabs['xi'], tabs['f'])):
                if got is None or None in got: und.append('%s: %s of the clone not known' % (where, nm)); continue
                r = [same(a, b) for a, b in zip(got, exp)] if len(got) == len(exp) else [False]
                if False in r: probs.append((ini[5], '%s: the clone gets another %s' % (where, nm)))
                elif None in r: und.append('%s: %s of the clone not decided' % (where, nm))
    fin(ctx, MS + '.MinClone', MS + '::MinClone', f, uniq(probs), sorted(set(und))[:3])


def uniq(probs):
    out = {}
    for l, t in probs: out.setdefault(t, (l, t))
    return list(out.values())[:4]
