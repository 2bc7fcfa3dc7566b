"""Numeric magnetic fields loaded from model files (finite instances): every element of every member is traced to the element of the
file it came from, whatever loops or helpers move it."""
import itertools, re
import alg
from alg import V
from px import Limit
from small import KEEPVEC, ALGO
from distinit import same
from loader import Load
from c04 import fin

CLS = 'MagneticFieldNumeric2D'
NS, NW = 3, 4


class Field(Load):
    """ver: component -> is its verification vector the right one"""
    def __init__(self, *a, **kw):
        self.ver = kw.pop('ver', {}); self.tr = kw.pop('tr', False); self.dims = kw.pop('dims')
        Load.__init__(self, *a, **kw)

    def element(self, nm, k):
        g = re.match(r'ver(\w+)$', nm)
        if g:
            if self.ver.get(g.group(1)) == k: return ('e', V('other'))
            nr, nz = self.dims
            return ('e', V('%s#%d' % (g.group(1), k * nz if self.tr else k)))
        return Load.element(self, nm, k)

    def opaque(self, st, I, dem, args, mem):
        g = re.match(r'(?:\w+ )?MagneticField2D::(Set\w+)\(', dem)
        if g:
            n = args[3] if len(args) > 3 else None
            k = n[1] if n is not None and n[0] == 'i' and 0 <= n[1] < 20 else None
            rows = [self.row(mem, a, k) if k is not None and a is not None and a[0] != 't' else None for a in args[1:3]]
            return self.one(self.event(st, g.group(1), k, tuple(rows), I.loc(), args[1] if len(args) > 2 else None, args[2] if len(args) > 2 else None))
        if re.match(r'(?:\w+ )?MagneticFieldNumeric2D::InitInterpolation\(', dem): return self.one(st)      # the subject of C12
        return Load.opaque(self, st, I, dem, args, mem)


def module(ctx): return ctx.module('--keep', r'SFile::|Exception::|MagneticField2D::Set|MagneticFieldNumeric2D::(InitInterpolation|Load)|' + KEEPVEC, '--inline', ALGO, '--only', CLS)


def files(nr, nz, tr, flux, out, otr, ver):
    d = (nr, nz) if tr else (nz, nr)
    T = {'name': 'the name', 'desc': 'about it', 'maxis': (2,), 'r': (nr,), 'z': (nz,), 'Br': d, 'Bphi': d, 'Bz': d}
    if flux: T['Psi'] = d
    if 's' in out: T['separatrix'] = (NS, 2) if otr else (2, NS)
    if 'w' in out: T['wall'] = (NW, 2) if otr else (2, NW)
    for c in ver: T['ver' + c] = (nr,)
    return T


def run(ctx, deep=False):
    m = module(ctx)
    fs = [f for f in m.find(r'^MagneticFieldNumeric2D::Load\(.*sfile_type\)', suf='')]
    names = ('Br', 'Bphi', 'Bz', 'Psi', 'R', 'Z', 'rsep', 'zsep', 'rwall', 'zwall', 'nr', 'nz', 'nwall', 'nsep', 'magnetic_axis', 'name', 'description', 'hasFluxCoordinates')
    o = {n: m.field_off(CLS, n) for n in names}
    if len(fs) != 1 or None in o.values(): ctx.undecided('load.instances', 'loader or members not found'); return False
    f = fs[0]
    decided = True
    for (nr, nz), tr, flux, out in itertools.product(((3, 2), (2, 3), (2, 2)), (False, True), (True, False), ('s', 'w', 'sw')):
        if nr == nz and tr: continue
        probs, und = [], []
        for otr, ver in ((False, ()), (True, ()), (False, ('Br', 'Bphi', 'Bz'))):
            one(m, f, o, nr, nz, tr, flux, out, otr, ver, probs, und)
        key = 'load.instance.%dx%d%s%s.%s' % (nr, nz, '.transposed' if tr else '', '' if flux else '.noflux', out)
        fin(ctx, key, CLS + '::Load', f, uniq(probs), sorted(set(und))[:3])
        decided = decided and not und
    verify(ctx, m, f)
    given(ctx, m, o)
    return decided


def start(m, f, T, tr, dims, und, ver=None):
    pt = {'other': 77.0}
    for k, (n, ex) in enumerate(sorted((n, ex) for n, ex in T.items() if isinstance(ex, tuple))):
        N = 1
        for x in ex: N *= x
        for j in range(N): pt['%s#%d' % (n, j)] = 1.0 + k + j / 32
    try: return Field(m, f, {2: ('i', 1)}, T, alg.Point('f', pt), texts={1: 'f.mat'}, ver=ver or {}, tr=tr, dims=dims)
    except Limit: und.append('too many states'); return None


def verify(ctx, m, f):
    probs, und = [], []
    for (nr, nz), tr in itertools.product(((3, 2), (2, 3)), (False, True)):
        for c in ('Br', 'Bphi', 'Bz'):
            for k, n in [(k, n) for n in (1, nr, nr + 1) for k in range(n)]:
                T = files(nr, nz, tr, True, 's', False, ('Br', 'Bphi', 'Bz'))
                T['ver' + c] = (n,)
                w = start(m, f, T, tr, (nr, nz), und, {c: k})
                if w is None: continue
                und += w.unk
                if w.out: probs.append((f.loc(), 'a file whose %s differs from its verification vector at element %d is accepted' % (c, k)))
                elif not w.exc: und.append('no outcome')
    fin(ctx, 'load.verification', CLS + '::Load', f, uniq(probs), sorted(set(und))[:3])


def one(m, f, o, nr, nz, tr, flux, out, otr, ver, probs, und):
    T = files(nr, nz, tr, flux, out, otr, ver)
    w = start(m, f, T, tr, (nr, nz), und)
    if w is None: return
    where = '%d radii, %d heights%s%s%s%s' % (nr, nz, ' (tables stored with r first)' if tr else '', '' if flux else ', no flux', ', outlines by rows' if otr else '', ', verification vectors' if ver else '')
    for b in w.bad: probs.append((f.loc(), '%s: %s' % (where, b)))
    und += w.unk
    if not w.out and not w.unk:
        if w.exc: probs.append((w.exc[0][1].loc(), '%s: refused' % where))
        else: und.append(where + ': no outcome')
    E = lambda n, k: ('e', V('%s#%d' % (n, k)))
    me = ('arg', max(f.this, 0))
    for st, I, v, mem in w.out:
        def rd(n, ty='ptr', k=0): return w.read(mem, w.addr(me, o[n] + k), ty)

        def cmp(n, want):
            p = rd(n)
            if p is None: und.append('%s: %s not known' % (where, n)); return
            if p == ('i', 0): probs.append((f.loc(), '%s: %s is not set' % (where, n))); return
            got = w.row(mem, p, len(want))
            r = [same(a, b) for a, b in zip(got, want)]
            if False in r: probs.append((f.loc(), '%s: element %d of %s is not the one of the file' % (where, r.index(False), n)))
            elif None in r:
                k = r.index(None); a = w.addr(p, 8 * k); b = w.split_ptr(a)[0]
                if b[0] == 'h' and a not in mem and ('lost', b) not in mem: probs.append((f.loc(), '%s: element %d of %s is never set' % (where, k, n)))
                else: und.append('%s: contents of %s not known' % (where, n))
        for n, x in (('nr', nr), ('nz', nz)) + ((('nsep', NS),) if 's' in out else ()) + ((('nwall', NW),) if 'w' in out else ()):
            v = rd(n, 'i32')
            if v is None or v[0] != 'i': und.append('%s: %s not known' % (where, n))
            elif v[1] != x: probs.append((f.loc(), '%s: %s is %d' % (where, n, v[1])))
        cmp('R', [E('r', k) for k in range(nr)]); cmp('Z', [E('z', k) for k in range(nz)])
        for n in ('Br', 'Bphi', 'Bz') + (('Psi',) if flux else ()):
            cmp(n, [E(n, i * nz + j if tr else j * nr + i) for j in range(nz) for i in range(nr)])
        for c, s, n, q in (('s', 'separatrix', 'sep', NS), ('w', 'wall', 'wall', NW)):
            if c in out:
                for k, x in enumerate('rz'): cmp(x + n, [E(s, 2 * j + k if otr else k * q + j) for j in range(q)])
        for k in (0, 1):
            r = same(rd('magnetic_axis', 'double', 8 * k), E('maxis', k))
            if r is False: probs.append((f.loc(), '%s: coordinate %d of the magnetic axis is another' % (where, k + 1)))
            elif r is None: und.append(where + ': axis not known')
        fl = rd('hasFluxCoordinates', 'i8')
        if fl is None or fl[0] != 'i': und.append(where + ': flux flag not known')
        elif bool(fl[1]) != flux: probs.append((f.loc(), '%s: the field says it has %s flux' % (where, 'a' if fl[1] else 'no')))
        for n, t in (('name', 'the name'), ('description', 'about it')):
            x = w.text(mem, w.addr(me, o[n]))
            if x is None: und.append('%s: %s not known' % (where, n))
            elif x != t: probs.append((f.loc(), '%s: %s is "%s"' % (where, n, x)))
        s, n, q = ('wall', 'wall', NW) if 'w' in out else ('separatrix', 'sep', NS)
        for ev, s, q in (('SetDomain', s, q),) + ((('SetSeparatrix', 'separatrix', NS),) if 's' in out else ()):
            cs = [e for e in st[1] if e[0] == ev]
            if not cs:
                if ev == 'SetDomain': probs.append((f.loc(), '%s: the domain is not set' % where))
                continue
            e = cs[-1]
            if e[1] is None or None in e[2] or any(None in x for x in e[2]): und.append('%s: arguments of %s not known' % (where, ev)); continue
            want = [[E(s, 2 * j + k if otr else k * q + j) for j in range(q)] for k in (0, 1)]
            r = [same(a, b) for x, y in zip(e[2], want) for a, b in zip(x, y)] if e[1] == q else [False]
            if False in r: probs.append((e[3], '%s: %s is not given the %s of the file' % (where, ev, s)))
            elif None in r: und.append('%s: arguments of %s not decided' % (where, ev))


ARGS = ('name', 'description', 'R', 'Z', 'nr', 'nz', 'Br', 'Bphi', 'Bz', 'Psi', 'raxis', 'zaxis', 'rsep', 'zsep', 'nsep', 'rwall', 'zwall', 'nwall')


def given(ctx, m, o):
    """a field given as arrays keeps each as the member of its meaning"""
    fs = m.find(r'^MagneticFieldNumeric2D::Init\(std::', suf='')
    fs = [f for f in fs if len(f.args) == len(ARGS) + max(f.this, 0) + 1]
    if len(fs) != 1: ctx.undecided('given', 'not found'); return
    f = fs[0]; me = ('arg', max(f.this, 0))
    num = {'nr': 3, 'nz': 2, 'nsep': NS, 'nwall': NW}
    for flux, out in itertools.product((True, False), ('s', 'w', 'sw', '')):
        probs, und = [], []
        args = {}
        for k, n in enumerate(ARGS):
            if n in num: v = ('i', num[n] if n in ('nr', 'nz') or n[1] in out else 0)
            elif n in ('raxis', 'zaxis'): v = ('e', V(n))
            elif n == 'Psi': v = ('t', n) if flux else ('i', 0)
            elif n[1:] in ('sep', 'wall'): v = ('t', n) if n[1] in out else ('i', 0)
            else: v = ('t', n)
            args[k + 1] = v
        try: w = Field(m, f, {k: v for k, v in args.items() if k > 2}, {}, alg.Point('g', {'raxis': 1.5, 'zaxis': 0.25}), texts={1: 'the name', 2: 'about it'}, dims=(3, 2))
        except Limit: und.append('too many states'); w = None
        where = '%sflux, %sseparatrix, %swall' % tuple('' if x else 'no ' for x in (flux, 's' in out, 'w' in out))
        key = 'given.%s%s' % (out or 'nothing', '' if flux else '.noflux')
        if w is not None:
            und += w.unk
            if out == '':
                if w.out: probs.append((f.loc(), where + ': accepted'))
                elif not w.exc: und.append('no outcome')
            elif not w.out and not w.unk:
                if w.exc: probs.append((w.exc[0][1].loc(), where + ': refused'))
                else: und.append('no outcome')
            else:
                for st, I, v, mem in w.out:
                    for k, n in enumerate(ARGS):
                        if k < 2:
                            x, t = w.text(mem, w.addr(me, o[n])), ('the name', 'about it')[k]
                            if x is None: und.append(n + ' not known')
                            elif x != t: probs.append((f.loc(), '%s is "%s"' % (n, x)))
                            continue
                        if n[1:] == 'axis': x = w.read(mem, w.addr(me, o['magnetic_axis'] + (0 if n[0] == 'r' else 8)), 'double')
                        else: x = w.read(mem, w.addr(me, o[n]), 'i32' if n in num else 'ptr')
                        if x is None: und.append('%s: %s not known' % (where, n))
                        elif x != args[k + 1] and same(x, args[k + 1]) is not True:
                            if x[0] in ('i', 't', 'e') and same(x, args[k + 1]) is False: probs.append((f.loc(), '%s: %s is not what was given' % (where, n)))
                            else: und.append('%s: %s is a copy' % (where, n))
                    fl = w.read(mem, w.addr(me, o['hasFluxCoordinates']), 'i8')
                    if fl is None or fl[0] != 'i': und.append(where + ': flux flag not known')
                    elif bool(fl[1]) != flux: probs.append((f.loc(), '%s: the field says it has %s flux' % (where, 'a' if fl[1] else 'no')))
                    n = 'wall' if 'w' in out else 'sep'
                    for ev, n in (('SetDomain', n),) + ((('SetSeparatrix', 'sep'),) if 's' in out else ()):
                        cs = [e for e in st[1] if e[0] == ev]
                        if not cs:
                            if ev == 'SetDomain': probs.append((f.loc(), where + ': the domain is not set'))
                            continue
                        e = cs[-1]
                        if None in e[4:6]: und.append('arguments of ' + ev); continue
                        if e[4:6] != (('t', 'r' + n), ('t', 'z' + n)) or e[1] != num['n' + n]:
                            if all(x[0] in ('t', 'i') for x in e[4:6]): probs.append((e[3], '%s: %s is not given the %s' % (where, ev, n)))
                            else: und.append('arguments of ' + ev)
        fin(ctx, key, CLS + '::Init', f, uniq(probs), sorted(set(und))[:3])


def uniq(probs):
    out = {}
    for l, t in probs: out.setdefault(t.split(': ')[-1], (l, t))
    return list(out.values())[:4]
