"""C37: a distribution loaded from file is the one the file describes."""
import re
import alg
from alg import C, V, add, sub, mul, div, fn as fun, sqrt
from px import Limit
from c04 import fin
from c20 import adr, uniq
from c33 import METHOD, slices, limits
from small import KEEPVEC, ALGO
from distinit import MS, DF, same, obj, interpolated, stored
from loader import Load, FILE, MF
from c34 import TYPES

KEEP = r'^gsl_|SFile::|SOFTLibException::|SFileException::|MagneticField2D::Get|DistributionFunction::Eval\(double, double\)|' + KEEPVEC
ONLY = r'DistributionFunction|global_var_init'
AX, MAXR = V('GetMagneticAxisR'), V('GetMaxRadius')


def tab(n, cnt): return tuple(('e', V('%s#%d' % (n, k))) for k in range(cnt))


class Case:
    """name; function regex; file; arguments; radii; tables [(p, xi, f)]; log; interp"""
    def __init__(self, name, rx, files, args, radii, tabs, log, interp, texts=None, data=None, single=False, refuse=None, over=None):
        self.__dict__.update(locals())


def shift(n, cnt): return tuple(('e', add(V('%s#%d' % (n, k)), AX)) for k in range(cnt))


def cases():
    NR, NP, NX = 3, 2, 4
    for log in (0, 1):
        for it in (0, 1):
            tag = '%s.%d' % ('log' if log else 'plain', it)
            fl = ('i', -1 if log else 0)
            # SOFT
            F = {'r': (1, NR)}
            ts = []
            for k, (p, x) in enumerate(((2, 4), (3, 2), (4, 4))):
                q = 'r%d/' % k
                F.update({q + 'p': (1, p), q + 'xi': (x, 1), q + 'f': (x, p)}); ts.append((tab(q + 'p', p), tab(q + 'xi', x), tab(q + 'f', p * x)))
            if it == log: F['type'] = 'distribution/soft'
            yield Case('SOFT.' + tag, r'^SOFTDistributionFunction::Load\(std', F, {2: MF, 3: fl, 4: ('i', it)}, shift('r', NR), ts, log, it, {1: 'file'})
            for k in (0, 1, 2): yield Case('SOFT.momentum%d.%s' % (k, tag), r'^SOFTDistributionFunction::LoadMomentumSpace\(std', F, {2: MF, 3: fl, 4: ('i', k), 5: ('i', it)}, None, [ts[k]], log, it, {1: 'file'}, single=True)
            # old SOFT
            for u, norm in (('ev', 0.510998910e6), ('normalized', None), ('si', 'si')):
                for shape in ((NR, NP * NX), (1, NR * NP * NX), (NR * NP * NX, 1)):
                    if shape[0] != NR and (it or u != 'ev'): continue
                    F = {'r': (1, NR), 'p': (NP, 1), 'xi': (1, NX), 'f': shape, 'punits': u}
                    p = tuple(('e', div(x[1], V('unit:' + u)) if norm else x[1]) for x in tab('p', NP))
                    f = tab('f', NR * NP * NX); n = NP * NX
                    ts = [(p, tab('xi', NX), f[k * n:(k + 1) * n]) for k in range(NR)]
                    nm = '%s.%s%s' % (tag, u, '' if shape[0] == NR else '.row' if shape[0] == 1 else '.column')
                    yield Case('deprSOFT.' + nm, r'^deprSOFTDistributionFunction::Load\(std', F, {2: fl, 3: ('i', it)}, tab('r', NR), ts, log, it, {1: 'file'})
                    if shape[0] == NR:
                        for k in (0, 2): yield Case('deprSOFT.momentum%d.%s' % (k, nm), r'^deprSOFTDistributionFunction::LoadMomentumSpace\(std', F, {2: MF, 3: fl, 4: ('i', k), 5: ('i', it)}, None, [ts[k]], log, it, {1: 'file'}, single=True)
            # LUKE
            F = {'xrhoG': (1, NR), 'pn': (1, NP), 'betath_ref': (1, 1), 'mhu': (NX, 1), 'f': (NR, NX, NP)}
            p = tuple(('e', mul(x[1], V('betath_ref#0'))) for x in tab('pn', NP)); n = NP * NX; f = tab('f', NR * n)
            ts = [(p, tab('mhu', NX), f[k * n:(k + 1) * n]) for k in range(NR)]
            rr = tuple(('e', add(AX, mul(x[1], sub(MAXR, AX)))) for x in tab('xrhoG', NR))
            yield Case('LUKE.' + tag, r'^LUKEDistributionFunction::Load\(std', F, {2: fl, 3: ('i', it)}, rr, ts, log, it, {1: 'file'}, data={'@magfield': MF})
            for k in (0, 2): yield Case('LUKE.momentum%d.%s' % (k, tag), r'^LUKEDistributionFunction::LoadMomentumSpace\(std', F, {2: MF, 3: fl, 4: ('i', k), 5: ('i', it)}, None, [ts[k]], log, it, {1: 'file'}, single=True)
            # files that do not describe a distribution
            if it == 0:
                F = {'r': (1, NR)}
                ts = []
                for k in range(NR):
                    q = 'r%d/' % k
                    F.update({q + 'p': (1, 2), q + 'xi': (4, 1), q + 'f': (4, 2)}); ts.append((tab(q + 'p', 2), tab(q + 'xi', 4), tab(q + 'f', 8)))
                S = r'^SOFTDistributionFunction::Load\(std'; A = {2: MF, 3: fl, 4: ('i', it)}
                for what in ('distribution/gocode', 'magnetic field', ''): yield Case('SOFT.type.%s.%s' % (what.replace('/', '_').replace(' ', '_'), tag), S, dict(F, type=what), A, shift('r', NR), ts, log, it, {1: 'file'}, refuse='another kind of file')
                for k, o in (('last', {'r#2': 0.23}), ('equal', {'r#1': 0.1}), ('first', {'r#0': 0.3})): yield Case('SOFT.order.%s.%s' % (k, tag), S, F, A, shift('r', NR), ts, log, it, {1: 'file'}, refuse='radii that do not increase', over=o)
                F = {'r': (1, NR), 'p': (NP, 1), 'xi': (1, NX), 'f': (NR, NP * NX), 'punits': 'normalized'}
                f = tab('f', NR * NP * NX); n = NP * NX
                ts = [(tab('p', NP), tab('xi', NX), f[k * n:(k + 1) * n]) for k in range(NR)]
                S = r'^deprSOFTDistributionFunction::Load\(std'; A = {2: fl, 3: ('i', it)}
                for u in ('eV/c', '', 'norm'): yield Case('deprSOFT.units.%s.%s' % (u.replace('/', '_'), tag), S, dict(F, punits=u), A, tab('r', NR), ts, log, it, {1: 'file'}, refuse='unknown momentum units')
                for v, cnt, step in (('fp0', NP, 1), ('fxi0', NX, NP), ('fr0', NR, NP * NX)):
                    for c in (cnt, cnt - 1):
                        o = {'%s#%d' % (v, k): 1.5 + 0.37 * k * step for k in range(c)}
                        yield Case('deprSOFT.%s.%d.%s' % (v, c, tag), S, dict(F, **{v: (1, c) if c == cnt else (c, 1)}), A, tab('r', NR), ts, log, it, {1: 'file'}, over=o)
                        neg = dict({'f#%d' % j: -(1.5 + 0.37 * j) for j in range(NR * NP * NX)}, **{k: -x for k, x in o.items()})
                        zero = dict({'f#0': 0.0}, **{'%s#0' % v: 0.0})
                        if not log and c == cnt:
                            yield Case('deprSOFT.%s.negative.%s' % (v, tag), S, dict(F, **{v: (1, c)}), A, tab('r', NR), ts, log, it, {1: 'file'}, over=neg)
                            for d in (0.5, -0.5): yield Case('deprSOFT.%s.negative%s.%s' % (v, '+' if d > 0 else '-', tag), S, dict(F, **{v: (1, c)}), A, tab('r', NR), ts, log, it, {1: 'file'}, refuse='a verification vector that differs from the table', over=dict(neg, **{'%s#1' % v: neg['%s#1' % v] + d}))
                            yield Case('deprSOFT.%s.zero.%s' % (v, tag), S, dict(F, **{v: (1, c)}), A, tab('r', NR), ts, log, it, {1: 'file'}, over=dict(o, **zero))
                            yield Case('deprSOFT.%s.zero+.%s' % (v, tag), S, dict(F, **{v: (1, c)}), A, tab('r', NR), ts, log, it, {1: 'file'}, refuse='a verification vector that differs from the table', over=dict(o, **{'%s#0' % v: 0.0}))
                        for k in range(c):
                            for d in (0.5, -0.5): yield Case('deprSOFT.%s.%d.wrong%d%s.%s' % (v, c, k, '+' if d > 0 else '-', tag), S, dict(F, **{v: (1, c)}), A, tab('r', NR), ts, log, it, {1: 'file'}, refuse='a verification vector that differs from the table', over=dict(o, **{'%s#%d' % (v, k): o['%s#%d' % (v, k)] + d}))
            # DREAM
            for name, d, g, t in (('', 'f_re', 'runaway', 1), ('', 'f_hot', 'hottail', -1), ('f_hot', 'f_hot', 'hottail', 0), ('/eqsys/f_hot', 'f_hot', 'hottail', -2), ('f_re', 'f_re', 'runaway', -1)):
                NT = 3
                F = {'/grid/t': (NT,), '/grid/r': (NR,), '/eqsys/' + d: (NT, NR, NX, NP), '/grid/%s/p1' % g: (NP,), '/grid/%s/p2' % g: (NX,)}
                if name or d == 'f_re':
                    o, og = ('f_hot', 'hottail') if d == 'f_re' else ('f_re', 'runaway')
                    F.update({'/eqsys/' + o: (NT, NR, NX, NP), '/grid/%s/p1' % og: (NP,), '/grid/%s/p2' % og: (NX,)})
                f = tab('/eqsys/' + d, NT * NR * n); k0 = t % NT
                ts = [(tab('/grid/%s/p1' % g, NP), tab('/grid/%s/p2' % g, NX), f[(k0 * NR + k) * n:(k0 * NR + k + 1) * n]) for k in range(NR)]
                yield Case('DREAM.%s%s.t%d.%s' % (d, '.' + name.strip('/').replace('/', '_') if name else '', t, tag), r'^DREAMDistributionFunction::Load\(std', F, {2: MF, 4: ('i', t), 5: fl, 6: ('i', it)}, shift('/grid/r', NR), ts, log, it, {1: 'file', 3: name})
                if it == 0 and name == '':
                    for k, o in (('last', {'/grid/r#2': 0.23}), ('equal', {'/grid/r#1': 0.1})): yield Case('DREAM.order.%s.%s.%s' % (d, k, tag), r'^DREAMDistributionFunction::Load\(std', F, {2: MF, 4: ('i', t), 5: fl, 6: ('i', it)}, shift('/grid/r', NR), ts, log, it, {1: 'file', 3: name}, refuse='radii that do not increase', over=o)


CD, GC = 'CODEDistributionFunction', 'GOCODEDistributionFunction'


def code_cases():
    NT, NP, NL = 3, 4, 3
    def group(q, ref, ny):
        F = {q + 'y': ny, q + 'delta': (1, 1), q + 'Nxi': (1, 1), q + 'f': (NT, NP * NL)}
        for r in ref: F[q + r] = (1, 1)
        return F
    def want(q, ref, t):
        p = tuple(('e', mul(V('%sy#%d' % (q, k)), V(q + 'delta#0'))) for k in range(NP))
        d = mul(V('unit:2pim'), V(q + 'Tref#0') if 'Tref' in ref else C(1))
        s = div(V(q + 'nref#0') if 'nref' in ref else C(1), mul(d, sqrt(d)))
        f = tab(q + 'f', NT * NP * NL)[t * NP * NL:(t + 1) * NP * NL]
        return p, tuple(('e', mul(x[1], s)) for x in f), NP, NL
    for it in (0, 1, 2, 3, 4):
        for t, ref, path in ((0, ('nref', 'Tref'), ''), (-1, (), ''), (1, ('nref',), 'a'), (-2, ('Tref',), 'a/b/')):
            q = path if not path or path[-1] == '/' else path + '/'
            F = group(q, ref, (1, NP) if t else (NP, 1))
            yield 'CODE.%d.t%d' % (it, t), r'^%s::Load\(SFile' % CD, F, {1: FILE, 2: ('i', t), 3: ('i', it)}, {4: path}, {q + 'Nxi': NL}, [want(q, ref, t % NT)], None, it
        if it > 1: continue
        NT0, NT = NT, 1
        for t, T in ((-1, 4), (0, 1), (2, 4), (-3, 12), (10, 12)):
            F = {'r': (1, 2), 'nt': (1, 1)}; ws = []; D = {'nt': T}
            if it: F['type'] = 'distribution/gocode'
            for k in range(2):
                q = 't%d/r%d/' % (t % T, k)
                F.update(group(q, ('nref', 'Tref'), (1, NP))); D[q + 'Nxi'] = NL; ws.append(want(q, ('nref', 'Tref'), 0))
            yield 'GOCODE.%d.t%dof%d' % (it, t, T), r'^%s::Load\(std' % GC, F, {2: MF, 3: ('i', t), 4: ('i', it)}, {1: 'file'}, D, ws, shift('r', 2), it
            if t == -1 and not it:
                yield 'GOCODE.type', r'^%s::Load\(std' % GC, dict(F, type='distribution/soft'), {2: MF, 3: ('i', t), 4: ('i', it)}, {1: 'file'}, D, 'another kind of file', {}, it
                for k, o in (('order', 0.05), ('equal', 0.1)): yield 'GOCODE.' + k, r'^%s::Load\(std' % GC, F, {2: MF, 3: ('i', t), 4: ('i', it)}, {1: 'file'}, D, 'radii that do not increase', {'r#1': o}, it
        NT = NT0


def code(ctx, m, pick=None):
    off = {x: m.field_off(CD, x) for x in ('np', 'nleg', 'p', 'f', 'interp')}; go = {x: m.field_off(GC, x) for x in ('rho', 'code', 'nr', 'rhomin', 'rhomax')}
    if None in off.values() or None in go.values(): ctx.undecided(CD, 'members not found'); return
    en = {}
    for x in m.enums.values():
        if x['name'].startswith(CD + '::'): en.update(dict(x['vals']))
    kinds = {en[n]: t for n, t in TYPES.items() if n in en}
    for name, rx, F, args, texts, data, ws, radii, it in code_cases():
        if pick and not re.match(pick, name): continue
        fs = m.find(rx, suf='')
        if len(fs) != 1: ctx.undecided(name, 'loader not found'); continue
        if it not in kinds: continue
        f = fs[0]; probs, und = [], []
        pt = {'GetMagneticAxisR': 1.7, 'GetMaxRadius': 2.2, 'unit:2pim': 5.7236e-30}
        for n, e in F.items():
            if not isinstance(e, str):
                for k in range(e[0] * e[1]): pt['%s#%d' % (n, k)] = (0.1 if n == 'r' else 1.5) + 0.13 * k
        if isinstance(ws, str): pt.update(radii)
        try: w = Load(m, f, args, F, alg.Point('l', pt), texts, data)
        except Limit: ctx.undecided(name, 'too many states', f); continue
        for b in w.bad: probs.append((f.loc(), b))
        und += w.unk
        if isinstance(ws, str):
            if w.out: probs.append((f.loc(), 'a file with %s is accepted' % ws))
            elif not w.exc: und.append('no outcome')
            fin(ctx, name, f.dem.split('(')[0], f, uniq(probs), sorted(set(und))[:3]); continue
        if not w.out and not w.unk: probs.append((w.exc[0][1].loc(), 'a complete file is refused')) if w.exc else und.append('no outcome')
        for st, I, v, mem in w.out:
            if radii is None: objs = [('arg', w.off)]
            else:
                rd = lambda o, ty='double': w.read(mem, adr(go[o]), ty)
                n, r, c = rd('nr', 'i32'), w.row(mem, rd('rho', 'ptr'), len(ws)), w.row(mem, rd('code', 'ptr'), len(ws))
                if n is None or r is None or c is None or None in r: und.append('radii not known'); continue
                if n != ('i', len(ws)): probs.append((f.loc(), '%s radii instead of %d' % (n[1], len(ws)))); continue
                if False in [same(a, b) for a, b in zip(r, radii)]: probs.append((f.loc(), 'the radii are not those of the file'))
                if False in [same(rd(a), b) for a, b in (('rhomin', radii[0]), ('rhomax', radii[-1]))]: probs.append((f.loc(), 'the limits are not those of the radii'))
                objs = c
            for k, (o, (p, ff, NP, NL)) in enumerate(zip(objs, ws)):
                which = 'radius %d: ' % k if radii else ''
                if o is None or o[0] in 'ie': und.append('object not known'); continue
                rd = lambda x, ty: w.read(mem, w.addr(o, off[x]), ty)
                a, b = rd('np', 'i32'), rd('nleg', 'i32')
                if a is None or b is None: und.append('sizes not known'); continue
                if (a, b) != (('i', NP), ('i', NL)): probs.append((f.loc(), which + 'the numbers of momenta and modes are not those of the file')); continue
                for nm, got, exp in (('momentum grid', w.row(mem, rd('p', 'ptr'), NP), p), ('table of modes', w.row(mem, rd('f', 'ptr'), NP * NL), ff)):
                    if got is None or None in got: und.append('%s%s not known' % (which, nm)); continue
                    r = [match(x, y, pt) for x, y in zip(got, exp)]
                    if False in r: probs.append((f.loc(), '%sthe %s is not that of the file' % (which, nm)))
                    elif None in r: und.append('%s%s not decided' % (which, nm))
                arr = w.row(mem, rd('interp', 'ptr'), NL)
                if arr is None: und.append('interpolation not known'); continue
                for l, h in enumerate(arr):
                    al = [e for e in st[1] if e[0] == 'alloc' and e[1] == h]
                    if al and al[-1][2] is not None and al[-1][2][:2] == ('t', 'type') and al[-1][2][2] != kinds[it]: probs.append((f.loc(), '%smode %d is interpolated with %s' % (which, l, al[-1][2][2])))
        fin(ctx, name, f.dem.split('(')[0], f, uniq(probs), sorted(set(und))[:3])


def run(ctx):
    ctx.rule('every loader is followed on model files whose elements are symbols; the radii, grids and tables the loaded object interpolates are, element by element, those of the file in the documented units, with the selected method and storage')
    m = ctx.module('--ctors', '--keep', KEEP, '--inline', ALGO, '--only', ONLY)
    if m.field_off(MS, 'fspline') is None or m.field_off(DF, 'r') is None: ctx.undecided(DF, 'members not found'); return
    n = 0
    for c in cases():
        fs = m.find(c.rx, suf='')
        if len(fs) != 1: ctx.undecided(c.name, 'loader not found'); continue
        n += 1
        one(ctx, m, c, fs[0])
    code(ctx, m)
    ctx.need('loaders', n, 2)


def selected(ctx):
    """the instances that select a radius or a time step"""
    m = ctx.module('--ctors', '--keep', KEEP, '--inline', ALGO, '--only', ONLY)
    if m.field_off(MS, 'fspline') is None or m.field_off(DF, 'r') is None: ctx.undecided('selected', 'members not found'); return
    for c in cases():
        if not re.match(r'(SOFT|LUKE)\.momentum\d\.plain\.0$|deprSOFT\.momentum\d\.plain\.0\.normalized$|DREAM\.f_\w+(\.\w+)?\.t-?\d\.plain\.0$', c.name): continue
        fs = m.find(c.rx, suf='')
        if len(fs) == 1: one(ctx, m, c, fs[0])
    code(ctx, m, r'CODE\.0\.t|GOCODE\.0\.t-?\d')


CONST = {'unit:ev': 0.510998910e6, 'unit:si': 9.10938356e-31 * 299792458.0}


def one(ctx, m, c, f):
    probs, und = [], []
    pt = {'GetMagneticAxisR': 1.7, 'GetMaxRadius': 2.2}
    for n, e in c.files.items():
        if isinstance(e, str): continue
        N = 1
        for x in e: N *= x
        for k in range(N): pt['%s#%d' % (n, k)] = 0.1 + 0.13 * k if n in ('r', 'xrhoG', '/grid/r') else 1.5 + 0.37 * k if not re.search('xi|mhu|p2', n) else -0.9 + 0.2 * k
    cells, vecs = {}, {}
    if not c.single:
        vecs = {adr(m.field_off(DF, 'r')): ('vc', ()), adr(m.field_off(DF, 'msdf')): ('vc', ())}
        cells[adr(m.field_off(DF, 'logarithmic') or 0)] = ('i', 0)
        o = m.field_off('LUKEDistributionFunction', 'magfield')
        if o is not None and f.cls == 'LUKEDistributionFunction': cells[adr(o)] = MF
    pt.update(CONST); pt.update(c.over or {})
    try: w = Load(m, f, c.args, c.files, alg.Point('l', pt), c.texts, None, c.single, cells=cells, vecs=vecs)
    except Limit: ctx.undecided(c.name, 'too many states', f); return
    name = f.dem.split('(')[0]
    for b in w.bad: probs.append((f.loc(), b))
    und += w.unk
    if c.refuse:
        if w.out: probs.append((f.loc(), 'a file with %s is accepted' % c.refuse))
        elif not w.exc: und.append('no outcome')
        fin(ctx, c.name, name, f, uniq(probs), sorted(set(und))[:3]); return
    if not w.out and not w.unk: probs.append((w.exc[0][1].loc(), 'a complete file is refused')) if w.exc else und.append('no outcome')
    for st, I, v, mem in w.out:
        if c.single: objs = [v]
        else:
            q = mem.get(('vec', adr(m.field_off(DF, 'msdf')))); r = mem.get(('vec', adr(m.field_off(DF, 'r'))))
            if q is None or r is None: und.append('contents not known'); continue
            objs = list(q[1])
            eqs = [same(a, b) for a, b in zip(r[1], c.radii)] if len(r[1]) == len(c.radii) else [False]
            if False in eqs: probs.append((f.loc(), 'the radii are not those of the file'))
            elif None in eqs: und.append('radii not decided')
            if len(objs) != len(c.tabs): probs.append((f.loc(), '%d tables instead of %d' % (len(objs), len(c.tabs)))); continue
        for k, (o, t) in enumerate(zip(objs, c.tabs)):
            which = 'radius %d' % k if not c.single else 'the radius selected'
            if o is None or o[0] in 'ie': und.append('object not known'); continue
            d = obj(w, mem, m, o)
            ini, al = interpolated(st, d['spline']) if d['spline'] is not None else (None, None)
            if ini is None: und.append('%s: interpolation object not known' % which); continue
            if al is not None and al[2] is not None and al[2][:2] == ('t', 'type') and al[2][2] != METHOD[c.interp]: probs.append((ini[5], '%s is interpolated with %s' % (which, al[2][2])))
            for nm, got, exp in zip(('momentum grid', 'pitch grid'), ini[2:4], t):
                if got is None or None in got: und.append('%s: %s not known' % (which, nm)); continue
                r = [match(a, b, pt) for a, b in zip(got, exp)] if len(got) == len(exp) else [False]
                if False in r: probs.append((ini[5], '%s: the %s is not that of the file' % (which, nm)))
                elif None in r: und.append('%s: %s not decided' % (which, nm))
            s = stored(ini[4], t[2], alg.Point('l', pt))
            if s is None: und.append('%s: table not known' % which)
            elif s == 'other': probs.append((ini[5], '%s: the table is not that of the file' % which))
            elif s != ('log' if c.log else 'plain'): probs.append((ini[5], '%s: the table is stored %s although %s was asked for' % (which, {'plain': 'as it is', 'log': 'as logarithms'}.get(s, s), 'logarithmic storage' if c.log else 'plain storage')))
            elif d['flag'] is not None and d['flag'][0] == 'i' and bool(d['flag'][1]) != bool(c.log): probs.append((f.loc(), '%s: the table is marked %slogarithmic' % (which, '' if d['flag'][1] else 'not ')))
    fin(ctx, c.name, name, f, uniq(probs), sorted(set(und))[:3])


def match(a, b, pt):
    """equality, physical constants compared to four digits"""
    r = same(a, b)
    if r is not False: return r
    if 'unit:' not in repr(b): return False
    x, y = [alg.value(z[1], alg.Point('l', pt)) for z in (a, b)]
    return True if abs(x / y - 1) < 1e-4 else False
