"""C16: tables whose shape does not fit their grids are refused, and no element outside a table is touched."""
import re
from absint import base_off, fmt, Poly
import access, loops
from access import Eval, scan
from filemodel import Model, returns
from c04 import fin

KEEP = (r'SFile::(Create|Get|Write)|DistributionFunction::Initialize(Log)?\(|::InsertMomentumSpaceDistribution|InitInterpolation'
        r'|MagneticField2D::Set')
ONLY = r'DistributionFunction|MagneticField(Numeric2D|LUKE)'


class L:
    """a loader: consistent tables, sizes; wrong: shapes that must be refused; also: further consistent shapes"""
    def __init__(self, name, rx, tables, wrong, also=(), args=None, strings=None, filearg=None, data=None):
        self.name, self.rx, self.tables, self.wrong, self.also = name, rx, tables, wrong, also
        self.args, self.strings, self.filearg, self.data = args or {}, strings or {}, filearg, data or {}


def near(t, tables, axes=None):
    e = tables[t]
    for a in range(len(e)) if axes is None else axes:
        for d in (1, -1):
            yield {t: e[:a] + (e[a] + d,) + e[a + 1:]}


def loaders():
    out = []
    # --- CODE
    for path in ('', 'x', 'x/'):
        pre = path.rstrip('/') + '/' if path else ''
        T = {pre + k: v for k, v in {'y': (1, 3), 'delta': (1, 1), 'nref': (1, 1), 'Tref': (1, 1), 'Nxi': (1, 1), 'f': (4, 6)}.items()}
        W = [w for t, ax in (('y', (1,)), ('f', (1,))) for w in near(pre + t, T, ax)] + [{pre + 'y': (3, 2)}, {pre + 'y': (2, 3)}, {pre + 'f': (6, 4)}]
        W += [{pre + s: e} for s in ('delta', 'nref', 'Tref', 'Nxi') for e in ((1, 2), (2, 1))]
        A = [{pre + 'y': (3, 1)}, {pre + 'f': (1, 6)}]
        for tm in ((-1, 0) if not path else (-1,)):
            out.append(L('CODE%s%s' % ('' if not path else '.path' + ('' if path[-1] != '/' else '/'), '' if tm else '.first'), r'^CODEDistributionFunction::Load\(SFile', T,
                         W, A if not path else [], args={2: tm}, strings={4: path}, filearg=1, data={pre + 'Nxi': 2.0}))
    # --- LUKE distribution
    T = {'xrhoG': (1, 2), 'pn': (1, 3), 'betath_ref': (1, 1), 'mhu': (1, 5), 'f': (2, 5, 3)}
    W = [w for t, ax in (('xrhoG', (1,)), ('pn', (1,)), ('mhu', (1,)), ('f', None)) for w in near(t, T, ax)]
    W += [{'f': e} for e in ((2, 3, 5), (3, 5, 2), (5, 2, 3), (30,), (2, 15), (2, 5, 3, 2))] + [{'xrhoG': (2, 2)}, {'pn': (2, 3)}, {'mhu': (5, 2)}, {'betath_ref': (1, 2)}, {'betath_ref': (2, 1)}]
    A = [{'xrhoG': (2, 1)}, {'pn': (3, 1)}, {'mhu': (5, 1)}]
    out.append(L('LUKE', r'^LUKEDistributionFunction::Load\(std', T, W, A))
    out.append(L('LUKE.momentum', r'^LUKEDistributionFunction::LoadMomentumSpace\(std', T, W, A, args={3: 1}))
    # --- old SOFT
    T = {'r': (1, 2), 'p': (1, 3), 'xi': (1, 5), 'f': (2, 15), 'punits': 'string', 'fp0': (1, 3), 'fxi0': (1, 5), 'fr0': (1, 2)}
    W = [w for t in ('r', 'p', 'xi') for w in near(t, T, (1,))] + list(near('f', T)) + [{'f': e} for e in ((15, 2), (1, 29), (31, 1), (5, 6))]
    W += [{'r': (2, 2)}, {'p': (2, 3)}, {'xi': (5, 2)}, {'fp0': (1, 4)}, {'fxi0': (1, 6)}, {'fr0': (1, 3)}, {'fp0': (4, 1)}, {'fp0': (3, 2)}]
    A = [{'r': (2, 1)}, {'p': (3, 1)}, {'xi': (5, 1)}, {'f': (1, 30)}, {'f': (30, 1)}, {'fp0': (1, 2), 'fxi0': (5, 1)}, {'fp0': None, 'fxi0': None, 'fr0': None}]
    out.append(L('deprSOFT', r'^deprSOFTDistributionFunction::Load\(std', T, W, A))
    out.append(L('deprSOFT.momentum', r'^deprSOFTDistributionFunction::LoadMomentumSpace\(std', T, W, A, args={3: 1}))
    # --- SOFT
    T = {'r': (1, 2), 'r*/p': (1, 3), 'r*/xi': (1, 5), 'r*/f': (5, 3), 'type': 'string'}
    W = [w for t, ax in (('r*/p', (1,)), ('r*/xi', (1,)), ('r*/f', None)) for w in near(t, T, ax)] + [{'r*/f': (3, 5)}, {'r': (2, 2)}, {'r*/p': (2, 3)}, {'r*/xi': (5, 2)}]
    A = [{'r': (2, 1)}, {'r*/p': (3, 1)}, {'r*/xi': (5, 1)}, {'type': None}]
    out.append(L('SOFT', r'^SOFTDistributionFunction::Load\(std', T, W, A))
    out.append(L('SOFT.momentum', r'^SOFTDistributionFunction::LoadMomentumSpace\(std', T, W, A, args={3: 1}))
    # --- DREAM
    for d, g, given in (('f_re', 'runaway', ''), ('f_hot', 'hottail', ''), ('f_hot', 'hottail', 'f_hot'), ('f_re', 'runaway', '/eqsys/f_re')):
        p1, p2, f = '/grid/%s/p1' % g, '/grid/%s/p2' % g, '/eqsys/' + d
        T = {'/grid/t': (4,), '/grid/r': (2,), p1: (3,), p2: (5,), f: (4, 2, 5, 3)}
        W = [w for t in T for w in near(t, T)] + [{f: (4, 2, 3, 5)}, {f: (2, 4, 5, 3)}, {f: (4, 2, 15)}, {f: (2, 5, 3)}]
        for tm in (-1, 3, 0):
            if given and tm != -1: continue
            out.append(L('DREAM.%s%s.t%d' % (d, '.named' if given else '', tm), r'^DREAMDistributionFunction::Load\(std', T, W, args={4: tm}, strings={3: given}))
    # --- equilibria
    T = {'name': 'string', 'desc': 'string', 'maxis': (2,), 'r': (3,), 'z': (5,), 'Br': (5, 3), 'Bphi': (5, 3), 'Bz': (5, 3), 'Psi': (5, 3), 'wall': (2, 4), 'separatrix': (2, 6),
         'verBr': (2,), 'verBphi': (3,), 'verBz': (3,)}
    W = [w for t in ('maxis', 'Br', 'Bphi', 'Bz', 'Psi') for w in near(t, T)] + [{t: e} for t in ('Br', 'Bphi', 'Bz', 'Psi') for e in ((1, 15), (3, 3), (5, 5))]
    W += [{'r': (4,)}, {'r': (2,)}, {'z': (4,)}, {'z': (6,)}, {'verBr': (4,)}, {'verBphi': (4,)}, {'verBz': (4,)}] + [{t: e} for t in ('wall', 'separatrix') for e in ((3, 4), (1, 8), (4, 1))]
    A = [{t: (3, 5)} for t in ('Br', 'Bphi', 'Bz', 'Psi')] + [{'wall': (4, 2)}, {'separatrix': (6, 2)}, {'wall': None}, {'separatrix': None}, {'Psi': None}, {'verBr': None, 'verBz': None}]
    out.append(L('Numeric2D', r'^MagneticFieldNumeric2D::Load\(.*sfile_type\)', T, W, A))
    q = 'equil/'
    T = {q + 'id': 'string', q + 'Rp': 'scalar', q + 'Zp': 'scalar', q + 'eqdsk/psia': 'scalar', q + 'eqdsk/x': (3,), q + 'eqdsk/y': (5,), q + 'eqdsk/xypsin': (5, 3),
         q + 'psi_apRp': (4,), q + 'theta': (7,), q + 'ptBx': (7, 4), q + 'ptBy': (7, 4), q + 'ptBPHI': (7, 4), q + 'ptx': (7, 4), q + 'pty': (7, 4), 'wall': (2, 6)}
    W = [{q + t: w[q + t]} for t in ('eqdsk/x', 'eqdsk/y', 'eqdsk/xypsin', 'psi_apRp', 'theta', 'ptBx', 'ptBy', 'ptBPHI', 'ptx', 'pty') for w in near(q + t, T)]
    W += [{q + t: (4, 7)} for t in ('ptBx', 'ptBy', 'ptBPHI', 'ptx', 'pty')] + [{q + 'eqdsk/xypsin': (3, 5)}, {'wall': (3, 4)}]
    out.append(L('LUKE.field', r'^MagneticFieldLUKE::Load\([^()]*sfile_type, [^()]*sfile_type\)', T, W, [{'wall': (6, 2)}], strings={3: 'w.mat'}))
    out.append(L('LUKE.field.nowall', r'^MagneticFieldLUKE::Load\([^()]*sfile_type, [^()]*sfile_type\)', {k: v for k, v in T.items() if k != 'wall'}, [], strings={3: ''}))
    return out


def show(v): return ', '.join('"%s" %s' % (k, 'absent' if e is None else 'x'.join(map(str, e)) if isinstance(e, tuple) else e) for k, e in v.items())


def model(m, ld, change=None, args=None):
    tb = dict(ld.tables)
    for k, v in (change or {}).items():
        if v is None: tb.pop(k, None)
        else: tb[k] = v
    av = dict(ld.args); av.update(args or {})

    def leaf(t):
        if t[0] == 'arg' and t[1] in av: return av[t[1]]
        if t[0] == 'ld':
            for nm, x in ld.data.items():
                if t[1] == ('ld', ('file', nm)) or t[1] == ('file', nm): return x
        if t[0] == 'filescalar' and t[1] in ld.data: return ld.data[t[1]]
        if t[0] == 'new': return ('P', t, 0)
        if t[0] == 'ld' and t[1][0] == 'file': return ('P', t, 0)
        return None
    return Model(m, tb, {}, leaf=leaf, strargs={('arg', k): v for k, v in ld.strings.items()}, filearg=None if ld.filearg is None else ('arg', ld.filearg))


def leaves(t, out):
    if t[0] in ('it', 'i', 'f', 'arg', 'undef', 'sym', 'phi', 'file', 'filescalar', 'new', 'alloca', 'g', 'call', 'res'): out.add(t); return
    if t[0] == 'ld':
        out.add(t); return
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str): leaves(x, out)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], str): leaves(y, out)


def isdata(ai, t):
    """a leaf that stands for the contents of the file or the outside world, not for a shape"""
    if t[0] in ('it', 'i', 'f', 'call', 'res', 'filescalar', 'g', 'file', 'new'): return True
    if t[0] == 'arg': return True
    if t[0] == 'ld':
        r = loops.ref(ai, t[1], access.Tables())
        if r is not None and r.base[0] == 'file': return True
        b, o, v = base_off(t[1])
        if b[0] in ('call', 'g', 'arg'): return True
        if r is not None and r.base[0] == 'new': return True
        return False
    if t[0] == 'phi':
        p = ai.expand(t)
        return all(x[0] == 'it' for k in p.m for x, _ in k)
    return False


def unread_guards(ai):
    """undecided branches with a side that only raises, whose condition is not about file contents"""
    rr = loops.can_return(ai); out = []
    for b in ai.reached:
        t = ai.fn.blocks[b].insts[-1]
        if t.op != 'br' or not t.ops or b not in rr: continue
        s = [x for x in t.d['s'] if (b, x) in ai.edges]
        if len(set(s)) < 2 or all(x in rr for x in s): continue
        for c in ai.opv(t.ops[0]):
            ls = set(); leaves(c, ls)
            if not all(isdata(ai, x) for x in ls): out.append(t); break
    return out


def sinks(m):
    P = lambda ai, o: ai.expand(next(iter(ai.ev(o)))) if len(ai.ev(o)) == 1 else None

    def f(i, ai):
        d = m.dem(i.callee) if i.callee else ''
        o = i.ops
        if re.search(r'::InsertMomentumSpaceDistribution(Log)?\(unsigned int, unsigned int, double, double\*', d): n, x, pp, xx, ff = o[1], o[2], o[4], o[5], o[6]
        elif re.search(r'NumericMomentumSpaceDistributionFunction::Initialize(Log)?\(unsigned int, unsigned int, double\*, double\*, double\*', d): n, x, pp, xx, ff = o[1:6]
        elif re.search(r'NumericDistributionFunction::Initialize(Log)?\(unsigned int, unsigned int, unsigned int, double\*', d):
            a, b, c = P(ai, o[1]), P(ai, o[2]), P(ai, o[3])
            if a is None or b is None or c is None: return
            return [(o[4], a, 'uses'), (o[5], b, 'uses'), (o[6], c, 'uses'), (o[7], a * b * c, 'uses')]
        elif re.search(r'CODEDistributionFunction::Initialize\(unsigned int, unsigned int, double\*, double\*', d):
            a, b = P(ai, o[1]), P(ai, o[2])
            if a is None or b is None: return
            return [(o[3], a, 'uses'), (o[4], a * b, 'uses')]
        elif d == 'gsl_interp2d_init' or d.startswith('gsl_interp2d_init('):
            a, b = P(ai, o[4]), P(ai, o[5])
            if a is None or b is None: return
            return [(o[1], a, 'uses'), (o[2], b, 'uses'), (o[3], a * b, 'uses')]
        elif re.match(r'(llvm\.)?(memcpy|memmove)', d) or re.match(r'(llvm\.)?(memcpy|memmove)', i.callee or ''):
            a = P(ai, o[2])
            if a is None: return
            a = a * Poly.const(1) ; from fractions import Fraction
            return [(o[1], a * Poly.const(Fraction(1, 8)), 'copies'), (o[0], a * Poly.const(Fraction(1, 8)), 'copies to')]
        else: return
        a, b = P(ai, n), P(ai, x)
        if a is None or b is None: return
        return [(pp, a, 'uses'), (xx, b, 'uses'), (ff, a * b, 'uses')]
    return f


def run(ctx):
    ctx.rule('each loader is followed with a file whose tables have every consistent and, one at a time, every inconsistent shape: an inconsistent one must end in an exception, a consistent one must be able to return')
    ctx.rule('for consistent shapes every access to a table, in every iteration admitted by the dominating conditions, lies inside it; lengths handed on match the tables')
    m = ctx.module('--keep', KEEP, '--only', ONLY)
    done = 0; sk = sinks(m)
    for ld in loaders():
        fs = m.find(ld.rx, suf='')
        if len(fs) != 1: ctx.undecided(ld.name, 'loader not found (%d)' % len(fs)); continue
        f = fs[0]; done += 1
        for ch in [{}] + list(ld.also):
            key = '%s.accepts%s' % (ld.name, '(%s)' % show(ch) if ch else '')
            md = model(m, ld, ch); ai = md.run(f)
            if md.bad: ctx.undecided(key, 'a variable name is not understood', f); continue
            if not returns(ai):
                g = [n for n in md.reads.values() if n not in md.tables]
                ctx.undecided(key, 'does not return for consistent tables%s' % (' (reads %s)' % g if g else ''), f); continue
            probs, und, n = scan(ai, md, Eval(ai, md), sk)
            fin(ctx, key, '%s with %s' % (ld.name, show(ch) or 'consistent tables'), f, sorted(set(probs)), sorted(set(und)))
        for ch in ld.wrong:
            key = '%s.refuses(%s)' % (ld.name, show(ch))
            md = model(m, ld, ch); ai = md.run(f)
            if md.bad: ctx.undecided(key, 'a variable name is not understood', f); continue
            fb = access.feasible(ai, Eval(ai, md))
            r = [x for x in returns(ai) if f.insts[x].blk.id in fb]
            if not r: ctx.ok(key, f); continue
            g = unread_guards(ai)
            if g: ctx.undecided(key, 'a guard at %s is not understood' % g[0].loc(), f); continue
            ctx.bad(key, f.loc(), '%s accepts %s where the other tables have %s' % (f.dem.split('(')[0], show(ch), show({k: v for k, v in ld.tables.items() if isinstance(v, tuple) and k not in ch})), f)
    ctx.need('loaders', done, 1)
