"""C21: selected time steps and radii are validated against the data."""
import re
from absint import fmt
import access, loops, c16, c37
from access import Eval, scan
from numev import Unknown
from filemodel import returns
from c04 import fin

# loader of c16 (or own), argument, values -> selected (None: must be refused), slice of which table
def cases():
    by = {}
    for l in c16.loaders(): by.setdefault(l.name, l)
    out = []
    tm = {t: t % 4 if -4 <= t < 4 else None for t in (-2**31, -9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 2**31 - 1)}
    out.append((by['CODE'], 2, tm, lambda k: {'f': (k * 6, k * 6 + 6)}, 'time step'))
    out.append((c16.L('GOCODE', r'^GOCODEDistributionFunction::Load\(std', {'r': (1, 2), 'nt': 'scalar', 'type': 'string'}, [], data={'nt': 4.0}), 3, tm, None, 'time step'))
    for n, f in (('DREAM.f_re.t0', '/eqsys/f_re'), ('DREAM.f_hot.t-1', '/eqsys/f_hot')):
        out.append((by[n], 4, tm, lambda k, f=f: {f: (k * 30, k * 30 + 30)}, 'time step'))
    rd = {0: 0, 1: 1, 2: None, 3: None, 2**32 - 1: None}
    out.append((by['LUKE.momentum'], 3, rd, lambda k: {'f': (k * 15, k * 15 + 15)}, 'radius'))
    out.append((by['deprSOFT.momentum'], 3, rd, lambda k: {'f': (k * 15, k * 15 + 15)}, 'radius'))
    out.append((by['SOFT.momentum'], 3, rd, None, 'radius'))
    return out


def sel_sinks(m):
    """only what is handed on or copied: reading the whole table elsewhere is not a selection"""
    return c16.sinks(m)


def run(ctx):
    ctx.rule('each loader is followed with every selected index around the bounds: a valid one can return, uses the selected slice only and stays inside the tables; an invalid one raises')
    m = ctx.module('--keep', c16.KEEP + r'|CODEDistributionFunction::CODEDistributionFunction\(SFile', '--only', c16.ONLY)
    done = 0; sk = sel_sinks(m)
    for ld, arg, vals, sl, what in cases():
        fs = m.find(ld.rx, suf='')
        if len(fs) != 1: ctx.undecided(ld.name, 'loader not found (%d)' % len(fs)); continue
        f = fs[0]; done += 1
        verif = {'fp0': None, 'fxi0': None, 'fr0': None} if ld.name.startswith('depr') else {}
        for v, k in sorted(vals.items()):
            key = '%s.%s=%d' % (ld.name, what.replace(' ', ''), v)
            md = c16.model(m, ld, verif, {arg: v}); ai = md.run(f)
            bad = [b for b in md.bad]
            ev = Eval(ai, md)
            fb = access.feasible(ai, ev)
            r = [x for x in returns(ai) if f.insts[x].blk.id in fb]
            short = f.dem.split('(')[0]
            if k is None:
                if not r: ctx.ok(key, f); continue
                g = c16.unread_guards(ai)
                if bad or g: ctx.undecided(key, 'a guard is not understood' + (' (%s)' % g[0].loc() if g else ''), f); continue
                ctx.bad(key, f.loc(), '%s accepts %s %d of %d' % (short, what, v, len([1 for x in vals.values() if x is not None]) // (2 if what == 'time step' else 1)), f)
                continue
            if bad: ctx.undecided(key, 'a variable name is not understood', f); continue
            probs, und = [], []
            if not r:
                t = thrower(ai, fb)
                if t: probs.append((t.loc(), 'refuses %s %d' % (what, v)))
                else: und.append('does not return')
            else:
                p, u, n = scan(ai, md, ev, sk, within=sl(k) if sl else None)
                probs += p; und += u
            fin(ctx, key, '%s with %s %d' % (short, what, v), f, sorted(set(probs)), sorted(set(und)))
    ctx.rule('on model files with three radii or several time steps, what is interpolated after loading with a valid selection is, element by element, the data of the radius or time step selected')
    c37.selected(ctx)
    ctx.need('loaders', done, 1)


def thrower(ai, fb):
    """the explicit throw reached, if it is the only way the function ends"""
    ts = [i for b in fb for i in ai.fn.blocks[b].insts if i.is_call() and (i.callee or '') == '__cxa_throw']
    return ts[0] if len(ts) == 1 else None
