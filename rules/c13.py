"""C13: shorthand overloads hand their coordinates to the full form unchanged."""
import re
from absint import AbsInt, Poly, base_off, fmt, to_poly

F3 = r'::%s\(double, double, double\)'
D = r'double( const)?'


def slotname(m, fn, cls_hint, t):
    """names a virtual call through `t' (loaded vtable entry) can reach: (object term, set of demangled names)"""
    if t[0] != 'ld': return None
    b, off, var = base_off(t[1])
    if var or b[0] != 'ld': return None
    obj = b[1]
    out = set()
    for c in cls_hint:
        s = m.vts.get(c)
        if s and off // 8 < len(s) and s[off // 8] and s[off // 8] != '__cxa_pure_virtual': out.add(m.dem(s[off // 8]))
    return obj, out


def target(m, fn, inst, ai, classes):
    """(callee names, object term)"""
    if inst.callee:
        o = ai.val(inst.ops[0]) if inst.ops else frozenset()
        return {m.dem(inst.callee)}, (next(iter(o)) if len(o) == 1 else None)
    for t in ai.opv(inst.d['cv']):
        r = slotname(m, fn, classes, t)
        if r and r[1]: return r[1], r[0]
    return set(), None


def inputs_only(t, depth=0):
    """is the value built from arguments, their pointees at entry, members and constants alone?"""
    if not isinstance(t, tuple): return True
    if t[0] in ('i', 'f', 'arg', 'null', 'nan', 'sym'): return True
    if t[0] == 'ld': return len(t) == 2 and inputs_only(t[1], depth + 1)
    if t[0] in ('ptr', 'op', 'cast', 'pure', 'idx'): return all(inputs_only(x, depth + 1) for x in t[1:] if isinstance(x, tuple))
    return all(inputs_only(x, depth + 1) for x in t) if not isinstance(t[0], str) else False


def comp(m, fn, spec):
    """expected term of one forwarded argument"""
    k = spec[0]
    if k == 'a': return ('arg', fn.this + spec[1])
    if k == 'f': return ('f', spec[1])
    if k == 'm':
        off = m.field_off(fn.cls, spec[1])
        return None if off is None else ('ld', ('ptr', ('arg', fn.this), off + 8 * spec[2])) if off + 8 * spec[2] else ('ld', ('arg', fn.this))
    if k == 'c':
        i = fn.this + spec[1]
        ty = fn.sig[1 + i] if len(fn.sig) > 1 + i else ''
        base = 0
        if 'Vector' in ty:
            c = next((c for c in m.classes if c.startswith('Vector<3')), None)
            for n, o, t, sz in (m.classes[c]['members'] if c else ()):
                if '[3]' in t: base = o
        o = base + 8 * spec[2]
        return ('ld', ('ptr', ('arg', i), o)) if o else ('ld', ('arg', i))


def judge_args(m, fn, inst, ai, want, name, problems, und):
    got = inst.ops[1:]
    if len(got) < len(want): und.append('unexpected call form'); return
    for k, (o, w) in enumerate(zip(got, want)):
        e = comp(m, fn, w)
        ts = ai.val(o)
        if e is None: und.append('parameter %d: member not found' % (k + 1)); continue
        for t in ts:
            d = t
            while d[0] == 'cast': d = d[2]
            if d == e: continue
            if e[0] == 'f' and d == ('f', -0.0): continue
            if ai.expand(d) == ai.expand(e): continue
            if inputs_only(d): problems.append((inst.loc(), 'passes %s as argument %d of %s instead of %s' % (pretty(m, fn, d), k + 1, name, pretty(m, fn, e))))
            else: und.append('argument %d is %s' % (k + 1, fmt(d, fn)[:80]))


def pretty(m, fn, t):
    if t[0] == 'ld':
        b, o, v = base_off(t[1])
        if b[0] == 'arg' and b[1] != fn.this and not v:
            base = 8 if 'Vector' in (fn.sig[1 + b[1]] if len(fn.sig) > 1 + b[1] else '') else 0
            return 'component %d of argument %d' % ((o - base) // 8, b[1] - fn.this)
    if t[0] == 'arg': return 'argument %d' % (t[1] - fn.this)
    return fmt(t, fn)


def returned(m, fn, ai, calls, problems, und):
    ids = {('call', c.callee or 'indirect', c.id): c for c in calls}
    for r, ts in ai.rets.items():
        if fn.insts[r].blk.id not in ai.reached: continue
        for t in ts:
            d = t
            while d[0] == 'cast' and d[1] in ('zext', 'trunc', 'sext'): d = d[2]
            if d in ids: continue
            at = []
            st = [d]
            while st:
                x = st.pop()
                if x in ids: at.append(x)
                elif isinstance(x, tuple): st += [y for y in x if isinstance(y, tuple)]
            if at: problems.append((fn.loc(), 'changes the result of the full form before returning it'))
            elif inputs_only(d): problems.append((fn.loc(), 'can return %s without asking the full form' % fmt(d, fn)))
            else: und.append('returns %s' % fmt(d, fn)[:60])


def forward(ctx, m, fn, full, want, classes, key=None):
    key = key or '%s%s' % (re.sub(r' ', '', fn.dem), fn.suf)
    ai = AbsInt(fn, eh=False)
    problems, und, calls = [], [], []
    for i in ai.reached_insts():
        if not i.is_call(): continue
        names, obj = target(m, fn, i, ai, classes)
        if names and all(re.search(full, n) for n in names):
            if obj is not None and base_off(obj)[0] != ('arg', fn.this): und.append('the full form is called on another object'); continue
            calls.append(i)
            nm = re.sub(r'\(.*', '', sorted(names)[0]).split('::')[-1]
            judge_args(m, fn, i, ai, want, nm, problems, und)
    if not calls: ctx.undecided(key, 'does not call the full form', fn); return
    returned(m, fn, ai, calls, problems, und)
    if problems: ctx.bad(key, problems[0][0], '%s %s' % (fn.dem, '; '.join(sorted({p[1] for p in problems}))), fn)
    elif und: ctx.undecided(key, '; '.join(sorted(set(und))), fn)
    else: ctx.ok(key, fn)


def run(ctx):
    ctx.rule('every shorthand overload calls the full form on the same object with component k of its coordinates (or the stated default) in position k, and returns its result unchanged')
    ctx.rule('composite distributions hand (p, xi) to their momentum-space part and the radius only as radius minus drift shift to their radial part')
    m = ctx.module('--only', r'MagneticField|Distribution|RadialProfile|Avalanche|ExponentialPitch', '--keep', r'::CrossesDomain\(double, double, double, double, double, double\)', '--keep', r'::IntersectsDomain3D\(double, double',
                   '--keep', r'::Eval\(double, double\)', '--keep', r'::(Eval|EvalDerivatives|EvalFlux|EvalFluxDerivatives)\(double, double, double\)', '--keep', r'::Find(MaxRadius|MinRadius|MaxMin)\(unsigned')
    n = 0
    mf = ['MagneticField2D'] + m.derived('MagneticField2D')
    v3 = [('c', 1, 0), ('c', 1, 1), ('c', 1, 2)]
    for cls in mf:
        for short in ('Eval', 'EvalDerivatives', 'EvalFlux', 'EvalFluxDerivatives'):
            for fn in m.method(cls, short):
                if fn.cls != cls: continue
                if not re.search(r'\((double\*|Vector<3u, double>&)( const)?\)', fn.dem): continue
                n += 1
                forward(ctx, m, fn, F3 % short, v3, [cls] if cls in m.vts and cls != 'MagneticField2D' else mf)
    six = r'::CrossesDomain\(double, double, double, double, double, double\)'
    ax = [('m', 'magnetic_axis', 0), ('f', 0.0), ('m', 'magnetic_axis', 1)]
    for pat, want in ((r'::CrossesDomain\(double\*\)', ax + v3), (r'::CrossesDomain\(double\*, double\*\)', v3 + [('c', 2, 0), ('c', 2, 1), ('c', 2, 2)]),
                      (r'::CrossesDomain\(double, double, double\)', ax + [('a', 1), ('a', 2), ('a', 3)])):
        for fn in m.find(pat, suf=''): n += 1; forward(ctx, m, fn, six, want, mf)
    for fn in m.find(r'::IntersectsDomain3D\(double\*, double\*, bool\)', suf=''):
        n += 1; forward(ctx, m, fn, r'::IntersectsDomain3D\(double, double', v3 + [('c', 2, 0), ('c', 2, 1), ('c', 2, 2), ('a', 3)], mf)
    # momentum-space distributions: (rho, p, xi, drift) -> (p, xi)
    ms = m.derived('MomentumSpaceDistributionFunction')
    for cls in ms:
        for fn in m.method(cls, 'Eval'):
            if fn.cls != cls or not re.search(r'::Eval\(double, double, double, double\)', fn.dem): continue
            n += 1; forward(ctx, m, fn, r'::Eval\(double, double\)', [('a', 2), ('a', 3)], [cls])
    # axis accessors
    for short, k in (('GetMagneticAxisR', 0), ('GetMagneticAxisZ', 1)):
        for fn in m.find(r'MagneticField2D::%s\(' % short, suf=''):
            n += 1
            ai = AbsInt(fn, eh=False); e = comp(m, fn, ('m', 'magnetic_axis', k)); r = ai.ret_terms()
            if r == {e}: ctx.ok(short, fn)
            elif all(inputs_only(t) for t in r) and e not in r: ctx.bad(short, fn.loc(), '%s returns %s instead of component %d of the magnetic axis' % (short, ', '.join(fmt(t, fn) for t in r), k), fn)
            else: ctx.undecided(short, 'returns %s' % ', '.join(fmt(t, fn)[:60] for t in r), fn)
    n += composite(ctx, m, ms)
    ctx.need('shorthand overloads', n, 12)


def composite(ctx, m, ms):
    n = 0
    rps = m.derived('RadialProfile')
    for cls in ('RadialDistributionFunction', 'NumericDistributionFunction', 'GOCODEDistributionFunction'):
        for fn in m.find(r'^%s::Eval\(double, double, double, double\)' % cls, suf=''):
            n += 1
            key = cls + '.Eval'
            problems, und = [], []
            R, P, X, S = (('arg', fn.this + k) for k in (1, 2, 3, 4))
            rho = Poly.atom(R) - Poly.atom(S)

            def hook(t):
                if t[0] == 'op' and t[1] in ('fadd', 'fsub'):
                    q = to_poly(t)
                    if q == rho: return ('sym', 'rho')
                return t
            ai = AbsInt(fn, eh=False, hook=hook)
            calls = {}
            for i in ai.reached_insts():
                if not i.is_call(): continue
                names, obj = target(m, fn, i, ai, ms + rps)
                ev = {x for x in names if re.search(r'::Eval\(', x)}
                if not ev: continue
                nd = len(i.ops) - 1
                if nd == 4: want = [R, P, X, S]; calls['m4'] = i
                elif nd == 2 and i.callee is None and obj is not None and cls == 'RadialDistributionFunction' and is_member(m, fn, obj, 'rp'): want = [R, S]; calls['rp'] = i
                elif nd == 2: want = [P, X]; calls['ms'] = i
                else: continue
                # rho passed as radius with no shift is the same
                for k, (o, e) in enumerate(zip(i.ops[1:], want)):
                    for t in ai.val(o):
                        if t == e: continue
                        if want == [R, S] and [next(iter(ai.val(x))) for x in i.ops[1:]] == [('sym', 'rho'), ('f', 0.0)]: continue
                        if inputs_only(t): problems.append((i.loc(), 'passes %s as argument %d of the inner evaluation instead of %s' % (pretty(m, fn, t), k + 1, pretty(m, fn, e))))
                        else: und.append('argument %d is %s' % (k + 1, fmt(t, fn)[:60]))
            if not calls: ctx.undecided(key, 'no inner evaluation found', fn); continue
            if cls == 'RadialDistributionFunction':
                if 'rp' in calls and 'ms' in calls:
                    e = Poly.atom(('call', 'indirect', calls['rp'].id)) * Poly.atom(('call', 'indirect', calls['ms'].id))
                    for t in ai.ret_terms():
                        if to_poly(t) != e:
                            if '?' in repr(t) or 'top' in repr(t): und.append('returns %s' % fmt(t, fn)[:80])
                            else: problems.append((fn.loc(), 'does not return the product of radial profile and momentum-space function'))
                else: und.append('inner evaluations not identified')
            else:
                # the radius and the drift shift are used only as their difference
                used = False
                for i in ai.reached_insts():
                    if i.op in ('phi', 'store', 'ret', 'call', 'invoke', 'select'): continue
                    ts = [ai.val(o) for o in i.ops]
                    if ('sym', 'rho') in set().union(*ts, ai.env.get(i.id, frozenset())): used = True
                    if any(t in (R, S) for s in ts for t in s):
                        res = ai.env.get(i.id, frozenset())
                        if res <= {('sym', 'rho'), ('op', 'fneg', S)}: continue
                        problems.append((i.loc(), 'uses the %s on its own in %s instead of their difference' % ('radius' if any(R in s for s in ts) else 'drift shift', ', '.join(fmt(x, fn) for x in res)[:80])))
                if not used and not problems: und.append('the shifted radius is never used')
            if problems: ctx.bad(key, problems[0][0], '%s %s' % (fn.dem, '; '.join(sorted({p[1] for p in problems})[:3])), fn)
            elif und: ctx.undecided(key, '; '.join(sorted(set(und))), fn)
            else: ctx.ok(key, fn)
    return n


def is_member(m, fn, obj, name):
    off = m.field_off(fn.cls, name)
    return obj == (('ld', ('ptr', ('arg', fn.this), off)) if off else ('ld', ('arg', fn.this)))
