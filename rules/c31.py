"""C31: progress notifications: shared state under one lock, one report per point, evenly spread points."""
import re
from absint import AbsInt, base_off, fmt, mkptr
from alg import C, V, ONE, ZERO, Opaque, add, conv, mul, sub, show, sign
import alg
from c19 import ordered

CLS = 'ProgressTracker'
ACQ = re.compile(r'^(__kmpc_critical(_with_hint)?|GOMP_critical_(name_)?start|pthread_mutex_lock|omp_set_lock)$')
REL = re.compile(r'^(__kmpc_end_critical|GOMP_critical_(name_)?end|pthread_mutex_unlock|omp_unset_lock)$')
ACQD = re.compile(r'^(std::(recursive_)?mutex::lock\(|std::(lock_guard|unique_lock|scoped_lock)<.*>::(lock_guard|unique_lock|scoped_lock)\()')
RELD = re.compile(r'^(std::(recursive_)?mutex::unlock\(|std::(lock_guard|unique_lock|scoped_lock)<.*>::~)')


def equal(a, b): return alg.equal(a, b)[0] == 'yes'


def chain(t, me):
    """path of loads from the object to an address: tuple of offsets, or None"""
    b, o, v = base_off(t)
    if v: return None
    if b == me: return (o,)
    if b[0] == 'ld':
        c = chain(b[1], me)
        return None if c is None else c + (o,)
    return None


def outside(i, d, args, mem, ai):
    """library text and clock routines do not touch the tracker"""
    return frozenset([('res', i.id)]) if d and re.search(r'\bstd::|FormattedTimeString', d) else None


def ident(i, ai):
    """which lock a locking call is about"""
    for o in reversed(i.ops):
        for t in ai.ev(o):
            b, off, v = base_off(t)
            if b[0] == 'g' and b[1].startswith('.gomp_critical'): return b[1]
    for o in i.ops:
        for t in ai.ev(o):
            c = chain(t, ('arg', 0))
            if c: return ('member',) + c
            b, off, v = base_off(t)
            if b[0] == 'g': return b[1]
            if b[0] == 'alloca': return b
    return '?'


def run(ctx):
    ctx.rule('every access, on any path of a progress notification, to a member (or object behind a member) that a notification modifies happens while one and the same critical section is held')
    ctx.rule('a notification below the next point changes and prints nothing; at or above it, exactly one point is reported, under the number of that point, and the next point follows at total/nprint (plus one for the first total%nprint points)')
    ctx.rule('a duration is handed to the formatter as units which add up to it, none larger than the next larger unit')
    m = ctx.module('--ctors', '--keep', r'::FormattedTimeString', '--only', CLS)
    pp = [f for f in m.find(r'^ProgressTracker::PrintProgress\(', suf='')]
    ct = [f for f in m.find(r'^ProgressTracker::ProgressTracker\(', suf='') if len(f.args) >= f.this + 3]
    n = 0
    for f in pp:
        n += 1
        locks(ctx, m, f)
        if ct: account(ctx, m, f, ct[0])
        else: ctx.undecided('points', 'constructor not found')
    for f in m.find(r'^ProgressTracker::TimeString(\[abi:cxx11\])?\(', suf=''): split(ctx, m, f)
    ctx.need('progress notifications', n, 1)


# ---------------------------------------------------------------- lock sets
def locks(ctx, m, f):
    me = ('arg', f.this)
    ai = AbsInt(f, eh=True, callhook=outside)
    held = {0: None}
    order = [b for b in f.rpo() if b in ai.reached]
    ins = {}
    def step(i, s):
        d = m.dem(i.callee) if i.is_call() and i.callee else ''
        if i.is_call() and i.callee and (ACQ.match(i.callee) or ACQD.match(d)):
            return s | {ident(i, ai)}
        if i.is_call() and i.callee and (REL.match(i.callee) or RELD.match(d)):
            x = ident(i, ai)
            return frozenset(l for l in s if l != x and x != '?')
        return s
    ins[order[0]] = frozenset()
    ch = True
    while ch:
        ch = False
        for b in order:
            if b not in ins: continue
            s = ins[b]
            for i in f.blocks[b].insts: s = step(i, s)
            for (x, y) in ai.edges:
                if x != b: continue
                w = s if y not in ins else ins[y] & s
                if ins.get(y) != w: ins[y] = w; ch = True
    acc = []      # (chain, write?, inst, lockset)
    for b in order:
        s = ins.get(b, frozenset())
        for i in f.blocks[b].insts:
            if i.op in ('load', 'store'):
                for t in ai.ev(i.ops[0 if i.op == 'load' else 1]):
                    c = chain(t, me)
                    if c: acc.append((c, i.op == 'store', i, s))
            elif i.is_call() and not (i.callee and (ACQ.match(i.callee) or REL.match(i.callee) or ACQD.match(m.dem(i.callee)) or RELD.match(m.dem(i.callee)))):
                if i.callee and i.callee.startswith('llvm.') and 'mem' not in i.callee: continue
                for k, o in enumerate(i.ops):
                    for t in ai.ev(o):
                        c = chain(t, me)
                        if c and len(c) > 1: acc.append((c, bool(i.callee and re.match(r'llvm\.mem(cpy|move|set)', i.callee) and k == 0), i, s))
            s = step(i, s)
    wr = {}
    for c, w, i, s in acc:
        if w: wr.setdefault(c, []).append(i)
    def nm(c):
        x = m.field_at(CLS, c[0])
        x = x[0] if isinstance(x, tuple) else x
        return '%s%s' % ('*' if len(c) > 1 else '', x or 'offset %d' % c[0])
    groups = {}
    for c, w, i, s in acc:
        # an access overlaps a modified object if they share the path
        for d in wr:
            if c == d or len(c) > 1 and c[:-1] == d[:-1]:
                groups.setdefault(d[:1] if len(d) > 1 else d, []).append((i, s, w, c)); break
    common = None
    for g, xs in sorted(groups.items()):
        free = [(i, w, c) for i, s, w, c in xs if not s]
        if free:
            i, w, c = free[0]
            ctx.bad('lock.' + nm(g + (0,) if len(c) > 1 else g), i.loc(), '%s %s outside the critical section, while another thread may %s it' % ('writes' if w else 'reads', nm(c), 'use' if w else 'change'), f)
            continue
        ls = frozenset.intersection(*[s for i, s, w, c in xs])
        if not ls: ctx.bad('lock.' + nm(g), xs[0][0].loc(), '%s is protected by different critical sections' % nm(g), f)
        elif '?' in ls and len(ls) == 1: ctx.undecided('lock.' + nm(g), 'lock not identified', f)
        elif all(isinstance(l, tuple) and l[0] == 'alloca' for l in ls): ctx.bad('lock.' + nm(g), xs[0][0].loc(), '%s is protected by a lock of this call only' % nm(g), f)
        else: ctx.ok('lock.' + nm(g), f, '%d accesses' % len(xs))
    # released on every way out
    for b in order:
        last = f.blocks[b].insts[-1]
        if last.op == 'ret':
            s = ins.get(b, frozenset())
            for i in f.blocks[b].insts: s = step(i, s)
            if any(isinstance(l, str) and l.startswith('.gomp') for l in s): ctx.bad('lock.release', last.loc(), 'returns with the critical section held', f)
            else: ctx.ok('lock.release', f)
    if not wr: ctx.undecided('lock', 'a notification modifies no member', f)


# ---------------------------------------------------------------- points
D, M, K, W, U = V('d'), V('m'), V('k'), V('w'), V('u')


def grid():
    """(name, d, m, nprint) for every relation of total to nprint; positive variables d, m, w"""
    for dn, d in (('total below nprint', ZERO), ('total above nprint', D)):
        for mn, mm in (('remainder 0', ZERO), ('remainder 1', ONE), ('remainder above 1', add(ONE, M))):
            if d is ZERO and mm is ZERO: continue
            yield dn + ', ' + mn, d, mm


def leaffor(f, mem, nt, N):
    """leaf: total = d*N + m"""
    def leaf(t):
        if t[0] == 'op' and t[1] in ('sdiv', 'udiv', 'srem', 'urem'):
            try: a, b = conv(t[2], leaf), conv(t[3], leaf)
            except Opaque: return None
            if equal(a, nt[0]) and equal(b, N): return nt[1] if 'div' in t[1] else nt[2]
            return None
        return mem(t)
    return leaf


def account(ctx, m, f, ct):
    off = {k: m.field_off(CLS, k) for k in ('next', 'nextindex')}
    if None in off.values(): ctx.undecided('points', 'members next and nextindex not found'); return
    intm = [(n, o, ty, sz) for n, o, ty, sz in m.classes[CLS]['members'] if sz in (64, 8) and '*' not in str(ty)]
    a0 = ct.this + 1
    seen = 0
    for name, d, mm in grid():
        N = add(mm, W)
        tot = add(mul(d, N), mm)
        pos = [D, M, W, K, U]

        def argleaf(t):
            if t == ('arg', a0): return tot
            if t == ('arg', a0 + 1): return N
            return None
        leaf = leaffor(ct, argleaf, (tot, d, mm), N)
        ai = AbsInt(ct, cmp=lambda p, a, b: ordered(unsig(p), a, b, leaf, {}, pos), callhook=outside)
        st = {}
        for r in ai.rets:
            if ct.insts[r].blk.id not in ai.reached: continue
            mem = ai.mem_at(ct.insts[r])
            for n_, o, ty, sz in m.classes[CLS]['members']:
                ts = ai.load(mem, mkptr(('arg', ct.this), o), 'i64')
                for t in ts:
                    try: st.setdefault(o, set()).add(conv(t, leaf))
                    except Opaque: st.setdefault(o, set()).add(None)
        st = {o: next(iter(e)) for o, e in st.items() if len(e) == 1 and None not in e}
        if off['next'] not in st or off['nextindex'] not in st:
            ctx.undecided('points.start.' + name, 'state after construction not understood', ct); continue
        first = add(d, ONE if mm is not ZERO else ZERO)
        shift = sub(st[off['nextindex']], ONE)
        if not equal(st[off['next']], first):
            ctx.bad('points.start.' + name, ct.loc(), 'first progress point of %s: expected %s, constructor sets %s' % (name, show(first), show(st[off['next']])), ct); continue
        ctx.ok('points.start.' + name, ct)
        seen += 1
        # states before the k-th report
        cases = []
        if mm is ZERO: cases += [('k above the remainder', K, ZERO)]
        elif mm is ONE: cases += [('k = remainder', ONE, ONE), ('k above the remainder', add(ONE, K), ONE)]
        else: cases += [('k below the remainder', K, add(K, V('j'))), ('k = remainder', K, K), ('k above the remainder', add(mm, K), mm)]
        for cn, k, Mv in cases:
            if d is ZERO and 'above' in cn: continue     # all work is done
            Nv = add(Mv, W); tv = add(mul(d, Nv), Mv)
            below = sign(sub(Mv, k), [D, M, W, K, V('j')])
            nxt = add(mul(k, d), k if below in (0, 1) else Mv)
            want = add(mul(add(k, ONE), d), add(k, ONE) if below == 1 else Mv)
            # other members as formulas of this case
            sub_ = {M: sub(Mv, ONE)} if mm not in (ONE, ZERO) else {}
            vals = {o: alg.subst(e, sub_) for o, e in st.items()}
            vals[off['next']] = nxt; vals[off['nextindex']] = add(k, shift)
            for un, iv, hit in (('below', sub(nxt, U), False), ('at', nxt, True), ('beyond', add(nxt, U), True)):
                key = 'points.%s.%s.%s' % (name, cn, un)
                notify(ctx, m, f, off, vals, iv, hit, k, want, shift, Nv, tv, d, Mv, key, '%s, %s' % (name, cn))
    return seen


def unsig(p): return {'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}.get(p, p)


SAMPLE = {D: C(3), M: C(2), K: C(2), W: C(4), U: C(1), V('j'): C(2)}


def notify(ctx, m, f, off, vals, iv, hit, k, want, shift, N, tot, d, mm, key, where, again=True):
    def retry():
        # the order of the quantities depends on their values: one instance of the case
        g = lambda e: alg.subst(e, SAMPLE)
        notify(ctx, m, f, off, {o: g(e) for o, e in vals.items()}, g(iv), hit, g(k), g(want), g(shift), g(N), g(tot), g(d), g(mm), key, where + ', e.g. total = %s, nprint = %s' % (show(g(tot)), show(g(N))), False)
    me = ('arg', f.this)
    pos = [D, M, W, K, U, V('j')]

    def memleaf(t):
        if t == ('arg', f.this + 1): return iv
        if t[0] == 'ld' and len(t) == 2:
            c = chain(t[1], me)
            if c and len(c) == 1 and c[0] in vals: return vals[c[0]]
        return None
    leaf = leaffor(f, memleaf, (tot, d, mm), N)
    ai = AbsInt(f, cmp=lambda p, a, b: ordered(unsig(p), a, b, leaf, {}, pos),
                callhook=outside)
    rets = [r for r in ai.rets if f.insts[r].blk.id in ai.reached]
    if not rets: ctx.bad(key, f.loc(), 'a notification %s never returns' % where, f); return
    res = {}
    for r in rets:
        mem = ai.mem_at(f.insts[r])
        for n_ in ('next', 'nextindex'):
            for t in ai.load(mem, mkptr(me, off[n_]), 'i64'):
                try: res.setdefault(n_, set()).add(conv(t, leaf))
                except Opaque: res.setdefault(n_, set()).add(None)
    exp = {'next': want if hit else vals[off['next']], 'nextindex': add(k, add(ONE, shift)) if hit else vals[off['nextindex']]}
    prints = [i for b in ai.reached for i in f.blocks[b].insts if i.is_call() and i.callee in ('printf', 'fprintf', 'puts')]
    if not hit and prints: ctx.bad(key, prints[0].loc(), 'progress is printed before the next point is reached (%s)' % where, f); return
    for n_ in ('next', 'nextindex'):
        if None in res[n_]: ctx.undecided(key, '%s after the notification not understood' % n_, f); return
        w = [e for e in res[n_] if not equal(e, exp[n_])]
        if w:
            if len(res[n_]) > 1 and again: retry(); return
            if len(res[n_]) > 1: ctx.undecided(key, 'several outcomes for %s' % n_, f); return
            ctx.bad(key, f.loc(), 'after %s notification (%s) %s is %s, expected %s' % ('a' if hit else 'an early', where, n_, show(w[0]), show(exp[n_])), f); return
    if hit:
        for i in prints:
            fm = None
            for t in ai.ev(i.ops[0]):
                if t[0] == 'g': fm = m.cstr(t[1], t[2] if len(t) > 2 else 0)
            if not fm or '/' not in fm: continue
            nums = []
            for o in i.ops[1:]:
                for t in ai.ev(o):
                    try: nums.append(conv(t, leaf))
                    except Opaque: pass
            conv_ = re.findall(r'%[-0-9.]*(?:ll|l|h)?([diuxsfeg])', fm)
            if len(nums) >= 2 and conv_[:2] == ['d', 'd']:
                if not equal(nums[0], k): ctx.bad(key, i.loc(), 'point number %s is reported as %s' % (show(k), show(nums[0])), f); return
                if not equal(nums[1], N): ctx.bad(key, i.loc(), 'the number of points is reported as %s' % show(nums[1]), f); return
    ctx.ok(key, f)


# ---------------------------------------------------------------- durations
UNITS = [86400000, 3600000, 60000, 1000, 1]
SAMPLES = [0, 1, 7, 999, 1000, 1001, 59999, 60000, 61234, 3599999, 3600000, 3661001, 86399999, 86400000, 90061001, 172800000, 987654321, 31536000000 + 12345]


def split(ctx, m, f):
    a0 = f.this + 1
    for tu in range(1, 6):
        ai = AbsInt(f, arg_terms={len(f.args) - 1: ('i', tu)})
        calls = [i for b in ai.reached for i in f.blocks[b].insts if i.is_call() and i.callee and 'FormattedTimeString' in m.dem(i.callee)]
        key = 'duration.unit%d' % tu
        if len(calls) != 1: ctx.undecided(key, 'formatter call not found', f); continue
        ops = calls[0].ops
        k = len(ops) - 6
        parts = []
        for o in ops[k:k + 5]:
            ts = ai.ev(o)
            parts.append(next(iter(ts)) if len(ts) == 1 else None)
        if None in parts: ctx.undecided(key, 'units are not single values', f); continue
        try:
            for s in SAMPLES:
                rem = s; exp = []
                for x, u in enumerate(UNITS):
                    q = rem // u if x + 1 >= tu else 0
                    exp.append(q); rem -= q * u
                got = [num(p, a0, s) for p in parts]
                if got != exp:
                    ctx.bad(key, calls[0].loc(), '%d ms is split into %s (days, hours, minutes, seconds, milliseconds), expected %s' % (s, got, exp), f); break
            else: ctx.ok(key, f)
        except Opaque as e: ctx.undecided(key, 'units not understood: %s' % e, f)


def num(t, ms, v):
    if t == ('arg', ms): return v
    if t[0] == 'i': return t[1]
    if t[0] == 'op' and len(t) == 4:
        a, b = num(t[2], ms, v), num(t[3], ms, v)
        o = t[1]
        if o == 'add': return a + b
        if o == 'sub': return a - b
        if o == 'mul': return a * b
        if o in ('sdiv', 'udiv') and b: return int(a / b) if a * b < 0 else a // b
        if o in ('srem', 'urem') and b: return a - b * (a // b)
    raise Opaque(repr(t)[:80])
