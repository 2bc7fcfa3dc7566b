"""C05: arrays handed out by readers are fresh, caller-owned and separately releasable."""
import re
from absint import AbsInt, base_off, fmt, padd
import h5, loops
from c02 import R1, R2

R = {n: 2 for n in R2}
R.update({n: 1 for n in R1})
R.update({'GetMultiArray_linear': 1, 'GetIntArray': 2, 'GetIntList': 1, 'GetList': 1, 'GetMultiArray': 0})


def root(t):
    while True:
        b = base_off(t)[0]
        if b[0] == 'ld': t = b[1]; continue
        return b


def run(ctx):
    ctx.rule('every pointer a reader returns (and slot 0 of a returned row table) is the result of an array allocation made by the same call, is not stored in the file object or a container, and is not released before the return')
    m = ctx.module('--only', r'SFile')
    n = 0
    for cls in ('SFile_HDF5', 'SFile_MAT', 'SFile_SDT'):
        for short, nd in R.items():
            for fn in m.method(cls, short):
                if fn.scls == 'SFile' and not fn.suf: continue
                n += 1
                check(ctx, m, fn, cls, short, nd)
    ctx.need('readers', n, 30)


def check(ctx, m, fn, cls, short, nd):
    key = '%s.%s' % (cls, short); name = '%s::%s' % (cls, short)
    probs, und = [], []
    ai = h5.run(fn)
    rets = [fn.insts[r] for r in ai.rets if fn.insts[r].blk.id in ai.reached and fn.insts[r].blk.id in loops.can_return(ai)]
    if not rets: ctx.ok(key, fn, 'never returns data'); return
    mine = set()

    def judge(t, what, loc):
        b, o, v = base_off(t)
        if t == ('null',): return
        if b[0] == 'new':
            if o or v: probs.append((loc, 'returns a pointer into the middle of its %s, which cannot be released' % what)); return
            if b[2] != 'new[]': probs.append((loc, 'returns a %s obtained with %s, which array delete cannot release' % (what, b[2]))); return
            mine.add((b, what)); return
        if t[0] == 'ld' and t[1][0] == 'new':
            vs = slot0(ai, t[1])
            if vs:
                for x in vs: judge(x, what, loc)
                return
        r = root(t)
        for x in (b, r):
            if x[0] == 'call' and 'threadlocal.address' in str(fn.insts[x[1]].callee if isinstance(x[1], int) else x[1]): probs.append((loc, 'returns a %s that is a static variable' % what)); return
        if b[0] == 'g': probs.append((loc, 'returns a %s that is a static variable' % what)); return
        if b[0] in ('ld', 'arg', 'g', 'ptr') or t[0] in ('g', 'arg', 'ptr', 'idx'):
            if r[0] in ('arg', 'g'): probs.append((loc, 'returns a %s that is kept in %s' % (what, 'the file object' if r == ('arg', fn.this) else 'other storage'))); return
            if r[0] == 'call':
                d = m.dem(r[1])
                if re.search(r'std::(_Rb_tree|map|vector|list|unordered|__detail|__cxx11)', d) or 'iterator' in d:
                    probs.append((loc, 'returns a %s that is kept in a container of the file object' % what)); return
            if r[0] == 'alloca':
                # iterator object on the stack holding a container position
                probs2 = container_alloca(ai, m, r)
                if probs2: probs.append((loc, 'returns a %s that is kept in a container of the file object' % what)); return
        if b[0] == 'alloca': probs.append((loc, 'returns the address of a local variable')); return
        und.append('%s is %s' % (what, fmt(t, fn)))
    for r in rets:
        for t in ai.rets[r.id]:
            judge(t, 'row table' if nd == 2 else 'array', r.loc() if r.line else fn.loc())
            if nd == 2 and base_off(t)[0][0] == 'new':
                mem = ai.mem_at(r)
                # whatever was last stored in slot 0
                vals = slot0(ai, base_off(t)[0])
                if not vals: und.append('slot 0 of the row table not found')
                for v in vals:
                    if base_off(v)[0] == base_off(t)[0]: probs.append((r.loc(), 'row 0 lies inside the row table')); continue
                    judge(v, 'data block', r.loc() if r.line else fn.loc())
    tabs = {b for b, w in mine if w == 'row table'}
    datas = {b for b, w in mine if w == 'data block'}
    # escapes and premature release
    for i in ai.reached_insts():
        if i.blk.id not in loops.can_return(ai): continue
        if i.op == 'store':
            for v in ai.val(i.ops[0]):
                if any(base_off(v)[0] == b for b, w in mine):
                    for a in ai.val(i.ops[1]):
                        r = root(a)
                        if r[0] in ('arg', 'g') : probs.append((i.loc(), 'keeps the returned array in %s' % fmt(a, fn)))
        elif i.is_call() and i.callee:
            d = m.dem(i.callee)
            if d.startswith('operator delete') or i.callee in ('free', 'realloc'):
                vs = set()
                for v in ai.val(i.ops[0]): vs |= (slot0(ai, v[1]) or {v}) if v[0] == 'ld' and v[1][0] == 'new' else {v}
                for v in vs:
                    for b, w in mine:
                        if v == b and vs <= {x for x, _ in mine}: probs.append((i.loc(), 'releases the %s before returning it' % w))
            elif re.search(r'::(emplace|emplace_hint|insert|push_back|emplace_back|push_front|try_emplace|insert_or_assign)(<|\()', d):
                mem = ai.mem_at(i)
                for o in i.ops[1:]:
                    for v in ai.val(o):
                        if reach_heap(ai, mem, v, {b for b, w in mine}): probs.append((i.loc(), 'keeps the returned array in a container'))
    if probs: ctx.bad(key, probs[0][0], '%s %s' % (name, '; '.join(sorted({p[1] for p in probs}))), fn)
    elif und: ctx.undecided(key, '; '.join(sorted(set(und))), fn)
    else: ctx.ok(key, fn)


def reach_heap(ai, mem, v, mine):
    if base_off(v)[0] in mine: return True
    b = base_off(v)[0]
    if b[0] != 'alloca': return False
    for k, s in mem.c.items():
        if isinstance(k, tuple) and k and k[0] in ('alloca', 'ptr', 'idx', 'g') and base_off(k)[0] == b and any(base_off(x)[0] in mine for x in s): return True
    return False


def slot0(ai, tab):
    out = set()
    for i in ai.reached_insts():
        if i.op == 'store' and i.blk.id in loops.can_return(ai):
            for a in ai.val(i.ops[1]):
                if a == tab: out |= set(ai.val(i.ops[0]))
                elif base_off(a)[0] == tab and base_off(a)[2]:
                    # table[i] written in a loop starting at 0
                    p = ai.expand(a) - loops.Poly.atom(tab)
                    for v in ai.val(i.ops[0]):
                        q = ai.expand(v)
                        z = {k: c for k, c in p.m.items() if not any(t[0] == 'it' for t, _ in k)}
                        if not z:
                            q0 = {k: c for k, c in q.m.items() if not any(t[0] == 'it' for t, _ in k)}
                            if q0.get(((tab, 1),)) == 1: out.add(tab)
                            elif len(q0) == 1 and list(q0.values()) == [1] and len(list(q0)[0]) == 1: out.add(list(q0)[0][0][0])
    return out


def container_alloca(ai, m, r):
    for i in ai.reached_insts():
        if i.op == 'store' and r in ai.val(i.ops[1]):
            for v in ai.val(i.ops[0]):
                q = root(v)
                if q[0] == 'call' and re.search(r'std::(_Rb_tree|map|vector|list|unordered|__detail|__cxx11)', m.dem(q[1])): return True
    return False
