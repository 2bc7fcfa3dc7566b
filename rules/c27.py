"""C27: no function of the library writes to storage shared between objects."""
import json, re
from absint import AbsInt, base_off
import clone
from c15 import CACHES

HIDDEN = re.compile(r'^(strtok|rand|srand|random|srandom|drand48|lrand48|srand48|asctime|ctime|localtime|gmtime|strerror|setlocale|tmpnam|lgamma|lgammaf|gamma|gsl_set_error_handler\w*|setenv|putenv|signal)$')
MUTATOR = re.compile(r'::(operator=|operator\[\]|operator\+=|operator\+\+|push_back|push_front|insert|append|assign|clear|emplace\w*|resize|erase|pop_back|pop_front|reserve|replace|swap|fill|Initialize)\(')
WRITES0 = re.compile(r'^(llvm\.mem(cpy|move|set).*|mem(cpy|move|set)|s?n?printf|sprintf|snprintf|strn?cpy|strn?cat|fgets|strcat|scanf|gsl_interp_accel_(find|reset))$')
STREAM = re.compile(r'(^|.* )std::(__\w+::)?(basic_\w*(stream|filebuf|ios|stringbuf)|ios_base|operator<<|operator>>|getline|endl)\b')
EXEMPT = re.compile(r'^ProgressTracker::')


def run(ctx):
    ctx.rule('every store, block copy or modifying call in a function of the library whose target is a variable of static storage duration (or memory such a variable points to), outside the one-time initialisation of that variable and outside progress reporting, is reported')
    ctx.rule('no evaluation routine of a field, profile or distribution calls a C library routine with hidden static state')
    m = ctx.module('--keep', '.*', witness=('headers', 'vec', 'mat'))
    shared = {}
    for g, o in m.globals.items():
        if o.get('decl') or o.get('tls') or g.startswith(('llvm.', '.gomp_critical', '_ZGV', '_ZTV', '_ZTI', '_ZTS')): continue
        f = o.get('file') or ''
        if not f.startswith((ctx.repo if hasattr(ctx, 'repo') else m.repo) + '/'): continue
        if o.get('const'): continue
        shared[g] = o
    n = 0; nf = 0
    hits = {}
    pat = re.compile('|'.join(re.escape(g) for g in shared)) if shared else None
    for d, cls, sc, key, fl in m.index:
        nf += 1
        if EXEMPT.match(d) or '__cxx_global_var_init' in d or d.startswith('_GLOBAL__sub'): continue
        if pat is None or not pat.search(json.dumps(m._raw[key])): continue
        f = m.get(key)
        for g, i, what in writes(m, f, shared):
            n += 1
            hits.setdefault(g, (f, i, what))
    for g, o in sorted(shared.items()):
        nm = m.dem_g(g) or g
        if g in hits:
            f, i, what = hits[g]
            ctx.bad('static.' + nm, i.loc(), '%s %s %s, which every object and thread shares' % (f.dem.split('(')[0], what, nm), f)
        else: ctx.ok('static.' + nm, note='never modified after its initialisation')
    # hidden state
    cg = m
    roots = []
    for b in clone.BASES:
        for k in sorted(m.derived(b)):
            for d, c, sc, key, fl in m.index:
                if c == k and clone.EVALS.match(m._raw[key]['short']): roots.append(key)
    byname = {}
    for d, c, sc, key, fl in m.index: byname.setdefault(key[0], key)
    seen = set(); todo = list(roots); bad = []
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        f = m.get(k)
        for b in f.blocks.values():
            for i in b.insts:
                if i.is_call() and i.callee:
                    if HIDDEN.match(i.callee): bad.append((f, i))
                    elif i.callee in byname: todo.append(byname[i.callee])
    for f, i in bad: ctx.bad('hidden-state.%s.%s' % (f.dem.split('(')[0], i.callee), i.loc(), '%s calls %s, which keeps hidden static state' % (f.dem.split('(')[0], i.callee), f)
    for k in roots: ctx.ok('evaluation.' + m.get(k).dem, m.get(k))
    ctx.note('functions', nf) if hasattr(ctx, 'note') else None
    ctx.need('functions of the library', nf, 300)
    ctx.need('evaluation routines', len(roots), 10)


def root_global(t, shared):
    b = base_off(t)[0]; deep = False
    while b[0] == 'ld': b = base_off(b[1])[0]; deep = True
    return (b[1], deep) if b[0] == 'g' and b[1] in shared else (None, False)


def writes(m, f, shared, depth=0):
    ai = AbsInt(f)
    out = []
    for i in ai.reached_insts():
        tg = []
        if i.op == 'store': tg = [(i.ops[1], 'stores to')]
        elif i.op in ('atomicrmw', 'cmpxchg'): tg = [(i.ops[0], 'updates')]
        elif i.is_call():
            nm = i.callee or ''; dem = m.dem(nm) if nm else ''
            c = [a for p, a in CACHES if re.match(p, nm)]
            if c: tg = [(i.ops[a], 'looks up through') for a in c[0] if a < len(i.ops)]
            elif WRITES0.match(nm) and i.ops: tg = [(i.ops[0], 'writes to')]
            elif nm and MUTATOR.search(dem) and ') const' not in dem and i.ops: tg = [(i.ops[0], 'modifies')]
            elif nm and ') const' not in dem and i.ops and STREAM.match(dem) and not re.search(r'::~|::basic_\w+\(|is_open\(', dem): tg = [(i.ops[0], 'uses the stream')]
            elif nm and depth < 2:
                for k, op in enumerate(i.ops):
                    for t in ai.val(op):
                        g, deep = root_global(t, shared)
                        if g and callee_writes(m, nm, k): tg.append((op, 'passes to %s, which modifies it,' % dem.split('(')[0]))
        for op, what in tg:
            for t in ai.val(op):
                g, deep = root_global(t, shared)
                if g is None: continue
                if not deep and (shared[g].get('dty') or '').startswith('const ') and not initialising(f, i, g): continue
                if initialising(f, i, g):
                    if not tainted(ai, i.ops[:1] if i.op == 'store' else i.ops[1:]): continue
                    what = 'initialises, with what the first call happens to be given,'
                out.append((g, i, what + (' what is reached through' if deep else '')))
    return out


def tainted(ai, ops):
    """one of the values depends on an argument of the function (or on the object it is called on)"""
    seen = set(); todo = list(ops)
    while todo:
        op = todo.pop()
        if any(clone.mentions(t, ('arg',)) for t in ai.val(op)): return True
        if isinstance(op, int) and op not in seen and op in ai.fn.insts:
            seen.add(op); todo += [o for o in ai.fn.insts[op].ops]
    return False


def callee_writes(m, name, k):
    for d, c, sc, key, fl in m.index:
        if key[0] == name and not key[1]:
            f = m.get(key)
            ai = AbsInt(f)
            for i in ai.reached_insts():
                if i.op == 'store' and any(base_off(t)[0] == ('arg', k) for t in ai.val(i.ops[1])): return True
            return False
    return False


def initialising(f, i, g):
    """the instruction runs only on the path that won the initialisation guard of the variable"""
    for b in f.blocks.values():
        for j in b.insts:
            if j.is_call() and j.callee == '__cxa_guard_acquire':
                # reached only through the block(s) after a successful acquire
                for s in b.succs:
                    rel = any(x.is_call() and x.callee == '__cxa_guard_release' for q in region(f, s) for x in f.blocks[q].insts)
                    if rel and dominated(f, i.blk.id, s) and not after_release(f, i): return True
    return False


def region(f, s, n=60):
    seen = [s]; todo = [s]
    while todo and len(seen) < n:
        for q in f.blocks[todo.pop()].succs:
            if q not in seen: seen.append(q); todo.append(q)
    return seen


def dominated(f, b, d):
    ent = next(iter(f.blocks))
    if b == d: return True
    if ent == d: return True
    seen = {ent}; todo = [ent]
    while todo:
        for q in f.blocks[todo.pop()].succs:
            if q == d or q in seen: continue
            seen.add(q); todo.append(q)
    return b not in seen


def after_release(f, i):
    for b in f.blocks.values():
        for n, j in enumerate(b.insts):
            if j.is_call() and j.callee == '__cxa_guard_release':
                if b is i.blk and b.insts.index(i) > n: return True
                if b is not i.blk and dominated(f, i.blk.id, b.id): return True
    return False
