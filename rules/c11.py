"""C11: configuration parsing stops inside its input."""
import re
import cfg, px
from px import PX, Limit
from c09 import report


def stepping(fn, m):
    """blocks that step an iterator or a counter of their own (finite ranges)"""
    import loops
    out = set()
    for b, B in fn.blocks.items():
        for I in B.insts:
            if I.is_call() and re.search(r'__normal_iterator<.*>::operator(\+\+|--|\+=)', m.dem(I.callee or '')) and 'ConfigToken' not in m.dem(I.callee or ''): out.add(b)
    for h, body in loops.natural(fn).items():
        for I in fn.blocks[h].insts:
            if I.op != 'phi': break
            for o, p in zip(I.ops, I.d['pb']):
                if p in body and isinstance(o, int):
                    S = fn.insts[o]
                    if S.op in ('add', 'sub') and any(x == I.id for x in S.ops) and any(isinstance(x, dict) and x.get('k') == 'i' and x.get('v') for x in S.ops) or \
                            S.op == 'getelementptr' and S.ops[0] == I.id and S.d.get('off') and not S.d.get('var'):
                        # the counter decides when the loop ends
                        if decides(fn, body, I.id, o): out.add(S.blk.id)
    return out


def decides(fn, body, a, b):
    for x in body:
        t = fn.blocks[x].insts[-1]
        if t.op == 'br' and t.ops and isinstance(t.ops[0], int) and any(s not in body for s in fn.blocks[x].succs):
            c = fn.insts[t.ops[0]]
            if c.op == 'icmp' and (a in c.ops or b in c.ops): return True
    return False


def describe(fn, cyc):
    ls = []
    for s in cyc:
        for I in fn.blocks[s[0]].insts:
            if I.line and I.file.startswith(fn.mod.repo) and I.loc() not in ls: ls.append(I.loc())
    return ls


def run(ctx):
    ctx.rule('product of interpreter and lexer with "what is known about the current/next token type" and "is the read position known to be below the length": no move or read past the end-of-file token, no character read at a position not known to be below the length, '
             'every cycle of the product graph consumes at least one token or character (or steps a finite range); the length kept by the lexer is that of its text; file inclusion is bounded')
    m = ctx.module('--only', r'ConfigurationScript::', *cfg.KEEP)
    en = cfg.enum(m); n = 0
    for fn in (m.find(r'^ConfigurationScript::Interpret\(') if en else []):
        cl = cfg.Tok(fn, en, grammar=False)
        try: P = PX(fn, cl)
        except Limit: ctx.undecided('Interpret', getattr(cl, 'und', 'too many states'), fn); continue
        if not cl.adv: ctx.undecided('Interpret', 'token stream not recognised', fn); continue
        n += 1
        report(ctx, 'Interpret', cl.range, fn, '%d product states, %d moves, %d reads' % (len(P.seen), len(cl.adv), len(cl.reads)))
        st = stepping(fn, m)
        c = px.idle_cycle(P, lambda b: b in st)
        if c: ctx.bad('Interpret:cycle', describe(fn, c)[0] if describe(fn, c) else fn.loc(), 'the interpreter can go round without consuming a token: ' + ', '.join(describe(fn, c)[:6]), fn)
        else: ctx.ok('Interpret: every cycle consumes a token', fn)
    for fn in m.find(r'^ConfigurationScript::Lex\('):
        cl = cfg.Chars(fn, drop=False)
        try: P = PX(fn, cl)
        except Limit: ctx.undecided('Lex', cl.und or 'too many states', fn); continue
        if not cl.reads: ctx.undecided('Lex', 'character reads not recognised', fn); continue
        n += 1
        report(ctx, 'Lex', cl.range, fn, '%d product states, %d character reads' % (len(P.seen), len(cl.reads)))
        st = stepping(fn, m)
        c = px.idle_cycle(P, lambda b: b in st)
        if c: ctx.bad('Lex:cycle', describe(fn, c)[0] if describe(fn, c) else fn.loc(), 'the lexer can go round without consuming a character: ' + ', '.join(describe(fn, c)[:6]), fn)
        else: ctx.ok('Lex: every cycle consumes a character', fn)
        # nested Lex calls: depth bounded
        if cl.lexcalls:
            I = cl.lexcalls[0]
            if bounded(fn, I): ctx.ok('inclusion depth is compared with a limit', fn)
            else: ctx.bad('include:unbounded', I.loc(), 'files including each other are followed without limit', fn)
    for fn in m.find(r'^ConfigurationScript::initbuffer\('):
        r = initlen(fn)
        if r is None: ctx.undecided('initbuffer', 'length not recognised', fn)
        elif r is True: ctx.ok('initbuffer: length is that of the text, position starts at its beginning', fn); n += 1
        else: ctx.bad('initbuffer', fn.loc(), r, fn); n += 1
    ctx.need('parser functions decided', n, 1)


def initlen(fn):
    from absint import AbsInt
    m = fn.mod; c = 'ConfigurationScript'
    ai = AbsInt(fn)
    off = {k: m.field_off(c, k) for k in ('cnfbufferpos', 'cnfbufferlength', 'cnfbuffer')}
    if None in off.values(): return None
    this = ('arg', fn.this); arg = ('arg', fn.this + 1)
    asg = False
    for I in fn.calls(r'basic_string<char.*>::(operator=|assign)\('):
        a = ai.opv(I.ops[0]); b = ai.opv(I.ops[1])
        from absint import padd
        if a == frozenset([padd(this, off['cnfbuffer'])]) and b == frozenset([arg]): asg = True
    if not asg: return None
    import absint
    res = {}
    for r in ai.rets:
        mem = ai.mem_at(fn.insts[r])
        for k in ('cnfbufferpos', 'cnfbufferlength'):
            res.setdefault(k, set()).update(ai.load(mem, absint.padd(this, off[k]), 'i64'))
    if res.get('cnfbufferpos') != {('i', 0)}: return 'reading does not start at the beginning of the text'
    ok = True
    for t in res.get('cnfbufferlength', ()):
        I = fn.insts.get(t[2]) if t[0] == 'call' else None
        if I is not None and re.search(r'basic_string<char.*>::(length|size)\(', m.dem(I.callee)):
            a = ai.opv(I.ops[0])
            if a == frozenset([arg]): continue
            if a == frozenset([absint.padd(this, off['cnfbuffer'])]) : continue
        if t[0] == 'op' and t[1] in ('add', 'sub') or t[0] == 'i': return 'the length kept is not that of the text'
        ok = None
    return ok


def bounded(fn, I):
    """some integer field of the object is incremented and compared with a constant before the nested call"""
    m = fn.mod
    for B in fn.blocks.values():
        for s in B.insts:
            if s.op == 'store' and isinstance(s.ops[0], int):
                a = fn.insts[s.ops[0]]
                if a.op == 'add' and any(isinstance(x, dict) and x.get('v') == 1 for x in a.ops):
                    l = [x for x in a.ops if isinstance(x, int)]
                    if l and fn.insts[l[0]].op == 'load' and same(fn, fn.insts[l[0]].ops[0], s.ops[1]):
                        # compared with a constant
                        for C in fn.blocks.values():
                            for c in C.insts:
                                if c.op == 'icmp' and any(isinstance(x, dict) and x.get('k') == 'i' and x['v'] > 0 for x in c.ops):
                                    y = [x for x in c.ops if isinstance(x, int)]
                                    if y and fn.insts[y[0]].op == 'load' and same(fn, fn.insts[y[0]].ops[0], s.ops[1]): return True
    return False


def same(fn, a, b):
    if a == b: return True
    if isinstance(a, int) and isinstance(b, int):
        x, y = fn.insts[a], fn.insts[b]
        return x.op == y.op == 'getelementptr' and x.ops == y.ops and x.d.get('off') == y.d.get('off') and not x.d.get('var')
    return False
