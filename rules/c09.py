"""C09: every syntax error in a configuration is reported."""
import re
import cfg, px
from px import PX, Limit

STMT = {'S': 'at the start of a statement', 'N1': 'after a setting name', 'N2': "after '='", 'N3': 'after a value', 'B1': 'after a block type',
        'B2': 'after a block name', 'B3': "after '('", 'B4': 'after a secondary type', 'B5': "after ')'"}


class Through:
    """an entry point that calls the parser: a configuration exception leaves it, or the error flag is set"""
    def __init__(self, fn):
        self.fn = fn; self.m = fn.mod; self.this = ('arg', fn.this); self.calls = set(); self.bad = []
        self.ef = px.PX.addr(None, self.this, self.m.field_off('ConfigurationScript', 'errorflag'))

    def init(self, p): return (False, False)

    def call(self, p, st, I, dem, args):
        if re.match(r'^ConfigurationScript::(Lex|Interpret|FromString|FromFile)\(', dem):
            self.calls.add(I.id)
            return [(None, st, None), (None, (True, st[1]), 'ConfigurationException')]
        return None

    def store(self, p, st, I, a, v):
        if a == self.ef:
            if v == ('i', 0): self.bad.append((I, 'the error flag is cleared'))
            if v == ('i', 1): return [(st[0], True)]
            return [st]

    def ret(self, p, st, I, v, mem):
        if st[0] and not st[1]: self.bad.append((I, 'a configuration exception raised by the parser is swallowed'))


class Kind:
    """gettkn: the token type given to a text"""
    def __init__(self, fn, en):
        self.fn = fn; self.m = fn.mod; self.en = en; self.nm = {v: k for k, v in en.items()}; self.made = []
        self.ALL = sum(1 << v for v in en.values())
        self.pt = self.m.field_off('ConfigToken', 'type')
        self.prev = [('arg', i) for i, a in enumerate(fn.sig[1:]) if 'ConfigToken' in a][:1]
        self.prev = self.prev[0] if self.prev else None

    # (literals known equal/unequal, block type?, previous: None unknown, 0 none, mask)
    def init(self, p): return (None, frozenset(), None, None)

    def call(self, p, st, I, dem, args):
        lit, no, bt, pv = st
        m = re.match(r'^bool std::operator(==|!=)<char, .*basic_string', dem)
        if m or re.search(r'basic_string<char.*>::compare\(char const\*\)', dem):
            s = None
            for a in args:
                if a is not None and a[0] in ('g',): s = self.m.cstr(a[1])
                if a is not None and a[0] == 'p' and a[1][0] == 'g': s = self.m.cstr(a[1][1], a[2])
            if s is None: return None
            t, f = (('i', -1), ('i', 0))
            if m and m.group(1) == '!=': t, f = f, t
            if not m: t, f = ('i', 0), ('i', 1)
            if lit is not None: return [(t if lit == s else f, st, None)]
            if s in no: return [(f, st, None)]
            return [(t, (s, no, bt, pv), None), (f, (None, no | {s}, bt, pv), None)]
        if re.match(r'^Configuration::IsBlockType\(', dem):
            if bt is not None: return [(('i', -1 if bt else 0), st, None)]
            return [(('i', n), (lit, no, bool(n), pv), None) for n in (-1, 0)]
        if 'ConfigToken::ConfigToken(' in dem and len(args) > 4:
            t = args[1]
            self.made.append((I, st, t[1] if t is not None and t[0] == 'i' else None))
            return [(None, st, None)]
        return None

    def load(self, p, st, I, a):
        lit, no, bt, pv = st
        if self.prev is not None and a == px.PX.addr(None, self.prev, self.pt):
            if pv is None: return [(('pty',), (lit, no, bt, self.ALL))]
            return [(('pty',), st)]
        return None

    def split(self, p, st, I, pr, a, b):
        lit, no, bt, pv = st
        if a == self.prev and b == ('i', 0) and pr in ('eq', 'ne'):
            if pv is not None: return [((pv == 0) == (pr == 'eq'), st)]
            return [((n == 0) == (pr == 'eq'), (lit, no, bt, n)) for n in (0, self.ALL)]
        if b == ('pty',): a, b = b, a
        if a == ('pty',) and b[0] == 'i' and pr in ('eq', 'ne'):
            bit = 1 << b[1]; out = []
            for t, mm in ((True, pv & bit), (False, pv & ~bit)):
                if mm: out.append((t == (pr == 'eq'), (lit, no, bt, mm)))
            return out
        return None


class Incl:
    """include_file: of the tokens of the included text exactly the end-of-file token is taken away"""
    def __init__(self, fn): self.fn = fn; self.m = fn.mod; self.rets = []; self.lex = set(); self.und = None

    def init(self, p): return ('pre', 0)

    def call(self, p, st, I, dem, args):
        if re.search(r'ConfigurationScript::Lex\(', dem):
            self.lex.add(I.id); return [(None, ('post', 0), None)]
        g = re.search(r'std::vector<ConfigToken\*.*?>::(\w+|operator=)\(', dem)
        if g and st[0] == 'post':
            k = g.group(1)
            if k == 'pop_back': return [(None, ('post', min(3, st[1] + 1)), None)]
            if k in ('erase', 'resize', 'assign', 'insert', 'emplace', 'operator=', 'push_back', 'emplace_back'): self.und = k
            if k == 'clear': return [(None, ('post', 9), None)]
            if k in ('empty', 'size'): return None
        return None

    def ret(self, p, st, I, v, mem): self.rets.append((I, st))


def included(ctx, keep):
    """the file must have been opened, its text replaces the current one only while it is read, and its tokens are all handed on"""
    import c07, absint
    m = ctx.module('--only', r'ConfigurationScript::(include_file|FromFile)', '--keep', keep + r'|ConfigurationScript::(Lex|Interpret|FromString)\(')
    n = 0
    for short in ('include_file', 'FromFile'):
        for fn in m.find(r'^ConfigurationScript::%s\(' % short):
            f = c07.Fault(open=True); ai = c07.analyse(fn, f)
            key = '%s:missing file' % short
            rets = [i for i in ai.rets if fn.insts[i].blk.id in ai.reached]
            if not f.hits or f.exc or ai.diverged: ctx.undecided(key, 'opening of the file not recognised', fn)
            elif rets: ctx.bad(key, f.hits[0].loc(), '%s returns normally although the file could not be opened' % short, fn)
            elif not ai.escapes: ctx.undecided(key, 'no outcome', fn)
            else: ctx.ok(key, fn); n += 1
    for fn in m.find(r'^ConfigurationScript::include_file\('):
        cl = Incl(fn)
        try: PX(fn, cl)
        except Limit: ctx.undecided('include_file:tokens', 'too many states', fn); continue
        probs = []
        for I, st in cl.rets:
            if st[0] != 'post': probs.append((I, 'the included text is not read'))
            elif st[1] == 0 and not cl.und: probs.append((I, 'the end of an included file ends the configuration'))
            elif st[1] > 1: probs.append((I, 'tokens of an included file are dropped'))
        if cl.und and not probs: ctx.undecided('include_file:tokens', 'token list changed by %s' % cl.und, fn)
        elif cl.lex: report(ctx, 'include_file:tokens', probs, fn, 'one token removed')
        # position and length are those of the text that contained the directive
        def hook(inst, dem, args, mem, ai): return None
        ai = absint.AbsInt(fn)
        for f, what in (('cnfbufferpos', 'position'), ('cnfbufferlength', 'length')):
            o = m.field_off('ConfigurationScript', f)
            if o is None: continue
            a = absint.padd(('arg', fn.this), o); want = {('ld', a)}; got = set()
            for r in ai.rets:
                if fn.insts[r].blk.id in ai.reached: got |= set(ai.load(ai.mem_at(fn.insts[r]), a, 'i64'))
            key = 'include_file:%s' % what
            if got == want: ctx.ok(key, fn)
            elif any(t[0] in ('i', 'op') or t[0] == 'ld' and t not in want and absint.base_off(t[1])[0] == ('arg', fn.this) for t in got): ctx.bad(key, fn.loc(), 'after an include directive reading does not go on with the %s of the including text' % what, fn)
            else: ctx.undecided(key, str(got)[:80], fn)
    return n


LIT = {'=': 'EQUALS', '(': 'LPAR', ')': 'RPAR', '{': 'BLOCK_START', '}': 'BLOCK_END', ';': 'END_STATEMENT'}


def expected(en, st):
    lit, no, bt, pv = st
    if lit in LIT: return {LIT[lit]}
    if lit is None and not set(LIT) <= no: return None
    out = set()
    for k, v in en.items():
        if pv is None or pv & (1 << v):
            if k in ('EQUALS', 'VALUE'): out.add('VALUE')
            elif k == 'BLOCKTYPE': out.add('BLOCKNAME')
            else: out |= {'BLOCKTYPE'} if bt else ({'NAME'} if bt is False else {'BLOCKTYPE', 'NAME'})
    if pv == 0: out = {'BLOCKTYPE'} if bt else ({'NAME'} if bt is False else {'BLOCKTYPE', 'NAME'})
    return out


def run(ctx):
    ctx.rule('product of the interpreter (helpers inlined, exceptions followed by type) with the token grammar: on every path that returns normally with the error flag unset, the tokens passed form a sequence of complete statements ended by end-of-file, '
             'blocks opened become current and closed ones return to an existing parent, and the root block is current again; the lexer makes a token of all text it collects, skips only separators, white space and comments, '
             'reports strings and include directives left open, and gives every text its token type; entry points neither swallow the exception nor clear the flag')
    m = ctx.module('--only', r'ConfigurationScript::', *cfg.KEEP)
    en = cfg.enum(m)
    n = 0
    for fn in (m.find(r'^ConfigurationScript::Interpret\(') if en else []):
        cl = cfg.Tok(fn, en)
        try: P = PX(fn, cl)
        except Limit:
            ctx.undecided('Interpret', getattr(cl, 'und', 'too many states'), fn); continue
        if not cl.adv or not cl.rets: ctx.undecided('Interpret', 'token stream not recognised', fn); continue
        n += 1
        probs = set()
        for I, st, v in cl.rets:
            pos, cur, nxt, g, err, fx = st
            if err: continue
            if g[0] == 'BAD': probs.add('BAD'); continue
            if g[0] == 'ERR': probs.add('a reported error is forgotten'); continue
            if cur & ~cl.EOF: probs.add('the rest of the input is ignored when the interpreter stops before end-of-file'); continue
            if not g[0].startswith('S'): probs.add('input ending %s is accepted' % STMT.get(g[0], '')); continue
            if cl.hdr is None: continue
            if fx[1] is None or fx[1][1] is not True: probs.add('a block left open at end-of-file is accepted')
            else:
                r = cl.want(fx[1][0], g, fx)
                if r is None: ctx.undecided('Interpret:blocks', 'current block not tracked', fn)
                elif r is not True: probs.add(r)
        for B, r in cl.blkbad: probs.add(r)
        if 'BAD' in probs:
            probs.discard('BAD')
            for (s, k), I in sorted(cl.badinfo.items()):
                if bad_reaches(P, cl, s, k):
                    ctx.bad('Interpret:%s:%s' % (s, k), fn.loc(), 'token %s %s is passed over without the error flag being set' % (k, STMT.get(s, s)), fn)
            if not any(k.startswith('Interpret:') for k, _, _ in ctx.viol):
                ctx.bad('Interpret:token', fn.loc(), 'an unexpected token is passed over without the error flag being set', fn)
        for r in sorted(probs): ctx.bad('Interpret:' + r, fn.loc(), r, fn)
        if not any(v[0].startswith('Interpret') for v in ctx.viol):
            ctx.ok('Interpret: %d product states, %d token moves, %d error exits' % (len(P.seen), len(cl.adv), cl.esc), fn)
        if cl.hdr is None or cl.blkund: ctx.undecided('Interpret:blocks', 'current block not tracked', fn)
    # lexer
    keep2 = cfg.KEEP[1] + r'|ConfigurationScript::(nextc|include_file)\('
    m2 = ctx.module('--only', r'ConfigurationScript::', '--keep', keep2)
    for fn in m2.find(r'^ConfigurationScript::Lex\('):
        cl = cfg.Buf(fn)
        cl.buffer = buffer_of(fn)
        if cl.buffer is None: ctx.undecided('Lex', 'text buffer not recognised', fn); continue
        try: P = PX(fn, cl)
        except Limit: ctx.undecided('Lex', 'too many states', fn); continue
        if not cl.next or not cl.tokens: ctx.undecided('Lex', 'characters or tokens not recognised', fn); continue
        n += 1
        report(ctx, 'Lex', cl.bad + ([] if cl.incloop else cl.incdrop), fn, '%d product states' % len(P.seen))
    for fn in m2.find(r'^ConfigurationScript::nextc\('):
        cl = cfg.Chars(fn)
        try: P = PX(fn, cl)
        except Limit: ctx.undecided('nextc', cl.und or 'too many states', fn); continue
        if not cl.reads: ctx.undecided('nextc', 'character reads not recognised', fn); continue
        if cl.und: ctx.undecided('nextc', cl.und, fn); continue
        n += 1
        report(ctx, 'nextc', [(I, 'character(s) %s can be skipped' % ' '.join(sorted(repr(c) if c != 'x' else 'ordinary text' for c in s))) for I, s in cl.dropped], fn, '%d product states' % len(P.seen))
    for fn in (m2.find(r'^ConfigurationScript::gettkn\(') if en else []):
        cl = Kind(fn, en)
        try: P = PX(fn, cl)
        except Limit: ctx.undecided('gettkn', 'too many states', fn); continue
        if len(cl.made) < 4: ctx.undecided('gettkn', 'token construction not recognised', fn); continue
        n += 1
        bad = []; und = False
        for I, st, t in cl.made:
            e = expected(en, st)
            if t is None or e is None: und = True; continue
            if cl.nm.get(t) not in e: bad.append((I, 'text %s becomes a %s token instead of %s' % (repr(st[0]) if st[0] else '', cl.nm.get(t), '/'.join(sorted(e)))))
            elif len(e) > 1: bad.append((I, 'text of kind %s always becomes a %s token' % ('/'.join(sorted(e)), cl.nm.get(t))))
        report(ctx, 'gettkn', bad, fn, '%d tokens made' % len(cl.made))
        if und: ctx.undecided('gettkn:some', 'token type or text not constant', fn)
    n += included(ctx, keep2)
    m3 = ctx.module('--only', r'ConfigurationScript::(From|FromFile|FromString)', '--keep', keep2 + r'|ConfigurationScript::(Lex|Interpret|FromString|FromFile)\(')
    for fn in m3.find(r'^ConfigurationScript::From\w+\('):
        cl = Through(fn)
        try: P = PX(fn, cl)
        except Limit: ctx.undecided(fn.short, 'too many states', fn); continue
        if not cl.calls: continue
        n += 1
        report(ctx, fn.short, cl.bad, fn, 'parser calls: %d' % len(cl.calls))
    ctx.need('parser functions decided', n, 3)


def bad_reaches(P, cl, s, k):
    """is the unreported path one on which token k follows state s? (re-run with only that token unexpected)"""
    c2 = cfg.Tok(cl.fn, cl.en)
    save = dict(cfg.Tok.GR)
    try:
        gr = {(a, b): 'STOP' for a in STMT for b in cl.en}
        gr.update(save); gr.pop((s, k), None)
        c2.GR = gr
        try: PX(cl.fn, c2)
        except Limit: return True
    finally: pass
    return any(st[3][0] == 'BAD' and not st[4] for I, st, v in c2.rets)


def report(ctx, key, bad, fn, note):
    if not bad: ctx.ok(key + ': ' + note, fn); return
    for I, msg in {(I.loc(), msg): (I, msg) for I, msg in bad}.values():
        ctx.bad('%s:%s' % (key, msg), I.loc(), msg, fn)


def buffer_of(fn):
    """the local string that characters are appended to"""
    out = set()
    for I in fn.calls(r'basic_string<char.*>::(operator\+=|push_back|append)\('):
        o = I.ops[0]
        if isinstance(o, int) and fn.insts[o].op == 'alloca' and fn.insts[o].d.get('sz') == 32: out.add(o)
    return ('a', out.pop()) if len(out) == 1 else None
