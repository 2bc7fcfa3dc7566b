"""C28: error and progress messages: format and arguments agree, run-time text is never a format, the message is complete."""
import re
from absint import AbsInt, base_off, mkptr
from alg import Opaque
import loops

CTOR = re.compile(r'(?:^|\s)(\w*Exception)::(\w*Exception|ConstructErrorMessage)(<.*>)?\(')
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>'
PRINT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, '__printf_chk': 1, '__fprintf_chk': 2, '__sprintf_chk': 3, '__snprintf_chk': 4}
CONV = re.compile(r'%(?:(%)|([-+ #0\']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L|q)?([a-zA-Z]))')


def targs(dem):
    """top-level template arguments of the function named in a demangled name"""
    mt = CTOR.search(dem)
    if not mt or not mt.group(3): return None
    s = dem[mt.start(3) + 1:]
    d = 0; out = ['']
    for c in s:
        if c == '<': d += 1
        if c == '>':
            if d == 0: break
            d -= 1
        if c == ',' and d == 0: out.append(''); continue
        out[-1] += c
    return [x.strip() for x in out if x.strip()]


def typ(t):
    """kind of an argument type: ('i'|'u', bits) | ('f',64) | ('s',) | ('p',) | ('e',) | None"""
    t = re.sub(r'\b(const|volatile)\b', '', t.replace('&', '')).strip()
    t = re.sub(r'\s+', ' ', t).strip()
    arr = re.sub(r'\s*\(?\)?\s*\[\d*\]$', '*', t)
    if arr in ('char*', 'char *', 'signed char*'): return ('s',)
    k = {'int': ('i', 32), 'short': ('i', 32), 'signed char': ('i', 32), 'char': ('c',), 'bool': ('i', 32), 'unsigned char': ('i', 32), 'unsigned short': ('i', 32),
         'unsigned int': ('u', 32), 'unsigned': ('u', 32), 'long': ('i', 64), 'long long': ('i', 64), 'unsigned long': ('u', 64), 'unsigned long long': ('u', 64),
         'double': ('f', 64), 'float': ('f', 64), 'long double': ('f', 80)}.get(t)
    if k: return k
    if '*' in arr: return ('p',)
    if re.match(STR + '$', t): return ('obj',)
    return ('e',)


def wants(text):
    """kinds consumed by a format, or None when it is malformed"""
    out = []
    i = 0
    while True:
        i = text.find('%', i)
        if i < 0: return out
        mt = CONV.match(text, i)
        if not mt: return None
        i = mt.end()
        if mt.group(1): continue
        if mt.group(3) == '*': out.append((('i', 32), '*'))
        if mt.group(4) == '*': out.append((('i', 32), '*'))
        ln, c = mt.group(5) or '', mt.group(6)
        sp = mt.group(0)
        if c in 'di': out.append((('i', 64 if ln in ('l', 'll', 'j', 'z', 't', 'q') else 32), sp))
        elif c in 'uoxX': out.append((('u', 64 if ln in ('l', 'll', 'j', 'z', 't', 'q') else 32), sp))
        elif c in 'eEfFgGaA': out.append((('f', 80 if ln == 'L' else 64), sp))
        elif c == 's': out.append((('s',), sp))
        elif c == 'c': out.append((('c',), sp))
        elif c == 'p': out.append((('p',), sp))
        elif c == 'm': pass
        else: return None


def fit(w, t):
    if t is None: return True
    if t == ('e',): return w[0] in 'iu' and w[1] == 32 or w == ('c',)     # enumeration (int-sized), unknown type
    if w == t: return True
    if t == ('c',): return w in (('c',), ('i', 32))
    if w == ('c',): return t == ('i', 32)
    if w == ('p',): return t in (('p',), ('s',))
    return False


def name(t):
    return {'i': 'signed %d-bit integer', 'u': 'unsigned %d-bit integer', 'f': '%d-bit real'}[t[0]] % t[1] if t[0] in 'iuf' else {'s': 'text', 'c': 'character', 'p': 'pointer', 'e': 'enumeration', 'obj': 'string object'}[t[0]]


def judge(text, types):
    """None | message"""
    w = wants(text)
    if w is None: return 'format "%s" is malformed' % text[:90]
    if len(w) != len(types): return 'format "%s" consumes %d arguments, %d are given' % (text[:90], len(w), len(types))
    for n, ((k, sp), t) in enumerate(zip(w, types)):
        if not fit(k, t): return 'argument %d of "%s" is a %s, but %s takes a %s' % (n + 1, text[:90], name(t), sp, name(k))
    return None


# ---------------------------------------------------------------- text of string objects
class Texts:
    """what a std::string object in a stack slot can contain, as lists of parts:
    ('t', text) constant, ('num',) digits, ('arg', k) parameter, ('run', what) run-time text, ('?',)"""

    def __init__(self, m, f):
        self.m = m; self.f = f
        self.defs = {}
        for b in f.blocks.values():
            for i in b.insts:
                if i.is_call() and i.callee and i.ops and isinstance(i.ops[0], int):
                    self.defs.setdefault(i.ops[0], []).append(i)
        self.ai = None

    def cstr(self, o, depth=0):
        """parts sets of a char pointer operand"""
        if isinstance(o, dict):
            if o['k'] == 'g':
                s = self.m.cstr(o['v'], o.get('o', 0))
                return {(('t', s),)} if s is not None else {(('?',),)}
            if o['k'] == 'a': return {(('run', 'parameter %s' % (self.f.args[o['v']].get('name') or o['v'])),)}
            return {(('?',),)}
        if depth > 8: return {(('?',),)}
        i = self.f.insts[o]
        if i.op == 'phi':
            r = set()
            for x in i.ops: r |= self.cstr(x, depth + 1)
            return r
        if i.op == 'select': return self.cstr(i.ops[1], depth + 1) | self.cstr(i.ops[2], depth + 1)
        if i.op == 'getelementptr' and not i.d.get('var') and isinstance(i.ops[0], dict) and i.ops[0]['k'] == 'g':
            s = self.m.cstr(i.ops[0]['v'], i.ops[0].get('o', 0) + i.d.get('off', 0))
            return {(('t', s),)} if s is not None else {(('?',),)}
        if i.is_call() and i.callee and re.search(r'::(c_str|data)\(\)', self.m.dem(i.callee)): return self.string(i.ops[0], depth + 1)
        return {(('?',),)}

    def string(self, o, depth=0):
        """parts sets of a string object operand"""
        Q = {(('?',),)}
        if depth > 8: return Q
        if isinstance(o, dict):
            if o['k'] == 'a': return {(('arg', o['v']),)}
            if o['k'] == 'g': return {(('run', 'a global string'),)}
            return Q
        i = self.f.insts[o]
        if i.op == 'phi':
            r = set()
            for x in i.ops: r |= self.string(x, depth + 1)
            return r
        if i.op == 'select': return self.string(i.ops[1], depth + 1) | self.string(i.ops[2], depth + 1)
        if i.op == 'getelementptr':
            b = i.ops[0]
            if isinstance(b, dict) and b['k'] == 'a' or isinstance(b, int) and self.f.insts[b].op in ('load', 'getelementptr', 'call', 'invoke'): return {(('run', 'a member'),)}
        if i.op != 'alloca':
            if i.is_call() and i.callee:
                d = self.m.dem(i.callee)
                if re.search(r'::(operator=|operator\+=|append|insert|replace|assign)(<.*>)?\(', d): return self.string(i.ops[0], depth + 1)
                if re.search(r'::(Get\w+|str|what\w*)(\[abi:cxx11\])?\(', d): return {(('run', d.split('(')[0]),)}
            return Q
        outs = set()
        ap = []
        for c in self.defs.get(o, []):
            d = self.m.dem(c.callee)
            b = re.sub(STR, 'string', d)
            if re.search(r'~basic_string|::(size|length|c_str|data|empty|begin|end|at|compare|find\w*|substr|operator\[\]|_M_\w+|reserve)\(', d) and 'basic_string<std::' not in d and '::basic_string(' not in d: continue
            if re.search(r'basic_string(<std::allocator<char>\s*(, void)?>)?\(char const\*', d): outs |= self.cstr(c.ops[1], depth + 1); continue
            if re.search(r'basic_string\(string( const)?&', re.sub(STR, 'string', d)): outs |= self.string(c.ops[1], depth + 1); continue
            if re.search(r'basic_string\(\)', d): outs.add(()); continue
            if re.search(r'std::operator\+<', d):
                mt = re.search(r'operator\+<[^(]*\((.*)\)$', b)
                ps = mt.group(1).split(', ') if mt else []
                if len(ps) != 2: return Q
                L = [self.cstr(x, depth + 1) if 'char const*' in p else (self.string(x, depth + 1) if 'string' in p else {(('run', 'a character'),)}) for p, x in zip(ps, c.ops[1:])]
                outs |= {a + bb for a in L[0] for bb in L[1]}
                continue
            if re.search(r'::(push_back|operator\+=|operator=|assign|append|insert|resize)\((char|unsigned long, char|std::initializer)', d) or re.search(r'std::(__cxx11::)?getline|operator>>', d): outs.add((('run', 'text put together at run time'),)); continue
            if re.search(r'::(clear|shrink_to_fit)\(\)', d): outs.add(()); continue
            if re.search(r'std::(__cxx11::)?to_string\(', d): outs.add((('num',),)); continue
            if re.search(r'::(operator=|assign)\(char const\*', d): outs |= self.cstr(c.ops[1], depth + 1); continue
            if re.search(r'::(operator=|assign)\(string', b): outs |= self.string(c.ops[1], depth + 1); continue
            if re.search(r'::(operator\+=|append)\(char const\*', d): ap.append(self.cstr(c.ops[1], depth + 1)); continue
            if re.search(r'::(operator\+=|append)\(string', b): ap.append(self.string(c.ops[1], depth + 1)); continue
            mt = re.search(r'(\w+)::(Get\w+|str|ttos|substr|\w*[Nn]ame)(\[abi:cxx11\])?\(', d)
            if CTOR.search(d): continue
            if mt and c.d.get('sret', True) and not re.search(r'basic_string', mt.group(1)): outs.add((('run', mt.group(0)[:-1]),)) if mt.group(2) != 'ttos' else outs.add((('?',),)); continue
            outs.add((('?',),))
        if not outs: return Q
        for a in ap: outs = {x + y for x in outs for y in a} | outs if len(outs) * len(a) < 32 else Q
        return outs if len(outs) <= 32 else Q


# ---------------------------------------------------------------- the rule
def run(ctx):
    ctx.rule('at every construction of a library exception with a format, and every call of the printf family: each alternative of the format text consumes exactly the given arguments, each with a conversion of its type; no text known only at run time is part of a format')
    ctx.rule('the formatter never writes beyond its buffer, formats again into a buffer large enough when the first one was too small, and stores the formatted text; the buffer is released on every path')
    m = ctx.module('--keep', r'(SOFTLibException|SFileException|ConfigurationException)::', witness=('headers',))
    uses = {}
    n = 0
    bodies = {}
    for d, cls, sc, key, fl in m.index:
        if CTOR.search(d): bodies.setdefault(d, key)
    memo = {}
    seen = {}
    called = callers(ctx)
    for d, cls, sc, key, fl in m.index:
        raw = m._raw[key]
        f = None
        if CTOR.search(d): continue
        txt = str(raw.get('blocks', raw))
        if 'Exception' not in txt and 'printf' not in txt: continue
        f = m.get(key)
        tx = Texts(m, f)
        for b in f.blocks.values():
            for i in b.insts:
                if not (i.is_call() and i.callee): continue
                if i.callee in PRINT:
                    n += direct(ctx, m, f, tx, i, seen); continue
                dm = m.dem(i.callee)
                mt = CTOR.search(dm)
                if not mt: continue
                n += site(ctx, m, f, tx, i, dm, bodies, memo, seen, called)
    report(ctx, seen)
    build(ctx, m)
    ctx.need('formatted messages', n, 10)


RANK = {'bad': 3, 'und': 2, 'ok': 1, 'weak': 0}


def note(seen, key, verdict, loc, msg, f):
    """a construct appears in every view it is inlined into; `weak': the text is a parameter there, and the callers decide"""
    o = seen.get(key)
    if o is None or RANK[verdict] > RANK[o[0]]: seen[key] = (verdict, loc, msg, f)


def report(ctx, seen):
    for k, (v, loc, msg, f) in sorted(seen.items()):
        if v == 'bad': ctx.bad(k, loc, msg, f)
        elif v in ('und', 'weak'): ctx.undecided(k, msg, f)
        else: ctx.ok(k, f, msg)


def callers(ctx):
    """functions called directly somewhere in the library"""
    m = ctx.module('--keep', '.*', witness=('headers',))
    out = set()
    for d, cls, sc, key, fl in m.index:
        f = m.get(key)
        for b in f.blocks.values():
            for i in b.insts:
                if i.is_call() and i.callee: out.add(m.dem(i.callee))
    return out


def where(i): return i.loc()


def direct(ctx, m, f, tx, i, seen):
    k = PRINT[i.callee]
    key = 'print.' + where(i)
    if k >= len(i.ops): return 0
    tys = []
    for o in i.ops[k + 1:]:
        if isinstance(o, dict):
            w = o.get('w')
            tys.append(('x', w) if o['k'] == 'i' else ('f', 64) if o['k'] == 'f' else ('ptr',))
        else:
            ty = f.insts[o].ty
            tys.append(('f', 64) if ty == 'double' else ('x', int(ty[1:])) if re.match(r'i\d+$', ty) else ('ptr',))
    for o, n_ in ((o, n_) for n_, o in enumerate(i.ops[k + 1:]) if isinstance(o, dict) and o['k'] == 'a'):
        ty = f.args[o['v']].get('ty') or ''
        tys[n_] = ('f', 64) if ty == 'double' else ('x', int(ty[1:])) if re.match(r'i\d+$', ty) else ('ptr',)
    for parts in tx.cstr(i.ops[k]):
        if any(p[0] == '?' for p in parts): note(seen, key, 'und', where(i), 'format of %s not followed' % i.callee, f); continue
        if any(p[0] == 'run' for p in parts): note(seen, key, 'bad', where(i), 'run-time text (%s) is used as a format' % [p[1] for p in parts if p[0] == 'run'][0], f); continue
        if any(p[0] == 'arg' for p in parts): note(seen, key, 'weak', where(i), 'format is a parameter', f); continue
        text = ''.join(p[1] if p[0] == 't' else '0' for p in parts)
        w = wants(text)
        msg = None
        if w is None: msg = 'format "%s" is malformed' % text[:90]
        elif len(w) != len(tys): msg = 'format "%s" consumes %d arguments, %d are given' % (text[:90], len(w), len(tys))
        else:
            for n_, ((a, sp), t) in enumerate(zip(w, tys)):
                good = a[0] == 'f' and t == ('f', 64) or a[0] in 'iu' and t == ('x', a[1]) or a[0] == 'c' and t == ('x', 32) or a[0] in 'sp' and t == ('ptr',)
                if not good and not (t[0] == 'x' and t[1] not in (32, 64)): msg = 'argument %d of "%s" does not have the type %s takes' % (n_ + 1, text[:90], sp); break
        note(seen, key, 'bad' if msg else 'ok', where(i), msg or '', f)
    return 1


def params(dm):
    """kinds of the fixed parameters of an exception constructor: index of the message among the call operands"""
    mt = CTOR.search(dm)
    s = re.sub(STR, 'string', dm[mt.end():])
    ps = [x.strip() for x in s[:s.rindex(')')].split(',')]
    return ps


def inner(m, dm, bodies, memo):
    """what a constructor does with its string parameters: list of (parts, types) it formats"""
    if dm in memo: return memo[dm]
    memo[dm] = None
    key = bodies.get(dm)
    if key is None: return None
    f = m.get(key)
    tx = Texts(m, f)
    ta = targs(dm) or []
    out = []
    for b in f.blocks.values():
        for i in b.insts:
            if not (i.is_call() and i.callee): continue
            if i.callee in ('snprintf', '__snprintf_chk', 'vsnprintf', 'sprintf'):
                k = PRINT.get(i.callee)
                o = i.ops[k] if k is not None else None
                p = fmtparam(m, f, tx, o)
                out.append((p, [typ(x) for x in ta]))
                continue
            d2 = m.dem(i.callee)
            if CTOR.search(d2):
                r = inner(m, d2, bodies, memo)
                if r is None: continue
                for ps, tys in r:
                    cur = {()}
                    for p in ps:
                        if p[0] == 'arg' and p[1] < len(i.ops): cur = {c + x for c in cur for x in tx.string(i.ops[p[1]])}
                        else: cur = {c + (p,) for c in cur}
                    for c in cur: out.append((c, tys))
    memo[dm] = out
    return out


def fmtparam(m, f, tx, o):
    """which string parameter a char pointer belongs to"""
    if isinstance(o, int):
        i = f.insts[o]
        if i.op == 'load' and isinstance(i.ops[0], dict) and i.ops[0]['k'] == 'a': return (('arg', i.ops[0]['v']),)
        r = tx.cstr(o)
        if len(r) == 1: return next(iter(r))
    if isinstance(o, dict):
        r = tx.cstr(o)
        if len(r) == 1: return next(iter(r))
    return (('?',),)


def site(ctx, m, f, tx, i, dm, bodies, memo, seen, called):
    r = inner(m, dm, bodies, memo)
    key = 'message.' + where(i)
    if r is None:
        if '<' in CTOR.search(dm).group(0): note(seen, key, 'und', where(i), 'constructor not available: %s' % dm[:80], f)
        return 0
    done = 0
    for parts, tys in r:
        cur = {()}
        for p in parts:
            if p[0] == 'arg' and p[1] < len(i.ops): cur = {c + x for c in cur for x in tx.string(i.ops[p[1]])}
            else: cur = {c + (p,) for c in cur}
        for c in cur:
            done = 1
            if any(p[0] == 'run' for p in c): note(seen, key, 'bad', where(i), 'run-time text (%s) is part of the format of an error message' % [p[1] for p in c if p[0] == 'run'][0], f); continue
            if any(p[0] == '?' for p in c): note(seen, key, 'und', where(i), 'text of the message not followed', f); continue
            ar = [p[1] for p in c if p[0] == 'arg']
            if ar and f.dem not in called: note(seen, key, 'bad', where(i), 'text given by the caller (parameter %s of %s) is part of the format of an error message' % (f.args[ar[0]].get('name') or ar[0], f.short), f); continue
            if ar: note(seen, key, 'weak', where(i), 'text of the message is a parameter', f); continue
            text = ''.join(p[1] if p[0] == 't' else '0' for p in c)
            msg = judge(text, tys)
            note(seen, key, 'bad' if msg else 'ok', where(i), msg or '', f)
    return done


ALLOC = re.compile(r'^(malloc|realloc|calloc|_Znam|_Znwm)$')
FREE = re.compile(r'^(free|realloc|_ZdaPv|_ZdlPv|_ZdaPvm|_ZdlPvm)$')


def build(ctx, m):
    for d, cls, sc, key, fl in m.index:
        if '::ConstructErrorMessage<' not in d: continue
        f = m.get(key)
        pr = [i for b in f.rpo() for i in f.blocks[b].insts if i.is_call() and i.callee in ('snprintf', 'vsnprintf')]
        k = 'formatter.' + ', '.join(targs(d) or [])
        if not pr: ctx.undecided(k, 'no call of snprintf', f); continue
        base = AbsInt(f)
        z = [t[1] for t in base.ev(pr[0].ops[1]) if t[0] == 'i']
        if len(z) != 1: ctx.undecided(k, 'size of the first buffer is not a constant', f); continue
        S = z[0]
        probs = []; und = []
        for n in sorted({-1, 0, S - 1, S, S + 777} - ({-2} if S else {-1})):
            if n < -1: continue
            first = pr[0].id
            ai = AbsInt(f, callhook=lambda i, dm, a, mem, s: frozenset([('i', n)]) if i.callee in ('snprintf', 'vsnprintf') else None)
            got = [i for i in pr if i.blk.id in ai.reached]
            for i in got:
                sz = [t[1] for t in ai.ev(i.ops[1]) if t[0] == 'i']
                cap = capacity(f, ai, i.ops[0])
                if not sz or cap is None: und.append('buffer of %s not understood' % i.loc()); continue
                if min(sz) < 0 or max(sz) > cap: probs.append((i, 'snprintf may write %d characters into a buffer of %d (message of %d characters)' % (max(sz), cap, n)))
            if n >= 0:
                sz = [max([t[1] for t in ai.ev(i.ops[1]) if t[0] == 'i'] or [0]) for i in got]
                if sz and max(sz) < n + 1: probs.append((got[-1], 'a message of %d characters is cut off: at most %d are formatted' % (n, max(sz) - 1)))
            asg = [i for b in ai.reached for i in f.blocks[b].insts if i.is_call() and i.callee and re.search(r'basic_string.*::(operator=|assign)\(', m.dem(i.callee))]
            if n >= 0 and not asg: und.append('assignment of the message not found')
            for i in asg if n >= 0 else []:
                if 'char const*' not in m.dem(i.callee): 
                    if re.search(r'string|basic_string', m.dem(i.callee).split('(')[-1]) and isinstance(i.ops[1], dict) and i.ops[1].get('k') == 'a': probs.append((i, 'the unformatted text becomes the message (message of %d characters)' % n))
            # released on every way out
            st = {}
            order = [b for b in f.rpo() if b in ai.reached]
            for b in order:
                ps = [st[x] for (x, y) in ai.edges if y == b and x in st]
                v = all(ps) if ps else False
                for i in f.blocks[b].insts:
                    if i.is_call() and i.callee and ALLOC.match(i.callee): v = False
                    elif i.is_call() and i.callee and FREE.match(i.callee): v = True
                    if i.op == 'ret' and not v and any(x.is_call() and x.callee and ALLOC.match(x.callee) for bb in order for x in f.blocks[bb].insts): probs.append((i, 'the buffer is not released'))
                st[b] = v
        if probs: ctx.bad('formatter.' + probs[0][0].loc(), probs[0][0].loc(), probs[0][1], f)
        elif und: ctx.undecided(k, und[0], f)
        else: ctx.ok(k, f)


def capacity(f, ai, o):
    """bytes behind a buffer pointer"""
    caps = []
    for t in ai.ev(o):
        if t[0] == 'null': caps.append(0); continue
        b, off, v = base_off(t)
        if b[0] == 'alloca':
            return None
        hit = None
        for blk in ai.reached:
            for i in f.blocks[blk].insts:
                if i.is_call() and i.callee and ALLOC.match(i.callee) and t in (ai.env.get(i.id) or ()):
                    s = ai.ev(i.ops[1 if i.callee == 'realloc' else 0])
                    if len(s) == 1 and next(iter(s))[0] == 'i': hit = next(iter(s))[1]
        if hit is None or v: return None
        caps.append(hit - off)
    return min(caps) if caps else None
