"""Clients of the path-product analysis for the configuration interpreter and lexer."""
import re
import px as PXM
from px import PX, root, Limit

KEEP = ('--keep', r'^(ConfigBlock::|SettingScript::|ConfigurationException::ConfigurationException|ConfigToken::ConfigToken|Configuration::IsBlockType|Configuration::StringToBlockType)|ConfigurationScript::ttos\(|^void SOFTLibException::ConstructErrorMessage|^SOFTLibException::')
IT = r'^__gnu_cxx::__normal_iterator<ConfigToken\*( const)?\*, .*>::'


def enum(m):
    for e in m.enums.values():
        v = e['vals']
        d = dict(v) if not isinstance(v, dict) else v
        if 'CTKN_EOF' in d: return {k.replace('CTKN_', ''): int(x) for k, x in d.items()}
    return None


def noreturn_throw(T): return [(None, None, T)]


class Tok:
    """the token stream seen through ConfigurationScript::tknstream.  client state:
    (position since block entry, types possible at current token, at the next token, grammar state, error reported?, facts)"""
    GR = {('S', 'NAME'): 'N1', ('S', 'BLOCKTYPE'): 'B1', ('S', 'BLOCK_END'): 'Sclose', ('N1', 'EQUALS'): 'N2', ('N2', 'VALUE'): 'N3',
          ('N3', 'VALUE'): 'N3', ('N3', 'END_STATEMENT'): 'Sname', ('B1', 'BLOCKNAME'): 'B2', ('B2', 'LPAR'): 'B3', ('B2', 'BLOCK_START'): 'Sopen',
          ('B3', 'NAME'): 'B4', ('B4', 'RPAR'): 'B5', ('B5', 'BLOCK_START'): 'Sopen'}

    def __init__(self, fn, en, grammar=True):
        self.fn = fn; self.m = fn.mod; self.en = en; self.nm = {v: k for k, v in en.items()}
        self.ALL = 0
        for v in en.values(): self.ALL |= 1 << v
        self.EOF = 1 << en['EOF']
        cls = 'ConfigurationScript'
        self.this = ('arg', fn.this)
        self.cell = PXM.PX.addr(None, self.this, self.m.field_off(cls, 'tknstream'))
        self.ef = PXM.PX.addr(None, self.this, self.m.field_off(cls, 'errorflag'))
        self.ptype = self.m.field_off('ConfigToken', 'type')
        self.grammar = grammar
        self.range = []      # accesses beyond the end
        self.rets = []; self.esc = 0; self.blkbad = []; self.blkund = []
        self.badinfo = {}
        self.adv = set(); self.reads = set()
        self.hdr = None
        if grammar: self.find_header()

    def find_header(self):
        import loops
        nat = loops.natural(self.fn); best = None
        for h, body in nat.items():
            for I in self.fn.blocks[h].insts:
                if I.op != 'phi' or I.ty != 'ptr': continue
                for o, p in zip(I.ops, I.d['pb']):
                    if p not in body and isinstance(o, int) and self.fn.insts[o].is_call() and (self.m.dem(self.fn.insts[o].callee or '')).startswith('operator new'):
                        if best is None or len(body) > best[0]: best = (len(body), h, I.id, o)
        if best: self.hdr, self.phi, self.rootid = best[1:]

    def init(self, px):
        self.px = px
        return (0, self.ALL, self.ALL, ('S', None), False, (None, None))

    # -- grammar
    def consume(self, st, I):
        """the current token is left behind"""
        pos, cur, nxt, g, err, fx = st
        if cur & self.EOF: self.range.append((I, 'the token after the end-of-file token is made current'))
        out = []
        if not self.grammar or g[0] in ('BAD', 'ERR'): return [(pos + 1, nxt, self.ALL, g, err, fx)]
        by = {}
        for v, k in self.nm.items():
            if not cur & (1 << v): continue
            s = g[0] if not g[0].startswith('S') else 'S'
            n = self.GR.get((s, k))
            if n is None:
                by.setdefault(('BAD', None), 0)
                if not err: self.badinfo.setdefault((s, k), I)
            else: by.setdefault((n, None), 0)
        for n in by: out.append((pos + 1, nxt, self.ALL, n, err, fx))
        return out

    def loc(self, a): return a == self.cell

    def itval(self, st, mem, a):
        if a == self.cell: return ('it', st[0])
        return mem.get(a) if a is not None else None

    def call(self, px, st, I, dem, args):
        m = re.match(IT + r'(operator\S+)\((.*?)\)', dem)
        if m:
            op = m.group(2); a = args[0]; v = self.itval(st, px.curmem, a)
            n = args[1][1] if len(args) > 1 and args[1] is not None and args[1][0] == 'i' else None
            if op == 'operator*': return [(('slot', v[1]) if v and v[0] == 'it' else None, st, None)]
            if op in ('operator++', 'operator--', 'operator+=', 'operator-='):
                d = {'operator++': 1, 'operator--': -1}.get(op)
                post = op in ('operator++', 'operator--') and m.group(3) == 'int'
                if d is None: d = n if op == 'operator+=' else (-n if n is not None else None)
                old = v
                if a == self.cell:
                    if d == 1:
                        self.adv.add(I.id)
                        return [(('it', st[0]) if post else a, q, None) for q in self.consume(st, I)]
                    return self.lost(st, I)
                upd = {a: ('it', v[1] + d) if v and v[0] == 'it' and d is not None else None}
                return [((old if post else a), st, None, upd)]
            if op in ('operator+', 'operator-') and n is not None and v and v[0] == 'it':
                return [(('it', v[1] + (n if op == 'operator+' else -n)), st, None)]
            if op == 'operator[]' and n is not None and v and v[0] == 'it': return [(('slot', v[1] + n), st, None)]
            if op == 'operator->': return [(('slot', v[1]) if v and v[0] == 'it' else None, st, None)]
            return [(None, st, None)]
        if re.match(r'^std::vector<ConfigToken\*.*>::begin\(\)', dem): return [(('it', 'begin'), st, None)]
        if dem.startswith('operator new'): return [(('new', I.id), st, None)]
        m = re.match(r'^ConfigBlock::(\w+)\(', dem)
        if m and self.hdr is not None:
            k = m.group(1); a = args[0] if args else None
            if k == 'HasParent' and isblk(a): return [(('i', n), q, None) for n, q in self.hp(st, a)]
            if k == 'GetParent' and isblk(a): return [(('parent', a), st, None)]
            if k == 'AddSubBlock' and isblk(a): return [(('child', a), st, None)]
            return None
        if re.search(r'ConfigurationException::ConfigurationException', dem): return [(None, st, None)]
        return None

    def hp(self, st, a):
        pos, cur, nxt, g, err, (h, r) = st
        if h is not None and h[0] == a: return [(1 if h[1] else 0, st)]
        return [(n, (pos, cur, nxt, g, err, ((a, bool(n)), r))) for n in (0, 1)]

    def lost(self, st, I):
        self.und = 'the token stream is moved by an unknown amount at %s' % I.loc()
        raise Limit()

    def clobbers(self, px, st, I, dem, args):
        # the token stream iterator and the error flag are private to the interpreter; opaque calls of the standard
        # library or of other classes do not reach them
        return [root(a) for a in args if a is not None and root(a) != self.this]

    def load(self, px, st, I, a):
        if a == self.cell: return [(('it', st[0]), st)]
        if a[0] == 'slot':
            d = a[1]
            if d == 'begin' or not isinstance(d, int): return [(None, st)]
            d -= st[0]; self.reads.add(I.id)
            if d >= 1 and st[1] & self.EOF or d >= 2 and st[2] & self.EOF:
                self.range.append((I, 'the token after the end-of-file token is read'))
            return [(('tok', a[1]), st)]
        if a[0] == 'tok' and self.ptype == 0: return [(('ty', a[1]), st)]
        if a[0] == 'p' and a[1][0] == 'tok': return [(('ty', a[1][1]) if a[2] == self.ptype else None, st)]
        return None

    def store(self, px, st, I, a, v):
        pos, cur, nxt, g, err, fx = st
        if a == self.cell:
            if v == ('it', 'begin'): return [(pos, self.ALL, self.ALL, g, err, fx)]
            if v and v[0] == 'it' and isinstance(v[1], int):
                if v[1] == pos: return [st]
                if v[1] == pos + 1:
                    self.adv.add(I.id); return self.consume(st, I)
            return self.lost(st, I)
        if a == self.ef:
            if v == ('i', 1): return [(pos, cur, nxt, ('ERR', None), True, fx)]
            if v == ('i', 0): return [(pos, cur, nxt, g, False, fx)]
            return [st]
        return None

    def split(self, px, st, I, p, a, b):
        pos, cur, nxt, g, err, fx = st
        if b[0] == 'ty' and a[0] == 'i': a, b = b, a
        if a[0] == 'ty' and b[0] == 'i' and p in ('eq', 'ne'):
            d = a[1] - pos if isinstance(a[1], int) else None
            if d not in (0, 1): return None
            m = cur if d == 0 else nxt; bit = 1 << b[1] if 0 <= b[1] < 64 else 0
            out = []
            for t, mm in ((True, m & bit), (False, m & ~bit)):
                if mm: out.append((t == (p == 'eq'), (pos, mm if d == 0 else cur, mm if d == 1 else nxt, g, err, fx)))
            return out
        if isblk(b) and not isblk(a): a, b = b, a
        if a[0] == 'parent' and b == ('i', 0) and p in ('eq', 'ne'):
            return [((n == 0) == (p == 'eq'), q) for n, q in self.hp(st, a[1])]
        if isblk(a) and b == ('new', getattr(self, 'rootid', None)) and p in ('eq', 'ne'):
            return [(t == (p == 'eq'), (pos, cur, nxt, g, err, (fx[0], (a, t)))) for t in (True, False)]
        return None

    def phis(self, px, st, B, upd, pred):
        if self.hdr is None or B.id != self.hdr: return st
        pos, cur, nxt, g, err, fx = st
        v = upd.get(self.phi)
        import loops
        if v == ('new', self.rootid): pass
        elif err or g[0] in ('BAD', 'ERR'): pass
        else:
            self.expect(v, g, fx, B)
        upd[self.phi] = ('blk',)
        if g[0].startswith('S'): g = ('S', None)
        return (pos, cur, nxt, g, err, (None, None))

    def want(self, v, g, fx):
        want = {'Sname': ('blk',), 'Sopen': ('child', ('blk',)), 'Sclose': ('parent', ('blk',)), 'S': ('blk',)}.get(g[0])
        if want is None: return 'the parser goes on to the next statement in the middle of one'
        if v is None: return None
        if v != want:
            return {'Sname': 'a setting changes the block being read', 'Sopen': 'an opened block does not become the current block',
                    'Sclose': 'a closed block does not return to its parent'}.get(g[0], '?')
        if g[0] == 'Sclose' and fx[0] != (('blk',), True): return "a '}' without an open block is not refused"
        return True

    def expect(self, v, g, fx, B):
        r = self.want(v, g, fx)
        if r is None: self.blkund.append('current block not tracked')
        elif r is not True: self.blkbad.append((B, r))

    def enter(self, px, st, frm, to, env, mem):
        pos = st[0]
        if pos:
            f = lambda v: (v[0], v[1] - pos) if v and v[0] in ('it', 'slot', 'tok', 'ty') and isinstance(v[1], int) else (('p', f(v[1]), v[2]) if v and v[0] == 'p' else v)
            ok = lambda v: not (v and v[0] in ('it', 'slot', 'tok', 'ty') and isinstance(v[1], int) and not -2 <= v[1] <= 3)
            env = {k: f(v) for k, v in env.items()}; env = {k: v for k, v in env.items() if ok(v)}
            mem = {k: f(v) for k, v in mem.items()}; mem = {k: v for k, v in mem.items() if ok(v)}
            st = (0,) + st[1:]
        return st, env, mem, pos

    def ret(self, px, st, I, v, mem):
        self.rets.append((I, st, v))

    def escape(self, px, st, I, T): self.esc += 1


def isblk(a): return a is not None and a[0] in ('blk', 'child', 'parent')


class Chars:
    """cnfbuffer/cnfbufferpos/cnfbufferlength.  client state: (moved, T, F, unaccounted, comment)
    T: largest k for which pos+k < length is known, F: smallest k for which it is known not to hold;
    unaccounted: classes the last character read may have and which has not been returned yet; comment: inside a comment"""
    CL = ['\0', '\n', ' ', '\t', '#', '"', '<', '>', '=', '(', ')', '{', '}', ';', ',', '\r', 'x']
    WS = {'\n', ' ', '\t', '\r', '\0'}

    def __init__(self, fn, drop=True):
        self.fn = fn; self.m = fn.mod; m = self.m
        cls = 'ConfigurationScript'; self.this = ('arg', fn.this)
        A = lambda n: PXM.PX.addr(None, self.this, m.field_off(cls, n))
        self.pos, self.len, self.buf, self.ins, self.inc = A('cnfbufferpos'), A('cnfbufferlength'), A('cnfbuffer'), A('instring'), A('ininclude')
        self.boolcells = {self.ins, self.inc, A('prevws')}
        self.ALL = (1 << len(self.CL)) - 1
        self.range = []; self.dropped = []; self.reads = set(); self.rets = 0; self.drop = drop
        self.lexcalls = []; self.und = None

    def init(self, px):
        self.px = px
        return (0, None, None, 0, False)

    def bit(self, n):
        c = chr(n & 255) if n >= -128 else None
        return 1 << self.CL.index(c) if c in self.CL else 1 << self.CL.index('x')

    def fact(self, st, k):
        n, T, F, u, c = st; k -= n
        if T is not None and k <= T: return True
        if F is not None and k >= F: return False
        return None

    def learn(self, st, k, t):
        n, T, F, u, c = st; k -= n
        if t: T = k if T is None else max(T, k)
        else: F = k if F is None else min(F, k)
        return (n, T, F, u, c)

    def split(self, px, st, I, p, a, b):
        if b[0] == 'pos' and a[0] == 'len':
            a, b = b, a; p = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(p, p)
        if a[0] == 'i' and b[0] == 'len':
            a, b = b, a; p = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}.get(p, p)
        if a[0] == 'len' and b == ('i', 0) and st[4] == 'z' and p in ('eq', 'ne', 'ugt', 'ule'):
            # length > 0  <=>  position zero is below the length
            f = self.fact(st, st[0]); out = []
            for t in (True, False):
                if f is None or f == t: out.append((t == (p in ('ne', 'ugt')), self.learn(st, st[0], t)))
            return out
        if a[0] == 'pos' and b[0] == 'len' and isinstance(a[1], int):
            k = a[1]
            if p in ('ult', 'uge', 'slt', 'sge', 'ne', 'eq'):
                # pos != length behaves as pos < length only when pos <= length is known
                if p in ('ne', 'eq') and self.fact(st, k - 1) is not True: return None
                f = self.fact(st, k); out = []
                for t in (True, False):
                    if f is None or f == t: out.append((t == (p in ('ult', 'slt', 'ne')), self.learn(st, k, t)))
                return out
            if p in ('ugt', 'ule', 'sgt', 'sle'):
                # pos <= length  <=>  pos-1 < length (pos >= 1)
                f = self.fact(st, k - 1); out = []
                for t in (True, False):
                    if f is None or f == t: out.append((t == (p in ('ule', 'sle')), self.learn(st, k - 1, t)))
                return out
            return None
        if b[0] == 'ch' and a[0] == 'i': a, b = b, a
        if a[0] == 'ch' and b[0] == 'i' and p in ('eq', 'ne'):
            bit = self.bit(b[1]); multi = chr(b[1] & 255) not in self.CL
            n, T, F, u, c = st
            if a[1] != self.gen(st): return None
            out = []
            m1 = u & bit; m0 = u if multi else u & ~bit
            if u == 0: return None
            if m1: out.append((p == 'eq', (n, T, F, m1, c)))
            if m0: out.append((p != 'eq', (n, T, F, m0, c)))
            return out
        return None

    def gen(self, st): return 0

    def call(self, px, st, I, dem, args):
        if re.match(r'^std::__cxx11::basic_string<char.*>::(operator\[\]|at)\(', dem) and args[0] == self.buf:
            self.reads.add(I.id)
            at = '::at(' in dem
            a = args[1]
            if a == ('i', 0) and st[4] == 'z': a = ('pos', st[0])
            if a is None or a[0] != 'pos' or not isinstance(a[1], int):
                self.und = 'index of the character read at %s is not tracked' % I.loc(); raise Limit()
            f = self.fact(st, a[1])
            if f is not True:
                self.range.append((I, 'a character is read from the text without the position having been compared with its length'))
            n, T, F, u, c = st
            z = c == 'z'; c = c is True; com = c
            # what happens to the character read before this one
            if u and self.drop:
                names = {self.CL[i] for i in range(len(self.CL)) if u >> i & 1}
                if c:
                    if '\n' in names and names != {'\n'}: pass
                    c = '\n' not in names
                elif names == {'#'}: c = True
                if not c and not (names <= self.WS) and not names == {'#'} and not com:
                    self.dropped.append((I, names - self.WS))
            q = (n, T, F, self.ALL, 'z' if z else c)
            return [(('chref', a[1]), q, None)]
        if re.match(r'^std::__cxx11::basic_string<char.*>::(length|size)\(', dem) and (args[0] == self.buf or args[0] is not None and args[0][0] == 'arg'): return [(('len',), st, None)]
        if re.search(r'ConfigurationScript::Lex\(', dem):
            self.lexcalls.append(I)
            return [(None, ('?',) + st[1:], None, {c: None for c in self.boolcells})]
        if re.search(r'ConfigurationException::ConfigurationException', dem): return [(None, st, None)]
        return None

    def load(self, px, st, I, a):
        if a == self.pos: return [(('pos', st[0]) if isinstance(st[0], int) else None, st)]
        if a == self.len: return [(('len',), st)]
        if a[0] == 'chref': return [(('ch', 0), st)]
        return None

    def store(self, px, st, I, a, v):
        n, T, F, u, c = st
        if a == self.pos:
            if v and v[0] == 'pos' and isinstance(v[1], int):
                d = v[1]
                if not isinstance(n, int): return [(d, None, None, 0, False)]
                k = d - n
                # facts are relative to the current position
                return [(d, None if T is None else T - k, None if F is None else F - k, 0 if k < 0 else u, (False if c == 'z' and k else c))]
            if v == ('i', 0): return [(0, None, None, 0, 'z')]
            if v == ('i', 1) and c == 'z': return [(n + 1, None if T is None else T - 1, None if F is None else F - 1, u, False)]
            self.und = 'the read position is set to an unknown value at %s' % I.loc(); raise Limit()
        if a == self.len: return [st if not isinstance(n, int) or v == ('len',) else (n, None, None, u, c)]
        return None

    def binop(self, px, st, I, a, b):
        if a and b and I.op in ('add', 'sub') and a[0] == 'pos' and b[0] == 'i' and isinstance(a[1], int):
            d = b[1] if I.op == 'add' else -b[1]
            if d >= 1 << 63: d -= 1 << 64
            return ('pos', a[1] + d)
        return None

    def cast(self, px, st, I, a): return a

    def clobbers(self, px, st, I, dem, args):
        return [root(a) for a in args if a is not None and root(a) != self.this]

    def enter(self, px, st, frm, to, env, mem):
        n, T, F, u, c = st
        if not isinstance(n, int): return st, env, mem, 0
        if n:
            f = lambda v: ('pos', v[1] - n) if v and v[0] == 'pos' else (('chref', v[1] - n) if v and v[0] == 'chref' else v)
            ok = lambda v: not (v and v[0] in ('pos', 'chref') and not -3 <= v[1] <= 3)
            env = {k: f(v) for k, v in env.items()}; env = {k: v for k, v in env.items() if ok(v)}
            mem = {k: f(v) for k, v in mem.items()}; mem = {k: v for k, v in mem.items() if ok(v)}
        if T is not None and T < -2: T = None
        if F is not None and F > 2: F = None
        return (0, T, F, u, c), env, mem, n

    def ret(self, px, st, I, v, mem):
        self.rets += 1
        n, T, F, u, c = st
        if not self.drop or not u: return
        names = {self.CL[i] for i in range(len(self.CL)) if u >> i & 1}
        if v is None: self.und = 'returned character not tracked'; return
        if v[0] == 'ch' or c is True and v == ('i', 0): return
        if v == ('i', 32) and names <= self.WS: return
        if v == ('i', 0) and (names <= self.WS or names == {'#'}): return
        if v[0] == 'i' and names == {chr(v[1] & 255)}: return
        self.dropped.append((I, names))

    def escape(self, px, st, I, T): pass


class Buf:
    """Lex: the text collected in the local buffer ends up in a token.  client state:
    (buffer, character, token pending): buffer 'e' empty, 'd' holds text no token was made of, 'p' holds text a token was made of"""
    def __init__(self, fn):
        self.fn = fn; self.m = fn.mod; m = self.m
        cls = 'ConfigurationScript'; self.this = ('arg', fn.this)
        A = lambda n: PXM.PX.addr(None, self.this, m.field_off(cls, n))
        self.ins, self.inc = A('instring'), A('ininclude')
        self.boolcells = {self.ins, self.inc}
        self.mem0 = {}
        self.bad = []; self.rets = 0; self.tokens = set(); self.next = set()
        self.bufs = None; self.incdrop = []; self.incloop = False

    def init(self, px):
        self.px = px
        return ({}, 0, None) if False else (('e',), None, None)

    mem_now = None
    SEP = {' ', ',', '"', '<', '>', '\t', '\n', '\r'}

    def call(self, px, st, I, dem, args):
        b, ch, tk = st
        if re.match(r'^ConfigurationScript::nextc\(', dem):
            self.next.add(I.id)
            self.unused(px, st, I)
            if tk == 'inc': self.incdrop.append((I, 'tokens of an included file are not added to the token list'))
            elif tk: self.bad.append((I, 'a token is made but not added to the token list'))
            self.at = None
            return [(('i', 0), (b, None, None), None), (('ch',), (b, (frozenset(), ('new', px.curmem.get(self.ins), px.curmem.get(self.inc))), None), None)]
        m = re.match(r'^std::__cxx11::basic_string<char.*>::(\w+|operator\+=|operator=)(?:<[^()]*>)?\(', dem)
        if m and args and args[0] is not None and args[0] == self.buffer:
            k = m.group(1)
            if k in ('operator+=', 'push_back', 'append'):
                return [(args[0], (('d',), (ch[0], 'used') if ch else None, tk), None)]
            if k in ('clear', 'assign', 'operator='):
                if b[0] == 'd': self.bad.append((I, 'collected text is discarded without a token having been made of it'))
                if k == 'clear': return [(None, (('e',), ch, tk), None)]
                lit = 'd'
                return [(args[0], ((lit,), (ch[0], 'used') if ch else None, tk), None)]
            if k == 'empty': return [(('i', 1 if b[0] == 'e' else 0), st, None)]
            if k in ('length', 'size') and b[0] == 'e': return [(('i', 0), st, None)]
            return [(None, st, None)]
        if m and ch and ch[1][0] == 'in' and args and args[0] == ch[1][1] and m.group(1) in ('empty', 'size', 'length'): return [(('i', 0 if m.group(1) == 'empty' else 1), st, None)]
        if m and ch and args and args[0] is not None and args[0][0] == 'a' and ('ch',) in args[1:] and m.group(1) in ('basic_string', 'assign', 'operator=', 'operator+=', 'push_back', 'append'):
            return [(args[0], (b, (ch[0], ('in', args[0])), tk), None)]
        if 'ConfigToken::ConfigToken(' in dem and len(args) > 2 and ch and ch[1][0] == 'in' and ch[1][1] in args:
            self.tokens.add(I.id)
            return [(None, (b, (ch[0], 'used'), 'tok'), None)]
        if 'ConfigToken::ConfigToken(' in dem and len(args) > 2:
            if any(a == self.buffer for a in args):
                self.tokens.add(I.id)
                return [(None, (('p',), ch, 'tok'), None)]
            return [(None, (b, ch, 'tok' if len(args) > 4 else tk), None)]
        if re.match(r'^std::vector<ConfigToken\*.*>::(push_back|emplace_back)|^.*std::vector<ConfigToken\*.*>::(insert|emplace)', dem) or re.search(r'std::vector<ConfigToken\*.*::(push_back|emplace_back|insert)\b', dem):
            if tk == 'inc' and 'push_back' in dem or 'emplace_back' in dem: self.incloop = True
            for v in args[1:]:
                if v is not None and v[0] == 'vit' and v[1]: self.bad.append((I, 'tokens of an included file are left out'))
            return [(None, (b, ch, None), None)]
        g = re.match(r'^std::vector<ConfigToken\*.*>::(c?begin|c?end)\(\)', dem)
        if g: return [(('vit', 0), st, None)]
        g = re.match(IT + r'operator([-+])\(long\)', dem)
        if g and args[0] is not None:
            v = px.curmem.get(args[0]); n = args[1][1] if args[1] is not None and args[1][0] == 'i' else None
            if v is not None and v[0] == 'vit' and n is not None: return [(('vit', v[1] + n if g.group(2) == '+' else v[1] - n), st, None)]
        if re.search(r'ConfigurationScript::include_file\(', dem):
            self.tokens.add(I.id)
            if not any(a == self.buffer for a in args): return None
            # leaves the lexer outside strings and directives
            return [(None, (('p',), (ch[0], 'used') if ch else None, 'inc'), None, {self.ins: ('i', 0), self.inc: ('i', 0)}), (None, st, 'ConfigurationException')]
        if re.search(r'ConfigurationException::ConfigurationException', dem): return [(None, st, None)]
        return None

    def unused(self, px, st, I):
        b, ch, tk = st
        if not ch or ch[1] == 'used': return
        eq = [c for t, c in ch[0] if t]
        now = px.curmem if self.mem_now is None else self.mem_now
        if len(eq) == 1 and eq[0] in self.SEP:
            if ch[1][0] != 'new': return
            was, winc = ch[1][1:]
            if eq[0] == '"' and was is not None and now.get(self.ins) is not None and (now[self.ins][1] != 0) == (was[1] != 0): self.bad.append((I, "a '\"' neither opens nor closes a string"))
            if eq[0] == '<' and winc is not None and was == ('i', 0) and now.get(self.inc) in (('i', 0), None): self.bad.append((I, "a '<' does not open an include directive"))
            if eq[0] == '>' and winc == ('i', 0) and was == ('i', 0): self.bad.append((I, "a '>' without '<' is not reported"))
            elif eq[0] == '>' and was == ('i', 0) and winc is not None: self.bad.append((I, 'an include directive is skipped'))
            return
        self.bad.append((I, 'character %s is skipped' % (repr(eq[0]) if eq else 'other than separators')))

    def split(self, px, st, I, p, a, b):
        if b == ('ch',): a, b = b, a
        if a == ('ch',) and b[0] == 'i' and p in ('eq', 'ne'):
            s, ch, tk = st; c = chr(b[1] & 255)
            if ch is None: return None
            known, u = ch
            eq = [x for t, x in known if t]
            if eq: return [((eq[0] == c) == (p == 'eq'), st)]
            if c == '\0' or (False, c) in known: return [(p != 'eq', st)]
            return [(p == 'eq', (s, (frozenset([(True, c)]), u), tk)), (p != 'eq', (s, (known | {(False, c)}, u), tk))]
        return None

    def cast(self, px, st, I, a): return a

    def clobbers(self, px, st, I, dem, args):
        return [root(a) for a in args if a is not None and root(a) != self.this]

    def ret(self, px, st, I, v, mem):
        self.rets += 1
        b, ch, tk = st
        self.mem_now = mem; self.unused(px, st, I); self.mem_now = None
        if b[0] == 'd': self.bad.append((I, 'text left at the end of input is not made a token'))
        if mem.get(self.ins) != ('i', 0): self.bad.append((I, 'a string left open at the end of input is not reported'))
        if mem.get(self.inc) != ('i', 0): self.bad.append((I, "a '<' left open at the end of input is not reported"))
