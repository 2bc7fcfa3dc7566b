"""Python model of the views dumped by irx."""
import json, re, os


class Inst:
    __slots__ = ('d', 'id', 'op', 'ty', 'ops', 'blk', 'fn', 'pos')

    def __init__(self, d, blk, fn, pos):
        self.d = d; self.id = d['i']; self.op = d['op']; self.ty = d['ty']; self.ops = d['o']
        self.blk = blk; self.fn = fn; self.pos = pos

    @property
    def callee(self):
        c = self.d.get('callee')
        if c is None:
            v = self.d.get('cv')
            if isinstance(v, dict) and v.get('k') == 'fn': return v['v']
        return c

    @property
    def line(self):
        return self.d.get('l', 0)

    @property
    def file(self):
        return self.d.get('lf', '')

    def loc(self):
        f = self.file
        m = self.fn.mod
        if f and f.startswith(m.repo):
            f = os.path.relpath(f, m.repo)
        return '%s:%s' % (f or '?', self.line)

    def is_call(self):
        return self.op in ('call', 'invoke')

    def __repr__(self):
        return '<%s %%%d %s @%s>' % (self.op, self.id, self.callee or '', self.loc())


class Block:
    __slots__ = ('id', 'preds', 'insts', 'succs', 'lp')

    def __init__(self, id, preds):
        self.id = id; self.preds = preds; self.insts = []; self.succs = []; self.lp = None


class Fn:
    def __init__(self, d, mod):
        self.mod = mod; self.d = d
        self.name = d['name']; self.dem = d['dem']; self.cls = d['cls']; self.scls = d['scls']
        self.file = d['file']; self.line = d['line']; self.args = d['args']; self.short = d['short']
        self.sig = d['sig']; self.suf = d.get('suf', '')
        self.blocks = {}
        self.insts = {}
        for b in d['blocks']:
            B = Block(b['b'], b['p'])
            for k, i in enumerate(b['n']):
                I = Inst(i, B, self, k)
                B.insts.append(I); self.insts[I.id] = I
            self.blocks[B.id] = B
            t = B.insts[-1]
            if t.op == 'br': B.succs = list(t.d['s'])
            elif t.op == 'switch': B.succs = [t.d['def']] + [c[1] for c in t.d['cases']]
            elif t.op == 'invoke': B.succs = [t.d['nd'], t.d['ud']]
            for I in B.insts:
                if I.op == 'landingpad': B.lp = I; break
        self.entry = d['blocks'][0]['b']
        self.this = 1 if self.args and self.args[0].get('sret') else 0

    def relfile(self):
        return os.path.relpath(self.file, self.mod.repo) if self.file.startswith(self.mod.repo) else self.file

    def loc(self):
        return '%s:%d' % (self.relfile(), self.line)

    def calls(self, pat=None):
        for B in self.blocks.values():
            for I in B.insts:
                if I.is_call():
                    if pat is None:
                        yield I
                    else:
                        n = self.mod.dem(I.callee) if I.callee else ''
                        if re.search(pat, n):
                            yield I

    def rpo(self):
        seen = set(); out = []
        st = [(self.entry, iter(self.blocks[self.entry].succs))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.blocks[s].succs))); break
            else:
                out.append(b); st.pop()
        return out[::-1]

    def preds(self):
        p = {b: [] for b in self.blocks}
        for b, B in self.blocks.items():
            for s in B.succs:
                if b not in p[s]: p[s].append(b)
        return p

    def dominators(self):
        order = self.rpo(); idx = {b: i for i, b in enumerate(order)}; P = self.preds()
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in P[b] if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while idx[a] > idx[c]: a = idom[a]
                        while idx[c] > idx[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        return idom

    def loop_headers(self):
        """blocks that are the target of a back edge (retreating edge in a DFS)"""
        color = {}; heads = set()
        st = [(self.entry, iter(self.blocks[self.entry].succs))]; color[self.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                c = color.get(s)
                if c is None:
                    color[s] = 1; st.append((s, iter(self.blocks[s].succs))); break
                elif c == 1:
                    heads.add(s)
            else:
                color[b] = 2; st.pop()
        return heads


class Module:
    def __init__(self, path, repo):
        self.repo = os.path.realpath(repo)
        self.globals = {}; self.vts = {}; self.enums = {}; self.classes = {}; self.decls = {}
        self._raw = {}     # (name,suf) -> json line
        self._fn = {}
        self._dem = {}
        self.index = []    # (dem, cls, scls, key, file)
        with open(path) as fh:
            for line in fh:
                o = json.loads(line)
                t = o['t']
                if t == 'fn':
                    key = (o['name'], o['suf'])
                    self._raw[key] = o
                    self._dem[o['name']] = o['dem']
                    self.index.append((o['dem'], o['cls'], o['scls'], key, o['file']))
                elif t == 'glob': self.globals[o['name']] = o
                elif t == 'vt': self.vts[o['cls']] = o['slots']
                elif t == 'enum': self.enums[o['name']] = o
                elif t == 'class': self.classes[o['name']] = o
                elif t == 'name': self._dem.setdefault(o['name'], o['dem'])
                elif t == 'decl': self.decls[o['name']] = o; self._dem[o['name']] = o['dem']

    def dem(self, n):
        return self._dem.get(n, n)

    def dem_g(self, g):
        o = self.globals.get(g)
        return o['dem'] if o and 'dem' in o else self._dem.get(g, g)

    def get(self, key):
        if key not in self._fn:
            self._fn[key] = Fn(self._raw[key], self)
        return self._fn[key]

    def find(self, pat, cls=None, suf=None):
        """views whose demangled name matches the regex"""
        r = re.compile(pat); out = []
        for d, c, sc, key, f in self.index:
            if r.search(d) and (cls is None or c == cls) and (suf is None or key[1] == suf):
                out.append(self.get(key))
        return out

    def method(self, cls, short, npar=None):
        """view(s) of what calling method `short' on an object of class cls runs
        (own, or the per-class view of an inherited virtual, or an inherited non-virtual)"""
        res = []
        for d, c, sc, key, f in self.index:
            if c == cls:
                o = self._raw[key]
                if o['short'] == short: res.append(self.get(key))
        if not res:
            for b in self.bases(cls):
                res = self.method(b, short)
                if res: break
        # constructors/destructors come as C1/C2: keep complete-object or base variant once
        ded = {}
        for f in res:
            k = re.sub(r'C[12]E', 'CE', f.name) if 'C1E' in f.name or 'C2E' in f.name else f.name
            k = re.sub(r'D[12]Ev', 'DEv', k)
            if k not in ded or not f.suf: ded[k] = f
        return list(ded.values())

    def bases(self, cls):
        c = self.classes.get(cls)
        return [b[0] for b in c['bases']] if c else []

    def allbases(self, cls):
        out = []
        for b in self.bases(cls):
            out.append(b); out += self.allbases(b)
        return out

    def derived(self, base):
        return [c for c in self.classes if base in self.allbases(c)]

    def fields(self, cls, off0=0):
        """[(name, offset, type, size, owner)] including inherited"""
        c = self.classes.get(cls); out = []
        if not c: return out
        for b, o in c['bases']:
            out += self.fields(b, off0 + o)
        for n, o, t, sz in c['members']:
            out.append((n, off0 + o, t, sz, cls))
        return out

    def field_at(self, cls, off):
        for n, o, t, sz, ow in self.fields(cls):
            if o <= off < o + max(sz, 1):
                if o == off: return n
                c = t
                sub = None
                if c in self.classes: sub = self.field_at(c, off - o)
                return n + ('.' + sub if sub else '+%d' % (off - o))
        return None

    def field_off(self, cls, name):
        for n, o, t, sz, ow in self.fields(cls):
            if n == name: return o
        return None

    def vslot(self, cls, slot):
        s = self.vts.get(cls)
        return s[slot] if s and slot < len(s) else None

    def cstr(self, g, off=0):
        o = self.globals.get(g)
        if o and 'str' in o:
            return o['str'][off:].split('\0')[0]
        if o and o.get('zero'): return ''
        return None
