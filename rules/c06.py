"""C06: SDT text files: layout written = layout read, enough digits."""
import re
from fractions import Fraction
from absint import AbsInt, Poly, base_off, fmt, padd
import h5, loops, c04
from loops import ref, pf, strip_casts

WR = {'WriteArray': 2, 'WriteInt32Array': 2, 'WriteInt64Array': 2, 'WriteUInt32Array': 2, 'WriteUInt64Array': 2, 'WriteImage': 2,
      'WriteList': 1, 'WriteInt32List': 1, 'WriteInt64List': 1, 'WriteUInt32List': 1, 'WriteUInt64List': 1}
KEEPX = r'(SOFTLibException|SFileException)::'


def stream_items(ai, i):
    """items a call writes to an output stream, or None if it is not an output operation"""
    if not i.is_call() or not i.callee: return None
    d = ai.mod.dem(i.callee)
    if 'ostream' not in d and 'ios_base' not in d and 'basic_ios' not in d: return None
    args = [ai.val(o) for o in i.ops]
    mem = None
    m = re.search(r'std::(?:basic_ostream<char[^()]*>|ostream)::operator<<\((.*)\)$', d)
    if m:
        p = m.group(1)
        if 'ostream&' in p:
            out = []
            for t in args[1]:
                n = ai.mod.dem(t[1]) if t[0] == 'fn' else ''
                if 'endl' in n: out.append(('lit', '\n'))
                elif 'flush' in n: out.append(('lit', ''))
                elif 'ends' in n: out.append(('lit', '\0'))
                else: out.append(('?',))
            return out[:1] if len(set(out)) == 1 else [('?',)]
        if 'ios_base&' in p or 'basic_ios' in p:
            return [('manip', '/'.join(sorted(ai.mod.dem(t[1]) if t[0] == 'fn' else '?' for t in args[1])))]
        return [('num', p, frozenset(args[1]))]
    if re.match(r'std::basic_ostream<.*>& std::operator<<\s?<', d):
        ps = d[d.rindex('operator<<'):]
        if re.search(r'std::_Setprecision\)$', d): return [('prec', frozenset(args[1]))]
        if re.search(r'char const\*\)$', d):
            out = {('lit', ai.mod.cstr(t[1], t[2])) if t[0] == 'g' and ai.mod.cstr(t[1], t[2]) is not None else ('?',) for t in args[1]}
            return list(out) if len(out) == 1 else [('?',)]
        if re.search(r', (signed |unsigned )?char\)$', d):
            t = next(iter(args[1])) if len(args[1]) == 1 else ('?',)
            if t[0] == 'i': return [('lit', chr(t[1] & 255))]
            return [('num', 'char', frozenset(args[1]))]
        if 'basic_string<' in ps:
            mem = ai.mem_at(i)
            return [('str', frozenset(h5.strvals(ai, mem, args[1])))]
        if 'std::_Setw' in d or 'std::_Setfill' in d: return [('lit', '')]
        return [('?',)]
    if re.search(r'ostream<?.*>?::put\(char\)$', d):
        t = next(iter(args[1])) if len(args[1]) == 1 else ('?',)
        return [('lit', chr(t[1] & 255))] if t[0] == 'i' else [('num', 'char', frozenset(args[1]))]
    if re.search(r'ostream<?.*>?::write\(', d): return [('?',)]
    if re.search(r'ios_base::precision\(long\)$', d): return [('prec', frozenset(args[1]))]
    return None


def events(ai):
    ev = {}
    for i in ai.reached_insts():
        it = stream_items(ai, i)
        if it: ev[i.id] = it
    return ev


class Typestate:
    """runs a token automaton over all analysed paths; loops are entered at least once.  Every state carries, per enclosing
    loop, whether it is in the first or a later iteration, and branches that depend only on that are resolved."""
    def __init__(self, ai, ev, start, step):
        self.ai = ai; fn = ai.fn; self.problems = []; self.back = {}; self.end = {}
        self.loops = loops.natural(fn); self._bc = {}
        ins = {fn.entry: {(start, frozenset())}}; done = {}
        wl = [fn.entry]
        while wl:
            b = wl.pop()
            blk = fn.blocks[b]
            new = ins.get(b, set()) - done.setdefault(b, set())
            if not new: continue
            done[b] |= new
            cur = new
            for i in blk.insts:
                for item in ev.get(i.id, ()):
                    nxt = set()
                    for s, tg in cur:
                        r = step(s, item, i)
                        if isinstance(r, str) and r.startswith('!'):
                            if (i.id, r) not in self.problems: self.problems.append((i.id, r))
                        else: nxt.add((r, tg))
                    cur = nxt
                if i.op == 'ret': self.end.setdefault(i.id, set()).update(s for s, _ in cur)
            for s in blk.succs:
                if (b, s) not in ai.edges: continue
                if fn.blocks[s].lp is not None and blk.insts[-1].op == 'invoke' and s == blk.insts[-1].d['ud']: continue
                for st, tg in cur:
                    d = dict(tg)
                    if b in self.loops and s not in self.loops[b] and d.get(b) == 'f': continue
                    if not self.feasible(blk, s, d): continue
                    if s in self.loops:
                        if b in self.loops[s]: self.back.setdefault(s, set()).add(st); d[s] = 'b'
                        else: d[s] = 'f'
                    for h in list(d):
                        if s not in self.loops[h]: del d[h]
                    ins.setdefault(s, set()).add((st, frozenset(d.items())))
                if ins.get(s, set()) - done.get(s, set()): wl.append(s)

    def feasible(self, blk, s, tags):
        """can edge blk->s be taken in this iteration (first: it = 0, later: it >= 1)?"""
        t = blk.insts[-1]
        if t.op != 'br' or not t.ops or t.d['s'][0] == t.d['s'][1] or not tags: return True
        k = (blk.id, s)
        if k not in self._bc:
            self._bc[k] = None
            cs = self.ai.opv(t.ops[0])
            if len(cs) == 1:
                c = next(iter(cs)); neg = t.d['s'][0] != s
                while c[0] == 'not': c = c[1]; neg = not neg
                if c[0] == 'cmp' and c[1] in loops.CONJ:
                    p = loops.CONJ[c[1]]
                    if neg: p = loops.NEGP[p]
                    d = self.ai.expand(c[2]) - self.ai.expand(c[3])
                    it = loops.its(d)
                    if len(it) == 1:
                        a = next(iter(it)); co = d.m.get(((a, 1),)); rest = d - Poly.atom(a) * Poly.const(co or 0)
                        if co and loops.isc(rest) is not None: self._bc[k] = (a[1], p, co, loops.isc(rest))
        r = self._bc[k]
        if r is None or r[0] not in tags: return True
        h, p, co, c0 = r
        sat = lambda v: {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0, 'eq': v == 0, 'ne': v != 0}[p]
        if tags[h] == 'f': return sat(c0)
        return any(sat(co * n + c0) for n in (1, 2, 3, 10 ** 9))


def words(text):
    """split literal text in ('w',frag) ('s') ('n')"""
    out = []
    for c in text:
        if c == '\n': out.append(('n',))
        elif c in ' \t': out.append(('s',))
        elif out and out[-1][0] == 'w': out[-1] = ('w', out[-1][1] + c)
        else: out.append(('w', c))
    return out


def is_one(text): return re.fullmatch(r'0*1', text)


def run(ctx):
    ctx.rule('typestate over all paths of every SDT writer: header "@matrix name rows cols" (or "@string name length"), numbers separated by blanks within a row, one line per row, line ended; each element written is element (row, column) of the argument in its own type; '
             'the parser takes rows before columns, one line per row, and stores element (row, column); stream precision is at least 17 digits before anything is written')
    m = ctx.module('--only', r'SFile_SDT')
    n = 0
    for short, nd in WR.items():
        for fn in m.method('SFile_SDT', short):
            n += 1; writer(ctx, m, fn, short, nd)
    for fn in m.method('SFile_SDT', 'WriteAttribute_scalar'): n += 1; writer(ctx, m, fn, 'WriteAttribute_scalar', 0)
    names = {}
    for short in ('WriteString', 'WriteAttribute_string'):
        for fn in m.method('SFile_SDT', short): n += 1; strwriter(ctx, m, fn, short)
    attnames(ctx, m)
    for fn in m.method('SFile_SDT', 'Load'): reader(ctx, m, fn)
    precision(ctx, m)
    ctx.need('SDT writers', n, 12)


def writer(ctx, m, fn, short, nd):
    ai = h5.run(fn)
    ev = events(ai)
    tag = '' if fn.scls == 'SFile_SDT' else '[%s]' % '/'.join(s.replace('const ', '') for s in fn.sig if '*' in s and h5.ctype(s))
    key = 'SFile_SDT.%s%s' % (short, tag); name = 'SFile_SDT::' + short
    A = lambda k: ('arg', fn.this + 1 + k)
    probs, und = [], []
    if not ev: ctx.undecided(key, 'writes nothing to the stream directly', fn); return
    if nd == 2:
        rows, cols = A(2), A(3) if short != 'WriteImage' else A(2)
    elif nd == 1: rows, cols = ('i', 1), A(2)
    else: rows, cols = ('i', 1), ('i', 1)
    if nd == 0: wname = {x for x in [('cat', ('same', A(0)), ('lit', '_'), ('same', A(1)))]}
    else: wname = {('same', A(0))}
    elems = []

    def dim(item, want, what):
        if item[0] == 'w':
            if want == ('i', 1) and is_one(item[1]): return None
            return '!writes "%s" as the number of %s' % (item[1], what)
        vals = {strip_casts(t)[0] for t in item[2]}
        if vals == {want}: return None
        if all(t[0] in ('arg', 'i', 'op') for t in vals): return '!writes %s as the number of %s' % ('/'.join(fmt(t, fn) for t in vals), what)
        return '?'

    def step(s, item, inst):
        k = item[0]
        if k in ('prec', 'manip'): return s
        if k == '?': und.append('output not understood at %s' % inst.loc()); return 'X'
        if s == 'X': return s
        if k == 'lit':
            for w in words(item[1]):
                s = tok(s, w, inst)
                if isinstance(s, str) and s.startswith('!'): return s
            return s
        return tok(s, item, inst)

    def tok(s, w, inst):
        k = w[0]
        if s == 'X': return s
        if s.startswith('W'):           # collecting header keyword
            if k == 'w': return 'W' + s[1:] + w[1]
            if k == 's':
                if s == 'W': return s
                if s == 'W@matrix': return 'n'
                return '!writes header keyword "%s"' % s[1:]
            if k == 'n' and s == 'W': return s
            if k == 'str' : return '!writes the name without a separator'
            return '!header does not start with "@matrix "'
        if s == 'n':
            if k == 's': return s
            if k == 'str':
                if w[1] <= wname or not all(x[0] in ('same', 'lit', 'cat') for x in w[1]): return 'a'
                if nd == 0: return 'a'   # decided by the name comparison
                return '!writes %s as the name' % ', '.join(show(x, fn) for x in w[1])
            return '!variable name missing in the header'
        if s == 'a': return 'r' if k == 's' else '!no blank after the variable name'
        if s == 'r':
            if k == 's': return s
            if k in ('num', 'w'):
                e = dim(w, rows, 'rows')
                if e == '?': und.append('row count'); return 'b'
                return e or 'b'
            return '!number of rows missing'
        if s == 'b': return 'c' if k == 's' else '!no blank after the number of rows'
        if s == 'c':
            if k == 's': return s
            if k in ('num', 'w'):
                e = dim(w, cols, 'columns')
                if e == '?': und.append('column count'); return 'd'
                return e or 'd'
            return '!number of columns missing'
        if s == 'd':
            if k == 's': return s
            return 'R' if k == 'n' else '!the header line is not ended'
        # data
        if k == 'num':
            if s == 'E': return '!writes two numbers without a separator'
            if s == 'B': return '!writes data after an empty line'
            elems.append((inst, w)); return 'E'
        if k == 's': return {'E': 'G', 'G': 'G', 'R': 'R', 'B': 'B'}[s]
        if k == 'n': return {'E': 'R', 'G': 'R', 'R': 'B', 'B': 'B'}[s]
        if k == 'w': return '!writes text "%s" among the data' % w[1]
        if k == 'str': return '!writes text among the data'
        return s
    ts = Typestate(ai, ev, 'W', step)
    for iid, p in ts.problems: probs.append((fn.insts[iid].loc(), p[1:]))
    for rid, st in ts.end.items():
        for s in st:
            if s in ('E', 'G'): probs.append((fn.insts[rid].loc(), 'returns without ending the last line'))
            elif s not in ('R', 'B', 'X'): probs.append((fn.insts[rid].loc(), 'returns before the variable is complete'))
    # elements
    if not elems and not probs and not und: probs.append((fn.loc(), 'writes no data'))
    for inst, w in elems:
        want = ('f', 64) if nd == 0 or short == 'WriteImage' else next((h5.ctype(s) for s in fn.sig if '*' in s and h5.ctype(s)), None)
        ek = h5.CT.get(w[1].replace('long double', 'double'))
        if ek != want:
            if not (want and ek and want[0] == ek[0] and ek[1] >= want[1] and want[0] != 'f'):
                if ek is None: und.append('element type %s' % w[1])
                else: probs.append((inst.loc(), 'writes %s elements as %s' % (c04.kname(want), w[1])))
        for t in w[2]:
            v, ops = strip_casts(t)
            if ops and not set(ops) <= {'sext', 'zext'}: probs.append((inst.loc(), 'converts the value (%s) before writing it' % ' '.join(ops)))
            if nd == 0:
                if v != A(2): (probs.append((inst.loc(), 'writes %s instead of the value' % fmt(v, fn))) if v[0] in ('arg', 'i', 'f', 'op') else und.append('value %s' % fmt(v, fn)))
                continue
            if v[0] != 'ld':
                (probs.append((inst.loc(), 'writes %s instead of an element' % fmt(v, fn))) if v[0] in ('i', 'f', 'arg') else und.append('element %s' % fmt(v, fn))); continue
            arr = A(1); esz = want[1] // 8 if want else 8
            r = ref(ai, v[1], {arr})
            if r is None and nd == 1:
                # through a one-entry row table on the stack
                r = ref(ai, v[1], {('alloca', x.id) for x in fn.insts.values() if x.op == 'alloca' and x.d.get('sz') == 8})
                if r is not None and r.row is not None:
                    one = [b for t2 in loops.its(r.row) for b in loops.bounds(ai, t2[1])]
                    z = Poly({k: c for k, c in r.row.m.items() if not any(t2[0] == 'it' for t2, _ in k)})
                    holds = {x for st in ai.reached_insts() if st.op == 'store' and r.base in ai.val(st.ops[1]) for x in ai.val(st.ops[0])}
                    if z.m or holds != {arr} or any(b is None for b in one): r = None
                    elif any(b != Poly.const(Fraction(1)) for b in one):
                        if all(known(b) for b in one): probs.append((inst.loc(), 'writes %s rows of a single list' % pf(one[0]))); continue
                        r = None
                    else: r = loops.Ref(arr, None, r.off)
                else: r = None
            if r is None or (nd == 2 and r.row is None): und.append('element %s' % fmt(v, fn)); continue
            rowp = r.row if nd == 2 else None
            rit = loops.its(rowp) if rowp is not None else set(); cit = loops.its(r.off)
            R = Poly.atom(rows) if rows[0] != 'i' else Poly.const(Fraction(rows[1])); C = Poly.atom(cols)
            if nd == 2 and rit and cit and len(rit) == 1 and len(cit) == 1 and rit != cit:
                ri, ci = next(iter(rit)), next(iter(cit))
                br, bc = loops.bounds(ai, ri[1]), loops.bounds(ai, ci[1])
                if None in br or None in bc: und.append('loop bounds'); continue
                if rowp != Poly.atom(ri) * Poly.const(Fraction(8)) or r.off != Poly.atom(ci) * Poly.const(Fraction(esz)):
                    probs.append((inst.loc(), 'writes element (%s/8, %s/%d) in row-major position (%s, %s)' % (pf(rowp), pf(r.off), esz, ri[1], ci[1]))); continue
                for b in br:
                    if b != R: (probs.append((inst.loc(), 'writes %s rows' % pf(b))) if known(b) else und.append('rows'))
                for b in bc:
                    if b != C: (probs.append((inst.loc(), 'writes %s columns' % pf(b))) if known(b) else und.append('columns'))
                nat = loops.natural(fn)
                if ci[1] not in nat.get(ri[1], ()): probs.append((inst.loc(), 'writes the array column by column'))
                for s in ts.back.get(ri[1], ()):
                    if s in ('E', 'G'): probs.append((inst.loc(), 'does not start a new line after each row'))
                    if s == 'B': probs.append((inst.loc(), 'writes an empty line after each row'))
                for s in ts.back.get(ci[1], ()):
                    if s in ('R', 'B'): probs.append((inst.loc(), 'starts a new line within a row'))
            elif nd == 1 and len(cit) == 1:
                ci = next(iter(cit))
                if r.off != Poly.atom(ci) * Poly.const(Fraction(esz)): probs.append((inst.loc(), 'writes element %s/%d at position %s' % (pf(r.off), esz, ci[1]))); continue
                bc = loops.bounds(ai, ci[1])
                for b in bc:
                    if b is None: und.append('loop bound')
                    elif b != C: (probs.append((inst.loc(), 'writes %s elements' % pf(b))) if known(b) else und.append('elements'))
                for s in ts.back.get(ci[1], ()):
                    if s in ('R', 'B'): probs.append((inst.loc(), 'starts a new line within the list'))
            else: und.append('element index')
    c04.fin(ctx, key, name, fn, probs, und)


def known(p):
    return all(t[0] in ('arg', 'sym', 'it', 'xt') for k in p.m for t, _ in k)


def show(x, fn):
    if x[0] == 'lit': return '"%s"' % x[1]
    if x[0] == 'same': return fmt(x[1], fn)
    if x[0] == 'cat': return ' + '.join(show(y, fn) for y in x[1:])
    return str(x)


def strwriter(ctx, m, fn, short):
    ai = h5.run(fn); ev = events(ai)
    key = 'SFile_SDT.%s' % short; name = 'SFile_SDT::' + short
    probs, und = [], []
    A = lambda k: ('arg', fn.this + 1 + k)
    val = A(1) if short == 'WriteString' else A(2)
    if not ev: ctx.undecided(key, 'writes nothing directly', fn); return
    elems = []

    def step(s, item, inst):
        k = item[0]
        if k in ('prec', 'manip'): return s
        if k == '?': und.append('output not understood at %s' % inst.loc()); return 'X'
        if k == 'lit':
            for w in words(item[1]):
                s = tok(s, w, inst)
                if s.startswith('!'): return s
            return s
        return tok(s, item, inst)

    def tok(s, w, inst):
        k = w[0]
        if s == 'X': return s
        if s.startswith('W'):
            if k == 'w': return s + w[1]
            if k == 's': return s if s == 'W' else ('n' if s == 'W@string' else '!writes header keyword "%s"' % s[1:])
            if k == 'n' and s == 'W': return s
            return '!header does not start with "@string "'
        if s == 'n':
            if k == 's': return s
            if k == 'str':
                if any(x == ('same', val) for x in w[1]): return '!writes the value as the name'
                return 'a'
            return '!variable name missing in the header'
        if s == 'a': return 'l' if k == 's' else '!no blank after the variable name'
        if s == 'l':
            if k == 's': return s
            return 'd' if k in ('num', 'w') else '!string length missing'
        if s == 'd':
            if k == 's': return s
            return 'R' if k == 'n' else '!the header line is not ended'
        if k == 'num':
            if s == 'E': return '!writes two character codes without a separator'
            if s == 'B': return '!writes characters after the line was ended'
            elems.append((inst, w)); return 'E'
        if k == 's': return {'E': 'G', 'G': 'G', 'R': 'R', 'B': 'B'}[s]
        if k == 'n': return {'E': 'B', 'G': 'B', 'R': 'B', 'B': 'B'}[s]
        if k in ('w', 'str'): return '!writes plain text where the reader expects character codes'
        return s
    ts = Typestate(ai, ev, 'W', step)
    for iid, p in ts.problems: probs.append((fn.insts[iid].loc(), p[1:]))
    for rid, st in ts.end.items():
        for s in st:
            if s in ('E', 'G'): probs.append((fn.insts[rid].loc(), 'returns without ending the last line'))
            elif s not in ('R', 'B', 'X'): probs.append((fn.insts[rid].loc(), 'returns before the variable is complete'))
    for inst, w in elems:
        if w[1] in ('char', 'signed char', 'unsigned char'): probs.append((inst.loc(), 'writes characters themselves where the reader expects character codes'))
        elif w[1] in ('bool',): probs.append((inst.loc(), 'writes characters as bool'))
        for v in w[2]:
            c, ops = strip_casts(v)
            if c[0] in ('op', 'i', 'cmp'): probs.append((inst.loc(), 'writes %s instead of the code of the character' % fmt(c, fn)))
    probs += limited(ai, fn, [x for x, w in elems], 'writes only part of the string')
    if not elems and not probs and not und: probs.append((fn.loc(), 'writes no characters'))
    c04.fin(ctx, key, name, fn, probs, und)


def limited(ai, fn, sites, what):
    """tests in the loops around the sites that make the outcome depend on a fixed count or on particular characters"""
    out = []
    alive = loops.can_return(ai)
    nat = loops.natural(fn)
    bodies = [body for h, body in nat.items() if any(i.blk.id in body for i in sites)]
    if not bodies: return out
    body = min(bodies, key=len)
    for I in ai.reached_insts():
        if I.blk.id not in body or I.op != 'icmp': continue
        if any(y not in alive for x, y in ai.edges if x == I.blk.id): continue        # an error check
        for v in ai.val(I.id):
            if v[0] != 'cmp': continue
            for k, o in ((v[2], v[3]), (v[3], v[2])):
                w = strip_casts(o)[0]
                if k[0] != 'i' or o[0] == 'i': continue
                if w[0] == 'xt' or w[0] == 'ld' and w[1][0] == 'call': out.append((I.loc(), '%s: characters are treated differently when %s' % (what, fmt(v, fn))))
                elif v[1] not in ('eq', 'ne') and k[1] not in (0, -1): out.append((I.loc(), '%s: stops at %d characters' % (what, abs(k[1]))))
    return out


def attnames(ctx, m):
    """attribute writers and readers use the same composed name"""
    got = {}
    for short in ('WriteAttribute_scalar', 'WriteAttribute_string', 'GetAttributeScalar', 'GetAttributeString'):
        for fn in m.method('SFile_SDT', short):
            ai = h5.run(fn); vals = set()
            base = fn.this + 1
            for i in ai.reached_insts():
                if short.startswith('Write'):
                    it = stream_items(ai, i)
                    if it and it[0][0] == 'str': vals |= set(it[0][1]); loc = i.loc()
                elif i.is_call() and i.callee and re.search(r'::(find|at|operator\[\]|count)\(', m.dem(i.callee)) and 'map' in m.dem(i.callee):
                    vals |= set(h5.strvals(ai, ai.mem_at(i), ai.val(i.ops[1])))
            norm = {canon(v, base) for v in vals}
            got[short] = (fn, norm)
    for w, r in (('WriteAttribute_scalar', 'GetAttributeScalar'), ('WriteAttribute_string', 'GetAttributeString')):
        if w not in got or r not in got: continue
        key = 'SFile_SDT.attribute-name(%s)' % r
        a, b = got[w][1], got[r][1]
        if None in a or None in b or not a or not b: ctx.undecided(key, 'name not resolved: %s / %s' % (a, b), got[r][0]); continue
        if a == b: ctx.ok(key, got[r][0])
        else: ctx.bad(key, got[r][0].loc(), '%s looks up attribute name %s but it is written as %s' % (r, b, a), got[r][0])


def canon(v, base):
    if v[0] == 'lit': return '"%s"' % v[1]
    if v[0] == 'same': return 'arg%d' % (v[1][1] - base) if v[1][0] == 'arg' else None
    if v[0] == 'cat':
        p = [canon(x, base) for x in v[1:]]
        return None if None in p else '+'.join(p)
    return None


def reader(ctx, m, fn):
    order = []

    def ch(inst, dem, args, mem, ai):
        r = re.search(r'istream(?:<char[^()]*>)?::operator>>\((.*)&\)$', dem)
        if r:
            for t in args[1]: ai.store(mem, frozenset([t]), frozenset([('xt', inst.id)]), inst)
            order.append(inst); return frozenset([('stream', inst.id)])
        return None
    ai = h5.run(fn, ch)
    offs = {n: o for n, o, t, sz, ow in m.fields('SFile_SDT::matrix')}
    key = 'SFile_SDT.Load'
    if not offs: ctx.undecided(key, 'struct matrix not found', fn); return
    ins = []
    offm = m.field_off('SFile_SDT', 'matrices')
    for i in ai.reached_insts():
        if i.is_call() and i.callee and re.search(r'::(emplace|insert|operator\[\]|try_emplace|insert_or_assign)(<|\()', m.dem(i.callee)):
            if any(t == padd(('arg', fn.this), offm) for t in ai.val(i.ops[0])): ins.append(i)
    if len(ins) != 1: ctx.undecided(key, '%d insertions' % len(ins), fn); return
    i = ins[0]; mem = ai.mem_at(i)
    objs = [o for o in i.ops for t in ai.val(o) if base_off(t)[0][0] == 'alloca' and 'matrix' in fn.insts[base_off(t)[0][1]].d.get('at', '')]
    if len(objs) != 1: ctx.undecided(key, 'matrix object', fn); return
    ob = next(iter(ai.val(objs[0])))
    get = lambda n: {strip_casts(t)[0] for t in ai.load(mem, padd(ob, offs[n]), 'i64')}
    rows, cols, val = get('nrows'), get('ncols'), get('value')
    probs, und = [], []
    xt = [t for t in rows | cols]
    if len(rows) != 1 or len(cols) != 1 or any(t[0] != 'xt' for t in xt):
        bad = [t for t in xt if t[0] in ('i', 'op')]
        if bad: probs.append((i.loc(), 'stores %s as an extent' % fmt(bad[0], fn)))
        else: und.append('extents %s %s' % (rows, cols))
        c04.fin(ctx, key, 'SFile_SDT::Load', fn, probs, und); return
    rt, ct = next(iter(rows)), next(iter(cols))
    ri, ci = fn.insts[rt[1]], fn.insts[ct[1]]
    idom = fn.dominators()

    def dominates(a, b):
        if a.blk.id == b.blk.id: return a.pos < b.pos
        x = b.blk.id
        while x != idom.get(x, x):
            x = idom[x]
            if x == a.blk.id: return True
        return False
    if rt == ct: probs.append((i.loc(), 'uses one number of the header for both extents'))
    elif dominates(ci, ri): probs.append((i.loc(), 'takes the columns before the rows from the header'))
    elif not dominates(ri, ci): und.append('order of extents')
    R, C = Poly.atom(rt), Poly.atom(ct)
    # elements
    n = 0
    tabs = {t for t in val if t[0] == 'new'}
    if not tabs: und.append('value %s' % val)
    save = c04.D0, c04.D1, c04._known
    c04.D0, c04.D1, c04._known = rt, ct, known
    try:
        data = set()
        for s in ai.reached_insts():
            if s.op == 'store':
                for a in ai.val(s.ops[1]):
                    if a in tabs: data |= {v for v in ai.val(s.ops[0]) if v[0] == 'new'}
        p, u = c04.table(ai, fn, tabs, data, 8)
        probs += p; und += u
    finally: c04.D0, c04.D1, c04._known = save
    for x in order:
        if x.blk.id not in ai.reached: continue
        d = m.dem(x.callee)
        if not re.search(r'\((float|double|long double)&\)$', d): continue
        for a in ai.val(x.ops[1]):
            r = ref(ai, a, tabs | data)
            if r is None: und.append('element target %s' % fmt(a, fn)); continue
            if 'float&' in d: probs.append((x.loc(), 'parses numbers in single precision'))
            n += 1
            if r.row is None and r.base in data:
                und.append('linear element target'); continue
            if r.row is None: und.append('element target'); continue
            kc = r.off.m.get(((ct, 1),), 0)          # whole rows in the offset (row table layout is checked above)
            if kc: r = loops.Ref(r.base, r.row + Poly.const(kc), r.off - C * Poly.const(kc))
            rit, cit = loops.its(r.row), loops.its(r.off)
            if len(rit) != 1 or len(cit) != 1 or rit == cit: und.append('element index'); continue
            r1, c1 = next(iter(rit)), next(iter(cit))
            if r.row != Poly.atom(r1) * c04.EIGHT or r.off != Poly.atom(c1) * c04.EIGHT: probs.append((x.loc(), 'stores the number at row %s/8, column %s/8' % (pf(r.row), pf(r.off)))); continue
            nat = loops.natural(fn)
            if c1[1] not in nat.get(r1[1], ()): probs.append((x.loc(), 'fills the matrix column by column'))
            for bs, w, nm in ((loops.bounds(ai, r1[1]), R, 'rows'), (loops.bounds(ai, c1[1]), C, 'columns')):
                for b in bs:
                    if b is None: und.append('bound of %s' % nm)
                    elif b != w: (probs.append((x.loc(), 'reads %s %s' % (pf(b), nm))) if known(b) else und.append('bound of ' + nm))
            # one line per row
            gl = [g for g in ai.reached_insts() if g.is_call() and g.callee and 'std::getline' in m.dem(g.callee) and g.blk.id in nat.get(r1[1], ())]
            if gl and any(g.blk.id in nat.get(c1[1], ()) for g in gl): probs.append((x.loc(), 'reads a new line for every number'))
            if not gl: und.append('no line read per row')
    if not n: und.append('no numbers parsed')
    c04.fin(ctx, key, 'SFile_SDT::Load', fn, probs, und)
    # string reader
    key = 'SFile_SDT.Load:string'
    probs, und = [], []
    app = 0; apps = []
    for s in ai.reached_insts():
        if s.is_call() and s.callee and re.search(r'basic_string<.*>::(operator\+=|push_back|append)\((unsigned long, )?char\)$', m.dem(s.callee)):
            for v in ai.val(s.ops[-1]):
                w, ops = strip_casts(v)
                if w[0] == 'xt':
                    app += 1; apps.append(s)
                    d = m.dem(fn.insts[w[1]].callee)
                    if re.search(r'\((signed |unsigned )?char&\)$', d): probs.append((s.loc(), 'reads characters where the writer writes character codes'))
                elif w[0] in ('op', 'i'): probs.append((s.loc(), 'appends %s instead of the character with the code read' % fmt(w, fn)))
                else: und.append('appended value %s' % fmt(w, fn))
    probs += limited(ai, fn, apps, 'restores only part of the string')
    if not app and not probs: und.append('no characters appended')
    c04.fin(ctx, key, 'SFile_SDT::LoadString', fn, probs, und)


def precision(ctx, m):
    from c03 import reaches_ret
    """precision >= 17 established by Open for writing; never lowered; no lossy format flags"""
    modes = dict(m.enums['sfile_mode']['vals']) if 'sfile_mode' in m.enums else {}
    lowest = 17
    for fn in m.method('SFile_SDT', 'Open'):
        for mn in ('SFILE_MODE_WRITE', 'SFILE_MODE_UPDATE'):
            key = 'SFile_SDT.precision(%s)' % mn
            ai = AbsInt(fn, eh='catch', arg_terms={fn.this + 2: ('i', modes.get(mn, 2))})
            ok, low, und = set(), [], []
            # in scientific notation the digit before the point comes on top of the precision
            sci = {i.id for i in ai.reached_insts() for it in stream_items(ai, i) or () if it[0] == 'manip' and re.match(r'std::scientific\b', it[1])}
            need = 16 if sci and not reaches_ret(ai, fn, sci) else 17
            for i in ai.reached_insts():
                for it in stream_items(ai, i) or ():
                    if it[0] == 'prec':
                        for t in it[1]:
                            if t[0] == 'i' and t[1] >= need: ok.add(i.id)
                            elif t[0] == 'i': low.append((i, t[1]))
                            else: und.append('precision %s' % fmt(t, fn))
            lowest = min(lowest, need)
            if low: ctx.bad(key, low[0][0].loc(), 'Open sets the stream to %d digits, too few to restore a double' % low[0][1], fn)
            elif und: ctx.undecided(key, und[0], fn)
            elif reaches_ret(ai, fn, ok): ctx.bad(key, fn.loc(), 'Open(%s) can return without raising the stream precision to 17 digits: numbers are written with the default of 6' % mn, fn)
            else: ctx.ok(key, fn)
    for d, c, sc, k, f in m.index:
        if c != 'SFile_SDT': continue
        fn = m.get(k)
        if fn.short in ('Open',) or fn.suf: continue
        if not fn.short.startswith('Write') and fn.short not in ('Close', 'CreateStruct'): continue
        ai = AbsInt(fn, eh='catch')
        for i in ai.reached_insts():
            for it in stream_items(ai, i) or ():
                if it[0] == 'prec' and any(t[0] == 'i' and t[1] < lowest for t in it[1]):
                    ctx.bad('SFile_SDT.%s:precision' % fn.short, i.loc(), 'SFile_SDT::%s lowers the stream precision to %s digits' % (fn.short, [t[1] for t in it[1]]), fn)
                if it[0] == 'manip' and re.search(r'std::(fixed|hexfloat|hex|oct)\b', it[1]):
                    ctx.bad('SFile_SDT.%s:format' % fn.short, i.loc(), 'SFile_SDT::%s switches the stream to %s' % (fn.short, it[1].split('(')[0]), fn)
