"""C08: type queries of text settings agree with the readers."""
import re
from absint import AbsInt, fmt, base_off
import loops

I32, U32, I64, U64 = (-2**31, 2**31 - 1), (0, 2**32 - 1), (-2**63, 2**63 - 1), (0, 2**64 - 1)
RANGE = {'Integer32': I32, 'UnsignedInteger32': U32, 'Integer64': I64, 'UnsignedInteger64': U64, 'Integer': I64}
CONV = {'stoi': I32, 'stol': I64, 'stoll': I64, 'stoul': U64, 'stoull': U64, 'stod': 'f64', 'stof': 'f32', 'stold': 'f80'}
LEN = 7


class Text:
    """a class of setting texts: number written (None: none), consumed completely by an integer/real conversion?, in real range?"""
    def __init__(self, what, n=None, ifull=True, ffull=True, fover=False, lit=None, rest=LEN - 2):
        self.rest = rest
        self.what, self.n, self.ifull, self.ffull, self.fover, self.lit = what, n, ifull, ffull, fover, lit


class M(AbsInt):
    h5rank = None


def model(text, size, seen):
    I = lambda v: frozenset([('i', v)])

    def conv_of(dem):
        m = re.match(r'std::__cxx11::(sto\w+)\(', dem)
        return m.group(1) if m and m.group(1) in CONV else None

    def result(c):
        """-> (exception, value term, end)"""
        k = CONV[c]
        if text.n is None: return 'std::invalid_argument', None, None
        if isinstance(k, str):
            if text.fover: return 'std::out_of_range', None, None
            return None, ('real', c, text.n), (LEN if text.ffull else LEN - text.rest)
        n = text.n if isinstance(text.n, int) else 1
        full = text.ifull and isinstance(text.n, int)
        if k is U64 or c in ('stoul', 'stoull'):
            if abs(n) > U64[1]: return 'std::out_of_range', None, None
            v = n if n >= 0 else 2**64 + n
            return None, ('i', v - 2**64 if v >= 2**63 else v), (LEN if full else LEN - text.rest)
        if not k[0] <= n <= k[1]: return 'std::out_of_range', None, None
        return None, ('i', n), (LEN if full else LEN - text.rest)

    def throws(inst, dem, args, mem, ai):
        c = conv_of(dem)
        if c:
            e, v, end = result(c)
            if e: return ({e}, False)
        return None

    def call(inst, dem, args, mem, ai):
        c = conv_of(dem)
        if c:
            seen.append((inst, c, args[0]))
            if len(args) > 2 and all(t[0] == 'i' for t in args[2]) and args[2] != I(10): ai.c08base.add(inst.loc())
            e, v, end = result(c)
            if e: return frozenset([('undef',)])
            for p in args[1]:
                if p[0] not in ('null', 'i'): ai.store(mem, frozenset([p]), I(end), inst)
            return frozenset([v])
        m = re.search(r'std::vector<std::__cxx11::basic_string<.*?>, std::allocator<.*?>>>?::(\w+|operator\[\])\(', dem) or re.search(r'std::vector<std::__cxx11::basic_string.*>::(size|at|operator\[\]|empty|front|back)\(', dem)
        if m:
            f = m.group(1)
            if f == 'size': return I(size)
            if f == 'empty': return I(-1 if size == 0 else 0)
            if f in ('at', 'operator[]'): return frozenset(('val', t) for t in args[1])
            if f == 'front': return frozenset([('val', ('i', 0))])
            if f == 'back': return frozenset([('val', ('i', size - 1))])
        m = re.search(r'std::vector<double, .*>::(operator\[\]|at)\(', dem)
        if m: return frozenset(('vel', b, t) for b in args[0] for t in args[1])
        m = re.search(r'__normal_iterator<.*basic_string.*>::operator\*\(', dem)
        if m: return frozenset([('val', ('iter',))])
        m = re.search(r'std::__cxx11::basic_string<.*>::(\w+|operator\[\])\(', dem)
        if m and any(t[0] == 'val' for t in args[0]):
            f = m.group(1)
            if f in ('length', 'size'): return I(LEN)
            if f == 'empty': return I(0)
            if f in ('find', 'find_first_of', 'rfind', 'find_last_of') and args[1] in (I(45), ):
                return I(0 if isinstance(text.n, (int, float)) and text.n is not None and text.n < 0 else -1)
            if f in ('find', 'find_first_of', 'rfind', 'find_last_of') and any(t[0] == 'g' and ai.mod.cstr(t[1], t[2]) == '-' for t in args[1]):
                return I(0 if text.n is not None and text.n < 0 else -1)
            if f in ('at', 'operator[]', 'front') and (f == 'front' or args[1] == I(0)):
                ch = 45 if text.n is not None and text.n < 0 else (53 if text.n is not None else 120)
                cell = ('cell', 'chr'); mem.c[cell] = I(ch); return frozenset([cell])
        m = re.search(r'bool std::operator(==|!=)<char', dem)
        if m and text.lit is not None and len(args) == 2:
            lits = {ai.mod.cstr(t[1], t[2]) for a in args for t in a if t[0] == 'g'}
            if len(lits) == 1 and None not in lits:
                r = (next(iter(lits)) == text.lit) == (m.group(1) == '==')
                return I(-1 if r else 0)
        return None
    return throws, call


def run_view(fn, text, size=1, stay=False, **kw):
    seen = []
    th, ca = model(text, size, seen)

    class A(AbsInt):
        h5rank = None

        def succs(self, B):
            s = AbsInt.succs(self, B)
            if stay:
                body = loops.natural(self.fn).get(B.id)
                if body and B.insts[-1].op == 'br' and any(x in body for x in s): s = [x for x in s if x in body]
            return s

        def binop(self, op, a, b, ty):
            # 64-bit unsigned constants are kept as signed patterns
            return AbsInt.binop(self, op, a, b, ty)
    A.c08seen = seen; A.c08base = set()
    ai = A(fn, callhook=ca, throws=th, **kw)
    return ai, seen


def truth(rt):
    return {bool(t[1] & 1) if t[0] == 'i' else None for t in rt}


def idx_ok(fn, terms):
    """-> True/False/None: does the text converted belong to the requested index?"""
    want = ('arg', fn.this + 1) if len(fn.args) > fn.this + 1 else None
    for t in terms:
        if t[0] != 'val': return None
        j = t[1]
        while j[0] == 'cast': j = j[2]
        if want is None:
            if j[0] == 'i' and j[1] != 0: return False
            if j[0] != 'i': return None
        else:
            if j == want: continue
            if j[0] in ('i', 'op'): return False
            return None
    return True


def texts(kind):
    lo, hi = RANGE[kind]
    out = [(Text('a text that is not a number'), False), (Text('a number followed by other characters', 5, False, False), False), (Text('a number followed by another character', 5, False, False, rest=1), False),
           (Text('a number beyond 64 bits', 10**30), False), (Text('a negative number beyond 64 bits', -10**30), False)]
    for v in {lo, hi, 0, 5, lo - 1, hi + 1, -1, -5, 2**32 - 1, 2**32, 2**31, -2**31 - 1, 1 - 2**64}:
        out.append((Text('the number %d' % v, v), lo <= v <= hi))
    out.append((Text('a number with a fraction', 1.5, False, True), False))
    return out


REALS = [(Text('a text that is not a number'), False), (Text('a number followed by other characters', 5.5, False, False), False), (Text('a number followed by another character', 5.5, False, False, rest=1), False),
         (Text('a number beyond the range of a double', 1.5, False, True, True), False), (Text('a number', 1.5, False, True), True), (Text('an integer', 5), True), (Text('a negative number', -1.5, False, True), True)]


def query(ctx, key, fn, cases, stay=False, size=1, **kw):
    probs, und = [], []
    for t, want in cases:
        ai, seen = run_view(fn, t, size, stay and not want, **kw)
        esc = {T for _, T in ai.escapes}
        if esc: probs.append('raises %s for %s' % ('/'.join(sorted(esc)), t.what))
        if ai.c08base: probs.append('takes the digits of numbers for other than decimal ones')
        tr = truth(ai.ret_terms())
        if None in tr or not seen and not stay: und.append('answer for %s not resolved' % t.what); continue
        if stay and want: cover(ai, fn, seen, size, probs, und, 'inspects')
        for inst, c, a in seen:
            if stay: continue
            r = idx_ok(fn, a)
            if r is False: probs.append('inspects value %s instead of the requested one' % ', '.join(fmt(x) for x in a))
            elif r is None: und.append('text inspected %s' % (a,))
        if not want and True in tr: probs.append('accepts %s' % t.what)
        if want and False in tr: probs.append('refuses %s' % t.what)
        if not tr and not esc: und.append('no answer for %s' % t.what)
    fin(ctx, key, fn, probs, und)


def fin(ctx, key, fn, probs, und):
    name = 'SettingScript::' + fn.short
    if probs: ctx.bad(key, fn.loc(), '%s %s' % (name, '; '.join(sorted(set(probs)))), fn)
    elif und: ctx.undecided(key, und[0], fn)
    else: ctx.ok(key, fn)


def overloads(m, short):
    for fn in m.method('SettingScript', short):
        yield fn, (len(fn.args) > fn.this + 1)


def run(ctx):
    ctx.rule('case split over the outcomes of the library text-to-number conversions (not a number, partly consumed, out of range, negative, boundary values): each query answers yes exactly for texts its reader returns exactly; no exception leaves a query')
    m = ctx.module('--only', r'SettingScript|Setting::')
    n = 0
    for kind in RANGE:
        for fn, indexed in overloads(m, 'Is' + kind):
            key = 'Is%s%s' % (kind, '(i)' if indexed else '')
            n += 1
            query(ctx, key, fn, texts(kind))
            if not indexed:
                probs, und = [], []
                for size in (0, 2, 3):
                    ai, seen = run_view(fn, Text('', 5), size)
                    tr = truth(ai.ret_terms())
                    if True in tr: probs.append('accepts a setting of %d values' % size)
                    elif None in tr: und.append('size')
                fin(ctx, key + ':count', fn, probs, und)
        for fn, _ in overloads(m, 'Get' + kind):
            n += 1; probs, und = [], []
            for t, want in texts(kind):
                if not want: continue
                ai, seen = run_view(fn, t)
                esc = {T for _, T in ai.escapes}
                if esc: probs.append('raises %s for %s' % ('/'.join(sorted(esc)), t.what)); continue
                rt = ai.ret_terms()
                w = 32 if '32' in kind else 64
                if all(x[0] == 'i' for x in rt) and rt:
                    for x in rt:
                        if (x[1] - t.n) % (1 << w): probs.append('returns %d for %s' % (x[1], t.what))
                elif w == 64 and any(core(x)[0] == 'real' for x in rt): probs.append('goes through floating point for %s' % t.what)
                elif all(core(x)[0] == 'real' for x in rt): pass
                else: und.append('value %s' % (rt,))
                if ai.c08base: probs.append('takes the digits of numbers for other than decimal ones')
                for inst, c, a in seen:
                    r = idx_ok(fn, a)
                    if r is False: probs.append('reads value %s instead of the requested one' % ', '.join(fmt(x) for x in a))
            fin(ctx, 'Get' + kind, fn, probs, und)
    for short in ('IsScalar', 'IsBool'):
        for fn, indexed in overloads(m, short):
            if not indexed: counts(ctx, short, fn, Text('', 5, lit='yes'), [(0, False), (1, True), (2, False), (3, False)])
    for fn, indexed in overloads(m, 'IsNumericVector'):
        if indexed: counts(ctx, 'IsNumericVector(n)', fn, Text('', 5), [(1, False), (2, True), (3, False)], arg_terms={fn.this + 1: ('i', 2)})
    for fn, indexed in overloads(m, 'IsScalar'):
        n += 1; query(ctx, 'IsScalar' + ('(i)' if indexed else ''), fn, REALS)
    for fn, indexed in overloads(m, 'IsNumericVector'):
        if indexed:
            query(ctx, 'IsNumericVector(n)', fn, REALS, stay=True, size=2, arg_terms={fn.this + 1: ('i', 2)})
            continue
        n += 1; query(ctx, 'IsNumericVector', fn, REALS, stay=True, size=2)
    for fn, _ in overloads(m, 'GetScalar'):
        n += 1; probs, und = [], []
        for t, want in REALS:
            if not want: continue
            ai, seen = run_view(fn, t)
            esc = {T for _, T in ai.escapes}
            if esc: probs.append('raises %s for %s' % ('/'.join(sorted(esc)), t.what)); continue
            real(ai.ret_terms(), probs, und, t)
            for inst, c, a in seen:
                if idx_ok(fn, a) is False: probs.append('reads value %s instead of the requested one' % ', '.join(fmt(x) for x in a))
        fin(ctx, 'GetScalar', fn, probs, und)
    for fn, _ in overloads(m, 'GetNumericVector'):
        n += 1; probs, und = [], []
        for t, want in REALS:
            if not want: continue
            ai, seen = run_view(fn, t, 2)
            esc = {T for _, T in ai.escapes}
            if esc: probs.append('raises %s for %s' % ('/'.join(sorted(esc)), t.what)); continue
            for inst, c, a in seen: real({('real', c, t.n)} if isinstance(CONV[c], str) else {('i', 0)}, probs, und, t)
            if not seen: und.append('no conversion')
            vec(ai, fn, probs, und)
            cover(ai, fn, seen, 2, probs, und, 'converts')
        fin(ctx, 'GetNumericVector', fn, probs, und)
    boolean(ctx, m)
    ctx.need('queries and readers', n, 12)


def core(x):
    while x[0] == 'cast': x = x[2]
    return x


def counts(ctx, key, fn, text, sizes, und0=None, arg_terms=None):
    probs, und = [], []
    for size, want in sizes:
        ai, seen = run_view(fn, text, size, **({'arg_terms': arg_terms} if arg_terms else {}))
        tr = truth(ai.ret_terms())
        if not want and True in tr: probs.append('accepts a setting of %d value%s' % (size, 's'[:size != 1]))
        elif want and tr == {False}: probs.append('refuses a setting of %d value%s' % (size, 's'[:size != 1]))
        elif None in tr: und.append('size')
    fin(ctx, key + ':count', fn, probs, und)


def real(rt, probs, und, t):
    for x in rt:
        y = x
        while y[0] == 'cast':
            if y[1] == 'fptrunc' and y[2][0] == 'real' and y[2][1] == 'stold': y = y[2]; continue
            if y[1] in ('fptosi', 'fptoui'): probs.append('returns an integer for %s' % t.what)
            if y[1] == 'fptrunc': probs.append('returns single precision for %s' % t.what)
            y = y[2]
        if y[0] == 'real':
            if y[1] == 'stof': probs.append('converts %s in single precision' % t.what)
        elif y[0] == 'i' or y[0] == 'f': probs.append('uses an integer conversion for %s' % t.what)
        else: und.append('value %s' % (x,))


def vec(ai, fn, probs, und):
    """every converted value is stored at the index it was read from"""
    n = 0
    idx = {}                                   # conversion value -> index terms (all conversions in this view)
    for inst, c, a in ai.c08seen:
        for t in a:
            if t[0] == 'val': idx.setdefault(inst.id, set()).add(t[1])
    sized = any(i.is_call() and i.callee and re.search(r'std::vector<double.*>::vector\(unsigned long', fn.mod.dem(i.callee)) for i in ai.reached_insts())
    resized = any(i.is_call() and i.callee and re.search(r'std::vector<double.*>::resize\(', fn.mod.dem(i.callee)) for i in ai.reached_insts())
    for i in ai.reached_insts():
        if i.op == 'store' and any(x[0] == 'real' for x in ai.val(i.ops[0])):
            for a in ai.val(i.ops[1]):
                if a[0] != 'vel': continue
                n += 1
                for k in set().union(*idx.values()) if idx else ():
                    if ai.expand(a[2]) != ai.expand(k) and k != ('iter',): probs.append('stores value %s at position %s' % (loops.pf(ai.expand(k)), loops.pf(ai.expand(a[2]))))
        if i.is_call() and i.callee and re.search(r'std::vector<double.*>::(push_back|emplace_back)', fn.mod.dem(i.callee)):
            n += 1
            if sized or resized: probs.append('appends to a vector that already has elements')
    if not n: und.append('stored elements')


def cover(ai, fn, seen, size, probs, und, verb):
    """the loop visits values 0 .. size-1"""
    for inst, c, a in seen:
        for t in a:
            if t[0] != 'val': und.append('text %s' % (t,)); continue
            if t[1] == ('iter',): continue
            p = ai.expand(t[1]); it = loops.its(p)
            if not it:
                if loops.isc(p) is not None: probs.append('%s only value %s' % (verb, loops.pf(p)))
                else: und.append('index %s' % loops.pf(p))
                continue
            if len(it) != 1: und.append('index'); continue
            x = next(iter(it))
            if p != loops.Poly.atom(x):
                if loops.isc(p - loops.Poly.atom(x)) is not None: probs.append('starts at value %s' % loops.pf(p - loops.Poly.atom(x)))
                else: und.append('index %s' % loops.pf(p))
                continue
            bs = [b for b in loops.bounds(ai, x[1]) if b is not None]
            for b in bs:
                if loops.isc(b) is not None and loops.isc(b) != size: probs.append('visits %s of %d values' % (loops.pf(b), size))
            if not bs: und.append('bound')


def boolean(ctx, m):
    """every text accepted as boolean is read as the boolean it spells"""
    for fn, indexed in overloads(m, 'IsBool'):
        if not indexed: continue
        gets = m.method('SettingScript', 'GetBool')
        if not gets: return
        g = gets[0]; probs, und = [], []
        lits = set()
        for f in (fn, g):
            for i in f.insts.values():
                if i.is_call() and i.callee and re.search(r'operator(==|!=)<char', m.dem(i.callee)):
                    for o in i.ops:
                        if isinstance(o, dict) and o['k'] == 'g':
                            t = m.cstr(o['v'], o.get('o', 0))
                            if t is not None: lits.add(t)
        if not lits: ctx.undecided('IsBool(i)', 'no literals', fn); return
        for l in sorted(lits) + ['\1other']:
            ai, _ = run_view(fn, Text(l, lit=l)); aj, _ = run_view(g, Text(l, lit=l))
            q = truth(ai.ret_terms()); r = truth(aj.ret_terms()); esc = {T for _, T in aj.escapes}
            w = {'yes': True, 'true': True, 'no': False, 'false': False, 'on': True, 'off': False, '1': True, '0': False}.get(l.lower())
            if None in q or None in r: und.append('answer for "%s"' % l); continue
            if True in q:
                if esc: probs.append('accepts "%s" but reading it raises %s' % (l, '/'.join(sorted(esc))))
                if w is not None and r and r != {w}: probs.append('text "%s" is read as %s' % (l, sorted(r)))
                if l == '\1other': probs.append('accepts arbitrary text')
        fin(ctx, 'IsBool(i)', fn, probs, und)
