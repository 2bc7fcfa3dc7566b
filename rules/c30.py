"""C30: images: orientation, size, colour interpolation and clamping, dispatch, uncreatable files."""
import re
from fractions import Fraction
from absint import AbsInt, Poly, base_off, fmt, mkptr
import loops
from loops import pf
from numev import Num, Unknown, Undefined
from c06 import events, Typestate, words
from c04 import fin

F1 = Fraction(1)
A = lambda k: Poly.atom(('arg', k))
N = lambda c: Poly.const(Fraction(c))
IT = lambda h: Poly.atom(('it', h))


def run(ctx):
    ctx.rule('the colour of a value is linear between the neighbouring colours of the map, the first colour at and below vmin, the last at and above vmax, a colour of the map for every other value (NaN), at representative values of every region')
    ctx.rule('the picture is nrows wide and ncols high; the pixel in column x of row y is the colour of element (x, y) of the row-major nrows x ncols array, red, green, blue in this order')
    ctx.rule('format and colour map names select the writer and map of that name, anything else throws; a file that cannot be created throws')
    m = ctx.module('--keep', r'ImageColormap::Eval\([a-z ]*\)( const)?$', '--ctors', '--only', 'Image', witness=('headers',))
    n = 0
    for f in m.find(r'^ImageColormap::Eval\([a-z ]*\)( const)?$', suf=''): n += 1; colour(ctx, m, f)
    for f in m.find(r'^ImageGeneratorPPM::SaveImage\(.*ImageColormap\*\)', suf=''): n += 1; ppm(ctx, m, f)
    for f in m.find(r'^ImageGeneratorPNG::SaveImage\(.*ImageColormap\*\)', suf=''): n += 1; png(ctx, m, f)
    dispatch(ctx, m)
    ctx.need('image writers and colour map', n, 2)


# ---------------------------------------------------------------- colour map
TAB = [(0, 10, 250), (200, 90, 130), (40, 255, 20), (255, 0, 100), (17, 170, 60)]
INF = float('inf')


def colour(ctx, m, f):
    off = {k: m.field_off('ImageColormap', k) for k in ('colors', 'ncolors', 'vmin', 'vmax')}
    if None in off.values(): ctx.undecided('colour', 'members not found'); return
    for nc in (2, 5, 1):
        for lo, hi in ((0.0, 1.0), (2.0, 6.0), (-3.0, 5.0)):
            w = hi - lo
            pts = [('below the range', lo - 0.3 * w, 0), ('far below', -1e300, 0), ('minus infinity', -INF, 0), ('at vmin', lo, 0), ('at vmax', hi, nc - 1),
                   ('above the range', hi + 0.3 * w, nc - 1), ('far above', 1e300, nc - 1), ('infinity', INF, nc - 1), ('undefined', float('nan'), None)]
            for k in range(nc - 1):
                for fr in (0.0, 0.25, 0.5, 0.9375): pts.append(('between colours', lo + w * (k + fr) / (nc - 1), k + fr))
            for nm, v, want in pts:
                if nc == 1 and abs(v) == INF: want = 0
                one(ctx, m, f, off, nc, lo, hi, nm, v, want)


def one(ctx, m, f, off, nc, lo, hi, nm, v, want):
    key = 'colour.%d.%g-%g.%s%s' % (nc, lo, hi, nm, '' if nm != 'between colours' else ' %g' % want)
    mem = {('this', off['colors']): ('P', 'tab', 0), ('this', off['ncolors']): nc, ('this', off['vmin']): lo, ('this', off['vmax']): hi}

    def load(b, o):
        if b == 'this':
            if (b, o) in mem: return mem[b, o]
            raise Unknown('member at %d' % o)
        if not 0 <= o < 12 * nc: raise Undefined('colour number %d of a map of %d' % (o // 12, nc))
        if o % 4: raise Unknown('offset')
        if width.get(cur[0]) == 8: return TAB[o // 12][o // 4 % 3] | TAB[(o + 4) // 12][(o + 4) // 4 % 3] << 32
        if width.get(cur[0]) == 0: raise Unknown('access width')
        return TAB[o // 12][o // 4 % 3]

    width, cur = {}, [None]

    def leaf(t):
        if t == ('arg', f.this): return ('P', 'this', 0)
        if t == ('arg', f.this + 1): return v
        if t[0] == 'ld' and width:
            p = nu.ptr(t[1]); cur[0] = t[1]
            return load(p[1], p[2])
        return None
    nu = Num(leaf, load)
    try:
        ai = AbsInt(f, cmp=nu.cmp)
        for i in ai.reached_insts():
            if i.op == 'load' and i.d.get('ty') in ('i64', 'i32'):
                for t in ai.ev(i.ops[0]): width[t] = i.d['sz'] if width.get(t, i.d['sz']) == i.d['sz'] else 0
        nu.memo.clear()
        vals = {t for r in ai.rets if f.insts[r].blk.id in ai.reached for t in ai.rets[r]}
        if not vals:
            ctx.bad(key, f.loc(), 'no colour for the value %g (%s, range %g to %g)' % (v, nm, lo, hi), f); return
        if len(vals) != 1: raise Unknown('several colours')
        t = next(iter(vals))
        if t[0] != 'agg' or len(t[1]) != 2: raise Unknown('result')
        a, b = nu(t[1][0]), nu(t[1][1])
        got = (a & 0xffffffff, (a >> 32) & 0xffffffff, b & 0xffffffff)
    except Undefined as e:
        ctx.bad(key, f.loc(), 'colour of the value %g (%s, range %g to %g, %d colours): %s' % (v, nm, lo, hi, nc, e), f); return
    except Unknown as e:
        ctx.undecided(key, 'colour not understood: %s' % e, f); return
    if want is None:
        ok = got in TAB[:nc]
        exp = 'a colour of the map'
    else:
        k = min(int(want), nc - 1); fr = want - k
        exp = tuple(TAB[k][c] * (1 - fr) + (TAB[k + 1][c] * fr if fr else 0) for c in range(3))
        ok = all(abs(g - e) <= (1 if fr else 1e-9) for g, e in zip(got, exp))
    if ok: ctx.ok(key, f)
    else: ctx.bad(key, f.loc(), 'colour of the value %g (%s, range %g to %g, %d colours) is %s, expected %s' % (v, nm, lo, hi, nc, got, exp), f)


# ---------------------------------------------------------------- writers
def channel(t):
    """(Eval call, 0|1|2) if the term is a channel of an evaluated colour"""
    sh = 0
    while True:
        if t[0] == 'cast' and t[1] in ('trunc', 'zext', 'sext'): t = t[2]
        elif t[0] == 'op' and t[1] == 'lshr' and t[3] == ('i', 32): sh += 1; t = t[2]
        elif t[0] == 'op' and t[1] == 'and' and t[3][0] == 'i' and t[3][1] in (255, 0xffffffff): t = t[2]
        else: break
    if t[0] == 'ext' and t[1][0] == 'call' and 'Eval' in t[1][1]:
        if t[2] == (0,) and sh <= 1: return t[1], sh
        if t[2] == (1,) and sh == 0: return t[1], 2
    return None


def pixel_source(ai, call):
    """address polynomial (relative to the image) of the value of an Eval call; None if not understood"""
    i = ai.fn.insts[call[2]]
    vs = ai.ev(i.ops[-1])
    if len(vs) != 1: return None
    t = next(iter(vs))
    if t[0] != 'ld': return None
    b, o, v = base_off(t[1])
    p = ai.expand(t[1]) - A(ai.fn.this + 2)
    return None if any(x == ('arg', ai.fn.this + 2) for k in p.m for x, _ in k) else p


def colourmap_arg(ai, call):
    i = ai.fn.insts[call[2]]
    return ai.ev(i.ops[0])


CH = ['red', 'green', 'blue']


def settled(p):
    return all(t[0] in ('arg', 'it') for k in p.m for t, _ in k)


def place(ai, src, x, y, probs, und, loc):
    """element of the array shown in column x of row y"""
    a = ai.fn.this
    want = (IT(x) * A(a + 4) + IT(y)) * N(8)
    if src is None: und.append('source of a pixel'); return
    if src == want: return
    if not settled(src): und.append('source of a pixel: %s' % pf(src)); return
    d = src - want
    nm = {('arg', a + 3): 'nrows', ('arg', a + 4): 'ncols', ('it', x): 'x', ('it', y): 'y'}
    tx = ' + '.join('*'.join(([str(c / 8)] if c != 8 or not k else []) + [nm.get(t, str(t[1])) + ('^%d' % e if e != 1 else '') for t, e in k]) for k, c in src.m.items())
    probs.append((loc, 'shows element %s of the array in column x of row y, expected x*ncols + y' % tx))


def trip(ai, h, want, what, probs, und, loc):
    for b in loops.bounds(ai, h):
        if b == want: continue
        if b is not None and settled(b): probs.append((loc, 'writes %s %s' % (pf(b), what)))
        else: und.append('number of ' + what)


def cant(ctx, m, f, key, what):
    """no return when the file cannot be opened"""
    def hook(i, d, args, mem, ai):
        if re.search(r'::(is_open|good|operator bool)\(\)', d or ''): return frozenset([('i', 0)])
        if re.search(r'::(fail|bad|operator!)\(\)', d or ''): return frozenset([('i', 1)])
        return None
    opens = set()

    def cmp(p, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and x[1].startswith('fopen') and y in (('null',), ('i', 0)):
                opens.add(x)
                return {'eq': True, 'ne': False}.get(p)
        return None
    ai = AbsInt(f, callhook=hook, cmp=cmp)
    rs = [r for r in ai.rets if f.insts[r].blk.id in ai.reached]
    if rs: ctx.bad(key, f.loc(), '%s returns as if the picture were saved when the file cannot be created' % what, f)
    else: ctx.ok(key, f)


def ppm(ctx, m, f):
    a = f.this
    ai = AbsInt(f)
    ev = events(ai)
    cant(ctx, m, f, 'ppm.open', 'ImageGeneratorPPM::SaveImage')
    if not ev: ctx.undecided('ppm', 'no output to a stream', f); return
    probs, und, data = [], [], []

    def number(w, want, what):
        if w[0] == 'w':
            if isinstance(want, str): return None if w[1] == want else '!writes "%s" as the %s' % (w[1], what)
            return '!writes "%s" as the %s' % (w[1], what)
        vs = {loops.strip_casts(t)[0] for t in w[2]}
        if isinstance(want, str):
            if vs == {('i', int(want))}: return None
        elif vs == {want}: return None
        if all(t[0] in ('arg', 'i') for t in vs): return '!writes %s as the %s' % ('/'.join(fmt(t, f) for t in vs), what)
        und.append(what); return None
    HEAD = [('P3', 'format'), (('arg', a + 3), 'width'), (('arg', a + 4), 'height'), ('255', 'largest colour value')]

    def step(s, item, inst):
        k = item[0]
        if k in ('prec', 'manip'): return s
        if k in ('?', 'str'): und.append('output at %s' % inst.loc()); return ('X',)
        if s == ('X',): return s
        for w in (words(item[1]) if k == 'lit' else [item]):
            s = tok(s, w, inst)
            if isinstance(s, str): return s
        return s

    def tok(s, w, inst):
        if s == ('X',): return s
        st, open_, txt = s
        if w[0] in 'sn':
            if isinstance(st, int) and st < 4 and txt:
                e = None
                want, what = HEAD[st]
                if txt != '#':
                    e = number(('w', txt), want, what)
                    if e: return e
                return (st + 1 if st < 3 else 'd0', False, '')
            return (st, False, txt)
        if isinstance(st, int):
            if w[0] == 'w':
                if txt == '#': return '!runs numbers together in the header'
                return (st, True, txt + w[1])
            if txt: return '!runs numbers together in the header'
            e = number(w, HEAD[st][0] if st else 'P3', HEAD[st][1])
            return e if e else (st, True, '#')
        if w[0] == 'w': return '!writes "%s" among the pixels' % w[1]
        if open_: return '!writes two colour values without a separator'
        c = int(st[1])
        data.append((inst, w, c))
        return ('d%d' % ((c + 1) % 3), True, '')
    ts = Typestate(ai, ev, (0, False, ''), step)
    for iid, p in ts.problems: probs.append((f.insts[iid].loc(), p[1:]))
    for rid, st in ts.end.items():
        for s in st:
            if s == ('X',): continue
            if s[0] not in ('d0',): probs.append((f.insts[rid].loc(), 'ends within a pixel' if isinstance(s[0], str) else 'ends before the pixels'))
    if not data and not probs: und.append('no pixels found')
    nat = loops.natural(f)
    for inst, w, c in data:
        for t in w[2]:
            ch = channel(t)
            if ch is None:
                und.append('colour value %s' % fmt(t, f)[:60]); continue
            call, k = ch
            if k != c: probs.append((inst.loc(), 'writes %s where %s is expected' % (CH[k], CH[c]))); continue
            if colourmap_arg(ai, call) != frozenset([('arg', a + 5)]): und.append('colour map'); continue
            src = pixel_source(ai, call)
            hs = [h for h in nat if inst.blk.id in nat[h]]
            if len(hs) != 2: und.append('pixels are not written by two nested loops'); continue
            y, x = sorted(hs, key=lambda h: -len(nat[h]))
            if x not in nat[y] or y in nat[x]: und.append('loops not nested'); continue
            place(ai, src, x, y, probs, und, inst.loc())
            trip(ai, x, A(a + 3), 'pixels per row', probs, und, inst.loc())
            trip(ai, y, A(a + 4), 'rows', probs, und, inst.loc())
            for h in (x, y):
                for s in ts.back.get(h, ()):
                    if s != ('X',) and s[0] != 'd0' and not isinstance(s[0], int): probs.append((inst.loc(), 'a pixel has not three colour values'))
    fin(ctx, 'ppm.pixels', 'ImageGeneratorPPM::SaveImage', f, probs, und)


def stores_into(ai, base):
    out = []
    for i in ai.reached_insts():
        if i.op != 'store': continue
        for d in ai.ev(i.ops[1]):
            p = ai.expand(d)
            if p.m.get(((base, 1),)) == 1: out.append((i, p - Poly.atom(base), ai.ev(i.ops[0])))
    return out


def png(ctx, m, f):
    a = f.this
    ai = AbsInt(f)
    cant(ctx, m, f, 'png.open', 'ImageGeneratorPNG::SaveImage')
    probs, und = [], []
    calls = {}
    for i in ai.reached_insts():
        if i.is_call() and i.callee: calls.setdefault(i.callee, []).append(i)
    one = lambda i, k: next(iter(ai.ev(i.ops[k]))) if len(ai.ev(i.ops[k])) == 1 else None
    for i in calls.get('png_set_IHDR', []):
        for k, want, what in ((2, ('arg', a + 3), 'width'), (3, ('arg', a + 4), 'height'), (4, ('i', 8), 'bit depth'), (5, ('i', 2), 'colour type')):
            v = one(i, k); v = loops.strip_casts(v)[0] if v else None
            if v == want: continue
            if v and v[0] in ('arg', 'i'): probs.append((i.loc(), 'declares %s as the %s' % (fmt(v, f), what)))
            else: und.append(what)
    if 'png_set_IHDR' not in calls: und.append('no header')
    sr = calls.get('png_set_rows', []) or calls.get('png_write_image', [])
    if len(sr) != 1: und.append('rows are not handed over by png_set_rows'); fin(ctx, 'png.pixels', 'ImageGeneratorPNG::SaveImage', f, probs, und); return
    tab = one(sr[0], len(sr[0].ops) - 1)
    size(ai, f, tab, A(a + 4) * N(8), 'row table', probs, und)
    nat = loops.natural(f)
    rows = stores_into(ai, tab) if tab else []
    if len(rows) != 1 or len(rows[0][2]) != 1: und.append('row table'); rows = []
    for i, p, v in rows:
        row = next(iter(v))
        it = loops.its(p)
        if len(it) != 1: und.append('row index'); continue
        y = next(iter(it))[1]
        if p != IT(y) * N(8):
            (probs.append((i.loc(), 'places row y at %s/8 of the row table' % pf(p))) if settled(p) else und.append('row index')); continue
        trip(ai, y, A(a + 4), 'rows', probs, und, i.loc())
        size(ai, f, row, A(a + 3) * N(3), 'row', probs, und)
        px = stores_into(ai, row)
        seen = {}
        for s, d, vs in px:
            its = loops.its(d) - {('it', y)}
            if len(its) != 1: und.append('position in a row'); continue
            x = next(iter(its))[1]
            c = d - IT(x) * N(3)
            cv = loops.isc(c)
            if cv is None or cv not in (0, 1, 2):
                (probs.append((s.loc(), 'writes byte %s of row y' % pf(d))) if settled(d) else und.append('position in a row')); continue
            seen[int(cv)] = s
            if x not in nat[y]: und.append('loops not nested'); continue
            trip(ai, x, A(a + 3), 'pixels per row', probs, und, s.loc())
            for t in vs: value(ai, f, t, int(cv), x, y, probs, und, s)
        if px and not und and set(seen) != {0, 1, 2}: probs.append((px[0][0].loc(), 'does not write all three bytes of a pixel'))
        if not px: und.append('row contents')
    fin(ctx, 'png.pixels', 'ImageGeneratorPNG::SaveImage', f, probs, und)


def size(ai, f, t, want, what, probs, und):
    if not t: return
    i = f.insts.get(t[-1] if t[0] == 'call' else t[1]) if t[0] in ('call', 'new') else None
    if i is None or not i.is_call(): return
    vs = ai.ev(i.ops[-1]) if 'calloc' not in (i.callee or '') else set()
    for v in vs:
        p = ai.expand(v)
        d = want - p
        if settled(p) and d.m and all(c > 0 for c in d.m.values()) and not (p.m and not set(p.m) & set(want.m)):
            probs.append((i.loc(), 'allocates %s bytes for a %s of %s' % (pf(p), what, pf(want))))


def value(ai, f, t, c, x, y, probs, und, s):
    ch = channel(t)
    if ch:
        if ch[1] != c: probs.append((s.loc(), 'writes %s where %s is expected' % (CH[ch[1]], CH[c]))); return
        if colourmap_arg(ai, ch[0]) != frozenset([('arg', f.this + 5)]): und.append('colour map')
        place(ai, pixel_source(ai, ch[0]), x, y, probs, und, s.loc()); return
    v, ops = loops.strip_casts(t)
    if v[0] != 'ld': und.append('value of a byte'); return
    b, o, var = base_off(v[1])
    p = ai.expand(v[1])
    bases = [k[0][0] for k in p.m if len(k) == 1 and k[0][1] == 1 and p.m[k] == 1 and k[0][0][0] in ('new', 'call')]
    if len(bases) != 1: und.append('value of a byte'); return
    base = bases[0]
    src = p - Poly.atom(base)
    size(ai, f, base, A(f.this + 3) * A(f.this + 4) * N(3), 'picture', probs, und)
    st = stores_into(ai, base)
    hit = False
    for i, q, vs in st:
        # iterations of the first stage in terms of those of the second
        mp = unify(ai, q, src)
        if mp is None: continue
        if mp == 'no': continue
        hit = True
        for w in vs:
            ch = channel(w)
            if not ch: und.append('value of a byte'); continue
            if ch[1] != c: probs.append((i.loc(), 'stores %s where %s is expected' % (CH[ch[1]], CH[c]))); continue
            ad = pixel_source(ai, ch[0])
            if ad is not None: ad = rename(ad, mp)
            place(ai, ad, x, y, probs, und, i.loc())
    if not hit:
        near = [(i, unify(ai, q, src, False)) for i, q, vs in st if settled(q)]
        if st and settled(src) and len(near) == len(st) and all(isinstance(d, Poly) and loops.isc(d) is None for i, d in near):
            probs.append((s.loc(), 'reads byte %s of the picture, which was stored elsewhere' % pf(src)))
        else: und.append('stage of a byte')


def unify(ai, q, src, exact=True):
    """rename the loops of q so that it equals src (equal coefficient, equal trip count)"""
    co = lambda p, h: Poly({tuple(e for e in k if e[0] != h): v for k, v in p.m.items() if (h, 1) in k})
    a, b = sorted(loops.its(q)), sorted(loops.its(src))
    mp = {}
    for h in a:
        c = [g for g in b if (co(src, g) == co(q, h) or not exact) and loops.bounds(ai, g[1]) == loops.bounds(ai, h[1])]
        if len(c) != 1: return None
        mp[h] = c[0]
    if len(set(mp.values())) != len(a): return None
    return mp if rename(q, mp) == src else 'no' if exact else src - rename(q, mp)


def rename(p, mp):
    out = {}
    for k, v in p.m.items():
        k2 = tuple(sorted(((mp.get(t, t), e) for t, e in k), key=repr))
        out[k2] = out.get(k2, 0) + v
    r = Poly({})
    for k, v in out.items():
        q = Poly.const(v)
        for t, e in k:
            for _ in range(e): q = q * Poly.atom(t)
        r = r + q
    return r


# ---------------------------------------------------------------- dispatch
def dispatch(ctx, m):
    it = dict(m.enums['ImageGenerator::image_type']['vals']) if 'ImageGenerator::image_type' in m.enums else {}
    ct = dict(m.enums['ImageGenerator::colormap_type']['vals']) if 'ImageGenerator::colormap_type' in m.enums else {}
    have = {d.split('::')[0] for d, *_ in m.index}
    for f in m.find(r'^ImageGenerator::GetImageGenerator\(', suf=''):
        for nm, v in sorted(it.items()) + [('unknown', 977)]:
            key = 'format.' + nm
            ai = AbsInt(f, arg_terms={len(f.args) - 1: ('i', v)})
            rs = [(r, t) for r in ai.rets if f.insts[r].blk.id in ai.reached for t in ai.rets[r]]
            cls = 'ImageGenerator' + nm.replace('IMAGE_TYPE_', '')
            if nm == 'unknown' or not m.find(r'^%s::SaveImage\(' % cls, suf=''):
                if rs: ctx.bad(key, f.loc(), 'an unsupported image format is not rejected', f)
                else: ctx.ok(key, f)
                continue
            if not rs: ctx.bad(key, f.loc(), 'format %s is not available' % nm, f); continue
            got = set()
            for r, t in rs:
                for x in ai.load(ai.mem_at(f.insts[r]), t, 'ptr'): got.add(x)
            names = {re.sub(r'^(_ZTV\d+|vtable for )', '', m.dem(x[1])) if x[0] == 'g' else '?' for x in got}
            if names == {cls}: ctx.ok(key, f)
            elif '?' in names: ctx.undecided(key, 'object not understood', f)
            else: ctx.bad(key, f.loc(), 'format %s gives %s' % (nm, ', '.join(sorted(names))), f)
    off = {k: m.field_off('ImageGenerator', k) for k in ('cmap_gerimap', 'cmap_gray')}
    for f in m.find(r'^ImageGenerator::SaveImage\(', suf=''):
        if None in off.values() or 'colormap_type' not in f.sig[-1]: continue
        a = f.this
        for nm, v in sorted(ct.items()) + [('unknown', 977)]:
            key = 'colormap.' + nm
            ai = AbsInt(f, arg_terms={len(f.args) - 1: ('i', v)})
            rs = [r for r in ai.rets if f.insts[r].blk.id in ai.reached]
            if nm == 'unknown':
                if rs: ctx.bad(key, f.loc(), 'an unknown colour map is not rejected', f)
                else: ctx.ok(key, f)
                continue
            o = off.get('cmap_' + nm.replace('COLORMAP_', '').lower())
            if o is None: continue
            cs = [i for i in ai.reached_insts() if i.is_call() and len(i.ops) >= 6 and ai.ev(i.ops[1]) == frozenset([('arg', a + 1)])]
            if not rs: ctx.bad(key, f.loc(), 'colour map %s is rejected' % nm, f); continue
            if len(cs) != 1: ctx.undecided(key, 'call of the writer not found', f); continue
            forward(ctx, ai, f, cs[0], key, a, ('ld', mkptr(('arg', a), o)), nm)
    for f in m.find(r'^ImageGenerator::gen\(', suf=''):
        last = len(f.args) - 1
        for nm, v in sorted(it.items()):
            if not m.find(r'^ImageGenerator%s::SaveImage\(' % nm.replace('IMAGE_TYPE_', ''), suf=''): continue
            for null in ((False, True) if 'ImageColormap' in f.sig[-1] else (False,)):
                at = {0: ('i', v)}
                if null: at[last] = ('null',)
                ai = AbsInt(f, arg_terms=at, cmp=None if null or 'ImageColormap' not in f.sig[-1] else lambda p, x, y: {'eq': False, 'ne': True}.get(p) if {x, y} == {('arg', last), ('null',)} else None)
                key = 'gen.%s.%s%s' % ('map' if 'ImageColormap' in f.sig[-1] else 'type', nm, '.default' if null else '')
                cs = [i for i in ai.reached_insts() if i.is_call() and len(i.ops) >= 6 and ai.ev(i.ops[1]) == frozenset([('arg', 1)])]
                if len(cs) != 1: ctx.undecided(key, 'call of the writer not found', f); continue
                forward(ctx, ai, f, cs[0], key, 0, None if null else ('arg', last), 'given')
                if null:
                    vs = ai.ev(cs[0].ops[5])
                    if vs & {('null',)}: ctx.bad(key + '.map', cs[0].loc(), 'hands no colour map to the writer', f)
                    elif wrongdefault(ai, cs[0], vs, off): ctx.bad(key + '.map', cs[0].loc(), 'takes another map than the default one (gerimap) when no colour map is given', f)
                    elif any(t[0] in ('undef', 'top') for t in vs): ctx.undecided(key + '.map', 'colour map', f)
                    else: ctx.ok(key + '.map', f)
    # the maps themselves
    for f in m.find(r'^ImageGenerator::ImageGenerator\(', suf=''):
        ai = AbsInt(f)
        for nm, o in off.items():
            if o is None: continue
            key = 'map.' + nm
            rs = [r for r in ai.rets if f.insts[r].blk.id in ai.reached]
            for r in rs[:1]:
                mem = ai.mem_at(f.insts[r])
                vs = ai.load(mem, mkptr(('arg', f.this), o), 'ptr')
                if len(vs) != 1 or next(iter(vs))[0] not in ('new', 'null', 'ld'): ctx.undecided(key, 'member %s' % nm, f); continue
                c = next(iter(vs))
                if c[0] != 'new': ctx.bad(key, f.loc(), 'the constructor leaves %s without a colour map' % nm, f); continue
                oo = {k: m.field_off('ImageColormap', k) for k in ('colors', 'ncolors', 'vmin', 'vmax')}
                g = {k: ai.load(mem, mkptr(c, v), 'i64') for k, v in oo.items() if v is not None}
                if any(len(x) != 1 for x in g.values()): ctx.undecided(key, 'contents', f); continue
                g = {k: next(iter(x)) for k, x in g.items()}
                probs, und = [], []
                for k, want in (('vmin', 0.0), ('vmax', 1.0)):
                    if g[k][0] == 'f' and g[k][1] != want: probs.append((f.loc(), 'gives %s the limit %s = %g' % (nm, k, g[k][1])))
                    elif g[k][0] != 'f': und.append(k)
                table(ai, m, f, g, nm, probs, und)
                fin(ctx, key, 'ImageGenerator()', f, probs, und)


def wrongdefault(ai, call, vs, off):
    """the map handed over is a member of the writer other than the default one"""
    if None in off.values(): return False
    own = next(iter(ai.ev(call.ops[0]))) if len(ai.ev(call.ops[0])) == 1 else None
    if own is None: return False
    have = {k: ai.load(ai.mem_at(call), mkptr(own, o), 'ptr') for k, o in off.items()}
    return bool(vs) and not vs & have['cmap_gerimap'] and all(any(t in have[k] for k in have if k != 'cmap_gerimap') for t in vs)


def forward(ctx, ai, f, call, key, a, cmap, nm):
    probs, und = [], []
    for k, want, what in ((1, ('arg', a + 1), 'file name'), (2, ('arg', a + 2), 'array'), (3, ('arg', a + 3), 'number of rows'), (4, ('arg', a + 4), 'number of columns')) + (((5, cmap, 'colour map'),) if cmap else ()):
        for t in ai.ev(call.ops[k]):
            if t == want: continue
            if t[0] in ('arg', 'i', 'null') or (t[0] == 'ld' and k == 5): probs.append((call.loc(), 'passes %s as the %s' % (fmt(t, f), what if k != 5 else nm + ' colour map')))
            else: und.append(what)
    fin(ctx, key, f.dem.split('(')[0] if hasattr(f, 'dem') else 'ImageGenerator', f, probs, und)


def table(ai, m, f, g, nm, probs, und):
    want = 'icmap_' + nm.replace('cmap_', '')
    n = g['ncolors']
    st = stores_into(ai, g['colors'])
    gl = set()
    for i, p, vs in st:
        for v in vs:
            for k in ai.expand(v[1] if v[0] == 'ld' else v).m:
                if len(k) == 1 and k[0][0][0] == 'g' and 'icmap_' in k[0][0][1]:
                    gl.add(k[0][0][1])
                    if want not in k[0][0][1]: probs.append((i.loc(), 'fills %s from %s' % (nm, m.dem(k[0][0][1])))); return
    gl = sorted(gl)
    if n[0] != 'i' or len(gl) != 1: und.append('table'); return
    G = m.globals[gl[0]]
    ln = None
    mm = re.match(r'\[(\d+) x', G.get('ty', ''))
    if mm: ln = int(mm.group(1))
    if ln and n[1] > ln: probs.append((f.loc(), 'takes %d colours from the %d of %s' % (n[1], ln, want))); return
    if ln and n[1] < ln: probs.append((f.loc(), 'uses only %d of the %d colours of %s' % (n[1], ln, want))); return
    seen = set()
    for i, p, vs in st:
        for v in vs:
            t, ops = loops.strip_casts(v)
            if t[0] != 'ld': und.append('colour'); continue
            q = ai.expand(t[1])
            bs = [k[0][0] for k in q.m if len(k) == 1 and k[0][0][0] == 'g']
            if len(bs) != 1: und.append('colour'); continue
            if want not in bs[0][1]: probs.append((i.loc(), 'fills %s from %s' % (nm, m.dem(bs[0][1])))); continue
            q = q - Poly.atom(bs[0])
            if q != p:
                if settled(q) and settled(p): probs.append((i.loc(), 'copies byte %s of the table to byte %s' % (pf(q), pf(p))))
                else: und.append('colour index')
                continue
            it = loops.its(p)
            if len(it) != 1: und.append('colour index'); continue
            for b in loops.bounds(ai, next(iter(it))[1]):
                if b is None: und.append('number of colours')
                elif b != N(n[1]): probs.append((i.loc(), 'copies %s of %d colours' % (pf(b), n[1])))
            seen.add(loops.isc(p - IT(next(iter(it))[1]) * N(12)))
    if not probs and not und and seen != {0, 4, 8}: und.append('channels')
