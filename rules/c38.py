"""C38: configuration lookups and merges answer exactly what was set."""
from c04 import fin
from c20 import uniq
from confmodel import World, Blk, module, objects, unknown, plain

SETS = [('a', ['1'], False), ('ab', ['2', '3'], True), ('', ['e'], False), ('b', [], False)]
TREE = Blk(0, '<root>', '', SETS, [Blk(1, 'x', 's'), Blk(2, 'x', '', [('a', ['9'], False)]), Blk(1, 'y'), Blk(3, 'xy')])
S = r'\(std::__cxx11'


def snap(w, r, mem, p):
    b = w.get_block(r, mem, p)
    return b


def model_merge(t, s, new):
    """(contents, names reported) by the documented rules; t, s: (type, name, sec, settings, subs)"""
    un = []; ts = [list(x) for x in t[3]]
    for n, v, _ in s[3]:
        hit = [x for x in ts if x[0] == n]
        if hit: hit[0][1] = v
        elif new: ts.append([n, v, None])
        else: un.append(n)
    tb = list(t[4])
    for b in s[4]:
        hit = [k for k, x in enumerate(tb) if x[:2] == b[:2]]
        if hit:
            tb[hit[0]], u = model_merge(tb[hit[0]], b, new); un += u
        elif new: tb.append(b)
        else: un.append(b[1])
    return (t[0], t[1], t[2], tuple(tuple(x) for x in ts), tuple(tb)), un


def strip(b): return (b[0], b[1], b[2], tuple(x[:2] for x in b[3]), tuple(strip(x) for x in b[4]))


class Ops:
    def __init__(self, ctx):
        self.ctx = ctx; self.m = module(ctx); self.n = 0

    def each(self, key, rx, build, judge, raises=None):
        """build(world) -> (this, args); judge(w, r, st, v, mem, x) -> list of messages"""
        fs = self.m.find(rx, suf='')
        if len(fs) != 1: self.ctx.undecided(key, 'method not found'); return
        f = fs[0]; w = World(self.m)
        if not w.ok: self.ctx.undecided(key, 'members not found', f); return
        self.n += 1
        this, args, x = build(w)
        r, und = w.run(f, this, *args); probs = []; und = list(und)
        for st, I, v, mem in r.out if r else ():
            if raises: probs.append((f.loc(), 'no exception although %s' % raises)); continue
            for p in judge(w, r, st, v, mem, x) or ():
                if p is None: und.append('result not known')
                else: probs.append((f.loc(), p))
        if r and r.excs and not raises: probs.append((f.loc(), 'ends with %s' % r.excs[0][2]))
        if r and not r.out and not r.excs and not und: und.append('no outcome')
        fin(self.ctx, key, f.dem.split('(')[0], f, uniq(probs), und[:3])


def touched(w, r, mem, p, want):
    """messages when the settings marked as read are not the expected ones or anything else changed"""
    b, b0 = w.get_block(r, mem, p), w.get_block(r, w.mem, p)
    if unknown(b): return [None]
    if plain(b, False) != plain(b0, False) or [q for q, _ in b[4]] != [q for q, _ in b0[4]] or [q for q, _ in b[5]] != [q for q, _ in b0[5]]: return ['the block is changed by a lookup']
    got = {c[0] for _, c in b[4] if c[2]}
    return [] if got == want else ['the settings marked as read are %s instead of %s' % (sorted(got), sorted(want))]


def boolean(v, want):
    if v is None or v[0] != 'i': return [None]
    return [] if bool(v[1] & 1) == want else ['%s is reported' % ('false' if want else 'true')]


def run(ctx):
    ctx.rule('every lookup, addition and merge of configuration blocks followed on small trees that cover each pattern of equal and different names and types; result and tree are those the documented rules give')
    o = Ops(ctx); m = o.m
    T0 = {'ab'}
    for k, nm in enumerate(['a', 'ab', '', 'b', 'c', 'A', 'aba', 'x']):
        has = [s[0] for s in SETS].index(nm) if nm in [s[0] for s in SETS] else None
        def build(w): p = w.block(TREE); return p, [w.string(nm)], p
        def at(w, p): return w.mem[('vec', w.at(p, w.fb['settings']))][1][has] if has is not None else ('i', 0)
        o.each('HasSetting.%d' % k, r'^ConfigBlock::HasSetting' + S, build, lambda w, r, st, v, mem, p: boolean(v, has is not None) + touched(w, r, mem, p, T0))
        o.each('GetSetting.%d' % k, r'^ConfigBlock::GetSetting' + S, build, lambda w, r, st, v, mem, p: ([None] if v is None else [] if v == at(w, p) else ['the setting found is not the one with the name asked for']) + touched(w, r, mem, p, T0 | ({nm} if has is not None else set())))
        vals = SETS[has][1] if has is not None else None
        o.each('subscript.%d' % k, r'^ConfigBlock::operator\[\]' + S, build, lambda w, r, st, v, mem, p: ([None] if r.text(mem, ('t', 'ret')) is None else [] if r.text(mem, ('t', 'ret')) == vals[0] else ['the value is not the first one of the setting']), raises=None if vals else 'there is no such value')
    for k, (ty, nm) in enumerate([(1, 'x'), (2, 'x'), (1, 'y'), (2, 'y'), (0, 'x'), (1, 'xy'), (3, 'xy'), (1, 's'), (1, '')]):
        ix = [(b.type, b.name) for b in TREE.subs].index((ty, nm)) if (ty, nm) in [(b.type, b.name) for b in TREE.subs] else None
        def build(w): p = w.block(TREE); return p, [('i', ty), w.string(nm)], p
        def at(w, p): return w.mem[('vec', w.at(p, w.fb['subblocks']))][1][ix] if ix is not None else ('i', 0)
        o.each('HasSubBlock.%d' % k, r'^ConfigBlock::HasSubBlock\(unsigned long, std', build, lambda w, r, st, v, mem, p: boolean(v, ix is not None) + touched(w, r, mem, p, T0))
        o.each('GetConfigBlock.%d' % k, r'^ConfigBlock::GetConfigBlock\(', build, lambda w, r, st, v, mem, p: ([None] if v is None else [] if v == at(w, p) else ['the block found is not the one with the type and name asked for']) + touched(w, r, mem, p, T0))
        # addition of a block by type and name
        def added(w, r, st, v, mem, p):
            b, b0 = w.get_block(r, mem, p), w.get_block(r, w.mem, p)
            if unknown(b) or v is None: return [None]
            if ix is not None: return (['an existing block is not returned'] if v != at(w, p) else []) + (['the block is changed although it has such a block already'] if b != b0 else [])
            out = []
            if b[:5] != b0[:5] or b[5][:-1] != b0[5]: return ['other parts of the block are changed']
            q, c = b[5][-1]
            if v != q: out.append('the block returned is not the one added')
            if c[:2] != (ty, nm) or c[2] not in ('sec',) or c[4] or c[5]: out.append('the block added is not the one asked for')
            if c[3] != p: out.append('the parent of the block added is another block')
            return out
        o.each('AddSubBlock.%d' % k, r'^ConfigBlock::AddSubBlock\(unsigned', lambda w: (lambda p: (p, [('i', ty), w.string(nm), w.string('sec')], p))(w.block(TREE)), added)
        def given(w):
            p = w.block(TREE); q = w.block(Blk(ty, nm, 'given', [('k', ['1'], False)])); return p, [q], (p, q)
        def addgiven(w, r, st, v, mem, x):
            p, q = x; b, b0 = w.get_block(r, mem, p), w.get_block(r, w.mem, p)
            if unknown(b) or v is None: return [None]
            if ix is not None: return (['an existing block is not returned'] if v != at(w, p) else []) + (['the block is changed although it has such a block already'] if b != b0 else [])
            if b[:5] != b0[:5] or [x for x, _ in b[5]] != [x for x, _ in b0[5]] + [q]: return ['the block is not added after the others']
            return [] if v == q else ['the block returned is not the one added']
        o.each('AddSubBlock.given.%d' % k, r'^ConfigBlock::AddSubBlock\(ConfigBlock', given, addgiven)
        o.each('HasTypeAndName.%d' % k, r'^ConfigBlock::HasTypeAndName\(', lambda w: (w.block(TREE.subs[1]), [('i', ty), w.string(nm)], None), lambda w, r, st, v, mem, p: boolean(v, (ty, nm) == (2, 'x')))
        o.each('equal.%d' % k, r'^ConfigBlock::operator==\(', lambda w: (w.block(TREE.subs[1]), [w.block(Blk(ty, nm, 'z', [('r', ['2'], False)]))], None), lambda w, r, st, v, mem, p: boolean(v, (ty, nm) == (2, 'x')))
    for ty in (0, 1, 2, 3, 7):
        ixs = [k for k, b in enumerate(TREE.subs) if b.type == ty]
        def build(w): p = w.block(TREE); return p, [('i', ty)], p
        def blocks(w, r, st, v, mem, p):
            c = mem.get(('vec', ('t', 'ret')))
            if c is None: return [None]
            all_ = w.mem[('vec', w.at(p, w.fb['subblocks']))][1]
            return [] if list(c[1]) == [all_[k] for k in ixs] else ['the blocks are not those of the type asked for']
        o.each('GetAllSubBlocksOfType.%d' % ty, r'^ConfigBlock::GetAllSubBlocksOfType\(', build, blocks)
        o.each('HasSubBlocks.%d' % ty, r'^ConfigBlock::HasSubBlocks\(unsigned', build, lambda w, r, st, v, mem, p: boolean(v, bool(ixs)))
        o.each('HasType.%d' % ty, r'^ConfigBlock::HasType\(', lambda w: (w.block(TREE.subs[0]), [('i', ty)], None), lambda w, r, st, v, mem, p: boolean(v, ty == 1))
    for k, subs in enumerate([[], [Blk(0, 'q')]]):
        o.each('HasSubBlocks.any.%d' % k, r'^ConfigBlock::HasSubBlocks\(\)', lambda w: (w.block(Blk(1, 'b', '', [], subs)), [], None), lambda w, r, st, v, mem, p: boolean(v, bool(subs)))
    for fld, rx in (('settings', 'GetAllSettings'), ('subblocks', 'GetAllSubBlocks')):
        def lst(w, r, st, v, mem, p):
            c = mem.get(('vec', ('t', 'ret')))
            return [None] if c is None else [] if c[1] == w.mem[('vec', w.at(p, w.fb[fld]))][1] else ['the list is not that of the block']
        o.each(rx, r'^ConfigBlock::%s\(' % rx, lambda w: (lambda p: (p, [], p))(w.block(TREE)), lst)
    # marks
    for k in range(8):
        ss = [(n, ['1'], bool(k >> j & 1)) for j, n in enumerate('abc')]
        def build(w): p = w.block(Blk(1, 'b', '', ss)); return p, [], p
        def untouched(w, r, st, v, mem, p):
            c = mem.get(('vec', ('t', 'ret'))); q = w.mem[('vec', w.at(p, w.fb['settings']))][1]
            return [None] if c is None else [] if list(c[1]) == [q[j] for j in range(3) if not k >> j & 1] else ['the settings reported as unread are not the unread ones']
        o.each('GetUntouchedSettings.%d' % k, r'^ConfigBlock::GetUntouchedSettings\(', build, untouched)
        o.each('HasUntouchedSettings.%d' % k, r'^ConfigBlock::HasUntouchedSettings\(', build, lambda w, r, st, v, mem, p: boolean(v, k != 7))
    # addition of a setting
    for k, (nm, vals) in enumerate([('a', ['9', '8']), ('b', ['7']), ('ab', []), ('c', ['5']), ('', ['4'])]):
        has = [s[0] for s in SETS].index(nm) if nm in [s[0] for s in SETS] else None
        def build(w): p = w.block(TREE); q = w.setting(nm, vals); return p, [q], (p, q)
        def added(w, r, st, v, mem, x):
            p, q = x; b, b0 = w.get_block(r, mem, p), w.get_block(r, w.mem, p)
            if v is None or unknown(b): return [None]
            out = []
            old = [y for y, _ in b0[4]]
            if [y for y, _ in b[4]] != (old if has is not None else old + [q]): return ['the settings of the block are not the previous ones%s' % ('' if has is not None else ' and the new one')]
            want = [c[:2] for _, c in b0[4]]
            if has is None: want.append((nm, tuple(vals)))
            else: want[has] = (nm, tuple(vals))
            if [c[:2] for _, c in b[4]] != want: out.append('the values are not those given last')
            if v != (old[has] if has is not None else q): out.append('the setting returned is not the one of the block')
            if {c[0] for _, c in b[4] if c[2]} != T0: out.append('a setting is marked as read although it was only set')
            fr = {e[1] for e in st[1] if e[0] == 'free'}
            if fr & {y for y, _ in b[4]}: out.append('a setting in use is released')
            return out
        o.each('AddSetting.%d' % k, r'^ConfigBlock::AddSetting\(Setting', build, added)
        o.each('MergeSetting.%d' % k, r'^ConfigBlock::MergeSetting\(', build, lambda w, r, st, v, mem, x: merged_setting(w, r, mem, x, nm, vals, has))
    # merging
    for name, t, s in MERGES:
        for new in (0, -1):
            def build(w): p, q = w.block(t), w.block(s); return p, [q, ('i', new)], (p, q)
            def merged(w, r, st, v, mem, x):
                b, b0, s0 = w.get_block(r, mem, x[0]), plain(w.get_block(r, w.mem, x[0])), plain(w.get_block(r, w.mem, x[1]))
                if unknown(b) or v is None: return [None]
                want, un = model_merge(b0, s0, bool(new)); out = []
                if strip(plain(b)) != strip(want): out.append('the merged block does not hold the values of the documented merge')
                if v == ('i', 0): names = []
                else:
                    c = mem.get(('vec', v)); names = list(c[1]) if c is not None and c[0] == 'vs' else None
                if names is None: return out + [None]
                if sorted(names) != sorted(un): out.append('the settings reported as unknown are %s instead of %s' % (sorted(names), sorted(un)))
                if v != ('i', 0) and not names: out.append('an empty list is returned instead of none')
                if {e[1] for e in st[1] if e[0] == 'free'} & {v}: out.append('the list returned is released')
                return out
            o.each('Merge.%s.%s' % (name, 'new' if new else 'old'), r'^ConfigBlock::Merge(\[abi:cxx11\])?\(', build, merged)
    # values of a setting
    for k, (vals, other) in enumerate([(['1'], ['2', '3']), ([], ['x']), (['1', '2', '3'], ['9']), (['a'], [])]):
        def build(w): p, q = w.setting('n', vals), w.setting('other', other); return p, [q], (p, q)
        def over(w, r, st, v, mem, x):
            a, b = w.get_setting(r, mem, x[0]), w.get_setting(r, mem, x[1])
            if None in a or None in b: return [None]
            out = []
            if a[1] != tuple(other): out.append('the values are not those of the setting given')
            if a[0] != 'n': out.append('the name is changed')
            if b != w.get_setting(r, w.mem, x[1]): out.append('the setting given is changed')
            return out
        o.each('OverwriteValues.%d' % k, r'^SettingScript::OverwriteValues\(', build, over)
        o.each('AppendValue.%d' % k, r'^SettingScript::AppendValue', lambda w: (lambda p: (p, [w.string('new')], p))(w.setting('n', vals)), lambda w, r, st, v, mem, p: [None] if None in w.get_setting(r, mem, p) else [] if w.get_setting(r, mem, p)[:2] == ('n', tuple(vals) + ('new',)) else ['the value is not appended'])
        o.each('GetNumberOfValues.%d' % k, r'^SettingScript::GetNumberOfValues', lambda w: (w.setting('n', vals), [], None), lambda w, r, st, v, mem, p: [None] if v is None else [] if v == ('i', len(vals)) else ['the number of values is wrong'])
        for j in range(4):
            o.each('GetString.%d.%d' % (k, j), r'^SettingScript::GetString', lambda w: (w.setting('n', vals), [('i', j)], None), lambda w, r, st, v, mem, p: [None] if r.text(mem, ('t', 'ret')) is None else [] if r.text(mem, ('t', 'ret')) == vals[j] else ['another value is returned'], raises=None if j < len(vals) else 'there is no such value')
    # block types
    for k, types in enumerate([['/root'], ['/root', 'p', 'q'], ['/root', 'q', 'p', 'pq']]):
        for j, nm in enumerate(['p', 'q', '/root', 'P', 'pq', '']):
            def build(w):
                p = w.new('conf'); w.mem[('vec', w.at(p, w.fc['blocktypes']))] = ('vs', tuple(types)); return p, [w.string(nm)], p
            def now(w, mem, p):
                c = mem.get(('vec', w.at(p, w.fc['blocktypes']))); return c[1] if c is not None and c[0] == 'vs' else None
            def reg(w, r, st, v, mem, p):
                c = now(w, mem, p)
                if v is None or c is None: return [None]
                return ([] if c == tuple(types) + (nm,) else ['the type is not registered']) + ([] if v == ('i', len(types)) else ['the identifier is not the position of the type'])
            o.each('IsBlockType.%d.%d' % (k, j), r'^Configuration::IsBlockType', build, lambda w, r, st, v, mem, p: boolean(v, nm in types))
            o.each('RegisterBlockType.%d.%d' % (k, j), r'^Configuration::RegisterBlockType', build, reg, raises='the type is registered already' if nm in types else None)
            if nm in types: o.each('StringToBlockType.%d.%d' % (k, j), r'^Configuration::StringToBlockType', build, lambda w, r, st, v, mem, p: [None] if v is None else [] if v == ('i', types.index(nm)) else ['the identifier is not the registered one'])
    ctx.need('operations', o.n, 10)


def merged_setting(w, r, mem, x, nm, vals, has):
    b, b0 = w.get_block(r, mem, x[0]), w.get_block(r, w.mem, x[0])
    if unknown(b): return [None]
    want = [(q, (c[0], tuple(vals), c[2]) if j == has else c) for j, (q, c) in enumerate(b0[4])]
    return [] if b[4] == want and b[:4] == b0[:4] and b[5] == b0[5] else ['the settings are not the previous ones with the values given']


def _B(t, n, ss=(), subs=()): return Blk(t, n, 'of ' + n, [(x, v, False) for x, v in ss], subs)


MERGES = [('same', _B(0, 'r', [('a', ['1']), ('b', ['2'])]), _B(5, 'm', [('b', ['9', '8']), ('a', [])])),
          ('some', _B(0, 'r', [('a', ['1']), ('b', ['2'])]), _B(0, 'r', [('n', ['5']), ('a', ['3']), ('k', ['6'])])),
          ('none', _B(0, 'r', [('a', ['1'])]), _B(0, 'r')),
          ('blocks', _B(0, 'r', [('a', ['1'])], [_B(1, 'x', [('p', ['1'])]), _B(2, 'x', [('p', ['2'])])]), _B(0, 'r', [('z', ['0'])], [_B(2, 'x', [('p', ['3']), ('q', ['4'])], [_B(1, 'deep', [('w', ['1'])])]), _B(1, 'y', [('v', ['5'])]), _B(1, 'x', [('p', ['6']), ('t', ['7'])])])),
          ('known', _B(0, 'r', [], [_B(1, 'x', [('p', ['1'])], [_B(1, 'x', [('p', ['2'])])])]), _B(0, 'r', [], [_B(1, 'x', [], [_B(1, 'x', [('p', ['9'])])])])),
          ('first', _B(0, 'r', [], [_B(1, 'x')]), _B(0, 'r', [], [_B(1, 'x', [('u', ['1'])]), _B(1, 'n'), _B(2, 'x', [('p', ['1'])])])),
          ('deepnew', _B(0, 'r', [], [_B(1, 'x', [('p', ['1'])], [_B(2, 'k', [('c', ['1'])])])]), _B(0, 'r', [], [_B(1, 'x', [], [_B(2, 'k', [('d', ['3'])]), _B(2, 'l', [('e', ['4'])], [_B(1, 'm')])])]))]
