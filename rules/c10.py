"""C10: configuration copies are independent of their originals."""
from alg import V
from c04 import fin
from c20 import uniq
from confmodel import World, Blk, module, objects, unknown, plain

TREES = [('empty', Blk(3, 'e')),
         ('settings', Blk(1, 'x', 'sec', [('a', ['1'], True), ('b', ['2', '3'], False), ('c', [], False)])),
         ('nested', Blk(0, '<root>', '', [('a', ['1'], False)], [Blk(1, 'x', 's', [('a', ['7'], True)], [Blk(2, 'y', '', [('q', ['u', 'v'], False)], [Blk(1, 'z', 't')])]), Blk(2, 'x', '', [('b', ['0'], False)])]))]
MERGES = [('same', Blk(0, 'r', '', [('a', ['1'], False), ('b', ['2'], True)]), Blk(5, 'm', '', [('a', ['9', '8'], False), ('b', [], False)])),
          ('new', Blk(0, 'r', '', [('a', ['1'], False)]), Blk(0, 'r', '', [('n', ['5'], True), ('a', ['2'], False), ('k', ['6', '7'], False)])),
          ('blocks', Blk(0, 'r', '', [('a', ['1'], False)], [Blk(1, 'x', 's', [('p', ['1'], False)]), Blk(2, 'x', '', [('p', ['2'], False)])]),
           Blk(0, 'r', '', [], [Blk(2, 'x', '', [('p', ['3'], False), ('q', ['4'], False)], [Blk(1, 'deep', '', [('w', ['z'], False)])]), Blk(1, 'y', 'u', [('v', ['5'], False)], [Blk(3, 'k', '', [('l', ['m'], False)])])]))]


def parents(b, p, probs, loc, what):
    for q, c in b[5]:
        if c[3] != p and c[3] is not None: probs.append((loc, '%s %s of the %s refers to another block as its parent' % ('sub-block', c[1], what)))
        parents(c, q, probs, loc, what)


def run(ctx):
    ctx.rule('copy, merge and destruction of configuration blocks and settings followed on small trees: what the copy reaches is disjoint from what the original reaches, its contents are equal, its sub-blocks have it as their parent, the original is unchanged, and destruction releases exactly what the block owns, once')
    m = module(ctx); n = 0
    for k, f in enumerate(m.find(r'^ConfigBlock::ConfigBlock\(ConfigBlock const\*\)', suf='')):
        for name, t in TREES:
            n += 1
            w = World(m)
            if not w.ok: ctx.undecided('copy.' + name, 'members not found', f); continue
            src = w.block(t); dst = ('t', 'copy')
            r, und = w.run(f, dst, src); probs = []
            for st, I, v, mem in r.out if r else ():
                a, b = w.get_block(r, mem, src), w.get_block(r, mem, dst)
                a0 = w.get_block(r, w.mem, src)
                if unknown(a) or unknown(b): und.append('contents not known'); continue
                check(a0, a, b, src, dst, st, f, probs, 'copy')
            if r and r.excs: probs.append((f.loc(), 'copying ends with %s' % r.excs[0][2]))
            fin(ctx, 'copy.%s' % name, 'ConfigBlock::ConfigBlock', f, uniq(probs), und[:3])
    for f in m.find(r'^ConfigBlock::Merge(\[abi:cxx11\])?\(ConfigBlock', suf=''):
        for new in (0, -1):
            for name, t, s in MERGES:
                n += 1; key = 'merge.%s.%s' % (name, 'new' if new else 'old')
                w = World(m)
                if not w.ok: ctx.undecided(key, 'members not found', f); continue
                dst, src = w.block(t), w.block(s)
                r, und = w.run(f, dst, src, ('i', new)); probs = []
                for st, I, v, mem in r.out if r else ():
                    a0, a, b = w.get_block(r, w.mem, src), w.get_block(r, mem, src), w.get_block(r, mem, dst)
                    if unknown(a) or unknown(b): und.append('contents not known'); continue
                    check(a0, a, b, src, dst, st, f, probs, 'block merged into', equal=False)
                if r and r.excs: probs.append((f.loc(), 'merging ends with %s' % r.excs[0][2]))
                fin(ctx, key, 'ConfigBlock::Merge', f, uniq(probs), und[:3])
    for f in m.find(r'^Configuration::Configuration\(Configuration const&\)', suf=''):
        for name, t in TREES:
            for err in (0, 1):
                n += 1; key = 'configuration.%s.%d' % (name, err)
                w = World(m)
                if not w.ok or None in w.fc.values(): ctx.undecided(key, 'members not found', f); continue
                src, dst, b = w.new('conf'), ('t', 'copy'), w.block(t)
                w.mem[w.at(src, w.fc['root'])] = b; w.mem[w.at(src, w.fc['errorflag'])] = ('i', err)
                w.mem[('vec', w.at(src, w.fc['filename']))] = ('s', 'file'); w.mem[('vec', w.at(src, w.fc['blocktypes']))] = ('vs', ('/root', 'p'))
                r, und = w.run(f, dst, src); probs = []; und = list(und)
                for st, I, v, mem in r.out if r else ():
                    c = r.read(mem, r.addr(dst, w.fc['root']), 'ptr'); e = r.read(mem, r.addr(dst, w.fc['errorflag']), 'i8')
                    ty = mem.get(('vec', r.addr(dst, w.fc['blocktypes'])))
                    if c is None or c[0] in 'i?' or e is None or ty is None: und.append('contents not known'); continue
                    x, y = w.get_block(r, mem, b), w.get_block(r, mem, c)
                    if unknown(x) or unknown(y): und.append('contents not known'); continue
                    check(w.get_block(r, w.mem, b), x, y, b, c, st, f, probs, 'copy')
                    if e[0] == 'i' and bool(e[1]) != bool(err): probs.append((f.loc(), 'the error flag is not copied'))
                    if ty[1] != ('/root', 'p'): probs.append((f.loc(), 'the registered block types are not copied'))
                    if r.text(mem, r.addr(dst, w.fc['filename'])) != 'file': probs.append((f.loc(), 'the name of the file is not copied'))
                if r and r.excs: probs.append((f.loc(), 'copying ends with %s' % r.excs[0][2]))
                fin(ctx, key, 'Configuration::Configuration', f, uniq(probs), und[:3])
    for f in m.find(r'^ConfigBlock::~ConfigBlock\(', suf=''):
        if f.name.endswith('D0Ev'): continue
        for name, t in TREES:
            n += 1
            w = World(m)
            if not w.ok: ctx.undecided('destroy.' + name, 'members not found', f); continue
            p = w.block(t); r, und = w.run(f, p); probs = []
            for st, I, v, mem in r.out if r else ():
                b = w.get_block(r, w.mem, p); own = objects(b, p) - {p}
                freed = [e[1] for e in st[1] if e[0] == 'free']
                if any(freed.count(x) > 1 for x in freed): probs.append((f.loc(), 'an object is released twice'))
                if own - set(freed): probs.append((f.loc(), 'a setting or sub-block of the block is not released'))
                if set(freed) - own: probs.append((f.loc(), 'an object that the block does not own is released'))
            fin(ctx, 'destroy.' + name, 'ConfigBlock::~ConfigBlock', f, uniq(probs), und[:3])
    for f in m.find(r'^SettingScript::Copy\(', suf=''):
        for name, vals in (('none', []), ('one', ['1']), ('many', ['1', 'x', '1'])):
            n += 1
            w = World(m)
            if not w.ok: ctx.undecided('setting.' + name, 'members not found', f); continue
            p = w.setting('nm', vals); r, und = w.run(f, p); probs = []
            for st, I, v, mem in r.out if r else ():
                if v is None: und.append('copy not known'); continue
                if v == p: probs.append((f.loc(), 'the copy is the original')); continue
                a, b = w.get_setting(r, mem, p), w.get_setting(r, mem, v)
                if None in b: und.append('contents not known'); continue
                if a != w.get_setting(r, w.mem, p): probs.append((f.loc(), 'copying changes the original'))
                if b[0] != a[0]: probs.append((f.loc(), 'the name is not copied'))
                if b[1] != a[1]: probs.append((f.loc(), 'the values are not copied'))
                if any(e[0] == 'free' for e in st[1]): probs.append((f.loc(), 'copying releases an object'))
            if r and r.excs: probs.append((f.loc(), 'copying ends with %s' % r.excs[0][2]))
            fin(ctx, 'setting.' + name, 'SettingScript::Copy', f, uniq(probs), und[:3])
    KINDS = (('INT32', 3), ('INT64', 4), ('UINT32', 5), ('UINT64', 6), ('REAL', 7), ('STRING', 8))
    def vals(kind, k): return tuple('text%d' % (k + j) for j in range(2)) if kind == 'STRING' else tuple(('e', V('v%d' % (k + j))) if kind == 'REAL' else ('i', k + j) for j in range(2))
    for f in m.find(r'^SettingSFile::Copy\(', suf=''):
        for kind, k in KINDS:
            w = World(m); p = w.sfile('nm', kind, vals(kind, k)) if w.ok else None
            if p is None: ctx.undecided('data.' + kind, 'members not found', f); continue
            n += 1
            r, und = w.run(f, p); probs = []; und = list(und)
            for st, I, v, mem in r.out if r else ():
                if v is None: und.append('copy not known'); continue
                if v == p: probs.append((f.loc(), 'the copy is the original')); continue
                a, b = w.get_sfile(r, mem, p), w.get_sfile(r, mem, v)
                if None in b: und.append('contents not known'); continue
                if a != w.get_sfile(r, w.mem, p): probs.append((f.loc(), 'copying changes the original'))
                if b[2] == a[2]: probs.append((f.loc(), 'the copy of a %s setting shares its values with the original' % kind))
                if b[0] != a[0]: probs.append((f.loc(), 'the name of a %s setting is not copied' % kind))
                if b[1] != a[1] or b[3] != a[3]: probs.append((f.loc(), 'the values of a %s setting are not copied' % kind))
            if r and r.excs: probs.append((f.loc(), 'copying a %s setting ends with %s' % (kind, r.excs[0][2])))
            fin(ctx, 'data.' + kind, 'SettingSFile::Copy', f, uniq(probs), und[:3])
    for f in m.find(r'^SettingSFile::OverwriteValues\(', suf=''):
        for kind, k in KINDS:
            for old in sorted({'INT32', 'STRING', kind}):
                w = World(m); p = w.sfile('nm', old, vals(old, 0)) if w.ok else None; q = w.sfile('src', kind, vals(kind, k)) if p else None
                key = 'data.%s.over.%s' % (kind, old)
                if q is None: ctx.undecided(key, 'members not found', f); continue
                n += 1
                r, und = w.run(f, p, q); probs = []; und = list(und)
                for st, I, v, mem in r.out if r else ():
                    a, b = w.get_sfile(r, mem, q), w.get_sfile(r, mem, p)
                    if None in b: und.append('contents not known'); continue
                    if a != w.get_sfile(r, w.mem, q): probs.append((f.loc(), 'the setting given is changed'))
                    if b[2] == a[2]: probs.append((f.loc(), 'the values of the two settings are shared'))
                    if b[0] != 'nm': probs.append((f.loc(), 'the name is changed'))
                    if b[1] != a[1] or b[3] != a[3]: probs.append((f.loc(), 'the values are not those of the %s setting given' % kind))
                    if a[2] in [e[1] for e in st[1] if e[0] == 'free'] or b[2] in [e[1] for e in st[1] if e[0] == 'free']: probs.append((f.loc(), 'values in use are released'))
                if r and r.excs: probs.append((f.loc(), 'ends with %s' % r.excs[0][2]))
                fin(ctx, key, 'SettingSFile::OverwriteValues', f, uniq(probs), und[:3])
    for f in m.find(r'^SettingSFile::~SettingSFile\(', suf=''):
        if not f.name.endswith('D2Ev'): continue
        for kind, k in KINDS:
            w = World(m); p = w.sfile('nm', kind, vals(kind, k)) if w.ok else None
            if p is None: ctx.undecided('data.%s.destroy' % kind, 'members not found', f); continue
            n += 1
            r, und = w.run(f, p); probs = []
            for st, I, v, mem in r.out if r else ():
                fr = [e[1] for e in st[1] if e[0] == 'free']; own = w.get_sfile(r, w.mem, p)[2]
                if fr != [own]: probs.append((f.loc(), 'the values of a %s setting are %s' % (kind, 'not released' if own not in fr else 'released more than once')))
            fin(ctx, 'data.%s.destroy' % kind, 'SettingSFile::~SettingSFile', f, uniq(probs), list(und)[:3])
    ctx.need('operations', n, 6)


def check(a0, a, b, src, dst, st, f, probs, what, equal=True):
    loc = f.loc()
    if a0 != a: probs.append((loc, 'the original is changed'))
    if objects(a, src) & objects(b, dst): probs.append((loc, 'the %s shares an object with the original' % what if equal else 'the two blocks share an object'))
    fr = {e[1] for e in st[1] if e[0] == 'free'}
    if fr & (objects(a, src) | objects(b, dst)): probs.append((loc, 'an object in use is released'))
    if equal and plain(a, False) != plain(b, False): probs.append((loc, 'the contents of the copy differ from those of the original'))
    parents(b, dst, probs, loc, what.split(' merged')[0])
