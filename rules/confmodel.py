"""Configuration trees on finite instances.  Settings and blocks are objects distinguished by identity; their names, types and values
are compared for equality only by the code, so a handful of equality patterns stands for all of them."""
import re
from px import Limit
from small import KEEPVEC, ALGO
from deep import Deep

KEEP = r'std::vector<|SOFTLibException::|ConfigurationException::'
ONLY = r'^(ConfigBlock|Setting|SettingScript|SettingSFile|Configuration)::'
TOUCHED = ('i', -1)


def module(ctx): return ctx.module('--ctors', '--keep', KEEP, '--inline', ALGO, '--only', ONLY)


class Blk:
    def __init__(self, type, name, sec='', settings=(), subs=()):
        self.type, self.name, self.sec, self.settings, self.subs = type, name, sec, list(settings), list(subs)


class World:
    def __init__(self, m):
        self.m = m; self.mem = {}; self.n = 0; self.names = {}
        F = lambda c, *fs: {f: m.field_off(c, f) for f in fs}
        self.fb = F('ConfigBlock', 'type', 'name', 'secondary_type', 'parent', 'subblocks', 'settings')
        self.fs = F('Setting', 'name', 'touched'); self.fs['values'] = m.field_off('SettingScript', 'values')
        self.fc = F('Configuration', 'root', 'blocktypes', 'filename', 'errorflag')
        self.ok = None not in list(self.fb.values()) + list(self.fs.values())

    def at(self, p, o): return ('p', p, o) if o else p

    def new(self, kind):
        self.n += 1
        return ('t', kind, self.n)

    def string(self, t):
        p = self.new('str'); self.mem[('vec', p)] = ('s', t)
        return p

    def setting(self, name, values, touched=False):
        p = self.new('set')
        self.mem[p] = ('p', ('g', '_ZTV13SettingScript'), 16)
        self.mem[('vec', self.at(p, self.fs['name']))] = ('s', name)
        self.mem[self.at(p, self.fs['touched'])] = ('i', 1 if touched else 0)
        self.mem[('vec', self.at(p, self.fs['values']))] = ('vs', tuple(values))
        return p

    def sfile(self, name, kind, values):
        """a setting read from a data file: kind of value and a vector of its own"""
        fs = {f: self.m.field_off('SettingSFile', f) for f in ('dtype', 'data')}
        en = {}
        for x in self.m.enums.values():
            if x['name'].startswith('SettingSFile::'): en.update(dict(x['vals']))
        if None in fs.values() or kind not in en: return None
        p, v = self.new('set'), self.new('vec')
        self.mem[p] = ('p', ('g', '_ZTV12SettingSFile'), 16)
        self.mem[('vec', self.at(p, self.fs['name']))] = ('s', name)
        self.mem[self.at(p, self.fs['touched'])] = ('i', 0)
        self.mem[self.at(p, fs['dtype'])] = ('i', en[kind]); self.mem[self.at(p, fs['data'])] = v
        self.mem[('vec', v)] = ('vs', tuple(values)) if kind == 'STRING' else ('vc', tuple(values))
        self.sf = fs
        return p

    def get_sfile(self, w, mem, p):
        """(name, kind, vector, values)"""
        t, v = w.read(mem, w.addr(p, self.sf['dtype']), 'i32'), w.read(mem, w.addr(p, self.sf['data']), 'ptr')
        c = mem.get(('vec', v)) if v is not None else None
        return w.text(mem, w.addr(p, self.fs['name'])), t, v, None if c is None else c[1]

    def block(self, b, parent=('i', 0)):
        p = self.new('blk'); at = lambda f: self.at(p, self.fb[f])
        self.mem[at('type')] = ('i', b.type)
        self.mem[('vec', at('name'))] = ('s', b.name)
        self.mem[('vec', at('secondary_type'))] = ('s', b.sec)
        self.mem[at('parent')] = parent
        self.mem[('vec', at('settings'))] = ('vc', tuple(self.setting(*s) for s in b.settings))
        self.mem[('vec', at('subblocks'))] = ('vc', tuple(self.block(s, p) for s in b.subs))
        return p

    # -- reading back
    def get_setting(self, w, mem, p):
        at = lambda f: w.addr(p, self.fs[f])
        v = mem.get(('vec', at('values'))); t = w.read(mem, at('touched'), 'i8')
        return (w.text(mem, at('name')), v[1] if v is not None and v[0] == 'vs' else None, None if t is None or t[0] != 'i' else bool(t[1]))

    def get_block(self, w, mem, p):
        """(type, name, secondary, parent, settings [(pointer, contents)], subs [(pointer, contents)])"""
        at = lambda f: w.addr(p, self.fb[f])
        t = w.read(mem, at('type'), 'i64')
        ss, bb = mem.get(('vec', at('settings'))), mem.get(('vec', at('subblocks')))
        return (None if t is None else t[1], w.text(mem, at('name')), w.text(mem, at('secondary_type')), w.read(mem, at('parent'), 'ptr'),
                None if ss is None else [(q, self.get_setting(w, mem, q) if q is not None and q[0] not in 'i?' else None) for q in ss[1]],
                None if bb is None else [(q, self.get_block(w, mem, q) if q is not None and q[0] not in 'i?' else None) for q in bb[1]])

    def run(self, f, this, *args, mem=None, ret=None):
        """follow f; None when it is not understood"""
        argv = ([ret or ('t', 'ret')] if f.this == 1 else []) + ([this] if this is not None else []) + list(args)
        try: w = Deep(self.m, f, argv, dict(self.mem if mem is None else mem))
        except Limit: return None, ['too many states']
        return w, list(w.unk) or ([] if w.out or w.excs else ['no outcome'])


def objects(b, p, out=None):
    """pointers reachable from a block read back"""
    out = out if out is not None else set()
    out.add(p)
    for q, _ in b[4] or (): out.add(q)
    for q, c in b[5] or ():
        if c is not None: objects(c, q, out)
    return out


def unknown(b):
    return None in (b[0], b[1], b[2], b[4], b[5]) or any(c is None or None in c for _, c in b[4]) or any(c is None or unknown(c) for _, c in b[5])


def plain(b, touched=True, parent=None):
    """contents without identities"""
    return (b[0], b[1], b[2] or b[1], tuple(c if touched else c[:2] for _, c in b[4]), tuple(plain(c, touched) for _, c in b[5]))
