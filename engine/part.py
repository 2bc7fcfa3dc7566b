"""Abstract interpretation of a part of a view: from a block, with everything the block does not itself compute left symbolic,
up to a set of blocks where it stops.  Used for one iteration of a loop (entry = header, stop = header) and for the code after one.

Header phis are ('hv', id) unless given; memory starts empty, so a cell reads as its value on entry ('ld', address)."""
import copy
from absint import AbsInt, Mem


class Exit:
    __slots__ = ('frm', 'to', 'part')

    def __init__(self, frm, to, part): self.frm, self.to, self.part = frm, to, part

    @property
    def mem(self):
        p = self.part
        t = p.fn.blocks[self.frm].insts[-1]
        m = p.mem_at(t)
        p.step(t, m)
        return m

    def cell(self, addr, ty='double'): return self.part.load(self.mem, addr, ty)

    def phi(self, inst):
        """value an outside phi receives along this edge"""
        for v, pb in zip(inst.ops, inst.d['pb']):
            if pb == self.frm: return self.part.opv(v)
        return frozenset()


class Part(AbsInt):
    def __init__(self, fn, entry, stop, outer=None, blocks=None, phis=None, env=None, **kw):
        self.orig = fn
        stop = set(stop)
        keep = {entry}; st = [entry]
        while st:
            b = st.pop()
            for s in fn.blocks[b].succs:
                if s in stop or s in keep or (blocks is not None and s not in blocks): continue
                keep.add(s); st.append(s)
        f = copy.copy(fn)
        f.__dict__.pop('_loops', None); f.__dict__.pop('_heads', None)
        f.blocks = {}
        for b in keep:
            B = fn.blocks[b]; n = copy.copy(B)
            n.succs = [s for s in B.succs if s in keep and s != entry]
            f.blocks[b] = n
        f.entry = entry
        self.keep = keep; self.exits = {}
        self.given = phis or {}
        self.outer_env = dict(outer.env) if outer is not None else {}
        self.outer_env.update(env or {})
        super().__init__(f, **kw)

    def run(self):
        own = {i.id for b in self.keep for i in self.fn.blocks[b].insts}
        for k, v in self.outer_env.items():
            if k not in own: self.env[k] = v
        super().run()

    def step(self, inst, mem, pred=None):
        if inst.op == 'phi' and inst.blk.id == self.fn.entry:
            v = self.given.get(inst.id, ('hv', inst.id))
            return v if isinstance(v, frozenset) else frozenset([self.H(v)])
        return super().step(inst, mem, pred)

    def succs(self, B):
        out = []
        for s in super().succs(B):
            if s in self.keep and s != self.fn.entry: out.append(s)
            else: self.exits[(B.id, s)] = Exit(B.id, s, self)
        return out

    def out(self, to=None):
        return [e for k, e in sorted(self.exits.items()) if to is None or k[1] == to]
