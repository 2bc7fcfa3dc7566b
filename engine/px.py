"""Path-product dataflow: explores the product of a view's control-flow graph with a finite client automaton.

A state is (block, values of live SSA names that the client or the constant folder knows, memory cells known, client state).
Unknown values are simply absent.  Branches whose condition is unknown are followed both ways; branches on values of finite
domain are resolved by splitting the client state when the comparison is made, so that correlated tests stay correlated.
Exceptions are followed exactly by type.  Nothing is executed: strings, containers and numbers outside the finite domain are
opaque.

Client interface (all optional)
  init(px) -> client state (hashable)
  call(px, st, inst, dem, args)  -> None (opaque) | list of (value|None, client state, exception type|None [, memory updates])
  load(px, st, inst, addr)       -> None | list of (value, client state)
  store(px, st, inst, addr, val) -> None | list of client states   (addr handled by the client)
  split(px, st, inst, pred, a, b)-> None | list of (bool, client state)     comparison of client values
  binop(px, st, inst, a, b)      -> value|None
  clobbers(px, st, inst, dem, args) -> iterable of cells to forget; default: every cell reachable by pointer args
  enter(px, st, frm, to, env, mem) -> None | 'stop' | (client state, env, mem, weight)      on every edge
  phis(px, st, block, values, pred) -> client state; may change the values given to the phis
  ret(px, st, inst, val), escape(px, st, inst, T)
Values: ('i', n) constants, ('a', id) alloca, ('arg', n), ('p', base, off) pointers, ('b', 0/1) via ('i', ..), client tuples."""
import collections


class Limit(Exception): pass


class PX:
    def __init__(self, fn, client, cap=200000):
        self.fn = fn; self.mod = fn.mod; self.cl = client; self.cap = cap
        self.live = liveness(fn)
        self.const = {}
        for I in fn.insts.values():
            if I.op == 'alloca': self.const[I.id] = self.slot(I)
        for b in fn.rpo():
            for I in fn.blocks[b].insts:
                if I.op == 'getelementptr' and I.d.get('off') is not None and not I.d.get('var') and not isinstance(I.ops[0], int) or \
                        I.op == 'getelementptr' and I.d.get('off') is not None and not I.d.get('var') and I.ops[0] in self.const:
                    v = self.addr(self.val({}, I.ops[0]), I.d['off'])
                    if v is not None: self.const[I.id] = v
        self.seen = {}; self.edges = collections.defaultdict(dict)
        self.n = 0
        self.run()

    fork_select = True
    frame = None             # nested interpretation: level of the call

    def slot(self, I): return ('a', I.id) if self.frame is None else ('a', (self.frame, I.id))

    # -- values
    def val(self, env, o):
        if isinstance(o, int):
            v = env.get(o)
            return v if v is not None else self.const.get(o)
        k = o['k']
        if k == 'i': return ('i', o['v'])
        if k in ('n', 'z'): return ('i', 0)
        if k == 'a': return ('arg', o['v'])
        if k == 'g': return ('p', ('g', o['v']), o.get('o', 0)) if o.get('o') else ('g', o['v'])
        return None

    def addr(self, v, off):
        if v is None: return None
        if v[0] == 'p': return ('p', v[1], v[2] + off) if v[2] + off else v[1]
        if off == 0: return v
        return ('p', v, off)

    def run(self):
        e = self.fn.entry
        st = self.cl.init(self)
        root = (e, None, frozenset(), frozenset(getattr(self.cl, 'mem0', {}).items()), st, None)
        wl = [root]; self.seen[root] = None
        while wl:
            s = wl.pop()
            for t, w in self.block(s):
                if t not in self.seen:
                    self.seen[t] = s; wl.append(t)
                    if len(self.seen) > self.cap: raise Limit()
                if w < self.edges[s].get(t, 1 << 30): self.edges[s][t] = w

    def trace(self, s):
        out = []
        while s is not None: out.append(s[0]); s = self.seen[s]
        return out[::-1]

    def block(self, s):
        b, pred, env, mem, st, exc = s
        B = self.fn.blocks[b]
        self.cur = s
        work = [(0, dict(env), dict(mem), st, exc)]
        out = []
        # phis first, simultaneously
        env0 = work[0][1]; upd = {}
        for I in B.insts:
            if I.op != 'phi': break
            for v, p in zip(I.ops, I.d['pb']):
                if p == pred: upd[I.id] = self.val(env0, v)
        f = getattr(self.cl, 'phis', None)
        if f:
            st = f(self, st, B, upd, pred)
            work[0] = (0, env0, work[0][2], st, exc)
        for k, v in upd.items():
            if v is None: env0.pop(k, None)
            else: env0[k] = v
        while work:
            i, env, mem, st, exc = work.pop()
            if i == len(B.insts): continue
            I = B.insts[i]; op = I.op
            if op == 'phi': work.append((i + 1, env, mem, st, exc)); continue
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke', 'call', 'icmp', 'load', 'store'):
                for r in getattr(self, 'do_' + op)(I, env, mem, st, exc):
                    if r[0] == 'go': self.edge(b, r[1], r[2], r[3], r[4], r[5], out)
                    else: work.append((i + 1,) + r[1:])
                continue
            if op == 'select' and self.fork_select and isinstance(I.ops[0], int):
                c, x, y = [self.val(env, o) for o in I.ops]
                if c is None and x is not None and y is not None and x[0] == y[0] == 'i' and x != y:
                    # keep what follows correlated with the choice made here
                    for n, r in ((-1, x), (0, y)):
                        e = dict(env); e[I.ops[0]] = ('i', n); e[I.id] = r; work.append((i + 1, e, mem, st, exc))
                    continue
            v = self.pure(I, env, st, exc)
            if v is not None: env = dict(env); env[I.id] = v
            elif I.id in env: env = dict(env); del env[I.id]
            work.append((i + 1, env, mem, st, exc))
        return out

    def edge(self, b, to, env, mem, st, exc, out):
        lv = self.live[to]
        ph = {o for I in self.fn.blocks[to].insts if I.op == 'phi' for o, p in zip(I.ops, I.d['pb']) if p == b and isinstance(o, int)}
        env = {k: v for k, v in env.items() if (k in lv or k in ph) and k not in self.const}
        st2, env2 = st, env
        f = getattr(self.cl, 'enter', None); w = 0
        if f:
            r = f(self, st, b, to, env, mem)
            if r == 'stop': return
            if r is not None: st2, env2, mem, w = r
        out.append(((to, b if ph or any(I.op == 'phi' for I in self.fn.blocks[to].insts[:1]) else None, frozenset(env2.items()), frozenset(mem.items()), st2, exc), w))

    # -- instructions
    def pure(self, I, env, st, exc):
        op = I.op; v = [self.val(env, o) for o in I.ops]
        if op == 'alloca': return self.slot(I)
        if op == 'getelementptr':
            off = I.d.get('off')
            if off is None: return None
            if I.d.get('var'): return self.cl.gepvar(self, st, I, v) if hasattr(self.cl, 'gepvar') else None
            return self.addr(v[0], off or 0) if v else None
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'zext', 'sext', 'trunc'):
            a = v[0]
            if a is None: return None
            if a[0] == 'i':
                n = a[1]
                if op == 'zext':
                    fw = int(I.d.get('fty', 'i64')[1:] or 64); n &= (1 << fw) - 1
                if op == 'trunc':
                    w = int(I.ty[1:]); n &= (1 << w) - 1
                    if w == 1: n = -1 if n else 0
                    elif n >= 1 << (w - 1): n -= 1 << w
                if op == 'sext' and I.d.get('fty') == 'i1': n = -1 if n else 0
                return ('i', n)
            f = getattr(self.cl, 'cast', None)
            return f(self, st, I, a) if f else a
        if op == 'select':
            if v[0] is not None and v[0][0] == 'i': return v[1] if v[0][1] else v[2]
            return v[1] if v[1] == v[2] else None
        if op in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl'):
            a, c = v
            if a and c and a[0] == 'i' and c[0] == 'i':
                x, y = a[1], c[1]
                n = {'add': x + y, 'sub': x - y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'mul': x * y, 'shl': x << (y & 63)}[op]
                if I.ty == 'i1': n = -1 if n & 1 else 0
                return ('i', n)
            if op == 'and' and (a == ('i', 0) or c == ('i', 0)): return ('i', 0)
            f = getattr(self.cl, 'binop', None)
            return f(self, st, I, a, c) if f else None
        if op == 'landingpad':
            return ('lp', exc, self.selector(I, exc))
        if op == 'extractvalue':
            a = v[0]
            if a and a[0] == 'lp':
                return ('exc', a[1]) if I.d['ix'] == [0] else ('tid', a[2])
            return None
        if op == 'insertvalue':
            # rebuilding the exception pair
            for x in v:
                if x and x[0] == 'exc': return ('lp', x[1], None)
                if x and x[0] == 'lp': return x
            return None
        return None

    def tiname(self, o):
        if isinstance(o, int): return '?'
        if o['k'] in ('n', 'z'): return '...'
        if o['k'] == 'g': return self.mod.dem_g(o['v']).replace('typeinfo for ', '')
        return '?'

    def isa(self, T, base):
        if T == base or base == '...': return True
        if base in self.mod.allbases(T): return True
        if base == 'std::exception': return T.startswith('std::') or 'std::exception' in self.mod.allbases(T)
        if base == 'std::logic_error': return T in ('std::out_of_range', 'std::invalid_argument', 'std::length_error', 'std::domain_error')
        return False

    def selector(self, lp, T):
        if T is None: return None
        for c in lp.d.get('clauses') or ():
            n = self.tiname(c)
            if n != '?' and self.isa(T, n): return n
        return None

    def do_br(self, I, env, mem, st, exc):
        s = I.d['s']
        if not I.ops: yield 'go', s[0], env, mem, st, exc; return
        c = self.val(env, I.ops[0])
        if c is not None and c[0] == 'i': yield 'go', s[0] if c[1] else s[1], env, mem, st, exc; return
        for t in dict.fromkeys(s):
            e = env
            if isinstance(I.ops[0], int) and len(set(s)) == 2:
                e = dict(env); e[I.ops[0]] = ('i', -1 if t == s[0] else 0)
            yield 'go', t, e, mem, st, exc

    def do_switch(self, I, env, mem, st, exc):
        c = self.val(env, I.ops[0])
        if c is not None and c[0] == 'i':
            for v, b in I.d['cases']:
                if v == c[1]: yield 'go', b, env, mem, st, exc; return
            yield 'go', I.d['def'], env, mem, st, exc; return
        if c is not None:
            rest = [st]
            ok = True
            for v, b in I.d['cases']:
                nr = []
                for q in rest:
                    r = self.cl.split(self, q, I, 'eq', c, ('i', v)) if hasattr(self.cl, 'split') else None
                    if r is None: ok = False; break
                    for t, q2 in r:
                        if t: yield 'go', b, env, mem, q2, exc
                        else: nr.append(q2)
                if not ok: break
                rest = nr
            if ok:
                for q in rest: yield 'go', I.d['def'], env, mem, q, exc
                return
        for b in dict.fromkeys([x[1] for x in I.d['cases']] + [I.d['def']]): yield 'go', b, env, mem, st, exc

    def do_icmp(self, I, env, mem, st, exc):
        a, b = [self.val(env, o) for o in I.ops]; p = I.d['p']
        def put(v, q):
            e = dict(env)
            if v is None: e.pop(I.id, None)
            else: e[I.id] = ('i', -1 if v else 0)
            return ('on', e, mem, q, exc)
        if a is not None and b is not None:
            if a[0] == 'i' and b[0] == 'i': yield put(icmp(p, a[1], b[1]), st); return
            if a[0] == 'tid' and b[0] == 'tid' and p in ('eq', 'ne'):
                r = a[1] is not None and a[1] == b[1]
                yield put(r == (p == 'eq'), st); return
            if a[0] == 'tid' and b[0] == 'i' and p in ('eq', 'ne'): yield put(None, st); return
            if a[0] in ('a', 'g') and b[0] == 'i' and p in ('eq', 'ne'): yield put(p == 'ne', st); return
            if a == b and a[0] in ('a', 'arg', 'g', 'p') and p in ('eq', 'ne'): yield put(p == 'eq', st); return
            r = self.cl.split(self, st, I, p, a, b) if hasattr(self.cl, 'split') else None
            if r is not None:
                for t, q in r: yield put(t, q)
                return
        yield put(None, st)

    def do_load(self, I, env, mem, st, exc):
        a = self.val(env, I.ops[0])
        if a is not None:
            f = getattr(self.cl, 'load', None)
            r = f(self, st, I, a) if f else None
            if r is not None:
                for v, q in r:
                    e = dict(env)
                    if v is None: e.pop(I.id, None)
                    else: e[I.id] = v
                    yield 'on', e, mem, q, exc
                return
            if a in mem:
                e = dict(env); e[I.id] = mem[a]; yield 'on', e, mem, st, exc; return
            if a in getattr(self.cl, 'boolcells', ()):
                for n in (0, 1):
                    e = dict(env); e[I.id] = ('i', n); m2 = dict(mem); m2[a] = ('i', n)
                    yield 'on', e, m2, st, exc
                return
        e = env
        if I.id in env: e = dict(env); del e[I.id]
        yield 'on', e, mem, st, exc

    def do_store(self, I, env, mem, st, exc):
        v, a = self.val(env, I.ops[0]), self.val(env, I.ops[1])
        if a is not None:
            f = getattr(self.cl, 'store', None)
            r = f(self, st, I, a, v) if f else None
            if r is not None:
                for q in r: yield 'on', env, mem, q, exc
                return
            m2 = dict(mem)
            # counters kept in objects are not tracked, flags are
            if v is None or root(a)[0] == 'arg' and a not in getattr(self.cl, 'boolcells', ()): m2.pop(a, None)
            else: m2[a] = v
            yield 'on', env, m2, st, exc; return
        yield 'on', env, mem, st, exc

    def do_ret(self, I, env, mem, st, exc):
        f = getattr(self.cl, 'ret', None)
        if f: f(self, st, I, self.val(env, I.ops[0]) if I.ops else None, mem)
        return ()

    def do_unreachable(self, I, env, mem, st, exc): return ()

    def do_resume(self, I, env, mem, st, exc):
        f = getattr(self.cl, 'escape', None)
        if f: f(self, st, I, exc)
        return ()

    def results(self, I, env, mem, st, exc):
        c = I.callee
        args = [self.val(env, o) for o in I.ops]
        if c == '__cxa_throw': return [(None, st, self.tiname(I.ops[1]), mem)]
        if c == '__cxa_rethrow':
            return [(None, st, exc or '?', mem)]
        if c and c.startswith('llvm.eh.typeid.for'): return [(('tid', self.tiname(I.ops[0])), st, None, mem)]
        if c and c.startswith('llvm.lifetime'):
            r = {root(a) for a in args if a is not None}
            if any(root(k) in r for k in mem): mem = {k: v for k, v in mem.items() if root(k) not in r}
            return [(None, st, None, mem)]
        if c and c.startswith(('llvm.dbg', 'llvm.assume')): return [(None, st, None, mem)]
        dem = self.mod.dem(c) if c else ''
        self.curmem = mem; self.curenv = env
        r = self.cl.call(self, st, I, dem, args) if hasattr(self.cl, 'call') else None
        if r is not None:
            out = []
            for x in r:
                m2 = mem
                if len(x) > 3 and x[3]:
                    m2 = dict(mem)
                    for k, v in x[3].items():
                        if v is None: m2.pop(k, None)
                        else: m2[k] = v
                out.append((x[0], x[1], x[2], m2))
            return out
        if I.d.get('nr') or (c and self.mod.decls.get(c, {}).get('nr')): return []
        m2 = mem
        f = getattr(self.cl, 'clobbers', None)
        bases = {root(a) for a in args if a is not None} if f is None else set(f(self, st, I, dem, args))
        if bases and any(root(k) in bases for k in mem):
            m2 = {k: v for k, v in mem.items() if root(k) not in bases}
        return [(None, st, None, m2)]

    def do_call(self, I, env, mem, st, exc):
        for v, q, T, m2 in self.results(I, env, mem, st, exc):
            if T is not None:
                f = getattr(self.cl, 'escape', None)
                if f: f(self, q, I, T)
                continue
            e = dict(env)
            if v is None: e.pop(I.id, None)
            else: e[I.id] = v
            yield 'on', e, m2, q, exc

    def do_invoke(self, I, env, mem, st, exc):
        for v, q, T, m2 in self.results(I, env, mem, st, exc):
            e = dict(env)
            if v is None: e.pop(I.id, None)
            else: e[I.id] = v
            if T is None: yield 'go', I.d['nd'], e, m2, q, exc; continue
            lp = self.fn.blocks[I.d['ud']].lp
            if lp is not None and (lp.d.get('cleanup') or self.selector(lp, T) is not None):
                yield 'go', I.d['ud'], e, m2, q, T
            else:
                f = getattr(self.cl, 'escape', None)
                if f: f(self, q, I, T)


def idle_cycle(px, progress):
    """a cycle of the state graph whose total weight is not positive; progress(block) adds weight to blocks that
    step through something finite"""
    nodes = list(px.seen); ix = {s: i for i, s in enumerate(nodes)}
    N = len(nodes) + 1
    pb = {b: progress(b) for b in px.fn.blocks}
    # strongly connected components first
    comp = scc([[ix[t] for t in px.edges.get(s, ())] for s in nodes])
    by = collections.defaultdict(list)
    for i, c in enumerate(comp): by[c].append(i)
    for c, mem in by.items():
        E = [(i, ix[t], w + (1 if pb[nodes[i][0]] else 0)) for i in mem for t, w in px.edges.get(nodes[i], {}).items() if comp[ix[t]] == c]
        if not E: continue
        n = len(mem) + 1
        dist = {i: 0 for i in mem}; pre = {}
        last = None
        for r in range(n):
            last = None
            for a, b, w in E:
                d = dist[a] + w * n - 1
                if d < dist[b]: dist[b] = d; pre[b] = a; last = b
            if last is None: break
        if last is not None:
            for _ in range(n): last = pre[last]
            cyc = [last]; x = pre[last]
            while x != last: cyc.append(x); x = pre[x]
            return [nodes[i] for i in cyc[::-1]]
    return None


def scc(adj):
    n = len(adj); idx = [None] * n; low = [0] * n; on = [False] * n; st = []; comp = [None] * n; c = [0, 0]
    for r in range(n):
        if idx[r] is not None: continue
        work = [(r, 0)]
        while work:
            v, k = work.pop()
            if k == 0:
                idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on[v] = True
            rec = False
            for j in range(k, len(adj[v])):
                u = adj[v][j]
                if idx[u] is None:
                    work.append((v, j + 1)); work.append((u, 0)); rec = True; break
                if on[u]: low[v] = min(low[v], idx[u])
            if rec: continue
            if low[v] == idx[v]:
                while True:
                    u = st.pop(); on[u] = False; comp[u] = c[1]
                    if u == v: break
                c[1] += 1
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
    return comp


def root(a):
    while a is not None and a[0] == 'p': a = a[1]
    return a


def icmp(p, x, y):
    if p[0] == 'u':
        x &= (1 << 64) - 1; y &= (1 << 64) - 1; p = p[1:]
    elif p[0] == 's': p = p[1:]
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]


def liveness(fn):
    use, de = {}, {}
    for b, B in fn.blocks.items():
        u, d = set(), set()
        for I in B.insts:
            ops = list(I.ops)
            if I.op == 'phi': d.add(I.id); continue
            if 'cv' in I.d and I.d['cv'] is not None: ops.append(I.d['cv'])
            ops += [o for o, _ in I.d.get('var') or ()]
            for o in ops:
                if isinstance(o, int) and o not in d: u.add(o)
            d.add(I.id)
        use[b], de[b] = u, d
    phiuse = {b: {} for b in fn.blocks}
    for b, B in fn.blocks.items():
        for I in B.insts:
            if I.op != 'phi': break
            for o, p in zip(I.ops, I.d['pb']):
                if isinstance(o, int): phiuse[b].setdefault(p, set()).add(o)
    live = {b: set() for b in fn.blocks}
    ch = True
    order = fn.rpo()[::-1]
    while ch:
        ch = False
        for b in order:
            o = set()
            for s in fn.blocks[b].succs:
                o |= live[s] | phiuse[s].get(b, set())
            n = use[b] | (o - de[b])
            if n != live[b]: live[b] = n; ch = True
    return live
