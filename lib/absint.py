"""Path-sensitive, interprocedural abstract interpreter (ESP style).

The domain is: a finite monitor (typestate) x a store of named abstract values
x branch facts about those names.  States that agree on the monitor and on the
variables are joined at control-flow joins; loop-carried variables are widened
to `phi` names; the fixpoint is computed over the CFG (no path enumeration, no
solver, nothing is executed).
"""
import time
from cfg import cfg_of, NORETURN
from program import AnalysisBroken

ZERO = ('c', 0)
ONE = ('c', 1)
MAXDEPTH = 9


def depth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v[1:]:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


def subterms(v):
    if isinstance(v, tuple) and v:
        yield v
        for x in v[1:]:
            if isinstance(x, tuple):
                yield from subterms(x)


class State:
    __slots__ = ('env', 'heap', 'ep', 'facts', 'mon')

    def __init__(self, env=None, heap=None, ep=None, facts=None, mon=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.ep = ep if ep is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.ep), dict(self.facts), self.mon)

    def key(self):
        return (self.mon, frozenset(self.env.items()), frozenset(self.heap.items()),
                frozenset(self.ep.items()), frozenset(self.facts.items()))

    # facts:  value -> ('eq', c) | ('ne', frozenset(c)) ;  c: value of kind 'c','s','fn' or other value
    def known(self, v):
        """constant value of v if known"""
        if v[0] in ('c', 's', 'fn'):
            return v
        f = self.facts.get(v)
        if f and f[0] == 'eq':
            return f[1]
        return None

    def truth(self, v):
        """True/False/None"""
        if v[0] == 'c':
            return v[1] != 0
        if v[0] in ('s', 'fn', '&', '&v', 'f'):
            if v[0] == 'f':
                return v[1] != 0
            return True
        if v[0] == 'op' and v[1] == '!':
            t = self.truth(v[2])
            return None if t is None else not t
        f = self.facts.get(v)
        if f:
            if f[0] == 'eq':
                return self.truth(f[1])
            if ZERO in f[1]:
                return True
        if v[0] == 'op' and v[1] in ('==', '<') and len(v) == 4:
            a, b = v[2], v[3]
            ka, kb = self.known(a), self.known(b)
            if v[1] == '==':
                if a == b and a[0] not in ('top',):
                    return True
                if ka is not None and kb is not None:
                    if ka[0] == kb[0]:
                        return ka == kb
                    if ZERO in (ka, kb):
                        return False
                for x, k in ((a, kb), (b, ka)):
                    if k is not None:
                        if k == ZERO and self.truth(x) is True:
                            return False
                        f = self.facts.get(x)
                        if f and f[0] == 'ne' and k in f[1]:
                            return False
                    if k == ZERO and x[0] in ('&', '&v', 's', 'fn'):
                        return False
                f = self.facts.get(a)
                if f and f[0] == 'ne' and b in f[1]:
                    return False
                f = self.facts.get(b)
                if f and f[0] == 'ne' and a in f[1]:
                    return False
                if a[0] in ('&', '&v') and b[0] in ('&', '&v') and a != b and ka is None and kb is None:
                    if a[0] == '&v' and b[0] == '&v':
                        return False
            else:
                if a == b:
                    return False
                if ka is not None and kb is not None and ka[0] == 'c' and kb[0] == 'c':
                    return ka[1] < kb[1]
        return None

    def assume(self, v, val):
        """refine in place; False when contradictory"""
        t = self.truth(v)
        if t is not None:
            if t != val:
                return False
            if v[0] == 'c':
                return True
        if v[0] == 'op' and v[1] == '!':
            return self.assume(v[2], not val)
        if v[0] == 'op' and v[1] == '==' and len(v) == 4:
            a, b = v[2], v[3]
            ka, kb = self.known(a), self.known(b)
            if kb is None and ka is not None:
                a, b, ka, kb = b, a, kb, ka
            if kb is not None and a[0] not in ('c', 's', 'fn'):
                if val:
                    self.facts[a] = ('eq', kb)
                else:
                    self._addne(a, kb)
            elif kb is None:
                # unknown on both sides: remember the comparison itself
                self.facts[v] = ('eq', ONE if val else ZERO)
                if not val:
                    self._addne(a, b)
            return True
        if v[0] in ('c', 's', 'fn', '&', '&v', 'f'):
            return True
        if val:
            if v[0] == 'op' and v[1] in ('==', '<'):
                self.facts[v] = ('eq', ONE)
            else:
                self._addne(v, ZERO)
        else:
            self.facts[v] = ('eq', ZERO)
        return True

    def _addne(self, a, k):
        f = self.facts.get(a)
        if f and f[0] == 'eq':
            return
        s = f[1] if f else frozenset()
        if len(s) < 24:
            self.facts[a] = ('ne', s | {k})


def join_facts(a, b):
    r = {}
    for v, f in a.items():
        g = b.get(v)
        if g is None:
            continue
        if f == g:
            r[v] = f
        else:
            fa = f[1] if f[0] == 'ne' else None
            ga = g[1] if g[0] == 'ne' else None
            if fa is not None and ga is not None:
                s = fa & ga
            elif fa is not None:
                s = frozenset(x for x in fa if g[1] != x and x[0] in ('c', 's') and g[1][0] == x[0] or (x == ZERO and g[1][0] in ('s', 'fn')))
            elif ga is not None:
                s = frozenset(x for x in ga if f[1] != x and x[0] in ('c', 's') and f[1][0] == x[0] or (x == ZERO and f[1][0] in ('s', 'fn')))
            else:
                s = frozenset()
                if f[1][0] in ('c', 's', 'fn') and g[1][0] in ('c', 's', 'fn') and ZERO not in (f[1], g[1]):
                    s = frozenset([ZERO])
            if s:
                r[v] = ('ne', s)
    return r


def join_state(old, new, nid):
    """join with equal mon and env"""
    st = State(dict(old.env), {}, {}, join_facts(old.facts, new.facts), old.mon)
    bad = set()
    for k, v in old.heap.items():
        if new.heap.get(k) == v:
            st.heap[k] = v
        else:
            bad.add(k[1])
    for k in new.heap:
        if k not in old.heap:
            bad.add(k[1])
    for f in set(old.ep) | set(new.ep):
        if old.ep.get(f) == new.ep.get(f):
            st.ep[f] = old.ep.get(f)
        else:
            st.ep[f] = ('j', nid)
    for f in bad:
        if isinstance(f, str) and f.startswith('%'):
            continue
        st.ep[f if isinstance(f, str) else '[]'] = ('j', nid)
    return st


class Frame:
    __slots__ = ('func', 'id', 'depth', 'stack')

    def __init__(self, func, id, depth, stack):
        self.func = func
        self.id = id
        self.depth = depth
        self.stack = stack


class Engine:
    """policy(engine, caller_func, callee_name) -> 'inline' | 'opaque' | 'pure' """

    raw = False

    def __init__(self, P, monitor=None, policy=None, maxdepth=8, cap=48, modsets=None, budget=120000):
        self.P = P
        self.mon = monitor
        self.policy = policy or (lambda e, caller, name: 'opaque')
        self.maxdepth = maxdepth
        self.cap = cap
        self.mods = modsets
        self.steps = 0
        self.budget = budget
        self.visited_funcs = set()
        self.ncalls = 0
        self.trav = None
        self.t0 = time.time()

    # ------------------------------------------------------------ expression
    def loc(self, st, fr, p):
        k = p[0]
        if k == 'var':
            return ('V', fr.id, p[1])
        if k == 'glob':
            return ('L', ('G',), p[1])
        if k == 'fld':
            return ('L', self.addr(st, fr, p[1]), p[2])
        if k == 'idx':
            b = self.val(st, fr, p[1])
            i = self.val(st, fr, p[2])
            return ('L', b, ('[]', i))
        if k == 'deref':
            v = self.val(st, fr, p[1])
            if v[0] == '&v':
                return ('V', v[1], v[2])
            if v[0] == '&':
                return ('L', v[1], v[2])
            return ('L', v, '*')
        if k == 'addr':
            return self.loc(st, fr, ('deref', p))
        return ('L', self.val(st, fr, p), '*')

    def addr(self, st, fr, p):
        k = p[0]
        if k == 'var':
            # struct-typed locals: address; temps holding pointers never appear here
            return ('&v', fr.id, p[1])
        if k == 'deref':
            return self.val(st, fr, p[1])
        l = self.loc(st, fr, p)
        if l[0] == 'V':
            return ('&v', l[1], l[2])
        return ('&', l[1], l[2])

    def read(self, st, l):
        if l[0] == 'V':
            v = st.env.get((l[1], l[2]))
            if v is None:
                return ('&v', l[1], l[2])   # arrays decay / uninitialised
            return v
        b, f = l[1], l[2]
        v = st.heap.get((b, f))
        if v is not None:
            return v
        if (b, '%zero') in st.heap and isinstance(f, str):
            return ZERO
        fk = f if isinstance(f, str) else '[]'
        e = st.ep.get(fk, 0)
        if self.mon is not None:
            r = self.mon.read_field(st, b, f)
            if r is not None:
                return r
        v = ('fld', b, f, e)
        if depth(v) > MAXDEPTH:
            return ('top', hash(v) & 0xffff)
        return v

    def val(self, st, fr, e):
        k = e[0]
        if k == 'int':
            return ('c', e[1])
        if k == 'str':
            return ('s', e[1])
        if k == 'float':
            return ('f', e[1])
        if k == 'fn':
            return ('fn', e[1])
        if k in ('var', 'glob', 'fld', 'idx', 'deref'):
            return self.read(st, self.loc(st, fr, e))
        if k == 'addr':
            return self.addr(st, fr, e[1])
        if k == 'bin':
            a = self.val(st, fr, e[2])
            b = self.val(st, fr, e[3])
            return self.binop(st, e[1], a, b)
        if k == 'un':
            a = self.val(st, fr, e[2])
            if e[1] == '!':
                t = st.truth(a)
                if t is not None and not self.raw:
                    return ZERO if t else ONE
                if a[0] == 'op' and a[1] == '!':
                    return a
                if a[0] == 'op' and a[1] in ('==', '<'):
                    return ('op', '!', a)
                return ('op', '!', a)
            if a[0] == 'c':
                if e[1] == '-':
                    return ('c', -a[1])
                if e[1] == '~':
                    return ('c', ~a[1])
            return ('op', e[1], a)
        if k == 'top':
            return ('top', e[1] if len(e) > 1 else 0)
        return ('top', k)

    def binop(self, st, op, a, b):
        ka, kb = st.known(a), st.known(b)
        if op == '!=':
            x = self.binop(st, '==', a, b)
            return self.neg(st, x)
        if op == '>':
            return self.binop(st, '<', b, a)
        if op == '>=':
            return self.neg(st, self.binop(st, '<', a, b))
        if op == '<=':
            return self.neg(st, self.binop(st, '<', b, a))
        if ka is not None and kb is not None and ka[0] == 'c' and kb[0] == 'c':
            x, y = ka[1], kb[1]
            try:
                if op == '+': return ('c', x + y)
                if op == '-': return ('c', x - y)
                if op == '*': return ('c', x * y)
                if op == '/' and y: return ('c', int(x / y))
                if op == '%' and y: return ('c', x % y)
                if op == '<<' and y < 64: return ('c', x << y)
                if op == '>>': return ('c', x >> y)
                if op == '&': return ('c', x & y)
                if op == '|': return ('c', x | y)
                if op == '^': return ('c', x ^ y)
            except Exception:
                pass
        if op in ('==', '<'):
            v = ('op', op, a, b)
            if op == '==' and repr(a) > repr(b) and a[0] != 'c':
                v = ('op', op, b, a) if b[0] != 'c' else v
            if op == '==' and a[0] == 'c':
                v = ('op', op, b, a)
            t = st.truth(v)
            if t is not None and not self.raw:
                return ONE if t else ZERO
            return v
        if op == '+' and kb == ZERO:
            return a
        if op == '+' and ka == ZERO:
            return b
        if op == '-' and kb == ZERO:
            return a
        if op in ('+', '-') and kb is not None and kb[0] == 'c' and a[0] == 'op' and len(a) == 4 and a[1] in ('+', '-') \
                and a[3][0] == 'c':
            k = (a[3][1] if a[1] == '+' else -a[3][1]) + (kb[1] if op == '+' else -kb[1])
            if k == 0:
                return a[2]
            return ('op', '+', a[2], ('c', k)) if k > 0 else ('op', '-', a[2], ('c', -k))
        v = ('op', op, a, b)
        if depth(v) > MAXDEPTH:
            return ('top', hash(v) & 0xffff)
        return v

    def neg(self, st, x):
        if x[0] == 'c':
            return ONE if x[1] == 0 else ZERO
        if x[0] == 'op' and x[1] == '!':
            return x[2]
        return ('op', '!', x)

    # ------------------------------------------------------------- mutation
    def store(self, st, l, v):
        if l[0] == 'V':
            st.env[(l[1], l[2])] = v
            return
        b, f = l[1], l[2]
        fk = f if isinstance(f, str) else '[]'
        for k in list(st.heap):
            if k[0] == b and k[1] == f:
                continue
            kk = k[1] if isinstance(k[1], str) else '[]'
            if kk == fk and self.may_alias(k[0], b, k[1], f):
                del st.heap[k]
        # facts about other objects' field f become stale: new epoch
        if not self.private(b):
            st.ep[fk] = ('w', fk) if st.ep.get(fk) is None else ('w', (hash((st.ep.get(fk), 1)) & 0xfffff))
        st.heap[(b, f)] = v

    def private(self, b):
        return b[0] in ('&v', 'G') or (b[0] == '&' and self.private(b[1]))

    def may_alias(self, a, b, fa, fb):
        if a == b:
            if isinstance(fa, tuple) and isinstance(fb, tuple) and fa[1][0] == 'c' and fb[1][0] == 'c':
                return fa[1] == fb[1]
            return True
        pa, pb = self.private(a), self.private(b)
        if pa or pb:
            return False
        if a[0] == 'call' and b[0] == 'call' and a != b and a[1] in FRESH and b[1] in FRESH:
            return False
        return True

    def havoc_fields(self, st, fields, tag):
        """fields: set of names or None for everything"""
        if fields is None:
            for k in list(st.heap):
                if k[0][0] == '&v' and not self.escaped(st, k[0]):
                    continue
                del st.heap[k]
            fs = set(st.ep)
            for f in fs:
                st.ep[f] = tag
            st.ep['*'] = tag
            return
        for k in list(st.heap):
            kk = k[1] if isinstance(k[1], str) else '[]'
            if kk in fields and not k[0][0] == '&v':
                del st.heap[k]
        for f in fields:
            self.bump(st, f, tag)

    def escaped(self, st, a):
        return False

    # ----------------------------------------------------------------- run
    def run(self, func, mon0, args=None, init=None):
        """analyse func from an unknown state; returns [(state, retval)]"""
        st = init or State(mon=mon0)
        self.root = func
        fr = Frame(func, func.name, 0, (func.name,))
        for i, p in enumerate(func.params):
            v = args[i] if args and i < len(args) and args[i] is not None else ('in', p['n'].split('#')[0])
            st.env[(fr.id, p['n'])] = v
        return self.exec(func, fr, st)

    def live(self, g):
        if hasattr(g, 'live'):
            return g.live
        use = {}
        deff = {}
        addrt = set()

        def uses(e, s):
            if not isinstance(e, tuple):
                return
            if e[0] == 'var':
                s.add(e[1])
                return
            if e[0] == 'addr':
                p = e[1]
                while p[0] in ('fld', 'idx'):
                    p = p[1]
                if p[0] == 'var':
                    addrt.add(p[1])
            for x in e[1:]:
                if isinstance(x, tuple):
                    uses(x, s)
                elif isinstance(x, list):
                    for y in x:
                        uses(y, s)
        for n in g.nodes:
            u = set()
            d = None
            if n.kind == 'asg':
                uses(n.data[1], u)
                if n.data[0][0] == 'var':
                    d = n.data[0][1]
                else:
                    uses(n.data[0], u)
            elif n.kind == 'call':
                uses(n.data[1], u)
                for a in n.data[2]:
                    uses(a, u)
                if n.data[0] is not None:
                    d = n.data[0][1]
            elif n.kind in ('br', 'ret') and n.data is not None:
                uses(n.data, u)
            use[n.id] = u
            deff[n.id] = d
        live = {n.id: set() for n in g.nodes}
        ch = True
        order = list(reversed(g.order))
        while ch:
            ch = False
            for i in order:
                n = g.nodes[i]
                out = set()
                for s in n.succ:
                    out |= live[s]
                d = deff[i]
                new = (out - {d}) | use[i] if d else out | use[i]
                if new != live[i]:
                    live[i] = new
                    ch = True
        g.live = live
        g.addrt = addrt
        return live

    def prune(self, st, fr, g, nid):
        live = g.live[nid]
        fid = fr.id
        dead = [k for k in st.env if k[0] == fid and k[1] not in live and k[1] not in g.addrt]
        for k in dead:
            del st.env[k]
        # facts about unreachable names
        roots = set()
        for v in st.env.values():
            for t in subterms(v):
                roots.add(t)
        for k, v in st.heap.items():
            for t in subterms(v):
                roots.add(t)
            for t in subterms(k[0]):
                roots.add(t)
        if self.mon is not None:
            for v in self.mon.roots(st.mon):
                for t in subterms(v):
                    roots.add(t)
        for v in list(st.facts):
            if v in roots:
                continue
            ok = True
            for t in subterms(v):
                if t in roots:
                    continue
                if t[0] in ('call', 'phi', 'undef', 'top'):
                    if t[0] == 'call' and t[2] is None:
                        continue
                    ok = False
                    break
                if t[0] == 'fld':
                    fk = t[2] if isinstance(t[2], str) else '[]'
                    if t[3] != st.ep.get(fk, 0) and v not in roots:
                        ok = False
                        break
            if not ok:
                del st.facts[v]

    def exec(self, func, fr, st0):
        self.visited_funcs.add((func.file, func.name))
        g = cfg_of(func)
        self.live(g)
        pend = {g.entry: [st0]}
        seen = {}
        exits = {}
        rpo = g.rpo
        import heapq
        heap = [(rpo[g.entry], g.entry)]
        inheap = {g.entry}
        while heap:
            _, nid = heapq.heappop(heap)
            inheap.discard(nid)
            states = pend.pop(nid, [])
            if not states:
                continue
            node = g.nodes[nid]
            joins = len(g.preds.get(nid, ())) > 1
            todo = []
            table = seen.setdefault(nid, {})
            for st in states:
                if joins:
                    self.prune(st, fr, g, nid)
                k = self.jkey(st)
                if k in table:
                    old = table[k]
                    j = join_state(old, st, nid)
                    if j.key() == old.key():
                        continue
                    table[k] = j
                    todo.append((k, j))
                else:
                    if len(table) > self.cap:
                        # merge by monitor: forget differing variables
                        cand = [kk for kk in table if kk[0] == st.mon]
                        if cand:
                            old = table[cand[0]]
                            env = {}
                            for x, v in old.env.items():
                                if st.env.get(x) == v:
                                    env[x] = v
                                else:
                                    env[x] = ('phi', nid, x[1], fr.id)
                            o2 = old.copy(); o2.env = dict(env)
                            s2 = st.copy(); s2.env = dict(env)
                            j = join_state(o2, s2, nid)
                            kk = self.jkey(j)
                            if kk in table and table[kk].key() == j.key():
                                continue
                            if kk in table:
                                j = join_state(table[kk], j, nid)
                                if j.key() == table[kk].key():
                                    continue
                            table[kk] = j
                            todo.append((kk, j))
                            continue
                    table[k] = st
                    todo.append((k, st))
            # keep only latest version per key
            last = {}
            for k, s in todo:
                last[k] = s
            for k, s in last.items():
                self.steps += 1
                if self.steps > self.budget or (self.steps & 255 == 0 and time.time() - self.t0 > 200):
                    e = AnalysisBroken('state budget exceeded in %s' % func.name)
                    e.mon = self.mon
                    e.root = self.root
                    raise e
                for (succ, ns) in self.step(g, fr, node, s):
                    if succ is None:
                        # returned
                        kk = (ns[1],) + ns[0].key()
                        exits[kk] = ns
                        continue
                    if (nid, succ) in g.back:
                        if self.mon is not None:
                            if self.mon.loop_back(self, ns, fr, succ) is False:
                                continue
                        ns = self.widen(g, fr, succ, ns, seen.get(succ, {}))
                    elif succ in g.loops and self.mon is not None:
                        ns = self.mon.enter_loop(self, ns, fr, succ) or ns
                    pend.setdefault(succ, []).append(ns)
                    if succ not in inheap:
                        heapq.heappush(heap, (rpo[succ], succ))
                        inheap.add(succ)
        return list(exits.values())

    def jkey(self, st):
        return (st.mon, frozenset(st.env.items()),
                frozenset((k, v) for k, v in st.heap.items() if self.private(k[0]) and v[0] in ('c', 's', 'fn')))

    def bump(self, st, f, tag):
        """field f (of unknown objects) gets new contents, named by epoch `tag`"""
        hit = lambda v: any(t[0] == 'fld' and t[3] == tag and (t[2] if isinstance(t[2], str) else '[]') == f for t in subterms(v))
        for v in [x for x in st.facts if hit(x)]:
            del st.facts[v]

        def ren(v):
            if not isinstance(v, tuple):
                return v
            v = tuple(ren(x) if isinstance(x, tuple) else x for x in v)
            if v and v[0] == 'fld' and len(v) == 4 and v[3] == tag and (v[2] if isinstance(v[2], str) else '[]') == f:
                return ('fld', v[1], v[2], ('o', tag))
            return v
        for k, v in list(st.env.items()):
            if hit(v):
                st.env[k] = ren(v)
        for k, v in list(st.heap.items()):
            if hit(v):
                st.heap[k] = ren(v)
        st.ep[f] = tag

    def widen(self, g, fr, head, st, table):
        st = st.copy()
        body = g.loops[head]
        fid = fr.id
        consts = {}
        for k, s in table.items():
            for v, x in s.env.items():
                consts.setdefault(v, set()).add(x)
        incr = self.incremented(g, head)
        cand = []
        for v in g.loopmods[head]:
            key = (fid, v)
            if key not in st.env or v.startswith('%t'):
                continue
            x = st.env[key]
            prev = consts.get(key, set())
            if x in prev and not self.inloop(x, head, body, fid):
                continue
            if v not in incr and x[0] in ('c', 's', 'fn', 'undef') and len([c for c in prev if c[0] in ('c', 's', 'fn', 'undef')]) <= 3:
                continue
            phi = ('phi', head, v, fid)
            cand.append((depth(x), v, key, x, phi))
        cand.sort()
        ren = {}
        subst = {}
        amb = set()
        for d, v, key, x, phi in cand:
            if x in subst and subst[x] != phi:
                amb.add(x)
            subst.setdefault(x, phi)
        final = {}
        for d, v, key, x, phi in cand:
            y = phi
            if d > 1 and v not in incr:
                z = self.substitute(x, {a: b for a, b in subst.items() if a != x and a not in amb and (a[0] != 'c' or a[1] > 0)})
                if z != x and not self.stale(z, head, body, fid, set(p for _, _, _, _, p in cand)):
                    y = z
            final[key] = (x, y, phi)
        newfacts = {}
        for f, c in st.facts.items():
            if any(t[0] == 'phi' and t[1] == head and t[3] == fid for t in subterms(f)):
                continue
            if any(t[0] == 'call' and isinstance(t[2], tuple) and t[2][0] == fid and t[2][1] in body for t in subterms(f)):
                continue
            newfacts[f] = c
        oldfacts = st.facts
        oldtruth = {key: st.truth(x) for key, (x, y, phi) in final.items()}
        for key, (x, y, phi) in final.items():
            st.env[key] = y
            c = oldfacts.get(x)
            if c is not None and x[0] != 'c':
                newfacts[y] = c
            elif oldtruth[key] is True and y == phi:
                newfacts[y] = ('ne', frozenset([ZERO]))
        st.facts = newfacts
        for k in list(st.heap):
            v = st.heap[k]
            bad = False
            for t in list(subterms(v)) + list(subterms(k[0])) + list(subterms(k[1])):
                if t[0] == 'phi' and t[1] == head and t[3] == fid:
                    bad = True
                if t[0] == 'call' and isinstance(t[2], tuple) and t[2][0] == fid and t[2][1] in body:
                    bad = True
            if bad or (k in consts and False):
                del st.heap[k]
                fk = k[1] if isinstance(k[1], str) else '[]'
                if not self.private(k[0]):
                    st.ep[fk] = ('h', head)
                else:
                    st.heap[k] = ('top', ('h', head, str(k[1])))
            elif v[0] not in ('c', 's', 'fn', 'in') or v[0] == 'c':
                pv = set(s.heap.get(k) for s in table.values())
                if v not in pv and len(pv) > 3:
                    del st.heap[k]
                    fk = k[1] if isinstance(k[1], str) else '[]'
                    if not self.private(k[0]):
                        st.ep[fk] = ('h', head)
                    else:
                        st.heap[k] = ('top', ('h', head, str(k[1])))
        for f in list(st.ep):
            pv = set(s.ep.get(f) for s in table.values())
            if st.ep[f] not in pv and len(pv) > 2:
                st.ep[f] = ('h', head)
        if self.mon is not None:
            st.mon = self.mon.widen(st.mon, [(x, y) for (x, y, p) in final.values()])
        return st

    def incremented(self, g, head):
        r = set()
        for x in g.loops[head]:
            n = g.nodes[x]
            if n.kind == 'asg' and n.data[0][0] == 'var' and n.data[1][0] == 'bin' and n.data[1][1] in ('+', '-') \
                    and n.data[1][2] == n.data[0]:
                r.add(n.data[0][1])
        return r

    def substitute(self, v, m, inside=False):
        if not isinstance(v, tuple) or not v:
            return v
        if v in m and (v[0] != 'c' or inside):
            return m[v]
        ins = v[0] in ('[]', 'op')
        return tuple(self.substitute(x, m, ins) if isinstance(x, tuple) else x for x in v)

    def stale(self, v, head, body, fid, newphis):
        for t in subterms(v):
            if t[0] == 'phi' and t[1] == head and t[3] == fid and t not in newphis:
                return True
            if t[0] == 'call' and isinstance(t[2], tuple) and t[2][0] == fid and t[2][1] in body:
                return True
        return False

    def inloop(self, x, head, body, fid):
        for t in subterms(x):
            if t[0] == 'phi' and t[1] == head:
                return True
            if t[0] == 'call' and isinstance(t[2], tuple) and t[2][0] == fid and t[2][1] in body:
                return True
        return False

    def step(self, g, fr, node, st):
        k = node.kind
        if k == 'nop':
            for s in node.succ:
                yield s, st.copy() if len(node.succ) > 1 else st.copy()
            return
        if k == 'exit':
            return
        if k == 'asg':
            st = st.copy()
            l = self.loc(st, fr, node.data[0])
            v = self.val(st, fr, node.data[1])
            if self.mon is not None:
                r = self.mon.store(self, st, fr, node, l, v)
                if r is not None:
                    st.mon = r
            self.store(st, l, v)
            for s in node.succ:
                yield s, st
            return
        if k == 'decl':
            st = st.copy()
            p = node.data[0]
            t = node.data[1]
            if t.endswith(']') or ((t.startswith('struct ') or t.startswith('union ') or t.startswith('const struct ')) and not t.endswith('*')) or t == 'va_list' or '__va_list' in t:
                st.env.pop((fr.id, p[1]), None)
            else:
                st.env[(fr.id, p[1])] = ('undef', fr.id, p[1])
            b = ('&v', fr.id, p[1])
            for kk in list(st.heap):
                if kk[0] == b:
                    del st.heap[kk]
            for s in node.succ:
                yield s, st
            return
        if k == 'zero':
            st = st.copy()
            b = self.addr(st, fr, node.data[0])
            for kk in list(st.heap):
                if kk[0] == b:
                    del st.heap[kk]
            st.heap[(b, '%zero')] = ONE
            for s in node.succ:
                yield s, st
            return
        if k == 'br':
            self.raw = True
            v = self.val(st, fr, node.data)
            self.raw = False
            t = st.truth(v)
            for val, s in ((True, node.succ[0]), (False, node.succ[1])):
                if t is not None and t != val:
                    continue
                ns = st.copy()
                if not ns.assume(v, val):
                    continue
                if self.mon is not None:
                    r = self.mon.branch(self, ns, fr, node, v, val)
                    if r == 'INFEASIBLE':
                        continue
                    if r is not None:
                        ns.mon = r
                yield s, ns
            return
        if k == 'ret':
            st = st.copy()
            v = self.val(st, fr, node.data) if node.data is not None else None
            if self.mon is not None:
                r = self.mon.ret(self, st, fr, node, v)
                if r is not None:
                    st.mon = r
            for kk in [x for x in st.env if x[0] == fr.id]:
                del st.env[kk]
            for kk in [x for x in st.heap if x[0] == ('&v', fr.id) + x[0][2:3] and x[0][0] == '&v']:
                del st.heap[kk]
            yield None, (st, v)
            return
        if k == 'call':
            yield from self.call(g, fr, node, st)
            return
        raise AssertionError(k)

    def call(self, g, fr, node, st):
        self.ncalls += 1
        tmp, callee, args, ast = node.data
        st = st.copy()
        cv = self.val(st, fr, callee)
        cv = st.known(cv) or cv
        argv = [self.val(st, fr, a) for a in args]
        name = cv[1] if cv[0] == 'fn' else None
        site = (fr.id, node.id)
        # monitor hook may take over completely
        if self.mon is not None:
            r = self.mon.call(self, st, fr, node, name, cv, argv)
            if r is not None:
                for (ns, rv) in r:
                    if rv == 'NORETURN':
                        continue
                    if tmp is not None:
                        ns.env[(fr.id, tmp[1])] = rv if rv is not None else ('call', name or '?', site, ())
                    for s in node.succ:
                        yield s, ns.copy()
                return
        if name in NORETURN:
            if self.mon is not None:
                self.mon.noreturn(self, st, fr, node, name, argv)
            return
        f = self.P.resolve(fr.func.tu, name) if name else None
        pol = self.policy(self, fr.func, name) if name else 'opaque'
        if pol == 'inline' and f is not None and fr.depth < self.maxdepth and name not in fr.stack:
            nfr = Frame(f, fr.id + '>' + name + '@%d' % node.id if len(fr.id) < 160 else fr.id[:150] + '~%x' % (hash((fr.id, name, node.id)) & 0xffffff), fr.depth + 1, fr.stack + (name,))
            ist = st
            for i, p in enumerate(f.params):
                ist.env[(nfr.id, p['n'])] = argv[i] if i < len(argv) else ('top', 'arg')
            # caller locals stay in env (other frame id)
            for (es, rv) in self.exec(f, nfr, ist):
                es = es.copy()
                for kk in [x for x in es.env if x[0].startswith(nfr.id)]:
                    del es.env[kk]
                if self.mon is not None:
                    r = self.mon.inlined_return(self, es, fr, node, name, argv, rv)
                    if r is not None:
                        es.mon = r
                if tmp is not None:
                    es.env[(fr.id, tmp[1])] = rv if rv is not None else ('top', 'void')
                for s in node.succ:
                    yield s, es
            return
        # opaque
        a = tuple(argv)
        if name is None:
            a = (cv,) + a
        if pol == 'pure':
            rv = ('call', name, None, a)
        else:
            rv = ('call', name or '?', site, a)
            # forget facts about the previous result of this very site
            self.forget_site(st, site)
            if self.mods is not None:
                m = self.mods(self, fr, name, f)
                self.havoc_fields(st, m, ('e',) + site)
            for i, x in enumerate(argv):
                if x[0] == '&v':
                    st.env[(x[1], x[2])] = ('call', (name or '?') + '%%out%d' % i, site, ())
                    for kk in list(st.heap):
                        if kk[0] == x:
                            del st.heap[kk]
                elif x[0] == '&' and self.private(x[1]):
                    st.heap.pop((x[1], x[2]), None)
                    if x[1][0] == 'G' or True:
                        st.ep[x[2] if isinstance(x[2], str) else '[]'] = ('e',) + site
        if depth(rv) > MAXDEPTH:
            rv = ('call', name or '?', site, ())
        if name in FRESH or (self.mon is not None and self.mon.nonnull_result(name)):
            st.assume(rv, True)
        if tmp is not None:
            st.env[(fr.id, tmp[1])] = rv
        if self.mon is not None:
            r = self.mon.after_call(self, st, fr, node, name, argv, rv)
            if r is not None:
                st.mon = r
        if f is not None and self.P_noreturn(name, f):
            return
        for s in node.succ:
            yield s, st

    def forget_site(self, st, site):
        hit = lambda v: any(t[0] == 'call' and t[2] == site for t in subterms(v))
        for v in [x for x in st.facts if hit(x)]:
            del st.facts[v]

        def ren(v):
            if not isinstance(v, tuple):
                return v
            v = tuple(ren(x) if isinstance(x, tuple) else x for x in v)
            if v and v[0] == 'call' and len(v) == 4 and v[2] == site:
                return ('call', v[1], ('o',) + site, v[3])
            return v
        for k, v in list(st.env.items()):
            if hit(v):
                st.env[k] = ren(v)
        for k, v in list(st.heap.items()):
            if hit(v) or hit(k[0]):
                del st.heap[k]
                st.heap[(ren(k[0]), k[1])] = ren(v)

    def P_noreturn(self, name, f):
        nr = getattr(self.P, 'noreturn', None)
        if nr is None:
            nr = self.P.noreturn = compute_noreturn(self.P)
        return f in nr


FRESH = {'MEMmalloc', 'MEMrealloc', 'STRcpy', 'STRcat', 'STRfmt', 'STRlower', 'STRupper', 'HTnew', 'HTnew_String',
         'HTnew_Ptr', 'HTnew_Int', 'HTnew_Size', 'malloc', 'calloc', 'STRcatn', 'STRncpy'}


def compute_noreturn(P):
    nr = set()
    ch = True
    while ch:
        ch = False
        for f in P.all_funcs():
            if f in nr:
                continue
            g = cfg_of(f)
            seen = {g.entry}
            work = [g.entry]
            while work:
                n = g.nodes[work.pop()]
                if n.kind == 'call' and n.data[1][0] == 'fn':
                    c = P.resolve(f.tu, n.data[1][1])
                    if c is not None and c in nr:
                        continue
                for s in n.succ:
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            if g.exit not in seen:
                nr.add(f)
                ch = True
    return nr


class Monitor:
    """Typestate monitor: hooks return a new monitor state (or None: unchanged)."""
    def roots(self, mon): return ()
    def widen(self, mon, ren): return mon
    def read_field(self, st, base, f): return None
    def store(self, eng, st, fr, node, loc, val): return None
    def branch(self, eng, st, fr, node, val, taken): return None
    def ret(self, eng, st, fr, node, val): return None
    def call(self, eng, st, fr, node, name, cv, argv): return None
    def after_call(self, eng, st, fr, node, name, argv, rv): return None
    def inlined_return(self, eng, st, fr, node, name, argv, rv): return None
    def noreturn(self, eng, st, fr, node, name, argv): return None
    def enter_loop(self, eng, st, fr, head): return None
    def loop_back(self, eng, st, fr, head): return None
    def nonnull_result(self, name): return False
