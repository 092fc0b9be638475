"""Attribute schedule (C39, C40)."""
import absint
import front
from absint import ZERO, ONE, subterms
from emit import EmitMon, noep
from program import AnalysisBroken
from interp import World, State, chain, Undecided

PRIM = ('GRnew', 'GRcopy', 'GRadd_node', 'GRadd_edge', 'GRlookup_node', 'GRlookup_edge', 'GRclose_transitivity', 'GRdelete',
        'GRadd_new_intra_node_dependency', 'GRget_inter_node_dependencies', 'GRget_node_dependencies',
        'QUcreate', 'QUinsert', 'QUpop', 'QUpeek', 'QUdelete', 'add_visit_stub', 'get_node_type', 'get_node_name', 'get_node_attributes')


class SchedMon(EmitMon):
    def store(self, eng, st, fr, node, loc, val):
        if loc[0] == 'L' and not (loc[1][0] == 'L') and eng.private(loc[1]) and isinstance(loc[2], str) and loc[1][0] in ('&v', '&'):
            self.add(st, ('lset', loc[1], loc[2], self.em.norm(noep(val))))
        return EmitMon.store(self, eng, st, fr, node, loc, val)

    def call(self, eng, st, fr, node, name, cv, argv):
        if name in ('HTlookup', 'HTremove'):
            b = argv[1]
            if b[0] == '&v':
                fs = sorted((k[1], v) for k, v in st.heap.items() if k[0] == b and isinstance(k[1], str))
                if fs:
                    argv = [argv[0], ('rec', tuple(fs))]
                    return [(st, ('call', name, None, tuple(argv)))]
        return EmitMon.call(self, eng, st, fr, node, name, cv, argv)


class Sched(front.Front):
    opaque = front.Front.opaque + PRIM
    monitor = SchedMon

    def __init__(self, P):
        front.Front.__init__(self, P)
        self.untyped = True
        self.fcache = {}

    def policy(self, e, c, n):
        r = front.Front.policy(self, e, c, n)
        if r == 'inline':
            f = self.P.resolve(c.tu, n)
            if self.recursive(f):
                return 'opaque'
        return r

    def recursive(self, f):
        if f not in self.fcache:
            self.fcache[f] = any(f in self.cg.reach(g) for g in self.cg.out.get(f, ()))
        return self.fcache[f]

    def of(self, f, nargs):
        return self.raw_paths(f, [('arg', i) for i in range(nargs)], {}, (), nonnull=False)

    def function(self, name, nargs):
        f = self.P.need(name)
        vs = [('arg', i) for i in range(nargs)]
        old, self.opaque = self.opaque, tuple(o for o in self.opaque if o != name)
        oldc, oldd = self.cur, absint.MAXDEPTH
        absint.MAXDEPTH = 24
        try:
            return f, self.raw_paths(f, vs, {}, (), nonnull=False)
        finally:
            self.opaque, self.cur = old, oldc
            absint.MAXDEPTH = oldd


def E(n):
    return ('el', n)


def C(n):
    return ('c', n)


class AG(World):
    """a case of the scheduler: graph nodes are elements per (node, attribute); edges, table entries and types are given by the case"""
    def __init__(self, X, args=(), edges=None, err=0, types=None, look=None, st=None, nographnode=(), keyed=None):
        World.__init__(self, {}, self.look, self.prim, self.at, args)
        self.X, self.edges, self.err, self.types, self.lk, self.st = X, edges or {}, err, types or {}, look, st or {}
        self.nogn, self.keyed = nographnode, keyed

    def put(self, el, **kw):
        for k, v in kw.items():
            self.fields[(el, k.replace('__', '.'))] = v

    def field(self, b, f, s):
        if f == 'nodetype' and b[0] == 'new' and b[2].startswith('AST'):
            n = self.X.ntof.get(b[2][3:])
            if n is not None:
                return C(n)
        if b[0] == 'el' and isinstance(b[1], tuple) and b[1][0] == 'gn' and (b, f) not in s.heap and (b, f) not in self.fields:
            if f in ('node', 'attribute'):
                return b[1][1 if f == 'node' else 2]
        return World.field(self, b, f, s)

    def gn(self, n, a):
        return ZERO if (n, a) in self.nogn else E(('gn', n, a))

    def prim(self, name, a):
        if name == 'GRlookup_node':
            return self.gn(a[1], a[2])
        if name == 'GRadd_node':
            return E(('gn', a[1], a[2]))
        if name == 'GRlookup_edge':
            return E(('edge', a[1], a[2])) if self.edges.get((a[1], a[2])) else ZERO
        if name in ('get_node_type', 'get_node_attributes', 'get_node_name'):
            i = {'get_node_type': 'type', 'get_node_attributes': 'attrs', 'get_node_name': 'name'}[name]
            v = self.types.get((i, a[0]))
            return v if v is not None else E((i, a[0]))
        if name == 'STlookup':
            v = self.st.get(a[1])
            return v if v is not None else None
        if name in ('STReq', 'STReqci') and all(x[0] == 'el' for x in a):
            return C(int(a[0] == a[1]))
        return None

    def look(self, tab, key):
        return self.lk(tab, key) if self.lk is not None else None

    def at(self, W, t, s):
        if t[0] == 'fld' and t[2] == 'type' and t[1][0] == '&v':
            if self.err in (2, 3):   # only the edges, or only the closure, return an error
                last = [e[1] for e in s.trace if e[0] == 'call' and e[1] in ('GRadd_edge', 'GRclose_transitivity')][-1:]
                return C(1 if last == ['GRadd_edge' if self.err == 2 else 'GRclose_transitivity'] else 0)
            return C(self.err)
        return None


class Sites:
    """functions of the scheduler, found by name; absent ones are not decided"""
    def __init__(self, R, P):
        self.R, self.P = R, P
        self.S = Sched(P)
        self.ntof = {v: k for k, v in self.S.ntnum.items()}
        self.memo = {}

    def get(self, name, n):
        if (name, n) not in self.memo:
            try:
                f, ps = self.S.function(name, n)
                self.R.func(f)
                self.memo[(name, n)] = (f, ps)
            except AnalysisBroken as e:
                self.R.notes.setdefault('not decided', []).append('%s: %s' % (name, e))
                self.memo[(name, n)] = (None, [])
        return self.memo[(name, n)]

    def of(self, f, n):
        return self.S.of(f, n)

    def num(self, e):
        return self.P.enum_of[e][1] if e in self.P.enum_of else None

    def outs(self, W, ps):
        out = []
        for p in ps:
            if any(e[0] == 'broken' for e in p.ev):
                raise Undecided('path not followed')
            for s in W.run(p.ev):
                out.append((s, W.val(p.ret, s) if p.ret is not None else None))
        return out

    def judge(self, rule, f, what, W, ps, ok, msg):
        """every outcome of the case satisfies ok"""
        inst = '%s: %s' % (f.name, what)
        self.R.ob(rule, inst)
        try:
            outs = self.outs(W, ps)
        except Undecided as u:
            self.R.notes.setdefault('not decided', []).append('%s: %s' % (inst, u))
            return
        self.verdict(rule, f, inst, outs, ok, msg)

    def verdict(self, rule, f, inst, outs, ok, msg):
        if not outs:
            self.R.notes.setdefault('not decided', []).append('%s: no path' % inst)
            return
        bad = [s for s, r in outs if not ok(s, r)]
        if any(s.unk == 0 for s in bad) or len(bad) == len(outs):
            self.R.viol(rule, inst, '%s: %s' % (inst, msg), f)
        elif bad:
            self.R.notes.setdefault('not decided', []).append('%s: depends on undecided conditions' % inst)


def calls(s, name):
    return [(i, t[2], t[3]) for i, t in enumerate(s.trace) if t[0] == 'call' and t[1] == name]


def reported(s, X=None):
    if not any(t[0] == 'cti' for t in s.trace):
        return False
    if X is None or not X.counts:
        return True
    return any(t[0] == 'gset' and str(t[1]).split('.')[-1] == 'errors' and t[2] != ZERO for t in s.trace)


def counted(X):
    """the scheduler asks a counter of its own whether to go on"""
    f, ps = main_paths(X)
    return any(isinstance(t, tuple) and t and t[0] == 'fld' and isinstance(t[2], str) and t[2].split('.')[-1] == 'errors'
               for p in ps or () for e in p.ev if e[0] == 'if' for t in subterms(e[1]))


def attr(W, n, kind, name=None):
    a = E(n)
    W.put(a, attribute__is_inherited=C(int(kind == 'inh')), attribute__is_synthesized=C(int(kind == 'syn')), attribute__next=ZERO)
    nm = E(('name', name or n))
    W.put(a, attribute__name=nm)
    W.put(nm, id__lwr=E(('lwr', name or n)), id__orig=E(('orig', n)))
    return a


def graph_node(X):
    f, ps = X.get('generate_graph_node', 2)
    if f is None:
        return
    node, child, ctype = E('node'), E('child'), E('childtype')

    def base(W):
        W.put(node, inode__iattributes=ZERO, inode__ichildren=ZERO, inode__iequations=ZERO)
        W.put(child, child__next=ZERO, child__type_reference=E('tref'))
        W.st[E('tref')] = ctype
        return W
    for kind in ('inh', 'syn', 'plain'):
        for own in ('node', 'child'):
            W = base(AG(X, (node, E('edges'))))
            a = attr(W, 'a', kind)
            if own == 'node':
                W.put(node, inode__iattributes=a)
            else:
                W.put(node, inode__ichildren=child)
                W.types[('attrs', ctype)] = a
            want = [] if kind == 'plain' else [(node if own == 'node' else child, a)]
            X.judge('graph', f, 'an %s attribute of %s' % (kind, own), W, ps,
                    lambda s, r, want=want: [x[1][1:] for x in calls(s, 'GRadd_node')] == want and all(x[1][0] == r for x in calls(s, 'GRadd_node')),
                    'is %s the dependency graph exactly once' % ('not added to' if want else 'added to'))
    for kind in ('inh', 'syn'):
        W = base(AG(X, (node, E('edges'))))
        a = attr(W, 'a', kind)
        c2 = E('child2')
        W.put(node, inode__iattributes=a, inode__ichildren=child)
        W.put(child, child__next=c2)
        W.put(c2, child__next=ZERO, child__type_reference=E('tref2'))
        W.st[E('tref')], W.st[E('tref2')] = node, node
        W.types[('attrs', node)] = a
        X.judge('graph', f, 'an %s attribute of a node with two children of its own type' % kind, W, ps,
                lambda s, r, a=a: sorted(map(str, (x[1][1:] for x in calls(s, 'GRadd_node')))) == sorted(map(str, ((node, a), (child, a), (E('child2'), a)))),
                'is not in the dependency graph for the node and each child')
    for rule in ('node', 'child'):
        for dep in ('node', 'child', 'child2'):
            for kind in ('inh', 'syn'):
                for err in (0, 1, 2, 3):
                    W = base(AG(X, (node, E('edges')), err=err))
                    rref, dref, eq, arg = E('rule'), E('depref'), E('equation'), E('arg')
                    ra, da = attr(W, 'ra', 'syn' if rule == 'node' else 'inh'), attr(W, 'da', kind)
                    W.put(node, inode__iequations=eq)
                    W.put(eq, equation__rule=rref, equation__next=ZERO, equation__iargs=arg)
                    W.put(arg, equation_dependency__iattribute=dref, equation_dependency__next=ZERO)
                    own = {'node': node, 'child': child, 'child2': E('child2')}
                    for ref, w, at in ((rref, rule, ra), (dref, dep, da)):
                        W.put(ref, attribute_reference__inode=ZERO if w == 'node' else E('name of ' + w), attribute_reference__reference=at,
                              attribute_reference__child_reference=ZERO if w == 'node' else own[w])
                    n1, n2 = E(('gn', own[dep], da)), E(('gn', own[rule], ra))
                    same = own[dep] == own[rule]

                    def ok(s, r):
                        es = calls(s, 'GRadd_edge')
                        intra = [x[1][1:] for x in calls(s, 'GRadd_new_intra_node_dependency')]
                        cl = calls(s, 'GRclose_transitivity')
                        return [x[1][:3] for x in es] == [(r, n1, n2)] and intra == ([(n1, n2)] if same else []) and len(cl) == 1 \
                            and cl[0][1][0] == r and cl[0][0] > es[0][0]
                    X.judge('graph', f, 'an equation for an attribute of %s that uses an %s attribute of %s%s' % (rule, kind, dep, ('', ', in error', ', the edge in error', ', the closure in error')[err]),
                            W, ps, ok, 'does not give one edge from the attribute used to the attribute defined (with its dependency for the type when both are of one node), followed by the closure')
                    X.judge('report', f, 'an edge of an equation with%s an error (%s, %s, %s)%s' % ('' if err else 'out', rule, dep, kind, ('', '', ', of the edge', ', of the closure')[err]), W, ps,
                            lambda s, r: reported(s, X) == bool(err), 'a loop in the dependencies is not reported' if err else 'an error is reported where there is none')


def graph_nodeset(X):
    f, ps = X.get('generate_graph_nodeset', 2)
    if f is None:
        return
    ns, mem, ent = E('nodeset'), E('member'), E('entry')
    tab = [k for p in ps for k in subterms_ev(p.ev) if k[0] == 'call' and '%out' in str(k[1])]
    for kind in ('inh', 'syn', 'plain'):
        for err in (0, 1, 2, 3):
            W = AG(X, (ns, E('edges')), err=err)
            a = attr(W, 'a', kind, 'same')
            eq, other = attr(W, 'ma', kind, 'same'), attr(W, 'mb', 'inh', 'other')
            for first in (eq, other):
                W.put(ns, inodeset__iattributes=a, inodeset__expr=E('expr'))
                W.put(mem, inode__iattributes=first)
                W.put(first, attribute__next=other if first == eq else eq)
                W.put(other if first == eq else eq, attribute__next=ZERO)
                W.fields[(ent, 'node')] = mem
                W.fields[(ent, 'next')] = ZERO
                old = W.atomf
                W.atomf = lambda w, t, s, old=old: ent if t[0] == 'call' and '%out' in str(t[1]) else old(w, t, s)
                n1, n2 = E(('gn', ns, a)), E(('gn', mem, eq))
                want = {'inh': [(n1, n2)], 'syn': [(n2, n1)], 'plain': []}[kind]

                def ok(s, r):
                    es, cl = calls(s, 'GRadd_edge'), calls(s, 'GRclose_transitivity')
                    return [x[1][1:3] for x in es] == want and len(cl) == 1 and (not es or cl[0][0] > es[0][0] and cl[0][1][0] == es[0][1][0])
                lab = '%s attribute of a nodeset, %s in its member%s' % (kind, 'first' if first == eq else 'last', ('', ', in error', ', the edge in error', ', the closure in error')[err])
                X.judge('graph', f, lab, W, ps, ok,
                        'does not give exactly the edge that connects it with the attribute of its name in the member, followed by the closure')
                if kind != 'plain':
                    X.judge('report', f, lab, W, ps, lambda s, r: reported(s, X) == bool(err), 'a loop is not reported' if err else 'an error is reported where there is none')
                W.atomf = old
    W = AG(X, (ns, E('edges')))
    a = attr(W, 'a', 'inh', 'same')
    m2, e2 = E('member2'), E('entry2')
    W.put(ns, inodeset__iattributes=a, inodeset__expr=E('expr'))
    eqs = {}
    for m, en, nx in ((mem, ent, e2), (m2, e2, ZERO)):
        eqs[m] = attr(W, 'a of ' + m[1], 'inh', 'same')
        W.put(m, inode__iattributes=eqs[m])
        W.fields[(en, 'node')], W.fields[(en, 'next')] = m, nx
    W.atomf = lambda w, t, s: ent if t[0] == 'call' and '%out' in str(t[1]) else AG.at(w, w, t, s)

    def two(s, r):
        es, cl = calls(s, 'GRadd_edge'), calls(s, 'GRclose_transitivity')
        if sorted(str(x[1][1:3]) for x in es) != sorted(str((E(('gn', ns, a)), E(('gn', m, eqs[m])))) for m in (mem, m2)):
            return False
        gs = [x[1][0] for x in es]
        got, x = [], r
        while x is not None and x[0] == 'new' and len(got) < 4:
            got.append(W.field(x, 'graph', s))
            x = W.field(x, 'next', s)
        return len(set(gs)) == 2 and len(cl) == 2 and set(c[1][0] for c in cl) == set(gs) == set(got) and len(got) == 2 \
            and all(i > j for i, c, q in cl for j, y, q2 in es if y[0] == c[0])
    X.judge('graph', f, 'a nodeset with two members', W, ps, two, 'does not have one graph per member, with the edge of the member, closed')
    f, ps = X.get('add_nodeset_entries', 2)
    if f is None:
        return
    e, lst = E('expr'), E('list')
    W = AG(X, (e, lst))
    W.put(e, setliteral__reference=E('ref'), setliteral__left=E('left'), setliteral__right=E('right'))
    W.st[E('ref')] = mem
    W.put(mem, nodetype=C(X.num('NT_INODE') or 0))
    X.judge('graph', f, 'the members of a set', W, ps,
            lambda s, r: any(t[0] == 'set' and t[2] == 'node' and t[3] == mem for t in s.trace)
            and {x[1][0] for x in calls(s, f.name)} >= {E('left'), E('right')} and all(x[1][1] == lst for x in calls(s, f.name)),
            'the member and those of both subtrees are not all collected')


def subterms_ev(ev):
    for e in ev:
        if e[0] == 'loop':
            for b in e[1]:
                yield from subterms_ev(b)
        else:
            for x in e[1:]:
                if isinstance(x, tuple):
                    yield from (t for t in subterms(x) if isinstance(t, tuple) and t)


EDGEMAP = ('fld', ('fld', E('graph'), 'internal'), 'edge_map')


def edge_world(X, f, args, rel, nodes):
    """a graph with the elements `nodes` (in this order) and the edges rel"""
    W = AG(X, args)

    def lk(t, k):
        if t == EDGEMAP:
            return E(('inner', k)) if any(a == k for a, b in rel) else ZERO
        if t[0] == 'el' and isinstance(t[1], tuple) and t[1][0] == 'inner':
            return E(('edge', t[1][1], k)) if (t[1][1], k) in rel else ZERO
        if t[0] == 'new':
            return ZERO
        return None
    W.lk = lk
    for i, n in enumerate(nodes):
        W.put(n, next=nodes[i + 1] if i + 1 < len(nodes) else ZERO)
    W.put(E('graph'), nodes=nodes[0])
    return W


def edges_of(s):
    """edges (first, second) that were entered: under first in the map of edges and under second in the table found there"""
    inner = {}
    for i, a, r in calls(s, 'HTinsert'):
        if a[0] == EDGEMAP:
            inner[a[2]] = a[1]
    out = set()
    for i, a, r in calls(s, 'HTinsert'):
        t = a[0]
        if t == EDGEMAP:
            continue
        n = t[1][1] if t[0] == 'el' and isinstance(t[1], tuple) and t[1][0] == 'inner' else inner.get(t)
        if n is not None and s.heap.get((a[2], 'first')) == n and s.heap.get((a[2], 'second')) == a[1]:
            out.add((n, a[1]))
    return out


def errtype(s, r):
    v = None
    for t in s.trace:
        if t[0] == 'lset' and t[2] == 'type' and t[1] == r:
            v = t[3]
    return v


def graph_edges(X):
    f, ps = X.get('GRadd_edge', 4)
    a, b = E('n1'), E('n2')
    if f is not None:
        for n2 in (a, b):
            for fw in (0, 1):
                for bw in (0, 1):
                    if n2 == a and (fw or bw):
                        continue
                    rel = ({(a, b)} if fw else set()) | ({(b, a)} if bw else set())
                    for ty in (0, 1):
                        W = edge_world(X, f, (E('graph'), a, n2, C(ty)), rel, [a, b])
                        cyc = n2 == a or bw

                        def ok(s, r):
                            e = errtype(s, r)
                            if e is None or e[0] != 'c':
                                return False
                            if cyc:
                                return e[1] != 0
                            return e[1] == 0 and (fw or (a, b) in edges_of(s))
                        X.judge('edge', f, 'an edge from an attribute to %s%s%s (type %d)' % ('itself' if n2 == a else 'another', ', present already' if fw else '', ', with the opposite edge present' if bw else '', ty),
                                W, ps, ok, 'the loop is not returned as an error' if cyc else 'the edge is not entered, or an error is returned')
    f, ps = X.get('GRlookup_edge', 4)
    if f is not None:
        for rel in (set(), {(a, b)}, {(b, a)}):
            for ty in ('GRnormal', 'GRinduced'):
                W = edge_world(X, f, (E('graph'), a, b, ZERO), rel, [a, b])
                W.put(E(('edge', a, b)), type=C(X.num(ty) or 0))
                W.put(E(('edge', b, a)), type=C(X.num(ty) or 0))
                want = (a, b) in rel
                X.judge('edge', f, 'the edge of two attributes when %s (%s)' % ('it is there' if want else 'only the opposite edge is' if rel else 'there is none', ty), W, ps,
                        lambda s, r: r is not None and W.truth(r) == want, 'the answer is wrong')
    for name in ('GRget_node_dependencies', 'GRget_inter_node_dependencies', 'find_dependencies'):
        f, ps = X.get(name, 2)
        if f is None:
            continue
        field = 'dependency' if name == 'find_dependencies' else 'node'
        for pos in (0, 1):
            for same in (1, 0):
                for edge in (1, 0, -1):
                    ns = [b, a] if pos == 0 else [a, b]
                    W = edge_world(X, f, (E('graph'), a), set(), ns)
                    W.put(a, node=E('node'), attribute=attr(W, 'x', 'inh'))
                    W.put(b, node=E('node') if same else E('node2'), attribute=attr(W, 'y', 'inh'))
                    W.edges = {(b, a) if edge == 1 else (a, b): True} if edge else {}
                    want = edge == 1 and (same or name != 'GRget_inter_node_dependencies')

                    def ok(s, r):
                        if r is None:
                            return False
                        if not want:
                            return r == ZERO
                        return s.heap.get((r, field)) == b and s.heap.get((r, 'next')) == ZERO
                    X.judge('edge', f, 'dependencies of an attribute with %s attribute of %s node (%s in the graph)' % (
                        {1: 'an edge from an', 0: 'no edge from an', -1: 'an edge to an'}[edge], 'the same' if same else 'another', 'first' if pos == 0 else 'last'), W, ps, ok,
                        'the attribute it depends on is not found, or one that it does not depend on is')
    f, ps = X.get('GRclose_transitivity', 2)
    if f is not None:
        import itertools
        i, j, k = E('i'), E('j'), E('k')
        n4 = [E(x) for x in 'abcd']
        chain4 = {(n4[0], n4[1]), (n4[1], n4[2]), (n4[2], n4[3])}
        full = {(n4[x], n4[y]) for x in range(4) for y in range(x + 1, 4)} - chain4
        for order in ([n4[0], n4[3], n4[2], n4[1]],):
            W = edge_world(X, f, (E('graph'), E('added')), chain4, list(order))
            for x, n in enumerate(n4):
                W.put(n, node=E(('node', x % 3)))

            def ok4(s, r):
                e = errtype(s, r)
                intra = {x[1][1:] for x in calls(s, 'GRadd_new_intra_node_dependency')}
                return e == ZERO and edges_of(s) == full and intra == {(n4[0], n4[3])}
            X.judge('closure', f, 'a chain of four attributes, listed %s' % ' '.join(x[1] for x in order), W, ps, ok4, 'the graph is not closed by all edges that follow')
        for order in itertools.permutations((i, j, k)):
            W = edge_world(X, f, (E('graph'), E('added')), {(i, k), (k, j)}, list(order))
            for n in (i, j, k):
                W.put(n, node=E('node'))
            X.judge('closure', f, 'attributes %s of one node with the edges i-k, k-j' % ' '.join(n[1] for n in order), W, ps,
                    lambda s, r: edges_of(s) == {(i, j)} and {x[1][1:] for x in calls(s, 'GRadd_new_intra_node_dependency')} == {(i, j)},
                    'the dependency between i and j is not added and recorded for the type')
            for same in (1, 0):
                for rel, cyc in (({(i, k), (k, j)}, False), ({(i, k)}, False), ({(i, k), (k, j), (j, i)}, True)):
                    W = edge_world(X, f, (E('graph'), E('added')), rel, list(order))
                    for n, nd in ((i, 'node'), (j, 'node' if same else 'node2'), (k, 'node3')):
                        W.put(n, node=E(nd))

                    def ok(s, r):
                        e = errtype(s, r)
                        if e is None or e[0] != 'c':
                            return False
                        if cyc:
                            return e[1] != 0
                        es = edges_of(s)
                        want = {(i, j)} if len(rel) == 2 else set()
                        intra = {x[1][1:] for x in calls(s, 'GRadd_new_intra_node_dependency')}
                        return e[1] == 0 and es == want and intra == (want if same else set())
                    X.judge('closure', f, 'attributes %s with the edges %s%s' % (' '.join(n[1] for n in order), ', '.join(sorted('%s-%s' % (x[1], y[1]) for x, y in rel)), ', i and j of one node' if same else ''),
                            W, ps, ok, 'the loop is not returned as an error' if cyc else 'the graph is not closed by exactly the edges that follow (with the dependency for the type when they are of one node)')



MAIN = ('generate_graph_node', 'generate_graph_nodeset', 'combine_edgelists', 'add_induced_edges', 'partition_nodes', 'collect_visits',
        'generate_visits', 'fill_visit_stubs', 'generate_empty_visits', 'dump_dotfile')


def induced(X):
    f, ps = X.get('add_induced_edges', 3)
    if f is not None:
        T, U = E('T'), E('U')
        for ty in (T, U):
            for missing in (None, 'first', 'second'):
                for present in (0, 1):
                    for err in (0, 1, 2, 3):
                        W = AG(X, (E('graph'), E('edges'), E('new')), err=err)
                        a1, a2, nd, x, en, ed, f1, f2 = [E(n) for n in ('a1', 'a2', 'nd', 'x', 'edges', 'ed', 'f1', 'f2')]
                        W.put(E('graph'), nodes=x)
                        W.put(x, node=nd, attribute=a1, next=ZERO)
                        W.put(en, edge=ed, next=ZERO)
                        W.put(ed, first=f1, second=f2)
                        W.put(f1, node=T, attribute=a1)
                        W.put(f2, node=T, attribute=a2)
                        W.types[('type', nd)] = ty
                        if missing:
                            W.nogn = ((nd, a1 if missing == 'first' else a2),)
                        n1, n2 = E(('gn', nd, a1)), E(('gn', nd, a2))
                        W.edges = {(n1, n2): True} if present else {}
                        add = ty == T and not missing and not present

                        def ok(s, r):
                            es, cl = calls(s, 'GRadd_edge'), calls(s, 'GRclose_transitivity')
                            return [y[1][:3] for y in es] == ([(E('graph'), n1, n2)] if add else []) and len(cl) == 1 and cl[0][1][:2] == (E('graph'), E('new')) \
                                and (not es or cl[0][0] > es[0][0])
                        lab = 'an edge of the type T for a node of type %s%s%s%s' % (ty[1], ', without its %s attribute' % missing if missing else '', ', present already' if present else '', ('', ', in error', ', the edge in error', ', the closure in error')[err])
                        X.judge('induce', f, lab, W, ps, ok, 'is not %s, with the closure after it' % ('added for the node once' if add else 'left out'))
                        if add:
                            X.judge('report', f, lab, W, ps, lambda s, r: reported(s, X) == bool(err), 'a loop is not reported' if err else 'an error is reported where there is none')
        for first in ('node that lacks the attribute', 'node that has the edge', 'node of another type', 'edge of another type'):
            W = AG(X, (E('graph'), E('edges'), E('new')))
            a1, a2, nd, n0, x, y, en, e0, ed, f1, f2 = [E(n) for n in ('a1', 'a2', 'nd', 'n0', 'x', 'y', 'edges2', 'edges', 'ed', 'f1', 'f2')]
            W.put(E('graph'), nodes=x)
            W.put(x, node=n0, attribute=a1, next=y)
            W.put(y, node=nd, attribute=a1, next=ZERO)
            W.types[('type', nd)] = T
            W.types[('type', n0)] = U if first == 'node of another type' else T
            W.put(ed, first=f1, second=f2)
            W.put(f1, node=T, attribute=a1)
            W.put(f2, node=T, attribute=a2)
            W.put(en, edge=ed, next=ZERO)
            W.put(e0, edge=E('ed0'), next=en)
            W.put(E('ed0'), first=E('g1'), second=E('g2'))
            W.put(E('g1'), node=E('X'), attribute=a1)
            W.put(E('g2'), node=E('X'), attribute=a2)
            if first.startswith('node that lacks'):
                W.nogn = ((n0, a2),)
            W.edges = {(E(('gn', n0, a1)), E(('gn', n0, a2))): True} if first == 'node that has the edge' else {}
            want = {(E('graph'), E(('gn', nd, a1)), E(('gn', nd, a2)))}
            if first == 'edge of another type':
                want.add((E('graph'), E(('gn', n0, a1)), E(('gn', n0, a2))))
            X.judge('induce', f, 'a node of the type of an edge after a %s' % first, W, ps,
                    lambda s, r, want=want: {q[1][:3] for q in calls(s, 'GRadd_edge')} == want and calls(s, 'GRclose_transitivity')[-1:] and calls(s, 'GRclose_transitivity')[-1][0] > max(q[0] for q in calls(s, 'GRadd_edge')),
                    'does not get the edge, with the closure after it')
    f, ps = X.get('combine_edgelists', 3)
    if f is not None:
        lst, ne, ed, f1, f2, mp = [E(n) for n in ('list', 'new', 'ed', 'f1', 'f2', 'map')]
        for known in (0, 1):
            for there in (0, 1):
                W = AG(X, (lst, ne, mp))
                W.put(ne, edge=ed, next=ZERO)
                W.put(ed, first=f1, second=f2)
                W.put(f1, node=E('nd'), attribute=E('a1'))
                W.put(f2, node=E('nd'), attribute=E('a2'))
                W.put(lst, **{'*': E('old')})
                W.types[('type', E('nd'))] = E('T')

                def lk(t, k):
                    if t == mp:
                        return E('dup') if there else ZERO
                    if k[0] == 'rec':
                        d = dict(k[1])
                        return E(('gn', d['node'], d['attribute'])) if known else ZERO
                    return None
                W.lk = lk

                def ok(s, r):
                    h = s.heap.get((lst, '*'))
                    if there:
                        return h in (None, E('old'))
                    if h is None or h == E('old') or s.heap.get((h, 'next')) != E('old'):
                        return False
                    g = W.field(h, 'edge', s)
                    for side, at in (('first', 'a1'), ('second', 'a2')):
                        v = W.field(g, side, s)
                        if W.field(v, 'node', s) != E('T') or W.field(v, 'attribute', s) != E(at):
                            return False
                    return True
                X.judge('induce', f, 'a dependency within a node%s%s' % (', its attributes met before' if known else '', ', recorded already' if there else ''), W, ps, ok,
                        'is not %s' % ('left out' if there else 'recorded for the type of the node, in its direction, with the earlier ones kept'))


def main_world(X, errors):
    """the scheduler with one node type and one nodeset (of two graphs)"""
    A = E('ast')
    W = AG(X, (A,))
    x, n = E('inode'), E('inodeset')
    W.put(A, ast__inodes=x, ast__inodesets=n)
    W.put(x, inode__next=ZERO)
    W.put(n, inodeset__next=ZERO)
    gl, gl2 = E('graphs'), E('graphs2')
    W.put(gl, graph=E('gn1'), next=gl2)
    W.put(gl2, graph=E('gn2'), next=ZERO)
    i1, i2 = E('iter1'), E('iter2')
    old = W.calls
    ent = {}

    def prim(name, a):
        if name == 'generate_graph_node':
            return E('gx')
        if name == 'generate_graph_nodeset':
            return gl
        if name == 'HTiterate':
            ent['tab'] = a[0]
            return i1
        if name == 'HTiterateNext':
            return i2 if a[0] == i1 else ZERO
        if name in MAIN:
            return E(('r', name, a[1]))
        if name == 'fopen':
            return E('file')
        return old(name, a)
    W.calls = prim

    def at(w, t, s):
        if t[0] == 'call' and t[1] == 'HTiterValue':
            i = w.val(t[-1][0], s)
            return s.tabs.get((ent.get('tab'), x if i == i1 else n), ZERO if i not in (i1, i2) else None)
        if t[0] == 'call' and '%out' in str(t[1]):
            if t[1].startswith('combine_edgelists'):
                return ZERO if any(e[0] == 'call' and e[1] == 'add_induced_edges' for e in s.trace) else E('induced')
            return E(('out', t[1].split('%')[0]))
        if t[0] == 'fld' and isinstance(t[2], str) and (t[2] == 'errors' or t[2].endswith('.errors')):
            return C(errors)
        return None
    W.atomf = at
    return W, x, n


def main_paths(X):
    S = X.S
    old = S.opaque
    S.opaque = tuple(old) + MAIN
    try:
        return X.get('SAVast', 1)
    finally:
        S.opaque = old


def leaves(ps, ret=True):
    """field paths read from the arguments (deepest ones)"""
    out = set()

    def path(t):
        if t[0] == 'arg':
            return ()
        if t[0] == 'fld' and isinstance(t[2], str):
            b = path(t[1])
            return None if b is None else b + (t[2],)
        return None
    for p in ps:
        ts = list(subterms_ev(p.ev)) + [x for x in subterms(p.ret) if isinstance(x, tuple) and x]
        for t in ts:
            q = path(t)
            if q:
                out.add(q)
    return {q for q in out if not any(len(r) > len(q) and r[:len(q)] == q for r in out)}


def keys(X):
    import itertools
    done = set()
    for name, n in (('SAVinit', 0), ('SAVast', 1), ('GRnew', 0), ('generate_visits', 7)):
        f, ps = main_paths(X) if name == 'SAVast' else X.get(name, n)
        if f is None:
            continue
        tables = {e[2] for p in ps for e in walk_ev(p.ev) if e[0] == 'call' and e[1] == ('fn', 'HTnew') and len(e[2]) == 3}
        for a in sorted(tables, key=str):
            if a[1][0] != 'fn' or a[2][0] != 'fn':
                continue
            h, q = X.P.resolve(f.tu, a[1][1]), X.P.resolve(f.tu, a[2][1])
            if h is None or q is None or (h, q) in done:
                continue
            done.add((h, q))
            X.R.func(h), X.R.func(q)
            inst = '%s and %s (table of %s)' % (h.name, q.name, f.name)
            X.R.ob('key', inst)
            try:
                hp, qp = X.of(h, 1), X.of(q, 2)
            except AnalysisBroken as e:
                X.R.notes.setdefault('not decided', []).append('%s: %s' % (inst, e))
                continue
            ls = sorted(leaves(hp) | leaves(qp))
            if not ls or len(ls) > 5 or any(a != b and b[:len(a)] == a for a in ls for b in ls):
                X.R.notes.setdefault('not decided', []).append('%s: parts %s' % (inst, ls))
                continue
            for same in itertools.product((0, 1), repeat=len(ls)):
                W = AG(X, (E('k1'), E('k2')))
                for l, eq in zip(ls, same):
                    for k in ('k1', 'k2'):
                        b = E(k)
                        for i, fl in enumerate(l[:-1]):
                            nx = E((k,) + l[:i + 1])
                            W.fields[(b, fl)] = nx
                            b = nx
                        W.fields[(b, l[-1])] = E(('val', l, k if not eq else ''))
                X.judge('key', q, 'keys with %s' % ', '.join('%s %s' % ('the same' if e else 'another', '.'.join(l)) for l, e in zip(ls, same)), W, qp,
                        lambda s, r, same=same: r is not None and W.truth(r) == all(same), 'are taken to be %s' % ('different' if all(same) else 'equal'))


def walk_ev(ev):
    for e in ev:
        if e[0] == 'loop':
            for b in e[1]:
                yield from walk_ev(b)
        else:
            yield e


def c39(R, P):
    R.rule('graph', 'each inherited or synthesized attribute of a node and its children is in the dependency graph; each equation gives an edge from every such attribute it uses to the one it defines; a nodeset is connected with each member')
    R.rule('edge', 'an edge is entered and found again in its direction; an edge that closes a loop, also of one attribute, is returned as an error')
    R.rule('closure', 'the graph is closed under transitivity, and loops and dependencies of one type that follow are returned')
    R.rule('induce', 'a dependency between two attributes of one type that some graph implies is handed to every graph with a node of that type')
    R.rule('queue', 'an attribute is evaluated, and a child visited, only when everything it depends on has been scheduled; what is missing is queued and tried again')
    R.rule('report', 'an error that an edge or the closure returns is reported, and nothing is scheduled then')
    R.rule('key', 'two keys of a table of the scheduler are equal exactly when all their parts are, and the hash depends on nothing else')
    X = Sites(R, P)
    X.counts = counted(X)
    keys(X)
    graph_node(X)
    graph_nodeset(X)
    graph_edges(X)
    induced(X)
    f, ps = main_paths(X)
    if f is not None:
        for errors in (0, 1):
            W, x, n = main_world(X, errors)

            def ok(s, r):
                ce = [a[1] for i, a, r in calls(s, 'combine_edgelists')]
                if {E(('out', 'generate_graph_node')), E(('out', 'generate_graph_nodeset'))} - set(ce):
                    return False
                ai = {a[0] for i, a, r in calls(s, 'add_induced_edges') if a[1] == E('induced')}
                return ai == {E('gx'), E('gn1'), E('gn2')} and ce.count(E(('out', 'add_induced_edges'))) == 3
            X.judge('induce', f, 'graphs of a node and of a nodeset%s' % (' with a loop' if errors else ''), W, ps, ok,
                    'the dependencies that a graph implies are not all handed to every graph')
            X.judge('report', f, 'scheduling %s' % ('with a loop' if errors else 'without a loop'), W, ps,
                    lambda s, r: bool(calls(s, 'generate_visits')) == (not errors), 'visits are generated although a loop was found' if errors else 'no visits are generated')
    schedule(X)


def queue_loops(ev, out):
    """outermost loops whose turns have taken an item from a queue"""
    for e in ev:
        if e[0] == 'loop':
            if any(x[0] == 'if' and x[2] and x[1][0] == 'call' and x[1][1] == 'QUpop' for b in e[1] for x in b):
                if not any(o[1] == e[1] for o in out):
                    out.append(e)
            else:
                for b in e[1]:
                    queue_loops(b, out)
    return out


def tables_of(p):
    """tables made by a path: those made once, those made in a loop, and the one that is filled per graph node before the visits"""
    once, inner = [], []

    def scan(ev, d):
        for e in ev:
            if e[0] == 'loop':
                for b in e[1]:
                    scan(b, d + 1)
            elif e[0] == 'call' and e[1][0] == 'fn' and e[1][1].startswith('HTnew') and len(e) > 4:
                (inner if d else once).append(e[4])
    scan(p.ev, 0)
    dep = None
    for e in p.ev:
        if e[0] == 'loop':
            for b in e[1]:
                if any(x[0] == 'call' and x[1] == ('fn', 'ASTvisit') for x in b):
                    continue
                for x in b:
                    if x[0] == 'call' and x[1] == ('fn', 'HTinsert') and x[2][0] in once and x[2][1][0] == 'phi':
                        dep = x[2][0]
    return once, inner, dep


class Item:
    """one turn of the loop that takes items from the queue"""
    def __init__(self, X, p, L, scheduled, filled):
        self.X, self.L, self.filled = X, L, filled
        self.once, self.inner, self.dep = tables_of(p)
        self.node = E('node')
        self.child, self.ctype = E('child'), E('ctype')
        W = self.W = AG(X, (E('graph'), self.node, E('st'), E('visits'), E('mdata'), E('stubs'), E('log')))
        self.sched = set(scheduled)
        self.deps = {}
        self.V = E('V')
        self.v0, self.v1 = E('v0'), E('v1')
        self.attrs = {k: attr(W, k, kd) for k, kd in (('ni', 'inh'), ('ns', 'syn'), ('ci', 'inh'), ('cs', 'syn'), ('cs2', 'syn'))}
        own = {'ni': self.node, 'ns': self.node, 'ci': self.child, 'cs': self.child, 'cs2': self.child}
        self.g = {k: E(('gn', own[k], self.attrs[k])) for k in own}
        self.vin, self.vout = E('vin'), E('vout')
        W.put(self.vin, node=self.ctype, attribute=self.attrs['ci'])
        W.put(self.vout, node=self.ctype, attribute=self.attrs['cs'])
        W.put(E('vout2'), node=self.ctype, attribute=self.attrs['cs2'])
        arr = lambda *x: ('arr', x)
        W.put(self.V, visits=arr(self.v0, self.v1), length=C(2))
        W.put(self.v0, index=C(0), inputs=arr(), inputs_length=ZERO, outputs=arr(), outputs_length=ZERO)
        W.put(self.v1, index=C(1), inputs=arr(self.vin), inputs_length=ONE, outputs=arr(self.vout, E('vout2')), outputs_length=C(2))
        W.types[('type', self.child)] = self.ctype
        W.put(self.child, nodetype=C(X.num('NT_CHILD') or 0), **{'child.type': C(X.num('CT_inode') or 0), 'child.name': E('cname')})
        W.put(self.node, nodetype=C(X.num('NT_INODE') or 0))
        W.lk = self.look
        self.item = E('item')
        old = W.calls
        W.calls = lambda name, a: self.item if name == 'QUpop' else ONE if name == 'add_visit_stub' else old(name, a)
        oat = W.atomf

        def at(w, t, s):
            if t[0] == 'op' and any(x[0] == 'fld' and x[2] == 'ag_scheduler_max_iter' for x in subterms(t) if isinstance(x, tuple) and x):
                v = {'<': 1, '<=': 1, '>': 0, '>=': 0}.get(t[1])
                a = str(t[2])
                if v is None:
                    return None
                return C(v if 'ag_scheduler_max_iter' not in a else 1 - v)
            return oat(w, t, s)
        W.atomf = at
        self.role = {}
        for i, t in enumerate(self.once):
            self.role[t] = E(('D',) if t == self.dep else ('S', i))
        for i, t in enumerate(self.inner):
            self.role[t] = E(('Q', i))

    def cv(self, v):
        return E(('cv', self.child, v))

    def look(self, t, k):
        if t == E('visits'):
            return self.V if k == self.ctype else None
        if t[0] != 'el' or not isinstance(t[1], tuple):
            return None
        r = t[1][0]
        if r == 'D':
            return self.deps.get(k, ZERO)
        if r == 'S':
            if k[0] == 'rec':
                d = dict(k[1])
                c = E(('cv', d.get('child'), d.get('visit')))
                self.W.put(c, child=d.get('child'), visit=d.get('visit'))
                return c
            return ONE if k in self.sched else ZERO
        if r == 'Q':
            return ZERO
        return None

    def depend(self, g, *on):
        prev = ZERO
        for o in reversed(on):
            d = E(('dep', g, o))
            self.W.put(d, dependency=o, next=prev)
            prev = d
        self.deps[g] = prev

    def run(self):
        st = State()
        for t, r in self.role.items():
            st.env[t] = r
        outs = []
        for phi, init in self.L[2]:
            if init[0] == 'c':
                st.env[phi] = ZERO
        seq = E('tail')
        self.W.put(seq, nodetype=C(self.X.num('NT_VISIT_SEQUENCE_EVAL') or 0))
        if self.filled:
            for phi, init in self.L[2]:
                if init == ZERO and not self.counter(phi):
                    st.env[phi] = seq
        for b in self.L[1]:
            body = b[:-1] if b and b[-1][0] == 'back' else None
            if body is None:
                continue
            for s in self.W.run(body, st):
                outs.append((s, None))
        return outs

    def counter(self, phi):
        for b in self.L[1]:
            if b and b[-1][0] == 'back':
                v = dict(b[-1][1]).get(phi)
                if v is not None and v[0] == 'op' and v[1] in ('+', '-'):
                    return True
        return False

    def marked(self, s):
        return {a[1] for i, a, r in calls(s, 'HTinsert') if a[0][0] == 'el' and isinstance(a[0][1], tuple) and a[0][1][0] == 'S' and a[1][0] == 'el'}

    def queued(self, s):
        """what is queued: the popped item, graph nodes, child visits"""
        out = []
        for i, a, r in calls(s, 'QUinsert'):
            it = a[1]
            if it == self.item:
                out.append('again')
            else:
                v = W_bool(self.W.field(it, 'is_visit', s))
                x = self.W.field(it, 'visit' if v else 'node', s)
                if v and x[0] == 'new':
                    x = E(('cv', self.W.field(x, 'child', s), self.W.field(x, 'visit', s)))
                out.append(x)
        return out

    def emitted(self, s):
        """sequence elements that are appended: ('eval', owner type name is ignored, attribute) or ('visit', child)"""
        out = []
        for i, a, r in calls(s, 'ASTvisit_sequence_eval'):
            out.append(('eval', self.W.field(a[0], 'attribute_reference.reference', s), self.W.truth(self.W.field(a[0], 'attribute_reference.inode', s)) is True, r))
        for i, a, r in calls(s, 'ASTvisit_sequence_visit'):
            out.append(('visit', a[0], None, r))
        return out

    def linked(self, s, r):
        if not self.filled:
            return True
        return any(t[0] == 'set' and t[1] == E('tail') and t[2].endswith('.next') and t[3] == r for t in s.trace)


def W_bool(v):
    return bool(v[1]) if v[0] == 'c' else True


def schedule(X):
    f, ps = X.get('generate_visits', 7)
    if f is None:
        return
    n = 0
    for p in ps:
        for L in queue_loops(p.ev, []):
            n += 1
            turn(X, f, p, L)
    if not n:
        X.R.notes.setdefault('not decided', []).append('generate_visits: no loop that takes items from a queue')


def turn(X, f, p, L):
    def one(what, I, ok, msg):
        inst = '%s: %s' % (f.name, what)
        X.R.ob('queue', inst)
        try:
            outs = I.run()
        except Undecided as u:
            X.R.notes.setdefault('not decided', []).append('%s: %s' % (inst, u))
            return
        X.verdict('queue', f, inst, outs, ok, msg)

    import itertools
    for filled in (0, 1):
        # an attribute with two dependencies
        for target in ('ns', 'ci'):
            for d1, d2 in itertools.permutations([k for k in ('ni', 'ns', 'ci', 'cs') if k != target], 2):
                for done in ((), (d1,), (d2,), (d1, d2)):
                    I = Item(X, p, L, (), filled)
                    g = I.g
                    I.sched = {g[k] for k in done}
                    I.depend(g[target], g[d1], g[d2])
                    I.W.put(I.item, is_visit=ZERO, node=g[target])
                    missing = [k for k in (d1, d2) if k not in done]

                    def ok(s, r, I=I, g=g, target=target, missing=missing):
                        q, m, em = I.queued(s), I.marked(s), I.emitted(s)
                        if missing:
                            need = [I.cv(I.v1) if k == 'cs' else g[k] for k in missing]
                            return 'again' in q and all(x in q for x in need) and not m and not em
                        return 'again' not in q and m == {g[target]} and len(em) == 1 and em[0][0] == 'eval' and em[0][1] == I.attrs[target] \
                            and em[0][2] == (target == 'ci') and I.linked(s, em[0][3])
                    one('attribute %s that uses %s and %s, scheduled: %s%s' % (target, d1, d2, ' '.join(done) or 'none', ', not the first' if filled else ''), I, ok,
                        'is evaluated before what it uses' if False else 'is not %s' % ('left for later with what is missing queued' if missing else 'evaluated once and marked'))
        # an attribute that a visit of the child gives
        I = Item(X, p, L, (), filled)
        I.W.put(I.item, is_visit=ZERO, node=I.g['cs'])
        one('attribute of a child that a visit gives%s' % (', not the first' if filled else ''), I, lambda s, r, I=I: not I.emitted(s), 'is evaluated although a visit gives it')
        # done already
        for isv in (0, 1):
            I = Item(X, p, L, (), filled)
            x = I.cv(I.v1) if isv else I.g['ns']
            I.W.put(I.cv(I.v1), child=I.child, visit=I.v1)
            I.sched = {x, I.cv(I.v0), I.g['ci']}
            I.W.put(I.item, is_visit=C(isv), node=x, visit=x)
            one('%s that is scheduled already%s' % ('visit' if isv else 'attribute', ', not the first' if filled else ''), I, lambda s, r, I=I: not I.emitted(s) and 'again' not in I.queued(s),
                'is scheduled twice')
        # a visit
        for prev in (0, 1):
            for inp in (0, 1):
                I = Item(X, p, L, (), filled)
                I.W.put(I.cv(I.v1), child=I.child, visit=I.v1)
                I.sched = ({I.cv(I.v0)} if prev else set()) | ({I.g['ci']} if inp else set())
                I.W.put(I.item, is_visit=ONE, visit=I.cv(I.v1))
                ready = prev and inp

                def ok(s, r, I=I, prev=prev, inp=inp, ready=ready):
                    q, m, em = I.queued(s), I.marked(s), I.emitted(s)
                    if not ready:
                        need = ([] if prev else [I.cv(I.v0)]) + ([] if inp else [I.g['ci']])
                        return 'again' in q and all(x in q for x in need) and not (m - {I.cv(I.v0)}) and not em
                    st = [a for i, a, r in calls(s, 'add_visit_stub')]
                    return 'again' not in q and m == {I.cv(I.v1), I.g['cs'], I.g['cs2']} and len(em) == 1 and em[0][:2] == ('visit', I.child) and I.linked(s, em[0][3]) \
                        and [(a[1], a[2]) for a in st] == [(I.v1, em[0][3])]
                one('second visit of a child, %s, its input %s%s' % ('after the first' if prev else 'the first not done', 'set' if inp else 'not set', ', not the first' if filled else ''), I, ok,
                    'is not %s' % ('made once and marked with what it gives' if ready else 'left for later with what is missing queued'))


# ---- C40: every attribute in exactly one visit ------------------------------------------------

def keyforms(k):
    a = E(k)
    return {a: 'attribute', E(('name', k)): 'name', E(('lwr', k)): 'lwr', E(('gn', E('node'), a)): 'graph node'}


def role_run(X, W, p, evs, roles):
    st = State()
    for t, r in roles.items():
        st.env[t] = r
    return W.run(evs, st)


class Part:
    """one turn of the loop of partition_nodes: an attribute g with dependencies whose partitions are known or not"""
    def __init__(self, X, p, L, kind, deps, own=None):
        self.X, self.p, self.L = X, p, L
        node = E('node')
        W = self.W = AG(X, (E('graph'), node))
        self.vals, self.rev = {}, {}
        names = ['g'] + ['d%d' % i for i in range(len(deps))]
        kinds = [kind] + [k for k, v in deps]
        for n, k in zip(names, kinds):
            attr(W, n, k)
            for e, form in keyforms(n).items():
                self.rev[e] = (n, form)
        self.vals = {'d%d' % i: v for i, (k, v) in enumerate(deps)}
        if own is not None:
            self.vals['g'] = own
        self.gn = [E(('gn', node, E(n))) for n in names]
        self.g = self.gn[0]
        for i, x in enumerate(self.gn):
            W.put(x, next=self.gn[i + 1] if i + 1 < len(self.gn) else ZERO)
            if i:
                W.edges[(x, self.g)] = True
                W.put(E(('le', i)), node=x, next=E(('le', i + 1)) if i + 1 < len(self.gn) else ZERO)
        W.put(E('graph'), nodes=self.g)
        W.lk = self.look
        old = W.calls
        W.calls = lambda name, a: self.g if name == 'QUpop' else (E(('le', 1)) if deps else ZERO) if name == 'GRget_inter_node_dependencies' else old(name, a)

    def look(self, t, k):
        if t == E(('T',)) and k in self.rev:
            v = self.vals.get(self.rev[k][0])
            return C(v) if v else ZERO
        return None

    def run(self):
        outs = []
        st = State()
        if self.p.ret is not None:
            st.env[self.p.ret] = E(('T',))
        for phi, init in self.L[2]:
            if init[0] == 'c':
                st.env[phi] = init
        for b in self.L[1]:
            if b and b[-1][0] == 'back':
                outs += [(s, None) for s in self.W.run(b[:-1], st)]
        return outs

    def result(self, s):
        """('value', v, form) / ('again',) / ('skip',) / None"""
        ins = [a for i, a, r in calls(s, 'HTinsert') if a[0] == E(('T',))]
        q = [a[1] for i, a, r in calls(s, 'QUinsert')]
        if ins and not q and len(ins) == 1 and self.rev.get(ins[0][1], (None,))[0] == 'g':
            return ('value', ins[0][2], self.rev[ins[0][1]][1])
        if not ins and not q:
            return ('skip',)
        if not ins and q == [self.g]:
            return ('again',)
        return None


def visit_list(W, s, v, arr, n):
    """graph nodes in an array of a visit"""
    ln = W.field(v, n, s)
    a = W.field(v, arr, s)
    if ln[0] != 'c':
        return None
    return [W.field(a, ('[]', C(i)), s) for i in range(ln[1])]


def collect_world(X, attrs, form):
    """attrs: (name, owner, kind, partition)"""
    node, st, T, sub = E('node'), E('st'), E('tables'), E('subtable')
    W = AG(X, (E('graph'), node, st, T))
    W.put(node, nodetype=C(X.num('NT_INODE') or 0))
    W.put(E('child'), nodetype=C(X.num('NT_CHILD') or 0), child__type_reference=E('ctref'))
    W.st[E('ctref')] = E('ctype')
    g, prev, rev = [], None, {}
    for n, own, kind, part in attrs:
        a = attr(W, n, kind)
        x = E(('gn', E(own), a))
        W.put(x, next=ZERO)
        if prev is not None:
            W.put(prev, next=x)
        prev = x
        g.append(x)
        for e, fm in keyforms(n).items():
            if fm == form:
                rev[e] = part
    W.put(E('graph'), nodes=g[0] if g else ZERO)

    def lk(t, k):
        if t == T:
            return sub if k == node else E('childtable') if k == E('ctype') else ZERO
        if t == sub:
            return C(rev[k]) if k in rev else None
        if t == E('childtable'):
            return C(2)
        return None
    W.lk = lk
    return W, g


def visits_of(W, s, r):
    """per visit: (index, inputs, outputs)"""
    n, arr = W.field(r, 'length', s), W.field(r, 'visits', s)
    if n[0] != 'c':
        return None
    out = []
    for i in range(n[1]):
        v = W.field(arr, ('[]', C(i)), s)
        out.append((W.field(v, 'index', s), visit_list(W, s, v, 'inputs', 'inputs_length'), visit_list(W, s, v, 'outputs', 'outputs_length')))
    return out


def partition(X):
    import itertools
    R = X.R
    nd = R.notes.setdefault
    f, ps = X.get('partition_nodes', 2)
    c, cps = X.get('collect_visits', 4)
    if f is None or c is None:
        return
    loops = [(p, L) for p in ps for L in queue_loops(p.ev, [])]
    if not loops:
        nd('not decided', []).append('partition_nodes: no loop that takes items from a queue')
        return
    for p, L in loops:
        known = {}
        forms = set()

        def turn_of(kind, deps, own=None):
            P = Part(X, p, L, kind, deps, own)
            outs = P.run()
            return {P.result(s) for s, r in outs}, any(s.unk for s, r in outs), P

        def one(rule, what, deps, kind, ok, msg, own=None):
            inst = '%s: %s' % (f.name, what)
            R.ob(rule, inst)
            try:
                P = Part(X, p, L, kind, deps, own)
                outs = P.run()
            except Undecided as u:
                nd('not decided', []).append('%s: %s' % (inst, u))
                return []
            X.verdict(rule, f, inst, outs, lambda s, r: ok(P.result(s)), msg)
            return [P.result(s) for s, r in outs if s.unk == 0]

        def index(v):
            """visit that collect_visits gives a partition"""
            if v in known:
                return known[v]
            form = next(iter(forms), 'lwr')
            W, g = collect_world(X, [('a', 'node', 'inh', v)], form)
            try:
                outs = X.outs(W, cps)
            except Undecided:
                return None
            res = set()
            for s, r in outs:
                vs = visits_of(W, s, r)
                if vs is None or s.unk:
                    return None
                res |= {i for i, x in enumerate(vs) if x[1] and g[0] in x[1]}
            known[v] = res.pop() if len(res) == 1 else 'none' if not res and outs else None
            return known[v]

        vals = {}
        for kind in ('inh', 'syn'):
            rs = one('visit', 'an %s attribute that depends on nothing' % kind, [], kind, lambda x: x is not None and x[0] == 'value' and x[1][0] == 'c' and x[1][1] > 0, 'is not given a visit')
            for x in rs:
                if x and x[0] == 'value' and x[1][0] == 'c':
                    vals[(kind, x[1][1])] = 1
                    forms.add(x[2])
        if len(forms) > 1:
            R.viol('visit', f.name, 'partitions are entered under keys of several kinds: %s' % sorted(forms), f)
            return
        level = list(vals)
        seen = set(level)
        for rnd in range(2):
            new = []
            combos = [(d,) for d in level] + list(itertools.permutations(sorted(seen), 2))
            for ds in combos:
                for kind in ('inh', 'syn'):
                    di = [index(v) for k, v in ds]
                    if 'none' in di:
                        R.viol('visit', '%s and %s' % (f.name, c.name), 'the partition of one of %s is not that of a visit' % ', '.join('%s %d' % d for d in ds), f)
                        return
                    if any(x is None for x in di):
                        nd('not decided', []).append('collect_visits: visit of a partition')
                        return

                    def ok(x):
                        if x is None or x[0] != 'value' or x[1][0] != 'c' or x[1][1] <= 0:
                            return False
                        i = index(x[1][1])
                        return i is not None and i != 'none' and all(i > j if (k, kind) == ('syn', 'inh') else i >= j for (k, v), j in zip(ds, di))
                    rs = one('visit', 'an %s attribute that depends on %s' % (kind, ' and '.join('%s attribute of partition %d' % ('an inherited' if k == 'inh' else 'a synthesized', v) for k, v in ds)),
                             list(ds), kind, ok, 'does not come in the same or a later visit (a later one when the input of a visit needs what a visit gives)')
                    for x in rs:
                        if x and x[0] == 'value' and x[1][0] == 'c' and (kind, x[1][1]) not in seen and rnd == 0:
                            seen.add((kind, x[1][1]))
                            new.append((kind, x[1][1]))
            level = new
        for kind in ('inh', 'syn'):
            for k, v in list(vals):
                for ds in ([(k, None)], [(k, v), (k, None)], [(k, None), (k, v)]):
                    one('visit', 'an %s attribute that depends on %s' % (kind, ' and '.join('one of partition %s' % b if b else 'one without a visit yet' for a, b in ds)), ds, kind,
                        lambda x: x == ('again',), 'is not left for later')
                one('visit', 'an %s attribute that has its visit' % kind, [(k, v)], kind, lambda x: x == ('skip',), 'is not left as it is', own=v)
        # what is queued
        for order in (0, 1):
            ns = [('a', 'node'), ('b', 'other'), ('c', 'node')]
            if order:
                ns.reverse()
            W = AG(X, (E('graph'), E('node')))
            g = [E(('gn', E(o), attr(W, n, 'inh'))) for n, o in ns]
            for i, x in enumerate(g):
                W.put(x, next=g[i + 1] if i + 1 < len(g) else ZERO)
            W.put(E('graph'), nodes=g[0])
            W.put(E('node'), nodetype=C(X.num('NT_INODE') or 0))
            W.put(E('other'), nodetype=C(X.num('NT_CHILD') or 0))
            old = W.calls
            W.calls = lambda name, a: ZERO if name == 'QUpop' else old(name, a)
            X.judge('visit', f, 'attributes that are queued (%s)' % ' '.join(n for n, o in ns), W, ps,
                    lambda s, r: sorted(map(str, (a[1] for i, a, q in calls(s, 'QUinsert')))) == sorted(str(x) for x, (n, o) in zip(g, ns) if o == 'node'),
                    'are not exactly those of the node')
        # collected
        form = next(iter(forms), 'lwr')
        byk = {k: sorted(v for q, v in seen if q == k) for k in ('inh', 'syn')}
        pool = [('i%d' % j, 'node', 'inh', v) for j, v in enumerate(byk['inh'][:2])] + [('s%d' % j, 'node', 'syn', v) for j, v in enumerate(byk['syn'][:2])]
        idx = {v: index(v) for k, v in seen}
        cases = [list(x) for n in (1, 2) for x in itertools.permutations(pool, n)]
        cases += [list(x) for x in itertools.permutations(pool)] + [[pool[0], ('i9', 'node', 'inh', pool[0][3])], [pool[-1], ('s9', 'node', 'syn', pool[-1][3])],
                                                                  [('o', 'child', 'inh', 2)] + pool, pool[:1] + [('o', 'child', 'syn', 2)]]
        for case in cases:
            W, g = collect_world(X, case, form)

            def ok(s, r, W=W, g=g, case=case):
                vs = visits_of(W, s, r)
                if vs is None or any(x[0] != C(i) or x[1] is None or x[2] is None for i, x in enumerate(vs)):
                    return False
                for x, (n, own, kind, part) in zip(g, case):
                    want = ([(idx[part], 1 if kind == 'inh' else 2)] if own == 'node' else [])
                    if [(i, j) for i, v in enumerate(vs) for j in (1, 2) for y in v[j] if y == x] != want:
                        return False
                return sum(len(v[1]) + len(v[2]) for v in vs) == sum(own == 'node' for n, own, k, q in case)
            X.judge('visit', c, 'attributes %s' % ', '.join('%s (%s of %s, partition %d)' % x for x in [(n, k, o, q) for n, o, k, q in case]), W, cps, ok,
                    'are not each an input (inherited) or output (synthesized) of exactly the one visit, with the visits numbered from 0')


def empty(X):
    f, ps = X.get('generate_empty_visits', 4)
    if f is None:
        return
    import itertools
    st, tab = E('st'), E('visits')

    def world(nodes, nodesets, lens):
        W = AG(X, (nodes[0] if nodes else ZERO, nodesets[0] if nodesets else ZERO, st, tab))
        for l, fn in ((nodes, 'inode.next'), (nodesets, 'inodeset.next')):
            for i, x in enumerate(l):
                W.fields[(x, fn)] = l[i + 1] if i + 1 < len(l) else ZERO
        for x, n in lens.items():
            W.put(E(('V', x)), length=C(n), visits=E(('arr', x)) if n else ZERO)
        W.lk = lambda t, k: (E(('V', k)) if k in lens else ZERO) if t == tab else None
        return W

    def after(W, s, x):
        v = E(('V', x))
        n = W.field(v, 'length', s)
        if (v, 'length') not in s.heap:
            return 'same'
        if n != ONE:
            return 'bad'
        e = W.field(W.field(v, 'visits', s), ('[]', ZERO), s)
        return 'empty' if all(W.field(e, q, s) == ZERO for q in ('index', 'inputs_length', 'outputs_length')) else 'bad'
    n, m, o, k, k2 = E('node'), E('middle'), E('leaf'), E('kid'), E('kid2')
    for a, b in itertools.product((0, 1, 2), (0, 1, 2)):
        for pos in (0, 1):
            W = world([n], [], {n: a, o: b, m: 0})
            kids = [k, k2] if pos else [k2, k]
            W.put(n, inode__ichildren=kids[0])
            W.put(kids[0], child__next=kids[1])
            W.put(kids[1], child__next=ZERO)
            W.types[('type', k)] = o
            W.types[('type', k2)] = m
            want = 'empty' if a == 0 and b > 0 else 'same'
            X.judge('empty', f, 'a node with %d visits and children with 0 and %d (%s)' % (a, b, 'last' if not pos else 'first'), W, ps,
                    lambda s, r, W=W, want=want: after(W, s, n) == want and after(W, s, o) == 'same', 'gets no visit through which those of the child are reached' if want == 'empty' else 'does not keep its visits')
    for order in ([n, m], [m, n]):
        W = world(order, [], {n: 0, m: 0, o: 1})
        W.put(n, inode__ichildren=k)
        W.put(m, inode__ichildren=k2)
        W.put(k, child__next=ZERO)
        W.put(k2, child__next=ZERO)
        W.types[('type', k)] = m
        W.types[('type', k2)] = o
        X.judge('empty', f, 'a child without visits of its own that has a child with a visit (%s)' % ' '.join(x[1] for x in order), W, ps,
                lambda s, r, W=W: after(W, s, n) == 'empty' and after(W, s, m) == 'empty', 'not every node above gets a visit')
    for a, b, kids in itertools.product((0, 1), (0, 1), ((0, 0), (1, 0), (0, 1))):
        W = world([], [m], {m: a, o: b})
        ex = E('expr')
        W.put(m, inodeset__expr=ex)
        W.put(ex, setliteral__reference=E('ref'), setliteral__left=E('left'), setliteral__right=E('right'), nodetype=C(X.num('NT_SETLITERAL') or 0))
        W.st[E('ref')] = o
        old = W.calls
        W.calls = lambda name, args, kids=kids, old=old: C(kids[0] if args[0] == E('left') else kids[1]) if name == 'nodeset_has_visit' and args and args[0] in (E('left'), E('right')) else old(name, args)

        def oat(w, t, s, ex=ex, b=b, kids=kids):
            if t[0] == 'call' and t[1] == 'nodeset_has_visit':
                a0 = w.val(t[-1][0], s)
                return C(int(bool(b or any(kids)))) if a0 == ex else C(kids[0]) if a0 == E('left') else C(kids[1]) if a0 == E('right') else None
            return None
        W.atomf = oat
        W.calls = lambda name, args, ex=ex, b=b, kids=kids, old=old: (C(int(bool(b or any(kids)))) if args[0] == ex else None) if name == 'nodeset_has_visit' else old(name, args)
        want = 'empty' if not a and (b or any(kids)) else 'same'
        X.judge('empty', f, 'a nodeset with %d visits, members with %d, %d and %d' % (a, b, kids[0], kids[1]), W, ps,
                lambda s, r, W=W, want=want: after(W, s, m) == want, 'gets no visit through which those of its members are reached' if want == 'empty' else 'does not keep its visits')
    f, ps = X.get('nodeset_has_visit', 3)
    if f is None:
        return
    ex = E('expr')
    for b, l, r_ in itertools.product((0, 1), (0, 1), (0, 1)):
        W = AG(X, (ex, st, tab))
        W.put(ex, setliteral__reference=E('ref'), setliteral__left=E('left'), setliteral__right=E('right'), nodetype=C(X.num('NT_SETLITERAL') or 0))
        W.st[E('ref')] = o
        W.put(E(('V', o)), length=C(b))
        W.lk = lambda t, q: E(('V', q)) if t == tab and q == o else None
        old = W.calls
        W.calls = lambda name, args, l=l, r_=r_, old=old: C(l if args[0] == E('left') else r_) if name == f.name else old(name, args)
        X.judge('empty', f, 'members with %d, %d and %d visits' % (b, l, r_), W, ps,
                lambda s, r, W=W: r is not None and W.truth(r) == bool(b or l or r_), 'a member with a visit is overlooked, or found where there is none')
    W = AG(X, (ZERO, st, tab))
    X.judge('empty', f, 'no members', W, ps, lambda s, r: r is not None and W.truth(r) is False, 'a visit is found')


def visits(X):
    """generate_visits with queues that are empty: what is put in them, and the visits that are made"""
    f, ps = X.get('generate_visits', 7)
    if f is None:
        return
    node, child, ctype = E('node'), E('child'), E('ctype')
    for nv in (1, 2):
        W = AG(X, (E('graph'), node, E('st'), E('visits'), E('mdata'), E('stubs'), E('log')))
        arr = lambda *x: ('arr', x)
        W.put(node, nodetype=C(X.num('NT_INODE') or 0), inode__ichildren=child)
        W.put(child, nodetype=C(X.num('NT_CHILD') or 0), **{'child.type': C(X.num('CT_inode') or 0), 'child.name': E('cname'), 'child.next': ZERO})
        W.types[('type', child)] = ctype
        W.types[('type', node)] = node
        g = {k: E(('gn', node, attr(W, k, 'inh' if k[0] == 'i' else 'syn'))) for k in ('i0', 'j0', 's0', 't0', 'i1', 's1')}
        W.put(E('graph'), nodes=ZERO)
        V, K = E('V'), E('K')
        W.put(V, length=C(nv), visits=arr(*[E('v%d' % i) for i in range(nv)]))
        W.put(K, length=C(2), visits=arr(E('k0'), E('k1')))
        ins, outs = {0: ('i0', 'j0'), 1: ('i1',)}, {0: ('s0', 't0'), 1: ('s1',)}
        for i in range(nv):
            W.put(E('v%d' % i), index=C(i), inputs=arr(*[g[x] for x in ins[i]]), inputs_length=C(len(ins[i])), outputs=arr(*[g[x] for x in outs[i]]), outputs_length=C(len(outs[i])))
        for i in range(2):
            W.put(E('k%d' % i), index=C(i), inputs=arr(), inputs_length=ZERO, outputs=arr(), outputs_length=ZERO)

        def lk(t, k):
            if t == E('visits'):
                return V if k == node else K if k == ctype else None
            return ZERO if t[0] == 'new' else None
        W.lk = lk
        old = W.calls
        W.calls = lambda name, a, old=old: ZERO if name == 'QUpop' else old(name, a)

        def ok(s, r, W=W, g=g, nv=nv):
            made = calls(s, 'ASTvisit')
            if len(made) != nv or r != made[0][2]:
                return False
            queues = {}
            for i, a, q in calls(s, 'QUinsert'):
                isv = W.truth(W.field(a[1], 'is_visit', s))
                if isv is None:
                    return False
                x = W.field(a[1], 'visit' if isv else 'node', s)
                queues.setdefault(a[0], []).append((W.field(x, 'child', s), W.field(x, 'visit', s)) if isv else x)
            marks = {}
            for i, a, q in calls(s, 'HTinsert'):
                marks.setdefault(a[0], set()).add(a[1])
            qs = [q[2] for q in calls(s, 'QUcreate')]
            if len(qs) != nv:
                return False
            allin = {g[x] for i in range(nv) for x in ins[i]}
            if not any(allin <= m for m in marks.values()):
                return False
            for i, (t, a, v) in enumerate(made):
                q = queues.get(qs[i], [])
                for want in outs[i]:
                    if q.count(g[want]) != 1:
                        return False
                kids = {(child, E('k0')), (child, E('k1'))}
                if i == nv - 1 and not kids <= set(x for x in q if x[0] != 'el' or len(x) == 2):
                    return False
                if a[3] != node or a[4] != C(i + 1):
                    return False
                for lst, want in ((a[1], ins[i]), (a[2], outs[i])):
                    got, n = [], 0
                    while lst != ZERO and n < 5:
                        if lst[0] != 'new':
                            return False
                        ref = W.field(lst, ('arg', 0), s)
                        if W.truth(W.field(ref, 'attribute_reference.inode', s)) is True:
                            return False
                        got.append(W.field(ref, 'attribute_reference.reference', s))
                        lst, n = W.field(lst, 'visit_arg_list.next', s), n + 1
                        if lst[0] == 'fld':
                            lst = ZERO
                    if sorted(map(str, got)) != sorted(str(E(x)) for x in want):
                        return False
                nxt = s.heap.get((v, 'visit.next'), ZERO)
                if nxt != (made[i + 1][2] if i + 1 < nv else ZERO):
                    return False
                if s.tabs.get((E('mdata'), v)) != E('v%d' % i):
                    return False
            return True
        X.judge('visits', f, 'a node with %d visit%s and a child with two' % (nv, 's' if nv > 1 else ''), W, ps, ok,
                'the visits of the node are not made one after the other, numbered from 1, each with its inputs and outputs, what it gives queued, and every visit of the child in the last one')


def stubs(X):
    f, ps = X.get('add_visit_stub', 3)
    g, gps = X.get('fill_visit_stubs', 3)
    if f is None or g is None:
        return
    tab, v, w = E('stubs'), E('v'), E('w')
    inst = 'add_visit_stub, fill_visit_stubs: two visits in a row, made for several places'
    X.R.ob('link', inst)
    outs = []
    try:
        W = AG(X, (tab, v, E('s1')))
        W.lk = lambda t, k: ZERO if t == tab else {E('vis1'): v, E('vis2'): w}.get(k) if t == E('mdata') else None
        W.put(E('node'), inode__visit=E('vis1'), nodetype=C(X.num('NT_INODE') or 0))
        W.put(E('vis1'), visit__next=E('vis2'))
        W.put(E('vis2'), visit__next=ZERO)
        S = [State()]
        for args in ((tab, v, E('s1')), (tab, w, E('s2')), (tab, v, E('s3'))):
            W.args = args
            S = [t for s in S for p in ps for t in W.run(p.ev, s)]
        W.args = (E('node'), E('mdata'), tab)
        S = [t for s in S for p in gps for t in W.run(p.ev, s)]
        outs = [(s, None) for s in S]
    except Undecided as u:
        X.R.notes.setdefault('not decided', []).append('%s: %s' % (inst, u))
        return
    X.verdict('link', g, inst, outs, lambda s, r: [s.heap.get((E(x), 'visit_sequence_visit.visit')) for x in ('s1', 's2', 's3')] == [E('vis1'), E('vis2'), E('vis1')],
              'a place where a visit is called is not linked to that visit')


def alternatives(X):
    f, ps = X.get('add_visit_sequence_visit_nodeset_rec', 7)
    visit_n, dummy_n = C(X.num('NT_VISIT_SEQUENCE_VISIT') or 0), C(X.num('NT_VISIT_SEQUENCE_DUMMY') or 0)
    if f is not None:
        ex, mem, child = E('expr'), E('member'), E('child')
        import itertools
        for index, length, l, r_ in itertools.product((0, 1), (0, 1, 2), (0, 1), (0, 1)):
            W = AG(X, (E('tail'), E('st'), E('visits'), E('stubs'), ex, child, E('ov')))
            W.put(E('ov'), index=C(index))
            W.put(ex, nodetype=C(X.num('NT_SETLITERAL') or 0), setliteral__reference=E('ref'), setliteral__left=E('left'), setliteral__right=E('right'))
            W.st[E('ref')] = mem
            W.put(E('V'), length=C(length), visits=('arr', tuple(E('m%d' % i) for i in range(length))))
            W.lk = lambda t, k: E('V') if t == E('visits') and k == mem else None
            for x in ('L', 'LT', 'R', 'RT'):
                W.put(E(x), nodetype=visit_n)
            old = W.calls

            def prim(name, a, old=old, l=l, r_=r_):
                if name == f.name:
                    return (E('L') if l else ZERO) if a[4] == E('left') else (E('R') if r_ else ZERO)
                return ONE if name == 'add_visit_stub' else old(name, a)
            W.calls = prim

            def at(w, t, s, l=l, r_=r_):
                if t[0] == 'call' and str(t[1]).startswith(f.name + '%out'):
                    rec = [a[4] for i, a, q in calls(s, f.name)]
                    # the out value of a call is told apart by the line of the call
                    sides = outsides.get(t[2])
                    return (E('LT') if l else ZERO) if sides == 'left' else (E('RT') if r_ else ZERO) if sides == 'right' else None
                return None
            outsides = {}
            for p in ps:
                for e in p.ev:
                    if e[0] == 'call' and e[1] == ('fn', f.name) and len(e) > 4:
                        fl = [x[2] for x in subterms(e[2][4]) if isinstance(x, tuple) and x and x[0] == 'fld']
                        outsides[e[4][2]] = 'left' if 'setliteral.left' in fl else 'right' if 'setliteral.right' in fl else None
            W.atomf = at
            has = index < length

            def ok(s, r, W=W, has=has, l=l, r_=r_, index=index):
                v, d = calls(s, 'ASTvisit_sequence_visit'), calls(s, 'ASTvisit_sequence_dummy')
                if len(v) + len(d) != 1 or bool(v) != has:
                    return False
                q = (v or d)[0]
                if r != q[2] or q[1][0] != (child if has else mem):
                    return False
                st = [(a[1], a[2]) for i, a, t in calls(s, 'add_visit_stub')]
                if st != ([(E('m%d' % index), r)] if has else []):
                    return False
                alt = 'visit_sequence_visit.alt' if has else 'visit_sequence_dummy.alt'
                a1 = s.heap.get((r, alt), ZERO)
                lt = s.heap.get((E('LT'), 'visit_sequence_visit.alt'), ZERO)
                if l:
                    good = a1 == E('L') and lt == (E('R') if r_ else ZERO)
                else:
                    good = a1 == (E('R') if r_ else ZERO)
                tail = s.heap.get((E('tail'), '*'))
                return good and tail == (E('RT') if r_ else E('LT') if l else r)
            X.judge('member', f, 'a member with %d visits for visit %d of the nodeset, %s before and %s after it in the set' % (length, index, 'others' if l else 'none', 'others' if r_ else 'none'), W, ps, ok,
                    'is not given its own visit (or the entry that does nothing), with the alternatives for the other members all kept')
        W = AG(X, (E('tail'), E('st'), E('visits'), E('stubs'), ZERO, child, E('ov')))
        X.judge('member', f, 'no member', W, ps, lambda s, r: r == ZERO and not any(t[0] in ('set', 'call') for t in s.trace), 'an entry is made')
    f, ps = X.get('add_visit_sequence_visit_nodeset', 6)
    if f is None:
        return
    for kinds in ('v', 'd', 'dv', 'vd', 'ddv', 'dvd', 'dvv', 'vdv', 'ddvdv', 'dd'):
        W = AG(X, (E('st'), E('visits'), E('stubs'), E('expr'), E('child'), E('ov')))
        els = [E('e%d' % i) for i in range(len(kinds))]
        for i, (e, k) in enumerate(zip(els, kinds)):
            W.put(e, nodetype=visit_n if k == 'v' else dummy_n)
            W.fields[(e, 'visit_sequence_visit.alt' if k == 'v' else 'visit_sequence_dummy.alt')] = els[i + 1] if i + 1 < len(els) else ZERO
        old = W.calls
        W.calls = lambda name, a, old=old, els=els: els[0] if name == 'add_visit_sequence_visit_nodeset_rec' else old(name, a)

        def ok(s, r, W=W, els=els, kinds=kinds):
            if 'v' not in kinds:
                return True
            seen, x = [], r
            while x is not None and x[0] == 'el' and len(seen) <= len(els):
                seen.append(x)
                k = kinds[els.index(x)]
                x = W.field(x, 'visit_sequence_visit.alt' if k == 'v' else 'visit_sequence_dummy.alt', s)
            return len(seen) == len(els) and set(seen) == set(els) and kinds[els.index(seen[0])] == 'v'
        X.judge('member', f, 'alternatives %s' % kinds, W, ps, ok, 'an alternative is lost or a dummy comes first')


def glue(X):
    f, ps = main_paths(X)
    if f is None:
        return
    W, x, n = main_world(X, 0)
    y = E('inode2')
    W.put(x, inode__next=y)
    W.put(y, inode__next=ZERO)
    old = W.calls
    W.calls = lambda name, a: E(('g', a[0])) if name == 'generate_graph_node' else old(name, a)
    oat = W.atomf

    def at(w, t, s):
        if t[0] == 'call' and '%out' in str(t[1]) and t[1].startswith('combine_edgelists'):
            return ZERO
        return oat(w, t, s)
    W.atomf = at

    def ok(s, r):
        part, col, emp, gen, fill = [calls(s, q) for q in ('partition_nodes', 'collect_visits', 'generate_empty_visits', 'generate_visits', 'fill_visit_stubs')]
        gr = {x: [E(('g', x))], y: [E(('g', y))], n: [E('gn1'), E('gn2')]}
        if {a[1] for i, a, q in part} != {x, y, n} or len(part) != 3 or any(a[0] not in gr[a[1]] for i, a, q in part):
            return False
        if {a[1] for i, a, q in col} != {x, y, n} or len(col) != 3 or any(a[0] not in gr[a[1]] for i, a, q in col):
            return False
        T = {a[3] for i, a, q in col}
        if len(T) != 1 or any(s.tabs.get((next(iter(T)), a[1])) != q for i, a, q in part):
            return False
        if [a[1] for i, a, q in gen] != [x, y] or any(a[0] not in gr[a[1]] for i, a, q in gen):
            return False
        V, M, S = [{a[k] for i, a, q in gen} for k in (3, 4, 5)]
        if len(V) != 1 or len(M) != 1 or len(S) != 1 or any(s.tabs.get((next(iter(V)), a[1])) != q for i, a, q in col):
            return False
        if len(emp) != 1 or emp[0][1][:2] != (x, n) or emp[0][1][3] not in V or any(i > emp[0][0] for i, a, q in col) or any(i < emp[0][0] for i, a, q in gen):
            return False
        if any(s.heap.get((a[1], 'inode.visit')) != q for i, a, q in gen):
            return False
        return {a[0] for i, a, q in fill} == {x, y} and all(a[1] in M and a[2] in S for i, a, q in fill) and min(i for i, a, q in fill) > max(i for i, a, q in gen)
    X.judge('whole', f, 'two nodes and a nodeset', W, ps, ok,
            'not every node and nodeset is partitioned and has its visits collected, or the visits are generated and linked from other data or in another order')


def c40(R, P):
    R.rule('visit', 'each inherited (synthesized) attribute of a type is an input (output) of exactly one of its visits, not before what it depends on; an input that needs an output comes in a later visit')
    R.rule('empty', 'a node without visits of its own gets an empty one when a child (of a nodeset, when a member) has visits')
    R.rule('visits', 'the visits of a node are made in order, with their inputs and outputs; everything a visit gives is queued in it, and all visits of the children in the last one')
    R.rule('member', 'in a visit of a nodeset each member is given its own visit, or an entry that does nothing')
    R.rule('link', 'each place where a visit is called is linked to that visit')
    R.rule('whole', 'every node and nodeset passes through all steps, with its own data')
    X = Sites(R, P)
    partition(X)
    empty(X)
    visits(X)
    alternatives(X)
    stubs(X)
    glue(X)
