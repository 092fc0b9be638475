"""Rules about the runtime library copra (traversal stack, dispatch, phase driver)."""
from absint import Engine, Monitor, State, ZERO, ONE, subterms
from cfg import cfg_of
from program import AnalysisBroken, rel
import program

G = ('G',)
DC = 'copra/src/dynamic_core.c'
PD = 'copra/src/phase_driver.c'


def enumval(P, name):
    if name not in P.enum_of:
        raise AnalysisBroken('enum constant %s not found' % name)
    return P.enum_of[name][1]


def show(v, d=0):
    if not isinstance(v, tuple):
        return str(v)
    k = v[0]
    if k == 'c':
        return str(v[1])
    if k == 's':
        return repr(v[1])
    if k == 'in':
        return v[1]
    if k == 'fn':
        return v[1]
    if k == 'fld':
        f = v[2] if isinstance(v[2], str) else '[%s]' % show(v[2][1])
        if v[1] == G:
            return f
        b = show(v[1])
        if isinstance(v[2], tuple):
            return b + f
        return b + '->' + f
    if k == '&':
        f = v[2] if isinstance(v[2], str) else '[%s]' % show(v[2][1])
        return '&' + (f if v[1] == G else show(v[1]) + '.' + f)
    if k == '&v':
        return '&' + v[2].split('#')[0]
    if k == 'call':
        return '%s(%s)' % (v[1], ', '.join(show(a) for a in v[3]))
    if k == 'phi':
        return v[2].split('#')[0] + "'"
    if k == 'op':
        if len(v) == 3:
            return v[1] + show(v[2])
        return '(%s %s %s)' % (show(v[2]), v[1], show(v[3]))
    if k == 'undef':
        return 'undef(%s)' % v[2].split('#')[0]
    return '?'


def noep(v):
    """forget epochs in a value"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'fld':
        return ('fld', noep(v[1]), noep(v[2]) if isinstance(v[2], tuple) else v[2])
    return tuple(noep(x) if isinstance(x, tuple) else x for x in v)


def gl(name):
    return ('fld', G, name)


# ---------------------------------------------------------------- C01 / C02
class StackMon(Monitor):
    """log of events: ('init',X) ('fin',X) ('free',X) ('disp',cv,arg)"""
    def __init__(self, P):
        self.P = P
        self.uaf = []

    def call(self, eng, st, fr, node, name, cv, argv):
        if name == 'MEMfree':
            st.mon = st.mon + (('free', argv[0]),)
            return [(st, ('c', 0))]
        if name is None:
            n = noep(cv)
            st.mon = st.mon + (('ind', n, tuple(argv), st.heap.get((G, 'current_traversal'))),)
            rv = ('call', '?', (fr.id, node.id), (cv,) + tuple(argv))
            return [(st, rv)]
        return None

    def read_field(self, st, b, f):
        if b[0] not in ('G', '&v', '&') and any(e[0] == 'free' and e[1] == b for e in st.mon):
            self.uaf.append((b, f))
        return None

    def roots(self, mon):
        for e in mon:
            for x in e[1:]:
                if isinstance(x, tuple):
                    yield x


def find_stack_global(P):
    f = P.need('TRAVgetCurrent')
    eng = Engine(P, Monitor(), lambda e, c, n: 'inline')
    ex = eng.run(f, ())
    vals = set(noep(v) for _, v in ex)
    if len(vals) != 1:
        raise AnalysisBroken('TRAVgetCurrent: unexpected shape')
    v = vals.pop()
    if v[0] != 'fld' or v[1] != G:
        raise AnalysisBroken('TRAVgetCurrent does not return a global')
    return v[2]


def inl_copra(e, c, n):
    if n in ('MEMmalloc', 'MEMfree', 'fprintf', 'printf', 'MEMrealloc', 'abort', 'exit', 'err'):
        return 'opaque'
    return 'inline'


def c01(R, P):
    """Traversal stack discipline."""
    R.rule('T1', 'TRAVpush: fresh record, typed, linked to previous top, made current, own initialiser called once on it')
    R.rule('T2', 'TRAVpop: previous top restored, own finaliser called once before the single free, no use after free')
    R.rule('T3', 'TRAVstart/CCNcopy/CCNfree: the stack on return is the stack on entry, init/dispatch/fin nested in order')
    R.rule('T4', 'only push/pop write the stack top')
    R.rule('T5', 'initialiser/finaliser tables: every slot of every generated table filled, indexed by the same enum')
    top = find_stack_global(P)
    # who may write
    writers = set()
    for f in P.all_funcs():
        for n in cfg_of(f).nodes:
            if n.kind == 'asg':
                p = n.data[0]
                if p == ('glob', top):
                    writers.add(f.name)
                    R.func(f)
    import callgraph
    cg = callgraph.build(P)
    for w in sorted(writers):
        f = P.need(w)
        R.check(rel(f.file) == DC, 'T4', w, w, 'stack top written outside the runtime core', f)

    def run(name, args=None):
        f = P.need(name)
        R.func(f)
        m = StackMon(P)
        eng = Engine(P, m, inl_copra, maxdepth=6)
        ex = eng.run(f, (), args)
        return f, m, eng, ex
    # push
    f, m, eng, ex = run('TRAVpush')
    R.check(len(ex) >= 1, 'T1', 'TRAVpush returns', 'TRAVpush', 'TRAVpush never returns', f)
    for st, _ in ex:
        cur = st.heap.get((G, top))
        ok = cur is not None and cur[0] == 'call' and cur[1] in ('MEMmalloc', 'malloc', 'calloc')
        if not R.check(ok, 'T1', 'fresh', 'TRAVpush', 'on return the current traversal is not a freshly allocated record', f):
            continue
        R.check(st.heap.get((cur, 'trav_type')) == ('in', f.params[0]['n'].split('#')[0]), 'T1', 'type', 'TRAVpush',
                'the new record does not carry the requested traversal type', f)
        pv = st.heap.get((cur, 'prev'))
        R.check(pv is not None and noep(pv) == gl(top), 'T1', 'prev', 'TRAVpush',
                'the new record is not linked to the enclosing traversal', f)
        inits = [e for e in st.mon if e[0] == 'ind' and 'trav_data_init_vtable' in str(e[1])]
        tin = ('in', f.params[0]['n'].split('#')[0])
        want = ('fld', gl('trav_data_init_vtable'), ('[]', tin))
        R.check(len(inits) == 1 and inits[0][2][:1] == (cur,) and inits[0][1] == want,
                'T1', 'init', 'TRAVpush', 'the data initialiser of the requested traversal is not called exactly once on the new record', f)
        R.check(not [e for e in st.mon if e[0] == 'free'], 'T1', 'nofree', 'TRAVpush', 'frees during push', f)
    # pop
    f, m, eng, ex = run('TRAVpop')
    R.check(len(ex) >= 1, 'T2', 'returns', 'TRAVpop', 'TRAVpop never returns', f)
    C = gl(top)
    for st, _ in ex:
        if st.truth(('fld', G, top, 0)) is False:
            R.viol('T2', 'TRAVpop', 'pop of an empty stack returns normally', f)
            continue
        cur = st.heap.get((G, top))
        R.check(cur is not None and noep(cur) == ('fld', C, 'prev'), 'T2', 'prev', 'TRAVpop',
                'the enclosing traversal is not restored (current is %s)' % (show(cur) if cur else 'unchanged'), f)
        fins = [i for i, e in enumerate(st.mon) if e[0] == 'ind']
        frees = [i for i, e in enumerate(st.mon) if e[0] == 'free']
        want = ('fld', gl('trav_data_free_vtable'), ('[]', ('fld', C, 'trav_type')))
        ok = len(fins) == 1 and noep(st.mon[fins[0]][1]) == want and noep(st.mon[fins[0]][2][0]) == C
        R.check(ok, 'T2', 'fin', 'TRAVpop', 'the finaliser of the ending traversal is not called exactly once on its own record', f)
        ok = len(frees) == 1 and noep(st.mon[frees[0]][1]) == C
        R.check(ok, 'T2', 'free', 'TRAVpop', 'the ending record is not freed exactly once', f)
        if fins and frees:
            R.check(fins[0] < frees[0], 'T2', 'order', 'TRAVpop', 'record freed before its finaliser runs', f)
    R.check(not m.uaf, 'T2', 'uaf', 'TRAVpop', 'record used after it was freed', f)
    # start & friends: find every runtime function that pushes
    tops = []
    inner = cg.reach(P.need('TRAVpush')) | cg.reach(P.need('TRAVpop'))
    for f in P.funcs_in('copra/'):
        r = cg.reach(f)
        if any(g.name in writers for g in r) and not f.static and f not in inner and rel(f.file) == DC:
            tops.append(f)
    for f in sorted(tops, key=lambda x: x.name):
        f, m, eng, ex = run(f.name)
        for st, v in ex:
            cur = st.heap.get((G, top))
            R.check(cur is None or noep(cur) == C, 'T3', f.name + ' balance', f.name,
                    'the traversal stack on return differs from the stack on entry (%s)' % (show(cur) if cur else ''), f)
            ev = [('init' if 'init_vtable' in str(e[1]) else 'fin' if 'free_vtable' in str(e[1]) else 'disp') if e[0] == 'ind' else 'free' for e in st.mon]
            R.check(ev in (['init', 'disp', 'fin', 'free'], ['init', 'fin', 'free']), 'T3', f.name + ' order', f.name,
                    'events are %s, expected init, dispatch, finalise, free' % ev, f)
        R.check(len(ex) >= 1, 'T3', f.name, f.name, 'never returns', f)
        R.check(not m.uaf, 'T3', f.name + ' uaf', f.name, 'record used after it was freed', f)
    R.need('T3', 6)
    check_trav_data(R, P)


def check_trav_data(R, P):
    """generated data constructor/destructor pairs of the self-hosted compiler"""
    ini = P.globals.get('trav_data_init_vtable')
    fin = P.globals.get('trav_data_free_vtable')
    if not ini or not fin or 'init' not in ini or 'init' not in fin:
        raise AnalysisBroken('traversal data tables not found')
    n = enumval(P, '_TRAV_SIZE')
    for t in (ini, fin):
        el = t['init'].get('elems', [])
        R.check(len(el) == n and all(fname(e) for e in el), 'T5', t['n'], t['n'],
                'table %s does not have one function per traversal' % t['n'])
    names = {v: k for k, v in P.enums['ccn_traversal_type']}
    for i, (a, b) in enumerate(zip(ini['init']['elems'], fin['init']['elems'])):
        a, b = fname(a), fname(b)
        if a is None or b is None:
            continue
        tn = names.get(i, str(i))
        fa, fb = P.resolve(ini.get('tu'), a), P.resolve(fin.get('tu'), b)
        # a function that allocates the data record must be paired with one that releases it
        al = fa is not None and allocs_field(fa)
        fr = fb is not None and frees_field(fb)
        R.check(bool(al) == bool(fr), 'T5', tn, 'traversal ' + tn,
                'initialiser %s and finaliser %s disagree about the data record' % (a, b), fa)


def allocs_field(f):
    r = set()
    g = cfg_of(f)
    tmps = set(n.data[0] for n in g.nodes if n.kind == 'call' and n.data[1] == ('fn', 'MEMmalloc') and n.data[0])
    for n in g.nodes:
        if n.kind == 'asg' and n.data[0][0] == 'fld' and (n.data[1] in tmps):
            r.add(n.data[0][2])
    return r


def frees_field(f):
    r = set()
    for n in cfg_of(f).nodes:
        if n.kind == 'call' and n.data[1] == ('fn', 'MEMfree') and n.data[2][0][0] == 'fld':
            r.add(n.data[2][0][2])
    return r


class DispMon(Monitor):
    """C02: dispatch bookkeeping for TRAVchildren"""
    def __init__(self):
        self.bad = []
        self.stores = 0

    def call(self, eng, st, fr, node, name, cv, argv):
        if name is None:
            rv = ('call', 'DISPATCH', (fr.id, node.id), (cv,) + tuple(argv))
            d = st.mon
            st.mon = d + (('disp', argv[0]),) if len(d) < 6 else d
            return [(st, rv)]
        return None

    def roots(self, mon):
        for e in mon:
            for x in e[1:]:
                if isinstance(x, tuple):
                    yield x

    def widen(self, mon, ren):
        return ()


def c02(R, P):
    R.rule('D1', 'TRAVdo: exactly one indirect call, through the slot of (current traversal type, node type), on the node; its result is returned')
    R.rule('D2', 'TRAVopt: NULL is returned untouched without dispatch, otherwise as TRAVdo')
    R.rule('D3', 'TRAVchildren: for i = 0 .. number of children - 1 in order, children[i] is dispatched (if any) and replaced by the result of that very dispatch')
    R.rule('D4', 'PASSstart: exactly the function registered for the pass, on the given tree, result returned')
    R.rule('D5', 'TRAVnop returns its argument; error handlers do not return')
    R.rule('D6', 'generated dispatch tables of the compiler itself: rectangular, one function per node type, own handlers in the right slot')
    top = find_stack_global(P)
    cur = gl(top)

    def run(name, args=None):
        f = P.need(name)
        R.func(f)
        eng = Engine(P, DispMon(), inl_copra, maxdepth=6)
        return f, eng.run(f, (), args)

    def is_dispatch(v, arg):
        """v is the result of dispatching arg"""
        if v[0] != 'call' or v[1] != 'DISPATCH':
            return False
        cv = noep(v[3][0])
        ok = cv[0] == 'fld' and cv[2] == ('[]', ('fld', noep(arg), 'nodetype')) and \
            cv[1] == ('fld', gl('ccn_trav_vtable'), ('[]', ('fld', cur, 'trav_type')))
        return ok and noep(v[3][1]) == noep(arg) and len(v[3]) == 2
    f, ex = run('TRAVdo')
    a = ('in', f.params[0]['n'].split('#')[0])
    for st, v in ex:
        R.check(is_dispatch(v, a) and len(st.mon) == 1, 'D1', 'TRAVdo', 'TRAVdo',
                'returns %s instead of the registered handler\'s result' % show(v), f)
    R.check(len(ex) > 0, 'D1', 'TRAVdo returns', 'TRAVdo', 'never returns', f)
    f, ex = run('TRAVopt')
    a = ('in', f.params[0]['n'].split('#')[0])
    nul = nonnul = 0
    for st, v in ex:
        if st.truth(a) is False:
            nul += 1
            R.check((v == a or v == ZERO) and not st.mon, 'D2', 'NULL', 'TRAVopt', 'NULL is not returned untouched', f)
        elif st.truth(a) is True:
            nonnul += 1
            R.check(is_dispatch(v, a) and len(st.mon) == 1, 'D2', 'node', 'TRAVopt',
                    'a node is not dispatched exactly once with its result returned', f)
        else:
            R.viol('D2', 'TRAVopt', 'a path does not distinguish NULL from a node', f)
    R.check(nul and nonnul, 'D2', 'cases', 'TRAVopt', 'a case is missing', f)
    # TRAVchildren
    f = P.need('TRAVchildren')
    children_rule(R, P, f, is_dispatch)
    f, ex = run('PASSstart')
    t, ty = ('in', f.params[0]['n'].split('#')[0]), ('in', f.params[1]['n'].split('#')[0])
    for st, v in ex:
        ok = v[0] == 'call' and v[1] == 'DISPATCH' and noep(v[3][0]) == ('fld', gl('ccn_pass_vtable'), ('[]', ty)) and v[3][1] == t and len(st.mon) == 1
        R.check(ok, 'D4', 'PASSstart', 'PASSstart', 'does not run exactly the registered pass on the tree and return its result', f)
    R.check(len(ex) > 0, 'D4', 'PASSstart', 'PASSstart', 'never returns', f)
    f, ex = run('TRAVnop')
    for st, v in ex:
        R.check(v == ('in', f.params[0]['n'].split('#')[0]) and not st.mon, 'D5', 'TRAVnop', 'TRAVnop', 'does not return its argument', f)
    for n in ('TRAVerror', 'PASSerror'):
        f, ex = run(n)
        R.check(not ex, 'D5', n, n, 'an invalid dispatch continues instead of stopping', f)
    f, ex = run('TRAVstart')
    a = ('in', f.params[0]['n'].split('#')[0])
    for st, v in ex:
        if st.truth(a) is False:
            R.check(v == a or v == ZERO, 'D2', 'TRAVstart NULL', 'TRAVstart', 'empty tree not returned untouched', f)
        else:
            ok = v[0] == 'call' and v[1] == 'DISPATCH' and v[3][1] == a
            R.check(ok, 'D1', 'TRAVstart', 'TRAVstart', 'the result of the traversal is not returned', f)
    for nm, const in (('CCNcopy', 'TRAV_cpy'), ('CCNfree', 'TRAV_free')):
        f = P.need(nm)
        R.func(f)
        eng = Engine(P, Monitor(), lambda e, c, n: 'opaque' if n == 'TRAVstart' else inl_copra(e, c, n))
        for st, v in eng.run(f, ()):
            a = ('in', f.params[0]['n'].split('#')[0])
            ok = v[0] == 'call' and v[1] == 'TRAVstart' and v[3] == (a, ('c', enumval(P, const)))
            R.check(ok, 'D1', nm, nm, 'does not start the %s traversal on its argument and return the result' % const, f)
    table_rules(R, P)


def children_rule(R, P, f, is_dispatch):
    """sequential complete walk over the children array"""
    a = ('in', f.params[0]['n'].split('#')[0])

    class M(Monitor):
        # mon: (frozenset of acceptable next indices, )
        def __init__(s):
            s.n = 0

        def widen(s, mon, ren):
            nx, pend = mon
            new = set()
            for v in nx:
                new.update(y for (x, y) in ren if x == v)
            return (frozenset(new or nx), pend)

        def branch(s, eng, st, fr, node, val, taken):
            v = val
            while v[0] == 'op' and v[1] == '!':
                v, taken = v[2], not taken
            if v[0] == 'op' and v[1] == '==' and v[3] == ZERO:
                v, taken = v[2], not taken
            nx, pend = st.mon
            if not taken and v[0] == 'fld' and noep(v[1]) == ('fld', a, 'children') and isinstance(v[2], tuple) \
                    and v[2][1] in nx and pend == 0:
                # an absent child may be left alone
                return (nx | frozenset([eng.binop(st, '+', v[2][1], ONE)]), 0)
            return None

        def roots(s, mon):
            return mon[0]

        def call(s, eng, st, fr, node, name, cv, argv):
            if name is None:
                rv = ('call', 'DISPATCH', (fr.id, node.id), (cv,) + tuple(argv))
                st.mon = (st.mon[0], st.mon[1] + 1)
                return [(st, rv)]
            return None

        def store(s, eng, st, fr, node, loc, val):
            if loc[0] != 'L':
                return None
            b, fl = loc[1], loc[2]
            if not (isinstance(fl, tuple) and fl[0] == '[]'):
                R.viol('D3', f.name, 'writes %s of the node' % fl, f, node.line)
                return None
            base = noep(b)
            if base != ('fld', a, 'children'):
                R.viol('D3', f.name, 'writes into %s' % show(b), f, node.line)
                return None
            idx = fl[1]
            s.n += 1
            nx, pend = st.mon
            if idx not in nx:
                R.viol('D3', f.name, 'children are not visited in order 0,1,2,...: index %s when %s was next' % (show(idx), ' or '.join(show(x) for x in nx)), f, node.line)
            old = noep(('fld', b, fl, 0))
            nv = val
            ok = False
            if is_dispatch(nv, nv[3][1]) if nv[0] == 'call' and nv[1] == 'DISPATCH' and len(nv[3]) == 2 else False:
                ok = noep(nv[3][1]) == old and pend == 1
            elif noep(nv) == old or nv == ZERO:
                # untouched: must be the NULL case
                ok = st.truth(nv) is False and pend == 0
            if not ok:
                R.viol('D3', f.name, 'children[%s] is set to %s' % (show(idx), show(nv)), f, node.line)
            R.ob('D3', 'children[%s] := result of dispatching it' % show(idx))
            return (frozenset([eng.binop(st, '+', idx, ONE)]), 0)
    m = M()
    R.func(f)
    eng = Engine(P, m, inl_copra, maxdepth=6)
    ex = eng.run(f, (frozenset([ZERO]), 0))
    R.check(m.n > 0, 'D3', 'stores', f.name, 'never stores a result into the children array', f)
    for st, v in ex:
        R.check(v == a, 'D3', 'returns node', f.name, 'does not return the node itself', f)
        nc = ('fld', a, 'num_children', 0)
        # loop left only when no child remains
        done = False
        for nx in st.mon[0]:
            t = st.truth(('op', '<', nx, nc))
            e = st.truth(('op', '==', nx, nc))
            e2 = st.truth(('op', '==', nc, nx))
            if t is False or e is True or e2 is True:
                done = True
            if nx == ZERO and st.known(nc) == ZERO:
                done = True
        R.check(done, 'D3', 'all children', f.name, 'can return before every child was visited (next index %s)' % ' or '.join(show(x) for x in st.mon[0]), f)
    R.check(len(ex) > 0, 'D3', 'returns', f.name, 'never returns', f)


def fname(e):
    """name of the function an initialiser element denotes"""
    while e is not None and e['k'] in ('un', 'cast'):
        e = e['a']
    return e['n'] if e is not None and e['k'] == 'fn' else None


def table_rules(R, P):
    trav_t = P.globals.get('ccn_trav_vtable')
    if not trav_t or 'init' not in trav_t:
        raise AnalysisBroken('ccn_trav_vtable not found')
    ntr, nnt = enumval(P, '_TRAV_SIZE'), enumval(P, '_NT_SIZE')
    nts = {v: k for k, v in P.enums['ccn_nodetype']}
    rows = trav_t['init']['elems']
    R.check(len(rows) == ntr and all(rows), 'D6', 'ccn_trav_vtable', 'ccn_trav_vtable', 'not one row per traversal')
    for i, r in enumerate(rows):
        if not r or r['k'] != 'var':
            R.viol('D6', 'ccn_trav_vtable', 'row %d is not a table' % i)
            continue
        t = P.globals.get(r['n']) or P.find_static_global(r['n'])
        el = t['init']['elems'] if t and 'init' in t else []
        names = [fname(e) for e in el]
        R.check(len(el) == nnt and all(names), 'D6', r['n'], r['n'],
                'dispatch table %s does not have one handler per node type' % r['n'])
        for j, n in enumerate(names):
            if n in ('TRAVnop', 'TRAVchildren', 'TRAVerror') or n is None:
                continue
            want = nts[j][3:].lower()
            R.check(n.lower().endswith(want), 'D6', '%s[%d]' % (r['n'], j), r['n'],
                    'slot of node type %s holds handler %s' % (nts[j], n))


# ------------------------------------------------------------- phase driver
class PhaseDriver:
    """Runs the abstract interpreter over the whole of phase_driver.c from the
    dispatch entry point.  Recursive dispatch is an opaque event."""

    FIELDS_BY_USER = None

    def __init__(self, P):
        self.P = P
        self.disp = P.need('CCNdispatchAction')
        fs = P.funcs_in(PD)
        self.funcs = fs
        # global driver record: the object whose fields CCNcycleNotify & co write
        self.glob = None
        self.role = {}
        for api, role in (('CCNcycleNotify', 'fixed'), ('CCNerrorAction', 'aerr'), ('CCNerrorPhase', 'perr'),
                          ('CCNsetCycles', 'max'), ('CCNsetBreakpoint', 'bp'), ('CCNsetBreakpointWithID', 'bpid'),
                          ('CCNsetVerbosity', 'verb'), ('CCNsetTreeCheck', 'tree')):
            f = P.need(api)
            self.role[role], self.role[role + '_val'] = self.apistore(f)
            self.role[role + '_fn'] = f
        f = P.need('CCNgetCurrentActionId')
        r = set(noep(v) for _, v in Engine(P, Monitor(), inl_copra).run(f, ()))
        if len(r) != 1 or list(r)[0][0] != 'fld':
            raise AnalysisBroken('CCNgetCurrentActionId: unexpected shape')
        r = r.pop()
        self.role['aid'] = (r[1], r[2])
        # what user code running inside an action may change: whatever the other API functions store
        self.userw = set()
        cg = callgraph_build(P)
        for f in fs:
            if f.static or self.disp in cg.reach(f):
                continue
            for h in cg.reach(f):
                for n in cfg_of(h).nodes if h in fs else ():
                    if n.kind == 'asg' and n.data[0][0] in ('fld', 'glob'):
                        self.userw.add(self.fieldkey(n.data[0]))

    def apistore(self, f):
        """the field of the driver state a setter of the API stores to on all its paths, and the value:
        ('int', c), ('var', parameter) or the value itself"""
        keys, vals = set(), set()
        for st, _ in Engine(self.P, Monitor(), inl_copra).run(f, ()):
            w = {k: v for k, v in st.heap.items() if k[0] == G or k[0][0] == '&' and k[0][1] == G}
            keys.add(frozenset(w))
            vals |= set(noep(v) for v in w.values())
        if len(keys) != 1 or len(list(keys)[0]) != 1:
            raise AnalysisBroken('%s: expected exactly one store' % f.name)
        v = vals.pop() if len(vals) == 1 else ('?',)
        if v[0] == 'c':
            v = ('int', v[1])
        elif v[0] == 'in':
            v = ('var', [p['n'] for p in f.params if p['n'].split('#')[0] == v[1]][0])
        return list(list(keys)[0])[0], v

    def fieldkey(self, place):
        if place[0] == 'glob':
            return (G, place[1])
        if place[0] == 'fld' and place[1][0] == 'glob':
            return (('&', G, place[1][1]), place[2])
        raise AnalysisBroken('driver state is not a global')

    def read(self, st, role):
        b, f = self.role[role]
        v = st.heap.get((b, f))
        return v if v is not None else ('fld', b, f, st.ep.get(f, 0))

    def entry(self, role):
        b, f = self.role[role]
        return ('fld', b, f, 0)


def callgraph_build(P):
    import callgraph
    return callgraph.build(P)


class PDMon(Monitor):
    """monitor state: dict frozen as tuple of pairs"""

    def __init__(self, P, pd, R):
        self.P, self.pd, self.R = P, pd, R
        self.check_trav = enumval(P, 'TRAV_check')
        self.T = {n: enumval(P, n) for n in ('CCN_ACTION_PASS', 'CCN_ACTION_PHASE', 'CCN_ACTION_TRAVERSAL')}
        self.nul = enumval(P, 'CCNAC_ID_NULL')
        en = P.enum_of['CCN_ACTION_PASS'][0]
        self.alltypes = [('c', v) for _, v in P.enums[en]]
        self.gates = 0
        self.recs = 0
        self.skips = 0
        self.events = []
        self.viols = {}

    def get(self, mon, k, d=None):
        for a, b in mon:
            if a == k:
                return b
        return d

    def put(self, mon, **kw):
        d = dict(mon)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        return tuple(sorted(d.items(), key=lambda x: x[0]))

    def roots(self, mon):
        for r in ('perr', 'aid', 'tree', 'bpid'):
            yield self.pd.entry(r)
        for k, v in mon:
            if isinstance(v, tuple):
                yield v
            if isinstance(v, frozenset):
                for x in v:
                    if isinstance(x, tuple):
                        yield x

    def atype(self, st, act):
        """kind of the action if known (possibly by exclusion)"""
        v = ('fld', act, 'type', st.ep.get('type', 0))
        k = st.known(v)
        if k is None:
            f = st.facts.get(v)
            if f and f[0] == 'ne':
                left = [t for t in self.alltypes if t not in f[1]]
                if len(left) == 1:
                    return left[0]
        return k

    def bad(self, cls, msg, fr, node):
        self.viols.setdefault((cls, msg), (fr.func, node.line))

    def widen(self, mon, ren):
        d = dict(mon)
        for k in ('next', 'snext'):
            if k in d:
                new = set()
                for v in d[k]:
                    ys = [y for (x, y) in ren if x == v]
                    new.update(ys or [v])
                d[k] = frozenset(new)
        for k in ('sent', 'tree'):
            if k in d:
                ys = [y for (x, y) in ren if x == d[k]]
                if ys:
                    d[k] = ys[0]
        return tuple(sorted(d.items(), key=lambda x: x[0]))

    def havoc_user(self, eng, st, site, keep=()):
        for (b, f) in self.pd.userw:
            if (b, f) in keep:
                continue
            st.heap.pop((b, f), None)
            eng.bump(st, f, ('u',) + site)

    def tentry(self, val):
        """val is (table[i] == NULL) or table[i] -> (ix value, index)"""
        act = ('in', self.pd.disp.params[0]['n'].split('#')[0])
        table = ('fld', ('&', act, 'phase'), 'action_table')
        x = val
        if x[0] == 'op' and x[1] == '==' and len(x) == 4 and x[3] == ('c', self.nul):
            x = x[2]
        elif self.nul != 0 or x[0] != 'fld':
            return None
        n = noep(x)
        if n[0] == 'fld' and n[1] == table and isinstance(n[2], tuple):
            return x, x[2][1], val[0] == 'op'
        return None

    def branch(self, eng, st, fr, node, val, taken):
        pd = self.pd
        mon = st.mon
        v = val
        while v[0] == 'op' and v[1] == '!':
            v, taken = v[2], not taken
        act = ('in', pd.disp.params[0]['n'].split('#')[0])
        ph = ('&', act, 'phase')
        n = noep(v)
        ty = st.facts.get(('fld', act, 'type', st.ep.get('type', 0)))
        if ty and ty[0] == 'ne' and set(self.alltypes) <= set(ty[1]):
            return 'INFEASIBLE'     # the generated tables only contain the declared action kinds
        # breakpoint comparisons, remembered across joins
        bp, bid = pd.read(st, 'bp'), pd.read(st, 'bpid')
        nm = ('fld', act, 'name', st.ep.get('name', 0))
        start = eng.binop(st, '+', pd.entry('aid'), ONE)
        if not taken and (v == bp or v in (('call', 'STReqci', None, (bp, nm)), ('call', 'STReqci', None, (nm, bp)))):
            mon = self.put(mon, nb=1)
        if taken and v in (('op', '==', bp, ZERO),):
            mon = self.put(mon, nb=1)
        if not taken and (v == bid or v in (('op', '<', ZERO, bid), ('op', '==', bid, start), ('op', '==', start, bid))):
            mon = self.put(mon, ni=1)
        if taken and v in (('op', '==', bid, ZERO),):
            mon = self.put(mon, ni=1)
        if mon is not st.mon:
            return mon
        if n == ('fld', ph, 'is_cycle'):
            return self.put(mon, cyc=taken)
        if v == pd.read(st, 'fixed'):
            return self.put(mon, fx=taken) if v[0] != 'c' else self.put(mon, fxk=taken)
        if v == pd.read(st, 'perr') and not (v[0] == 'c' and taken):
            if self.get(mon, 'pk') is not None and self.get(mon, 'pk') != taken:
                return 'INFEASIBLE'
            return self.put(mon, pe=taken, pk=taken)
        if v[0] == 'op' and v[1] == '<' and v[3] == pd.read(st, 'max'):
            it = self.get(mon, 'it', 1)
            if it <= 2 and v[2] != ('c', it):
                self.bad('cycle', 'after iteration %d the iteration count compared with the maximum is %s' % (it, show(v[2])), fr, node)
            return self.put(mon, lt=taken)
        te = self.tentry(v)
        if te is not None and self.get(mon, 'gate') != 'off':
            ix, idx, isop = te
            if (taken if isop else not taken) and idx in self.get(mon, 'next', frozenset([ZERO])):
                return self.put(mon, done=1)
        if te is not None and self.get(mon, 'gate') == 'off':
            ix, idx, isop = te
            isnull = taken if isop else not taken
            self.skip_entry_done(st, fr, node)
            nx = self.get(mon, 'snext', frozenset([ZERO]))
            if idx not in nx:
                self.bad('gate', 'skipping visits the actions out of order', fr, node)
            if isnull:
                return self.put(mon, sdone=1, sent=None)
            self.skipped = True
            return self.put(mon, sent=ix, sinc=0, srec=None, snext=frozenset([eng.binop(st, '+', idx, ONE)]))
        return None

    def skip_entry_done(self, st, fr, node):
        mon = st.mon
        ix = self.get(mon, 'sent')
        if ix is None:
            return
        if self.get(mon, 'sinc', 0) != 1:
            self.bad('gate', 'skipping an action of a gated phase advances the action id %d times instead of once' % self.get(mon, 'sinc', 0), fr, node)
        a = ('call', 'ACTION', None, (ix,))
        if not self.get(mon, 'srec'):
            t = st.truth(('op', '==', ('fld', a, 'type', st.ep.get('type', 0)), ('c', self.T['CCN_ACTION_PHASE'])))
            if t is not False:
                self.bad('gate', 'skipping does not count the actions of a nested phase', fr, node)

    def ret(self, eng, st, fr, node, val):
        if fr.depth != 0:
            return None
        pd, mon = self.pd, st.mon
        act = ('in', pd.disp.params[0]['n'].split('#')[0])
        tree = ('in', pd.disp.params[2]['n'].split('#')[0])
        ph = ('&', act, 'phase')
        ty = self.atype(st, act)
        isphase = ty == ('c', self.T['CCN_ACTION_PHASE'])
        gate = self.get(mon, 'gate')
        # result
        if val != self.get(mon, 'tree', tree):
            self.bad('act', 'returns %s instead of the tree produced by the action' % (show(val) if val else 'nothing'), fr, node)
        if not isphase:
            if not self.get(mon, 'acted'):
                self.bad('act', 'a pass or traversal action can return without having run', fr, node)
        self.returns = getattr(self, 'returns', 0) + 1
        # errors
        if st.truth(pd.read(st, 'aerr')) is not False:
            self.bad('errors', 'continues after the action although an action error may have been signalled', fr, node)
        if isphase and gate != 'off':
            if self.get(mon, 'pe') is not False:
                self.bad('errors', 'a phase can end normally although a phase error may have been signalled in it', fr, node)
        if isphase:
            pe, e0 = pd.read(st, 'perr'), pd.entry('perr')
            ok = pe == e0 or (st.truth(pe) is not None and st.truth(pe) == st.truth(e0))
            if not ok:
                self.bad('errors', 'a phase error pending in the enclosing phase is not preserved across a nested phase', fr, node)
        # ids
        start = eng.binop(st, '+', pd.entry('aid'), ONE)
        a = pd.read(st, 'aid')
        if not isphase:
            if a != start:
                self.bad('ids', 'the action id after an action is %s' % show(a), fr, node)
        elif gate == 'off':
            if not self.get(mon, 'sdone'):
                self.bad('gate', 'a gated phase returns before all its actions were counted', fr, node)
        else:
            if self.get(mon, 'ran'):
                if not (a[0] == 'fld' and isinstance(a[3], tuple) and a[3][0] == 'r'):
                    self.bad('ids', 'the action id after a phase is %s instead of that of its last action' % show(a), fr, node)
            elif a != start:
                self.bad('ids', 'the action id after an empty phase is %s' % show(a), fr, node)
            # completeness
            nx = self.get(mon, 'next', frozenset([ZERO]))
            self.phase_complete(st, nx, fr, node)
            reason = self.get(mon, 'cyc') is False or self.get(mon, 'fx') is True or self.get(mon, 'fxk') is True or self.get(mon, 'lt') is False
            if not reason:
                self.bad('cycle', 'a cycle can stop although the fixed point is not reached and iterations remain', fr, node)
            if self.get(mon, 'fp') == 'T':
                self.bad('cycle', 'a nested phase or cycle overwrites the fixed-point notification of the enclosing cycle', fr, node)
        # restoration of the other driver fields
        for (b, f), v in st.heap.items():
            if (b, f) in pd.userw or (b, f) == pd.role['aid'] or not eng.private(b) or b[0] != '&':
                continue
            if noep(v) != ('fld', b, f):
                self.bad('cycle', 'driver state %s is not restored when an action ends (is %s)' % (f, show(v)), fr, node)
        if self.get(mon, 'bpset'):
            self.bad('break', 'the breakpoint path is not restored after a phase', fr, node)
        # breakpoints
        bp = pd.read(st, 'bp')
        nm = ('fld', act, 'name', st.ep.get('name', 0))
        ok = st.truth(bp) is False or self.get(mon, 'nb')
        for x in (('call', 'STReqci', None, (bp, nm)), ('call', 'STReqci', None, (nm, bp))):
            if st.truth(x) is False:
                ok = True
        if not ok:
            self.bad('break', 'continues past a named breakpoint', fr, node)
        bid = pd.read(st, 'bpid')
        ok = st.truth(bid) is False or self.get(mon, 'ni') or st.truth(('op', '<', ZERO, bid)) is False
        for x in (('op', '==', bid, start), ('op', '==', start, bid)):
            if st.truth(x) is False:
                ok = True
        if not ok:
            self.bad('break', 'continues past a breakpoint given by action id', fr, node)
        return None

    def phase_complete(self, st, nx, fr, node):
        act = ('in', self.pd.disp.params[0]['n'].split('#')[0])
        ph = ('&', act, 'phase')
        done = bool(self.get(st.mon, 'done'))
        for v, fct in st.facts.items():
            te = None
            if v[0] == 'fld' and fct == ('eq', ('c', self.nul)):
                n = noep(v)
                if n[0] == 'fld' and n[1] == ('fld', ph, 'action_table') and isinstance(n[2], tuple) and v[2][1] in nx:
                    done = True
        if not done:
            self.bad('act', 'a phase iteration can end before the last action of its table', fr, node)

    # ---- stores to driver state
    def store(self, eng, st, fr, node, loc, val):
        if loc[0] != 'L':
            return None
        key = (loc[1], loc[2])
        pd = self.pd
        mon = st.mon
        if key == pd.role['aid']:
            old = pd.read(st, 'aid')
            if val == eng.binop(st, '+', old, ONE):
                if self.get(mon, 'gate') == 'off':
                    # skipping: counts for the entry which is next
                    return self.put(mon, sinc=(self.get(mon, 'sinc', 0) + 1))
                if self.get(mon, 'inc'):
                    self.bad('ids', 'the action id is advanced twice for one action', fr, node)
                return self.put(mon, inc=1)
            if val == eng.binop(st, '+', pd.entry('aid'), ONE) and self.get(mon, 'inc'):
                return self.put(mon, reset=1, ran=None)
            self.bad('ids', 'the action id is set to %s' % show(val), fr, node)
            return None
        if key == pd.role['fixed']:
            if val == ONE:
                return self.put(mon, fp='T', fpiter=1)
            if val == ZERO:
                return None
            if val == pd.read(st, 'fixed'):
                return None
            if self.get(mon, 'ran') and self.get(mon, 'cyc') is False:
                self.bad('cycle', 'a nested phase that is not a cycle discards the notifications made in it', fr, node)
            if val == pd.entry('fixed') or (val[0] == 'fld' and val[1:3] == pd.entry('fixed')[1:3]):
                return self.put(mon, fp=None)
            if st.truth(val) is False:
                return None
            self.bad('cycle', 'the fixed-point flag is set to %s' % show(val), fr, node)
            return None
        if key == pd.role['bp']:
            return self.put(mon, bpset=None if noep(val) == noep(pd.entry('bp')) else 1)
        if key == pd.role['perr']:
            return self.put(mon, pk=None)
        if key == pd.role['aerr']:
            self.bad('errors', 'the driver itself changes the action error flag', fr, node)
        return None

    # ---- calls
    def call(self, eng, st, fr, node, name, cv, argv):
        P, pd = self.P, self.pd
        mon = st.mon
        site = (fr.id, node.id)
        act = ('in', pd.disp.params[0]['n'].split('#')[0])
        tree = ('in', pd.disp.params[2]['n'].split('#')[0])
        ty = self.atype(st, act)
        if name == 'CTIgetErrors':
            rv = ('call', 'CTIgetErrors', None, (('c', self.get(mon, 'ne', 0)),))
            return [(st, rv)]
        if name == 'TRAVstart' and argv[1] == ('c', self.check_trav):
            cur = self.get(mon, 'tree', tree)
            if argv[0] != cur:
                self.bad('check', 'the consistency check runs on %s, not on the current tree' % show(argv[0]), fr, node)
            if self.get(mon, 'acted'):
                self.bad('check', 'the consistency check runs after the action', fr, node)
            # the check traversal is generated code: it runs no user code that could touch the driver
            rv = ('call', 'CHECK', site, (argv[0],))
            st.mon = self.put(st.mon, checked=1, ne=1, tree=rv)
            return [(st, rv)]
        if name in ('TRAVstart', 'PASSstart') or (name == pd.disp.name):
            # an action runs
            rv = ('call', name, site, tuple(argv))
            if name == pd.disp.name:
                self.recs += 1
                self.phase_rec(eng, st, fr, node, argv)
                kind = 'PHASE'
                targ = argv[2]
            else:
                kind = 'PASS' if name == 'PASSstart' else 'TRAVERSAL'
                targ = argv[0]
                want = ('fld', ('&', act, 'pass' if kind == 'PASS' else 'traversal'), 'pass_type' if kind == 'PASS' else 'trav_type')
                if ty != ('c', self.T['CCN_ACTION_' + kind]):
                    self.bad('act', 'a %s is run for an action that is not known to be one' % kind.lower(), fr, node)
                if noep(argv[1]) != want:
                    self.bad('act', '%s runs %s instead of the one the action names' % (name, show(argv[1])), fr, node)
                if self.get(mon, 'acted'):
                    self.bad('act', 'an action is run twice', fr, node)
            self.guard(eng, st, fr, node)
            cur = self.get(st.mon, 'tree', tree)
            if targ != cur:
                self.bad('act', 'the action is applied to %s instead of the current tree' % show(targ), fr, node)
            saved = None
            if name == pd.disp.name:
                # by induction nested actions leave the breakpoint string, level and current phase as they were
                self.havoc_user(eng, st, site, keep=(pd.role['bp'],) if False else ())
                b, f = pd.role['aid']
                st.heap.pop((b, f), None)
                eng.bump(st, f, ('r',) + site)
                st.mon = self.put(st.mon, tree=rv, acted=1, ran=1, fx=None, fxk=None, lt=None, pe=None, phase=1, nb=None, ni=None, done=None, pk=None)
            else:
                self.havoc_user(eng, st, site)
                st.mon = self.put(st.mon, tree=rv, acted=1, nb=None, ni=None, pk=None)
            return [(st, rv)]
        if name == 'CCNgetActionFromID':
            return [(st, ('call', 'ACTION', None, (argv[0],)))]
        if name is None:
            cvn = noep(cv)
            if cvn[0] == 'fld' and cvn[2] == 'gate_func':
                self.gates += 1
                if self.get(mon, 'gate') or self.get(mon, 'ran'):
                    self.bad('gate', 'the gate is consulted again', fr, node)
                st.mon = self.put(st.mon, phase=1)
                a = st
                b = st.copy()
                a.mon = self.put(a.mon, gate='on')
                b.mon = self.put(b.mon, gate='off', snext=frozenset([ZERO]), sinc=0)
                return [(a, ONE), (b, ZERO)]
            self.bad('act', 'calls through %s' % show(cv), fr, node)
            return [(st, ('call', '?', site, ()))]
        if name in ('CTIabortCompilation',):
            self.events.append(('abort', fr.func.name))
            return []
        if name == 'CTIabortOnError':
            # an error was counted since the check: never returns
            nst = st
            nst.mon = self.put(nst.mon, aborted_on_error=1)
            return [(nst, ('c', 0))]
        if name == 'BreakpointHandler':
            self.brk(eng, st, fr, node, argv)
            st.mon = self.put(st.mon, broke=1)
            return [(st, ('c', 0))]
        if name == 'exit':
            if not self.get(mon, 'broke'):
                self.bad('break', 'exits without calling the breakpoint handler', fr, node)
            return []
        if name in ('STReqci', 'STReq', 'STRlen', 'tolower'):
            return [(st, ('call', name, None, tuple(argv)))]
        if name in ('fprintf', 'printf', 'fputs', 'puts', 'fputc'):
            return [(st, ('call', name, site, ()))]
        f = P.resolve(fr.func.tu, name)
        if f is not None and f.name in fr.stack and self.get(mon, 'gate') == 'off':
            # recursive skip of a nested phase
            self.skip_rec(eng, st, fr, node, argv)
            b, fl = pd.role['aid']
            st.heap.pop((b, fl), None)
            eng.bump(st, fl, ('s',) + site)
            return [(st, ('call', name, site, ()))]
        return None

    def guard(self, eng, st, fr, node):
        """consistency check and error gating before an action of this dispatch"""
        pd = self.pd
        mon = st.mon
        if self.get(mon, 'acted'):
            return
        tc = st.truth(pd.entry('tree'))
        if not self.get(mon, 'checked'):
            if tc is not False:
                self.bad('check', 'an action can run without the consistency check although checking is enabled', fr, node)
        else:
            e0 = ('call', 'CTIgetErrors', None, (('c', 0),))
            e1 = ('call', 'CTIgetErrors', None, (('c', 1),))
            same = None
            for a, b in ((e0, e1), (e1, e0)):
                t = st.truth(('op', '==', a, b))
                if t is not None:
                    same = t
            for a, b in ((e0, e1), (e1, e0)):
                if st.truth(('op', '<', a, b)) is False and (a, b) == (e0, e1):
                    same = True
                if st.truth(('op', '<', a, b)) is True:
                    same = False
            if same is not True and not self.get(mon, 'aborted_on_error'):
                self.bad('check', 'the action runs although the consistency check may have reported errors', fr, node)
        if not self.get(mon, 'inc'):
            self.bad('ids', 'the action runs before its id is assigned', fr, node)

    def phase_rec(self, eng, st, fr, node, argv):
        """dispatch of the next action of the phase"""
        pd = self.pd
        mon = st.mon
        act = ('in', pd.disp.params[0]['n'].split('#')[0])
        ph = ('&', act, 'phase')
        if self.get(mon, 'gate') == 'off':
            self.bad('gate', 'actions of a phase run although its gate is closed', fr, node)
            return
        gf = [v for v in st.facts if v[0] == 'fld' and v[2] == 'gate_func' and noep(v[1]) == ph]
        closedok = self.get(mon, 'gate') == 'on' or any(st.truth(v) is False for v in gf)
        if not closedok:
            self.bad('gate', 'the gate is not consulted before running the phase', fr, node)
        table = ('fld', ph, 'action_table')
        a = argv[0]
        if not (a[0] == 'call' and a[1] == 'ACTION'):
            self.bad('act', 'dispatches %s, not the action registered for the id' % show(a), fr, node)
            return
        ix = a[3][0]
        n = noep(ix)
        idx = None
        if n[0] == 'fld' and n[1] == table and n[2][0] == '[]':
            idx = ix[2][1]
        nx = self.get(mon, 'next', frozenset([ZERO]))
        start = eng.binop(st, '+', pd.entry('aid'), ONE)
        if idx == ZERO and idx not in nx:
            # a further iteration of a cycle
            self.cycles = True
            self.phase_complete(st, nx, fr, node)
            if self.get(mon, 'cyc') is not True:
                self.bad('cycle', 'a phase that is not a cycle can be repeated', fr, node)
            if self.get(mon, 'fx') is not False:
                self.bad('cycle', 'a cycle is repeated without a notification that the fixed point is not reached', fr, node)
            if self.get(mon, 'lt') is not True:
                self.bad('cycle', 'a cycle is repeated although the maximum number of iterations may be reached', fr, node)
            nx = frozenset([ZERO])
            st.mon = mon = self.put(mon, it=min(3, self.get(mon, 'it', 1) + 1))
        if idx == ZERO:
            if pd.read(st, 'aid') != start:
                self.bad('ids', 'action ids of a phase do not start right after the id of the phase (%s)' % show(pd.read(st, 'aid')), fr, node)
            if not st.truth(pd.read(st, 'fixed')) is True:
                if self.get(mon, 'cyc') is not False and st.truth(('fld', ph, 'is_cycle', st.ep.get('is_cycle', 0))) is not False:
                    self.bad('cycle', 'a cycle iteration starts without clearing earlier notifications', fr, node)
            if st.truth(pd.read(st, 'perr')) is not False and nx == frozenset([ZERO]) and not self.get(mon, 'ran') and self.get(mon, 'it', 1) == 1:
                self.bad('errors', 'a nested phase starts with the phase error of the enclosing phase still pending', fr, node)
        if idx is None or (idx not in nx):
            self.bad('act', 'actions of a phase are not run in order: %s when entry %s was next' % (show(ix), ' or '.join(map(show, nx))), fr, node)
        if idx is not None:
            nul = ('c', self.nul)
            t = st.truth(('op', '==', ix, nul)) if ix[0] != 'c' else (ix == nul)
            if t is not False:
                self.bad('act', 'may dispatch past the end of the action table', fr, node)
            st.mon = self.put(st.mon, next=frozenset([eng.binop(st, '+', idx, ONE)]))

    def skip_rec(self, eng, st, fr, node, argv):
        self.skips += 1
        mon = st.mon
        ix = self.get(mon, 'sent')
        if self.get(mon, 'sinc', 0) != 1:
            self.bad('gate', 'the nested phase itself is not counted before its actions', fr, node)
        a = ('call', 'ACTION', None, (ix,)) if ix else None
        if not argv or argv[0] != ('&', a, 'phase'):
            self.bad('gate', 'skipping recurses into %s' % (show(argv[0]) if argv else ''), fr, node)
        elif st.truth(('op', '==', ('fld', a, 'type', st.ep.get('type', 0)), ('c', self.T['CCN_ACTION_PHASE']))) is not True:
            self.bad('gate', 'skipping recurses into an action that is not a phase', fr, node)
        st.mon = self.put(mon, srec=1)

    def brk(self, eng, st, fr, node, argv):
        pd = self.pd
        mon = st.mon
        act = ('in', pd.disp.params[0]['n'].split('#')[0])
        if not self.get(mon, 'acted') and self.atype(st, act) != ('c', self.T['CCN_ACTION_PHASE']):
            self.bad('break', 'the breakpoint handler runs before the action', fr, node)
        cur = self.get(mon, 'tree', ('in', pd.disp.params[2]['n'].split('#')[0]))
        act = ('in', pd.disp.params[0]['n'].split('#')[0])
        bp, bid = pd.read(st, 'bp'), pd.read(st, 'bpid')
        nm = ('fld', act, 'name', st.ep.get('name', 0))
        start = eng.binop(st, '+', pd.entry('aid'), ONE)
        hit = any(st.truth(x) is True for x in (('call', 'STReqci', None, (bp, nm)), ('call', 'STReqci', None, (nm, bp)),
                                                ('op', '==', bid, start), ('op', '==', start, bid)))
        if not hit:
            self.bad('break', 'the breakpoint handler runs although neither name nor id of the action match', fr, node)
        if argv[0] != cur:
            self.bad('break', 'the breakpoint handler gets %s instead of the current tree' % show(argv[0]), fr, node)


def run_driver(P):
    if getattr(P, '_pd', None) is not None:
        return P._pd
    pd = PhaseDriver(P)
    m = PDMon(P, pd, None)
    eng = Engine(P, m, lambda e, c, n: 'inline' if (P.resolve(c.tu, n) is not None and rel(P.resolve(c.tu, n).file) == PD) else 'opaque', maxdepth=8, cap=3000)
    ex = eng.run(pd.disp, ())
    P._pd = (pd, m, eng, ex)
    return P._pd


PD_TEXT = {
    'check': 'on every path to running an action: tree check disabled, or the check traversal ran on the current tree before it and no error was added (or the run aborted)',
    'errors': 'no path continues after an action with the action error flag possibly set; no phase ends normally with its error flag possibly set; the enclosing flag is kept',
    'act': 'each dispatch runs exactly the registered pass/traversal/phase, table entries in order up to the terminator, and threads the tree through',
    'gate': 'closed gate: no action runs and every (nested) action is counted once; otherwise the gate is consulted once before the first action',
    'cycle': 'repeat iff is-cycle, notified and below the maximum; count starts at 0 per cycle; nested phases restore the state of the enclosing cycle',
    'ids': 'the id is advanced exactly once per dispatched action, before it runs, and rewound to the first id of the cycle on each repetition',
    'break': 'a matching breakpoint (by path or id) always stops right after its action with the current tree, and nothing else does',
}


def pd_check(cls, extra=None):
    def go(R, P):
        pd, m, eng, ex = run_driver(P)
        R.rule('PD-' + cls, PD_TEXT[cls])
        for (f, n) in eng.visited_funcs:
            R.funcs.add('%s (%s)' % (n, rel(f)))
        # instance accounting: the interesting events must all have been seen
        if not ex or m.recs == 0 or m.gates == 0 or m.skips == 0 or not getattr(m, 'cycles', False):
            raise AnalysisBroken('phase driver events not recognised: returns=%d rec=%d gate=%d skip=%d cycles=%s' %
                                 (len(ex), m.recs, m.gates, m.skips, getattr(m, 'cycles', False)))
        for st, v in ex:
            R.ob('PD-' + cls, 'return path %s' % (str([(k, x) for k, x in st.mon if not isinstance(x, (tuple, frozenset))]),))
        for i in range(eng.ncalls):
            pass
        R.notes['abstract states'] = eng.steps
        R.notes['calls interpreted'] = eng.ncalls
        for (c, msg), (f, line) in m.viols.items():
            if c == cls:
                R.viol('PD-' + cls, f.name, msg, f, line)
        if extra:
            extra(R, P, pd)
    return go


def x_error_api(R, P, pd):
    for role, want, nm in (('aerr', ('int', 1), 'CCNerrorAction'), ('perr', ('int', 1), 'CCNerrorPhase')):
        f = pd.role[role + '_fn']
        R.check(pd.role[role + '_val'] == want, 'PD-errors', nm, nm, 'does not set the error flag', f)
    R.check(pd.role['aerr'] != pd.role['perr'], 'PD-errors', 'flags', 'CCNerrorPhase', 'action and phase errors share one flag', pd.role['perr_fn'])
    f = P.need('CTIabortCompilation')
    eng = Engine(P, AbortMon(R, f), lambda e, c, n: 'inline')
    ex = eng.run(f, ())
    R.check(not ex, 'PD-errors', 'abort', 'CTIabortCompilation', 'aborting the compilation can return', f)


class AbortMon(Monitor):
    def __init__(self, R, f):
        self.R, self.f = R, f

    def noreturn(self, eng, st, fr, node, name, argv):
        if name in ('exit', '_exit'):
            self.R.check(argv and argv[0][0] == 'c' and argv[0][1] & 0xff != 0, 'PD-errors', 'exit status', self.f.name,
                         'the compilation is aborted with exit status %s' % (show(argv[0]) if argv else '?'), fr.func, node.line)


def x_cycle_api(R, P, pd):
    f = pd.role['fixed_fn']
    R.check(pd.role['fixed_val'] == ('int', 0), 'PD-cycle', 'CCNcycleNotify', 'CCNcycleNotify', 'does not clear the fixed-point flag', f)
    f = pd.role['max_fn']
    R.check(pd.role['max_val'] == ('var', f.params[0]['n']), 'PD-cycle', 'CCNsetCycles', 'CCNsetCycles', 'does not set the maximum to its argument', f)


def x_break_api(R, P, pd):
    for role in ('bp', 'bpid'):
        f = pd.role[role + '_fn']
        R.check(pd.role[role + '_val'] == ('var', f.params[0]['n']), 'PD-break', f.name, f.name, 'does not store its argument', f)


def x_check_api(R, P, pd):
    f = pd.role['tree_fn']
    R.check(pd.role['tree_val'] == ('var', f.params[0]['n']), 'PD-check', f.name, f.name, 'does not store its argument', f)
    g = P.find_static_global('phase_driver') or P.globals.get('phase_driver')
    f = P.need('CTIgetErrors')
    e2 = Engine(P, Monitor(), lambda e, c, n: 'inline')
    for st, v in e2.run(f, ()):
        R.check(noep(v) == ('fld', G, 'errors') or (v[0] == 'fld' and v[1] == G), 'PD-check', 'CTIgetErrors', 'CTIgetErrors', 'does not return the error count', f)


c03 = pd_check('check', x_check_api)
c04 = pd_check('errors', x_error_api)
c05 = pd_check('cycle', x_cycle_api)
def c06(R, P):
    pd_check('ids')(R, P)
    pd_check('gate')(R, P)
    showtree(R, P)
c07 = pd_check('break', x_break_api)
c09 = pd_check('act')


def showtree(R, P):
    """the ids displayed to the user are those assigned at run time"""
    R.rule('IDS-show', 'the displayed id of an action is its position in the same pre-order numbering: root 1, +1 per action, phases before their members')
    f = P.need('CCNshowTree')
    R.func(f)
    cg = callgraph_build(P)
    cyc = set(g for g in cg.reach(f) if any(g in cg.reach(h) for h in cg.out.get(g, ())))

    class M(Monitor):
        rec = None
        n = 0

        def call(s, eng, st, fr, node, name, cv, argv):
            if name == 'CCNgetActionFromID':
                return [(st, ('call', 'ACTION', None, (argv[0],)))]
            if name in ('printf', 'fprintf'):
                for a in argv:
                    if a[0] == 'fld' and a[2] == 'name':
                        k = [x for x in argv if x[0] in ('in', 'c', 'op', 'call', 'fld') and x is not a and x[0] != 's' and 'stderr' not in str(x) and 'stdout' not in str(x)]
                        s.prints.append((fr, node, st, k, a))
                return [(st, ('c', 0))]
            g = P.resolve(fr.func.tu, name) if name else None
            if g is not None and (g is s.rec if s.rec else g in cyc):
                s.n += 1
                ids = [i for i, a in enumerate(argv)]
                last = dict(st.mon).get('last')
                s.recs.append((fr, node, last, tuple(argv), g))
                rv = ('call', g.name, ('id', 0), (argv[s.idpos(g)],) if s.idpos(g) is not None else ())
                st.mon = (('last', rv),)
                return [(st, rv)]
            return None

        def widen(s, mon, ren):
            d = dict(mon)
            return mon

        def idpos(s, g):
            for i, p in enumerate(g.params):
                if p['t'] in ('unsigned long', 'unsigned int', 'size_t'):
                    return i
            return None
    m = M()
    m.recs = []
    m.prints = []
    eng = Engine(P, m, lambda e, c, n: 'inline')
    eng.run(f, ())
    if len(m.recs) != 1:
        raise AnalysisBroken('CCNshowTree: recursion not recognised')
    g = m.recs[0][4]
    ip = m.idpos(g)
    if ip is None:
        raise AnalysisBroken('CCNshowTree: no id parameter')
    R.check(m.recs[0][3][ip] == ONE, 'IDS-show', 'root', 'CCNshowTree', 'numbering does not start at 1', f)
    m = M()
    m.rec = g
    m.recs = []
    m.prints = []
    eng = Engine(P, m, lambda e, c, n: 'inline')
    ex = eng.run(g, ())
    R.func(g)
    ident = ('in', g.params[ip]['n'].split('#')[0])
    for fr, node, st, k, a in m.prints:
        R.check(ident in k, 'IDS-show', 'print', g.name, 'shows %s as the id of an action' % (show(k[0]) if k else '?'), g, node.line)
    R.check(len(m.prints) > 0, 'IDS-show', 'prints', g.name, 'never shows an id', g)
    nxt = eng.binop(State(), '+', ident, ONE)
    for fr, node, last, argv, gg in m.recs:
        x = argv[ip]
        ok = x == nxt or (x[0] == 'call' and x[1] == g.name) or x[0] == 'phi'
        R.check(ok, 'IDS-show', 'recursion', g.name, 'numbers a member action %s' % show(x), g, node.line)
    for st, v in ex:
        ok = v == nxt or (v[0] == 'call' and v[1] == g.name) or (v[0] == 'phi')
        R.check(ok, 'IDS-show', 'return', g.name, 'returns %s as the next id' % show(v), g)


def c08(R, P):
    """CCNrun"""
    R.rule('RUN', 'CCNrun: error/iteration/id state reset, then exactly the root action on the given tree, then the free traversal on the resulting tree')
    pd = PhaseDriver(P)
    f = P.need('CCNrun')
    R.func(f)
    tree = ('in', f.params[0]['n'].split('#')[0])
    m0 = Monitor()
    log = []

    class M(Monitor):
        def call(s, eng, st, fr, node, name, cv, argv):
            if name == 'CCNgetActionFromID':
                return [(st, ('call', 'ACTION', None, (argv[0],)))]
            if name == pd.disp.name:
                vals = {}
                for r in ('aid', 'aerr', 'perr'):
                    vals[r] = pd.read(st, r)
                # every driver-only counter that a previous run may have left behind
                rv = ('call', 'RUN', (fr.id, node.id), (argv[2],))
                st.mon = st.mon + (('disp', argv[0], argv[2], tuple(sorted(vals.items()))),)
                for k in list(st.heap):
                    if eng.private(k[0]) and k[0][0] in ('&', 'G'):
                        del st.heap[k]
                        eng.bump(st, k[1], ('d', fr.id, node.id))
                return [(st, rv)]
            if name in ('TRAVstart', 'CCNfree'):
                t = argv[1] if name == 'TRAVstart' else ('c', enumval(P, 'TRAV_free'))
                st.mon = st.mon + (('trav', argv[0], t),)
                return [(st, ('call', 'FREE', None, ()))]
            return None
    eng = Engine(P, M(), lambda e, c, n: 'inline' if (P.resolve(c.tu, n) is not None and rel(P.resolve(c.tu, n).file) == PD) else 'opaque')
    ex = eng.run(f, ())
    root = ('c', enumval_macro(P))
    for st, v in ex:
        d = [e for e in st.mon if e[0] == 'disp']
        t = [e for e in st.mon if e[0] == 'trav']
        R.check(len(d) == 1, 'RUN', 'dispatch once', 'CCNrun', 'the root action is dispatched %d times' % len(d), f)
        for e in d:
            R.check(e[1] == ('call', 'ACTION', None, (root,)), 'RUN', 'root action', 'CCNrun', 'runs %s' % show(e[1]), f)
            R.check(e[2] == tree, 'RUN', 'tree', 'CCNrun', 'runs on %s' % show(e[2]), f)
            for k, x in e[3]:
                R.check(x == ZERO, 'RUN', 'reset ' + k, 'CCNrun', 'a compilation starts with leftover state of an earlier one (%s)' % k, f)
        ok = len(t) == 1 and t[0][2] == ('c', enumval(P, 'TRAV_free')) and t[0][1][0] == 'call' and t[0][1][1] == 'RUN' and \
            st.mon.index(t[0]) > st.mon.index(d[0]) if d and t else False
        R.check(ok, 'RUN', 'free', 'CCNrun', 'the resulting tree is not freed exactly once after the run', f)
    R.check(len(ex) > 0, 'RUN', 'returns', 'CCNrun', 'never returns', f)


def enumval_macro(P):
    # CCN_ROOT_ACTION is a macro in generated code; take the constant used by CCNshowTree as cross-check is not possible:
    # the value is the id of the phase marked start in main.ccn
    for n in [n for g in callgraph_build(P).reach(P.need('CCNshowTree')) for n in cfg_of(g).nodes]:
        if n.kind == 'call' and n.data[1] == ('fn', 'CCNgetActionFromID') and n.data[2][0][0] == 'int':
            return n.data[2][0][1]
    raise AnalysisBroken('root action id not found')
