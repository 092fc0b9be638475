"""Set expressions (C20): the operations on sets of node names and the evaluation of
set expressions denote the sets they describe."""
from absint import ZERO
from emit import EmitMon, EEngine, Path, isglob, noep
import front
from program import AnalysisBroken
from rules_front import fval, sub, enumval, frontend, contexts

OPS = {'SETIDunion': lambda a, b: a or b, 'SETIDintersect': lambda a, b: a and b, 'SETIDdifference': lambda a, b: a and not b}
LIT, REF = ('node', 'setliteral'), ('fld', ('node', 'setliteral'), 'setliteral.reference')


class SetEngine(EEngine):
    def read(self, st, l):
        if l[0] == 'L' and isglob(l[1]) and l[1] != ('G',) and isinstance(l[2], str) and (l[1], l[2]) not in st.heap:
            n, t = 0, None
            for e in st.mon:
                if e[0] == 'push':
                    n, t = 0, e[1]
                elif e[0] == 'walk':
                    n += 1
                elif e[0] == 'pop':
                    t = None
            if t is not None and noep(l[1])[2] != 'trav_data':
                return ('data', t, l[2], n)
        return EEngine.read(self, st, l)


class SetMon(EmitMon):
    def call(self, eng, st, fr, node, name, cv, argv):
        em = self.em
        if name == 'TRAVpush':
            t = em.travname(argv[0])
            em.cur = t
            for k in [k for k in st.heap if isglob(k[0]) and k[0] != ('G',)]:
                del st.heap[k]
            self.add(st, ('push', t))
            return [(st, ZERO)]
        if name == 'TRAVpop':
            for k in [k for k in st.heap if isglob(k[0]) and k[0] != ('G',)]:
                del st.heap[k]
            self.add(st, ('pop',))
            return [(st, ZERO)]
        if name in ('TRAVdo', 'TRAVopt') and any(e[0] == 'push' for e in st.mon):
            x = argv[0]
            self.add(st, ('walk', em.norm(noep(x)), name, st.known(x), tuple((k[1], em.norm(noep(v))) for k, v in sorted(st.heap.items(), key=repr) if isglob(k[0]) and isinstance(k[1], str))))
            w = em.writes(em.cur, 'setliteral')
            for k in list(st.heap):
                if isglob(k[0]) and k[0] != ('G',) and '*.' + str(k[1]) in w:
                    del st.heap[k]
            return [(st, argv[0])]
        return EmitMon.call(self, eng, st, fr, node, name, cv, argv)


class Sets(front.Front):
    dirs = front.Front.dirs + ('cocogen/sets',)
    whole = front.Front.whole + ('cocogen/sets',)
    opaque = front.Front.opaque + ('SETIDinsert', 'SETIDcontains') + tuple(OPS)
    monitor = SetMon
    engine = SetEngine

    def __init__(self, P):
        front.Front.__init__(self, P)
        self.untyped = True
        self.sem = {}

    def typefact(self, st, x):
        y = noep(x)
        if y[0] == 'call' and y[1] == 'STlookup' and len(y) == 4 and y[3][1][0] == 'fld' and y[3][1][2] == 'setreference.reference':
            return 'inodeset'
        return front.Front.typefact(self, st, x)

    def function(self, name, nargs):
        f = self.P.need(name)
        vs = [('arg', i) for i in range(nargs)]
        old, self.opaque = self.opaque, tuple(o for o in self.opaque if o != name)
        oldc = self.cur
        try:
            return f, self.raw_paths(f, vs, {}, (), nonnull=False)
        finally:
            self.opaque, self.cur = old, oldc


def ev(t, hook):
    v = hook(t)
    if v is not None:
        return v
    if t[0] == 'c':
        return t[1]
    if t[0] == 'op' and t[1] == '!':
        v = ev(t[2], hook)
        return None if v is None else int(not v)
    if t[0] == 'op' and len(t) == 4:
        a, b = ev(t[2], hook), ev(t[3], hook)
        if a is None or b is None:
            return None
        f = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b,
             '+': lambda: a + b, '-': lambda: a - b}.get(t[1])
        return None if f is None else int(f())
    return None


def agrees(evs, hook):
    for e in evs:
        if e[0] == 'if':
            v = ev(e[1], hook)
            if v is not None and bool(v) != e[2]:
                return False
    return True


def datafield(t):
    """name of a field of the data of the current traversal"""
    return t[2] if t[0] == 'fld' and isglob(t[1]) and t[1] != ('G',) else None


# ------------------------------------------------------------------- handlers that filter
class Filter:
    """what a traversal does for every element: target field -> (condition on membership fields)"""
    def __init__(self, R, S, trav):
        self.trav = trav
        self.bad = []
        self.paths = [p for p in S.expand(trav, 'setliteral')]
        f = S.P.resolve(None, S.handler(trav, 'setliteral') or '')
        self.fn = f
        if f is not None:
            R.func(f)
        self.targets = {}
        self.fields = set()
        for p in self.paths:
            for e in p.ev:
                if e[0] == 'if':
                    for x in sub(e[1]):
                        if x and x[0] == 'call' and x[1] == 'SETIDcontains':
                            d = datafield(x[3][0])
                            if d is None or x[3][1] != REF:
                                self.bad.append('membership of something else than the element is tested')
                            else:
                                self.fields.add(d)
                if e[0] == 'gset':
                    g = e[1].split('.')[-1]
                    v = e[2]
                    if v[0] == 'call' and v[1] == 'SETIDinsert':
                        if datafield(v[-1][0]) != g:
                            self.bad.append('elements are inserted into another set than the result')
                        elif v[-1][1] != REF:
                            self.bad.append('something else than the element is inserted')
                        else:
                            self.targets.setdefault(g, None)
                    else:
                        self.bad.append('%s is replaced while the elements are visited' % g)
            sides = [e[1][2] for e in p.ev if e[0] == 'list' and e[1][0] == 'fld' and e[1][1] == LIT] + \
                    [e[3][2] for e in p.ev if e[0] == 'rec' and len(e) > 3 and e[3][0] == 'fld']
            for s in ('setliteral.left', 'setliteral.right'):
                if sides.count(s) != 1:
                    self.bad.append('the elements below %s of an element are visited %d times' % (s.split('.')[1], sides.count(s)))

    def inserted(self, g, member):
        """is the element put into g, membership in the data fields given; None: differs between paths"""
        def h(t):
            if t[0] == 'call' and t[1] == 'SETIDcontains':
                return int(member[datafield(t[3][0])])
            return None
        r = set()
        for p in self.paths:
            if agrees(p.ev, h):
                r.add(any(e[0] == 'gset' and e[1].split('.')[-1] == g for e in p.ev))
        return r.pop() if len(r) == 1 else None


class Eval:
    """membership of one element in the sets a function handles"""
    def __init__(self, R, S, p, bits, filters):
        self.R, self.S, self.p, self.bits, self.filters = R, S, p, bits, filters

    def walks(self, trav):
        r, cur = [], None
        for e in self.p.ev:
            if e[0] == 'push':
                cur = e[1]
            elif e[0] == 'pop':
                cur = None
            elif e[0] == 'walk' and cur == trav:
                r.append(e)
        return r

    def member(self, t, fresh=False):
        if t[0] == 'c':
            return False
        if t in self.bits:
            return self.bits[t]
        if t[0] == 'call' and t[1] == 'TRAVstart':
            return self.member(t[-1][0])
        if t[0] == 'call' and t[1] in OPS:
            a = [self.member(x) for x in t[-1]]
            return None if None in a else bool(OPS[t[1]](*a))
        if t[0] == 'data':
            return self.data(t[1], t[2], t[3])
        return None

    def data(self, trav, f, n):
        if n == 0:
            return False
        ws = self.walks(trav)
        if n > len(ws):
            return None
        w = ws[n - 1]
        snap = dict(w[4])
        old = self.member(snap[f]) if f in snap else self.data(trav, f, n - 1)
        F = self.filters(trav)
        if f not in F.targets:
            return old
        x = self.member(w[1])
        mem = {}
        for d in F.fields:
            mem[d] = self.member(snap[d]) if d in snap else self.data(trav, d, n - 1)
        if None in mem.values() or old is None or x is None:
            return None
        ins = F.inserted(f, mem)
        if ins is None:
            return None
        return old or (x and ins)


def leaf(t, bits):
    """t is one of the operands itself, not a new set"""
    return t in bits


def judge(R, S, rule, inst, ps, bits_terms, want, fn, filters, extra=None):
    a, b = bits_terms
    for p in ps:
        if extra is not None and not agrees(p.ev, extra):
            continue
        null = set(e[1] for e in p.ev if e[0] == 'if' and not e[2])
        for x in (False, True):
            for y in (False, True):
                if (x and a in null) or (y and b in null):
                    continue
                E = Eval(R, S, p, {a: x, b: y}, filters)
                if p.ret is None:
                    continue
                m = E.member(p.ret)
                if m is None:
                    R.notes.setdefault('not decided', []).append('%s: result not followed' % inst)
                elif m != bool(want(x, y)):
                    R.viol(rule, inst, '%s: an element that is %s the left and %s the right operand is %s the result' % (
                        inst, 'in' if x else 'not in', 'in' if y else 'not in', 'in' if m else 'not in'), fn)
        if p.ret is not None and leaf(p.ret, {a: 0, b: 0}):
            R.viol('own', inst, '%s: the result is an operand itself, which is released with the expression' % inst, fn)
        for e in p.ev:
            if e[0] == 'walk' and e[2] == 'TRAVdo' and e[1] in (a, b) and not any(c[0] == 'if' and c[1] == e[1] and c[2] for c in p.ev) and not isinstance(e[3], tuple):
                R.viol('empty', inst, '%s: an empty set is visited' % inst, fn)


def c20(R, P):
    R.rule('tree', 'insertion and lookup descend into the same side for the same order of names, on the lower case names; an equal name is found, and not inserted again')
    R.rule('insert', 'inserting into a set adds exactly the element (a copy), into the empty set creates it; no element is lost')
    R.rule('contains', 'an element is reported as contained exactly when the lookup found it')
    R.rule('filter', 'the traversals behind the operations visit every element and decide about it by its membership only')
    R.rule('operation', 'union, intersection and difference contain exactly the elements that the operation on sets does')
    R.rule('empty', 'operations accept empty sets')
    R.rule('own', 'results are new sets')
    R.rule('evaluate', 'an expression is evaluated with the operation it is marked with, after its operands; a reference stands for the evaluated expression of the nodeset it names')
    S = Sets(P)
    fcache = {}

    def filters(t):
        if t not in fcache:
            F = Filter(R, S, t)
            fcache[t] = F
            R.ob('filter', t)
            for b in sorted(set(F.bad)):
                R.viol('filter', t, b, F.fn)
        return fcache[t]
    for name, want in OPS.items():
        f, ps = S.function(name, 2)
        R.func(f)
        R.ob('operation', name)
        R.ob('empty', name)
        R.ob('own', name)
        judge(R, S, 'operation', name, ps, (('arg', 0), ('arg', 1)), want, f, filters)
        for t in set(e[1] for p in ps for e in p.ev if e[0] == 'push'):
            for g in list(filters(t).targets):
                for m in ({d: v for d in filters(t).fields} for v in (False, True)):
                    if filters(t).inserted(g, m) is None:
                        R.viol('filter', t, 'whether an element is taken does not depend on its membership only', filters(t).fn)
    tree(R, P, S)
    evaluate(R, P, S, filters)
    R.need('operation', 3)
    R.need('tree', 6)


# ------------------------------------------------------------------- search tree
def order(S, trav, field):
    """hook for a given order between the value (data field) and the name of the element"""
    def mk(sign, nulls):
        def h(t):
            if t[0] == 'call' and t[1] in ('strcmp', 'STRcmp', 'STReq') and len(t) == 4:
                a, b = t[3]
                if a[0] == 'fld' and b[0] == 'fld' and a[2] == b[2] and a[2] in ('id.lwr', 'id.upr'):
                    if datafield(a[1]) == field and b[1] == REF:
                        return int(sign == 0) if t[1] == 'STReq' else sign
                    if datafield(b[1]) == field and a[1] == REF:
                        return int(sign == 0) if t[1] == 'STReq' else -sign
            if t in nulls:
                return nulls[t]
            return None
        return h
    return mk


def compared(ps):
    """data fields whose name is compared with the element's"""
    r = set()
    for p in ps:
        for e in p.ev:
            if e[0] == 'if':
                for t in sub(e[1]):
                    if t and t[0] == 'call' and t[1] in ('strcmp', 'STRcmp', 'STReq') and len(t) == 4:
                        for a in t[3]:
                            if a[0] == 'fld' and datafield(a[1]):
                                r.add(datafield(a[1]))
    return r


def tree(R, P, S):
    L, Rr = ('fld', LIT, 'setliteral.left'), ('fld', LIT, 'setliteral.right')

    def pushed(name, n):
        f, ps = S.function(name, n)
        R.func(f)
        ts = set(e[1] for p in ps for e in p.ev if e[0] == 'push')
        return f, ps, ts

    fi, ips, its = pushed('SETIDinsert', 2)
    fc, cps, cts = pushed('SETIDcontains', 2)
    if len(its) != 1 or len(cts) != 1:
        R.notes.setdefault('not decided', []).append('insertion or lookup does not use one traversal')
        for i in range(6):
            R.ob('tree', 'not decided')
        return
    it, ct = its.pop(), cts.pop()
    side = {}
    for trav, kind in ((it, 'insert'), (ct, 'lookup')):
        ps = S.expand(trav, 'setliteral')
        fn = P.resolve(None, S.handler(trav, 'setliteral') or '')
        if fn is not None:
            R.func(fn)
        flds = compared(ps)
        if len(flds) != 1:
            R.ob('tree', kind)
            R.viol('tree', kind, '%s: names are not compared' % trav, fn)
            continue
        fld = flds.pop()
        mk = order(S, trav, fld)
        for val in (-7, -1, 0, 1, 7):
            sign = (val > 0) - (val < 0)
            for l in (0, 1):
                for r in (0, 1):
                    R.ob('tree', '%s order %d, left %s, right %s' % (kind, val, 'there' if l else 'empty', 'there' if r else 'empty'))
                    h = mk(val, {L: l, Rr: r})
                    for p in ps:
                        if not agrees(p.ev, h):
                            continue
                        if any(e[0] == 'broken' for e in p.ev):
                            R.notes.setdefault('not decided', []).append(trav)
                            continue
                        vis = [e[1][2] for e in p.ev if e[0] == 'list' and e[1][0] == 'fld' and e[1][1] == LIT] + \
                              [e[3][2] for e in p.ev if e[0] == 'rec' and len(e) > 3 and e[3][0] == 'fld']
                        vis = [v for v in vis if {'setliteral.left': l, 'setliteral.right': r}[v]]
                        sets = [(e[2], e[3]) for e in p.ev if e[0] == 'set' and e[1] == LIT]
                        gs = {}
                        for e in p.ev:
                            if e[0] == 'gset':
                                gs.setdefault(e[1].split('.')[-1], []).append(e[2])
                        w = '%s, name %s the element\'s' % (kind, {-1: 'before', 0: 'equal to', 1: 'behind'}[sign])
                        if sign == 0:
                            if sets:
                                R.viol('tree', kind, '%s: an equal element is inserted again' % w, fn)
                            if vis:
                                R.viol('tree', kind, '%s: the search goes on' % w, fn)
                            flag = [v for k, v in gs.items() if any(x == ('c', 1) for x in v)]
                            if kind == 'lookup' and not flag:
                                R.viol('tree', kind, '%s: not recorded as found' % w, fn)
                            if kind == 'insert' and flag:
                                R.viol('tree', kind, '%s: recorded as inserted' % w, fn)
                            continue
                        to = [v for v in vis] + [s for s, _ in sets]
                        if kind == 'lookup':
                            if any(x == ('c', 1) for v in gs.values() for x in v):
                                R.viol('tree', kind, '%s: recorded as found' % w, fn)
                            if sets:
                                R.viol('tree', kind, '%s: the set is changed' % w, fn)
                            if l and r and len(to) != 1:
                                R.viol('tree', kind, '%s: %d sides are searched' % (w, len(to)), fn)
                            if l and r and len(to) == 1:
                                side.setdefault((kind, sign), set()).add(to[0])
                            continue
                        if len(to) != 1:
                            R.viol('tree', kind, '%s: the element is put in %d places' % (w, len(to)), fn)
                            continue
                        side.setdefault((kind, sign), set()).add(to[0])
                        there = {'setliteral.left': l, 'setliteral.right': r}[to[0]]
                        if sets and there:
                            R.viol('tree', kind, '%s: the elements on the %s are replaced' % (w, to[0].split('.')[1]), fn)
                        if not sets and not there:
                            R.viol('tree', kind, '%s: the element is not inserted' % w, fn)
                        if sets:
                            v = sets[0][1]
                            if v[0] == 'call' and v[1].startswith('AST'):
                                if v[1] != 'ASTsetliteral' or not datafield(v[-1][0]) == fld:
                                    R.viol('tree', kind, '%s: something else than the element is inserted' % w, fn)
                            if not any(x and x[-1] == ('c', 1) for x in gs.values()):
                                R.viol('tree', kind, '%s: not recorded as inserted' % w, fn)
    for kind in ('insert', 'lookup'):
        a, b = side.get((kind, -1), set()), side.get((kind, 1), set())
        if a & b:
            R.viol('tree', kind, '%s: both orders go to the same side' % kind)
    for s in (-1, 1):
        a, b = side.get(('insert', s)), side.get(('lookup', s))
        R.ob('tree', 'sides %d' % s)
        if a and b and a != b:
            R.viol('tree', 'sides', 'lookup searches another side than insertion uses', P.resolve(None, S.handler(ct, 'setliteral') or ''))
    # SETIDinsert
    A, B = ('arg', 0), ('arg', 1)
    for p in ips:
        null = known(p, A)
        R.ob('insert', 'set %s' % {None: 'any', True: 'there', False: 'empty'}[null])
        if null is False:
            v = p.ret
            if v is None or v[0] != 'call' or v[1] != 'ASTsetliteral':
                R.viol('insert', 'empty set', 'inserting into the empty set does not create a set with the element', fi)
            elif not copyof(v[-1][0], B):
                R.viol('insert', 'empty set', 'the set does not hold a copy of the element', fi)
            continue
        ws = [e for e in p.ev if e[0] == 'walk']
        if len(ws) != 1 or ws[0][1] != A:
            R.viol('insert', 'set', 'inserting does not visit the set once', fi)
            continue
        snap = dict(ws[0][4])
        vals = [v for v in snap.values() if copyof(v, B)]
        if not vals:
            R.viol('insert', 'set', 'the element is not handed over as a copy' if any(v == B for v in snap.values()) else 'the element is not handed over', fi)
        if p.ret != A:
            R.viol('insert', 'set', 'inserting does not return the set', fi)
        freed = [e for e in p.ev if e[0] == 'start' and e[1] == 'free']
        flag = [e for e in p.ev if e[0] == 'if' and e[1][0] == 'data']
        if flag and flag[-1][2] == bool(freed):
            R.viol('insert', 'set', 'the copy is released although it was inserted' if freed else 'the copy of an element that is there already is not released', fi)
    # SETIDcontains
    for p in cps:
        null = known(p, A)
        R.ob('contains', 'set %s' % {None: 'any', True: 'there', False: 'empty'}[null])
        flag = [e for e in p.ev if e[0] == 'if' and e[1][0] == 'data']
        if null is False:
            if p.ret != ZERO:
                R.viol('contains', 'empty set', 'the empty set contains something', fc)
            continue
        ws = [e for e in p.ev if e[0] == 'walk']
        if len(ws) != 1 or ws[0][1] != A or B not in dict(ws[0][4]).values():
            R.viol('contains', 'set', 'the element is not looked for in the set', fc)
            continue
        if p.ret is not None and p.ret[0] == 'c':
            if not flag or flag[-1][2] != bool(p.ret[1]):
                R.viol('contains', 'set', 'the result is not whether the element was found', fc)
        elif p.ret is not None and p.ret[0] == 'data' and p.ret[3] == 0:
            R.viol('contains', 'set', 'the result is taken before the search', fc)


def known(p, t):
    for e in p.ev:
        if e[0] == 'if' and e[1] == t:
            return e[2]
    return None


def copyof(v, t):
    return v[0] == 'call' and v[1] in ('TRAVstart', 'CCNcopy') and v[-1][0] == t


# ------------------------------------------------------------------- evaluation of expressions
def evaluate(R, P, S, filters):
    trav = None
    for t in ('USE',) + tuple(x for x in S.travs if x != 'USE'):
        h = S.handler(t, 'setoperation')
        f = P.resolve(None, h) if h else None
        if f is None:
            continue
        S.cur = t
        try:
            ps = S.raw_paths(f, [('node', 'setoperation')], {('node', 'setoperation'): 'setoperation'}, ())
        except AnalysisBroken:
            continue
        if any(e[0] == 'call' and e[1][1] in OPS for p in ps for e in p.ev):
            trav = t
            break
    if trav is None:
        R.ob('evaluate', 'setoperation')
        R.viol('evaluate', 'setoperation', 'set operations are not evaluated')
        return
    R.func(f)
    me = ('node', 'setoperation')
    L, Rt = ('fld', me, 'setoperation.left'), ('fld', me, 'setoperation.right')
    ty = fval('setoperation', 'type')
    for op, want in (('SO_iunion', OPS['SETIDunion']), ('SO_intersect', OPS['SETIDintersect']), ('SO_difference', OPS['SETIDdifference'])):
        R.ob('evaluate', op)
        n = enumval(P, op)
        h = lambda t, n=n: n if t == ty else None
        qs = [p for p in ps if agrees(p.ev, h) and not any(e[0] == 'broken' for e in p.ev)]
        judge(R, S, 'evaluate', op, qs, (L, Rt), want, f, filters)
        for p in qs:
            first = [i for i, e in enumerate(p.ev) if e[0] == 'call' and e[1][1] in OPS]
            for x in (L, Rt):
                v = [i for i, e in enumerate(p.ev) if e[0] == 'visit' and e[1] == x]
                if first and (not v or v[0] > first[0]):
                    R.viol('evaluate', op, 'an operand is not evaluated before the operation', f)
            if p.ret is None or p.ret == me:
                R.viol('evaluate', op, 'the operation is not replaced by its value', f)
            fr = [i for i, e in enumerate(p.ev) if e[0] == 'start' and e[1] == 'free']
            if first and fr and fr[0] < first[0]:
                R.viol('evaluate', op, 'the operands are released before the operation', f)
    # references
    f = P.resolve(None, S.handler(trav, 'setreference') or '')
    R.ob('evaluate', 'setreference')
    if f is None:
        R.viol('evaluate', 'setreference', 'references to nodesets are not evaluated')
        return
    R.func(f)
    me = ('node', 'setreference')
    S.cur = trav
    for p in S.raw_paths(f, [me], {me: 'setreference'}, ()):
        look = [t for e in p.ev for t in sub(e[1:]) if t and t[0] == 'call' and t[1] == 'STlookup' and len(t) == 4]
        look = [t for t in look if t[3][1] == ('fld', me, 'setreference.reference')]
        if not look:
            R.viol('evaluate', 'setreference', 'the nodeset a reference names is not looked up', f)
            continue
        ex = ('fld', look[0], 'inodeset.expr')
        if p.ret == ZERO:
            if known(p, ex) is not False and not any(e[0] == 'if' and e[1] == ex and not e[2] for e in p.ev):
                R.viol('evaluate', 'setreference', 'the value of a reference to a set with elements is empty', f)
            continue
        if p.ret is None or p.ret == me:
            R.viol('evaluate', 'setreference', 'a reference is not replaced by the set it stands for', f)
            continue
        if p.ret == ex:
            R.viol('own', 'setreference', 'the value of a reference is the set of the nodeset itself, not a copy', f)
            continue
        if p.ret[0] == 'call' and p.ret[1] in ('TRAVstart', 'CCNcopy'):
            if p.ret[-1][0] != ex:
                if p.ret[-1][0][0] == 'fld':
                    R.viol('evaluate', 'setreference', 'a reference is replaced by a copy of something else than the expression of the nodeset', f)
                continue
            if p.ret[1] == 'TRAVstart':
                c = [e for e in p.ev if e[0] == 'start' and e[2] == ex]
                if c and c[-1][1] not in ('cpy',):
                    R.viol('evaluate', 'setreference', 'a reference is not replaced by a copy of the set', f)
        else:
            R.notes.setdefault('not decided', []).append('setreference: value not followed')
            continue
        lit = any(e[0] == 'if' and e[1][0] == 'op' and e[1][1] in ('==', '!=') and e[1][2] == ('fld', ex, 'nodetype') and e[2] == (e[1][1] == '==') and
                  S.ntnum.get(e[1][3][1]) == 'setliteral' for e in p.ev)
        vis = [i for i, e in enumerate(p.ev) if e[0] == 'visit' and e[1][0] == 'fld' and e[1] == ex]
        if not lit and not vis:
            R.viol('evaluate', 'setreference', 'the nodeset a reference names is not evaluated before it is copied', f)
    # literals stay
    f = P.resolve(None, S.handler(trav, 'setliteral') or '')
    if f is not None:
        me = ('node', 'setliteral')
        R.ob('evaluate', 'setliteral')
        for p in S.raw_paths(f, [me], {me: 'setliteral'}, ()):
            if p.ret != me or any(e[0] in ('set', 'start') for e in p.ev):
                R.viol('evaluate', 'setliteral', 'a set of names does not evaluate to itself', f)
