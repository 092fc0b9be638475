"""Generated attribute evaluation (C41, C42), decided on the static derivation of a specification
whose nodes carry scheduled visits (skel.visits)."""
import itertools
import gensym
from gensym import Sem, ne, Rec, ctype
from absint import State, ZERO, ONE
from program import AnalysisBroken
import genprog
from rules_gen import extras, ARG


def cattr(S, a):
    return ctype(S, a)


def low(S, x):
    return S.names[x.label + '.name'].lower()


class Lay:
    """the specification's side: names, equations, visits"""
    def __init__(self, S):
        self.S = S
        self.nodes = S.nn['inode']

    def low(self, x):
        return low(self.S, x)

    def optional(self, e):
        """optional children an equation reads, in order of first use"""
        r = []
        for c, _ in e.args:
            if c is not None and not c.flags['is_mandatory'] and c not in r:
                r.append(c)
        return r

    def evalname(self, n, e, absent):
        c, a = e.rule
        return 'EVAL%s_%s_%s' % (self.low(n), self.low(c) if c is not None else 'this', self.low(a)) + ''.join('_%s_NULL' % self.low(x) for x in self.optional(e) if x in absent)

    def evalargs(self, e, absent):
        return [(c, a) for c, a in e.args if c is None or c not in absent]

    def visitname(self, v):
        return 'CCNvisit_%s_%d' % (self.low(v.node), v.index)


def witness_visits(S):
    """programs that only compile when visit and equation functions have the types of the attributes they exchange"""
    L = Lay(S)
    r = {}
    head = ['#include "ccngen/ast.h"', '#include "ccngen/visit.h"', '#include "ccngen/equation.h"',
            '#define SAME(a, b) _Static_assert(__builtin_types_compatible_p(a, b), #a " is not " #b)']
    for n in L.nodes:
        t = list(head)
        for v in n.lists['visit']:
            name = L.visitname(v)
            out = 'void' if not v.outputs else cattr(S, v.outputs[0]) if len(v.outputs) == 1 else 'struct %s_out' % name
            t.append('SAME(__typeof__(&%s), %s (*)(%s));' % (name, out, ', '.join(['struct ccn_node *'] + [cattr(S, a) for a in v.inputs])))
            if len(v.outputs) > 1:
                for a in v.outputs:
                    t.append('SAME(__typeof__(((struct %s_out *)0)->this_%s), %s);' % (name, L.low(a), cattr(S, a)))
        if len(t) > len(head):
            r['witness/vis_%s.c' % L.low(n)] = '\n'.join(t) + '\n'
        for e in n.lists['iequations']:
            t = list(head)
            opt = L.optional(e)
            for k in range(len(opt) + 1):
                for absent in itertools.combinations(opt, k):
                    t.append('SAME(__typeof__(&%s), %s (*)(%s));' % (L.evalname(n, e, absent), cattr(S, e.rule[1]), ', '.join(cattr(S, a) for _, a in L.evalargs(e, absent)) or 'void'))
            r['witness/%s.c' % L.evalname(n, e, ()).lower()] = '\n'.join(t) + '\n'
    return r


def both(S):
    r = extras(S)
    r.update(witness_visits(S))
    return r


def account(R, s):
    R.notes['not derived'] = ['%s: %s' % b for b in s.D.M.broken]
    R.notes['derived files'] = len(s.D.M.files)
    R.notes['generator handlers'] = len(set(p[0] for f in s.D.M.files.values() for _, p in f.parts if p))


_cache = {}


def sem(P, debug=False):
    k = (id(P), debug)
    if k not in _cache:
        _cache[k] = Sem(genprog.derive(P, 'visits', debug, both, 'v'))
    return _cache[k]


class VRec(Rec):
    """evaluation functions and visits are calls with a result of their own; they leave the tree's shape alone"""
    def call(self, eng, st, fr, node, name, cv, argv):
        r = Rec.call(self, eng, st, fr, node, name, cv, argv)
        if r is not None:
            return r
        if name and (name.startswith('EVAL') or name.startswith('CCNvisit_')):
            rv = ('in', '%s@%d' % (name, sum(1 for e in st.mon or () if e[0] == 'made')))
            st.mon = (st.mon or ()) + (('made', name, tuple(argv), rv, fr.func.name, node.line),)
            return [(st, rv)]
        return None


    def store(self, eng, st, fr, node, loc, val):
        if loc[0] == 'L' and loc[1][0] == '&v' and eng.private(loc[1]):
            return (st.mon or ()) + (('local', loc[1], loc[2], val),)
        return Rec.store(self, eng, st, fr, node, loc, val)


class VSem:
    """one visit function under one assignment of presence and types to the children"""
    def __init__(self, s):
        self.s = s

    def run(self, f, args, init, budget=60000):
        s = self.s
        s.runs += 1
        e = gensym.SemEngine(s.G, monitor=VRec(s), policy=self.policy, maxdepth=8, cap=200, budget=budget)
        st = init.copy()
        st.env = {}
        st.mon = ()
        return e.run(f, (), list(args), st)

    def policy(self, eng, caller, name):
        if name.startswith(('EVAL', 'CCNvisit_')):
            return 'opaque'
        return self.s.policy(eng, caller, name)


def errors_of(s):
    """compile errors of the derivation; a stub without a return value is for the user to fill in"""
    return [e for e in s.D.errors if not (e[0].startswith('user/') and 'does not return a value' in e[2])]


class Case:
    def __init__(self, R, s, L):
        self.R, self.s, self.L, self.S = R, s, L, s.S
        self.vs = VSem(s)

    def skip(self, inst, why):
        self.R.notes.setdefault('not decided', []).append('%s: %s' % (inst, why))

    def setup(self, v, absent, kind):
        """state in which node ARG has the children the case fixes"""
        s, L = self.s, self.L
        n = v.node
        st = s.region(ARG, 'NT_' + L.low(n).upper())
        obj = {}
        for c in n.lists['ichildren']:
            w = 'ccnw_%s_%s' % (L.low(n), L.low(c))
            if c in absent:
                if not s.put(st, w, ARG, ZERO):
                    return None, None
                continue
            o = ('in', 'k_' + L.low(c))
            t = kind[c] if c in kind else c.target
            st.heap.update(s.region(o, 'NT_' + L.low(t).upper()).heap)
            st.assume(o, True)
            if not s.put(st, w, ARG, o):
                return None, None
            obj[c] = (o, t)
        return st, obj

    def where(self, st, owner, obj, a):
        return self.s.loc('ccnw_%s_%s' % (self.L.low(owner), self.L.low(a)), obj, st)


def same(a, b):
    return ne(a) == ne(b)


def find(t, name):
    """attribute of node type t with the given name"""
    for a in t.lists['iattributes']:
        if a is name or a.S_low == name:
            return a
    return None


def cases(v):
    """assignments of presence to the optional children and of types to the children of a nodeset the visit mentions"""
    used = []
    for step in v.steps:
        cs = [step[1]] if step[0] == 'visit' else [c for c, _ in [step[1].rule] + list(step[1].args)]
        for c in cs:
            if c is not None and c not in used:
                used.append(c)
    opt = [c for c in used if not c.flags['is_mandatory']]
    allopt = [c for c in v.node.lists['ichildren'] if not c.flags['is_mandatory']]
    sets = [c for c in used if c.target.kind == 'inodeset']
    for k in range(len(opt) + 1):
        for ab in itertools.combinations(opt, k):
            here = [c for c in sets if c not in ab]
            for ts in itertools.product(*[c.target.members for c in here]):
                kind = dict(zip(here, ts))
                for c in v.node.lists['ichildren']:
                    if c.target.kind == 'inodeset' and c not in kind:
                        kind[c] = c.target.members[0]
                yield [c for c in allopt if c in ab], kind


def check_visit(C, v):
    R, s, L, S = C.R, C.s, C.L, C.S
    name = L.visitname(v)
    f = s.func(name)
    inst = name
    if f is None or f.body is None:
        R.ob('visit', inst)
        if not s.D.M.broken:
            R.viol('visit', inst, 'the derived project does not define %s, the visit %d of %s' % (name, v.index, S.names[v.node.label + '.name']))
        return
    for absent, kind in cases(v):
        case = '%s%s%s' % (name, ' without ' + ', '.join(L.low(c) for c in absent) if absent else '',
                           ', ' + ', '.join('%s a %s' % (L.low(c), L.low(t)) for c, t in kind.items() if c.target.kind == 'inodeset' and c not in absent) if kind else '')
        init, obj = C.setup(v, absent, kind)
        if init is None:
            C.skip(case, 'children accessors not resolved')
            continue
        # expected behaviour
        exp = []       # ('store', (obj, attr), value) | ('call', name, args as values, result key)
        val = {}       # (obj, attr name) -> value
        bad = []

        def read(c, a):
            o, t = (ARG, v.node) if c is None else obj[c]
            a2 = [x for x in t.lists['iattributes'] if L.low(x) == L.low(a)][0]
            l = C.where(init, t, o, a2)
            if l is None:
                bad.append(L.low(a))
                return None
            k = (ne(l[0]), l[1])
            return val[k] if k in val else s.read(init, l)

        def store(o, t, a, x):
            a2 = [y for y in t.lists['iattributes'] if L.low(y) == L.low(a)][0]
            l = C.where(init, t, o, a2)
            if l is None:
                bad.append(L.low(a))
                return
            k = (ne(l[0]), l[1])
            val[k] = x
            exp.append(('store', k, x, '%s of %s' % (L.low(a), 'the node' if o == ARG else o[1][2:])))
        params = [('in', 'p_' + L.low(a)) for a in v.inputs]
        for a, x in zip(v.inputs, params):
            store(ARG, v.node, a, x)
        ncall = [0]

        def called(nm):
            rv = ('in', '%s@%d' % (nm, ncall[0]))
            ncall[0] += 1
            return rv
        result = {}
        for step in v.steps:
            if step[0] == 'eval':
                e = step[1]
                c, a = e.rule
                nm = L.evalname(v.node, e, absent)
                args = [read(cc, aa) for cc, aa in L.evalargs(e, absent)]
                rv = called(nm)
                exp.append(('call', nm, args, rv))
                if c is None:
                    result[L.low(a)] = rv
                    store(ARG, v.node, a, rv)
                elif c not in absent:
                    store(obj[c][0], obj[c][1], a, rv)
            else:
                c = step[1]
                if c in absent:
                    continue
                o, t = obj[c]
                tv = [x for x in step[2] if x.kind == 'visit' and x.node is t]
                if tv:
                    nm = L.visitname(tv[0])
                    args = [o] + [read(c, a) for a in tv[0].inputs]
                    rv = called(nm)
                    exp.append(('call', nm, args, rv))
        if bad:
            C.skip(case, 'accessor of %s not resolved' % bad[0])
            continue
        R.ob('visit', case)
        try:
            outs = C.vs.run(f, [ARG] + params, init)
        except AnalysisBroken as x:
            C.skip(case, str(x)[:80])
            continue
        site = name
        w = ' [emitted by %s]' % s.where(f)
        if len(outs) != 1:
            if not outs:
                R.viol('visit', site, '%s: no execution of the function reaches its end%s' % (case, w))
            else:
                C.skip(case, '%d paths' % len(outs))
            continue
        st, rv = outs[0]
        msg = judge(C, st.mon or (), exp)
        if msg:
            R.viol('visit', site, '%s: %s%s' % (case, msg, w))
            continue
        R.ob('result', case)
        if len(v.outputs) == 1:
            a = L.low(v.outputs[0])
            x = result.get(a)
            if x is not None and (rv is None or not same(rv, x)):
                R.viol('result', site, '%s: the visit does not return the value computed for %s%s' % (case, a, w))
        elif len(v.outputs) > 1:
            for o in v.outputs:
                a = L.low(o)
                x = result.get(a)
                y = [e[3] for e in st.mon or () if e[0] == 'local' and e[1] == rv and e[2] == 'this_' + a]
                y = y[-1] if y else s.read(st, (rv, 'this_' + a)) if rv is not None else None
                if x is not None and y is not None and not same(y, x):
                    if concrete(y):
                        R.viol('result', site, '%s: the visit returns another value than the one computed for %s%s' % (case, a, w))
                    else:
                        C.skip(case, 'result %s is not followed' % a)


def concrete(v):
    return v[0] in ('c', 'in', 's')


def judge(C, mon, exp):
    """the calls are made in order with their arguments; what each call is to find stored has been stored"""
    exp = list(exp)
    stored = {}
    flags = {}
    allowed = set(e[1] for e in exp if e[0] == 'store')
    calls = [e for e in exp if e[0] == 'call']
    k = 0
    pos = 0

    def due():
        nonlocal pos
        while pos < len(exp) and exp[pos][0] == 'store':
            _, key, x, what = exp[pos]
            if key not in stored or not same(stored[key], x):
                return 'the value of %s is not stored %s' % (what, 'before %s is called' % calls[k][1] if k < len(calls) else 'when the visit ends') if key not in stored else 'another value is stored as %s' % what
            if not flags.get(key[0]):
                return 'the value of %s is stored but not marked as set' % what
            pos += 1
        return None
    for e in mon:
        if e[0] == 'store':
            loc, x = e[1], e[2]
            base, fld = ne(loc[1]), loc[2]
            if fld == 'ccn_val_set':
                flags[base] = x != ZERO
                continue
            if (base, fld) in allowed:
                stored[(base, fld)] = x
            elif len(loc) > 1 and rooted_in_tree(base):
                return 'the visit writes %s, which no step defines' % (fld,)
        elif e[0] == 'made':
            m = due()
            if m:
                return m
            # (an evaluation for an absent child has nowhere to store its result and may be left out)
            if k >= len(calls):
                return '%s is called, which is not a step of the visit' % e[1]
            _, nm, args, rv = calls[k]
            if e[1] != nm:
                return '%s is called where %s is due' % (e[1], nm)
            if len(args) != len(e[2]):
                return '%s is called with %d arguments instead of %d' % (nm, len(e[2]), len(args))
            for i, (a, b) in enumerate(zip(e[2], args)):
                if not same(a, b):
                    return 'argument %d of %s is not the value of the attribute it depends on' % (i + 1, nm)
            k += 1
            pos += 1
    if k < len(calls):
        return 'the visit ends without calling %s' % calls[k][1]
    return due()


def rooted_in_tree(v):
    while isinstance(v, tuple) and v and v[0] in ('&', 'fld'):
        v = v[1]
    return isinstance(v, tuple) and v and v[0] == 'in'


def c41(R, P):
    R.rule('derive', 'the visits and headers generated for a specification with scheduled visits compile')
    R.rule('visit', 'a generated visit stores its inputs, then makes the evaluations and visits of its schedule in order, with the values of the attributes they depend on, and stores every result, marked as set, before the next step; an absent child is not visited; of a nodeset child exactly the visit for its node type is made')
    R.rule('result', 'a generated visit returns the values computed for its outputs')
    R.rule('entry', 'CCNevaluateAttributes makes all visits of the node it is given, in order')
    s = sem(P)
    L = Lay(s.S)
    account(R, s)
    vis = [e for e in errors_of(s) if e[0].startswith(('src/visit', 'ccngen/visit', 'src/ag', 'ccngen/ag', 'witness/vis_'))]
    R.ob('derive', 'visit functions')
    if not s.D.M.broken:
        for e in vis[:3]:
            R.viol('derive', e[0], '%s:%d of the derived project does not compile: %s [%s]' % (e[0], e[1], e[2], s.D.where(e[0], e[1])))
    C = Case(R, s, L)
    for n in L.nodes:
        for v in n.lists['visit']:
            check_visit(C, v)
    f = s.func('CCNevaluateAttributes')
    for n in L.nodes:
        vs = n.lists['visit']
        if not vs or any(v.inputs for v in vs):
            continue
        inst = 'CCNevaluateAttributes(%s)' % L.low(n)
        if f is None or f.body is None:
            C.skip(inst, 'not derived')
            continue
        R.ob('entry', inst)
        st = s.region(ARG, 'NT_' + L.low(n).upper())
        try:
            outs = C.vs.run(f, [ARG], st)
        except AnalysisBroken as x:
            C.skip(inst, str(x)[:80])
            continue
        want = [(L.visitname(v), (ARG,)) for v in vs]
        for st, _ in outs:
            got = [(e[1], tuple(ne(x) for x in e[2])) for e in st.mon or () if e[0] == 'made']
            if got != want:
                R.viol('entry', inst, '%s makes the visits [%s] instead of [%s] [emitted by %s]' % (inst, ', '.join(x[0] for x in got), ', '.join(x[0] for x in want), s.where(f)))
                break
            if any(e[0] == 'call' and e[1].startswith('CTI') for e in st.mon or ()):
                R.viol('entry', inst, '%s reports an error after the visits of a node it can evaluate' % inst)
                break
    if len(R.obls) < 20 and not R.viols and not s.D.M.broken:
        raise AnalysisBroken('only %d obligations' % len(R.obls))


def c42(R, P):
    R.rule('declared', 'for every equation and every subset of the optional children it reads there is a declaration of the evaluation function with the types of the attributes of the rule and of the children that are present')
    R.rule('stub', 'for each of them, and nothing else, the user files contain a definition')
    R.rule('compile', 'equation headers and the stubs that include them compile')
    s = sem(P)
    S = s.S
    L = Lay(S)
    broken = bool(s.D.M.broken)
    account(R, s)
    want = {}
    for n in L.nodes:
        for e in n.lists['iequations']:
            opt = L.optional(e)
            for k in range(len(opt) + 1):
                for ab in itertools.combinations(opt, k):
                    want[L.evalname(n, e, ab)] = (n, e, ab)
    errs = errors_of(s)
    for n in L.nodes:
        for e in n.lists['iequations']:
            p = 'witness/%s.c' % L.evalname(n, e, ()).lower()
            R.ob('declared', p)
            own = [x for x in errs if x[0] == p]
            if own and not broken:
                R.viol('declared', L.evalname(n, e, ()), 'the functions of the equation for %s.%s are not declared with the types of its attributes: %s' % ('this' if e.rule[0] is None else L.low(e.rule[0]), L.low(e.rule[1]), own[0][2]))
    rest = [x for x in errs if x[0].startswith(('ccngen/equation', 'user/eq_'))]
    R.ob('compile', 'equation headers and stubs')
    if not broken:
        for x in rest[:3]:
            R.viol('compile', x[0], '%s:%d of the derived project does not compile: %s [%s]' % (x[0], x[1], x[2], s.D.where(x[0], x[1])))
    have = set()
    for f in s.G.all_funcs():
        if f.name.startswith('EVAL') and f.body is not None and s.D.rel(f.file).startswith('user/'):
            have.add(f.name)
    unp = [u for u in s.D.unparsed if u.startswith('user/eq_')]
    for nm in sorted(want):
        R.ob('stub', nm)
        if nm not in have and not broken and not unp:
            R.viol('stub', nm, 'no stub is generated for %s, which generated visits call' % nm)
    for nm in sorted(have - set(want)):
        R.ob('stub', nm)
        if not broken:
            R.viol('stub', nm, 'the stub %s belongs to no equation' % nm)
