"""Abstract semantics of the derived compiler's functions.

A derived function (genprog) is abstractly interpreted (absint) from a region
of inputs given by facts about the node it is applied to; derived accessors and
helpers are inlined, calls into copra and palm stay symbolic.  The result is
the final abstract store, the returned value and the effects in order.
"""
import os, re
import absint
from absint import Engine, Monitor, State, ZERO, subterms
from program import AnalysisBroken, rel

BASIC = {'int': 'int', 'string': 'char *', 'bool': '_Bool', 'int8': 'int8_t', 'int16': 'int16_t', 'int32': 'int32_t', 'int64': 'int64_t',
         'float': 'float', 'double': 'double', 'uint': 'unsigned int', 'uint8': 'uint8_t', 'uint16': 'uint16_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t'}
NFIELDS = ('TYPE', 'CHILDREN', 'NUMCHILDREN', 'FILENAME', 'BLINE', 'ELINE', 'BCOL', 'ECOL')


def ctype(S, a):
    """C type the specification gives an attribute / traversal data field"""
    t = {v: k[3:] for k, v in S.AT.items()}[a.flags['type']]
    if t in BASIC:
        return BASIC[t]
    if t == 'link':
        return 'struct ccn_node *'
    ref = S.lookups.get(a.label + '.type_reference')
    if t == 'link_or_enum':
        if ref is not None and ref.kind == 'inode':
            return 'struct ccn_node *'
        return 'enum ' + S.names[ref.label + '.name']
    return S.names[a.label + '.type_reference']      # user type


class Field:
    def __init__(self, S, owner, inst, is_child):
        self.S, self.owner, self.inst, self.is_child = S, owner, inst, is_child
        self.orig = S.names[inst.label + '.name']
        self.lwr, self.upr = self.orig.lower(), self.orig.upper()
        self.ctor = bool(inst.flags.get('in_constructor'))
        self.ag = bool(inst.flags.get('is_inherited') or inst.flags.get('is_synthesized')) if not is_child else False
        self.ctype = 'struct ccn_node *' if is_child else ctype(S, inst)
        self.is_string = not is_child and self.ctype == 'char *'
        self.macro = owner.upr + '_' + self.upr
        self.w = 'ccnw_%s_%s' % (owner.lwr, self.lwr)


class NodeT:
    def __init__(self, S, n):
        self.inst = n
        self.orig = S.names[n.label + '.name']
        self.lwr, self.upr = self.orig.lower(), self.orig.upper()
        self.nt = 'NT_' + self.upr
        self.children = [Field(S, self, c, True) for c in n.lists['ichildren']]
        self.attrs = [Field(S, self, a, False) for a in n.lists['iattributes']]
        self.fields = self.children + self.attrs


def nodes_of(S):
    return [NodeT(S, n) for n in S.nn['inode']]


class SetT:
    """a nodeset with its attributes"""
    def __init__(self, S, x):
        self.inst = x
        self.orig = S.names[x.label + '.name']
        self.lwr, self.upr = self.orig.lower(), self.orig.upper()
        self.attrs = [Field(S, self, a, False) for a in x.lists['iattributes']]
        for f in self.attrs:
            f.w = 'ccnw_set_%s_%s' % (self.lwr, f.lwr)
        self.members = [S.names[m.label + '.name'].lower() for m in x.members]


def sets_of(S):
    return [SetT(S, x) for x in S.nn['inodeset']]


def witness(f):
    if f.ag:       # computed attributes are read only
        return '%s %s(node_st *n) { return %s(n); }' % (f.ctype, f.w, f.macro)
    return 'void *%s(node_st *n) { return (void *)&%s(n); }' % (f.w, f.macro)


def witness_access(S):
    """one translation unit per node type: the address every accessor designates"""
    r = {}
    for n in nodes_of(S):
        t = ['#include "ccngen/ast.h"']
        for f in n.fields:
            t.append(witness(f))
        r['witness/acc_%s.c' % n.lwr] = '\n'.join(t) + '\n'
    for x in sets_of(S):
        if x.attrs:
            r['witness/set_%s.c' % x.lwr] = '#include "ccngen/ast.h"\n' + ''.join(witness(f) + '\n' for f in x.attrs)
    r['witness/acc_node.c'] = '#include "ccngen/ast.h"\n' + ''.join('void *ccnw_node_%s(node_st *n) { return (void *)&NODE_%s(n); }\n' % (x.lower(), x) for x in NFIELDS)
    t = '#include "ccngen/ast.h"\n#include "ccngen/trav_data.h"\n#include "ccn/dynamic_core.h"\n'
    for x in S.nn['itraversal']:
        if x.lists['data']:
            u = S.names[x.label + '.iprefix']
            t += 'void *ccnw_data_%s(void) { return (void *)DATA_%s_GET(); }\n' % (u.lower(), u.upper())
            for d in x.lists['data']:
                nm = S.names[d.label + '.name']
                t += 'void *ccnw_tdata_%s_%s(void) { return (void *)&DATA_%s_GET()->%s; }\n' % (u.lower(), nm, u.upper(), nm)
    r['witness/acc_data.c'] = t
    return r


def ne(v):
    """value without epochs and call sites"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'fld' and len(v) == 4:
        return ('fld', ne(v[1]), ne(v[2]))
    if v[0] == 'call' and len(v) == 4:
        return ('call', v[1], tuple(ne(x) for x in v[3]))
    return tuple(ne(x) if isinstance(x, tuple) else x for x in v)


def rooted(v, root):
    return any(t == root for t in subterms(v))


class Rec(Monitor):
    """records the effects of a function in order"""
    def __init__(self, sem):
        self.sem = sem

    def call(self, eng, st, fr, node, name, cv, argv):
        if name in self.sem.fixed:
            return [(st, self.sem.fixed[name])]
        return None

    def roots(self, mon):
        for e in mon or ():
            if e[0] == 'store':
                yield e[2]
            elif e[0] == 'call':
                yield from e[2]

    def store(self, eng, st, fr, node, loc, val):
        if loc[0] == 'V' or eng.private(loc[1]) and loc[1][0] == '&v':
            return None
        return (st.mon or ()) + (('store', loc, val, fr.func.name, node.line),)

    def after_call(self, eng, st, fr, node, name, argv, rv):
        return (st.mon or ()) + (('call', name or '?', tuple(argv), fr.func.name, node.line, rv),)

    def read_field(self, st, base, f):
        if st.mon:
            fr = [e[2][0] for e in st.mon if e[0] == 'call' and e[1] in FREES and e[2]]
            if fr:
                b = base
                while b[0] == '&':
                    b = b[1]
                if b in fr or ne(b) in [ne(x) for x in fr]:
                    st.mon = st.mon + (('uaf', ne(b), f),)
        return None

    def nonnull_result(self, name):
        return name in ('MEMmalloc', 'MEMrealloc', 'STRfmt', 'TRAVgetCurrent', 'STRcat')


FREES = ('MEMfree', 'free')


class SemEngine(Engine):
    def may_alias(self, a, b, fa, fb):
        ra, rb = a, b
        while ra[0] == '&':
            ra = ra[1]
        while rb[0] == '&':
            rb = rb[1]
        if ra != rb:
            if ra[0] == 'call' and ra[1] in absint.FRESH and (rb[0] in ('in', 'obj') or rb[0] == 'fld' and not rooted(rb, ra)):
                return False
            if rb[0] == 'call' and rb[1] in absint.FRESH and (ra[0] in ('in', 'obj') or ra[0] == 'fld' and not rooted(ra, rb)):
                return False
            if ra[0] == 'obj' and rb[0] in ('obj', 'in') or ra[0] == 'in' and rb[0] == 'obj':
                return False
        elif a != b:
            return False           # different members of one object
        return super().may_alias(a, b, fa, fb)


class Sem:
    def __init__(self, D):
        self.D, self.G, self.S = D, D.G, D.S
        self.derived = {}
        for f in self.G.all_funcs():
            f.raw = True
            p = D.rel(f.file)
            self.derived[id(f)] = p.startswith(('src/', 'ccngen/', 'witness/'))
        self.nodes = nodes_of(self.S)
        self.sets = sets_of(self.S)
        self.byorig = {n.orig.lower(): n for n in self.nodes}
        self.enums = {}
        for en, vs in self.G.enums.items():
            self.enums[en] = dict(vs)
        self.runs = 0
        self.fixed = {}         # copra functions with a given result

    def file(self, f):
        return self.D.rel(f.file)

    def where(self, f, line=None):
        return self.D.where(self.file(f), line or f.line)

    def complete(self, f, seen=None):
        """every project function f may call has been derived"""
        seen = seen if seen is not None else set()
        if f.name in seen:
            return True
        seen.add(f.name)
        work = [f.body]
        while work:
            x = work.pop()
            if isinstance(x, list):
                work += x
            elif isinstance(x, dict):
                work += list(x.values())
                if x.get('k') in ('call', 'fn') and x.get('n'):
                    g = self.G.resolve(f.tu, x['n'])
                    if g is not None:
                        if self.derived.get(id(g)) and not self.complete(g, seen):
                            return False
                    else:
                        d = self.G.decls.get(x['n'])
                        p = self.D.rel(d['file']) if d else '?'
                        if not p.startswith(('/', 'palm/', 'copra/')):
                            return False
        return True

    def policy(self, eng, caller, name):
        f = self.G.resolve(caller.tu, name)
        if f is not None and self.derived.get(id(f)) and f.body is not None:
            return 'inline'
        return 'opaque'

    def engine(self, budget=60000):
        e = SemEngine(self.G, monitor=Rec(self), policy=self.policy, maxdepth=8, cap=200, budget=budget)
        return e

    def run(self, f, args, init=None, budget=60000):
        """[(state, return value)]"""
        self.runs += 1
        e = self.engine(budget)
        st = init.copy() if init is not None else State(mon=())
        st.env = {}
        st.mon = ()
        return e.run(f, (), list(args), st)

    def func(self, name, tu=None):
        return self.G.resolve(tu, name)

    def loc(self, wname, obj, init=None):
        """heap location an accessor designates for node value obj"""
        f = self.G.funcs.get(wname)
        if f is None:
            return None
        r = self.run(f, [obj] if obj is not None else [], init)
        r = [x for x in r if x[1] is not None]
        if len(r) != 1:
            return None
        v = r[0][1]
        if v[0] == '&':
            return (v[1], v[2])
        if v[0] == 'fld':
            return (v[1], v[2])
        return None

    def read(self, st, l):
        e = self.engine()
        s2 = st.copy()
        s2.mon = ()
        return e.read(s2, ('L', l[0], l[1]))

    def put(self, st, wname, obj, val):
        l = self.loc(wname, obj, st)
        if l is None:
            return False
        st.heap[l] = val
        return True

    def region(self, obj, ntype):
        """state in which obj is a node of the given type"""
        st = State(mon=())
        v = self.enums.get('ccn_nodetype', {}).get(ntype)
        if v is None or not self.put(st, 'ccnw_node_type', obj, ('c', v)):
            raise AnalysisBroken('no node type %s in the derived enum' % ntype)
        st.assume(obj, True)
        return st

    # ------------------------------------------------------------ tables
    def glob(self, name):
        g = self.G.globals.get(name)
        if g is None:
            c = [x for (t, n), x in self.G.sglobals.items() if n == name]
            g = c[0] if len(c) == 1 else None
        return g

    def elems(self, name):
        g = self.glob(name)
        if g is None or 'init' not in g or 'elems' not in g['init']:
            return None
        return [strip(x) for x in g['init']['elems']]

    def enum(self, en):
        return self.enums.get(en)


def strip(x):
    while x is not None and x.get('k') in ('un', 'cast'):
        x = x['a']
    return x


def tname(x):
    """function or variable an initialiser element names"""
    if x is None:
        return None
    if x['k'] in ('var', 'fn', 'func', 'ref'):
        return x.get('n')
    if x['k'] in ('null', 'int') and not x.get('v'):
        return None
    return x.get('n')


def offset(G, rec, path):
    """byte offset of a member path in a record"""
    o = 0
    for f in path:
        fl = [x for x in G.records.get(rec, []) if x['n'] == f]
        if not fl or 'o' not in fl[0]:
            return None
        o += fl[0]['o']
        m = re.match(r'^(?:const )?(?:struct|union) (\w+)$', fl[0]['t'])
        rec = m.group(1) if m else None
    return o


def peel(v):
    """('&', ('&', root, f1), f2) -> (root, [f1, f2])"""
    p = []
    while v[0] == '&':
        p.append(v[2])
        v = v[1]
    return v, p[::-1]
