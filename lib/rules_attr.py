"""Equations of attribute grammars (C37): every equation and dependency refers to an
attribute that exists and may be used there, and no equation is missing."""
from emit import Path, isglob
from program import AnalysisBroken
from rules_front import (frontend, contexts, fval, ev3, consistent, reports, sub, noglob, lower_eq, Hook, flat, SEM)

CH = 'inode.ichildren'
ATT = {'inode': 'inode.iattributes', 'inodeset': 'inodeset.iattributes'}
REF = 'attribute_reference.'


def subst(t, m):
    try:
        if t in m:
            return m[t]
    except TypeError:
        pass                            # holds the bodies of a loop
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, (tuple, list)) else x for x in t)
    if isinstance(t, list):
        return [subst(x, m) for x in t]
    return t


def constant(p):
    """variables that no iteration of a loop changes have their value from before it"""
    ev = p.ev
    for _ in range(8):
        m = {}
        for e in flat(ev):
            if e[0] == 'loop':
                for phi, init in e[2]:
                    vals = [v for b in e[1] if b and b[-1][0] == 'back' for q, v in b[-1][1] if q == phi]
                    if vals and all(v == phi for v in vals):
                        m[phi] = init
        if not m:
            break
        ev = tuple((('loop', [subst(b, m) for b in e[1]], tuple((a, subst(b, m)) for a, b in e[2] if a not in m)) if e[0] == 'loop' else
                    e if e[0] in ('list', 'start') else subst(e, m)) for e in ev)
    out = []
    for e in ev:
        if e[0] == 'if' and e[1][0] == 'c':
            if bool(e[1][1]) != e[2]:
                return None
            continue
        out.append(e)
    return Path(tuple(out), p.ret, p.globs, p.type)


def paths(F, t, above, nt):
    out = []
    seen = set()
    for c, p in contexts(F, t):
        if c[-1] == nt and c[-1 - len(above):-1] == tuple(above) and not any(e[0] in ('broken', 'rec') for e in p.ev):
            if id(p) in seen:
                continue
            seen.add(id(p))
            q = constant(p)
            if q is not None:
                out.append(q)
    return out


def loops(ev):
    for i, e in enumerate(ev):
        if e[0] == 'loop':
            for phi, init in e[2]:
                yield i, phi, noglob(init) if init[0] == 'fld' else init, e[1]


def named(t, phi, names):
    """(name field of element phi, identifier it is compared with) when t compares them without regard to case"""
    if not (t[0] == 'call' and len(t) == 4 and t[1] in ('STReq', 'STReqci') and len(t[3]) == 2):
        return None
    x, y = t[3]
    for a, b in ((x, y), (y, x)):
        if a[0] == 'fld' and b[0] == 'fld' and a[1][0] == 'fld' and a[1][1] == phi and a[1][2] in names:
            if t[1] == 'STReqci' or a[2] == b[2] and a[2] in ('id.lwr', 'id.upr'):
                return a[1], noglob(b[1])
    return None


NAMES = ('child.name', 'attribute.name')


class Look:
    """searches and cached searches on the paths of the traversal"""
    def __init__(self, R, F, t, fn):
        self.R, self.F, self.t, self.fn = R, F, t, fn
        self.tables = {}
        self.scopes = {}

    def owner(self, o):
        """a node kept in the data of the traversal is the node that is examined when its handler stores it before it visits anything"""
        o = noglob(o)
        if o[0] != 'fld' or not isglob(o[1]):
            return o
        k = o[2]
        if k not in self.scopes:
            R, me = self.R, ('node', 'inode')
            hit = lambda e: e[0] == 'gset' and (e[1] == k or e[1].endswith('.' + k))
            fn = None
            for c, p in contexts(self.F, self.t):
                if any(e[0] in ('broken', 'rec') for e in p.ev):
                    continue
                w = [i for i, e in enumerate(p.ev) if hit(e)]
                if c[-1] == 'inode':
                    R.ob('scope', k)
                    v = [i for i, e in enumerate(p.ev) if e[0] == 'list' and any(x[0] != 'cti' for q in e[3] for x in q.ev)]
                    if not w or p.ev[w[0]][2] != me or v and v[0] < w[0]:
                        R.viol('scope', k, 'the node that is examined is not stored before its declarations are visited', fn)
                    w = w[1:]
                if any(p.ev[i][2] != me for i in w):
                    R.viol('scope', k, 'the node that is examined is replaced while its declarations are visited', fn)
            self.scopes[k] = True
        return ('node', 'inode')

    def element(self, p, v):
        """(kind, owner, key) of the search that found v: what v is known to be; str: what is wrong; None: unknown"""
        if v[0] == 'phi':
            for i, phi, init, bodies in loops(p.ev):
                if phi != v:
                    continue
                kind = 'child' if init[0] == 'fld' and init[2] == CH else 'attribute' if init[0] == 'fld' and init[2] in ATT.values() else None
                if kind is None:
                    return None
                keys = [named(e[1], v, NAMES) for e in p.ev[i + 1:] if e[0] == 'if' and e[2]]
                keys = [k[1] for k in keys if k]
                if not keys:
                    return 'an element of %s is taken whatever its name' % init[2]
                s = self.walk(p, i, phi, init, bodies, keys[0])
                return s or (kind, self.owner(init[1]), keys[0], init[2], init[1])
            return None
        if v[0] == 'call' and len(v) == 4 and v[1] == 'HTlookup' and v[3][0][0] == 'call' and v[3][0][1] == 'HTlookup':
            T, N = v[3][0][3]
            k = v[3][1]
            if k[0] == 'fld' and k[2] in ('id.lwr', 'id.upr', 'id.orig'):
                return ('cached', self.owner(N), noglob(k[1]), T)
        return None

    def walk(self, p, i, phi, init, bodies, key):
        nxt = ('child' if init[2] == CH else 'attribute') + '.next'

        def h(t):
            if t == phi:
                return 1
            n = named(t, phi, NAMES)
            if n and n[1] == key:
                return 1
            return None
        for b in bodies:
            q = Path(b, None, None)
            if consistent(q, h) and not any(e[0] == 'cti' for e in b):
                return 'the search in %s goes on behind an element with the name' % init[2]
            if b and b[-1][0] == 'back':
                for q, v in b[-1][1]:
                    if q == phi and v != ('fld', phi, nxt):
                        return 'the search in %s does not go on with the next element' % init[2]
        return None

    def exhausted(self, p):
        """searches that ended without a result on this path: (kind, owner, key)"""
        r = []
        for i, phi, init, bodies in loops(p.ev):
            if init[0] != 'fld' or init[2] not in (CH,) + tuple(ATT.values()):
                continue
            if any(e[0] == 'if' and e[1] == phi and not e[2] for e in p.ev[i + 1:]) or \
                    any(e[0] == 'if' and e[1][0] == 'op' and phi in e[1] and ('c', 0) in e[1] and e[2] == (e[1][1] == '==') for e in p.ev[i + 1:]):
                keys = set(named(e[1], phi, NAMES)[1] for b in bodies for e in b if e[0] == 'if' and not e[2] and named(e[1], phi, NAMES))
                kind = 'child' if init[2] == CH else 'attribute'
                if len(keys) == 1:
                    k = keys.pop()
                    s = self.walk(p, i, phi, init, bodies, k)
                    r.append((kind, self.owner(init[1]), k, s))
                else:
                    r.append((kind, self.owner(init[1]), None, None))
        return r

    def inserts(self, p):
        """(table, owner, key, value) of what is put into a table of tables on this path"""
        subs = {}
        for e in flat(p.ev):
            if e[0] == 'call' and e[1] == ('fn', 'HTinsert') and len(e[2]) == 3:
                T, k, v = e[2]
                if v[0] == 'call' and v[1].startswith('HTnew'):
                    subs[v] = (T, k)
                elif T[0] == 'call' and T[1] == 'HTlookup' and len(T) == 4:
                    yield T[3][0], T[3][1], k, v
                elif T in subs or any(T[:2] == s[:2] for s in subs if s[1] == T[1]):
                    T, N = subs.get(T) or [w for s, w in subs.items() if s[1] == T[1]][-1]
                    yield T, N, k, v


def c37(R, P):
    R.rule('defines', 'an equation is reported unless it defines a synthesized attribute of the node itself or an inherited attribute of a child')
    R.rule('exists', 'a child or attribute that an equation or dependency refers to and that does not exist is reported; one that exists is not')
    R.rule('link', 'a reference is linked to the attribute (and child) with its name, in the node it refers to, whatever the case of the name')
    R.rule('cache', 'results of searches are kept under the node and name they were found for')
    R.rule('complete', 'a synthesized attribute of a node and an inherited attribute of a child without an equation is reported, one with an equation is not')
    R.rule('scope', 'the node and the table of names in use are those of the declaration that is examined')
    F = frontend(P)
    t = None
    for x in SEM:
        ps = paths(F, x, ('inode',), 'equation')
        if any(e[0] == 'set' and e[2] == REF + 'reference' for p in ps for e in p.ev):
            t = x
            break
    if t is None:
        R.ob('link', 'equation')
        R.viol('link', 'equation', 'no check links the rules of equations to attributes')
        return
    H = lambda nt: P.resolve(None, F.handler(t, nt) or '') if F.handler(t, nt) else None
    L = Look(R, F, t, None)
    every = {}
    for el, above, f in (('equation', ('inode',), 'rule'), ('equation_dependency', ('inode', 'equation'), 'iattribute')):
        ps = paths(F, t, above, el)
        if not any(e[0] == 'set' and e[2] == REF + 'reference' for p in ps for e in p.ev):
            for x in SEM:
                qs = paths(F, x, above, el)
                if any(e[0] == 'set' and e[2] == REF + 'reference' for p in qs for e in p.ev):
                    R.notes.setdefault('not decided', []).append('%s is linked in a traversal of its own' % el)
                    ps = None
                    break
        if ps is not None:
            every[el] = (ps, fval(el, f))
    caches(R, L, [p for ps, _ in every.values() for p in ps], H('equation'))
    for el, (ps, ref) in every.items():
        fn = H(el)
        if fn is not None:
            R.func(fn)
        if not ps:
            R.ob('link', el)
            R.viol('link', el, 'the elements %s are not looked at' % el, H('equation'))
            continue
        for p in ps:
            reference(R, F, L, p, ref, el == 'equation', el, fn)
    complete(R, P, F, L, t, H)
    R.need('complete', 4)
    R.need('link', 4)


def caches(R, L, ps, fn):
    for p in ps:
        for T, N, k, v in L.inserts(p):
            inst = T[2] if T[0] == 'fld' else 'table'
            R.ob('cache', inst)
            x = L.element(p, v)
            if x is None or x[0] == 'cached':
                continue
            if isinstance(x, str):
                continue        # reported where the result is used
            L.tables.setdefault(T, set()).add(x[0])
            if L.owner(N) != x[1]:
                R.viol('cache', inst, 'what was found in the %s list of one node is kept for another node' % x[0], fn)
            if k[0] == 'fld' and k[2].startswith('id.') and noglob(k[1]) != x[2]:
                owns = k[1][0] == 'fld' and k[1][1] == v
                if not owns:
                    R.viol('cache', inst, 'what was found for one name is kept under another name', fn)
    for T, kinds in L.tables.items():
        if len(kinds) > 1:
            R.viol('cache', T[2] if T[0] == 'fld' else 'table', 'children and attributes are kept in the same table under the same names', fn)


def known(p, terms, upto=None):
    for e in p.ev:
        if e[0] == 'if' and e[1] in terms:
            return e[2]
    return None


def reference(R, F, L, p, ref, rule, el, fn):
    inod, iatt = ('fld', ref, REF + 'inode'), ('fld', ref, REF + 'iattribute')
    child = known(p, (inod,))
    own = 'this.a' if child is False else 'child.a'
    me = ('node', 'inode')
    rep = reports(p)
    sets = {e[2]: e[3] for e in p.ev if e[0] == 'set' and e[1] == ref}
    ex = L.exhausted(p)
    inst = '%s %s' % (el, own)
    if child is None:
        if not rep:
            R.ob('link', el)
            R.viol('link', el, 'a reference to the node itself is not told from one to a child' if REF + 'reference' in sets else
                   'a reference is neither linked to an attribute nor reported', fn)
        return

    def owner(o, what):
        """is o the node whose list has to be searched? str: no"""
        o = noglob(o)
        if child is False:
            if o == me:
                return None
            if o[0] == 'fld' and o[1] != me and not any(x == me for x in sub(o)):
                return 'the %s is searched in a node that is not the one with the equation' % what
            return 'the %s of the node itself is searched elsewhere' % what
        if o == me:
            return 'the %s of a child is searched in the node with the equation' % what
        if o[0] == 'call' and o[1] == 'STlookup':
            k = o[3][1]
            if k[0] == 'fld' and k[2] == 'child.type_reference':
                c = L.element(p, k[1])
                if c is None:
                    return None
                if isinstance(c, str):
                    return c
                kind = L.tables.get(c[3], {'child'}) if c[0] == 'cached' else {c[0]}
                if kind != {'child'}:
                    return 'what is taken for a child was not found among the children'
                if noglob(c[1]) != me:
                    return 'the child is searched in another node'
                if c[2] != inod:
                    return 'the child is searched under another name'
                return None
            return 'the %s is searched in something that is not the type of the child' % what
        return None

    if not rep:
        if REF + 'reference' not in sets:
            R.ob('link', inst)
            R.viol('link', inst, 'a reference is neither linked to an attribute nor reported', fn)
            return
        R.ob('link', inst)
        R.ob('exists', inst)
        a = sets[REF + 'reference']
        x = L.element(p, a)
        if isinstance(x, str):
            R.viol('link', inst, x, fn)
        elif x is not None:
            kind = L.tables.get(x[3], {'attribute'}) if x[0] == 'cached' else {x[0]}
            if kind != {'attribute'}:
                R.viol('link', inst, 'what is taken for an attribute was not found among the attributes', fn)
            if x[2] != iatt:
                R.viol('link', inst, 'the attribute is searched under another name', fn)
            w = owner(x[1], 'attribute')
            if w:
                R.viol('link', inst, w, fn)
            if x[0] == 'attribute':
                want = [e[2] for e in p.ev if e[0] == 'if' and e[1][0] == 'op' and e[1][1] == '==' and e[1][2] == ('fld', x[4], 'nodetype') and
                        e[1][3] == ('c', inode_num(F))]
                if want and x[3] != ATT['inode' if want[0] else 'inodeset']:
                    R.viol('link', inst, 'the attributes of a %s are read from a %s' % (('node', 'nodeset') if want[0] else ('nodeset', 'node')), fn)
        elif a == ('c', 0) or a[0] == 'c':
            R.viol('link', inst, 'the reference is linked to nothing', fn)
        nt = sets.get(REF + 'node_type')
        if child:
            c = sets.get(REF + 'child_reference')
            if c is None:
                R.viol('link', inst, 'the child a reference goes to is not recorded', fn)
            else:
                y = L.element(p, c)
                if isinstance(y, str):
                    R.viol('link', inst, y, fn)
                elif y is not None and (y[2] != inod or noglob(y[1]) != me):
                    R.viol('link', inst, 'the child recorded is not the one the reference names', fn)
                if nt is not None and nt != ('fld', c, 'child.type_reference') and nt[0] == 'fld' and nt[2] != 'inode.name' and nt[2] != 'inodeset.name':
                    R.viol('link', inst, 'the node type recorded is not the type of the child', fn)
                if nt is not None and nt[0] == 'fld' and nt[2] == 'inode.name' and L.owner(nt[1]) == me:
                    R.viol('link', inst, 'the node type recorded is not the type of the child', fn)
        else:
            if nt is not None and nt[0] != 'call' and not (nt[0] == 'fld' and nt[2] == 'inode.name' and L.owner(nt[1]) == me):
                R.viol('link', inst, 'the node type recorded is not the node with the equation', fn)
        if nt is None:
            R.viol('link', inst, 'the node type a reference goes to is not recorded', fn)
        for k, o, key, s in ex:
            R.viol('exists', inst, 'a reference to a%s that does not exist is not reported' % ('n attribute' if k == 'attribute' else ' child'), fn)
            break
        if rule:
            R.ob('defines', inst)
            flag = 'attribute.is_inherited' if child else 'attribute.is_synthesized'
            if known(p, (('fld', a, flag),)) is not True:
                R.viol('defines', inst, 'an equation for %s attribute of %s is not reported' % (
                    'an' if known(p, (('fld', a, flag),)) is None else 'a not ' + flag.split('_')[1], 'a child' if child else 'the node'), fn)
        return
    # reported
    R.ob('exists', inst + ' (reported)')
    good = False
    for k, o, key, s in ex:
        if s:
            R.viol('exists', inst, s, fn)
            return
        if k == 'child' and child:
            w = None if noglob(o) == me else 'the child is searched in another node'
            if key is not None and key != inod:
                w = w or 'the child is searched under another name'
        elif k == 'attribute':
            w = owner(o, 'attribute')
            if key is not None and key != iatt:
                w = w or 'the attribute is searched under another name'
        else:
            w = None
        if w:
            R.viol('exists', inst, w, fn)
            return
        good = True
    if good:
        return
    a = sets.get(REF + 'reference')
    if rule:
        flag = 'attribute.is_inherited' if child else 'attribute.is_synthesized'
        vals = [e for e in p.ev if e[0] == 'if' and e[1][0] == 'fld' and e[1][2] == flag]
        if any(not e[2] for e in vals):
            return
        if any(e[0] == 'if' and not e[2] and e[1][0] in ('phi', 'call') and e[1][1] not in ('STReq', 'STReqci', 'HTlookup') for e in p.ev):
            return          # a value that was not found, in a form not known here
    else:
        if any(e[0] == 'if' and not e[2] and e[1][0] in ('phi', 'call') and e[1][1] not in ('STReq', 'STReqci', 'HTlookup') for e in p.ev):
            return
    R.viol('exists', inst, '%s is reported although child and attribute exist%s' % (
        'an equation' if rule else 'a dependency', ' and it may be defined here' if rule else ''), fn)


def inode_num(F):
    return [k for k, v in F.ntnum.items() if v == 'inode'][0] if not isinstance(next(iter(F.ntnum)), str) else F.ntnum['inode']


# ------------------------------------------------------------------ missing equations
def complete(R, P, F, L, t, H):
    me = ('node', 'inode')
    # synthesized attributes of the node
    done = False
    for x in SEM:
        ps = paths(F, x, ('inode',), 'attribute')
        syn = fval('attribute', 'is_synthesized')
        key = fval('attribute', 'name')
        ps = [p for p in ps if any(e[0] == 'loop' and eqloops(e) for e in p.ev)] and ps
        if not ps:
            continue
        done = True
        fn = P.resolve(None, F.handler(x, 'attribute'))
        R.func(fn)
        judge(R, L, ps, {syn: 1}, None, key, 'attribute', 'a synthesized attribute', fn, me)
        R.ob('complete', 'attribute not synthesized')
        for p in ps:
            if known(p, (syn,)) is False and reports(p) and any(e[0] == 'loop' and eqloops(e) for e in p.ev):
                R.viol('complete', 'attribute', 'an equation is demanded for an attribute that is not synthesized', fn)
        break
    if not done:
        R.ob('complete', 'attribute')
        R.viol('complete', 'attribute', 'missing equations of synthesized attributes are not looked for')
    # inherited attributes of children
    done = False
    for x in SEM:
        ps = paths(F, x, ('inode',), 'child')
        hit = []
        for p in ps:
            for i, phi, init, bodies in loops(p.ev):
                if init[0] == 'fld' and init[2] in ATT.values() and any(e[0] == 'loop' and eqloops(e) for b in bodies for e in b):
                    hit.append((p, i, phi, init, bodies))
        if not hit:
            continue
        done = True
        fn = P.resolve(None, F.handler(x, 'child'))
        R.func(fn)
        for p, i, phi, init, bodies in hit:
            inst = 'child of a ' + ('node' if init[2] == ATT['inode'] else 'nodeset')
            o = init[1]
            if not (o[0] == 'call' and o[1] == 'STlookup' and o[3][1] == fval('child', 'type_reference')):
                R.viol('complete', inst, 'the attributes examined are not those of the type of the child', fn)
            want = [e[2] for e in p.ev[:i] if e[0] == 'if' and e[1][0] == 'op' and e[1][1] == '==' and e[1][2] == ('fld', o, 'nodetype') and e[1][3] == ('c', inode_num(F))]
            if want and init[2] != ATT['inode' if want[0] else 'inodeset']:
                R.viol('complete', inst, 'the attributes of a %s are read from a %s' % (('node', 'nodeset') if want[0] else ('nodeset', 'node')), fn)
            inh = ('fld', phi, 'attribute.is_inherited')
            key = ('fld', phi, 'attribute.name')
            bs = [Path(b, None, None) for b in bodies]
            for b in bodies:
                for q, v in (b[-1][1] if b and b[-1][0] == 'back' else ()):
                    if q == phi and v != ('fld', phi, 'attribute.next'):
                        R.viol('complete', inst, 'attributes of the child are passed over', fn)
            judge(R, L, bs, {inh: 1, phi: 1}, fval('child', 'name'), key, inst, 'an inherited attribute of a child', fn, me)
            R.ob('complete', inst + ' not inherited')
            for b in bs:
                if known(b, (inh,)) is not True and reports(b):
                    R.viol('complete', inst, 'an equation is demanded for an attribute of a child that is not inherited', fn)
            if not any(e[0] == 'if' and e[1] == phi and not e[2] for e in p.ev[i + 1:]) and any(e[0] == 'if' and e[1] == phi and e[2] for e in p.ev[i + 1:]) and not reports(p):
                R.viol('complete', inst, 'attributes of the child behind one with an equation are passed over', fn)
        for p in ps:
            if not any(h[0] is p for h in hit) and not reports(p):
                R.viol('complete', 'child', 'the attributes of a child are not examined on every path', fn)
        break
    if not done:
        R.ob('complete', 'child')
        R.viol('complete', 'child', 'missing equations of inherited attributes of children are not looked for')


def eqloops(e):
    return any(init[0] == 'fld' and init[2] == 'inode.iequations' for phi, init in e[2])


def judge(R, L, ps, given, target, key, inst, what, fn, me):
    """target None: the equation has to be for the node itself; else for the child with that name"""
    base = dict(given)
    if target is not None:
        base[target] = 1

    def hook(phi, match):
        def h(t):
            if t in base:
                return base[t]
            if phi is None:
                return None
            if t == phi and match is not None:
                return 1
            rule = ('fld', phi, 'equation.rule')
            if t == rule:
                return 1
            if match is None:
                return None
            m_t, m_n, m_a = match
            if t == ('fld', rule, REF + 'inode'):
                return int(m_t)
            if t[0] == 'call' and len(t) == 4 and t[1] in ('STReq', 'STReqci'):
                if lower_eq(None, t, ('fld', rule, REF + 'iattribute'), key):
                    return int(m_a)
                if target is not None and lower_eq(None, t, ('fld', rule, REF + 'inode'), target):
                    return int(m_n)
            return None
        return h
    # an equation of this node matches
    yes = (target is not None, True, True)
    no = [(target is None, True, True), (target is not None, True, False)] + ([(True, False, True)] if target is not None else [])
    for present in (True, False):
        R.ob('complete', '%s: equation %s' % (inst, 'present' if present else 'missing'))
    for p in ps:
        if not consistent(p, hook(None, None)):
            continue
        ls = [(i, phi, init, b) for i, phi, init, b in loops(p.ev) if init[0] == 'fld' and init[2] == 'inode.iequations']
        if not ls:
            if not reports(p):
                R.viol('complete', inst, 'no equation is looked for for %s' % what, fn)
            else:
                R.viol('complete', inst, '%s is reported without looking for an equation' % what, fn)
            continue
        i, phi, init, bodies = ls[0]
        if L.owner(init[1]) != me:
            R.viol('scope', inst, 'the equations searched are not those of the node that is examined', fn)
        for b in bodies:
            q = Path(b, None, None)
            if consistent(q, hook(phi, yes)):
                R.viol('complete', inst, 'an equation for %s is passed over' % what, fn)
            for z, v in (b[-1][1] if b and b[-1][0] == 'back' else ()):
                if z == phi and v != ('fld', phi, 'equation.next'):
                    R.viol('complete', inst, 'the search does not go on with the next equation', fn)
        rest = Path(p.ev[i + 1:], None, None)
        end = any(e[0] == 'if' and e[1] == phi and not e[2] for e in rest.ev)
        if end:
            if not reports(rest):
                R.viol('complete', inst, '%s without an equation is not reported' % what, fn)
            continue
        if consistent(rest, hook(phi, yes)) and reports(rest):
            R.viol('complete', inst, '%s with an equation is reported' % what, fn)
        for m in no:
            if consistent(rest, hook(phi, m)) and not reports(rest):
                R.viol('complete', inst, 'an equation for something else is taken for one of %s' % what, fn)
            elif consistent(rest, hook(phi, m)):
                R.viol('complete', inst, 'the search for an equation of %s stops at an equation for something else' % what, fn)
