"""Nodeset inheritance (C38): every nodeset and node that belongs to a nodeset gets the
nodeset's attributes, once; redeclarations are reported unless they only add `constructor`."""
import itertools
from absint import ZERO
from emit import isglob
from program import AnalysisBroken
from rules_front import frontend, fval, ev3, enumval, noglob, sub
from rules_attr import constant
from rules_sets import datafield

ATT = {'inode': 'inode.iattributes', 'inodeset': 'inodeset.iattributes'}
TAB = 'inodeset.children_table'
REFOF = {'nodeset_child_entry': 'inodeset', 'setliteral': 'inode'}


def raw(P, F, trav, nt):
    h = F.handler(trav, nt)
    f = P.resolve(None, h) if h else None
    if f is None:
        return None, []
    F.cur = trav
    v = ('node', nt)
    out = []
    for p in F.raw_paths(f, [v], {v: nt}, ()):
        if any(e[0] == 'broken' for e in p.ev):
            continue
        q = constant(p)
        if q is not None:
            out.append(q)
    return f, out


def flatten(ev):
    for e in ev:
        yield e
        if e[0] == 'loop':
            for b in e[1]:
                yield from flatten(b)


def gkey(e):
    """(data field, path below it) that a store to the data of the traversal changes"""
    k = e[1].split('.')
    if 'trav_data' not in k:
        return None
    i = k.index('trav_data')
    return (k[i + 2], '.'.join(k[i + 3:])) if len(k) > i + 2 else None


def find(P, F, pred):
    for t in F.travs:
        try:
            if pred(t):
                return t
        except AnalysisBroken:
            continue
    return None


# ----------------------------------------------------------- PRA: propagation
class World:
    """one case: an attribute of the nodeset, and what the target declares"""
    def __init__(self, P, F, A, target, **kw):
        self.P, self.A, self.target = P, A, target
        self.__dict__.update(kw)
        self.num = dict((k, n) for n, k in F.ntnum.items())
        self.own = None                 # phi that walks over the attributes of the target
        self.child = None

    def names(self, t):
        """'attr'/'child' if t compares the name of an element of the target with the attribute's"""
        if t[0] == 'call' and len(t) == 4 and t[1] in ('STReq', 'STReqci') and len(t[3]) == 2:
            x, y = (noglob(a) for a in t[3])
            for a, b in ((x, y), (y, x)):
                if a[0] != 'fld' or b[0] != 'fld' or b[1] != ('fld', self.A, 'attribute.name'):
                    continue
                if a[1] == ('fld', self.own, 'attribute.name'):
                    k = 'attr'
                elif a[1] == ('fld', self.child, 'child.name'):
                    k = 'child'
                else:
                    continue
                if t[1] == 'STReqci' or a[2] == b[2] and a[2] in ('id.lwr', 'id.upr'):
                    return k
        return None

    def value(self, t):
        """value of the atoms of the world"""
        if t[0] == 'fld':
            b = noglob(t[1])
            if t[2] == 'nodetype' and b == self.target:
                return self.num[self.kind]
            if b == self.A:
                return {'attribute.is_propagated': int(self.prop), 'attribute.is_inherited': int(self.pinh), 'attribute.is_synthesized': int(self.psyn),
                        'attribute.type': self.ptype}.get(t[2])
            if self.own is not None and b == self.own:
                return {'attribute.in_constructor': int(self.ctor), 'attribute.is_inherited': int(self.oinh), 'attribute.is_synthesized': int(self.osyn),
                        'attribute.type': self.otype}.get(t[2])
        if t[0] == 'call' and len(t) == 4 and t[1] in ('STReq', 'STReqci') and len(t[3]) == 2:
            x, y = (noglob(a) for a in t[3])
            if x[0] == 'fld' and y[0] == 'fld' and x[2] == y[2] and x[2][:3] == 'id.':
                s = {x[1], y[1]}
                if s == {('fld', self.A, 'attribute.type_reference'), ('fld', self.own, 'attribute.type_reference')}:
                    return int(self.refs)
        return None


class Undecided(Exception):
    pass


def sim(W, ev, env, match):
    """outcomes of a path in world W: [(reported, env, events)]"""
    S = [(False, env, (), None)]
    for e in ev:
        if e[0] == 'cti':
            if e[1] == 3:
                S = [(True,) + s[1:] for s in S]
        elif e[0] == 'if':
            N = []
            for r, en, es, pend in S:
                def hook(t, en=en):
                    if t in en:
                        return en[t]
                    k = W.names(t)
                    if k:
                        return int(match[k])
                    return W.value(t)
                v = ev3(e[1], hook)
                if v is not None and bool(v) != e[2]:
                    continue
                t, pos = e[1], e[2]
                while t[0] == 'op' and t[1] == '!':
                    t, pos = t[2], not pos
                if t[0] == 'op' and len(t) == 4 and t[1] in ('==', '!=') and t[3][0] == 'c' and t[3][1] in (0, 1):
                    t, pos = t[2], pos == ((t[1] == '==') == (t[3][1] == 1))
                k = W.names(t)
                if k and pend == k and pos:
                    pend = None
                N.append((r, en, es + (e,), pend))
            S = N
        elif e[0] == 'loop':
            kind = None
            for phi, init in e[2]:
                i = noglob(init)
                if i == ('fld', W.target, ATT[W.kind]):
                    kind, W.own = 'attr', phi
                elif i == ('fld', W.target, 'inode.ichildren'):
                    kind, W.child = 'child', phi
            N = []
            for r, en, es, pend in S:
                en = dict(en)
                for phi, init in e[2]:
                    v = ev3(init, lambda t, en=en: en.get(t))
                    if v is not None:
                        en[phi] = v
                    else:
                        en.pop(phi, None)
                if kind is None:
                    for b in e[1]:
                        for x in b[-1][1] if b and b[-1][0] == 'back' else ():
                            en.pop(x[0], None)
                    N.append((r, en, es + (e,), pend))
                    continue
                step = kind if kind == 'child' else 'attribute'
                me = W.own if kind == 'attr' else W.child
                m2 = dict(match)
                back = [b for b in e[1] if b and b[-1][0] == 'back']
                m2[kind] = False
                for b in back:
                    for r2, en2, es2, p2 in sim(W, b, en, m2):
                        if p2:
                            continue
                        if r2:
                            raise Undecided('reported for a name that differs', kind)
                        for phi, v in b[-1][1]:
                            if phi == me:
                                if noglob(v) != ('fld', me, step + '.next'):
                                    raise Undecided('skips', kind)
                            elif phi in en and ev3(v, lambda t: en2.get(t)) != en[phi]:
                                raise Undecided('flag', kind)
                if match[kind]:
                    m2[kind] = True
                    for b in back:
                        for r2, en2, es2, p2 in sim(W, b, en, m2):
                            if p2:
                                continue
                            en3 = dict(en)
                            for phi, v in b[-1][1]:
                                x = ev3(v, lambda t: en2.get(t))
                                if x is None:
                                    en3.pop(phi, None)
                                else:
                                    en3[phi] = x
                            N.append((r or r2, en3, es + es2, pend))
                    N.append((r, en, es, kind))
                else:
                    N.append((r, en, es, pend))
            S = N
        elif e[0] in ('set', 'gset', 'call', 'back', 'start'):
            S = [(s[0], s[1], s[2] + (e,), s[3]) for s in S]
    return S


def added(W, es):
    """is a copy of the attribute put into the list of the target: True, False, or what is wrong"""
    L = ATT[W.kind]
    heads = [(i, e) for i, e in enumerate(es) if e[0] == 'set' and noglob(e[1]) == W.target and e[2] == L]
    copies = [e[4] for e in es if e[0] == 'call' and e[1][1] == 'CCNcopy' and noglob(e[2][0]) == W.A]
    if not heads:
        tails = [e for e in es if e[0] == 'set' and e[2] == 'attribute.next' and e[3] in copies]
        if tails:
            raise Undecided('appended')
        return False
    v = heads[-1][1][3]
    if v == W.A or noglob(v) == W.A:
        return 'the attribute itself, not a copy, becomes part of the target\'s list'
    if v not in copies:
        raise Undecided('value of the list')
    f = dict((e[2], e[3]) for e in es if e[0] == 'set' and e[1] == v)
    if noglob(f.get('attribute.next', ('c', None))) != ('fld', W.target, L):
        return 'the attributes of the target are lost'
    if f.get('attribute.is_propagated') != ('c', 1):
        return 'the copy is not marked as inherited, and is inherited again'
    return True


def propagate(R, P, F, trav):
    def outcome(states):
        return [s for s in states if not s[3]]
    T = dict((k, enumval(P, k)) for k in ('AT_link', 'AT_user', 'AT_link_or_enum', 'AT_int', 'AT_bool'))
    for nt in ('setliteral', 'nodeset_child_entry'):
        f, ps = raw(P, F, trav, nt)
        what = {'setliteral': 'node', 'nodeset_child_entry': 'nodeset'}[nt]
        if f is None:
            R.ob('inherit', what)
            R.viol('inherit', what, 'a %s of a nodeset does not get its attributes' % what)
            continue
        R.func(f)
        kind = REFOF[nt]
        me = ('node', nt)

        def target(t):
            t = noglob(t)
            if nt == 'setliteral':
                return t[0] == 'call' and t[1] == 'STlookup' and len(t) == 4 and noglob(t[3][1]) == ('fld', me, 'setliteral.reference')
            return t == ('fld', me, 'nodeset_child_entry.reference')
        # the same whatever the order of the paths: all must walk over the attributes
        R.ob('inherit', what + ': all attributes')
        seen = False
        for p in ps:
            if any(e[0] == 'cti' and e[1] == 3 for e in p.ev):
                continue
            outer = None
            for e in p.ev:
                if e[0] == 'loop':
                    for phi, init in e[2]:
                        if init[0] == 'fld' and init[2] == ATT['inodeset'] and datafield(init[1]):
                            outer = (phi, e[1])
            if outer is None:
                if any(e[0] == 'loop' for e in p.ev):
                    R.notes.setdefault('not decided', []).append('%s: attributes not followed' % what)
                else:
                    R.viol('inherit', what + ': all attributes', 'a %s of a nodeset does not get its attributes on some path' % what, f)
                continue
            A, bodies = outer
            back = [b for b in bodies if b and b[-1][0] == 'back']
            for b in back:
                for phi, v in b[-1][1]:
                    if phi == A and noglob(v) != ('fld', A, 'attribute.next') and v[0] in ('fld', 'c'):
                        R.viol('inherit', what + ': all attributes', 'attributes of the nodeset are skipped', f)
            rest = list(itertools.takewhile(lambda e: True, p.ev))
            i = [k for k, e in enumerate(rest) if e[0] == 'loop' and e[1] is bodies]
            if i:
                after = rest[i[0] + 1:]
                if after and after[0][0] == 'if' and after[0][1] == A and after[0][2]:
                    R.viol('inherit', what + ': all attributes', 'the search through the attributes of the nodeset can end before the last of them', f)
                    continue
            # the target, as it is named on the paths
            ts = set(noglob(t) for b in bodies for e in flatten(b) for t in ([e[1]] if e[0] == 'set' else [i[1] for _, i in e[2] if i[0] == 'fld'] if e[0] == 'loop' else ())
                     if isinstance(t, tuple))
            ts = [t for t in ts if target(t)]
            if not ts:
                if any(e[0] == 'set' and e[2] in ATT.values() for b in bodies for e in flatten(b)):
                    R.viol('inherit', what + ': all attributes', 'the attributes go to something else than the %s' % what, f)
                continue
            seen = True
            cases(R, P, F, f, what, kind, A, ts[0], back, T)
        if not seen and not any(v[0] == 'inherit' and v[1].startswith(what) for v in getattr(R, 'viols', ())):
            R.notes.setdefault('not decided', []).append('%s: propagation not followed' % what)


def cases(R, P, F, f, what, kind, A, target, back, T):
    def world(**kw):
        d = dict(kind=kind, prop=False, pinh=False, psyn=False, ctor=False, oinh=False, osyn=False, ptype=T['AT_int'], otype=T['AT_int'], refs=False)
        d.update(kw)
        return World(P, F, A, target, **d)

    def run(label, W, match, want):
        """want: 'report', 'add', 'accept' (neither added nor reported), 'none' (nothing happens)"""
        R.ob('inherit', '%s: %s' % (what, label))
        got = []
        try:
            for b in back:
                W.own = W.child = None
                for s in sim(W, b, {}, match):
                    if not s[3]:
                        got.append((s[0], added(W, s[2]) if want != 'report' else None))
        except Undecided as u:
            if u.args[0] == 'reported for a name that differs':
                R.viol('inherit', '%s: %s' % (what, label), 'a declaration with another name is reported', f)
            elif u.args[0] == 'skips':
                R.viol('inherit', '%s: %s' % (what, label), 'not every declaration of the target is compared', f)
            elif u.args[0] == 'flag':
                R.viol('inherit', '%s: %s' % (what, label), 'a declaration with another name decides about the attribute', f)
            else:
                R.notes.setdefault('not decided', []).append('%s: %s: %s' % (what, label, u.args[0]))
            return
        if not got:
            R.notes.setdefault('not decided', []).append('%s: %s: no path' % (what, label))
            return
        for rep, ad in got:
            if want == 'report':
                if not rep:
                    R.viol('inherit', '%s: %s' % (what, label), 'this is not reported', f)
                    return
                continue
            if rep:
                R.viol('inherit', '%s: %s' % (what, label), 'this is reported as an error', f)
                return
            if isinstance(ad, str):
                R.viol('inherit', '%s: %s' % (what, label), ad, f)
                return
            if want == 'add' and not ad:
                R.viol('inherit', '%s: %s' % (what, label), 'the attribute is not added', f)
                return
            if want in ('accept', 'none') and ad:
                R.viol('inherit', '%s: %s' % (what, label), 'the attribute is added a second time', f)
                return

    no = {'attr': False, 'child': False}
    same = {'attr': True, 'child': False}
    for ex in ({}, {'pinh': True}, {'psyn': True}):
        n = ''.join(', ' + {'pinh': 'inherited', 'psyn': 'synthesized'}[k] for k in ex)
        run('attribute not redeclared' + n, world(**ex), no, 'add')
    run('attribute that was inherited itself', world(prop=True), no, 'none')
    if kind == 'inodeset':
        for ex in ({}, {'ctor': True}, {'pinh': True}, {'pinh': True, 'oinh': True}):
            run('attribute of the same name' + ''.join(', ' + k for k in ex), world(**ex), same, 'report')
        return
    run('child of the same name', world(), {'attr': False, 'child': True}, 'report')
    for ex in ({'pinh': True}, {'psyn': True}):
        for ex2 in ({}, {'ctor': True}, {'oinh': True}, {'osyn': True}):
            d = dict(ex)
            d.update(ex2)
            run('inherited/synthesized attribute redeclared: ' + ', '.join(sorted(d)), world(**d), same, 'report')
    run('redeclared without constructor', world(), same, 'report')
    run('redeclared as inherited', world(ctor=True, oinh=True), same, 'report')
    run('redeclared as synthesized', world(ctor=True, osyn=True), same, 'report')
    for a, b in itertools.product(sorted(T), sorted(T)):
        if a != b:
            run('redeclared as %s instead of %s' % (b, a), world(ctor=True, ptype=T[a], otype=T[b], refs=True), same, 'report')
        elif a in ('AT_link', 'AT_user', 'AT_link_or_enum'):
            run('redeclared, another type (%s)' % a, world(ctor=True, ptype=T[a], otype=T[a], refs=False), same, 'report')
            run('redeclared with constructor (%s)' % a, world(ctor=True, ptype=T[a], otype=T[a], refs=True), same, 'accept')
        else:
            run('redeclared with constructor (%s)' % a, world(ctor=True, ptype=T[a], otype=T[a]), same, 'accept')


def order(R, P, F, trav):
    """the nodeset whose attributes are handed on is known before its members are visited"""
    f, ps = raw(P, F, trav, 'inodeset')
    R.ob('members', 'inodeset')
    if f is None:
        R.viol('members', 'inodeset', 'nodesets are not visited')
        return
    R.func(f)
    me = ('node', 'inodeset')
    cur = set()
    for nt in REFOF:
        for p in raw(P, F, trav, nt)[1]:
            for e in p.ev:
                if e[0] == 'loop':
                    for phi, init in e[2]:
                        if init[0] == 'fld' and init[2] == ATT['inodeset'] and datafield(init[1]):
                            cur.add(datafield(init[1]))
    for p in ps:
        if any(e[0] == 'cti' and e[1] == 3 for e in p.ev):
            continue
        known = set()
        vis = set()
        for e in p.ev:
            if e[0] == 'gset':
                k = gkey(e)
                if k and not k[1]:
                    (known.add if e[2] == me else known.discard)(k[0])
            elif e[0] == 'visit' and e[1][0] == 'fld' and noglob(e[1][1]) == me:
                n = e[1][2]
                vis.add(n)
                if n in (TAB, 'inodeset.expr') and cur - known:
                    R.viol('members', 'inodeset', 'the members of a nodeset are visited before the nodeset is stored as the one whose attributes they get', f)
        absent = set(e[1][2] for e in p.ev if e[0] == 'if' and not e[2] and e[1][0] == 'fld' and noglob(e[1][1]) == me)
        for n in (TAB, 'inodeset.expr'):
            if n not in vis and n not in absent and ATT['inodeset'] not in absent:
                R.viol('members', 'inodeset', '%s of a nodeset is not visited, its attributes do not reach these members' % n.split('.')[1], f)
    for nt, kids in (('setliteral', ('setliteral.left', 'setliteral.right')),):
        f, ps = raw(P, F, trav, nt)
        if f is None:
            continue
        R.ob('members', nt)
        for p in ps:
            vis = set(e[1][2] for e in p.ev if e[0] == 'visit' and e[1][0] == 'fld' and noglob(e[1][1]) == ('node', nt))
            absent = set(e[1][2] for e in p.ev if e[0] == 'if' and not e[2] and e[1][0] == 'fld' and noglob(e[1][1]) == ('node', nt))
            if not any(e[0] == 'cti' and e[1] == 3 for e in p.ev) and set(kids) - vis - absent:
                R.viol('members', nt, 'not all nodes of the nodeset are visited', f)


# ----------------------------------------------------------- NCT: nodesets a nodeset is built from
class Adds:
    """adding a nodeset to the table of the current one, as a sequence of events"""
    def __init__(self, R, P, F, trav):
        self.R, self.P, self.F, self.trav = R, P, F, trav
        self.refs = self.last = self.curr = None

    def check(self, inst, ev, ref, f, seen=None):
        """ev adds ref; returns None if it is not decided"""
        R = self.R
        isref = lambda t: bool(t) and (noglob(t) == noglob(ref) or seen is not None and seen(t))
        look = [e for e in ev if e[0] == 'if' and e[1][0] == 'call' and e[1][1] == 'HTlookup' and isref(e[1][3][1]) and datafield(e[1][3][0])]
        new = [e[4] for e in ev if e[0] == 'call' and e[1][1] == 'ASTnodeset_child_entry' and isref(e[2][0])]
        links = [e for e in ev if e[0] == 'gset' and gkey(e) and gkey(e)[1] in (TAB, 'nodeset_child_entry.next')]
        present = [e for e in look if e[2]]
        if present:
            if links:
                R.viol('table', inst, 'a nodeset that is in the table is added again', f)
            return True
        if not new and not links:
            conds = [e for e in ev if e[0] == 'if' and any(isref(t) for t in sub(e[1]))]
            if not conds:
                R.viol('table', inst, 'the nodeset is not added to the table', f)
                return True
            return None
        if not look:
            if any(e[0] == 'if' and any(isref(t) for t in sub(e[1])) for e in ev) or any(e[0] == 'loop' for e in ev):
                return None
            R.viol('table', inst, 'a nodeset is added whether or not it is in the table already', f)
            return True
        tab = datafield(look[-1][1][3][0])
        ins = [e for e in ev if e[0] == 'call' and e[1][1] == 'HTinsert' and datafield(e[2][0]) == tab and isref(e[2][1]) and e[2][2] != ZERO]
        if not ins:
            R.viol('table', inst, 'a nodeset that is added is not remembered, and added again', f)
        for e in links:
            if e[2] not in new:
                return None
        if len(links) != 1:
            R.viol('table', inst, 'a new entry is not linked into the table exactly once', f)
            return True
        at, path = gkey(links[0])
        i = ev.index(links[0])
        if path == TAB:
            empty = [e for e in ev[:i] if e[0] == 'if' and not e[2] and (datafield(e[1]) or e[1][0] == 'fld' and e[1][2] == TAB)]
            if not empty:
                nxt = [e for e in ev if e[0] in ('set', 'gset') and (e[2] == 'nodeset_child_entry.next' or e[0] == 'gset' and gkey(e) and gkey(e)[1] == 'nodeset_child_entry.next')]
                if nxt:
                    return None
                R.viol('table', inst, 'a new entry replaces the entries before it', f)
                return True
            lf = [datafield(e[1]) for e in empty if datafield(e[1])]
        else:
            lf = [at]
        if lf:
            up = [e for e in ev if e[0] == 'gset' and gkey(e) == (lf[0], '') and e[2] in new]
            if not up:
                R.viol('table', inst, 'the end of the table is not kept up to date: the next entry replaces this one', f)
        self.refs, self.last = tab, (lf[0] if lf else None)
        if path == TAB:
            self.curr = at
        return True


def table(R, P, F, trav):
    X = Adds(R, P, F, trav)
    f, ps = raw(P, F, trav, 'setreference')
    inst = 'a nodeset named in an expression'
    R.ob('table', inst)
    if f is None:
        R.viol('table', inst, 'references to nodesets are not visited')
        return
    R.func(f)
    me = ('node', 'setreference')
    isref = lambda t: bool(t) and t[0] == "call" and t[1] == "STlookup" and len(t) == 4 and noglob(t[3][1]) == ('fld', me, 'setreference.reference')
    for p in ps:
        if any(e[0] == 'cti' and e[1] == 3 for e in p.ev):
            continue
        v = [i for i, e in enumerate(p.ev) if e[0] == 'visit' and isref(e[1])]
        a = [i for i, e in enumerate(p.ev) if e[0] == 'call' and e[1][1] == 'ASTnodeset_child_entry' and isref(e[2][0])]
        if not v:
            R.viol('table', inst, 'the nodesets a named nodeset is built from are not added', f)
            continue
        ev = tuple(e for e in p.ev if e[0] != 'visit')
        ref = p.ev[v[0]][1]
        if X.check(inst, ev, ref, f, isref) is None:
            R.notes.setdefault('not decided', []).append(inst)
    # inodeset
    f, ps = raw(P, F, trav, 'inodeset')
    if f is None:
        R.viol('table', 'inodeset', 'nodesets are not visited')
        return
    R.func(f)
    me = ('node', 'inodeset')
    look = [t for p in ps for e in p.ev if e[0] == 'if' for t in sub(e[1]) if t and t[0] == 'call' and t[1] == 'HTlookup' and len(t) == 4 and noglob(t[3][1]) == me and datafield(t[3][0])]
    curs = set(gkey(e)[0] for p in ps for e in p.ev if e[0] == 'gset' and gkey(e) and not gkey(e)[1] and e[2] == me)
    if not look or X.refs is None or X.curr is None or X.curr not in curs:
        R.notes.setdefault('not decided', []).append('inodeset: states not found')
        return
    built = datafield(look[0][3][0])
    L = look[0]
    work = set(e[2][2] for p in ps for e in p.ev if e[0] == 'call' and e[1][1] == 'HTinsert' and datafield(e[2][0]) == built and noglob(e[2][1]) == me)
    work = dict((k[1], k) for k in work if k[0] == 'c')

    def marks(p):
        return [(i, e[2][2]) for i, e in enumerate(p.ev) if e[0] == 'call' and e[1][1] == 'HTinsert' and datafield(e[2][0]) == built and noglob(e[2][1]) == me]

    def conds(built_v, nested):
        def hook(t):
            if t[0] == 'call' and t[1] == 'HTlookup' and len(t) == 4 and datafield(t[3][0]) == built and noglob(t[3][1]) == me:
                return built_v
            if datafield(t) == X.curr:
                return int(nested)
            return None
        return hook

    def ok(p, hook):
        for e in p.ev:
            if e[0] == 'if':
                v = ev3(e[1], hook)
                if v is not None and bool(v) != e[2]:
                    return False
        return True

    # the two states: what is there while the expression is visited, and what is there afterwards
    wv = set()
    fv = set()
    for p in ps:
        if ok(p, conds(0, False)) or ok(p, conds(0, True)):
            v = [i for i, e in enumerate(p.ev) if e[0] == 'visit' and noglob(e[1]) == ('fld', me, 'inodeset.expr')]
            if v:
                ms = marks(p)
                wv.add(tuple(x for i, x in ms if i < v[0])[-1:])
                fv.add(tuple(x for i, x in ms if i > v[0])[-1:])
    R.ob('table', 'a nodeset is built once')
    R.ob('table', 'a nodeset built from itself')
    if () in wv or any(x[0] == ZERO for x in wv if x):
        R.viol('table', 'a nodeset built from itself', 'a nodeset is not marked before its expression is visited: one that is built from itself is visited without end', f)
        return
    if () in fv or any(x[0] == ZERO for x in fv if x):
        R.viol('table', 'a nodeset is built once', 'a nodeset is not marked as complete after its expression has been visited', f)
        return
    if len(wv) != 1 or len(fv) != 1 or any(x[0][0] != 'c' for x in wv | fv):
        R.notes.setdefault('not decided', []).append('inodeset: states')
        return
    wk, fin = list(wv)[0][0][1], list(fv)[0][0][1]
    for nested in (False, True):
        if wk != fin:
            for p in ps:
                if ok(p, conds(wk, True)) and nested and not any(e[0] == 'cti' and e[1] == 3 for e in p.ev):
                    R.viol('table', 'a nodeset built from itself', 'a nodeset that is built from itself is not reported', f)
                if ok(p, conds(fin, nested)) and any(e[0] == 'cti' and e[1] == 3 for e in p.ev):
                    R.viol('table', 'a nodeset built from itself', 'a nodeset that is used twice is reported', f)
        elif nested:
            R.viol('table', 'a nodeset built from itself', 'nodesets that are being built and complete ones are not told apart', f)
        for st, name in ((0, 'not built yet'), (fin, 'built before')):
            inst = 'nodeset %s, %s' % (name, 'inside an expression' if nested else 'in the list of nodesets')
            R.ob('table', inst)
            for p in ps:
                if not ok(p, conds(st, nested)) or any(e[0] == 'cti' and e[1] == 3 for e in p.ev):
                    continue
                state(R, X, p, me, st, nested, inst, f)


def state(R, X, p, me, st, nested, inst, f):
    D = {}
    # value of a data field: term, or the initial one
    init = lambda k: ('init', k)
    get = lambda k: D.get(k, init(k))
    fresh = []
    vis = False
    nxt = False
    fields = [k for k in (X.curr, X.refs, X.last) if k]
    done = False
    for e in p.ev:
        if e[0] == 'gset' and gkey(e) and not gkey(e)[1]:
            k = gkey(e)[0]
            v = e[2]
            d = datafield(v)
            D[k] = init(d) if d else v
        elif e[0] == 'call' and e[1][1].startswith('HTnew'):
            fresh.append(e[4])
        elif e[0] == 'call' and e[1][1] == 'HTdelete':
            d = datafield(e[2][0])
            if d == X.refs and get(d) == init(d) and nested:
                R.viol('table', inst, 'the set of nodesets already added to the outer nodeset is deleted', f)
        elif e[0] == 'visit' and noglob(e[1]) == ('fld', me, 'inodeset.expr'):
            vis = True
            if get(X.curr) != me:
                R.viol('table', inst, 'nodesets found in the expression are added to another nodeset', f)
            if get(X.refs) not in fresh:
                R.viol('table', inst, 'nodesets that were added to another nodeset are left out', f)
            if X.last and get(X.last) != ZERO and (nested or X.last in D):
                R.viol('table', inst, 'entries are linked to the end of another nodeset\'s table', f)
        elif e[0] == 'loop':
            for phi, i in e[2]:
                if noglob(i) == ('fld', me, TAB) and nested:
                    done = True
                    for k in fields:
                        if get(k) != init(k):
                            R.viol('table', inst, 'nodesets the nested nodeset is built from are not added to the outer nodeset', f)
                            break
                    for b in e[1]:
                        if not b or b[-1][0] != 'back':
                            continue
                        for q, v in b[-1][1]:
                            if q == phi and v[0] == 'fld' and noglob(v) != ('fld', phi, 'nodeset_child_entry.next'):
                                R.viol('table', inst, 'entries of the nested nodeset are skipped', f)
                        if X.check(inst, b[:-1], ('fld', phi, 'nodeset_child_entry.reference'), f) is None:
                            R.notes.setdefault('not decided', []).append(inst)
        elif e[0] == 'next':
            nxt = True
    if st == 0 and not vis:
        R.viol('table', inst, 'the expression is not visited', f)
    if nested:
        if not done:
            R.viol('table', inst, 'the nodesets it is built from are not added to the outer nodeset', f)
        for k in fields:
            if get(k) != init(k):
                R.viol('table', inst, 'the outer nodeset is not continued with after the nested one', f)
                break
        if nxt:
            R.viol('table', inst, 'the nodesets that follow in the list are visited inside the expression of another', f)
    else:
        if get(X.curr) not in (init(X.curr), ZERO):
            R.viol('table', inst, 'the next nodeset of the list is taken for a nested one', f)


def c38(R, P):
    R.rule('table', 'the table of a nodeset holds each nodeset it is built from, directly or through others, exactly once; a nodeset built from itself is reported')
    R.rule('members', 'the nodes and nodesets of a nodeset are visited with it as the nodeset whose attributes they get')
    R.rule('inherit', 'an attribute of a nodeset is added, as a copy, to each member that does not declare its name; a redeclaration is accepted only in a node, for a plain attribute, with the same type and with constructor')
    F = frontend(P)
    t = find(P, F, lambda t: any(e[0] == 'gset' and gkey(e) and gkey(e)[1] == TAB for p in raw(P, F, t, 'setreference')[1] for e in p.ev))
    R.ob('table', 'traversal')
    if t is None:
        R.viol('table', 'traversal', 'no traversal records the nodesets a nodeset is built from')
    else:
        table(R, P, F, t)
    t = find(P, F, lambda t: any(e[0] == 'set' and e[2] in ATT.values() for nt in REFOF for p in raw(P, F, t, nt)[1] for e in flatten(p.ev)))
    R.ob('inherit', 'traversal')
    if t is None:
        R.viol('inherit', 'traversal', 'no traversal hands the attributes of a nodeset to its members')
    else:
        order(R, P, F, t)
        propagate(R, P, F, t)
