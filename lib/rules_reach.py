"""Reachability of handled nodes: which node types a traversal stops at, continues through, or handles.

The handlers of the reachability traversal are summarised path by path; the rules
below are obligations on those paths.  Together they give, by induction over the
search, that a node type from which a handled type can be reached through children
is never left without an entry."""
import front, genmodel
from program import AnalysisBroken
from rules_front import ev3, flat, sub

T = 'RCB'
G = ('G',)


def lookup_of(t, key):
    return t[0] == 'call' and len(t) == 4 and t[1] == 'STlookup' and t[3][1] == key


def entry(t, of):
    """(depth, base term) when t is an array element indexed with the index of node `of`"""
    if t[0] == 'fld' and isinstance(t[2], tuple) and t[2][0] == '[]':
        i = t[2][1]
        if i[0] == 'fld' and isinstance(i[2], str) and i[2].endswith('.index') and of(i[1]):
            b, d = t[1], 1
            if b[0] == 'fld' and isinstance(b[2], tuple) and b[2][0] == '[]':
                d = 2
            return d, b
    return None


class Hyp:
    """assumed values: the kind of the referenced type, its visited mark, its row entry, and globals"""
    def __init__(self, F, of, kind=None, visited=None, row=None, globs=None, fields=None):
        self.F, self.of, self.kind, self.visited, self.row = F, of, kind, visited, row
        self.globs, self.fields = dict(globs or {}), fields or {}
        self.num = dict((v, k) for k, v in F.ntnum.items())

    def __call__(self, t):
        if t in self.fields:
            return self.fields[t]
        if t[0] == 'fld' and t[1] == G and t[2] in self.globs:
            return self.globs[t[2]]
        if t[0] == 'fld' and t[2] == 'nodetype' and self.of(t[1]) and self.kind:
            return self.num.get(self.kind)
        e = entry(t, self.of)
        if e is not None:
            return self.row if e[0] == 2 else self.visited
        if t[0] == 'call' and self.of(t):
            return 1
        return None


def agrees(p, h):
    """the path is taken under the assumptions (conditions on globals only until those are written)"""
    changed = False
    for e in p.ev:
        if e[0] in ('gset', 'visit', 'loop'):
            changed = True
        if e[0] == 'if':
            if changed and any(x[0] == 'fld' and x[1] == G and x[2] in h.globs for x in sub(e[1])):
                continue
            v = ev3(e[1], h)
            if v is not None and bool(v) != e[2]:
                return False
    return True


def raw(F, P, nt):
    h = F.handler(T, nt)
    if h in (None, 'TRAVnop', 'TRAVerror', 'TRAVchildren'):
        return h, None, None
    f = P.resolve(None, h)
    if f is None:
        raise AnalysisBroken('handler %s has no definition' % h)
    v = ('node', nt)
    F.cur = T
    return h, f, F.raw_paths(f, [v], {v: nt}, ())


def visited_field(e, of, field):
    return e[0] == 'visit' and e[1][0] == 'fld' and of(e[1][1]) and e[1][2].split('.')[-1] == field


def reach(R, P):
    R.rule('rows', 'every traversal gets its own row; without a list of nodes all its entries are "handled by the user", with one every listed node is, before the search over all nodes starts')
    R.rule('search', 'for every node that is not handled the search starts with no type visited and nothing found, follows all its children, and a find makes the node "continue to the children"')
    R.rule('step', 'a child (a member of a nodeset) of a type that was not visited yet is found when its type has an entry, and otherwise its own children are searched; nothing else is marked as visited')
    R.rule('on', 'the search goes on with the next child (the other members) unless something was found')
    F = front.Front(P)
    F.lazy = F.untyped = True
    RB = genmodel.rb_values(P)
    USER, TRAV, NOT = RB['RCB_NODE_HANDLED_BY_USER'], RB['RCB_NODE_HANDLED_BY_TRAV'], RB['RCB_NODE_NOT_HANDLED']
    if not R.check(len({USER, TRAV, NOT, 0}) == 4, 'rows', 'constants', 'constants', 'the kinds of entries are not distinct'):
        return
    und = R.notes.setdefault('not decided', [])
    paths = {}
    for nt in ('ast', 'itraversal', 'inode', 'inodeset', 'child', 'setliteral'):
        try:
            h, f, ps = raw(F, P, nt)
        except AnalysisBroken as e:
            und.append('%s: %s' % (nt, str(e)[:100]))
            continue
        if ps is None and h != 'TRAVchildren':
            R.ob('on', nt)
            R.viol('on', nt, 'the search for handled nodes does nothing at %s' % nt)
            continue
        if f is not None:
            R.func(f)
        paths[nt] = (f, ps)
    flag = found_flag(F, paths, USER, TRAV)
    mode = mode_flag(paths, USER)
    R.notes['found flag'], R.notes['list mode flag'] = flag, mode
    for nt, kinds in (('child', ('inode', 'inodeset')), ('setliteral', ('inode',))):
        if nt in paths and paths[nt][1] is not None:
            steps(R, F, nt, kinds, paths[nt], flag, mode, USER, TRAV, und)
    sets(R, F, paths)
    nodes(R, F, paths, flag, TRAV, und)
    rows(R, F, paths, mode, USER, und)
    R.need('step', 8)
    R.need('search', 1)


def loose(p):
    """something on the path that the rules cannot see through"""
    return any(e[0] in ('inl', 'map', 'broken') or e[0] == 'call' and (e[1][0] != 'fn' or e[1][1] not in ('memset', 'MEMmalloc', 'MEMcalloc', '__assert_fail')) for e in flat(p.ev))


def found_flag(F, paths, USER, TRAV):
    """the global that is set when a handled type is met"""
    for nt in ('child', 'setliteral'):
        f, ps = paths.get(nt, (None, None))
        k = ('fld', ('node', nt), {'child': 'child.type_reference', 'setliteral': 'setliteral.reference'}[nt])
        for row in (USER, TRAV):
            for p in ps or ():
                if agrees(p, Hyp(F, lambda t: lookup_of(t, k), 'inode', 0, row)):
                    for e in p.ev:
                        if e[0] == 'gset' and e[2][0] == 'c' and e[2][1]:
                            return e[1]
    for p in paths.get('inode', (None, None))[1] or ():
        for e in p.ev:
            if e[0] == 'if' and e[1][0] == 'fld' and e[1][1] == G:
                return e[1][2]
    return None


def mode_flag(paths, USER):
    """the global that tells the list of a traversal from the search"""
    for p in paths.get('setliteral', (None, None))[1] or ():
        if any(e[0] == 'set' and e[3] == ('c', USER) for e in p.ev):
            for e in p.ev:
                if e[0] == 'if':
                    for x in sub(e[1]):
                        if x[0] == 'fld' and x[1] == G and isinstance(x[2], str):
                            return x[2]
    return None


def flagvalue(p, flag, upto=None):
    """value of the found flag at the end of a path: True, False or None"""
    v = None
    for e in p.ev[:upto]:
        if e[0] == 'gset' and e[1] == flag:
            v = bool(e[2][1]) if e[2][0] == 'c' else None
        elif e[0] in ('visit', 'next') or e[0] == 'loop' and any(x[0] in ('visit', 'next', 'call', 'inl', 'map') or x[0] == 'gset' and x[1] == flag for x in flat([e])):
            v = None
        elif e[0] == 'if':
            t, w = e[1], e[2]
            while t[0] == 'op' and t[1] == '!':
                t, w = t[2], not w
            if t[0] == 'op' and t[1] in ('==', '!=') and t[3][0] == 'c' and t[3][1] in (0, 1):
                w = w if (t[1] == '==') == bool(t[3][1]) else not w
                t = t[2]
            if t == ('fld', G, flag):
                v = w
    return v


def steps(R, F, nt, kinds, fp, flag, mode, USER, TRAV, und):
    f, ps = fp
    k = ('fld', ('node', nt), {'child': 'child.type_reference', 'setliteral': 'setliteral.reference'}[nt])

    def of(t):
        return lookup_of(t, k)
    g = {mode: 0} if mode and nt == 'setliteral' else {}
    what = {'child': 'a child', 'setliteral': 'a member of a nodeset'}[nt]
    for kind in kinds:
        for vis, row in ((0, USER), (0, TRAV), (0, 0)) if kind == 'inode' else ((None, None),):
            inst = '%s: %s%s' % (nt, kind, '' if vis is None else ', not visited, entry %d' % row)
            R.ob('step', inst)
            h = Hyp(F, of, kind, vis, row, g)
            for p in ps:
                if not agrees(p, h):
                    continue
                if loose(p):
                    und.append(inst)
                    continue
                if kind == 'inodeset':
                    ok = any(e[0] == 'visit' and (of(e[1]) or visited_field(e, of, 'expr')) for e in p.ev)
                    msg = 'the members of %s of a nodeset type are not searched' % what
                elif row:
                    ok = any(e[0] == 'gset' and e[1] == flag and e[2][0] == 'c' and e[2][1] for e in p.ev)
                    msg = '%s of a type that has an entry is not found' % what
                else:
                    ok = any(visited_field(e, of, 'ichildren') or e[0] == 'visit' and of(e[1]) for e in p.ev)
                    msg = 'the children of %s without an entry are not searched' % what
                if not ok and flagvalue(p, flag, first_touch(p)) is True:
                    ok = True      # something was found before
                if not ok:
                    R.viol('step', '%s handler' % nt, msg, f)
    # marks, finds and row entries
    for p in ps:
        if loose(p):
            continue
        lst = mode is not None and [e for e in p.ev if e[0] == 'if' and ev3(e[1], Hyp(F, of, globs={mode: 1})) is not None and ev3(e[1], Hyp(F, of, globs={mode: 0})) is not None]
        inlist = bool(lst) and all(bool(ev3(e[1], Hyp(F, of, globs={mode: 1}))) == e[2] for e in lst)
        R.ob('step', '%s: marks, path %s' % (nt, ''.join('TF'[not e[2]] for e in p.ev if e[0] == 'if')))
        for e in p.ev:
            if e[0] == 'set' and isinstance(e[2], tuple) and e[2][0] == '[]':
                el = entry(('fld', e[1], e[2]), of)
                if el is None:
                    if e[3] != ('c', 0):
                        R.viol('step', '%s handler' % nt, 'an entry of another type than that of %s is changed' % what, f)
                elif el[0] == 2 and e[3] != ('c', USER):
                    R.viol('step', '%s handler' % nt, 'the entry of the type of %s is set to %s' % (what, e[3][1] if e[3][0] == 'c' else '?'), f)
                elif el[0] == 2 and not inlist:
                    R.viol('step', '%s handler' % nt, 'the type of %s becomes handled although the list of a traversal is not looked at' % what, f)
            if e[0] == 'gset' and e[1] == flag and e[2] == ('c', 0):
                R.viol('on', '%s handler' % nt, 'what was found before is forgotten at %s' % what, f)
    if nt == 'setliteral':
        R.ob('rows', 'listed nodes')
        if mode is None:
            if not any(e[0] == 'set' and (entry(('fld', e[1], e[2]), of) or (0,))[0] == 2 for p in ps for e in p.ev):
                if not any(loose(p) for p in ps):
                    R.viol('rows', 'setliteral handler', 'the nodes in the list of a traversal are not marked as handled', f)
        else:
            for p in ps:
                if agrees(p, Hyp(F, of, 'inode', globs={mode: 1})) and not loose(p):
                    if not any(e[0] == 'set' and (entry(('fld', e[1], e[2]), of) or (0,))[0] == 2 and e[3] == ('c', USER) for e in p.ev):
                        R.viol('rows', 'setliteral handler', 'a node in the list of a traversal is not marked as handled', f)
    for p in ps:
        if loose(p):
            continue
        R.ob('on', '%s: path %s' % (nt, ''.join('TF'[not e[2]] for e in p.ev if e[0] == 'if')))
        nulls = set(e[1] for e in p.ev if e[0] == 'if' and not e[2])
        if nt == 'child':
            i = [j for j, e in enumerate(p.ev) if e[0] == 'next']
            if not i and flagvalue(p, flag) is not True and ('fld', ('node', nt), nt + '.next') not in nulls:
                R.viol('on', 'child handler', 'the search stops at a child although nothing was found', f)
        else:
            for s in ('left', 'right'):
                i = [e for e in p.ev if visited_field(e, lambda t: t == ('node', nt), s)]
                m = mode is not None and agrees(p, Hyp(F, of, 'inode', globs={mode: 0})) and flagvalue(p, flag) is True
                if not i and not m and ('fld', ('node', nt), '%s.%s' % (nt, s)) not in nulls:
                    R.viol('on', 'setliteral handler', 'members on the %s are left out' % s, f)


def first_touch(p):
    for i, e in enumerate(p.ev):
        if e[0] in ('visit', 'set', 'loop'):
            return i
    return len(p.ev)


def sets(R, F, paths):
    f, ps = paths.get('inodeset', (None, None))
    if ps is None:
        return
    for p in ps:
        R.ob('step', 'inodeset')
        if not any(visited_field(e, lambda t: t == ('node', 'inodeset'), 'expr') for e in p.ev) and not loose(p):
            if not any(e[0] == 'if' and e[1] == ('fld', ('node', 'inodeset'), 'inodeset.expr') and not e[2] for e in p.ev):
                R.viol('step', 'inodeset handler', 'the members of a nodeset are not searched', f)


def clears(e):
    """array an event sets to zero from its beginning"""
    if e[0] == 'call' and e[1] == ('fn', 'memset') and e[2][1] == ('c', 0):
        return e[2][0]
    if e[0] == 'call' and e[1][0] == 'fn' and e[1][1] in ('MEMcalloc', 'calloc'):
        return e[4]
    if e[0] == 'loop':
        for b in e[1]:
            for x in flat(b):
                if x[0] == 'set' and isinstance(x[2], tuple) and x[2][0] == '[]' and x[2][1][0] == 'phi' and x[3] == ('c', 0) and starts_at_zero(e, x[2][1]):
                    return x[1]
    return None


def starts_at_zero(e, phi):
    for k, v in e[2] or ():
        if k == phi:
            return v == ('c', 0)
    return False


def fills(e, val):
    """array a loop sets to val from its beginning"""
    if e[0] == 'loop':
        for b in e[1]:
            for x in flat(b):
                if x[0] == 'set' and isinstance(x[2], tuple) and x[2][0] == '[]' and x[2][1][0] == 'phi' and x[3] == ('c', val):
                    return x[1], starts_at_zero(e, x[2][1])
    return None


def nodes(R, F, paths, flag, TRAV, und):
    f, ps = paths.get('inode', (None, None))
    if ps is None:
        return
    me = ('node', 'inode')

    def of(t):
        return t == me
    for p in ps:
        inst = 'inode: path %s' % ''.join('TF'[not e[2]] for e in p.ev if e[0] == 'if')
        R.ob('on', inst)
        nulls = set(e[1] for e in p.ev if e[0] == 'if' and not e[2])
        if not any(e[0] == 'next' for e in p.ev) and ('fld', me, 'inode.next') not in nulls:
            R.viol('on', 'inode handler', 'the search does not go on with the next node', f)
        if not agrees(p, Hyp(F, of, 'inode', None, 0)):
            continue
        if loose(p) or flag is None:
            und.append(inst)
            continue
        R.ob('search', inst)
        vs = [j for j, e in enumerate(p.ev) if visited_field(e, of, 'ichildren')]
        if not vs:
            if ('fld', me, 'inode.ichildren') not in nulls:
                R.viol('search', 'inode handler', 'the children of a node without an entry are not searched', f)
            continue
        v = vs[0]
        if not any(clears(e) is not None for e in p.ev[:v]):
            R.viol('search', 'inode handler', 'what was visited for the previous node is not forgotten before the search', f)
        if flagvalue(p, flag, v) is not False:
            R.viol('search', 'inode handler', 'what was found for the previous node is not forgotten before the search', f)
        fl = flagvalue(p, flag, next((j for j, e in enumerate(p.ev) if e[0] == 'next' and j > v), None))
        sets_ = [e for e in p.ev[v:] if e[0] == 'set' and entry(('fld', e[1], e[2]), of) and entry(('fld', e[1], e[2]), of)[0] == 2]
        if fl is True:
            if not [e for e in sets_ if e[3] == ('c', TRAV)]:
                R.viol('search', 'inode handler', 'a node with a handled node below it is not marked as one to continue through', f)
        elif fl is None and not sets_:
            R.viol('search', 'inode handler', 'the result of the search is not used', f)
        for e in p.ev:
            if e[0] == 'set' and isinstance(e[2], tuple) and e[2][0] == '[]' and e[2][1][0] == 'fld' and not of(e[2][1][1]) and e[3] != ('c', 0):
                R.viol('search', 'inode handler', 'the entry of another node is changed', f)


def rows(R, F, paths, mode, USER, und):
    f, ps = paths.get('ast', (None, None))
    for p in ps or ():
        R.ob('rows', 'ast')
        me = ('node', 'ast')
        if not any(visited_field(e, lambda t: t == me, 'itraversals') for e in p.ev) and not any(e[0] == 'if' and not e[2] and e[1] == ('fld', me, 'ast.itraversals') for e in p.ev) and not loose(p):
            R.viol('rows', 'ast handler', 'the traversals are not looked at', f)
    f, ps = paths.get('itraversal', (None, None))
    me = ('node', 'itraversal')
    inodes, idx = ('fld', me, 'itraversal.inodes'), ('fld', me, 'itraversal.index')

    def of(t):
        return t == me
    # the global that selects the row
    sel = set()
    for nt in ('child', 'setliteral', 'inode'):
        for p in paths.get(nt, (None, None))[1] or ():
            for e in p.ev:
                for t in ([e[1]] if e[0] == 'if' else [('fld', e[1], e[2])] if e[0] == 'set' else []):
                    for x in sub(t):
                        if x[0] == 'fld' and isinstance(x[2], tuple) and x[2][0] == '[]' and x[2][1][0] == 'fld' and x[2][1][1] == G:
                            sel.add(x[2][1][2])
    for p in ps or ():
        inst = 'itraversal: path %s' % ''.join('TF'[not e[2]] for e in p.ev if e[0] == 'if')
        R.ob('rows', inst)
        nulls = set(e[1] for e in p.ev if e[0] == 'if' and not e[2])
        if not any(e[0] == 'next' for e in p.ev) and ('fld', me, 'itraversal.next') not in nulls:
            R.viol('rows', 'itraversal handler', 'the traversals behind one are not looked at', f)
        if any(e[0] in ('inl', 'map', 'broken') for e in flat(p.ev)):
            und.append(inst)
            continue
        work = [j for j, e in enumerate(p.ev) if e[0] in ('visit', 'next') or e[0] == 'loop' and fills(e, USER)]
        first = work[0] if work else len(p.ev)
        for g in sel:
            if not any(e[0] == 'gset' and e[1] == g and e[2] == idx for e in p.ev[:first]) and not [e for e in p.ev[:first] if e[0] == 'call' and loose(p)]:
                R.viol('rows', 'itraversal handler', 'the entries of a traversal are not those of its own row', f)
        haslist = Hyp(F, of, fields={inodes: 1})
        nolist = Hyp(F, of, fields={inodes: 0})
        if agrees(p, nolist) and not agrees(p, haslist):
            fl = [fills(e, USER) for e in p.ev if fills(e, USER)]
            if not fl:
                if not loose(p):
                    R.viol('rows', 'itraversal handler', 'a traversal without a list of nodes does not handle all nodes', f)
            elif not any(x[1] for x in fl):
                R.viol('rows', 'itraversal handler', 'a traversal without a list of nodes does not handle the first node', f)
        elif agrees(p, haslist):
            vi = [j for j, e in enumerate(p.ev) if visited_field(e, of, 'inodes')]
            vn = [j for j, e in enumerate(p.ev) if e[0] == 'visit' and e[1][0] == 'fld' and e[1][2].endswith('.inodes') and not of(e[1][1])]
            if loose(p) and not (vi and vn):
                und.append(inst)
                continue
            if not vi:
                R.viol('rows', 'itraversal handler', 'the list of nodes of a traversal is not looked at', f)
                continue
            if not any(clears(e) is not None for e in p.ev[:vi[0]]) and not loose(p):
                R.viol('rows', 'itraversal handler', 'the row of a traversal is not empty before its list is looked at', f)
            if not vn or vn[-1] < vi[-1]:
                R.viol('rows', 'itraversal handler', 'the search over all nodes does not follow the list of the traversal', f)
                continue
            if mode is not None:
                for j, want in ((vi[0], True), (vn[-1], False)):
                    v = None
                    for e in p.ev[:j]:
                        if e[0] == 'gset' and e[1] == mode and e[2][0] == 'c':
                            v = bool(e[2][1])
                    if v is not want and not (v is None and not want):
                        R.viol('rows', 'itraversal handler', 'the list of nodes of a traversal is searched instead of marked' if want else 'the members of nodesets are marked instead of searched', f)
