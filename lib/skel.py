"""Symbolic specifications the generated compiler is derived for.

Each covers, for every construct of the specification language, all values of
the flags the generator distinguishes (the handlers branch on nothing else);
names are symbolic except that references are also spelled differently from
their definition, because the language is case-insensitive.
"""
from genmodel import Spec
from render import Inst


def swap(s):
    return s.swapcase()


def _types(S):
    return [t[3:] for t in S.AT if t[3:] not in ('NULL',)]


def full(P):
    """every attribute type with and without constructor, every child option, passes with/without uid/function,
    traversals with/without node list and data, nested phases, cycles and gates"""
    S = Spec(P)
    e1 = S.enum('e1', 'ColorKind', 'CLK', ['red', 'Green', 'BLUE'])
    e2 = S.enum('e2', 'op', 'OP', ['add'])
    leaf = S.node('n2', 'Leaf', [], [S.attr('b1', 'txt', 'string', 0), S.attr('b2', 'Name', 'string', 1)])
    empty = S.node('n3', 'Nothing')
    pair = S.node('n4', 'pair_of')
    n1 = S.node('n1', 'TreeTop', [], [], root=1)
    only = S.node('n5', 'onlyAttrs', [], [S.attr('o1', 'k', 'int', 1), S.attr('o2', 'E', 'link_or_enum', 1, ref=e2)])
    ns = S.nodeset('ns1', 'AnyOf', [leaf, n1, pair])
    ns2 = S.nodeset('ns2', 'single', [empty])
    n1.lists['ichildren'] = [S.child('c1', 'Lhs', leaf, 1), S.child('c2', 'rhs', ns, 0, 1), S.child('c3', 'next', n1, 0)]
    pair.lists['ichildren'] = [S.child('d1', 'lhs', ns, 1, 1), S.child('d2', 'Rest', pair, 0), S.child('d3', 'last', ns2, 1), S.child('d4', 'next', ns, 0)]
    # child names shared by two, three and four node types
    S.node('n6', 'Chain', [S.child('f1', 'next', only, 1), S.child('f2', 'Lhs', leaf, 0), S.child('f3', 'own', empty, 0)])
    S.node('n7', 'ring', [S.child('g1', 'next', n1, 0, 1)])
    al, i = [], 0
    for t in _types(S):
        for ic in (0, 1):
            i += 1
            ref = {'user': 'MyType', 'link': leaf, 'link_or_enum': e1}.get(t)
            al.append(S.attr('a%d' % i, 'At%d_%s' % (i, t), t, ic, ref=ref))
    n1.lists['iattributes'] = al
    t1 = S.traversal('t1', 'FirstTrav', 'ft', [leaf, n1], [S.tdata('td%d' % k, 'Dat%d_%s' % (k, t), t, {'user': 'MyType', 'link': leaf, 'link_or_enum': e1}.get(t))
                                                         for k, t in enumerate(_types(S))])
    t2 = S.traversal('t2', 'secondTrav', 'ST2', None)
    t3 = S.traversal('t3', 'Third', 'Thr', [pair], None)
    t4 = S.traversal('t4', 'fourthT', 'F_T', None, [S.tdata('tx1', 'One', 'int')])
    t5 = S.traversal('t5', 'deep', 'DP', [empty], None)
    p1 = S.pass_('p1', 'passOne')
    p2 = S.pass_('p2', 'PassTwo', 'PTw')
    p3 = S.pass_('p3', 'pass3', None, 'my_Func')
    p4 = S.pass_('p4', 'pass4', 'PF', 'other_func')
    ph4 = S.phase('ph4', 'Loop', [p3, t4], 0, 1, None, 'loop_gate')
    ph3 = S.phase('ph3', 'gated', [t3, ph4, p4], 0, 0, 'GT', 'isGated')
    ph2 = S.phase('ph2', 'inner', [p2, t2], 0, 1, None, None)
    ph1 = S.phase('ph1', 'StartP', [p1, t1, ph2, ph3, t5], 1)
    S.unsafe = 1
    S.ast(n1)
    return S


def spelling(P):
    """every reference spelled in another case than the definition"""
    S = Spec(P)
    e1 = S.enum('e1', 'ColorKind', 'Clk', ['red', 'Green'])
    leaf = S.node('n2', 'LeafNode', [], [S.attr('b1', 'Txt', 'string', 1), S.attr('b2', 'col', 'link_or_enum', 1, ref=e1, refspell='colorkind'),
                                         S.attr('b3', 'Col2', 'link_or_enum', 0, ref=e1, refspell='COLORKIND')])
    n1 = S.node('n1', 'RooT2', [], [S.attr('b4', 'ToLeaf', 'link', 1, ref=leaf, refspell='leafnode')], root=1)
    ns = S.nodeset('ns1', 'ANY', [])
    ns.lists['expr'] = S.literal('ns1e', [leaf, n1], swap)
    ns.members = [leaf, n1]
    n1.lists['ichildren'] = [S.child('c1', 'LHS', leaf, 1, spell='LEAFNODE'), S.child('c2', 'Rhs', ns, 0, 1, spell='Any'), S.child('c3', 'rhS2', n1, 1, spell='rOOt2')]
    S.traversal('t1', 'firstTRAV', 'fT', [leaf, n1], [S.tdata('td1', 'Cnt', 'int'), S.tdata('td2', 'STR', 'string'),
                                                     S.tdata('td3', 'lnk', 'link_or_enum', e1, 'colorkind')], spell=swap)
    p1 = S.pass_('p1', 'PASSone', 'pO')
    ph2 = S.phase('ph2', 'INNER', [S.nn['itraversal'][0]], 0, 0, None, 'Gate_It')
    S.phase('ph1', 'stARt', [p1, ph2], 1)
    S.respell = True
    S.ast(n1)
    return S


def minimal(P):
    """one node, one pass"""
    S = Spec(P)
    n1 = S.node('n1', 'Only', root=1)
    p1 = S.pass_('p1', 'only_pass')
    S.phase('ph1', 'begin', [p1], 1)
    S.ast(n1)
    return S


FORMS = [(None, None), ('i', None), ('x', None), (None, 'i'), (None, 'x'), ('i', 'i'), ('i', 'x'), ('x', 'i'), ('x', 'x')]


def lifetimes(P):
    """every lifetime type with every range form on nodes, children and attributes, alone and in lists"""
    S = Spec(P)
    leaf = S.node('lf', 'Leaf', [], [S.attr('k1', 'k', 'int')])
    acts = [S.pass_('p%d' % i, 'act%d' % i) for i in range(7)]
    ph = S.phase('ph1', 'begin', acts, 1)
    # ids as assigned in the tree: 1 start, then 2.. in order
    for k, a in enumerate(ph.lists['iactions']):
        a.flags['action_id'] = k + 2
    S.last_id = 9
    S.lts = {}

    def lt(owner, label, typ, f, b=3, e=6):
        rb = (b, b + 1, 1 if f[0] == 'i' else 0) if f[0] else None
        re = (e, e + 1, 1 if f[1] == 'i' else 0) if f[1] else None
        S.lts.setdefault(owner, []).append((typ, rb, re))
        x = S.lifetime(label, typ, rb, re)
        x.ref, x.range = (acts[b - 2], acts[e - 2]), (rb, re)
        return x
    for k, f in enumerate(FORMS):
        nl, cs, as_ = [], [], []
        n = S.node('n%d' % k, 'Form%d' % k, [], [], root=k == 0)
        nl.append(lt(n.label, 'nl%d' % k, 'disallowed', f))
        for j, t in enumerate(('disallowed', 'allowed', 'mandatory', 'optional')):
            if t in ('allowed', 'optional') and f == (None, None):
                continue
            l = 'c%d%s' % (k, t)
            c = S.child(l, 'C%d%s' % (k, t), leaf, 0, 0, lf=[lt(l, 'cl%d%s' % (k, t), t, f)])
            c.flags['is_mandatory'] = 1 if t == 'mandatory' and f == (None, None) else 0
            cs.append(c)
            at = ('string', 'link')[(j + k) % 2]
            l = 'a%d%s' % (k, t)
            as_.append(S.attr(l, 'A%d%s' % (k, t), at, 0, ref=leaf if at == 'link' else None, lf=[lt(l, 'al%d%s' % (k, t), t, f)]))
        n.lists['ichildren'], n.lists['iattributes'], n.lists['lifetimes'] = cs, as_, nl
        if f != (None, None):
            g = S.node('g%d' % k, 'Group%d' % k, [], [S.attr('gk%d' % k, 'k', 'bool')])
            g.lists['lifetimes'] = [lt(g.label, 'gl%d' % k, 'allowed', f)]
    m = S.node('m', 'Many', [], [])
    m.lists['ichildren'] = [S.child('cm', 'Cmany', leaf, 0, 0, lf=[lt('cm', 'clm0', 'disallowed', ('x', None), 7), lt('cm', 'clm1', 'mandatory', (None, 'i'), 3, 2), lt('cm', 'clm2', 'optional', ('i', 'x'), 4, 7)])]
    m.lists['iattributes'] = [S.attr('am', 'Amany', 'string', 0, lf=[lt('am', 'alm0', 'disallowed', ('x', None), 6), lt('am', 'alm1', 'mandatory', (None, 'i'), 3, 3), lt('am', 'alm2', 'allowed', ('i', 'i'), 2, 7)])]
    m.lists['lifetimes'] = [lt('m', 'llm0', 'disallowed', ('x', None), 7), lt('m', 'llm1', 'disallowed', (None, 'x'), 3, 3), lt('m', 'llm2', 'allowed', ('i', 'i'), 2, 6)]
    S.ast(S.nn['inode'][1])
    return S


def attributes(P):
    """nodesets with ordinary, inherited and synthesized attributes of every type and the nodes that get them"""
    S = Spec(P)
    e1 = S.enum('e1', 'ColorKind', 'CLK', ['red', 'Green'])
    leaf = S.node('lf', 'Leaf', [], [S.attr('lk', 'k', 'int', 1)])
    top = S.node('n0', 'TreeTop', [], [], root=1)
    one, two = S.node('n1', 'MemberOne', [S.child('c1', 'own', leaf, 1)]), S.node('n2', 'member2')
    three = S.node('n3', 'Other3', [], [S.attr('oz', 'zlast', 'string', 1)])
    ref = {'user': 'MyType', 'link': leaf, 'link_or_enum': e1}
    S.nodeset('ns0', 'Plain', [leaf, one, top])
    k = 0
    for si, (name, members, kinds) in enumerate((('Classic', [one, two, leaf], ((0, 0),)), ('Comp', [two, three], ((1, 0), (0, 1))))):
        al = []
        for inh, syn in kinds:
            for t in _types(S):
                k += 1
                nm = 'S%d_%s' % (k, t)
                al.append(S.attr('s%d' % k, nm, t, 0, inh, syn, ref=ref.get(t)))
                for n in members:
                    # a member may declare an ordinary attribute again to make it a constructor argument
                    again = not inh and not syn and n is two and k % 3 == 0
                    n.lists['iattributes'].append(S.attr('%ss%d' % (n.label, k), nm, t, 1 if again else 0, inh, syn, ref=ref.get(t), propagated=not again))
        S.nodeset('ns%d' % (si + 1), name, members, al)
    f = [S.lifetime('l%d' % i, 'mandatory', (2, 3, 1)) for i in range(3)]
    three.lists['iattributes'] += [S.attr('x1', 'toLeaf', 'link', 0, ref=leaf, lf=[f[0]]), S.attr('x2', 'Txt', 'string', 0, lf=[f[1]]),
                                   S.attr('x3', 'ToTop', 'link', 1, ref=top, lf=[f[2]]), S.attr('x4', 'syn', 'int', 0, 0, 1), S.attr('x5', 'Inh', 'bool', 0, 1, 0)]
    top.lists['ichildren'] = [S.child('d1', 'first', S.nn['inodeset'][1], 1), S.child('d2', 'Second', S.nn['inodeset'][2], 0), S.child('d3', 'third', three, 0)]
    t1 = S.traversal('t1', 'walk', 'WLK', [two, three])
    p1 = S.pass_('p1', 'only_pass')
    p1.flags['action_id'] = 2
    S.phase('ph1', 'begin', [p1, t1], 1)
    for x in f:
        x.ref, x.range = (p1, None), ((2, 3, 1), None)
    S.unsafe = 1
    S.ast(top)
    return S


def aref(S, label, attr, child=None):
    """this.attr, or child.attr"""
    l = {'iattribute': S.ref(label + '.iattribute', swap(S.names[attr.label + '.name'])), 'reference': attr}
    f = {}
    if child is not None:
        l['inode'] = S.ref(label + '.inode', swap(S.names[child.label + '.name']))
        l['node_type'] = S.ref(label + '.node_type', S.names[child.target.label + '.name'])
        l['child_reference'] = child
    else:
        f['inode'] = 0
    return Inst('attribute_reference', label, f, l)


def equation(S, label, rule, args):
    """rule and args: (child or None, attribute)"""
    e = Inst('equation', label, {}, {'rule': aref(S, label + 'r', rule[1], rule[0]),
                                     'iargs': [Inst('equation_dependency', '%sd%d' % (label, i), {}, {'iattribute': aref(S, '%sa%d' % (label, i), a, c)}) for i, (c, a) in enumerate(args)]})
    e.rule, e.args = rule, args
    return e


def visit(S, n, inputs=(), outputs=()):
    k = len(n.lists['visit'])
    label = '%sv%d' % (n.label, k)
    v = Inst('visit', label, {'index': k}, {'inode': n, 'sequence': []})
    for w, l in (('inputs', inputs), ('outputs', outputs)):
        v.lists[w] = [Inst('visit_arg_list', '%s%s%d' % (label, w[0], i), {}, {'attribute': aref(S, '%s%sr%d' % (label, w[0], i), a)}) for i, a in enumerate(l)]
    v.inputs, v.outputs, v.node, v.index, v.steps = list(inputs), list(outputs), n, k, []
    n.lists['visit'].append(v)
    return v


def evaluate(S, v, e):
    """next step of visit v: the attribute equation e defines"""
    v.steps.append(('eval', e))
    v.lists['sequence'].append(Inst('visit_sequence_eval', '%ss%d' % (v.label, len(v.steps)), {}, {'attribute': e.lists['rule']}))


def descend(S, v, child, targets):
    """next step of visit v: visits of the child, one per node type; a node instead of a visit needs none"""
    v.steps.append(('visit', child, targets))
    head, prev = None, None
    for i, t in enumerate(targets):
        l = '%ss%d_%d' % (v.label, len(v.steps), i)
        if t.kind == 'visit':
            x = Inst('visit_sequence_visit', l, {}, {'child': child, 'visit': t, 'alt': []})
        else:
            x = Inst('visit_sequence_dummy', l, {}, {'inode': t, 'alt': []})
        if prev is None:
            head = x
        else:
            prev.lists['alt'] = [x]
        prev = x
    v.lists['sequence'].append(head)


def visits(P):
    """equations and scheduled visits: no, one and several inputs and outputs; mandatory and optional children of a node
    type and of a nodeset, two of one type; equations over no, one and two optional children"""
    S = Spec(P)
    e1 = S.enum('e1', 'ColorKind', 'CLK', ['red', 'Green'])
    leaf = S.node('lf', 'LeafNode')
    l_in, l_i2 = S.attr('l1', 'InA', 'int', 0, 1), S.attr('l2', 'inB', 'bool', 0, 1)
    l_s1, l_s2, l_s3 = S.attr('l3', 'SynA', 'string', 0, 0, 1), S.attr('l4', 'synB', 'link', 0, 0, 1, ref=leaf), S.attr('l5', 'SynC', 'link_or_enum', 0, 0, 1, ref=e1)
    l_k, l_i3 = S.attr('l6', 'Kay', 'user', 1, ref='MyType'), S.attr('l7', 'iNC', 'link', 0, 1, ref=leaf)
    leaf.lists['iattributes'] = [l_in, l_i2, l_i3, l_s1, l_s2, l_s3, l_k]
    mem, mems = [], []
    for i, n in enumerate(('MemOne', 'memTwo', 'MEM3')):
        m = S.node('m%d' % i, n)
        a = [S.attr('m%di' % i, 'DownA', 'int', 0, 1, propagated=True), S.attr('m%ds' % i, 'UpA', 'int', 0, 0, 1, propagated=True), S.attr('m%dt' % i, 'upB', 'float', 0, 0, 1, propagated=True)]
        m.lists['iattributes'] = a
        mem.append(m)
        mems.append(list(a))
    own = S.attr('m0o', 'Own', 'int', 0, 0, 1)
    mem[0].lists['iattributes'].append(own)
    sa = [S.attr('sa', 'downA', 'int', 0, 1), S.attr('sb', 'UpA', 'int', 0, 0, 1), S.attr('sc', 'upB', 'float', 0, 0, 1)]
    ns = S.nodeset('ns1', 'AnyOf', mem, sa)
    top = S.node('n0', 'TopNode', [], [], root=1)
    ca, cb = S.child('ca', 'Lhs', leaf, 1, 1), S.child('cb', 'rHs', leaf, 1, 1)
    co, cp = S.child('co', 'Opt', leaf), S.child('cp', 'oPt2', leaf, 1)
    cs, ct = S.child('cs', 'Alt', ns, 1, 1), S.child('ct', 'optALT', ns)
    kids = [ca, cb, co, cp, cs, ct]
    top.lists['ichildren'] = kids
    t_in, t_i2, t_s1, t_s2, t_k = S.attr('t1', 'TinA', 'int', 0, 1), S.attr('t2', 'tinB', 'uint8', 0, 1), S.attr('t3', 'TsA', 'double', 0, 0, 1), S.attr('t4', 'tsB', 'user', 0, 0, 1, ref='OtherType'), S.attr('t5', 'Plain', 'int', 1)
    t_s3 = S.attr('t6', 'tsC', 'int', 0, 0, 1)
    top.lists['iattributes'] = [t_in, t_i2, t_s1, t_s2, t_s3, t_k]
    eqs = {}

    def eq(n, rule, *args):
        e = equation(S, '%sq%d' % (n.label, len(n.lists['iequations'])), rule, args)
        n.lists['iequations'].append(e)
        eqs[rule] = e
        return e
    for c in (ca, cb, co, cp):
        eq(top, (c, l_in), *({'ca': [], 'cb': [(None, t_in), (ca, l_s1)], 'co': [(ca, l_s1), (cb, l_s2), (ca, l_s2)], 'cp': [(co, l_s1), (None, t_k)]}[c.label]))
        eq(top, (c, l_i2), *([(c, l_s1)] if c in (ca, co) else []))
    eq(top, (cs, sa[0]), (None, t_in), (co, l_s1), (cp, l_s2), (co, l_s2))
    eq(top, (ct, sa[0]), (cs, sa[1]), (None, t_i2), (cp, l_k))
    eq(top, (None, t_s1), (cs, sa[1]), (ct, sa[1]), (co, l_s3), (cb, l_k), (cp, l_s1), (cs, sa[2]))
    eq(top, (None, t_s2))
    eq(top, (None, t_s3), (ct, sa[2]), (None, t_s1))
    for s in (l_s1, l_s2, l_s3):
        eq(leaf, (None, s), (None, l_in))
    vl0, vl1, vl2 = visit(S, leaf, [l_in], [l_s1, l_s2]), visit(S, leaf), visit(S, leaf, [l_i2, l_i3], [l_s3])
    evaluate(S, vl0, eqs[(None, l_s1)])
    evaluate(S, vl0, eqs[(None, l_s2)])
    evaluate(S, vl2, eqs[(None, l_s3)])
    alts, alts2 = [], []
    for i, m in enumerate(mem):
        for a in mems[i][1:] + ([own] if i == 0 else []):
            eq(m, (None, a), (None, mems[i][0]))
        if i != 2:
            v = visit(S, m, [mems[i][0]], mems[i][1:2] + ([own] if i == 0 else []))
            for a in v.outputs:
                evaluate(S, v, eqs[(None, a)])
            alts.append(v)
            v = visit(S, m, [], mems[i][2:])
            evaluate(S, v, eqs[(None, mems[i][2])])
            alts2.append(v)
    alts.append(mem[2])
    alts2.insert(1, mem[2])
    v = visit(S, top, [t_in], [t_s2])
    for c in (ca, cb):
        evaluate(S, v, eqs[(c, l_in)])
        descend(S, v, c, [vl0])
    evaluate(S, v, eqs[(None, t_s2)])
    v = visit(S, top)
    for c in (co, cp):
        evaluate(S, v, eqs[(c, l_in)])
        descend(S, v, c, [vl0])
    v = visit(S, top, [t_i2, t_in])
    for c in (ca, co):
        descend(S, v, c, [vl1])
    for c in (cb, cp):
        evaluate(S, v, eqs[(c, l_i2)])
        descend(S, v, c, [vl2])
    for c in (cs, ct):
        v = visit(S, top)
        evaluate(S, v, eqs[(c, sa[0])])
        descend(S, v, c, alts)
        descend(S, v, c, alts2)
    v = visit(S, top, [], [t_s1, t_s3])
    evaluate(S, v, eqs[(None, t_s1)])
    evaluate(S, v, eqs[(None, t_s3)])
    # nodes that can be evaluated on their own: several visits, one, none
    for i, n in enumerate((3, 1, 0)):
        x = S.node('x%d' % i, 'Solo%d' % i)
        x.lists['iattributes'] = [S.attr('x%da%d' % (i, k), 'Val%d' % k, 'int', 0, 0, 1) for k in range(2)] if n else [S.attr('x%dk' % i, 'Kay', 'int', 1)]
        al = x.lists['iattributes'] if n else []
        for k, a in enumerate(al):
            eq(x, (None, a), *([(None, al[0])] if k else []))
        vs = [visit(S, x, [], [al[0]]), visit(S, x), visit(S, x, [], [al[1]])] if n == 3 else [visit(S, x, [], al)] if n else []
        for v in vs:
            for a in v.outputs:
                evaluate(S, v, eqs[(None, a)])
    p1 = S.pass_('p1', 'only_pass')
    S.phase('ph1', 'begin', [p1], 1)
    S.unsafe = 1
    S.ast(top)
    return S


SKELETONS = {'visits': visits, 'attributes': attributes, 'full': full, 'spelling': spelling, 'minimal': minimal, 'lifetimes': lifetimes}
