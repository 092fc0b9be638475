"""Rules about the generated compiler, decided on its static derivation
(genprog/gensym): C22-C32."""
import re
import genprog, gensym
from gensym import Sem, ne, rooted, tname, strip, peel, offset, nodes_of, ctype, FREES
from program import AnalysisBroken
from absint import State, ZERO, ONE

ALL = ('attributes', 'full', 'spelling', 'minimal', 'lifetimes')
ARG = ('in', 'arg_node')
FZERO = ('f', 0)


def extras(S):
    r = gensym.witness_access(S)
    r.update(witness_types(S))
    return r


# ------------------------------------------------------------ type witnesses
def witness_types(S):
    """programs that only compile when accessors, constructors, data fields have the specified C types"""
    r = {}
    for n in nodes_of(S):
        t = ['#include "ccngen/ast.h"', '#define SAME(a, b) _Static_assert(__builtin_types_compatible_p(a, b), #a " is not " #b)']
        for f in n.fields:
            t.append('SAME(__typeof__(%s((struct ccn_node *)0)), %s);' % (f.macro, f.ctype))
        r['witness/ty_acc_%s.c' % n.lwr] = '\n'.join(t) + '\n'
        ps = [f.ctype for f in n.fields if f.ctor]
        r['witness/ty_ctor_%s.c' % n.lwr] = '\n'.join(t[:2]) + '\nSAME(__typeof__(&AST%s), struct ccn_node *(*)(%s));\n' % (n.lwr, ', '.join(ps) or 'void')
    for x in S.nn['itraversal']:
        if x.lists['data']:
            u = S.names[x.label + '.iprefix']
            t = ['#include "ccngen/ast.h"', '#include "ccngen/trav_data.h"', '#include "ccn/dynamic_core.h"',
                 '#define SAME(a, b) _Static_assert(__builtin_types_compatible_p(a, b), #a " is not " #b)',
                 'SAME(__typeof__(DATA_%s_GET()), struct data_%s *);' % (u.upper(), u.lower())]
            for d in x.lists['data']:
                t.append('SAME(__typeof__(DATA_%s_GET()->%s), %s);' % (u.upper(), S.names[d.label + '.name'], ctype(S, d)))
            r['witness/ty_data_%s.c' % u.lower()] = '\n'.join(t) + '\n'
    r['witness/consts.c'] = '#include "ccngen/ast.h"\n#include "ccngen/action_handling.h"\n' + ''.join(
        'long ccnw_const_%s(void) { return %s; }\n' % (c, c) for c in ('CCN_ROOT_ACTION', 'CCN_NUM_OF_ACTIONS', 'CCN_ROOT_TYPE'))
    return r


_sems = {}


def sem(P, name, debug=False):
    k = (id(P), name, debug)
    if k not in _sems:
        _sems[k] = Sem(genprog.derive(P, name, debug, extras, 'w'))
    return _sems[k]


class Ctx:
    """one property's obligations over the derived projects"""
    def __init__(self, R, P, skels=ALL, debug=False):
        self.R, self.P = R, P
        self.sems = []
        for s in skels:
            x = sem(P, s, debug)
            bad = [e for e in x.D.errors if e[0].endswith('.h') and e[0].startswith('ccngen/')]
            if bad and not x.D.M.broken and x.enum('ccn_nodetype') is None:
                R.ob('derive', s)
                R.viol('derive', 'derived headers', 'the headers derived for specification %s do not compile: %s:%d: %s' % ((s,) + tuple(bad[0])))
                continue
            self.sems.append((s, x))
            if x.D.M.broken:
                R.notes.setdefault('not derived', {})[s] = ['%s: %s' % b for b in x.D.M.broken]
            if x.D.unparsed:
                R.notes.setdefault('not type-checked', {})[s] = x.D.unparsed
        R.notes['derived files'] = sum(len(x.D.M.files) for _, x in self.sems)
        R.notes['generator handlers'] = len(set(p[0] for _, x in self.sems for f in x.D.M.files.values() for _, p in f.parts if p))

    def partial(self, s):
        # (without broken actions a file that does not compile is an error of the generator, not of the derivation)
        return bool(s.D.M.broken)

    def missing(self, s, rule, inst, site, what):
        """a construct that should exist in the derived project does not"""
        if self.partial(s):
            self.R.notes.setdefault('skipped', []).append('%s: %s' % (inst, what))
            return
        self.R.ob(rule, inst)
        self.R.viol(rule, site, what)

    def check(self, cond, rule, inst, site, msg, s=None, f=None, line=None):
        if not cond and s is not None and f is not None and self.partial(s) and not s.complete(f):
            self.R.notes.setdefault('skipped', []).append('%s: %s calls functions that could not be derived' % (inst, f.name))
            return True
        self.R.ob(rule, inst)
        if not cond:
            w = ''
            if s is not None and f is not None:
                w = ' [emitted by %s]' % s.where(f, line)
            self.R.viol(rule, site, msg + w)
        return cond

    def done(self, least):
        if len(self.R.obls) < least:
            part = [n for n, s in self.sems if self.partial(s)]
            if not self.R.viols and (not part or not self.R.obls):
                raise AnalysisBroken('only %d obligations (%s)' % (len(self.R.obls), self.R.notes.get('not derived')))


def table(s, tname_, idx):
    e = s.elems(tname_)
    if e is None or idx is None or not 0 <= idx < len(e):
        return None
    return tname(e[idx])


def travtable(s, trav):
    """elements of the node table of traversal enumerator trav"""
    te = s.enum('ccn_traversal_type') or {}
    n = table(s, 'ccn_trav_vtable', te.get(trav))
    return s.elems(n) if n else None


def entry(s, trav, nt):
    """function the traversal table selects for a node type"""
    e = travtable(s, trav)
    i = (s.enum('ccn_nodetype') or {}).get(nt)
    if e is None or i is None or i >= len(e):
        return None
    n = tname(e[i])
    return s.func(n) if n else None


def show(v, k=60):
    t = repr(ne(v))
    return t if len(t) < k else t[:k] + '..'


# ------------------------------------------------------------------- C22
def c22(R, P):
    R.rule('table', 'every generated function table has one entry per enumerator, at the enumerator\'s index, and the entry is the function the specification selects')
    R.rule('enum', 'enumerators of nodes, traversals, passes, node sets and user enums are distinct, start after the NULL value, and match the specification')
    C = Ctx(R, P)
    for sk, s in C.sems:
        S = s.S
        NT, TT, PT = (s.enum(x) for x in ('ccn_nodetype', 'ccn_traversal_type', 'ccn_pass_type'))
        if NT is None or TT is None or PT is None:
            C.missing(s, 'enum', sk, 'enum', 'the node, traversal or pass enum is missing from the derived project')
            continue
        nn = [S.names[n.label + '.name'].upper() for n in S.nn['inode']]
        tt = [S.names[t.label + '.iprefix'].upper() for t in S.nn['itraversal']]
        pp = [S.names[p.label + '.name'].upper() for p in S.nn['ipass']]
        for en, E, pre, names, sysn in (('ccn_nodetype', NT, 'NT_', nn, []), ('ccn_traversal_type', TT, 'TRAV_', tt, ['free', 'check', 'cpy']), ('ccn_pass_type', PT, 'PASS_', pp, [])):
            want = set([pre + 'NULL', '_%sSIZE' % pre] + [pre + x for x in names + sysn])
            C.check(set(E) == want, 'enum', '%s: enumerators of %s' % (sk, en), 'enum:' + en,
                    'enum %s has enumerators %s instead of %s' % (en, sorted(set(E) - want), sorted(want - set(E))))
            vals = list(E.values())
            C.check(len(set(vals)) == len(vals), 'enum', '%s: values of %s' % (sk, en), 'enum:' + en, 'enum %s gives two enumerators one value' % en)
            C.check(E.get(pre + 'NULL') == 0 and E.get('_%sSIZE' % pre) == len(E) - 1, 'enum', '%s: size of %s' % (sk, en), 'enum:' + en,
                    'enum %s does not run from the NULL value to its SIZE value' % en)
        for e in S.nn['ienum']:
            on = S.names[e.label + '.name']
            E = s.enum(on)
            if E is None:
                C.missing(s, 'enum', '%s: enum %s' % (sk, on), 'userenum', 'user enum %s is not generated' % on)
                continue
            pre = S.names[e.label + '.iprefix'].upper()
            want = [pre + '_NULL'] + [pre + '_' + S.names[v.label] for v in e.lists['vals']]
            got = sorted(E, key=lambda x: E[x])
            C.check(sorted(x.lower() for x in got) == sorted(x.lower() for x in want) and len(set(E.values())) == len(E) and E.get(pre + '_NULL') == 0, 'enum',
                    '%s: user enum %s' % (sk, on), 'userenum', 'user enum %s is generated as %s, the specification says %s' % (on, got, want))
        NS = s.enum('nodesettype') or {}
        if S.nn['inodeset']:
            C.check(set(NS) == set(['NS_NULL', '_NS_SIZE'] + ['NS_' + S.names[x.label + '.name'].upper() for x in S.nn['inodeset']]) and len(set(NS.values())) == len(NS), 'enum',
                    '%s: nodesets' % sk, 'enum:nodesettype', 'the node set enum is %s' % sorted(NS))
        tv = s.elems('ccn_trav_vtable')
        if tv is None:
            C.missing(s, 'table', sk + ': traversal table', 'ccn_trav_vtable', 'the table of traversals is missing')
            continue
        C.check(len(tv) == TT.get('_TRAV_SIZE'), 'table', sk + ': length of the traversal table', 'ccn_trav_vtable',
                'the traversal table has %d entries for %s enumerators' % (len(tv), TT.get('_TRAV_SIZE')))

        def row(trav, want, what):
            e = travtable(s, trav)
            if e is None:
                C.missing(s, 'table', '%s: table of %s' % (sk, trav), 'row:' + what, 'traversal %s has no node table' % trav)
                return
            C.check(len(e) == NT.get('_NT_SIZE'), 'table', '%s: length of %s' % (sk, trav), 'row:' + what, 'the table of %s has %d entries for %s node types' % (trav, len(e), NT.get('_NT_SIZE')))
            for nt, w in [('NT_NULL', ['TRAVerror'])] + want:
                i = NT.get(nt)
                got = tname(e[i]) if i is not None and i < len(e) else None
                ok = got in w if isinstance(w, list) else w(got)
                C.check(ok, 'table', '%s: %s of %s' % (sk, nt, trav), 'row:' + what, 'traversal %s runs %s for nodes of type %s%s' % (trav, got, nt, ', expected ' + ' or '.join(w) if isinstance(w, list) else ''))
        for t in S.nn['itraversal']:
            u = S.names[t.label + '.iprefix'].upper()
            want = []
            for n in S.nn['inode']:
                o = S.names[n.label + '.name']
                k = S.reachability(t, n)
                want.append(('NT_' + o.upper(), [u + o.lower()] if k == 2 else ['TRAVchildren'] if k == 1 else ['TRAVnop', 'TRAVchildren']))
            row('TRAV_' + u, want, 'user')
        row('TRAV_NULL', [('NT_' + x, ['TRAVerror']) for x in nn], 'null')
        seen = {}
        for st in ('free', 'check', 'cpy'):
            def ok(got, nt, st=st):
                f = s.func(got) if got else None
                if f is None or got in ('TRAVnop', 'TRAVchildren', 'TRAVerror'):
                    return False
                if seen.setdefault(got, st) != st:
                    return False
                if C.partial(s) and not s.complete(f):
                    return True
                return behaves(s, f, nt) in (st, None)
            row('TRAV_' + st, [('NT_' + x, lambda got, x=x, ok=ok: ok(got, 'NT_' + x)) for x in nn], st)
        pv = s.elems('ccn_pass_vtable')
        if pv is None:
            C.missing(s, 'table', sk + ': pass table', 'ccn_pass_vtable', 'the table of passes is missing')
        else:
            C.check(len(pv) == PT.get('_PASS_SIZE'), 'table', sk + ': length of the pass table', 'ccn_pass_vtable', 'the pass table has %d entries for %s enumerators' % (len(pv), PT.get('_PASS_SIZE')))
            for p in S.nn['ipass']:
                o = S.names[p.label + '.name']
                i = PT.get('PASS_' + o.upper())
                got = tname(pv[i]) if i is not None and i < len(pv) else None
                C.check(got == passfunc(S, p), 'table', '%s: pass %s' % (sk, o), 'ccn_pass_vtable', 'pass %s runs %s instead of %s' % (o, got, passfunc(S, p)))
            C.check(pv and tname(pv[0]) == 'PASSerror', 'table', sk + ': PASS_NULL', 'ccn_pass_vtable', 'PASS_NULL does not report an error')
        for vt in ('trav_data_init_vtable', 'trav_data_free_vtable'):
            e = s.elems(vt)
            if e is None:
                C.missing(s, 'table', sk + ': ' + vt, vt, 'table %s is missing' % vt)
                continue
            C.check(len(e) == TT.get('_TRAV_SIZE'), 'table', '%s: length of %s' % (sk, vt), vt, '%s has %d entries for %s traversals' % (vt, len(e), TT.get('_TRAV_SIZE')))
            for t in S.nn['itraversal']:
                u = 'TRAV_' + S.names[t.label + '.iprefix'].upper()
                i = TT.get(u)
                got = tname(e[i]) if i is not None and i < len(e) else None
                has = bool(t.lists['data'])
                kind = {'trav_data_init_vtable': 'init', 'trav_data_free_vtable': 'free'}[vt]
                C.check((got == 'TRAVdataNOP') != has and got is not None and (not has or datakind(s, got, C) in (kind, None)), 'table', '%s: %s of %s' % (sk, vt, u), vt,
                        'traversal %s %s data but %s selects %s for it' % (u, 'has' if has else 'has no', vt, got))
            for st in ('TRAV_NULL', 'TRAV_free', 'TRAV_check', 'TRAV_cpy'):
                i = TT.get(st)
                got = tname(e[i]) if i is not None and i < len(e) else None
                C.check(got == 'TRAVdataNOP', 'table', '%s: %s of %s' % (sk, vt, st), vt, '%s selects %s for the built-in traversal %s' % (vt, got, st))
    C.done(100)


def behaves(s, f, nt):
    """which built-in traversal f implements for nodes of type nt: free (releases its argument on every path), cpy (returns a
    new object), check (returns its argument and releases nothing); None if mixed"""
    k = set()
    try:
        paths = s.run(f, [ARG], s.region(ARG, nt), 2000)
    except AnalysisBroken:
        return None           # too many paths (checks of lifetimes): C24 decides them
    for st, rv in paths:
        if rv is None:
            continue
        fr = [e for e in st.mon if e[0] == 'call' and e[1] in FREES and e[2] and ne(e[2][0]) == ne(ARG)]
        k.add('free' if fr else 'cpy' if rv[0] == 'call' and rv[1] == 'MEMmalloc' else 'check' if ne(rv) == ne(ARG) else None)
    return k.pop() if len(k) == 1 else None


def datakind(s, name, C):
    f = s.func(name)
    if f is None or f.body is None or C.partial(s) and not s.complete(f):
        return None
    k = set()
    for st, rv in s.run(f, [('in', 'trav')], State(mon=())):
        fr = [e for e in st.mon if e[0] == 'call' and e[1] in FREES]
        al = [e for e in st.mon if e[0] == 'call' and e[1] == 'MEMmalloc']
        k.add('free' if fr else 'init' if al else None)
    return k.pop() if len(k) == 1 else None


def passfunc(S, p):
    """name of the user's pass function"""
    f = S.names.get(p.label + '.target_func') if p.flags['target_func'] else None
    if f:
        return f
    u = S.names.get(p.label + '.iprefix') if p.flags['iprefix'] else None
    return (u.upper() if u else '') + S.names[p.label + '.name']


# ------------------------------------------------------------------- C23
def source_of(s, f, st):
    """value of field f of the source node in state st"""
    l = s.loc(f.w, ARG, st)
    return None if l is None else s.read(st, l)


def c23(R, P):
    R.rule('copy', 'for every node type, on every path of the function the copy table selects: the result is a new node of that type; each child is the traversal of the source\'s child; '
                   'each string attribute a STRcpy of the source\'s; every other attribute and the position the source\'s value; nothing reachable from the source is written or freed')
    C = Ctx(R, P)
    for sk, s in C.sems:
        for n in s.nodes:
            f = entry(s, 'TRAV_cpy', n.nt)
            inst = '%s: copy of %s' % (sk, n.orig)
            if f is None or f.body is None:
                C.missing(s, 'copy', inst, 'copy', 'no function copies nodes of type %s' % n.orig)
                continue
            R.func(f)
            st0 = s.region(ARG, n.nt)
            for st, rv in s.run(f, [ARG], st0):
                site = 'copy'
                if not C.check(rv is not None and rv[0] == 'call' and rv[1] in ('MEMmalloc',), 'copy', inst + ': new node', site,
                               'the copy of a %s is %s, not a new node' % (n.orig, show(rv) if rv else 'nothing'), s, f):
                    continue

                def val(w, obj=rv):
                    l = s.loc(w, obj, st)
                    return None if l is None else s.read(st, l)
                nt = val('ccnw_node_type')
                C.check(nt == ('c', s.enum('ccn_nodetype')[n.nt]), 'copy', inst + ': type', site, 'the copy of a %s gets node type %s' % (n.orig, show(nt)), s, f)
                for nf in ('BLINE', 'ELINE', 'BCOL', 'ECOL', 'FILENAME'):
                    w = 'ccnw_node_' + nf.lower()
                    src, dst = s.loc(w, ARG, st0), val(w)
                    src = s.read(st0, src) if src else None
                    if src is None:
                        C.missing(s, 'copy', inst + ': ' + nf, site, 'NODE_%s cannot be resolved' % nf)
                        continue
                    ok = copied(st, dst, src, nf == 'FILENAME', False)
                    C.check(ok, 'copy', inst + ': NODE_' + nf, site, 'NODE_%s of a copied %s is %s instead of the source\'s' % (nf, n.orig, show(dst) if dst else None), s, f)
                for fl in n.fields:
                    l = s.loc(fl.w, ARG, st0)
                    if l is None:
                        C.missing(s, 'copy', inst + ': ' + fl.orig, site, 'accessor %s cannot be resolved' % fl.macro)
                        continue
                    src, dst = s.read(st0, l), val(fl.w)
                    if fl.ag:
                        # computed: taken over together with its evaluated mark, or left to be computed again
                        fs, fd = agflag(s, fl, ARG, st0), agflag(s, fl, rv, st)
                        if fs is None or fd is None:
                            C.missing(s, 'copy', inst + ': ' + fl.orig, site, 'accessor %s has no evaluated mark' % fl.macro)
                            continue
                        fs, fd = s.read(st0, fs), s.read(st, fd)
                        ok = fd == ZERO or dst is not None and ne(fd) == ne(fs) and copied(st, dst, src, fl.is_string, False)
                        C.check(ok, 'copy', '%s: computed attribute %s' % (inst, fl.orig), site,
                                'the copy of a %s has attribute %s marked as evaluated %s with value %s; expected the source\'s mark and value, or no mark' % (n.orig, fl.orig, show(fd), show(dst) if dst else None), s, f)
                        continue
                    ok = dst is not None and copied(st, dst, src, fl.is_string, fl.is_child)
                    C.check(ok, 'copy', '%s: %s %s' % (inst, 'child' if fl.is_child else 'attribute', fl.orig), site,
                            '%s %s of a copied %s becomes %s; %s' % ('child' if fl.is_child else 'attribute', fl.orig, n.orig, show(dst) if dst else None,
                                                                    'expected the traversal of the source\'s child' if fl.is_child else 'expected ' + ('STRcpy of ' if fl.is_string else '') + 'the source\'s value'), s, f)
                data = [e for e in st.mon if e[0] == 'store' and rooted(e[1][1], ARG) and not rooted(e[1][1], rv)]
                C.check(not data, 'copy', inst + ': source unchanged', site, 'copying a %s writes the source node: %s' % (n.orig, [show(e[1]) for e in data[:2]]), s, f, data[0][4] if data and data[0][3] == f.name else None)
                fr = [e for e in st.mon if e[0] == 'call' and e[1] in FREES]
                C.check(not fr, 'copy', inst + ': nothing freed', site, 'copying a %s frees %s' % (n.orig, [show(e[2]) for e in fr[:2]]), s, f)
                tr = [e for e in st.mon if e[0] == 'call' and e[1] in ('TRAVopt', 'TRAVdo', 'TRAVchildren', 'TRAVstart') or e[0] == 'call' and e[1] == '?']
                C.check(len(tr) <= len(n.children), 'copy', inst + ': each child once', site, 'copying a %s traverses %d times for %d children' % (n.orig, len(tr), len(n.children)), s, f)
    C.done(100)


def agflag(s, fl, obj, st):
    """the mark that says a computed attribute has been evaluated: the sibling of its value"""
    l = s.loc(fl.w, obj, st)
    if l is None or l[0][0] != '&':
        return None
    r, p = peel(('&', l[0], l[1]))
    rec = pointee(s, r[2]) if r[0] == 'fld' else None
    t = ftype(s, rec, p[:-1]) if rec else None
    m = re.match(r'^(?:struct|union) (.*)$', t or '')
    sib = [f['n'] for f in s.G.records.get(m.group(1), []) if f['n'] != l[1]] if m else []
    return (l[0], sib[0] if len(sib) == 1 else 'ccn_val_set')


def copied(st, dst, src, is_string, is_child):
    if dst is None:
        return False
    null = st.truth(src) is False
    if is_child or is_string:
        if null and (dst == ZERO or ne(dst) == ne(src)):
            return True
        fns = ('TRAVopt', 'TRAVdo') if is_child else ('STRcpy',)
        return dst[0] == 'call' and dst[1] in fns and len(dst[3]) >= 1 and ne(dst[3][0]) == ne(src) and (dst[1] != 'TRAVdo' or st.truth(src) is True)
    return ne(dst) == ne(src)


# ------------------------------------------------------------------- C25
def c25(R, P):
    R.rule('free', 'for every node type, on every path of the function the free table selects: children are traversed before anything is released; every string attribute, the file name, '
                   'the data block and the node are released exactly once, the node last; nothing else is released or written; nothing is read after its release; NULL is returned')
    C = Ctx(R, P)
    for sk, s in C.sems:
        for n in s.nodes:
            f = entry(s, 'TRAV_free', n.nt)
            inst = '%s: free of %s' % (sk, n.orig)
            if f is None or f.body is None:
                C.missing(s, 'free', inst, 'free', 'no function frees nodes of type %s' % n.orig)
                continue
            R.func(f)
            st0 = s.region(ARG, n.nt)
            need = []
            for fl in n.attrs:
                if fl.is_string and not fl.ag:
                    l = s.loc(fl.w, ARG, st0)
                    if l is None:
                        C.missing(s, 'free', inst + ': ' + fl.orig, 'free', 'accessor %s cannot be resolved' % fl.macro)
                        continue
                    need.append(('string ' + fl.orig, s.read(st0, l)))
            agstr = []
            for fl in n.attrs:
                if fl.is_string and fl.ag:
                    l = s.loc(fl.w, ARG, st0)
                    if l is not None:
                        agstr.append(ne(s.read(st0, l)))
            l = s.loc('ccnw_node_filename', ARG, st0)
            if l is not None:
                need.append(('the file name', s.read(st0, l)))
            dp = dataptr(s, n, st0)
            if dp is not None:
                need.append(('the data block', dp))
            need.append(('the node', ARG))
            for st, rv in s.run(f, [ARG], st0):
                site = 'free'
                fr = [(i, e) for i, e in enumerate(st.mon) if e[0] == 'call' and e[1] in FREES]
                vals = [ne(e[2][0]) for _, e in fr]
                for what, v in need:
                    k = vals.count(ne(v))
                    if k == 0 and st.truth(v) is False:
                        k = 1
                    C.check(k == 1, 'free', '%s: %s' % (inst, what), site, 'freeing a %s releases %s %d times' % (n.orig, what, k), s, f)
                allow = [ne(v) for _, v in need] + agstr
                other = [v for v in vals if v not in allow]
                C.check(not other, 'free', inst + ': nothing else', site, 'freeing a %s also releases %s' % (n.orig, [show(x) for x in other[:2]]), s, f)
                C.check(not vals or vals[-1] == ne(ARG), 'free', inst + ': node last', site, 'freeing a %s does not release the node last' % n.orig, s, f)
                if dp is not None and ne(dp) in vals:
                    after = vals[vals.index(ne(dp)) + 1:]
                    C.check(all(a in (ne(ARG), ne(s.read(st0, l))) for a in after), 'free', inst + ': data after its contents', site, 'freeing a %s uses the data block after releasing it' % n.orig, s, f)
                uaf = [e for e in st.mon if e[0] == 'uaf']
                C.check(not uaf, 'free', inst + ': no use after release', site, 'freeing a %s reads %s after releasing it' % (n.orig, [x[2] for x in uaf[:2]]), s, f)
                w = [e for e in st.mon if e[0] == 'store' and not (e[1][1] == ARG or rooted(e[1][1], ARG))]
                C.check(not w, 'free', inst + ': no foreign writes', site, 'freeing a %s writes elsewhere' % n.orig, s, f)
                tr = [i for i, e in enumerate(st.mon) if e[0] == 'call' and e[1] == 'TRAVchildren' and e[2] == (ARG,)]
                per = {}
                for i, e in enumerate(st.mon):
                    if e[0] == 'call' and e[1] in ('TRAVopt', 'TRAVdo') and e[2]:
                        per[ne(e[2][0])] = i
                own = [s.loc(c.w, ARG, st0) for c in n.children]
                own = [ne(s.read(st0, x)) for x in own if x]
                alien = [k for k in per if k not in own]
                C.check(not alien, 'free', inst + ': links', site, 'freeing a %s also traverses %s, which is no child of it' % (n.orig, [show(x) for x in alien[:2]]), s, f)
                dfree = [i for i, e in fr if ne(e[2][0]) in (ne(ARG),) + ((ne(dp),) if dp is not None else ())]
                lim = min(dfree) if dfree else len(st.mon)
                for c in n.children:
                    lc = s.loc(c.w, ARG, st0)
                    v = ne(s.read(st0, lc)) if lc else None
                    k = len([i for i in tr if i < lim]) + (1 if v in per and per[v] < lim else 0)
                    C.check(k == 1, 'free', '%s: child %s' % (inst, c.orig), site, 'freeing a %s frees child %s %d times before releasing the node' % (n.orig, c.orig, k), s, f)
                C.check(rv == ZERO, 'free', inst + ': result', site, 'freeing a %s returns %s instead of NULL' % (n.orig, show(rv) if rv else None), s, f)
    C.done(100)


def dataptr(s, n, st):
    """the node's data block: the object its fields live in"""
    for fl in n.fields:
        l = s.loc(fl.w, ARG, st)
        if l is not None:
            r, p = peel(('&', l[0], l[1]))
            return r
    # a node without fields: by the union's member that points to a record of that name
    for k, r in s.G.records.items():
        if k == 'NODE_DATA':
            for f in r:
                if f['n'].lower() == 'n_' + n.lwr:
                    e = s.engine()
                    for g in s.G.records.get('ccn_node', []):
                        if g['t'] == 'union NODE_DATA':
                            return s.read(st, (('&', ARG, g['n']), f['n']))
    return None


# ------------------------------------------------------------------- C26
def c26(R, P):
    R.rule('ctor', 'for every node type the constructor takes the constructor children, then the constructor attributes, in order; stores each in its own field; all other fields get their default; '
                   'the node is new, has its type, its child count and a child array that is the children; and blocks are allocated with the size of their record')
    R.rule('type', 'the constructor has exactly the specified parameter types (compile-fail witness)')
    C = Ctx(R, P)
    for sk, s in C.sems:
        if not C.partial(s):
            typed(C, sk, s, 'ty_ctor_', 'type', 'ctor')
        for n in s.nodes:
            f = s.func('AST' + n.lwr)
            inst = '%s: AST%s' % (sk, n.lwr)
            if f is None:
                C.missing(s, 'ctor', inst, 'ctor', 'constructor AST%s is not generated' % n.lwr)
                continue
            R.func(f)
            cp = [fl for fl in n.fields if fl.ctor]
            if not C.check(len(f.params) == len(cp), 'ctor', inst + ': parameters', 'ctor', 'AST%s has %d parameters for %d constructor fields' % (n.lwr, len(f.params), len(cp)), s, f):
                continue
            args = [('in', 'p%d' % i) for i in range(len(cp))]
            for st, rv in s.run(f, args, State(mon=())):
                if not C.check(rv is not None and rv[0] == 'call' and rv[1] == 'MEMmalloc', 'ctor', inst + ': new node', 'ctor', 'AST%s returns %s' % (n.lwr, show(rv) if rv else None), s, f):
                    continue

                def val(w):
                    l = s.loc(w, rv, st)
                    return (None, None) if l is None else (l, s.read(st, l))
                for fl in n.fields:
                    l, v = val(fl.w)
                    if l is None:
                        C.missing(s, 'ctor', inst + ': ' + fl.orig, 'ctor', 'accessor %s cannot be resolved' % fl.macro)
                        continue
                    if fl.ctor:
                        w = args[cp.index(fl)]
                        C.check(v == w, 'ctor', '%s: %s' % (inst, fl.orig), 'ctor', 'AST%s stores %s in %s instead of its parameter %d' % (n.lwr, show(v), fl.orig, cp.index(fl) + 1), s, f)
                    elif fl.ag:
                        fd = agflag(s, fl, rv, st)
                        fd = s.read(st, fd) if fd else None
                        C.check(fd == ZERO, 'ctor', '%s: %s' % (inst, fl.orig), 'ctor', 'AST%s does not mark attribute %s as not evaluated (mark: %s)' % (n.lwr, fl.orig, show(fd) if fd else None), s, f)
                    else:
                        C.check(v in (ZERO, FZERO), 'ctor', '%s: %s' % (inst, fl.orig), 'ctor', 'AST%s leaves %s at %s instead of its default' % (n.lwr, fl.orig, show(v)), s, f)
                for nf, want in [('TYPE', ('c', s.enum('ccn_nodetype')[n.nt])), ('NUMCHILDREN', ('c', len(n.children)))] + [(x, ZERO) for x in ('BLINE', 'ELINE', 'BCOL', 'ECOL', 'FILENAME')]:
                    l, v = val('ccnw_node_' + nf.lower())
                    if l is None:
                        C.missing(s, 'ctor', inst + ': NODE_' + nf, 'ctor', 'NODE_%s cannot be resolved' % nf)
                        continue
                    C.check(v == want, 'ctor', '%s: NODE_%s' % (inst, nf), 'ctor', 'AST%s sets NODE_%s to %s' % (n.lwr, nf, show(v)), s, f)
                l, v = val('ccnw_node_children')
                if not n.children:
                    C.check(v == ZERO or v is not None and v[0] != 'undef', 'ctor', inst + ': NODE_CHILDREN', 'ctor', 'AST%s leaves NODE_CHILDREN uninitialised' % n.lwr, s, f)
                else:
                    for i, c in enumerate(n.children):
                        lc = s.loc(c.w, rv, st)
                        ok = lc is not None and v is not None and same_slot(s, n, v, i, lc)
                        C.check(ok, 'ctor', '%s: child slot %d' % (inst, i), 'ctor', 'NODE_CHILDREN(%s)[%d] is not child %s' % (n.orig, i, c.orig), s, f)
                sizes = {}
                for e in st.mon:
                    if e[0] == 'store' and e[2][0] == 'call' and e[2][1] in ('MEMmalloc', 'malloc'):
                        r = pointee(s, e[1][2])
                        if r and e[2][3]:
                            sizes[e[2]] = (r, e[2][3][0])
                sizes[rv] = ('ccn_node', rv[3][0] if rv[3] else None)
                for r, k in sizes.values():
                    C.check(k is not None and k[0] == 'c' and k[1] >= s.G.sizes.get(r, 1 << 30), 'ctor', '%s: size of %s' % (inst, r), 'ctor',
                            'AST%s allocates %s bytes for struct %s, which has %s' % (n.lwr, k[1] if k and k[0] == 'c' else k, r, s.G.sizes.get(r)), s, f)
                C.check(len(sizes) == 2, 'ctor', inst + ': blocks', 'ctor', 'AST%s allocates %d blocks' % (n.lwr, len(sizes)), s, f)
    C.done(100)


def pointee(s, fld):
    if not isinstance(fld, str):
        return None
    for r in s.G.records.values():
        for f in r:
            if f['n'] == fld:
                m = re.match(r'^struct (\w+) \*$', f['t'])
                if m:
                    return m.group(1)
    return None


def same_slot(s, n, arr, i, lc):
    """arr[i] designates the location lc"""
    r1, p1 = peel(arr if arr[0] == '&' else ('&', arr[1], arr[2]) if arr[0] == 'fld' else arr)
    if arr[0] == '&' and isinstance(p1[-1], tuple) and p1[-1][0] == '[]':
        p1 = p1[:-1]                       # &a[0]
    r2, p2 = peel(('&', lc[0], lc[1]))
    if r1 != r2:
        return False
    for rec in s.G.records:
        if all(isinstance(x, str) for x in p1 + p2) and p1 and s.G.records[rec] and any(f['n'] == p2[0] for f in s.G.records[rec]):
            a, b = offset(s.G, rec, p1), offset(s.G, rec, p2)
            if a is not None and b is not None:
                return a + 8 * i == b
    return False


def typed(C, sk, s, prefix, rule, site):
    """compile errors of the type witnesses"""
    for path, text in s.D.extra.items():
        if not path.startswith('witness/' + prefix):
            continue
        ls = text.split('\n')
        for i, l in enumerate(ls):
            if l.startswith('SAME('):
                e = [m for p, ln, m in s.D.errors if p == path and ln == i + 1]
                C.check(not e, rule, '%s: %s' % (sk, l), site, '%s does not hold: %s' % (l, e[0][:200] if e else ''))
        e = [m for p, ln, m in s.D.errors if p == path and not ls[ln - 1].startswith('SAME(')]
        if e:
            C.check(False, rule, '%s: %s' % (sk, path), site, '%s does not compile: %s' % (path, e[0][:200]))


# ------------------------------------------------------------------- C27
def c27(R, P):
    R.rule('access', 'every accessor designates a field of its own node type\'s record: distinct accessors of a node designate distinct fields, inside the record, whose declared type is the specified one')
    R.rule('type', 'accessors have exactly the specified C type (compile-fail witness)')
    R.rule('nodeset', 'the accessor of a nodeset attribute applied to a node of a member type designates that node\'s own attribute')
    R.rule('guard', 'in debug builds an accessor applied to a node of any other type reports it, and applied to its own type (for nodeset accessors: any member) does not; '
                    'a computed attribute is reported exactly until it has been evaluated')
    C = Ctx(R, P)
    for sk, s in C.sems:
        if not C.partial(s):
            typed(C, sk, s, 'ty_acc_', 'type', 'accessor')
        for n in s.nodes:
            st0 = s.region(ARG, n.nt)
            used = {}
            for fl in n.fields:
                inst = '%s: %s' % (sk, fl.macro)
                l = s.loc(fl.w, ARG, st0)
                if l is None:
                    C.missing(s, 'access', inst, 'accessor', 'accessor %s does not designate a field' % fl.macro)
                    continue
                r, p = peel(('&', l[0], l[1]))
                f = s.func(fl.w)
                m = re.match(r'^N_(\w+)$', r[2]) if r[0] == 'fld' and isinstance(r[2], str) else None
                rec = pointee(s, r[2]) if r[0] == 'fld' else None
                C.check(rec is not None and own_record(s, n, rec), 'access', inst + ': record', 'accessor', '%s reads the record of another node type (%s)' % (fl.macro, rec))
                if rec is not None:
                    o = offset(s.G, rec, p)
                    C.check(o is not None and o not in used, 'access', inst + ': field', 'accessor', '%s designates %s, the same field as %s' % (fl.macro, '.'.join(map(str, p)), used.get(o)))
                    used[o] = fl.macro
                    t = ftype(s, rec, p)
                    C.check(t is not None and canon(t) == canon(fl.ctype), 'access', inst + ': type', 'accessor', 'field %s of %s is declared %s, specified as %s' % (fl.orig, n.orig, t, fl.ctype))
        for x in s.sets:
            for fl in x.attrs:
                for m in x.members:
                    n = s.byorig[m]
                    st0 = s.region(ARG, n.nt)
                    own = [a for a in n.attrs if a.lwr == fl.lwr]
                    want = s.loc(own[0].w, ARG, st0) if own else None
                    got = s.loc(fl.w, ARG, st0)
                    inst = '%s: %s on %s' % (sk, fl.macro, n.orig)
                    if got is None or want is None:
                        C.missing(s, 'nodeset', inst, 'nodeset accessor', 'accessor %s does not designate a field of %s' % (fl.macro, n.orig))
                        continue
                    C.check(ne(('fld',) + got) == ne(('fld',) + want), 'nodeset', inst, 'nodeset accessor',
                            '%s applied to member %s designates %s, not its own attribute %s' % (fl.macro, n.orig, show(('fld',) + got), fl.orig), s, s.func(fl.w))
    # debug build
    rel = dict(C.sems)
    C2 = Ctx(R, P, ('attributes', 'full', 'spelling'), debug=True)
    for sk, s in C2.sems:
        if sk not in rel:
            continue
        for what, owners in (('accessor', [(n.orig, n.fields, [n.lwr]) for n in s.nodes]), ('nodeset accessor', [(x.orig, x.attrs, x.members) for x in s.sets])):
            for orig, fields, own in owners:
                for fl in fields:
                    w = s.func(fl.w)
                    if w is None:
                        C2.missing(s, 'guard', '%s: %s' % (sk, fl.macro), what + ' guard', '%s %s is missing in debug builds' % (what, fl.macro))
                        continue
                    for m in s.nodes:
                        for evaluated in ((0, 1) if fl.ag and m.lwr in own else (None,)):
                            st0 = s.region(ARG, m.nt)
                            if evaluated is not None:
                                k = agflag(rel[sk], fl, ARG, rel[sk].region(ARG, m.nt))
                                if k is None:
                                    C2.missing(s, 'guard', '%s: %s on %s' % (sk, fl.macro, m.orig), what + ' guard', '%s does not designate a field of %s' % (fl.macro, m.orig))
                                    continue
                                st0.heap[k] = ('c', evaluated)
                            rs = s.run(w, [ARG], st0)
                            rep = [bool([e for e in st.mon if e[0] == 'call' and e[1] == 'DBUGprintAssert']) for st, rv in rs]
                            bad = m.lwr not in own or evaluated == 0
                            C2.check((all(rep) and rep != []) if bad else not any(rep), 'guard', '%s: %s on %s%s' % (sk, fl.macro, m.orig, {0: ', not evaluated', 1: ', evaluated'}.get(evaluated, '')), what + ' guard',
                                     '%s applied to a %s%s in a debug build %s' % (fl.macro, m.orig, ' before it is evaluated' if evaluated == 0 else '', 'is not reported' if bad else 'is reported as wrong'), s, w)
    C.done(100)


def own_record(s, n, rec):
    """rec is the record allocated for nodes of type n"""
    f = s.func('AST' + n.lwr)
    if f is None:
        return rec.lower() == 'node_data_' + n.lwr
    others = [m for m in s.nodes if m is not n]
    for fl in n.fields:
        pass
    return rec.lower() == 'node_data_' + n.lwr or not any(rec.lower() == 'node_data_' + m.lwr for m in others)


def ftype(s, rec, path):
    for i, f in enumerate(path):
        fl = [x for x in s.G.records.get(rec, []) if x['n'] == f]
        if not fl:
            return None
        if i == len(path) - 1:
            return fl[0]['t']
        m = re.match(r'^(?:struct|union) (\w+)$', fl[0]['t'])
        if not m:
            return None
        rec = m.group(1)
    return None


CANON = {'int8_t': 'signed char', 'int16_t': 'short', 'int32_t': 'int', 'int64_t': 'long', 'uint8_t': 'unsigned char', 'uint16_t': 'unsigned short',
         'uint32_t': 'unsigned int', 'uint64_t': 'unsigned long', 'MyType': 'void *', 'bool': '_Bool'}


def canon(t):
    t = CANON.get(t, t)
    return re.sub(r'\s+', ' ', t).replace(' *', '*')


# ------------------------------------------------------------------- C28
def c28(R, P):
    R.rule('travchild', 'for every child name, TRAV<child> on a node that has the child traverses exactly that child once, stores the result in that child and returns the node; on other nodes it changes nothing')
    C = Ctx(R, P)
    for sk, s in C.sems:
        names = []
        for n in s.nodes:
            for c in n.children:
                if c.orig not in names:
                    names.append(c.orig)
        for cn in names:
            f = s.func('TRAV' + cn)
            inst = '%s: TRAV%s' % (sk, cn)
            if f is None:
                C.missing(s, 'travchild', inst, 'travchild', 'TRAV%s is not generated' % cn)
                continue
            R.func(f)
            for n in s.nodes:
                mine = [c for c in n.children if c.orig == cn]
                st0 = s.region(ARG, n.nt)
                for c in (mine or [None]):
                    v = None
                    if c is not None:
                        l = s.loc(c.w, ARG, st0)
                        if l is None:
                            C.missing(s, 'travchild', inst, 'travchild', 'accessor %s cannot be resolved' % c.macro)
                            continue
                        v = s.read(st0, l)
                    for st, rv in s.run(f, [ARG], st0):
                        C.check(rv == ARG, 'travchild', '%s on %s: result' % (inst, n.orig), 'travchild', 'TRAV%s on a %s returns %s' % (cn, n.orig, show(rv) if rv else None), s, f)
                        calls = [e for e in st.mon if e[0] == 'call' and not e[1].startswith('DBUG')]
                        stores = [e for e in st.mon if e[0] == 'store']
                        if c is None:
                            C.check(not calls and not stores, 'travchild', '%s on %s: no effect' % (inst, n.orig), 'travchild', 'TRAV%s on a %s, which has no such child, has an effect' % (cn, n.orig), s, f)
                            continue
                        if st.truth(v) is False and not calls:
                            C.check(all(e[2] == ZERO for e in stores), 'travchild', '%s on %s: absent child' % (inst, n.orig), 'travchild', 'TRAV%s changes an absent child' % cn, s, f)
                            continue
                        ok = len(calls) == 1 and calls[0][1] in ('TRAVopt', 'TRAVdo') and ne(calls[0][2][0]) == ne(v) and (calls[0][1] == 'TRAVopt' or st.truth(v) is True)
                        C.check(ok, 'travchild', '%s on %s: traverses the child' % (inst, n.orig), 'travchild', 'TRAV%s on a %s does not traverse exactly child %s' % (cn, n.orig, cn), s, f)
                        l2 = s.loc(c.w, ARG, st)
                        res = s.read(st, l2)
                        C.check(calls and res == calls[0][5] and all(ne(e[1][1:]) == ne(l2) for e in stores), 'travchild', '%s on %s: stores the result' % (inst, n.orig), 'travchild',
                                'TRAV%s on a %s does not store the result in child %s alone' % (cn, n.orig, cn), s, f)
    C.done(20)


# ------------------------------------------------------------------- C24
def inrange(i, lt):
    typ, rb, re_ = lt
    if rb is not None and not i >= (rb[0] if rb[2] else rb[1]):
        return False
    if re_ is not None and not i < (re_[1] if re_[2] else re_[0]):
        return False
    return True


def violated(i, lt, present):
    """does the lifetime forbid the value at action i"""
    k = inrange(i, lt)
    return {'disallowed': present and k, 'allowed': present and not k, 'mandatory': not present and k, 'optional': not present and not k}[lt[0]]


def enumerator(s, name):
    for e in s.enums.values():
        if name in e:
            return e[name]
    return None


def members(t):
    return [t] if t.kind == 'inode' else list(t.members)


def c24(R, P):
    R.rule('check', 'for every node type, at every action, for every value of one child or attribute and others absent or present: the function the check table selects reports one error per violated '
                    'constraint (child of a type that is not allowed; lifetime that forbids the value at this action) and none otherwise, leaves the node as it is, checks all children and returns the node')
    C = Ctx(R, P)
    for sk, s in C.sems:
        S = s.S
        err = ('c', enumerator(s, 'CTI_ERROR'))
        lts = getattr(S, 'lts', {})
        ids = range(1, S.last_id + 1) if lts else (1,)
        bylabel = {n.inst.label: n for n in s.nodes}
        for n in s.nodes:
            f = entry(s, 'TRAV_check', n.nt)
            inst = '%s: check of %s' % (sk, n.orig)
            if f is None or f.body is None:
                C.missing(s, 'check', inst, 'check', 'no function checks nodes of type %s' % n.orig)
                continue
            R.func(f)
            base = s.region(ARG, n.nt)
            locs = {}
            for fl in n.fields:
                l = s.loc(fl.w, ARG, base)
                if l is None:
                    C.missing(s, 'check', inst + ': ' + fl.orig, 'check', 'accessor %s cannot be resolved' % fl.macro)
                else:
                    locs[fl] = l

            def rules(fl):
                r = list(lts.get(fl.inst.label, []))
                if fl.is_child and fl.inst.flags.get('is_mandatory') and not any(x[0] == 'mandatory' for x in r):
                    r.append(('mandatory', None, None))
                return r
            vary = [fl for fl in n.fields if fl in locs and (fl.is_child or rules(fl))]

            def setv(st, fl, v):
                """v: None absent, a node type, or True (present)"""
                o = ('in', 'v_' + fl.lwr)
                if v is None:
                    st.heap[locs[fl]] = ZERO
                else:
                    st.heap[locs[fl]] = o
                    st.assume(o, True)
                    if v is not True:
                        s.put(st, 'ccnw_node_type', o, ('c', s.enum('ccn_nodetype')[v.nt]))

            def expected(i, vals):
                k = sum(violated(i, x, True) for x in lts.get(n.inst.label, []))
                for fl, v in vals.items():
                    k += sum(violated(i, x, v is not None) for x in rules(fl))
                    if fl.is_child and v is not None and v.inst not in members(fl.inst.target):
                        k += 1
                return k

            def good(fl):
                return bylabel[members(fl.inst.target)[0].label] if fl.is_child else True
            cases = []
            for bgn, bg in (('absent', {fl: None for fl in vary}), ('present', {fl: good(fl) for fl in vary})):
                for fl in vary:
                    if not fl.is_child:
                        vs = [None, True]
                    elif lts:
                        g = good(fl)
                        vs = [None, g] + [m for m in (n, s.nodes[0]) if m is not g][:1]
                    else:
                        vs = [None] + s.nodes
                    for v in vs:
                        b = dict(bg)
                        b[fl] = v
                        if b not in [c[1] for c in cases]:
                            cases.append(('%s=%s, others %s' % (fl.orig, v.orig if isinstance(v, gensym.NodeT) else 'NULL' if v is None else 'set', bgn), b))
            if not vary:
                cases = [('', {})]
            for i in ids:
                s.fixed = {'CCNgetCurrentActionId': ('c', i)}
                for what, vals in cases:
                    st0 = base.copy()
                    for fl, v in vals.items():
                        setv(st0, fl, v)
                    want = expected(i, vals)
                    for st, rv in s.run(f, [ARG], st0):
                        calls = [e for e in st.mon if e[0] == 'call']
                        got = len([e for e in calls if e[1] == 'CTI' and e[2] and e[2][0] == err])
                        C.check(got == want, 'check', '%s at action %d: %s' % (inst, i, what), 'check',
                                'checking a %s with %s at action %d reports %d errors for %d violated constraints' % (n.orig, what or 'no fields', i, got, want), s, f)
                        bad = [e for e in st.mon if e[0] == 'store']
                        C.check(rv == ARG and not bad, 'check', '%s at action %d: %s: tree unchanged' % (inst, i, what), 'check',
                                'checking a %s %s' % (n.orig, 'changes the tree' if bad else 'returns %s instead of the node' % (show(rv) if rv else None)), s, f)
                        whole = [e for e in calls if e[1] == 'TRAVchildren' and e[2] and ne(e[2][0]) == ARG]
                        each = [ne(e[2][0]) for e in calls if e[1] in ('TRAVopt', 'TRAVdo') and e[2]]
                        for c in n.children:
                            if c not in locs or vals.get(c) is None:
                                continue
                            k = len(whole) + each.count(ne(st0.heap[locs[c]]))
                            C.check(k == 1, 'check', '%s at action %d: %s: child %s' % (inst, i, what, c.orig), 'check',
                                    'checking a %s checks its child %s %d times' % (n.orig, c.orig, k), s, f)
            s.fixed = {}
    C.done(1000)


# ------------------------------------------------------------------- C29
def c29(R, P):
    R.rule('user', 'every user function the generated tables call is declared and has a stub of that name and signature in the user directory: node functions and passes return their node, '
                   'node functions continue to the children exactly once')
    R.rule('once', 'no user function is generated twice')
    C = Ctx(R, P)
    for sk, s in C.sems:
        S = s.S
        TT, PT = s.enum('ccn_traversal_type') or {}, s.enum('ccn_pass_type') or {}
        used = set()

        def stub(name, inst, site, what, children):
            used.add(name)
            f = s.func(name) if name else None
            if f is None or not s.file(f).startswith('user/'):
                C.missing(s, 'user', inst, site, '%s has no stub named %s' % (what, name))
                return
            R.func(f)
            C.check(name in s.G.decls and len(f.params) == 1, 'user', inst + ': declared', site, '%s is not declared with one parameter' % name, s, f)
            for st, rv in s.run(f, [ARG], State(mon=())):
                C.check(rv == ARG and not [e for e in st.mon if e[0] == 'store'], 'user', inst + ': result', site, 'the stub %s returns %s' % (name, show(rv) if rv else None), s, f)
                tc = [e for e in st.mon if e[0] == 'call' and e[1].startswith('TRAV')]
                ok = [e[1] for e in tc] == ['TRAVchildren'] and ne(tc[0][2][0]) == ARG if children else not tc
                C.check(ok, 'user', inst + ': children', site, 'the stub %s %s' % (name, 'does not continue to the children' if children else 'traverses'), s, f)
        for t in S.nn['itraversal']:
            u, o = S.names[t.label + '.iprefix'], S.names[t.label + '.name']
            e = travtable(s, 'TRAV_' + u.upper())
            for n in s.nodes:
                if S.reachability(t, n.inst) == 2:
                    i = (s.enum('ccn_nodetype') or {}).get(n.nt)
                    name = tname(e[i]) if e and i is not None and i < len(e) else None
                    stub(name, '%s: %s of %s' % (sk, o, n.orig), 'travfunc', 'the function of traversal %s for %s' % (o, n.orig), True)
            if t.lists['data']:
                for vt in ('trav_data_init_vtable', 'trav_data_free_vtable'):
                    f = s.func(table(s, vt, TT.get('TRAV_' + u.upper())) or '')
                    if f is None:
                        C.missing(s, 'user', '%s: %s %s' % (sk, vt, o), 'travdata', 'traversal %s has no entry in %s' % (o, vt))
                        continue
                    for n2 in called(s, f):
                        g = s.func(n2)
                        if g is not None and s.file(g).startswith('user/'):
                            used.add(n2)
                            st = s.run(g, [], State(mon=()))
                            C.check(all(not x.mon for x, _ in st), 'user', '%s: %s' % (sk, n2), 'travdata', 'the stub %s has an effect' % n2, s, g)
        for p in S.nn['ipass']:
            o = S.names[p.label + '.name']
            stub(table(s, 'ccn_pass_vtable', PT.get('PASS_' + o.upper())), '%s: pass %s' % (sk, o), 'passfunc', 'pass ' + o, False)
        for d in s.G.dup:
            f = s.func(d)
            if f is not None and s.file(f).startswith('user/'):
                C.check(False, 'once', '%s: %s' % (sk, d), 'stub', 'the stub %s is generated twice' % d, s, f)
    C.done(60)


def called(s, f):
    """names a derived function calls"""
    return sorted(set(x['n'] for x in walk(f.body) if x.get('k') in ('fn', 'call') and x.get('n')))


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


# ------------------------------------------------------------------- C30
def const(x):
    x = strip(x)
    return None if x is None else x.get('v')


def c30(R, P):
    R.rule('action', 'CCNgetActionFromID yields, for every action enumerator, an action with that id, the specified name and kind: its traversal, its pass, or its phase with the specified gate, '
                     'root type, cycle flag and sub-actions in order, ended by CCNAC_ID_NULL')
    R.rule('root', 'the root action is the start phase, the root type the root node, and the number of actions that of the enumerators')
    C = Ctx(R, P)
    for sk, s in C.sems:
        S = s.S
        A = s.enum('ccn_action_id')
        NT, TT, PT = s.enum('ccn_nodetype') or {}, s.enum('ccn_traversal_type') or {}, s.enum('ccn_pass_type') or {}
        if A is None:
            C.missing(s, 'action', sk, 'actions', 'the enum of actions is missing')
            continue
        acts = [(k, x) for k in ('iphase', 'itraversal', 'ipass') for x in S.nn[k]]

        def en(x):
            return 'CCNAC_ID_' + S.names[x.label + '.name'].upper()
        want = [en(x) for _, x in acts] + ['CCNAC_ID_check', 'CCNAC_ID_free', 'CCNAC_ID_cleanup']
        C.check(set(A) == set(want + ['CCNAC_ID_NULL']) and len(set(A.values())) == len(A), 'action', sk + ': enumerators', 'actions', 'the action enumerators are %s' % sorted(set(A) ^ set(want + ['CCNAC_ID_NULL'])))
        rt = [x for x in S.nn['inode'] if x.flags['is_root']]
        root = 'NT_' + S.names[rt[0].label + '.name'].upper()
        start = [x for x in S.nn['iphase'] if x.flags['is_start']]
        for c, w in (('CCN_ROOT_ACTION', A.get(en(start[0]))), ('CCN_ROOT_TYPE', NT.get(root)), ('CCN_NUM_OF_ACTIONS', len(want))):
            f = s.func('ccnw_const_' + c)
            r = s.run(f, [], State(mon=())) if f is not None else []
            if not r:
                C.missing(s, 'root', '%s: %s' % (sk, c), 'actions', '%s is missing' % c)
                continue
            v = r[0][1]
            C.check(v == ('c', w), 'root', '%s: %s' % (sk, c), 'actions', '%s is %s instead of %s' % (c, show(v), w))
        get = s.func('CCNgetActionFromID')
        if get is None:
            C.missing(s, 'action', sk + ': CCNgetActionFromID', 'actions', 'CCNgetActionFromID is missing')
            continue
        R.func(get)

        def ids(init):
            t = strip(init)
            if t is None or t.get('k') not in ('var',):
                return None
            e = s.elems(t['n'])
            return None if e is None else [const(x) for x in e]
        spec = [(en(x), k, x, S.names[x.label + '.name']) for k, x in acts] + [('CCNAC_ID_check', 'itraversal', None, None), ('CCNAC_ID_free', 'itraversal', None, None), ('CCNAC_ID_cleanup', 'iphase', None, None)]
        KIND = {'iphase': 'CCN_ACTION_PHASE', 'itraversal': 'CCN_ACTION_TRAVERSAL', 'ipass': 'CCN_ACTION_PASS'}
        for e, k, x, o in spec:
            inst = '%s: action %s' % (sk, e)
            site = 'action:' + k if x is not None else 'action:' + e
            if e not in A:
                continue
            got = None
            for st, rv in s.run(get, [('c', A[e])], State(mon=())):
                got = element(s, rv)
            if got is None:
                C.check(False, 'action', inst, site, 'CCNgetActionFromID(%s) is not an element of a table' % e)
                continue
            fl = got.get('fields', {})
            C.check(const(fl.get('action_id')) == A[e], 'action', inst + ': id', site, 'CCNgetActionFromID(%s) yields the action with id %s' % (e, const(fl.get('action_id'))))
            C.check(const(fl.get('type')) == enumerator(s, KIND[k]), 'action', inst + ': kind', site, 'action %s has kind %s' % (e, fl.get('type', {}).get('n')))
            nm = strip(fl.get('name'))
            if o is not None:
                C.check(nm is not None and nm.get('k') == 'str' and nm.get('v') == o, 'action', inst + ': name', site, 'action %s is named %s' % (e, nm and nm.get('v')))
            un = {}
            for v in fl.values():
                if isinstance(v, dict) and v.get('k') == 'init':
                    un = v.get('fields', {})
            sub = un.get({'iphase': 'phase', 'itraversal': 'traversal', 'ipass': 'pass'}[k], {}).get('fields', {})
            if k == 'itraversal':
                w = 'TRAV_' + S.names[x.label + '.iprefix'].upper() if x is not None else {'CCNAC_ID_check': 'TRAV_check', 'CCNAC_ID_free': 'TRAV_free'}[e]
                C.check(const(sub.get('trav_type')) == TT.get(w), 'action', inst + ': traversal', site, 'action %s runs %s instead of %s' % (e, sub.get('trav_type', {}).get('n'), w))
            elif k == 'ipass':
                w = 'PASS_' + o.upper()
                C.check(const(sub.get('pass_type')) == PT.get(w), 'action', inst + ': pass', site, 'action %s runs %s instead of %s' % (e, sub.get('pass_type', {}).get('n'), w))
            else:
                g = strip(sub.get('gate_func'))
                gn = tname(g) if g is not None else None
                gw = S.names.get(x.label + '.gate_func') if x is not None and x.flags.get('gate_func') else None
                C.check(gn == gw, 'action', inst + ': gate', site, 'phase %s is gated by %s instead of %s' % (e, gn, gw))
                C.check(const(sub.get('root_type')) == NT.get(root), 'action', inst + ': root', site, 'phase %s has root type %s' % (e, sub.get('root_type', {}).get('n')))
                cyc = bool(x.flags['is_cycle']) if x is not None else False
                C.check(bool(const(sub.get('is_cycle'))) == cyc, 'action', inst + ': cycle', site, 'phase %s is %s cycle' % (e, 'a' if not cyc else 'not a'))
                C.check(const(sub.get('current_action_id')) == A[e], 'action', inst + ': own id', site, 'phase %s is current as %s' % (e, sub.get('current_action_id', {}).get('n')))
                w = [A.get(en(a)) for a in x.acts] if x is not None else [A['CCNAC_ID_free']]
                t = ids(sub.get('action_table'))
                C.check(t is not None and t == w + [A['CCNAC_ID_NULL']], 'action', inst + ': sub-actions', site, 'phase %s runs actions %s instead of %s' % (e, t, w))
    C.done(60)


def element(s, v):
    """the initialiser of the table element a value points to"""
    if v is None or v[0] not in ('&', '[]', 'fld'):
        return None
    r, p = peel(v)
    if r[0] != 'fld' or r[1] != ('G',) or len(p) != 1:
        return None
    i = p[0]
    e = s.elems(r[2])
    k = i[1] if isinstance(i, tuple) else None
    if isinstance(k, tuple) and k[0] == 'c':
        k = k[1]
    if e is None or not isinstance(k, int) or not 0 <= k < len(e):
        return None
    return e[k]


# ------------------------------------------------------------------- C31
def c31(R, P):
    R.rule('init', 'the init entry of a traversal with data allocates a block of the record\'s size, gives every field its default, makes it the current traversal\'s data and then calls the user\'s init')
    R.rule('fini', 'the free entry calls the user\'s fini first, then releases that block exactly once')
    R.rule('type', 'the data accessor and every field have the specified C type (compile-fail witness)')
    C = Ctx(R, P)
    n_ = 0
    for sk, s in C.sems:
        S = s.S
        TT = s.enum('ccn_traversal_type') or {}
        if not C.partial(s):
            typed(C, sk, s, 'ty_data_', 'type', 'travdata')
        T = ('in', 'trav')
        for t in S.nn['itraversal']:
            if not t.lists['data']:
                continue
            n_ += 1
            u, o = S.names[t.label + '.iprefix'], S.names[t.label + '.name']
            inst = '%s: data of %s' % (sk, o)
            fi, ff = (s.func(table(s, vt, TT.get('TRAV_' + u.upper())) or '') for vt in ('trav_data_init_vtable', 'trav_data_free_vtable'))
            if fi is None or ff is None:
                C.missing(s, 'init', inst, 'travdata', 'traversal %s has no init or free function for its data' % o)
                continue
            R.func(fi)
            R.func(ff)
            s.fixed = {'TRAVgetCurrent': T}
            rec = 'data_' + u.lower()
            fields = [(S.names[d.label + '.name'], ctype(S, d)) for d in t.lists['data']]
            init_st = None
            for st, rv in s.run(fi, [T], State(mon=())):
                init_st = st
                d = s.loc('ccnw_tdata_%s_%s' % (u.lower(), fields[0][0]), None, st)
                blk = peel(('&', d[0], d[1]))[0] if d else None
                if not C.check(blk is not None and blk[0] == 'call' and blk[1] in ('MEMmalloc',), 'init', inst + ': block', 'travdata init', 'the data of traversal %s is %s, not a new block' % (o, show(blk) if blk else None), s, fi):
                    continue
                k = blk[3][0] if blk[3] else None
                C.check(k is not None and k[0] == 'c' and k[1] >= s.G.sizes.get(rec, 1 << 30), 'init', inst + ': size', 'travdata init', 'the data of traversal %s is allocated with %s bytes, its record has %s' % (o, show(k), s.G.sizes.get(rec)), s, fi)
                offs = {}
                for fn_, ct in fields:
                    l = s.loc('ccnw_tdata_%s_%s' % (u.lower(), fn_), None, st)
                    if l is None:
                        C.missing(s, 'init', '%s: %s' % (inst, fn_), 'travdata init', 'data field %s of %s cannot be resolved' % (fn_, o))
                        continue
                    v = s.read(st, l)
                    C.check(v in (ZERO, FZERO), 'init', '%s: %s' % (inst, fn_), 'travdata init', 'data field %s of traversal %s starts as %s instead of its default' % (fn_, o, show(v)), s, fi)
                    C.check(l not in offs, 'init', '%s: %s distinct' % (inst, fn_), 'travdata init', 'data fields %s and %s of %s are one' % (fn_, offs.get(l), o))
                    offs[l] = fn_
                ui = [i for i, e in enumerate(st.mon) if e[0] == 'call' and userfn(s, e[1])]
                last = [i for i, e in enumerate(st.mon) if e[0] == 'store']
                C.check(len(ui) == 1 and (not last or ui[0] > last[-1]), 'init', inst + ': user init', 'travdata init', 'the user\'s init of traversal %s is called %d times, or before the data is set up' % (o, len(ui)), s, fi)
                C.check(all(st.mon[i][1] == u.upper() + 'init' for i in ui), 'init', inst + ': user init name', 'travdata init', 'traversal %s calls %s' % (o, [st.mon[i][1] for i in ui]), s, fi)
            for st, rv in s.run(ff, [T], init_st or State(mon=())):
                uf = [i for i, e in enumerate(st.mon) if e[0] == 'call' and userfn(s, e[1])]
                fr = [(i, e) for i, e in enumerate(st.mon) if e[0] == 'call' and e[1] in FREES]
                C.check(len(uf) == 1 and all(uf[0] < i for i, _ in fr) and st.mon[uf[0]][1] == u.upper() + 'fini', 'fini', inst + ': user fini', 'travdata free', 'the user\'s fini of traversal %s is not called once before its data is released' % o, s, ff)
                d = s.loc('ccnw_tdata_%s_%s' % (u.lower(), fields[0][0]), None, init_st) if init_st else None
                blk = peel(('&', d[0], d[1]))[0] if d else None
                C.check(len(fr) == 1 and fr[0][1][2] and blk is not None and ne(fr[0][1][2][0]) == ne(blk), 'fini', inst + ': released', 'travdata free', 'the data of traversal %s is released %d times' % (o, len(fr)), s, ff)
                C.check(not [e for e in st.mon if e[0] == 'uaf'], 'fini', inst + ': use after release', 'travdata free', 'the data of traversal %s is used after its release' % o, s, ff)
            s.fixed = {}
    C.done(20)


def userfn(s, name):
    f = s.func(name) if name else None
    return f is None and name is not None and not name.startswith(('MEM', 'STR', 'DBUG', 'TRAV')) or f is not None and s.file(f).startswith('user/')


# ------------------------------------------------------------------- C32
def c32(R, P):
    R.rule('compile', 'every file of the derived project (generated sources and headers, user stubs, with copra and palm) type-checks without errors')
    R.rule('link', 'every project function or table that is referenced is defined exactly once over derived sources, stubs, copra and palm')
    C = Ctx(R, P)
    R.rule('debug', 'the same holds for debug builds')
    for dbg in (False, True):
        if dbg:
            C = Ctx(R, P, ('full', 'spelling'), True)
        for sk, s in C.sems:
            if C.partial(s):
                R.notes.setdefault('skipped', []).append(sk)
            for f in s.D.parsed:
                if not f.startswith('witness/'):
                    e = [(p, l, m) for p, l, m in s.D.errors if p == f]
                    C.check(not e, 'compile' if not dbg else 'debug', '%s: %s' % (sk, f), 'compile',
                            '%s does not compile: %s%s' % (f, e[0][2][:160] if e else '', ' [emitted by %s]' % s.D.where(e[0][0], e[0][1]) if e else ''))
            parsed = set(s.D.parsed)
            for p, l, m in s.D.errors:
                if p not in parsed and not p.startswith('witness/'):
                    C.check(False, 'compile', '%s: %s' % (sk, p), 'compile', '%s does not compile: %s [emitted by %s]' % (p, m[:160], s.D.where(p, l)))
            if C.partial(s):
                continue
            G = s.G
            for d in sorted(set(G.dup)):
                C.check(False, 'link', '%s: %s' % (sk, d), 'link', 'function %s is defined twice' % d)
            refs = {}
            for f in G.all_funcs():
                if s.derived[id(f)] or s.file(f).startswith(('user/', 'copra/')):
                    if s.file(f).startswith('witness/'):
                        continue
                    for x in walk(f.body):
                        if x.get('k') in ('fn', 'call') and x.get('n'):
                            refs.setdefault(x['n'], f)
            tabs = {}
            for name, g in list(G.globals.items()) + [(k[1], g) for k, g in G.sglobals.items()]:
                for x in walk(g.get('init')):
                    if x.get('k') in ('fn', 'call') and x.get('n'):
                        refs.setdefault(x['n'], None)
                    if x.get('k') == 'var' and x.get('n'):
                        tabs.setdefault(x['n'], None)
            for n in sorted(refs):
                d = G.decls.get(n)
                if d is None:
                    continue
                p = s.D.rel(d['file'])
                if p.startswith('/') or p.startswith('user_types'):
                    continue
                ok = n in G.funcs or any(k[1] == n for k in G.statics) or n in P.funcs and p.startswith(('palm/', 'copra/')) or gatefn(s, n) or userprovided(n)
                C.check(ok, 'link', '%s: %s' % (sk, n), 'link', 'function %s is used%s but defined nowhere' % (n, ' by ' + refs[n].name if refs[n] else ''), s, refs[n])
            for name, g in sorted(G.globals.items()):
                p = s.D.rel(g['file'])
                if p.startswith('/'):
                    continue
                C.check(g.get('def') or 'init' in g or name in P.globals and p.startswith(('palm/', 'copra/')), 'link', '%s: %s' % (sk, name), 'link', 'variable %s is declared in %s but defined nowhere' % (name, p))
    C.done(100)


def gatefn(s, n):
    """phase gates are written by the user"""
    return any(S_ == n for x in s.S.nn['iphase'] for S_ in [s.S.names.get(x.label + '.gate_func')])


def userprovided(n):
    """the start of the tree is the user's first action"""
    return n in ('BreakpointHandler', 'CCNprintHandler')
