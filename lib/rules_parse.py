"""The parser keeps every part of a declaration (C19).

The grammar (as bison reads it) and its actions are analysed together.  Every action is
summarised by the abstract interpreter: which objects it builds, which fields it sets,
what it returns.  The summaries are composed along the derivations of each declaration,
recursive nonterminals being opaque (they are roots of derivations of their own, so the
result is an induction over the length of lists and the nesting of expressions).  For each
derivation the resulting object is compared with the parts its terminals spell out.
Keywords are taken from the scanner's rules.
"""
import re
import xml.etree.ElementTree as ET
from absint import ZERO, ONE, State, subterms
from emit import Emitter, EEngine, EmitMon, Path, noep
from program import AnalysisBroken, Func, rel

PARSER = 'dsl-parser.c'
LEXER = 'dsl-tokens.c'
FRESHFN = ('MEMmalloc', 'malloc', 'calloc', 'MEMcalloc', 'CCNmalloc')
PURE = ('CCNcopy', 'STRlower', 'STRupper', 'STRcpy', 'STRncpy', 'SETIDcontains')
LOGGED = ('SETIDinsert',)
SKIP = ('CCNfree', 'free', 'MEMfree')


# ---------------------------------------------------------------- grammar
class Grammar:
    def __init__(self, P):
        if not P.grammar_xml:
            raise AnalysisBroken('no grammar')
        x = ET.fromstring(P.grammar_xml)
        g = x.find('grammar')
        self.rules = {}
        self.of = {}
        for r in g.find('rules'):
            n = int(r.get('number'))
            rhs = [s.text for s in r.find('rhs').findall('symbol')]
            lhs = r.find('lhs').text
            self.rules[n] = (lhs, rhs)
            self.of.setdefault(lhs, []).append(n)
        self.tokens = {}
        self.ttype = {}
        for t in g.find('terminals'):
            self.tokens[int(t.get('token-number'))] = t.get('name')
            self.ttype[t.get('name')] = t.get('type')
        self.type = {t.get('name'): t.get('type') for t in g.find('nonterminals')}
        self.nts = set(self.of)
        self.cut()
        self.conflicts = [c for st in x.iter('state') for c in (list(st.find('solved-conflicts')) if st.find('solved-conflicts') is not None else [])]

    def cut(self):
        """nonterminals kept opaque when they occur inside a derivation of another one"""
        self.opaque = set(l for n, (l, r) in self.rules.items() if l in r)
        while True:
            cyc = self.cycle()
            if cyc is None:
                return
            outer = [c for c in cyc if any(c in r and l not in cyc for l, r in self.rules.values())]
            self.opaque.add((outer or cyc)[0])

    def cycle(self):
        color, path = {}, []

        def dfs(n):
            color[n] = 1
            path.append(n)
            for k in self.of.get(n, ()):
                for s in self.rules[k][1]:
                    if s in self.nts and s not in self.opaque:
                        if color.get(s) == 1:
                            return path[path.index(s):]
                        if s not in color:
                            c = dfs(s)
                            if c:
                                return c
            path.pop()
            color[n] = 2
            return None
        for n in sorted(self.nts):
            if n not in color and n not in self.opaque:
                c = dfs(n)
                if c:
                    return c
        return None


def actions(P, fn='yyparse', var='yyn'):
    """case number -> (statement, file line) of the big switch of a generated function"""
    f = P.funcs.get(fn)
    if f is None:
        raise AnalysisBroken('no ' + fn)
    res = {}

    def walk(s):
        if isinstance(s, dict):
            if s.get('s') == 'switch' and s['c'].get('n', '').startswith(var):
                cur, acc = None, []
                for x in s['b']['b']:
                    lab = []
                    while isinstance(x, dict) and x.get('s') in ('case', 'default'):
                        lab.append(x.get('v') if x['s'] == 'case' else None)
                        x = x.get('b')
                    if lab:
                        cur = lab
                        for k in lab:
                            res[k] = []
                    if x is not None and x.get('s') == 'break':
                        cur = None
                    elif x is not None and cur:
                        for k in cur:
                            res[k].append(x)
                return
            for v in s.values():
                walk(v)
        elif isinstance(s, list):
            for v in s:
                walk(v)
    walk(f.body)
    return f, res


class PEmitter(Emitter):
    """analyses the parser's own functions and the node constructors"""
    def policy(self, e, c, n):
        f = self.P.resolve(c.tu, n)
        if f is None or n in PURE + LOGGED + SKIP + FRESHFN or n.startswith('yy'):
            return 'opaque'
        r = rel(f.file)
        return 'inline' if r.endswith((PARSER, '.y')) or r.startswith('cocogen/ccngen/ast') else 'opaque'

    def effects(self, f, argvals):
        self.root = f
        m = PMon(self, {})
        eng = PEngine(self.P, m, self.policy, cap=4000)
        st = State(mon=())
        res = []
        for s, v in eng.run(f, (), args=argvals, init=st):
            res.append(Path(tuple(self.fill_loops(m, s.mon)), noep(v) if v else None, ()))
            self.nevents += len(res[-1].ev)
        self.funcs |= set(n for _, n in eng.visited_funcs)
        return res


class PEngine(EEngine):
    def private(self, b):
        return b[0] == '&v' or b[0] == '&' and self.private(b[1])


class PMon(EmitMon):
    def store(self, eng, st, fr, node, loc, val):
        if loc[0] == 'L' and not (loc[1][0] == '&v'):
            self.em.norm
            return st.mon + (('set', noep(loc[1]), noep(loc[2]) if isinstance(loc[2], tuple) else loc[2], noep(val), node.line),)
        return None

    def call(self, eng, st, fr, node, name, cv, argv):
        em = self.em
        if name and name.startswith('CCNaccess_'):
            l = em.accessor(fr.func.tu, name)
            if l is not None:
                return [(st, ('&', argv[-1], l))]
        if name in SKIP:
            return [(st, ZERO)]
        if name in FRESHFN:
            rv = ('call', 'malloc', (fr.id, node.id), ())
            st.assume(rv, True)
            return [(st, rv)]
        if name in PURE:
            rv = ('call', name, None, tuple(argv))
            st.assume(rv, True)
            return [(st, rv)]
        if name in LOGGED:
            a = tuple(noep(x) for x in argv)
            self.add(st, ('call', name, a, node.line))
            rv = ('call', name, None, a)
            st.assume(rv, True)
            return [(st, rv)]
        if name is None or eng.policy(eng, fr.func, name) != 'inline':
            a = tuple(noep(x) for x in argv)
            self.add(st, ('call', name, a, node.line))
            return [(st, ('call', name or '?', (fr.id, node.id), a))]
        return None


def symbolic(s, n, used):
    """yyvsp[k-n].f -> $k ; yyval.f -> $$"""
    if isinstance(s, list):
        return [symbolic(x, n, used) for x in s]
    if not isinstance(s, dict):
        return s
    if s.get('k') == 'mem' and s.get('rec') == 'YYSTYPE':
        b = s['b']
        while b.get('k') in ('paren', 'cast'):
            b = b['b'] if 'b' in b else b['a']
        if b.get('k') == 'var' and b['n'].startswith('yyval'):
            return dict(s, k='var', sc='param', n='$$#0', **{}) if True else s
        if b.get('k') == 'idx' and b['b'].get('n', '').startswith('yyvsp'):
            i = const(b['i'])
            if i is None:
                raise AnalysisBroken('semantic value with a computed position')
            used.add(n + i)
            return dict(s, k='var', sc='param', n='$%d#%d' % (n + i, n + i))
    if s.get('k') == 'idx' and s['b'].get('n', '').startswith('yylsp'):
        i = const(s['i'])
        return dict(s, k='var', sc='param', n='@%d#%d' % (n + i, n + i))
    if s.get('k') == 'var' and s['n'].startswith('yyloc'):
        return dict(s, k='var', sc='param', n='@$#0')
    return {k: symbolic(v, n, used) for k, v in s.items()}


def const(e):
    while e.get('k') in ('paren', 'cast'):
        e = e.get('a') or e.get('b')
    if e.get('k') == 'int':
        return e['v']
    if e.get('k') == 'un' and e['op'] == '-':
        v = const(e['a'])
        return None if v is None else -v
    if e.get('k') == 'bin' and e['op'] in '+-':
        a, b = const(e['a']), const(e['b'])
        return None if a is None or b is None else (a + b if e['op'] == '+' else a - b)
    return None


class Summaries:
    def __init__(self, P, G):
        self.P, self.G = P, G
        self.E = PEmitter(P)
        self.f, self.cases = actions(P)
        self.cache = {}

    def of(self, n):
        """paths of rule n: [(events, returned term)]"""
        if n not in self.cache:
            lhs, rhs = self.G.rules[n]
            if n + 1 not in self.cases:
                self.cache[n] = [((), ('$', 1) if rhs else None)]
            else:
                used = set()
                body = [symbolic(x, len(rhs), used) for x in self.cases[n + 1]]
                line = body[0].get('l', 0)
                ret = {'s': 'ret', 'l': line, 'e': {'k': 'var', 'sc': 'param', 'n': '$$#0', 't': 'node_st *', 'l': line}}
                ps = [{'n': '$$#0', 't': 'node_st *'}] + [{'n': '%s%d#%d' % (c, i, i), 't': 'node_st *'} for i in range(min([1] + list(used)), len(rhs) + 1) for c in '$@'] + [{'n': '@$#0', 't': 'node_st *'}]
                F = Func({'name': 'yyparse%%%d' % n, 'file': self.f.file, 'line': line, 'static': True, 'variadic': False,
                          'ret': 'node_st *', 'params': ps, 'body': {'s': 'block', 'l': line, 'e': line, 'b': body + [ret]}}, self.f.tu)
                args = [('$', 1) if rhs else ('undef',)]
                for p in ps[1:]:
                    nm = p['n'].split('#')[0]
                    args.append(('@', nm[1:]) if nm[0] == '@' else ('$', int(nm[1:])))
                self.cache[n] = [(p.ev, p.ret) for p in self.E.effects(F, args)]
        return self.cache[n]



# ---------------------------------------------------------------- scanner
def lexrules(path):
    """[(start condition or None, pattern)] in the order of the scanner's actions"""
    t = open(path).read()
    t = t[t.index('\n%%') + 3:]
    res, i, cond = [], 0, []
    n = t.index('\n%%') + 1 if '\n%%' in t else len(t)
    while True:
        while i < n and t[i].isspace():
            i += 1
        if i >= n:
            return res
        if t.startswith('//', i):
            i = t.index('\n', i)
            continue
        if t.startswith('/*', i):
            i = t.index('*/', i) + 2
            continue
        m = re.match(r'<([A-Z_,*]+)>\{[ \t]*\n', t[i:])
        if m:
            cond.append(m.group(1))
            i += m.end()
            continue
        if t[i] == '}' and cond:
            cond.pop()
            i += 1
            continue
        m = re.match(r'<([A-Z_,*]+)>', t[i:])
        c = cond[-1] if cond else None
        if m:
            c, i = m.group(1), i + m.end()
        j, q, b = i, False, False
        while j < n and (q or b or not t[j].isspace()):
            if t[j] == '\\':
                j += 1
            elif t[j] == '"' and not b:
                q = not q
            elif t[j] == '[' and not q:
                b = True
            elif t[j] == ']' and not q:
                b = False
            j += 1
        res.append((c, t[i:j]))
        while j < n and t[j] in ' \t':
            j += 1
        if j < n and t[j] == '{':
            d, q = 0, None
            while j < n:
                ch = t[j]
                if q:
                    if ch == '\\':
                        j += 1
                    elif ch == q:
                        q = None
                elif ch in '"\'':
                    q = ch
                elif t.startswith('//', j):
                    j = t.index('\n', j)
                elif t.startswith('/*', j):
                    j = t.index('*/', j) + 1
                elif ch == '{':
                    d += 1
                elif ch == '}':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            j += 1
        j = t.find('\n', j)
        i = n if j < 0 else j


def regex(p):
    out, i = '', 0
    while i < len(p):
        if p[i] == '\\':
            out += p[i:i + 2]
            i += 2
        elif p[i] == '[':
            j = i + 1
            while j < len(p) and p[j] != ']':
                j += 2 if p[j] == '\\' else 1
            out += p[i:j + 1]
            i = j + 1
        elif p[i] == '"':
            j = i + 1
            lit = ''
            while p[j] != '"':
                if p[j] == '\\':
                    j += 1
                lit += p[j]
                j += 1
            out += re.escape(lit)
            i = j + 1
        else:
            out += p[i]
            i += 1
    return out


class Scanner:
    """what the scanner returns for a text when keywords are recognised"""
    def __init__(self, P, G):
        import os
        from program import REPO
        self.rules = lexrules(os.path.join(REPO, 'cocogen/frontend/scanAndParse/dsl-lexer.l'))
        f, self.cases = actions(P, 'yylex', 'yy_act')
        self.G = G
        self.lex = None
        self.res = []
        for k, (c, pat) in enumerate(self.rules, 1):
            try:
                rx = re.compile(regex(pat))
            except re.error:
                rx = None
            self.res.append((c, rx, self.returns(self.cases.get(k, []))))

    def returns(self, stmts):
        """constants returned, with the test of yy_lex_keywords they depend on"""
        out = []

        def walk(s, g):
            if isinstance(s, list):
                for x in s:
                    walk(x, g)
                return
            if not isinstance(s, dict):
                return
            if s.get('s') == 'ret':
                v = const(s['e']) if s.get('e') else None
                out.append((v if v is not None else s.get('e', {}).get('v'), g))
                return
            if s.get('s') == 'if':
                c, neg = s['c'], False
                while c.get('k') in ('paren', 'cast') or c.get('k') == 'un' and c['op'] == '!':
                    neg ^= c.get('op') == '!' and c.get('k') == 'un'
                    c = c.get('a') or c.get('b')
                if c.get('n') == 'yy_lex_keywords':
                    walk(s.get('a'), not neg)
                    walk(s.get('b'), neg)
                else:
                    walk(s.get('a'), g)
                    walk(s.get('b'), g)
                return
            for v in s.values():
                walk(v, g)
        walk(stmts, None)
        # code behind an if that returns in its first branch
        seen = [g for v, g in out]
        if True in seen and None in seen:
            out = [(v, False if g is None else g) for v, g in out]
        return out

    def token(self, text):
        """alias of the token for a text, None when unknown"""
        best = None
        for c, rx, rets in self.res:
            if c is not None or rx is None:
                continue
            m = rx.match(text)
            if m and m.end() == len(text):
                best = rets
                break
        if best is None:
            return None
        v = set(v for v, g in best if g in (None, True))
        if len(v) != 1:
            return None
        v = v.pop()
        return self.G.tokens.get(v)


KEYWORDS = """args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes pass phase actions
prefix synthesized this traversal travdata values info func root start double float int uint int8 int16 int32 int64 uint8 uint16
uint32 uint64 string bool lifetime disallowed optional allowed gate user uid""".split()
PUNCT = ['(', ')', '[', ']', '{', '}', ',', '=', ';', '|', '&', '-', '.', '->']
TYPES = 'bool string int float double uint uint8 uint16 uint32 uint64 int8 int16 int32 int64'.split()


# ---------------------------------------------------------------- derivations
class World:
    def __init__(self):
        self.objs = {}
        self.g = {}
        self.loops = []
        self.calls = []
        self.bad = None
        self.n = 0


def trees(G, n, top=None, depth=0):
    """derivations of a nonterminal, opaque nonterminals being leaves"""
    if depth > 25:
        raise AnalysisBroken('derivations of %s do not end' % n)
    for r in G.of[n]:
        combos = [()]
        for s in G.rules[r][1]:
            if s in G.nts and s not in G.opaque:
                sub = list(trees(G, s, n, depth + 1))
            else:
                sub = [s]
            combos = [c + (x,) for c in combos for x in sub]
            if len(combos) > 60000:
                raise AnalysisBroken('too many derivations of %s' % n)
        for c in combos:
            yield (r, c)


class Eval:
    def __init__(self, S, text):
        self.S, self.G, self.text = S, S.G, text

    def run(self, tree):
        """[(sequence, value, world)] for a derivation"""
        res = []
        for choice in self.choices(tree):
            self.w = World()
            self.seq = []
            self.pick = iter(choice)
            try:
                v = self.eval(tree)
            except Infeasible:
                continue
            res.append((self.seq, v, self.w))
        return res

    def choices(self, tree):
        """which path of each rule's action is taken"""
        opts = []

        def walk(t):
            if isinstance(t, tuple):
                for x in t[1]:
                    walk(x)
                opts.append(range(len(self.S.of(t[0]))))
        walk(tree)
        import itertools
        return itertools.islice(itertools.product(*opts), 64)

    def eval(self, t):
        if isinstance(t, str):
            k = len(self.seq)
            if t in self.G.nts:
                self.seq.append('<%s>' % t)
                return ('nt', k)
            self.seq.append(self.text.get(t, t))
            return ('tok', k)
        r, kids = t
        first = len(self.seq)
        vals = [self.eval(x) for x in kids]
        ev, ret = self.S.of(r)[next(self.pick)]
        pre = {o: dict(f) for o, f in self.w.objs.items()}
        preg = dict(self.w.g)
        alloc = {}
        self.cur = (vals, pre, preg, alloc, first)
        for e in ev:
            if e[0] == 'set':
                b, l, v = self.term(e[1]), e[2], self.term(e[3])
                if b == ('G',):
                    self.w.g[l] = v
                else:
                    self.w.objs.setdefault(b, {})[l if isinstance(l, str) else repr(l)] = v
            elif e[0] == 'call':
                self.w.calls.append((e[1], tuple(self.term(a) for a in e[2])))
            elif e[0] == 'if':
                tv = self.truth(self.term(e[1]))
                if tv is not None and tv != e[2]:
                    raise Infeasible()
            elif e[0] == 'loop':
                self.w.loops.append((e, self.bind(e[1]), tuple((a, self.term(b)) for a, b in e[2])))
        return self.term(ret) if ret is not None else ('none',)

    def bind(self, bodies):
        return [[tuple(self.term(x) if isinstance(x, tuple) else x for x in e) for e in b] for b in bodies]

    def truth(self, v):
        if v[0] == 'c':
            return v[1] != 0
        if v[0] in ('obj', 'tok', 's', 'nt'):
            return True
        if v[0] == 'op' and v[1] == '!':
            t = self.truth(v[2])
            return None if t is None else not t
        if v[0] == 'op' and v[1] in ('==', '!=') and len(v) == 4:
            a, b = v[2], v[3]
            r = None
            if a == b:
                r = True
            elif a[0] == 'c' and b[0] == 'c':
                r = a[1] == b[1]
            elif ZERO in (a, b) and self.truth(b if a == ZERO else a):
                r = False
            return r if v[1] == '==' or r is None else not r
        return None

    def term(self, t):
        vals, pre, preg, alloc, first = self.cur
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == '$':
            return vals[t[1] - 1] if 0 < t[1] <= len(vals) else ('outer', t[1])
        if t[0] in ('c', 's', 'fn', 'phi'):
            return t
        if t[0] == 'call' and t[1] == 'malloc':
            if t[2] not in alloc:
                self.w.n += 1
                alloc[t[2]] = ('obj', self.w.n)
                self.w.objs[alloc[t[2]]] = {}
            return alloc[t[2]]
        if t[0] == 'fld':
            if t[1] == ('G',):
                return preg.get(t[2], ('g', t[2]))
            if t[1][0] == '&v':
                return ('loc', t[1][2].split('#')[0], t[2], first)
            b = self.term(t[1])
            if b in pre and t[2] in pre[b]:
                return pre[b][t[2]]
            if b in alloc.values():
                return ('lfld', b, t[2])
            return ('fld', b, t[2])
        if t[0] == '&v':
            return t
        return tuple(self.term(x) if isinstance(x, tuple) else x for x in t)


class Infeasible(Exception):
    pass



# ---------------------------------------------------------------- what a declaration spells out
# expected values: ('id', k) an identifier node of token k, ('tok', k), ('nt', k), ('c', n),
# ('new', kind, {field: value}), ('copy', value)
LT = {'disallowed': 'LT_disallowed', 'allowed': 'LT_allowed', 'mandatory': 'LT_mandatory', 'optional': 'LT_optional'}
SO = {'|': 'SO_iunion', '&': 'SO_intersect', '-': 'SO_difference'}
PARTS = {
    'iphase': {'info': 'iinfo', 'uid': 'iprefix', 'gate': 'gate_func', 'actions': 'iactions'},
    'ipass': {'info': 'iinfo', 'uid': 'iprefix', 'func': 'target_func'},
    'itraversal': {'info': 'iinfo', 'uid': 'iprefix', 'nodes': 'inodes', 'travdata': 'data'},
    'inode': {'children': 'ichildren', 'attributes': 'iattributes', 'equations': 'iequations', 'lifetime': 'lifetimes'},
    'inodeset': {'info': 'iinfo', 'nodes': 'expr', 'attributes': 'iattributes'},
    'ienum': {'info': 'iinfo', 'prefix': 'iprefix', 'values': 'vals'},
}
HEAD = {'phase': 'iphase', 'cycle': 'iphase', 'pass': 'ipass', 'traversal': 'itraversal', 'node': 'inode', 'nodeset': 'inodeset', 'enum': 'ienum'}
LISTS = {'iphase': 'iphases', 'ipass': 'ipasses', 'itraversal': 'itraversals', 'inode': 'inodes', 'inodeset': 'inodesets', 'ienum': 'enums'}
INFOARG = set()


class Odd(Exception):
    """a sequence this specification says nothing about"""


class Spec:
    def __init__(self, P, fields):
        self.enum = {}
        self.fields = fields
        for k, v in P.enums.items():
            for n, x in v:
                self.enum[n] = x

    def c(self, n):
        if n not in self.enum:
            raise Odd('enumerator ' + n)
        return ('c', self.enum[n])

    def value(self, s, i, j):
        """the value of s[i:j], a part given by one symbol or a set expression"""
        if j - i == 1:
            if s[i] == 'ID':
                return ('id', i)
            if s[i] == 'STR':
                return ('tok', i)
            if s[i].startswith('<'):
                return ('nt', i)
        raise Odd('value')

    def decl(self, s, i=0, j=None):
        j = len(s) if j is None else j
        f = {}
        k = i
        start = root = False
        if s[k:k + 1] == ['start']:
            start, k = True, k + 1
        elif s[k:k + 1] == ['root']:
            root, k = True, k + 1
        if k >= j or s[k] not in HEAD or s[k + 1:k + 2] != ['ID']:
            raise Odd('head')
        kind = HEAD[s[k]]
        if start and kind != 'iphase' or root and kind != 'inode':
            raise Odd('head')
        if kind == 'iphase':
            f['is_start'] = ('c', int(start))
            f['is_cycle'] = ('c', int(s[k] == 'cycle'))
        if kind == 'inode':
            f['is_root'] = ('c', int(root))
        f['name'] = ('id', k + 1)
        k += 2
        parts = {}
        if k < j and s[k] == '=':
            f[{'ipass': 'target_func', 'inodeset': 'expr'}[kind]] = self.value(s, k + 1, j)
        elif k < j:
            if s[k] != '{' or s[j - 1] != '}':
                raise Odd('body')
            for a, b in self.split(s, k + 1, j - 1):
                if a == b:
                    continue
                key = s[a]
                if key not in PARTS[kind] or key in parts:
                    raise Odd('part ' + key)
                parts[key] = 1
                if s[a + 1] == '=':
                    f[PARTS[kind][key]] = self.value(s, a + 2, b)
                elif s[a + 1] == '{' and s[b - 1] == '}':
                    f[PARTS[kind][key]] = self.value(s, a + 2, b - 1)
                else:
                    raise Odd('part')
        if 'iinfo' in f and not any('%s_%s' % (kind, 'iinfo') in m or m == 'iinfo' for m in self.fields.get(kind, ())):
            odd = sorted(set(m for m in self.fields.get(kind, ()) if m.startswith('ii') and m not in f))
            if len(odd) == 1:
                f[odd[0]] = f.pop('iinfo')
        return ('new', kind, f), tuple(parts)

    def split(self, s, i, j):
        d, a = 0, i
        for k in range(i, j):
            if s[k] in '({[' and len(s[k]) == 1:
                d += 1
            elif s[k] in ')}]' and len(s[k]) == 1:
                d -= 1
            elif s[k] == ',' and d == 0:
                yield a, k
                a = k + 1
        yield a, j

    def typed(self, s, i, j):
        """[user] type name"""
        f = {}
        if s[i] == 'user':
            f['type'] = self.c('AT_user')
            f['type_reference'] = ('id', i + 1)
            i += 1
        elif s[i] in TYPES:
            f['type'] = self.c('AT_' + s[i])
        elif s[i] == 'ID':
            f['type'] = self.c('AT_link_or_enum')
            f['type_reference'] = ('id', i)
        else:
            raise Odd('type')
        if s[i + 1:j][:1] != ['ID']:
            raise Odd('name')
        f['name'] = ('id', i + 1)
        return f, i + 2

    def range(self, s, i, j):
        t = s[i:j]
        if t in ([], ['('], [')']):
            return ZERO
        if len(t) == 2 and (t[0] in '([' or t[1] in ')]'):
            k = i + 1 if t[0] in '([' else i
            return ('new', 'lifetime_range', {'target': self.value(s, k, k + 1), 'inclusive': ('c', int('[' in t or ']' in t))})
        raise Odd('range')

    def lifetime(self, s, i, j):
        if s[i] not in LT:
            raise Odd('lifetime')
        f = {'type': self.c(LT[s[i]])}
        if j > i + 1:
            k = s.index('->', i, j) if '->' in s[i:j] else None
            if k is None:
                raise Odd('range')
            f['begin'] = self.range(s, i + 1, k)
            f['end'] = self.range(s, k + 1, j)
        return ('new', 'ilifetime', f)

    def attribute(self, s, i, j):
        f, k = self.typed(s, i, j)
        if k < j:
            if s[k] != '{' or s[j - 1] != '}':
                raise Odd('options')
            f['%options'] = self.value(s, k + 1, j - 1) if j - k > 2 else None
        return ('new', 'attribute', f)

    def child(self, s, i, j):
        if s[i:i + 2] != ['ID', 'ID']:
            raise Odd('child')
        f = {'type_reference': ('id', i), 'name': ('id', i + 1), 'in_constructor': ZERO}
        if j > i + 2:
            if s[i + 2] != '{' or s[j - 1] != '}':
                raise Odd('options')
            for a, b in self.split(s, i + 3, j - 1):
                if a == b:
                    continue
                if s[a:b] == ['constructor']:
                    f['in_constructor'] = ONE
                else:
                    f['lifetimes'] = self.value(s, a, b)
        return ('new', 'child', f)

    def ref(self, s, i, j):
        if j - i != 3 or s[i + 1] != '.' or s[i + 2] != 'ID' or s[i] not in ('ID', 'this'):
            raise Odd('reference')
        return ('new', 'attribute_reference', {'inode': ('id', i) if s[i] == 'ID' else ZERO, 'iattribute': ('id', i + 2)})

    def equation(self, s, i, j):
        f = {'rule': self.ref(s, i, i + 3)}
        t = s[i + 3:j]
        if t[:2] != ['=', '{'] or t[-1:] != ['}']:
            raise Odd('equation')
        if len(t) > 3:
            if t[2:5] != ['args', '=', '{'] or t[-2] != '}' or len(t) not in (7, 8):
                raise Odd('equation')
            if len(t) == 8:
                f['iargs'] = self.value(s, i + 8, i + 9)
        return ('new', 'equation', f)

    def item(self, s, i, j):
        """an element of a list: (value, what kind)"""
        t = s[i:j]
        if not t:
            raise Odd('empty')
        if t[0] in LT:
            return self.lifetime(s, i, j)
        if t[0] in ('ID', 'this') and t[1:2] == ['.']:
            if '=' in t:
                return self.equation(s, i, j)
            return ('new', 'equation_dependency', {'iattribute': self.ref(s, i, j)})
        raise Odd('item')


class Matcher:
    """compares a value of a derivation with the expected one"""
    def __init__(self, ntnum, w, seq):
        self.ntnum, self.w, self.seq = ntnum, w, seq

    def kind(self, v):
        o = self.w.objs.get(v)
        t = o.get('nodetype') if o else None
        return self.ntnum.get(t[1]) if t and t[0] == 'c' else None

    def name(self, v):
        if v is None:
            return 'nothing'
        if v[0] == 'tok':
            return 'the text of `%s`' % self.seq[v[1]]
        if v[0] == 'id':
            return 'identifier %d' % self.nth(v[1])
        if v[0] == 'nt':
            return self.seq[v[1]]
        if v[0] == 'new':
            return 'a new ' + v[1]
        if v[0] == 'obj':
            k = self.kind(v)
            if k == 'id':
                o = self.w.objs[v].get('id.orig')
                return 'identifier %d' % self.nth(o[1]) if o and o[0] == 'tok' else 'an identifier'
            return 'a new %s' % k
        if v[0] == 'c':
            return str(v[1])
        return v[0]

    def nth(self, k):
        return sum(1 for x in self.seq[:k + 1] if x == 'ID')

    def id_ok(self, o):
        """identifier node made of one token: its spellings and position"""
        f = self.w.objs[o]
        t = f.get('id.orig')
        if not t or t[0] != 'tok':
            return None
        return t

    def eq(self, v, e):
        """None when equal, else a description"""
        if e is None:
            return None
        if e[0] == 'id':
            if self.kind(v) == 'id' and self.w.objs[v].get('id.orig') == ('tok', e[1]):
                return None
            return 'is %s instead of %s' % (self.name(v), self.name(e))
        if e[0] == 'new':
            if self.kind(v) != e[1]:
                return 'is %s instead of %s' % (self.name(v), self.name(e))
            r = self.fields(v, e)
            return r[0] if r else None
        if e[0] == 'copy':
            if v is not None and v[0] == 'call' and v[1] == 'CCNcopy' and len(v[3]) == 1:
                return self.eq(v[3][0], e[1])
            return 'is not a copy'
        if v == e:
            return None
        return 'is %s instead of %s' % (self.name(v), self.name(e))

    def fields(self, v, e, skip=()):
        """differences between the fields of an object and the expected ones"""
        out = []
        o = self.w.objs[v]
        kind = e[1]
        for l in sorted(set(x for x in o if x.startswith(kind + '.')) | set(kind + '.' + k for k in e[2])):
            n = l[len(kind) + 1:]
            if n in skip or n.startswith('%') or o.get(l, ('',))[0] == '&':
                continue
            exp = e[2].get(n, ZERO)
            got = o.get(l)
            if got is None:
                if exp not in (ZERO, None):
                    out.append('%s is never set' % l)
                continue
            if got[0] == '&' or n.endswith('_children'):
                continue
            d = self.eq(got, exp)
            if d:
                out.append('%s %s' % (l, d))
        return out



DOC = {
    'iphase': lambda p: 'actions' in p,
    'ipass': lambda p: True,
    'itraversal': lambda p: 'uid' in p,
    'inode': lambda p: True,
    'inodeset': lambda p: 'nodes' in p,
    'ienum': lambda p: 'prefix' in p and 'values' in p,
}
ORDER = {
    'iphase': ('info', 'uid', 'gate', 'actions'),
    'ipass': ('info', 'uid', 'func'),
    'itraversal': ('info', 'uid', 'nodes', 'travdata'),
    'inode': ('children', 'attributes', 'equations', 'lifetime'),
    'inodeset': ('info', 'nodes', 'attributes'),
    'ienum': ('info', 'prefix', 'values'),
}


def subsets(xs):
    for m in range(1 << len(xs)):
        yield tuple(x for i, x in enumerate(xs) if m >> i & 1)


def c19(R, P):
    R.rule('part', 'every part of an accepted declaration ends up in the field of the tree that stands for it, and no other field is filled')
    R.rule('list', 'an accepted list keeps all its elements, in source order (the order of traversal data does not matter)')
    R.rule('stored', 'every accepted declaration is added to the list of its kind in the tree, also one written inside a list of actions')
    R.rule('index', 'nodes and traversals get consecutive indices, and the tree records how many there are')
    R.rule('keyword', 'the scanner recognises every documented keyword and symbol, and gives names and texts unchanged')
    R.rule('accepted', 'every documented combination of optional parts is accepted')
    G = Grammar(P)
    S = Summaries(P, G)
    L = Scanner(P, G)
    und = R.notes.setdefault('not decided', [])
    keywords(R, P, G, L)
    text = {}
    for k in KEYWORDS + PUNCT:
        t = L.token(k)
        if t:
            text.setdefault(t, k)
    for a, k in (('Foo', 'ID'), ('"x"', 'STR')):
        t = L.token(a)
        if t:
            text[t] = k
    E = Eval(S, text)
    SP = Spec(P, {k: [l.split('.')[-1] for l in v] for k, v in allfields(P).items()})
    C = Ctx(R, P, G, S, E, SP, und)
    for n in sorted(G.opaque):
        for t in trees(G, n):
            for seq, v, w in E.run(t):
                C.ninst += 1
                try:
                    C.derivation(n, seq, v, w)
                except Odd as e:
                    und.append('%s: %s (%s)' % (n, ' '.join(seq), e))
    C.accepted()
    C.counters()
    R.notes['derivations'] = C.ninst
    R.notes['grammar rules'] = len(G.rules)
    R.notes['recursive nonterminals'] = sorted(G.opaque)
    for n in S.E.funcs:
        R.funcs.add('%s (parser)' % n)
    if C.ninst < 100:
        raise AnalysisBroken('only %d derivations' % C.ninst)
    if len(und) > 400:
        del und[400:]


def keywords(R, P, G, L):
    for k in KEYWORDS + PUNCT:
        t = L.token(k)
        R.check(t is not None, 'keyword', k, k, 'the scanner does not give a token of its own for `%s`' % k)
        if t in ('"identifier"', '"string value"'):
            R.viol('keyword', k, 'the scanner takes the keyword `%s` for a name' % k)
        others = [x for x in KEYWORDS + PUNCT if x != k and t is not None and L.token(x) == t]
        R.check(not others, 'keyword', k + ' distinct', min([k] + others), 'the scanner gives the same token for `%s`' % '` and `'.join(sorted([k] + others)))


class Ctx:
    def __init__(self, R, P, G, S, E, SP, und):
        self.R, self.P, self.G, self.S, self.E, self.SP, self.und = R, P, G, S, E, SP, und
        self.ntnum = S.E.ntnum
        self.ninst = 0
        self.seen = {}          # kind -> set of part combinations
        self.items = {}         # kind -> set of sequences
        self.count = {}         # kind -> set of counters
        self.tags = {}          # option keyword -> tag
        self.optobj = []

    def ast(self, w):
        for o, f in w.objs.items():
            if any(l.startswith('ast.') for l in f) and o[0] != 'obj':
                return o, f
        return None, {}

    def derivation(self, n, seq, v, w):
        R = self.R
        m = Matcher(self.ntnum, w, seq)
        # the rest of the list, and separators
        me = '<%s>' % n
        body = list(seq)
        at = [i for i, x in enumerate(body) if x == me]
        kinds = [body[0]] if body else []
        o, f = self.ast(w)
        decls = [l for l in f if l[4:] in LISTS.values()]
        inst = '%s: %s' % (n, ' '.join(seq))
        left = right = None
        SEP = (',', ';', '.')
        if at and at[-1] == len(body) - 1 and at[-1] >= 2 and body[at[-1] - 1] in SEP:
            right = at[-1]
            body = body[:right - 1]
        elif at and at[0] == 0 and len(body) > 2 and body[1] in SEP:
            left = 0
            body = body[2:]
        off = 2 if left is not None else 0
        if body and body[-1] == ';':
            body = body[:-1]
        b0, b1 = off, off + len(body)
        if not body:
            if not seq:
                if v == ('none',) or v is None or v == ZERO or v[0] == 'undef':
                    return
                raise Odd('empty')
            raise Odd('shape')
        k = m.kind(v)
        if body[0] in HEAD or body[0] in ('start', 'root'):
            self.declaration(inst, seq, b0, b1, v, w, m, k, right)
            if k != 'iactions':
                return
            exp, _ = self.SP.decl(seq, b0, b1)
            exp = ('new', 'iactions', {'reference': ('copy', exp[2]['name'])})
        elif k == 'iactions':
            if b1 - b0 != 1:
                raise Odd('action')
            exp = ('new', 'iactions', {'reference': ('id', b0)})
        elif k in ('attribute',):
            exp = self.SP.attribute(seq, b0, b1)
        elif k == 'child':
            exp = self.SP.child(seq, b0, b1)
        elif k == 'itravdata':
            ff, e = self.SP.typed(seq, b0, b1)
            if e != b1:
                raise Odd('travdata')
            exp = ('new', 'itravdata', ff)
        elif k in ('setoperation', 'setreference') or self.isset(n, seq, v):
            return self.setexpr(inst, n, seq, v, w, m)
        elif k in ('ilifetime', 'equation', 'equation_dependency'):
            exp = self.SP.item(seq, b0, b1)
        elif body == ['ID']:
            if v[0] == 'call' and v[1] == 'SETIDinsert' or any(c[0] == 'SETIDinsert' for c in w.calls):
                return self.setexpr(inst, n, seq, v, w, m)
            exp = ('id', b0)
        elif v[0] == 'obj' and k is None and (body[0] in ('constructor', 'inherited', 'synthesized') or body[0] in LT):
            return self.option(inst, n, seq, b0, b1, v, w, m, right, left)
        elif v[0] == 'nt' and left is not None and any(c[0] == 'SETIDinsert' for c in w.calls):
            return self.setexpr(inst, n, seq, v, w, m)
        else:
            raise Odd('value')
        self.record(exp, seq, b0, b1)
        R.ob('part', inst)
        site = '%s: %s' % (n, ' '.join(seq[b0:b1]))
        if exp[0] == 'id':
            d = m.eq(v, exp)
            if d:
                R.viol('list', site, 'for `%s` the element %s' % (' '.join(seq), d))
                return
            self.identifier(v, w, m)
        elif m.kind(v) != exp[1]:
            R.viol('list', site, 'for `%s` the value is %s' % (' '.join(seq), m.name(v)))
            return
        else:
            for d in m.fields(v, exp, ('next',) + (('in_constructor', 'is_inherited', 'is_synthesized', 'lifetimes') if exp[2].get('%options') else ())):
                R.viol('part', site, 'for `%s`: %s' % (' '.join(seq[b0:b1]), d))
            if exp[2].get('%options'):
                self.options(inst, exp[2]['%options'], v, w)
        self.link(inst, n, seq, v, w, m, right, left)

    def link(self, inst, n, seq, v, w, m, right, left):
        """the element is connected with the rest of the list"""
        R = self.R
        R.ob('list', inst)
        k = m.kind(v) or ''
        nx = w.objs[v].get(k + '.next', w.objs[v].get('next'))
        rest = right if right is not None else left
        if rest is None:
            if nx not in (ZERO, None):
                R.viol('list', n, 'for `%s` the only element is followed by %s' % (' '.join(seq), m.name(nx)))
            return
        if nx != ('nt', rest):
            R.viol('list', n, 'for `%s` the other elements of the list are lost (next %s)' % (' '.join(seq), m.name(nx)))
        elif left is not None and k != 'itravdata':
            R.viol('list', n, 'for `%s` the elements end up in reverse order' % ' '.join(seq))

    def identifier(self, v, w, m):
        f = w.objs[v]
        t = f.get('id.orig')
        for l, fn in (('id.lwr', 'STRlower'), ('id.upr', 'STRupper')):
            x = f.get(l)
            self.R.check(x is not None and x[0] == 'call' and x[1] == fn and x[3] == (t,), 'part', l, l,
                         '%s of an identifier is not the %s form of its text' % (l, fn[3:] + 'case'))
        for l, c in (('id.row', 'line'), ('id.col_begin', 'column'), ('id.col_end', 'column')):
            x = f.get(l)
            self.R.check(x is not None and x[0] == 'loc' and c in x[2], 'part', l, l, '%s of an identifier is not taken from its position' % l)

    def record(self, exp, seq, b0, b1):
        self.items.setdefault(exp[1] if exp[0] == 'new' else 'id', set()).add(tuple(seq[b0:b1]))

    def declaration(self, inst, seq, b0, b1, v, w, m, k, right):
        R = self.R
        exp, parts = self.SP.decl(seq, b0, b1)
        kind = exp[1]
        self.seen.setdefault(kind, set()).add((seq[b0] if seq[b0] in ('start', 'root') else '', 'cycle' if 'cycle' in seq[b0:b0 + 2] else '', '=' if seq[b0 + 2:b0 + 3] == ['='] else '{' if '{' in seq else '', tuple(x for x in ORDER[kind] if x in parts)))
        src = ' '.join(seq[b0:b1])
        R.ob('stored', inst)
        o, f = self.ast(w)
        l = 'ast.' + LISTS[kind]
        site = kind + ': ' + src
        d = f.get(l)
        if d is None or m.kind(d) != kind:
            R.viol('stored', site, '`%s` is not added to %s' % (src, l))
            return
        for x in f:
            if x != l and x[4:] in LISTS.values():
                R.viol('stored', site, '`%s` also changes %s' % (src, x))
        R.ob('part', inst)
        skip = ('next',) + (('index',) if kind in ('inode', 'itraversal') else ())
        for e in m.fields(d, exp, skip):
            R.viol('part', site, 'for `%s`: %s' % (src, e))
        nx = w.objs[d].get(kind + '.next')
        if nx != ('fld', o, l):
            R.viol('stored', kind, 'adding `%s` loses the other elements of %s' % (src, l))
        if kind in ('inode', 'itraversal'):
            R.ob('index', inst)
            i = w.objs[d].get(kind + '.index')
            g = [c for c, val in w.g.items() if isinstance(val, tuple) and val[0] == 'op' and val[1] == '+' and val[2] == ('g', c)]
            if i is None or i[0] != 'g':
                R.viol('index', site, '`%s` does not get the next free index' % src)
            elif i[1] not in g or w.g[i[1]][3] != ONE:
                R.viol('index', site, 'the index given to `%s` is not used up' % src)
            else:
                self.count.setdefault(kind, set()).add(i[1])

    def isset(self, n, seq, v):
        return v[0] == 'nt' and (seq[0] == '{' or seq[0] == '(') or any(x in SO for x in seq)

    def setexpr(self, inst, n, seq, v, w, m):
        R = self.R
        s = list(seq)
        off = 0
        src = ' '.join(seq)
        if s[0] == '(' and s[-1] == ')':
            s, off = s[1:-1], 1
        R.ob('part', inst)
        site = n + ': ' + src
        if len(s) == 3 and s[1] in SO:
            exp = ('new', 'setoperation', {'left': ('nt', off), 'right': ('nt', off + 2), 'type': self.SP.c(SO[s[1]])})
            d = m.eq(v, exp)
            if d:
                R.viol('part', site, 'for `%s`: %s' % (src, d))
        elif len(s) == 3 and s[0] == '{':
            if v != ('nt', off + 1):
                R.viol('part', site, 'for `%s` the set is %s' % (src, m.name(v)))
        elif len(s) == 1 and s[0].startswith('<'):
            if v != ('nt', off):
                R.viol('part', site, 'for `%s` the set is %s' % (src, m.name(v)))
        elif s == ['ID'] and m.kind(v) == 'setreference':
            d = m.eq(v, ('new', 'setreference', {'reference': ('id', off)}))
            if d:
                R.viol('part', site, 'for `%s`: %s' % (src, d))
        elif s == ['ID'] or len(s) == 3 and s[1] == ',':
            call = [c[1] for c in w.calls if c[0] == 'SETIDinsert']
            rest = [i for i, x in enumerate(seq) if x.startswith('<')]
            idk = [i for i, x in enumerate(seq) if x == 'ID']
            if len(call) != 1 or len(call[0]) != 2 or len(rest) > 1 or len(idk) != 1:
                raise Odd('literal')
            a, b = call[0]
            R.ob('list', inst)
            if m.eq(b, ('id', idk[0])):
                R.viol('list', site, 'for `%s` the name is not added to the set' % src)
            if a != (('nt', rest[0]) if rest else ZERO):
                R.viol('list', site, 'for `%s` the name is added to %s' % (src, m.name(a)))
            if not (v[0] == 'call' and v[1] == 'SETIDinsert' or rest and v == ('nt', rest[0])):
                R.viol('list', site, 'for `%s` the set is %s' % (src, m.name(v)))
        else:
            raise Odd('set expression')

    def option(self, inst, n, seq, b0, b1, v, w, m, right, left):
        R = self.R
        f = w.objs[v]
        key = seq[b0] if seq[b0] not in LT else 'lifetime'
        tag = [(l, x) for l, x in f.items() if x[0] == 'c' and l != 'next']
        if len(tag) != 1:
            raise Odd('option')
        self.tags.setdefault(key, set()).add(tag[0])
        R.ob('part', inst)
        if key == 'lifetime':
            exp = self.SP.lifetime(seq, b0, b1)
            pay = [x for l, x in f.items() if m.kind(x) == 'ilifetime']
            if len(pay) != 1:
                R.viol('part', n + ': lifetime', 'for `%s` the lifetime is lost' % ' '.join(seq[b0:b1]))
            else:
                for d in m.fields(pay[0], exp):
                    R.viol('part', n + ': ' + ' '.join(seq[b0:b1]), 'for `%s`: %s' % (' '.join(seq[b0:b1]), d))
        elif b1 - b0 != 1:
            raise Odd('option')
        self.link(inst, n, seq, v, w, m, right, left)

    def options(self, inst, lst, v, w):
        """flags of an attribute, collected from its list of options by a loop"""
        R = self.R
        f = w.objs[v]
        rec = set()
        for x in ('in_constructor', 'is_inherited', 'is_synthesized', 'lifetimes'):
            g = f.get('attribute.' + x)
            if g is None or g[0] == 'c':
                R.viol('part', 'options of ' + inst.split(':')[0], 'for `%s`: attribute.%s does not depend on the options' % (inst.split(': ', 1)[1], x))
                return
            if g[0] != 'lfld':
                raise Odd('options')
            rec.add(g[1])
        if len(rec) != 1 or len(w.loops) != 1:
            raise Odd('options')
        self.optobj.append((inst, lst, {x: f['attribute.' + x][2] for x in ('in_constructor', 'is_inherited', 'is_synthesized', 'lifetimes')}, rec.pop(), w))

    def collected(self):
        """the loop over the options: every option has its effect and no other one"""
        R = self.R
        keys = {'constructor': 'in_constructor', 'inherited': 'is_inherited', 'synthesized': 'is_synthesized', 'lifetime': 'lifetimes'}
        tags = {k: list(v)[0] for k, v in self.tags.items() if len(v) == 1}
        for k in keys:
            if k not in tags:
                self.und.append('tag of option ' + k)
                return
        vals = [t[1] for t in tags.values()]
        if not R.check(len(set(vals)) == 4, 'part', 'tags', 'attribute options', 'the kinds of attribute options are not distinct'):
            return
        fld = tags['constructor'][0]
        done = set()
        for inst, lst, fs, rec, w in self.optobj:
            e, bodies, init = w.loops[0]
            cur = [p for p, x in init if x == lst]
            key = (tuple(sorted(fs.items())), repr(e))
            if len(cur) != 1:
                if key not in done:
                    self.und.append('loop over the options of ' + inst)
                done.add(key)
                continue
            if key in done:
                continue
            done.add(key)
            cur = cur[0]
            tagv = ('fld', cur, fld)
            # variables through which the loop appends to the list of lifetimes
            tails = set(y[1] for b in bodies for y in b if y[0] == 'set' and y[2] == 'ilifetime.next' and y[1][0] == 'phi')
            for k, x in keys.items():
                T = tags[k][1]
                R.ob('part', 'option ' + k)
                for b in bodies:
                    if not feasible(b, tagv, T):
                        continue
                    back = [y for y in b if y[0] == 'back']
                    bk = dict(back[0][1]) if back else {}
                    if cur in bk and bk[cur] != ('fld', cur, 'next'):
                        R.viol('list', 'attribute options', 'the loop over the options does not go on with the next option')
                    sets = {}
                    for y in b:
                        if y[0] == 'set' and y[1] == rec:
                            sets[y[2]] = y[3]
                    if k != 'lifetime':
                        if sets.get(fs[x]) not in (ONE,):
                            R.viol('part', 'attribute options', 'the option `%s` does not set attribute.%s' % (k, x))
                        for y in sets:
                            if y != fs[x]:
                                R.viol('part', 'attribute options', 'the option `%s` changes the field behind attribute.%s' % (k, dict((q, p) for p, q in fs.items()).get(y, y)))
                    else:
                        life = [y[3] for y in b if y[0] == 'set' and (y[1] == rec and y[2] == fs[x] or y[2] == 'ilifetime.next')]
                        pay = [y for y in life if y[0] == 'fld' and y[1] == cur]
                        for t in tails:
                            if pay and bk.get(t) not in pay:
                                R.viol('list', 'attribute options', 'the next lifetime is not appended behind the one just added: lifetimes in between are lost')
                        if not pay:
                            R.viol('part', 'attribute options', 'a lifetime among the options of an attribute is lost')
                        for y in sets:
                            if y != fs[x]:
                                R.viol('part', 'attribute options', 'a lifetime option changes the field behind attribute.%s' % dict((q, p) for p, q in fs.items()).get(y, y))

    def accepted(self):
        R = self.R
        self.collected()

        def want(kind, comb, what):
            R.check(comb in self.seen.get(kind, ()), 'accepted', what, what, 'the grammar does not accept %s' % what)
        if any(k == kind for kind in ()):
            return
        for kind in ('iphase', 'ipass', 'itraversal', 'inode', 'inodeset', 'ienum'):
            for ps in subsets(ORDER[kind]):
                if not DOC[kind](ps):
                    continue
                if kind == 'ipass' and ps in ((), ('info',)):
                    continue
                t = ', '.join(ps)
                if kind == 'iphase':
                    for st in ('', 'start'):
                        for cy in ('', 'cycle'):
                            want(kind, (st, cy, '{', ps), '%s%s with %s' % (st + ' ' if st else '', cy or 'phase', t))
                elif kind == 'inode':
                    for rt in ('', 'root'):
                        want(kind, (rt, '', '{', ps), '%snode with %s' % (rt + ' ' if rt else '', t or 'nothing'))
                else:
                    want(kind, ('', '', '{', ps), '%s with %s' % (kind[1:], t))
        want('ipass', ('', '', '', ()), 'a pass without a body')
        want('ipass', ('', '', '=', ()), 'a pass with a function only')
        want('inodeset', ('', '', '=', ()), 'a nodeset in short form')
        its = self.items

        def has(kind, seq, what=None):
            R.check(any(match(seq, s) for s in its.get(kind, ())), 'accepted', ' '.join(seq), ' '.join(seq), 'the grammar does not accept `%s`%s' % (' '.join(seq), ' as ' + kind))
        for t in [[x] for x in TYPES] + [['ID'], ['user', 'ID']]:
            has('attribute', t + ['ID'])
            has('attribute', t + ['ID', '{', '*', '}'])
            has('itravdata', t + ['ID'])
        for o in ([], ['{', '}'], ['{', 'constructor', '}'], ['{', '*', '}'], ['{', 'constructor', ',', '*', '}']):
            has('child', ['ID', 'ID'] + o)
        for k in LT:
            if k in ('disallowed', 'mandatory'):
                has('ilifetime', [k])
            for a in (['('], ['(', '*'], ['[', '*']):
                for b in ([')'], ['*', ')'], ['*', ']']):
                    has('ilifetime', [k] + a + ['->'] + b)
        for r in (['this', '.', 'ID'], ['ID', '.', 'ID']):
            has('equation_dependency', r)
            for a in ([], ['args', '=', '{', '}'], ['args', '=', '{', '*', '}']):
                has('equation', r + ['=', '{'] + a + ['}'])
        for k in ('constructor', 'inherited', 'synthesized', 'lifetime'):
            R.check(k in self.tags, 'accepted', 'option ' + k, 'option ' + k, 'the grammar does not accept %s among the options of an attribute' % k)

    def counters(self):
        R = self.R
        for kind, gs in self.count.items():
            R.check(len(gs) == 1, 'index', kind + ' counters', kind, 'indices of %s come from several counters: %s' % (kind[1:] + 's', sorted(gs)))
        all = [g for gs in self.count.values() for g in gs]
        if len(all) == 2 and len(set(all)) == 1:
            R.viol('index', 'shared counter', 'nodes and traversals share a counter, so their indices are not consecutive')
            return
        for g in set(all):
            d = next((x for (t, n), x in self.P.sglobals.items() if g.split(':')[-1] == n and ':' in g and t.endswith(g.split(':')[0])), None) or self.P.globals.get(g)
            i = d.get('init') if d else None
            if i is not None and const(i) not in (0, None):
                R.viol('index', g, 'the indices do not start at zero')
        for kind, l in (('inode', 'ast.num_nodes'), ('itraversal', 'ast.num_traversals')):
            gs = self.count.get(kind, set())
            if len(gs) != 1:
                continue
            g = list(gs)[0]
            f = None
            for n, F in self.P.funcs.items():
                if rel(F.file).endswith((PARSER, '.y')) and any('yyparse' == c for c in calls(F.body)):
                    f = F
            if f is None:
                self.und.append('function that runs the parser')
                return
            ok = False
            for p in self.S.E.effects(f, [('in', 'fp')]):
                ok = False
                for e in p.ev:
                    if e[0] == 'set' and e[2] == l:
                        ok = e[3] == ('fld', ('G',), g)
            R.func(f)
            R.check(ok, 'index', l, f.name, 'the number of %s is not recorded in the tree' % (kind[1:] + 's'), f)


def calls(s):
    if isinstance(s, dict):
        if s.get('k') == 'call' and s.get('n'):
            yield s['n']
        for v in s.values():
            yield from calls(v)
    elif isinstance(s, list):
        for v in s:
            yield from calls(v)


def allfields(P):
    """node kind -> its fields, from the accessor functions"""
    res = {}
    for n in list(P.funcs) + [k[1] for k in P.statics]:
        m = re.match(r'CCNaccess_([a-z_]+?)_([a-z_]+)$', n)
        if n.startswith('CCNaccess_'):
            rest = n[len('CCNaccess_'):]
            for k in KINDS:
                if rest.startswith(k + '_'):
                    res.setdefault(k, []).append(rest[len(k) + 1:])
    return res


KINDS = ('iphase', 'ipass', 'itraversal', 'inode', 'inodeset', 'ienum')


def match(pat, s):
    return len(pat) == len(s) and all(p == x or p == '*' and (x.startswith('<') or x == 'ID') for p, x in zip(pat, s))


def feasible(b, tagv, T):
    """can a path of the loop body be taken when the option has kind T"""
    for e in b:
        if e[0] != 'if':
            continue
        v, t = e[1], e[2]
        while v[0] == 'op' and v[1] == '!':
            v, t = v[2], not t
        if v == tagv:
            r = T[1] != 0
        elif v[0] == 'op' and v[1] in ('==', '!=') and tagv in v[2:4]:
            o = v[3] if v[2] == tagv else v[2]
            if o[0] != 'c':
                continue
            r = (o == T) == (v[1] == '==')
        else:
            continue
        if r != t:
            return False
    return True


if __name__ == '__main__':
    import sys, pickle
    sys.setrecursionlimit(20000)
    P = pickle.load(open('/tmp/P.pkl', 'rb'))
    G = Grammar(P)
    print(sorted(G.opaque))
    S = Summaries(P, G)
    for n in sorted(G.rules):
        if len(sys.argv) > 1 and str(n) not in sys.argv[1:] and G.rules[n][0] not in sys.argv[1:]:
            continue
        print(n, G.rules[n])
        for ev, ret in S.of(n):
            for e in ev:
                print('    ', str(e)[:260])
            print('  ->', ret)
    import checklib
    R = checklib.Report('C19')
    c19(R, P)
    for v in R.viols:
        print(v['rule'], '|', v['site'][:80], '|', v['msg'][:200])
    print(len(R.obls), len(R.viols), R.notes.get('derivations'))
    for u in R.notes['not decided'][:30]:
        print('  und', u[:200])
