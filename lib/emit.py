"""Abstract emission: what a generator traversal can write, path by path.

Generator handlers are interpreted abstractly (absint.Engine) for a symbolic
node of the meta-AST; instead of being executed, each output primitive appends
its format text, with labelled holes, to an event sequence.  Visits of children
are expanded through the traversal's own dispatch table, with the unit's file
scope variables carried along, so the result is the set of program texts a
traversal can emit for one symbolic node, as sequences of

  ('t', pieces, style, line, function)        text with ('hole', value) parts
  ('if', value, taken, line)                  branch decision
  ('list', value, type, [Path])               visit of a child (list)
  ('next', nullified)                         continuation over the node's list
  ('start', traversal, value, [Path])         nested traversal
  ('loop', [events])  ('open', function, name)  ('cti', kind, fmt)
  ('set', base, field, value)  ('gset', name, value)  ('call', f, args) ...
"""
import os, re
from absint import Engine, Monitor, State, Frame, ZERO, ONE, subterms
from cfg import cfg_of
from program import AnalysisBroken, rel, REPO
import callgraph


def noep(v):
    """value without epochs and call sites"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'fld':
        f = v[2]
        return ('fld', noep(v[1]), noep(f) if isinstance(f, tuple) else f)
    return tuple(noep(x) if isinstance(x, tuple) else x for x in v)


_FMT = re.compile(r'%(?P<fl>[-+ #0]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?(?P<l>hh|h|ll|l|z|j|t|L)?(?P<c>[diouxXcsfFeEgGaAp%])')


def parse_fmt(s):
    out = []
    i = 0
    buf = ''
    while i < len(s):
        if s[i] == '%':
            m = _FMT.match(s, i)
            if not m:
                buf += s[i]
                i += 1
                continue
            if m.group('c') == '%':
                buf += '%'
            else:
                if buf:
                    out.append(buf)
                    buf = ''
                if m.group('w') == '*':
                    out.append(('arg', '*'))
                if m.group('p') == '*':
                    out.append(('arg', '*'))
                out.append(('arg', (m.group('l') or '') + m.group('c')))
            i = m.end()
        else:
            buf += s[i]
            i += 1
    if buf:
        out.append(buf)
    return out


PURE_STR = {'STRcpy', 'STRcat', 'STRcatn', 'STRfmt', 'STRupper', 'STRlower', 'STRonNull', 'STRitoa', 'STReq', 'STReqci', 'STRlen', 'STRprefix', 'STRsuffix', 'strcmp',
            'STRsubStr', 'STRncpy', 'STRnull', 'STRtok', 'strlen', 'STRsubstToken'}
PURE_FN = {'STlookup', 'HTlookup', 'HTiterValue', 'HTiterKey'}


# ------------------------------------------------------------- meta grammar
class Meta:
    """node types, children, attributes and nodesets of the meta AST (main.ccn)"""
    def __init__(self, path):
        txt = re.sub(r'//[^\n]*', '', open(path).read())
        txt = re.sub(r'/\*.*?\*/', '', txt, flags=re.S)
        self.child = {}
        self.attr = {}
        self.order = {}
        self.sets = {}
        self.enums = {}
        self.uid = {}
        for m in re.finditer(r'\bnodeset\s+(\w+)\s*=\s*([^;]*);', txt):
            self.sets[m.group(1)] = m.group(2)
        for m in re.finditer(r'\benum\s+(\w+)\s*\{', txt):
            b = _body(txt, m.end())
            p = re.search(r'prefix\s*=\s*(\w+)', b)
            v = re.search(r'values\s*\{([^}]*)\}', b)
            if p and v:
                self.enums[m.group(1)] = [p.group(1) + '_' + x.strip() for x in v.group(1).split(',') if x.strip()]
        for m in re.finditer(r'\bnode\s+(\w+)\s*\{', txt):
            b = _body(txt, m.end())
            n = m.group(1)
            self.child[n] = {}
            self.attr[n] = {}
            self.order[n] = []
            c = re.search(r'\bchildren\s*\{', b)
            if c:
                for part in _split(_body(b, c.end())):
                    w = re.match(r'(\w+)\s+(\w+)', part)
                    if w:
                        self.child[n][w.group(2)] = w.group(1)
                        self.order[n].append(w.group(2))
            c = re.search(r'\battributes\s*\{', b)
            if c:
                for part in _split(_body(b, c.end())):
                    w = re.match(r'(\w+)\s+(\w+)', part)
                    if w:
                        self.attr[n][w.group(2)] = w.group(1)
        if len(self.child) < 10:
            raise AnalysisBroken('meta grammar: only %d node types found' % len(self.child))

    def members(self, t):
        if t in self.child:
            return [t]
        if t in self.sets:
            r = []
            for w in re.findall(r'\w+', self.sets[t]):
                for x in self.members(w):
                    if x not in r:
                        r.append(x)
            return r
        return []

    def ftype(self, label):
        """type of field 'node.name'"""
        n, _, f = label.partition('.')
        if n in self.child:
            return self.child[n].get(f) or self.attr[n].get(f)
        return None


def _body(t, i):
    d = 1
    j = i
    while j < len(t) and d:
        if t[j] == '{':
            d += 1
        elif t[j] == '}':
            d -= 1
        j += 1
    return t[i:j - 1]


def _split(b):
    out = []
    d = 0
    cur = ''
    for ch in b:
        if ch in '{([':
            d += 1
        elif ch in '})]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Path:
    __slots__ = ('ev', 'ret', 'globs', 'type', 'heap')

    def __init__(self, ev, ret, globs, type=None, heap=()):
        self.ev, self.ret, self.globs, self.type, self.heap = ev, ret, globs, type, heap

    def conds(self):
        return [(e[1], e[2]) for e in self.ev if e[0] == 'if']


def isglob(b):
    """file scope, or the data of the current traversal"""
    if b == ('G',):
        return True
    while b[0] in ('fld', '&'):
        b = b[1]
    return b[0] == 'call' and (b[1].startswith('DATA_') or b[1] == 'TRAVgetCurrent')


def gkey(k):
    return k[1] if k[0] == ('G',) else '%s.%s' % (name(k[0]), k[1])


def subst(v, a, b):
    if v == a:
        return b
    if not isinstance(v, tuple):
        return v
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in v)


class EEngine(Engine):
    def loc(self, st, fr, p):
        if p[0] == 'glob':
            return ('L', ('G',), gname(self.P, fr.func.tu, p[1]))
        return Engine.loc(self, st, fr, p)

    def step(self, g, fr, node, st):
        self.at = (fr, node)
        return Engine.step(self, g, fr, node, st)

    def read(self, st, l):
        if l[0] == 'L' and self.mon.em.access is not None and isinstance(l[2], str) and '.' in l[2]:
            self.mon.em.accessed(self, self.mon, st, l[1], l[2])
        if l[0] == 'L' and (l[1], l[2]) not in st.heap:
            b, f = l[1], l[2]
            idx = None
            if b[0] == '&v' and isinstance(f, tuple) and f[1][0] != 'c':
                idx, keys = f[1], [(k, v) for k, v in st.heap.items() if k[0] == b]
                el = {k[1][1][1]: v for k, v in keys if isinstance(k[1], tuple) and k[1][1][0] == 'c'}
                bad = [k for k, v in keys if isinstance(k[1], tuple) and k[1][1][0] != 'c']
            elif b[0] == '&' and b[1][0] == '&v' and isinstance(b[2], tuple) and b[2][1][0] != 'c':
                idx, a = b[2][1], b[1]
                el = {k[0][2][1][1]: v for k, v in st.heap.items() if k[0][0] == '&' and k[0][1] == a and isinstance(k[0][2], tuple) and k[0][2][1][0] == 'c' and k[1] == f}
                bad = [k for k in st.heap if k[0][0] == '&' and k[0][1] == a and isinstance(k[0][2], tuple) and k[0][2][1][0] != 'c']
            if idx is not None and el and not bad and sorted(el) == list(range(len(el))):
                return ('pick', ('arr', tuple(el[i] for i in range(len(el)))), idx)
        return Engine.read(self, st, l)

    def private(self, b):
        return isglob(b) or Engine.private(self, b)


def gname(P, tu, n):
    if (tu, n) in P.sglobals:
        return os.path.basename(tu) + ':' + n
    return n


class EmitMon(Monitor):
    def __init__(self, em, types):
        self.em = em
        self.types = types       # root value -> node type
        self.bodies = {}
        self.prefix = {}
        self.bad = {}

    def add(self, st, *ev):
        st.mon = st.mon + ev

    def branch(self, eng, st, fr, node, val, taken):
        v = val
        while True:
            if v[0] == 'op' and v[1] == '!':
                v, taken = v[2], not taken
            elif v[0] == 'op' and v[1] == '==' and v[3] == ZERO:
                v, taken = v[2], not taken
            else:
                break
        v = self.em.norm(noep(self.now(st, v)))
        if v[0] in ('c', 's', 'fn'):
            return None
        for e in reversed(st.mon):
            if e[0] == 'if' and e[1] == v and e[2] == taken:
                return None
            if e[0] == 'loop':
                break
        return st.mon + (('if', v, taken, node.line),)

    def enter_loop(self, eng, st, fr, head):
        """a loop is summarised by one generic iteration: variables it changes become
        symbols; their values before it and after an iteration are recorded"""
        st = st.copy()
        g = cfg_of(fr.func)
        init = []
        for v in sorted(g.loopmods.get(head, ())):
            k = (fr.id, v)
            if k not in st.env or v.startswith('%t'):
                continue
            phi = ('phi', head, v, fr.id)
            init.append((phi, self.em.norm(noep(st.env[k]))))
            self.em.held(self, st, phi, st.env[k])
            st.env[k] = phi
        phis = set(p for p, _ in init)
        for f in [x for x in st.facts if any(t in phis for t in subterms(x))]:
            del st.facts[f]
        for k in [k for k in st.heap if isglob(k[0]) or not eng.private(k[0])]:
            del st.heap[k]
        key = (fr.id, head, self.prefix.setdefault(st.mon, len(self.prefix)))
        self.bodies.setdefault(key, {})
        st.mon = st.mon + (('loop', key, tuple(init)),)
        return st

    def loop_back(self, eng, st, fr, head):
        m = st.mon
        for i in range(len(m) - 1, -1, -1):
            if m[i][0] == 'loop' and m[i][1][:2] == (fr.id, head):
                back = tuple((p, self.em.norm(noep(st.env[(fr.id, p[2])]))) for p, _ in m[i][2] if (fr.id, p[2]) in st.env)
                for p, _ in m[i][2]:
                    if (fr.id, p[2]) in st.env:
                        self.em.held(self, st, p, st.env[(fr.id, p[2])])
                self.bodies[m[i][1]][(m[i + 1:], back)] = 1
                return False
        return None

    def store(self, eng, st, fr, node, loc, val):
        if loc[0] == 'L' and self.em.access is not None and isinstance(loc[2], str) and '.' in loc[2]:
            self.em.accessed(eng, self, st, loc[1], loc[2], val)
        if loc[0] == 'L' and self.em.access is not None and isinstance(loc[2], str):
            self.em.held(self, st, self.em.slot(('fld', loc[1], loc[2])), val)
        if loc[0] == 'L' and isglob(loc[1]):
            return st.mon + (('gset', gkey((loc[1], loc[2])), self.em.norm(noep(val))),)
        if loc[0] == 'L' and not eng.private(loc[1]):
            f = loc[2]
            b = self.em.norm(noep(loc[1]))
            return st.mon + (('set', b, noep(f) if isinstance(f, tuple) else f, self.em.norm(noep(val))),)
        return None

    def now(self, st, v):
        """a value in terms of the present contents of globals (x+1 after x = x+1 is x)"""
        for k, h in st.heap.items():
            if isglob(k[0]) and isinstance(k[1], str) and h[0] == 'op' and any(t[0] == 'fld' and t[1] == k[0] and t[2] == k[1] for t in subterms(h)):
                v = subst(v, h, ('fld', k[0], k[1], 0))
        return v

    def snap(self, st):
        return tuple(sorted(((k, v) for k, v in st.heap.items() if isglob(k[0]) and isinstance(k[1], str)), key=repr))

    def nullfields(self, st):
        return frozenset(k for k, v in st.heap.items() if v == ZERO and isinstance(k[1], str) and '.' in k[1])

    def havoc(self, st, tu, pairs):
        """after visiting children: forget what their handlers may write"""
        em = self.em
        w = set()
        allw = False
        for trav, t in pairs:
            x = em.writes(trav, t)
            w |= x
        for k in list(st.heap):
            if k[0] == ('G',) and k[1] in w or isglob(k[0]) and '*.' + str(k[1]) in w:
                del st.heap[k]
        for n in w:
            n = n[2:] if n.startswith('*.') else n
            st.ep[n] = ('v', hash((st.ep.get(n), n)) & 0xffffff)

    def nonnull_result(self, name):
        return name is not None and (name.startswith('AST') and name[3:].lower() in self.em.meta.child or name in self.em.nonnull)

    def call(self, eng, st, fr, node, name, cv, argv):
        em = self.em
        if name is None:
            self.add(st, ('call', em.norm(noep(cv)), tuple(em.norm(noep(a)) for a in argv), node.line))
            return [(st, ('call', '?', (fr.id, node.id), tuple(argv)))]
        if name.startswith('CCNaccess_'):
            l = em.accessor(fr.func.tu, name)
            if l is not None:
                return [(st, ('&', argv[-1], l))]
        if name == 'GNprint':
            style = argv[1]
            pieces = em.fmt(eng, st, argv[2], argv[3:])
            self.add(st, ('t', pieces, style[1] if style[0] == 'c' else None, node.line, fr.func.name))
            return [(st, ZERO)]
        if name == 'fprintf':
            dst = em.norm(noep(argv[0]))
            pieces = em.fmt(eng, st, argv[1], argv[2:])
            if dst[0] == 'fld' and dst[2] in ('stderr', 'stdout'):
                return [(st, ZERO)]
            self.add(st, ('t', pieces, None, node.line, fr.func.name))
            return [(st, ZERO)]
        if name in ('GNindentIncrease', 'GNindentDecrease'):
            self.add(st, ('indent', 1 if name.endswith('Increase') else -1))
            return [(st, ZERO)]
        if name.startswith('GNopen'):
            self.add(st, ('open', name, em.pieces(argv[1])))
            return [(st, ZERO)]
        if name in ('TRAVchildren', 'TRAVopt', 'TRAVdo') or (name.startswith('TRAV') and name in em.childvisit):
            x = argv[0]
            nt = em.typeof(self.types, noep(x)) or em.typefact(st, x)
            if name in ('TRAVopt', 'TRAVdo'):
                if st.known(x) == ZERO:
                    return [(st, ZERO)]
                self.add(st, ('visit', em.norm(noep(x)), nt, self.snap(st)))
                self.havoc(st, fr.func.tu, [(em.cur, m) for m in em.meta.members(nt)] if nt else [])
                return [(st, argv[0])]
            if name == 'TRAVchildren':
                fields = list(em.meta.order.get(nt, ()))
                if nt is None:
                    raise AnalysisBroken('TRAVchildren on a value of unknown node type in %s' % fr.func.name)
            else:
                fields = [name[4:]]
                if nt is None and em.untyped:
                    # some node with that child
                    ct = set(c[fields[0]] for c in em.meta.child.values() if fields[0] in c)
                    self.add(st, ('visit', em.norm(('fld', noep(x), '?.' + fields[0])), None, self.snap(st)))
                    for c in ct:
                        self.havoc(st, fr.func.tu, [(em.cur, m) for m in em.meta.members(c)])
                    return [(st, argv[0])]
                if nt is None or fields[0] not in em.meta.child.get(nt, ()):
                    raise AnalysisBroken('%s on a value of type %s in %s' % (name, nt, fr.func.name))
            for f in fields:
                label = nt + '.' + f
                ct = em.meta.child[nt][f]
                key = (x, label)
                hv = st.heap.get(key)
                if hv == ZERO:
                    if ct == nt and f == 'next':
                        self.add(st, ('next', True))
                    continue
                fv = noep(hv) if hv is not None else ('fld', noep(x), label)
                if ct == nt and f == 'next':
                    self.add(st, ('next', False))
                    self.havoc(st, fr.func.tu, [(em.cur, nt)])
                    continue
                self.add(st, ('visit', em.norm(fv), ct, self.snap(st)))
                self.havoc(st, fr.func.tu, [(em.cur, m) for m in em.meta.members(ct)])
            return [(st, argv[0])]
        if name == 'TRAVstart':
            t = em.travname(argv[1])
            x = noep(argv[0])
            nt = em.typeof(self.types, x)
            self.add(st, ('start', t, em.norm(x), nt, self.snap(st), st.heap.get((argv[0], (nt or '?') + '.next')) == ZERO))
            if nt:
                self.havoc(st, fr.func.tu, [(t, m) for m in em.meta.members(nt)])
            return [(st, ('call', 'TRAVstart', (fr.id, node.id), tuple(argv)))]
        if name in ('MEMfree', 'free', 'fclose', 'fflush', 'printf', 'puts', 'DBUGprint'):
            return [(st, ZERO)]
        if name in ('CTI', 'CTIobj', 'CTInote'):
            k = argv[0]
            fm = [a for a in argv if a[0] == 's']
            self.add(st, ('cti', k[1] if k[0] == 'c' else None, fm[0][1] if fm else None, node.line))
            return [(st, ZERO)]
        if name in ('STReq', 'STReqci') and all(em.norm(noep(a))[0] == 's' for a in argv):
            a, b = [em.norm(noep(x))[1] for x in argv]
            return [(st, ONE if (a == b if name == 'STReq' else a.lower() == b.lower()) else ZERO)]
        if em.purefn(fr.func.tu, name):
            rv = ('call', name, None, tuple(argv))
            st.assume(rv, True)
            return [(st, rv)]
        if name in PURE_STR or name in PURE_FN:
            rv = ('call', name, None, tuple(argv))
            if name in ('STRfmt', 'STRcat', 'STRcatn', 'STRitoa'):
                st.assume(rv, True)
            return [(st, rv)]
        if name.startswith('DATA_') and name.endswith('_GET') or name.startswith('TRAVgetCurrent'):
            rv = ('call', name, None, ())
            st.assume(rv, True)
            return [(st, rv)]
        if name.startswith('HTmap') or name.startswith('HTfold'):
            fs = [a[1] for a in argv if a[0] == 'fn']
            self.add(st, ('map', name, em.norm(noep(argv[0])), fs[0] if fs else None, self.snap(st), fr.func.tu))
            return [(st, ZERO)]
        f = em.P.resolve(fr.func.tu, name)
        k = em.modular(f) if f is not None and not any(t[0] == '&v' for a in argv for t in subterms(a)) else None
        if k == 'value':
            return [(st, ('call', name, ('m', f.tu), tuple(argv)))]
        if k == 'void':
            self.add(st, ('inl', name, f.tu, tuple(em.norm(noep(a)) for a in argv)))
            w = em.direct_writes(f)[0]
            for kk in list(st.heap):
                if kk[0] == ('G',) and kk[1] in w or isglob(kk[0]) and '*.' + str(kk[1]) in w:
                    del st.heap[kk]
            for n in w:
                n = n[2:] if n.startswith('*.') else n
                st.ep[n] = ('v', hash((st.ep.get(n), n)) & 0xffffff)
            return [(st, ZERO)]
        if f is None or eng.policy(eng, fr.func, name) != 'inline':
            a = tuple(em.norm(noep(a)) for a in argv)
            self.add(st, ('call', ('fn', name), a, node.line, ('call', name, (fr.id, node.id), a)))
            return None
        return None


INLINE_DIRS = ('cocogen/dynamic_backend', 'cocogen/gen_helpers', 'cocogen/phase_driver', 'cocogen/generator', 'cocogen/print')


class Emitter:
    dirs = INLINE_DIRS
    whole = ('\0',)      # inlined without exception
    opaque = ()
    nonnull = ()

    def __init__(self, P):
        self.P = P
        self.cache = {}
        self.wcache = {}
        self.meta = Meta(os.path.join(REPO, 'cocogen/main.ccn'))
        self.childvisit = set()
        for n, cs in self.meta.child.items():
            for c in cs:
                self.childvisit.add('TRAV' + c)
        self.cg = callgraph.build(P)
        self.const_globals = self.find_const_globals()
        self.load_dispatch()
        self.funcs = set()
        self.cur = None
        self.nevents = 0
        self.stack = []
        self.lazy = False

    # ------------------------------------------------------------ dispatch
    def load_dispatch(self):
        P = self.P
        try:
            tab = P.globals['ccn_trav_vtable']['init']['elems']
            te = dict(P.enums['ccn_traversal_type'])
            ne = dict(P.enums['ccn_nodetype'])
        except KeyError as e:
            raise AnalysisBroken('dispatch table: %s' % e)
        self.travs = {}
        self.travbynum = {v: k for k, v in te.items()}
        for k, v in te.items():
            if v >= len(tab) or tab[v] is None:
                continue
            x = tab[v]
            while x['k'] in ('un', 'cast'):
                x = x['a']
            g = P.globals.get(x['n'])
            if g is None or 'init' not in g:
                continue
            row = {}
            for n, i in ne.items():
                if i < len(g['init']['elems']):
                    e = g['init']['elems'][i]
                    while e is not None and e['k'] in ('un', 'cast'):
                        e = e['a']
                    if e is not None and e['k'] == 'fn' and n.startswith('NT_'):
                        row[n[3:].lower()] = e['n']
            self.travs[k[len('TRAV_'):]] = row
        self.ntnum = {v: n[3:].lower() for n, v in ne.items() if n.startswith('NT_')}
        if len(self.travs) < 20:
            raise AnalysisBroken('dispatch table: only %d traversals' % len(self.travs))

    def purefn(self, tu, name):
        """the function maps scalar arguments to constants and does nothing else"""
        key = ('pure', tu, name)
        if key not in self.wcache:
            f = self.P.resolve(tu, name)
            ok = f is not None and len(f.params) >= 1 and rel(f.file).startswith(self.dirs) and all('*' not in p['t'] for p in f.params)
            if ok:
                nodes = cfg_of(f).nodes
                rets = [n.data for n in nodes if n.kind == 'ret']
                ok = len(rets) >= 2 and all(d and d[0] in ('str', 'null', 'int') for d in rets)
                for n in nodes:
                    if n.kind == 'asg' or n.kind == 'call' and (n.data[1][0] != 'fn' or n.data[1][1] not in ('err', 'errx', 'abort', 'exit', '__assert_fail', 'fprintf')):
                        ok = False
            self.wcache[key] = ok
        return self.wcache[key]

    def sites(self, f):
        """number of call sites of a function in its translation unit"""
        if self.nsites is None:
            self.nsites = {}
            for g, cl in self.cg.calls.items():
                for n, c in cl:
                    h = self.P.resolve(g.tu, c) if c else None
                    if h is not None:
                        self.nsites[h] = self.nsites.get(h, 0) + 1
        return self.nsites.get(f, 0)

    nsites = None

    def modular(self, f):
        """'void' / 'value': the function is summarised on its own; None: it is inlined"""
        key = ('mod', f)
        if key not in self.wcache:
            r = None
            if rel(f.file).startswith(self.dirs) and not rel(f.file).startswith(self.whole) and not (f.static and self.sites(f) == 1 and not cfg_of(f).loops):
                nodes = cfg_of(f).nodes
                w, vis = self.direct_writes(f)
                out = False
                for g in [f] + [x for x in self.cg.reach(f) if rel(x.file).startswith(self.dirs + ('cocogen/globals',)) and x is not f]:
                    for n in cfg_of(g).nodes:
                        if n.kind == 'call' and n.data[1][0] == 'fn' and (n.data[1][1].startswith(('GN', 'HTinsert', 'HTnew', 'HTIterSet', 'CTI')) or n.data[1][1] in ('fprintf', 'fputs')):
                            out = True
                        if n.kind == 'asg' and n.data[0][0] != 'var':
                            out = True
                        if n.kind == 'call' and n.data[1][0] == 'fn' and n.data[1][1] in ('TRAVstart', 'CCNcopy'):
                            vis = vis | {'?'}
                br = any(n.kind == 'br' for n in nodes) or cfg_of(f).loops
                if br and not vis:
                    if f.ret.strip() == 'void':
                        r = 'void'
                    elif not out and not w and (cfg_of(f).loops or sum(n.kind == 'br' for n in nodes) > 4):
                        r = 'value'
            self.wcache[key] = r
        return self.wcache[key]

    def summary(self, name, tu):
        """paths of a modular function over symbolic parameters"""
        f = self.P.resolve(tu, name)
        key = ('sum', f)
        if key not in self.wcache:
            ph = [('phi', 'par', p['n'], f.name) for p in f.params]
            old, self.cur = self.cur, None
            try:
                self.wcache[key] = (ph, [Path(self.expand_events(None, p.ev, 0) + (('ret', p.ret),), p.ret, p.globs) for p in self.raw_paths(f, ph, {}, (), False)])
            finally:
                self.cur = old
        return self.wcache[key]

    def purecall(self, name, args):
        """constant a pure function returns for constant arguments, or None"""
        key = ('app', name, args)
        if key not in self.wcache:
            f = self.P.resolve(None, name)
            r = None
            if f is not None:
                vs = set(p.ret for p in self.raw_paths(f, [('c', a) for a in args], {}, ()))
                r = vs.pop() if len(vs) == 1 else None
            self.wcache[key] = r
        return self.wcache[key]

    def accessor(self, tu, name):
        """field label an accessor function returns the address of"""
        key = ('acc', name)
        if key not in self.wcache:
            r = None
            f = self.P.resolve(tu, name)
            if f is not None:
                rets = set(n.data for n in cfg_of(f).nodes if n.kind == 'ret')
                if len(rets) == 1:
                    d = rets.pop()
                    if d and d[0] == 'addr' and d[1][0] == 'fld' and d[1][1][0] == 'deref' and d[1][1][1][0] == 'var':
                        r = d[1][2]
            self.wcache[key] = r
        return self.wcache[key]

    def travname(self, v):
        if v[0] == 'c' and v[1] in self.travbynum:
            return self.travbynum[v[1]][len('TRAV_'):]
        raise AnalysisBroken('TRAVstart of an unknown traversal %r' % (v,))

    def handler(self, trav, ntype):
        row = self.travs.get(trav)
        if row is None:
            raise AnalysisBroken('no traversal %s' % trav)
        return row.get(ntype)

    # ------------------------------------------------------------- effects
    def direct_writes(self, f):
        key = ('dw', f)
        if key in self.wcache:
            return self.wcache[key]
        r = set()
        visits = set()
        for g in [f] + [x for x in self.cg.reach(f) if rel(x.file).startswith(self.dirs) and x is not f]:
            for n in cfg_of(g).nodes:
                if n.kind == 'asg' and n.data[0][0] == 'glob':
                    r.add(gname(self.P, g.tu, n.data[0][1]))
                if n.kind == 'asg' and n.data[0][0] == 'fld' and n.data[0][1][0] == 'deref' and '.' not in n.data[0][2]:
                    r.add('*.' + n.data[0][2])
                if n.kind == 'call' and n.data[1][0] == 'fn':
                    c = n.data[1][1]
                    if c == 'TRAVchildren':
                        visits.add('*')
                    elif c.startswith('TRAV') and c in self.childvisit:
                        visits.add(c[4:])
                    elif c in ('TRAVopt', 'TRAVdo'):
                        visits.add('?')
                    elif c == 'TRAVstart':
                        a = n.data[2][1]
                        if a[0] == 'int':
                            visits.add(('start', a[1]))
                        else:
                            visits.add('?')
        self.wcache[key] = (r, visits)
        return r, visits

    def writes(self, trav, ntype):
        """globals that visiting a node of this type may write"""
        key = (trav, ntype)
        if key in self.wcache:
            return self.wcache[key]
        seen = set()
        work = [key]
        res = set()
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            t, n = k
            h = self.handler(t, n)
            kids = self.meta.child.get(n, {})
            if h is None or h in ('TRAVnop', 'TRAVerror'):
                continue
            if h == 'TRAVchildren':
                vis = {'*'}
            else:
                f = self.P.resolve(None, h)
                if f is None:
                    continue
                w, vis = self.direct_writes(f)
                res |= w
            for v in vis:
                if v in ('*', '?'):
                    for c, ct in kids.items():
                        work.extend((t, m) for m in self.meta.members(ct))
                elif isinstance(v, tuple):
                    tn = self.travbynum.get(v[1])
                    if tn:
                        tn = tn[len('TRAV_'):]
                        work.extend((tn, m) for m in self.meta.child)
                elif v in kids:
                    work.extend((t, m) for m in self.meta.members(kids[v]))
        self.wcache[key] = res
        return res

    def find_const_globals(self):
        """globals never assigned nor address-taken: their initialiser is their value"""
        written = set()
        for f in self.P.all_funcs():
            for n in cfg_of(f).nodes:
                if n.kind == 'asg':
                    d = n.data[0]
                    while d[0] in ('fld', 'idx'):
                        d = d[1]
                    if d[0] == 'glob':
                        written.add(gname(self.P, f.tu, d[1]))
                for x in (n.data[2] if n.kind == 'call' else [n.data[1]] if n.kind == 'asg' else []):
                    for t in _subx(x):
                        if t[0] == 'addr' and t[1][0] == 'glob':
                            written.add(gname(self.P, f.tu, t[1][1]))
        r = {}
        for (tu, n), g in self.P.sglobals.items():
            k = gname(self.P, tu, n)
            if k not in written and 'init' in g:
                c = const_init(g['init'])
                if c is not None:
                    r[k] = c
        for n, g in self.P.globals.items():
            if n not in written and 'init' in g:
                c = const_init(g['init'])
                if c is not None:
                    r[n] = c
        return r

    # ------------------------------------------------------------- values
    def typeof(self, types, v):
        if v in types:
            return types[v]
        if v[0] == 'fld' and isinstance(v[2], str):
            return self.meta.ftype(v[2])
        if v[0] in ('el', 'node'):
            return v[2] if v[0] == 'el' else v[1]
        if self.access is not None and v[0] == 'call' and isinstance(v[1], str) and v[1].startswith('AST') and v[1][3:] in self.meta.child:
            return v[1][3:]
        return None

    def typefact(self, st, x):
        """the node type a path has compared NODE_TYPE(x) with"""
        want = ('fld', noep(x), 'nodetype')
        for k, v in st.facts.items():
            if k[0] == 'fld' and v[0] == 'eq' and v[1][0] == 'c' and noep(k) == want:
                return self.ntnum.get(v[1][1])
        return None

    untyped = False    # visits of a named child of a node of unknown type are recorded instead of refused
    slots = {}
    access = None      # callback (function, line, field label, value, possible node types, known) on every node field access

    def kinds(self, types, st, x):
        """node types a value can have on this path, and whether anything is known about it"""
        x = noep(x)
        decl = set(self.members_of(self.typeof(types, x)))
        ks, eq, ne = set(self.ntnum.values()), None, set()
        want = ('fld', x, 'nodetype')
        for k, v in st.facts.items():
            if k[0] == 'fld' and noep(k) == want:
                if v[0] == 'eq' and v[1][0] == 'c':
                    eq = self.ntnum.get(v[1][1])
                elif v[0] == 'ne':
                    ne |= set(self.ntnum.get(c[1]) for c in v[1] if c[0] == 'c')
        if eq is not None:
            # a test of the kind is better evidence than the declared type of an attribute
            return {eq} & decl if x in types else {eq}, True
        return (decl or ks) - ne, bool(decl)

    def members_of(self, t):
        return self.meta.members(t) if t else []

    def accessed(self, eng, mon, st, b, f, val=None):
        t = f.split('.')[0]
        if t not in self.meta.child or b[0] in ('&v', 'G'):
            return
        ks, known = self.kinds(mon.types, st, b)
        fr, node = eng.at
        self.access(fr.func, node.line, f, None if known else self.slot(b), ks, known)
        d = set(self.members_of(self.meta.ftype(f)))
        if val is not None and val != ZERO and d:
            ks, known = self.kinds(mon.types, st, val)
            self.access(fr.func, node.line, '=' + f, None if known else self.slot(val), ks, known, d)

    def slot(self, v):
        """the variable a node is held in: a loop variable, a global, or a field of traversal data"""
        v = noep(v)
        if v[0] == 'phi':
            return v
        if v[0] == 'fld' and v[1] == ('G',):
            return ('glob', v[2])
        if v[0] == 'fld' and isinstance(v[2], str) and v[1][0] == 'fld' and v[1][1][0] in ('fld', '&') and v[1][1][2] == 'trav_data':
            return ('data', v[1][2], v[2])
        return None

    def held(self, mon, st, slot, v):
        """a value is put into a slot: remember which kinds of node it can be"""
        if self.access is None or slot is None or v == ZERO:
            return
        ks, known = self.kinds(mon.types, st, v)
        if known:
            self.slots.setdefault(slot, set()).update(ks)
        else:
            self.slots.setdefault(slot, set()).add(self.slot(v) or '?')

    def slotkinds(self, slot):
        """all kinds of node ever put into a slot, None when one is unknown"""
        seen, todo, r = set(), [slot], set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for k in self.slots.get(s, ('?',)):
                if isinstance(k, tuple):
                    todo.append(k)
                elif k == '?':
                    return None
                else:
                    r.add(k)
        return r

    def norm(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] in ('c', 's'):
            return v
        v = tuple(self.norm(x) if isinstance(x, tuple) else x for x in v)
        if v[0] == 'call' and v[1] == 'STRcpy' and len(v) == 4 and v[3]:
            return v[3][0]
        if v[0] == 'fld' and v[1] == ('G',) and v[2] in self.const_globals:
            return self.const_globals[v[2]]
        if v[0] in ('fld', '&') and len(v) >= 3 and isinstance(v[2], tuple) and v[2][0] == '[]' and v[1][0] == 'arr':
            return self.norm(('pick', v[1], v[2][1]))
        if v[0] == 'fld' and isinstance(v[2], str) and v[1][0] == 'pick' and all(x[0] == 'rec' for x in v[1][1][1]):
            return self.norm(('pick', ('arr', tuple(dict(x[1]).get(v[2].split('.')[-1], ('c', 0)) for x in v[1][1][1])), v[1][2]))
        if v[0] == 'fld' and isinstance(v[2], str) and v[1][0] == 'rec':
            return dict(v[1][1]).get(v[2].split('.')[-1], ('c', 0))
        if v[0] == 'pick' and v[2][0] == 'c' and 0 <= v[2][1] < len(v[1][1]):
            return v[1][1][v[2][1]]
        return v

    def fmt(self, eng, st, fv, args):
        fv = self.norm(noep(fv))
        if fv[0] != 's':
            r = self.pieces(fv)
            if any(isinstance(p, str) and '%' in p for p in r):
                return (('hole', ('fmt', fv)),)
            return r
        out = []
        i = 0
        for p in parse_fmt(fv[1]):
            if isinstance(p, str):
                out.append(p)
                continue
            if i >= len(args):
                out.append(('hole', ('missing',)))
                continue
            a = args[i]
            i += 1
            k = st.known(a)
            if k is not None and k[0] in ('c', 's'):
                a = k
            else:
                a = eng.mon.now(st, a)
            if p[1] == 'c' and a[0] == 'c':
                out.append(chr(a[1]))
            else:
                out.extend(self.pieces(a))
        return merge(out)

    def pieces(self, v):
        v = self.norm(noep(v))
        if v[0] == 's':
            return (v[1],)
        if v[0] == 'c':
            return (str(v[1]),)
        if v[0] == 'call' and len(v) == 4:
            n, a = v[1], v[3]
            if n == 'STRcpy' and a:
                return self.pieces(a[0])
            if n == 'STRcat' and len(a) == 2:
                return merge(list(self.pieces(a[0])) + list(self.pieces(a[1])))
            if n == 'STRcatn' and a:
                r = []
                for x in a[1:]:
                    r.extend(self.pieces(x))
                return merge(r)
            if n == 'STRfmt' and a and a[0][0] == 's':
                r = []
                i = 1
                for p in parse_fmt(a[0][1]):
                    if isinstance(p, str):
                        r.append(p)
                    else:
                        r.extend(self.pieces(a[i]) if i < len(a) else [('hole', ('missing',))])
                        i += 1
                return merge(r)
            if n in ('STRupper', 'STRlower') and a:
                if a[0][0] == 's':
                    return (a[0][1].upper() if n == 'STRupper' else a[0][1].lower(),)
                x = a[0]
                if x[0] == 'fld' and x[2] in ('id.orig', 'id.lwr', 'id.Upr'):
                    return (('hole', ('fld', x[1], 'id.upr' if n == 'STRupper' else 'id.lwr')),)
        return (('hole', v),)

    # ------------------------------------------------------------------- run
    def policy(self, e, c, n):
        f = self.P.resolve(c.tu, n)
        if f is None:
            return 'opaque'
        here = f.static and self.root is not None and f.tu == self.root.tu and rel(f.file).startswith('cocogen/main')
        return 'inline' if (rel(f.file).startswith(self.dirs) or here) and n not in self.opaque else 'opaque'

    root = None
    monitor = EmitMon
    engine = EEngine

    def raw_paths(self, f, argvals, types, globs, nonnull=True):
        self.root = f
        m = self.monitor(self, types)
        eng = self.engine(self.P, m, self.policy, cap=4000, maxdepth=14)
        st = State(mon=())
        for k, v in globs:
            st.heap[k] = v
        for a in argvals:
            if a is not None and nonnull:
                st.assume(a, True)
        res = []
        seen = set()
        for s, v in eng.run(f, (), args=argvals, init=st):
            key = (s.mon, noep(v) if v else v)
            if key in seen:
                continue
            seen.add(key)
            ev = tuple(self.fill_loops(m, s.mon))
            res.append(Path(ev, self.norm(noep(v)) if v else None, m.snap(s)))
            self.nevents += len(ev)
        self.funcs |= set(n for _, n in eng.visited_funcs)
        return res

    def fill_loops(self, m, evs, depth=0):
        for e in evs:
            if e[0] == 'loop':
                yield ('loop', [tuple(self.fill_loops(m, b, depth + 1)) + (('back', k),) for b, k in m.bodies.get(e[1], {})] if depth < 4 else [], e[2])
            else:
                yield e

    def expand(self, trav, ntype, value=None, globs=(), depth=0):
        """paths of visiting one symbolic node of type ntype in traversal trav"""
        if value is None:
            value = ('node', ntype)
        key = (trav, ntype, value, globs)
        if key in self.cache:
            return self.cache[key]
        if depth > 40:
            raise AnalysisBroken('expansion of %s too deep' % trav)
        if self.inert(trav, ntype):
            return [Path((), None, globs, ntype)]
        if (trav, ntype) in self.stack:
            return [Path((('rec', trav, ntype, value),), None, globs, ntype)]
        self.stack.append((trav, ntype))
        try:
            return self.expand2(trav, ntype, value, globs, depth, key)
        finally:
            self.stack.pop()

    def inert(self, trav, ntype):
        """no handler that does anything is reachable from this node"""
        key = ('inert', trav, ntype)
        if key not in self.wcache:
            seen, work, r = set(), [ntype], True
            while work and r:
                n = work.pop()
                if n in seen:
                    continue
                seen.add(n)
                h = self.handler(trav, n)
                if h in (None, 'TRAVnop'):
                    continue
                if h != 'TRAVchildren':
                    r = False
                for ct in self.meta.child.get(n, {}).values():
                    work.extend(self.meta.members(ct))
            self.wcache[key] = r
        return self.wcache[key]

    def expand2(self, trav, ntype, value, globs, depth, key):
        h = self.handler(trav, ntype)
        if h is None or h == 'TRAVerror':
            return [Path((('traverr', ntype),), None, globs, ntype)]
        if h == 'TRAVnop':
            return [Path((), None, globs, ntype)]
        old, self.cur = self.cur, trav
        try:
            if h == 'TRAVchildren':
                ev = []
                for c in self.meta.order[ntype]:
                    ct = self.meta.child[ntype][c]
                    if c == 'next' and ct == ntype:
                        ev.append(('next', False))
                    else:
                        ev.append(('visit', ('fld', value, ntype + '.' + c), ct, globs))
                paths = [Path(tuple(ev), None, globs)]
            else:
                f = self.P.resolve(None, h)
                if f is None:
                    raise AnalysisBroken('handler %s has no definition' % h)
                paths = self.raw_paths(f, [value], {value: ntype}, globs)
            res = [Path(self.expand_events(trav, p.ev, depth), p.ret, p.globs, ntype) for p in paths]
        finally:
            self.cur = old
        if not any(k in self.stack[:-1] for k in self.recs(res)):
            self.cache[key] = res
        return res

    def recs(self, paths):
        r = set()
        for p in paths:
            for e in p.ev:
                if e[0] == 'rec':
                    r.add((e[1], e[2]))
                elif e[0] in ('list', 'start'):
                    r |= self.recs(e[3] if e[0] == 'list' else e[5])
                elif e[0] == 'loop':
                    r |= self.recs([Path(b, None, None) for b in e[1]])
        return r

    def expand_events(self, trav, evs, depth):
        out = []
        for e in evs:
            if e[0] == 'visit':
                out.append(self.sub(trav, e[1], e[2], e[3], depth))
            elif e[0] == 'start':
                _, t, v, nt, g, nulled = e
                out.append(('start', t, v, nt, nulled, self.sub(t, v, nt, g, depth, single=nulled)[3] if nt else []))
            elif e[0] == 'loop':
                out.append(('loop', [self.expand_events(trav, b, depth) for b in e[1]], e[2]))
            else:
                out.append(e)
        return tuple(x for x in out if not (x[0] == 'list' and not x[3]))

    def sub(self, trav, v, t, globs, depth, single=False):
        alts = []
        mem = self.meta.members(t) if t else []
        if not mem:
            raise AnalysisBroken('visit of a value of unknown type %r in %s' % (v, trav))
        for m in mem:
            if self.inert(trav, m):
                continue
            islist = self.meta.child[m].get('next') in (m, t) and not single
            gl = globs
            if islist:
                w = self.writes(trav, m)
                gl = tuple((k, x) for k, x in globs if not (k[0] == ('G',) and k[1] in w or '*.' + k[1] in w))
            el = v if v[0] == 'node' or single else ('node', m)
            try:
                alts.extend(self.expand(trav, m, el, gl, depth + 1))
            except AnalysisBroken as e:
                if not self.lazy:
                    raise
                alts.append(Path((('broken', str(e)),), None, gl, m))
        if all(not p.ev or all(e[0] == 'next' for e in p.ev) for p in alts):
            alts = [] if all(not p.ev for p in alts) else alts
        return ('list', v, t, alts, globs)

    def run_pass(self, fname, globs=()):
        f = self.P.need(fname)
        old, self.cur = self.cur, None
        try:
            v = ('node', 'ast')
            paths = self.raw_paths(f, [v], {v: 'ast'}, globs)
            return [Path(self.expand_events(None, p.ev, 0), p.ret, p.globs, 'ast') for p in paths]
        finally:
            self.cur = old


def _subx(x):
    if isinstance(x, tuple) and x:
        yield x
        for y in x[1:]:
            if isinstance(y, tuple):
                yield from _subx(y)


def const_init(i):
    if not isinstance(i, dict):
        return None
    while i.get('k') in ('cast',):
        i = i['a']
    if i.get('k') == 'str':
        return ('s', i['v'])
    if i.get('k') in ('int', 'enum'):
        return ('c', i['v'])
    if i.get('k') == 'null':
        return ('c', 0)
    if i.get('k') in ('fn', 'func'):
        return ('fn', i['n'])
    if i.get('k') == 'un' and i.get('op') == '&':
        return const_init(i['a']) if i['a'].get('k') in ('fn', 'func') else None
    if i.get('k') == 'init' and 'elems' in i:
        e = [const_init(x) for x in i['elems']]
        return None if None in e or len(e) > 64 else ('arr', tuple(e))
    if i.get('k') == 'init' and 'fields' in i:
        e = [(k, const_init(x)) for k, x in sorted(i['fields'].items())]
        return None if any(x is None for _, x in e) else ('rec', tuple(e))
    return None


def merge(out):
    r = []
    for p in out:
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        elif p != '':
            r.append(p)
    return tuple(r)


# ---------------------------------------------------------------- rendering
def name(v):
    """readable canonical name of a symbolic value"""
    k = v[0]
    if k == 'node':
        return v[1]
    if k == 'el':
        return v[2]
    if k == 'fld':
        f = v[2] if isinstance(v[2], str) else '[' + name(v[2][1]) + ']'
        f = f.split('.')[-1]
        if v[1] == ('G',):
            return 'glob:' + v[2]
        b = name(v[1])
        return b + ('.' if not f.startswith('[') else '') + f
    if k == 'c':
        return str(v[1])
    if k == 's':
        return repr(v[1])
    if k == 'fn':
        return v[1]
    if k == 'call':
        if v[1] == 'STlookup' and len(v[3]) == 2:
            return 'lookup(%s)' % name(v[3][1])
        if v[1] == 'STRfmt':
            return 'fmt(%s)' % ','.join(name(x) for x in v[3])
        return '%s(%s)' % (v[1], ','.join(name(x) for x in v[3] if isinstance(x, tuple)))
    if k == 'op':
        if len(v) == 4:
            return '(%s%s%s)' % (name(v[2]), v[1], name(v[3]))
        return '%s%s' % (v[1], name(v[2]))
    if k == 'phi':
        return '?' + v[2].split('#')[0]
    if k == 'pick':
        return 'one of %d[%s]' % (len(v[1][1]), name(v[2]))
    if k == 'in':
        return v[1]
    if k in ('&', '&v'):
        return '&' + '.'.join(str(x) if not isinstance(x, tuple) else name(x) for x in v[1:])
    return k


def render(pieces):
    return ''.join(p if isinstance(p, str) else '{' + name(p[1]) + '}' for p in pieces)


def text(evs, lists=None):
    """text of a path; nested visits become  <<n>>  markers appended to `lists`"""
    out = []
    for e in evs:
        if e[0] == 't':
            out.append(render(e[1]))
        elif e[0] in ('list', 'start', 'loop', 'map'):
            if lists is not None:
                lists.append(e)
                out.append('\x01%d\x02' % (len(lists) - 1))
    return ''.join(out)


_TOK = re.compile(r'''
   (?P<c>/\*.*?\*/|//[^\n]*)
 | (?P<pp>(?:(?<=\n)|^)[ \t]*\#[^\n]*)
 | (?P<s>"(?:\\.|[^"\\\n])*")
 | (?P<ch>'(?:\\.|[^'\\\n])*')
 | (?P<id>(?:[A-Za-z_]|\{[^{}\s]*\})(?:[A-Za-z_0-9]|\{[^{}\s]*\})*)
 | (?P<num>\d[\w.]*)
 | (?P<m>\x01\d+\x02)
 | (?P<p>->|\+\+|--|==|!=|<=|>=|&&|\|\||\S)
''', re.X | re.S)


def toks(s):
    """C tokens of emitted text (comments dropped, # lines are one token)"""
    s = unbrace(s)
    out = []
    for m in _TOK.finditer(s):
        if m.lastgroup == 'c':
            continue
        t = m.group()
        if m.lastgroup == 'pp':
            t = ' '.join(re.sub(r'//.*|/\*.*?\*/', '', t).split())
        out.append(t)
    return out


def unbrace(s):
    return s


def canon(s):
    return ' '.join(toks(s))
