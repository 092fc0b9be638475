"""Rules about the meta-compiler's own front end (semantic checks of a specification)."""
from cfg import cfg_of
from program import AnalysisBroken, rel
from absint import compute_noreturn
import callgraph, front

SEV_ERR = 'CTI_ERROR'


def frontend(P):
    if getattr(P, 'front', None) is None:
        P.front = front.Front(P)
    return P.front


def own(f):
    p = rel(f.file)
    return not p.startswith(('copra/', 'palm/', 'cocogen/ccngen/'))


# ------------------------------------------------------------------------ C14
class Gate:
    """Which error reports can be left behind by a run that goes on.

    From every CTI/CTIobj(CTI_ERROR, ...) call all control-flow paths are
    followed (with the constants assigned on the way) to a call that stops the
    compilation or marks the action/phase as failed; a path that returns to the
    caller is continued behind every call site; behind a traversal handler it
    continues behind the visit in the handlers of that traversal, up to the
    action the phase driver starts."""
    STOP = ('CTIabortOnError', 'CTIabortCompilation', 'CCNerrorAction', 'CCNerrorPhase')

    def __init__(self, P):
        self.P = P
        self.cg = callgraph.build(P)
        self.nr = compute_noreturn(P)
        ev = [v for k, vs in P.enums.items() for n, v in vs if n == SEV_ERR]
        if not ev:
            raise AnalysisBroken('severity %s not found' % SEV_ERR)
        self.err = ev[0]
        F = frontend(P)
        self.handlers = {}       # function name -> [traversal]
        for t, row in F.travs.items():
            for n, h in row.items():
                if h not in (None, 'TRAVnop', 'TRAVchildren', 'TRAVerror'):
                    self.handlers.setdefault(h, []).append((t, n))
        self.F = F
        self.stopcache = {}
        self.reporters = self.find_reporters()

    def find_reporters(self):
        """function -> index of the parameter that holds the severity"""
        r = {'CTI': 0, 'CTIobj': 0}
        ch = True
        while ch:
            ch = False
            for f in self.P.all_funcs():
                if not own(f) or f.name in r:
                    continue
                for n, c in self.cg.calls[f]:
                    if c in r:
                        a = n.data[2][r[c]] if len(n.data[2]) > r[c] else None
                        for i, p in enumerate(f.params):
                            if a == ('var', p['id'] if 'id' in p else p['n']) or a is not None and a[0] == 'var' and a[1].split('#')[0] == p['n']:
                                r[f.name] = i
                                ch = True
        return r

    def stops(self, f, n):
        """the call node ends or marks the run"""
        c = n.data[1]
        if c[0] != 'fn':
            return False
        if c[1] in self.STOP:
            return True
        g = self.P.resolve(f.tu, c[1])
        if g is None:
            return False
        if g in self.nr:
            return True
        return self.always_stops(g)

    def always_stops(self, g):
        """every path through g passes a stopping call"""
        if g in self.stopcache:
            return self.stopcache[g]
        self.stopcache[g] = False
        if not own(g):
            return False
        r = not self.walk(g, cfg_of(g).entry, {})
        self.stopcache[g] = r
        return r

    def ev(self, v, env):
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'null':
            return 0
        if k in ('var', 'glob'):
            return env.get(v)
        if k == 'un' and v[1] == '!':
            x = self.ev(v[2], env)
            return None if x is None else int(not x)
        if k == 'bin' and v[1] in ('==', '!=', '>', '<', '>=', '<='):
            a, b = self.ev(v[2], env), self.ev(v[3], env)
            if a is None or b is None:
                return None
            if 'pos' in (a, b):
                return {'==': 0, '!=': 1, '>': 1, '>=': 1}.get(v[1]) if b == 0 else None
            return int({'==': a == b, '!=': a != b, '>': a > b, '<': a < b, '>=': a >= b, '<=': a <= b}[v[1]])
        if k == 'bin' and v[1] in ('+', '-', '|', '||', '&', '&&'):
            a, b = self.ev(v[2], env), self.ev(v[3], env)
            if v[1] in ('|', '||') and (a == 'pos' or b == 'pos' or v[1] == '||' and (a or b)):
                return 'pos'
            if a is None or b is None or 'pos' in (a, b):
                return None
            return {'+': a + b, '-': a - b, '|': a | b, '||': int(bool(a or b)), '&': a & b, '&&': int(bool(a and b))}[v[1]]
        return None

    def isvar(self, p):
        return p[0] in ('var', 'glob')

    def step(self, f, n, env):
        """environment behind node n, or None when n stops"""
        if n.kind == 'call':
            if self.stops(f, n):
                return None
            env = dict(env)
            for k in [k for k in env if k[0] == 'glob']:
                g = self.P.resolve(f.tu, n.data[1][1]) if n.data[1][0] == 'fn' else None
                if g is not None and k in self.gwrites(g):
                    del env[k]
            if n.data[0] is not None:
                env.pop(n.data[0], None)
            return env
        if n.kind == 'asg':
            p, v = n.data[0], n.data[1]
            if self.isvar(p):
                env = dict(env)
                x = self.ev(v, env)
                if v[0] == 'bin' and v[1] == '+' and v[2] == p and v[3] == ('int', 1):
                    x = 'pos'      # a count: not zero
                if x is None:
                    env.pop(p, None)
                else:
                    env[p] = x
            return env
        return env

    def gwrites(self, g):
        if not hasattr(self, '_gw'):
            self._gw = {}
        if g not in self._gw:
            w = set()
            for x in self.cg.reach(g):
                for n in cfg_of(x).nodes:
                    if n.kind == 'asg' and n.data[0][0] == 'glob':
                        w.add(n.data[0])
            self._gw[g] = w
        return self._gw[g]

    def walk(self, f, start, env):
        """results (constant returned or None) with which control can leave f from node start without stopping"""
        g = cfg_of(f)
        out = set()
        seen = set()
        work = [(start, tuple(sorted(env.items(), key=repr)))]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 20000:
                raise AnalysisBroken('error paths of %s too many' % f.name)
            n = g.nodes[k[0]]
            env = dict(k[1])
            if n.kind == 'exit':
                continue
            e2 = self.step(f, n, env)
            if e2 is None:
                continue
            if n.kind == 'ret':
                v = self.ev(n.data, e2) if n.data else None
                out.add((v, tuple((a, b) for a, b in sorted(e2.items(), key=repr) if a[0] == 'glob')))
                continue
            fe = tuple(sorted(e2.items(), key=repr))
            if n.kind == 'br':
                c = self.ev(n.data, e2)
                for i, s in enumerate(n.succ):
                    if c is not None and bool(c) != (i == 0):
                        continue
                    e3 = e2
                    v, want = n.data, i == 0
                    while v[0] == 'un' and v[1] == '!':
                        v, want = v[2], not want
                    if self.isvar(v) and not want:
                        e3 = dict(e2)
                        e3[v] = 0
                    work.append((s, tuple(sorted(e3.items(), key=repr))))
            else:
                work.extend((s, fe) for s in n.succ)
        return out

    def before(self, f, site):
        """constants assigned in the straight line before the call; None when a stopping mark already precedes it on all paths"""
        g = cfg_of(f)
        pred = {}
        for n in g.nodes:
            for s in n.succ:
                pred.setdefault(s, []).append(n.id)
        # all paths from entry pass a (sticky) mark?
        seen = set()
        work = [g.entry]
        hit = False
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            if i == site.id:
                hit = True
                break
            n = g.nodes[i]
            if n.kind == 'call' and n.data[1][0] == 'fn' and n.data[1][1] in ('CCNerrorAction', 'CCNerrorPhase'):
                continue
            work.extend(n.succ)
        if not hit:
            return None
        env = {}
        i = site.id
        while len(pred.get(i, ())) == 1:
            i = pred[i][0]
            n = g.nodes[i]
            if n.kind == 'br':
                break
            if n.kind == 'asg' and self.isvar(n.data[0]) and n.data[0] not in env:
                v = n.data[1]
                env[n.data[0]] = self.ev(v, {}) if not (v[0] == 'bin' and v[1] == '+' and v[2] == n.data[0] and v[3] == ('int', 1)) else 'pos'
        return {k: v for k, v in env.items() if v is not None}

    def visits(self, t):
        """call sites that visit nodes inside traversal t: (function, node)"""
        for h, uses in self.handlers.items():
            if not any(x[0] == t for x in uses):
                continue
            f = self.P.resolve(None, h)
            if f is None:
                continue
            todo = [f] + [g for g in self.cg.reach(f) if g is not f and own(g) and g.name not in self.handlers]
            for g in todo:
                for n, c in self.cg.calls[g]:
                    if c and (c in ('TRAVchildren', 'TRAVopt', 'TRAVdo') or c in self.F.childvisit):
                        yield g, n

    def starts(self, t):
        num = None
        for k, v in self.P.enums['ccn_traversal_type']:
            if k == 'TRAV_' + t:
                num = v
        for f, n in self.cg.sites('TRAVstart'):
            if own(f) and n.data[2] and len(n.data[2]) > 1 and n.data[2][1] == ('int', num):
                yield f, n


def c14(R, P):
    R.rule('error-stops', 'every path from an error report (CTI_ERROR) reaches a call that stops the compilation or marks the '
           'action or phase as failed before the action that made the report ends normally')
    G = Gate(P)
    nrep = 0
    sites = []
    for f in P.all_funcs():
        if not own(f):
            continue
        for n, c in G.cg.calls[f]:
            if c in G.reporters and f.name not in ('CTI', 'CTIobj'):
                i = G.reporters[c]
                a = n.data[2][i] if len(n.data[2]) > i else None
                if a is not None and a[0] == 'int' and a[1] == G.err:
                    sites.append((f, n))
    # actions the phase driver runs: traversals (started on the ast node) and pass functions
    passes = set()
    tab = P.globals.get('ccn_pass_vtable')
    for x in (tab or {}).get('init', {}).get('elems', []):
        while x is not None and x['k'] in ('un', 'cast'):
            x = x['a']
        if x is not None and x['k'] == 'fn':
            passes.add(x['n'])
    if not passes:
        raise AnalysisBroken('pass table not found')
    memo = {}

    def escape(f, start, env, depth, trail):
        """trail of functions along which control leaves the action, or None"""
        res = G.walk(f, start, env)
        if not res:
            return None
        return leave(f, res, depth, trail + [f.name])

    def leave(f, res, depth, trail):
        for rv, genv in sorted(res, key=repr):
            k = (f, rv, genv)
            if k in memo:
                if memo[k] is not None and memo[k] != 'busy':
                    return trail + memo[k]
                continue
            memo[k] = 'busy'
            t = leave1(f, rv, dict(genv), depth, trail)
            memo[k] = t[len(trail):] if t is not None else None
            if t is not None:
                return t
        return None

    def behind(g, n, rv, genv, depth, trail):
        e = dict(genv)
        if n.data[0] is not None and rv is not None:
            e[n.data[0]] = rv
        for s in n.succ:
            t = escape(g, s, e, depth + 1, trail)
            if t is not None:
                return t
        return None

    def leave1(f, rv, genv, depth, trail):
        if depth > 1500:
            raise AnalysisBroken('error path too deep at %s' % f.name)
        if f.name in passes:
            return trail
        if f.name in G.handlers:
            for t, nt in G.handlers[f.name]:
                if nt == 'ast':
                    if not list(G.starts(t)):
                        return trail
                for g, n in G.visits(t):
                    if g is f and nt == 'ast':
                        continue
                    x = behind(g, n, None, genv, depth, trail)
                    if x is not None:
                        return x
                root = G.F.travs[t].get('ast')
                if root in (None, 'TRAVnop', 'TRAVchildren', 'TRAVerror') and not list(G.starts(t)):
                    return trail
                for g, n in G.starts(t):
                    x = behind(g, n, None, genv, depth, trail)
                    if x is not None:
                        return x
            return None
        callers = [(g, n) for g, n in G.cg.sites(f.name) if own(g) and P.resolve(g.tu, f.name) is f]
        for g, n in callers:
            x = behind(g, n, rv, genv, depth, trail)
            if x is not None:
                return x
        if not callers and f.name == 'main':
            return trail
        return None

    for f, n in sites:
        nrep += 1
        R.func(f)
        R.ob('error-stops', '%s:%d' % (f.name, n.line))
        env = G.before(f, n)
        if env is None:
            continue
        t = None
        for s in n.succ:
            t = escape(f, s, env, 0, [])
            if t is not None:
                break
        if t is not None:
            R.viol('error-stops', f.name, 'an error reported here does not stop the run: control leaves through %s' % ' > '.join(t[:8]), f, n.line)
    R.need('error-stops', 30)


# ------------------------------------------------------- must-report analysis
SEM = ('BST', 'CEX', 'NCT', 'USE', 'PRA', 'CHA', 'CPR', 'CLT', 'AITA', 'MITL', 'CSM')


def flat(ev):
    for e in ev:
        yield e
        if e[0] == 'loop':
            for b in e[1]:
                yield from flat(b)


def contexts(F, trav, root='ast'):
    """every path of every handler, with the chain of node types above it: (chain, Path)"""
    key = ('ctx', trav, root)
    if key not in F.cache:
        out = []
        seen = set()

        def go(paths, chain):
            for p in paths:
                c = chain + (p.type,)
                k = (c, id(p))
                if k in seen:
                    continue
                seen.add(k)
                out.append((c, p))
                for e in flat(p.ev):
                    if e[0] == 'list':
                        go(e[3], c)
        go(F.expand(trav, root), ())
        F.cache[key] = out
    return F.cache[key]


def fval(ntype, f):
    return ('fld', ('node', ntype), ntype + '.' + f)


def ev3(t, hook):
    """value of a term under assumptions, or None"""
    v = hook(t)
    if v is not None:
        return v
    if t[0] == 'c':
        return t[1]
    if t[0] == 'op':
        if t[1] == '!':
            x = ev3(t[2], hook)
            return None if x is None else int(not x)
        if len(t) == 4 and t[1] in ('==', '!='):
            a, b = ev3(t[2], hook), ev3(t[3], hook)
            if a is None or b is None:
                return None
            return int((a == b) == (t[1] == '=='))
        if len(t) == 4 and t[1] in ('&', '|'):
            a, b = ev3(t[2], hook), ev3(t[3], hook)
            if a is None or b is None:
                return None
            return a & b if t[1] == '&' else a | b
    return None


def consistent(p, hook):
    for e in p.ev:
        if e[0] == 'if':
            v = ev3(e[1], hook)
            if v is not None and bool(v) != e[2]:
                return False
    return True


def reports(p, err=3):
    return any(e[0] == 'cti' and e[1] == err for e in p.ev)


def lookups(p):
    """(table, key) of every symbol table lookup on a path"""
    r = []

    def terms(t):
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] == 'call' and t[1] == 'STlookup':
                r.append((t[3][0], t[3][1]))
            for x in t:
                terms(x)
    for e in p.ev:
        if e[0] in ('if', 'set', 'gset'):
            terms(e[1:])
    return r


def islookup(t, key):
    return len(t) == 4 and t[0] == 'call' and t[1] == 'STlookup' and t[3][1] == key


class Hook:
    """assumptions: lookups of given keys find (kind) / do not find; fields have given values"""
    def __init__(self, F, found=None, kinds=None, fields=None, default=None):
        self.found = found or {}       # key term -> bool
        self.kinds = kinds or {}       # key term -> number of the node type found
        self.fields = fields or {}
        self.default = default         # for lookups of other keys
        self.types = dict((v, k) for k, v in F.ntnum.items())

    def __call__(self, t):
        if t in self.fields:
            return self.fields[t]
        if t[0] == 'call' and len(t) == 4 and t[1] == 'STlookup':
            k = t[3][1]
            if k in self.found:
                return int(self.found[k])
            return self.default
        if t[0] == 'fld' and t[2] == 'nodetype':
            b = t[1]
            if b[0] == 'call' and len(b) == 4 and b[1] == 'STlookup' and b[3][1] in self.kinds:
                return self.types.get(self.kinds[b[3][1]])
            if b[0] == 'node':
                return self.types.get(b[1])
        return None


# ------------------------------------------------------------------------ C17
KINDS = ('iphase', 'itraversal', 'ipass', 'inode', 'inodeset', 'ienum')
REFS = [
    # element, field holding the reference, kinds it may name, guard, chain of containers, classification (field, {kind: enumerator})
    ('child', 'type_reference', ('inode', 'inodeset'), {}, [('inode',)], ('type', {'inode': 'CT_inode', 'inodeset': 'CT_inodeset'})),
    ('attribute', 'type_reference', ('inode', 'inodeset', 'ienum'), {'type': 'AT_link_or_enum'}, [('inode',), ('inodeset',)],
     ('type', {'inode': 'AT_link', 'inodeset': 'AT_link', 'ienum': 'AT_link_or_enum'})),
    ('itravdata', 'type_reference', ('inode', 'inodeset', 'ienum'), {'type': 'AT_link_or_enum'}, [('itraversal',)],
     ('type', {'inode': 'AT_link', 'inodeset': 'AT_link', 'ienum': 'AT_link_or_enum'})),
    ('setliteral', 'reference', ('inode',), {}, [('inodeset',), ('itraversal',)], None),
    ('setreference', 'reference', ('inodeset',), {}, [('inodeset',), ('itraversal',)], None),
    ('iactions', 'reference', ('iphase', 'itraversal', 'ipass'), {}, [('iphase',)], None),
]


def enumval(P, n):
    if n not in P.enum_of:
        raise AnalysisBroken('enumerator %s not found' % n)
    return P.enum_of[n][1]


def under(chain, above, nt):
    """the chain ends in nt below the containers `above` (other nodes of an expression may lie between)"""
    return chain[-1] == nt and all(a in chain for a in above)


def c17(R, P):
    R.rule('resolve', 'a reference whose name is not defined, or is defined as something else than a reference at that place may name, '
           'is reported as an error on every path')
    R.rule('accept', 'a reference to something that exists and is of an allowed kind is not reported')
    R.rule('classify', 'the kind recorded for a resolved reference is the kind of what it names')
    R.rule('table', 'names are looked up in the table of all top level names')
    F = frontend(P)
    stable = fval('ast', 'stable')
    for nt, f, kinds, guard, containers, cls in REFS:
        key = fval(nt, f)
        if f not in F.meta.child.get(nt, {}):
            raise AnalysisBroken('meta AST: %s has no child %s' % (nt, f))
        gfields = {fval(nt, k): enumval(P, v) for k, v in guard.items()}
        cands = {}
        for t in SEM:
            for above in containers:
                ps = [p for c, p in contexts(F, t) if under(c, above, nt)]
                ps = [p for p in ps if not any(e[0] in ('broken', 'rec') for e in p.ev)]
                if any(islookupkey(p, key) for p in ps):
                    cands.setdefault(above, []).append((t, ps))
        for above in containers:
            inst = '%s.%s in %s' % (nt, f, above[0])
            tt = cands.get(above, [])
            R.ob('resolve', inst)
            if not tt:
                R.viol('resolve', inst, 'no check looks up the name %s.%s below %s' % (nt, f, above[0]))
                continue
            ok, why, best = False, None, None
            for t, ps in tt:
                bad = None
                for k in [None] + [k for k in KINDS if k not in kinds]:
                    h = Hook(F, {key: k is not None}, {key: k} if k else {}, gfields)
                    for p in ps:
                        if consistent(p, h) and not reports(p):
                            bad = bad or ('%s: a %s.%s that %s is not reported' % (t, nt, f, 'names nothing' if k is None else 'names a ' + k))
                if bad is None:
                    ok, best = True, (t, ps)
                    break
                why = why or (bad, t)
            hf = lambda t: P.resolve(None, F.handler(t, nt) or '') if F.handler(t, nt) else None
            if not ok:
                R.viol('resolve', inst, why[0], hf(why[1]))
                continue
            t, ps = best
            fn = hf(t)
            if fn is not None:
                R.func(fn)
            for k in kinds:
                R.ob('accept', '%s as %s' % (inst, k))
                h = Hook(F, {key: True}, {key: k}, gfields, default=0)
                good = [p for p in ps if consistent(p, h)]
                if good and all(reports(p) for p in good):
                    R.viol('accept', inst, '%s: a %s.%s that names an existing %s is always reported' % (t, nt, f, k), fn)
                if cls and not all(reports(p) for p in good):
                    R.ob('classify', '%s as %s' % (inst, k))
                    label, want = nt + '.' + cls[0], enumval(P, cls[1][k])
                    for p in good:
                        if reports(p):
                            continue
                        sets = [e[3] for e in p.ev if e[0] == 'set' and e[1] == ('node', nt) and e[2] == label]
                        got = sets[-1] if sets else ('c', gfields[fval(nt, cls[0])]) if fval(nt, cls[0]) in gfields else None
                        if got is None or got[0] == 'c' and got[1] != want:
                            R.viol('classify', inst, '%s: %s of a %s.%s that names a %s is %s, not %s' % (
                                t, cls[0], nt, f, k, 'not recorded' if got is None else 'recorded as %s' % [n for n, (e, v) in P.enum_of.items() if v == got[1] and n.startswith(cls[1][k][:3])][:1], cls[1][k]), fn)
            R.ob('table', inst)
            for p in ps:
                for tab, kk in lookups(p):
                    if kk == key and tab[0] == 'fld' and tab != stable and tab[2] != 'ast.stable':
                        if known_table(F, t, tab) is False:
                            R.viol('table', inst, '%s looks %s.%s up in %s, which is not the table of all names' % (t, nt, f, tab[2]), fn)
    R.need('resolve', 8)


def islookupkey(p, key):
    return any(k == key for _, k in lookups(p))


def known_table(F, trav, tab):
    """True: a file scope variable that only ever holds ast.stable; False: it is given other tables; None: unknown"""
    if tab[1] != ('G',):
        return None
    for c, p in contexts(F, trav):
        for e in p.ev:
            if e[0] == 'gset' and e[1] == tab[2] and e[2] != ('c', 0):
                if e[2] != fval('ast', 'stable'):
                    return False
    return None


# ------------------------------------------------------------------------ C16
NAMES = [
    # element, field, group (names of one group must differ), containers above it, scope (None: whole specification)
    ('iphase', 'name', 'top', (), None), ('iphase', 'iprefix', 'top', (), None),
    ('itraversal', 'name', 'top', (), None), ('itraversal', 'iprefix', 'top', (), None),
    ('ipass', 'name', 'top', (), None), ('ipass', 'iprefix', 'top', (), None),
    ('inode', 'name', 'top', (), None), ('inodeset', 'name', 'top', (), None), ('ienum', 'name', 'top', (), None),
    ('ipass', 'target_func', 'passfunc', (), None),
    ('ienum', 'iprefix', 'enumprefix', (), None),
    ('child', 'name', 'member', ('inode',), 'inode'), ('attribute', 'name', 'member', ('inode',), 'inode'),
    ('attribute', 'name', 'setmember', ('inodeset',), 'inodeset'),
    ('itravdata', 'name', 'travdata', ('itraversal',), 'itraversal'),
]


def registers(F, p, tab, key, nt):
    """None: the path does not enter key into table tab; else the value entered (or a reason string when only half done)"""
    news = {}
    raw, tab = tab, home(p, tab)
    for e in p.ev:
        if e[0] == 'call' and e[1] == ('fn', 'STadd') and len(e[2]) == 3 and e[2][1] == key:
            for g in p.ev:
                if e[2][0] != ('c', 0) and g[0] == 'gset' and g[2] == e[4] and (('fld', ('G',), g[1]) == tab or g[1] == name_of(tab)):
                    return e[2][2] if e[2][0] == raw else 'the new entry does not extend the old table'
            if e[2][0] == ('c', 0):
                news[e[4]] = e[2][2]
                if raw != ('c', 0) and any(g[0] == 'gset' and ('fld', ('G',), g[1]) == tab and g[2] == e[4] for g in p.ev) and \
                   not any(x[0] == 'if' and noglob(x[1]) == tab and not x[2] for x in p.ev):
                    return 'the new entry replaces the old table'
        if e[0] == 'set' and e[2] == 'ste.key' and e[3] == key:
            news[e[1]] = None
    for n in news:
        val = [e[3] for e in p.ev if e[0] == 'set' and e[1] == n and e[2] == 'ste.value'] or ([news[n]] if news[n] else [])
        linked = any(e[0] == 'gset' and e[2] == n and ('fld', ('G',), e[1]) == tab for e in p.ev) or \
            any(e[0] == 'set' and e[2] == 'ste.next' and e[3] == n for e in p.ev) or \
            any(e[0] == 'set' and e[1] == n and e[2] == 'ste.next' for e in p.ev)
        for e in p.ev:
            if e[0] == 'if' and not e[2] and e[1][0] == 'fld' and e[1][1] == ('G',) and e[1] != tab and \
               any(x[0] == 'if' and x[1] == tab and x[2] for x in p.ev) and any(g[0] == 'gset' and ('fld', ('G',), g[1]) == e[1] and g[2] == n for g in p.ev):
                return ('skip',)       # a table that is not empty has a last entry
        empty = raw == tab and any(e[0] == 'if' and e[1] == tab and not e[2] for e in p.ev)
        if empty and not any(e[0] == 'gset' and ('fld', ('G',), e[1]) == tab and e[2] == n for e in p.ev):
            return 'the first entry does not become the table'
        for e in p.ev:
            if e[0] == 'set' and e[2] == 'ste.next' and e[3] == n and e[1][0] == 'fld' and e[1][1] == ('G',) and e[1] != tab:
                if not any(g[0] == 'gset' and ('fld', ('G',), g[1]) == e[1] and g[2] == n for g in p.ev):
                    return 'the new entry does not become the last one'
        if linked and val:
            return val[-1]
    return None


def home(p, tab):
    """the variable a table is kept in"""
    if tab[0] != 'fld':
        for e in p.ev:
            if e[0] == 'gset' and e[2] == tab:
                r = ('fld', ('G',), e[1])
                if any(x[0] == 'if' and any(t == r for t in sub(x[1])) for x in p.ev):
                    return r
    return noglob(tab)


def sub(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from sub(x)


def name_of(t):
    from emit import name
    return name(t) if t[0] == 'fld' else None


def c16(R, P):
    R.rule('duplicate', 'a name already in use in its name space is reported as an error on every path')
    R.rule('register', 'a name that is new is entered into the table the later lookups use')
    R.rule('fresh', 'a name that is new is not reported')
    R.rule('space', 'all names of one name space share one table, which starts empty for each scope and is kept within it')
    R.rule('case', 'two names are the same when they differ only in case')
    F = frontend(P)
    groups = {}
    for nt, f, grp, above, scope in NAMES:
        key = fval(nt, f)
        if f not in F.meta.child.get(nt, {}):
            raise AnalysisBroken('meta AST: %s has no child %s' % (nt, f))
        inst = '%s.%s%s' % (nt, f, ' in ' + above[0] if above else '')
        R.ob('duplicate', inst)
        found = []
        for t in SEM:
            ps = [p for c, p in contexts(F, t) if under(c, above, nt) and not any(e[0] in ('broken', 'rec') for e in p.ev)]
            # a check for duplicates: there is a path that enters the name
            if any(key in (k for _, k in lookups(p)) for p in ps) and any(registers(F, p, tab, key, nt) is not None for p in ps for tab, k in lookups(p) if k == key):
                found.append((t, ps))
        if not found:
            R.viol('duplicate', inst, 'no check compares %s with the names in use before entering it' % inst)
            continue
        good = None
        why = None
        for t, ps in found:
            bad = None
            h = Hook(F, {key: True}, {}, {key: 1})
            for p in ps:
                if consistent(p, h) and not reports(p):
                    bad = '%s: a %s that is already in use is not reported' % (t, inst)
            if bad is None:
                good = (t, ps)
                break
            why = why or (bad, t)
        if good is None:
            R.viol('duplicate', inst, why[0], P.resolve(None, F.handler(why[1], nt)))
            continue
        t, ps = good
        fn = P.resolve(None, F.handler(t, nt) or '')
        if fn is not None:
            R.func(fn)
        R.ob('register', inst)
        R.ob('fresh', inst)
        h = Hook(F, {key: False}, {}, {key: 1})
        for p in ps:
            if not consistent(p, h) or contradictory(p, key):
                continue
            tabs = set(tab for tab, k in lookups(p) if k == key)
            if not tabs and reports(p):
                continue
            tab = sorted(tabs, key=repr)[0] if tabs else None
            groups.setdefault(grp, {}).setdefault(home(p, tab) if tab else None, []).append((inst, fn, nt, t))
            v = registers(F, p, tab, key, nt) if tab else None
            if v == ('skip',):
                continue
            if v is None or isinstance(v, str):
                if reports(p) and v is None:
                    continue
                R.viol('register', inst, '%s: a new %s is not entered into the table of names (%s)' % (t, inst, v or 'no entry'), fn)
            elif grp == 'top' and v != ('node', nt):
                R.viol('register', inst, '%s: the name %s is entered for something else than its %s' % (t, inst, nt), fn)
        h = Hook(F, {key: False}, {}, {key: 1}, default=0)
        okp = [p for p in ps if consistent(p, h)]
        if okp and all(reports(p) for p in okp) and f != 'type_reference':
            other = [fval(nt, g) for g in F.meta.child[nt] if g != f]
            hs = [Hook(F, dict([(key, False)] + [(o, True) for o in other]), {o: k for o in other}, {key: 1}) for k in KINDS]
            okp = [[p for p in ps if consistent(p, x)] for x in hs]
            if all(x and all(reports(p) for p in x) for x in okp):
                R.viol('fresh', inst, '%s: a new %s is always reported' % (t, inst), fn)
    for grp, tabs in groups.items():
        R.ob('space', grp)
        real = [x for x in tabs if x is not None]
        if len(real) > 1:
            small = min(real, key=lambda x: len(tabs[x]))
            i, fn, nt, t = tabs[small][0]
            R.viol('space', grp, '%s is compared with another table (%s) than the other names of its name space' % (i, small[2] if small[0] == 'fld' else small), fn)
        if grp == 'top' and len(real) == 1:
            tab = real[0]
            t = tabs[tab][0][3]
            put = [p for c, p in contexts(F, t) if c == ('ast',)]
            sets = [e for p in put for e in p.ev if e[0] == 'set' and e[2] == 'ast.stable']
            if put and tab[0] == 'fld' and tab[1] == ('G',) and not any(noglob(e[3]) == tab for e in sets):
                R.viol('space', grp, 'the table the names are entered into does not become the table of the specification')
        scope = [s for a, b, g, c, s in NAMES if g == grp and s]
        if scope and len(real) == 1:
            scoping(R, F, P, grp, scope[0], real[0], tabs[real[0]][0][3])
    casing(R, P, F)
    stadd(R, P, F)
    R.need('duplicate', 12)


def noglob(t):
    if t[0] == 'fld' and len(t) > 3:
        return t[:3]
    return t


def contradictory(p, key):
    """the path assumes the name absent"""
    return any(e[0] == 'if' and e[1] == key and not e[2] for e in p.ev)


def scoping(R, F, P, grp, scope, tab, t):
    """the table of members is emptied between two scopes and not within one"""
    if tab[0] != 'fld' or tab[1] != ('G',):
        return
    elems = [a for a, b, g, c, s in NAMES if g == grp]
    fn = P.resolve(None, F.handler(t, scope) or '')
    for c, p in contexts(F, t):
        if c[-1] != scope or len(c) != 2 or any(e[0] in ('broken', 'rec') for e in p.ev):
            continue
        idx = [i for i, e in enumerate(p.ev) if e[0] == 'list' and e[2] in elems]
        if not idx:
            continue
        nxt = [i for i, e in enumerate(p.ev) if e[0] == 'next']
        state = []     # positions where the table is known empty
        for i, e in enumerate(p.ev):
            if e[0] == 'gset' and e[1] == tab[2]:
                if e[2] == ('c', 0):
                    state.append(i)
            if e[0] == 'if' and e[1] == tab and not e[2]:
                state.append(i)
        R.ob('space', '%s of %s' % (grp, scope))
        inside = [i for i in state if idx[0] < i < idx[-1] and p.ev[i][0] == 'gset']
        if inside:
            R.viol('space', grp, 'the names of one %s are forgotten before all its members are compared' % scope, fn)
        before = any(i < idx[0] for i in state)
        after = any(i > idx[-1] and (not nxt or i < nxt[0]) for i in state)
        if nxt and not before and not after and nxt[0] > idx[-1]:
            R.viol('space', grp, 'the names of one %s stay in use in the next one' % scope, fn)
        if nxt and nxt[0] < idx[0] and not before:
            R.viol('space', grp, 'the names of one %s stay in use in another one' % scope, fn)


def casing(R, P, F):
    """STlookup compares lower case spellings; identifiers carry the lower case spelling of their text"""
    f = P.need('STlookup')
    R.ob('case', 'STlookup')
    R.func(f)
    t, k = ('phi', 'par', 't'), ('phi', 'par', 'k')
    old, F.cur = F.cur, None
    try:
        ps = F.raw_paths(f, [t, k], {}, (), True)
    finally:
        F.cur = old
    hits = []
    for p in ps:
        ev = list(flat(p.ev))
        if p.ret is None or p.ret == ('c', 0):
            continue
        eqs = [e[1] for e in ev if e[0] == 'if' and e[2] and e[1][0] == 'call' and e[1][1] in ('STReq', 'STReqci')]
        neq = [e[1] for e in ev if e[0] == 'if' and not e[2] and e[1][0] == 'call' and e[1][1] == 'strcmp']
        hits.append((p, eqs + neq))
        if not eqs + neq:
            R.viol('case', 'STlookup', 'an entry is returned without comparing its key', f)
        for q in eqs + neq:
            flds = [x[2] for x in q[3] if x[0] == 'fld']
            if q[1] != 'STReqci' and flds and (len(flds) != 2 or not all(x == 'id.lwr' for x in flds) and not all(x == 'id.upr' for x in flds)):
                R.viol('case', 'STlookup', 'keys are compared by %s, which distinguishes case' % ' and '.join(flds), f)
            if p.ret[0] == 'fld' and p.ret[2] == 'ste.value':
                cur = p.ret[1]
                if not any(x[0] == 'fld' and x[1][0] == 'fld' and x[1][2] == 'ste.key' and x[1][1] == cur for x in q[3]):
                    R.viol('case', 'STlookup', 'the value returned belongs to another entry than the key compared', f)
            elif p.ret[0] == 'fld' and p.ret[2] != 'ste.value':
                R.viol('case', 'STlookup', 'the lookup returns %s instead of the value of the entry' % p.ret[2], f)
    if not hits:
        R.viol('case', 'STlookup', 'no path finds an entry', f)


# ------------------------------------------------------------------------ C35
def illegal(P):
    types = [n for n, v in P.enums.get('attribute_type', [])]
    if 'AT_link' not in types or 'AT_string' not in types:
        raise AnalysisBroken('enumeration attribute_type not found')
    A = 'attribute'
    L = [
        (A, ('inode',), {'attribute.is_inherited': 1, 'inode.is_root': 1}, 'an inherited attribute of the root node'),
        (A, ('inodeset',), {'attribute.in_constructor': 1, 'attribute.is_propagated': 0}, 'a nodeset attribute in the constructor'),
        ('inodeset', ('ast',), {'inodeset.illegal_setexpr_attr': 1, 'inodeset.iattributes': 1}, 'a nodeset with attributes that is built by intersection or difference'),
        ('ilifetime', ('inode',), {'ilifetime.type': 'LT_mandatory'}, 'a mandatory lifetime of a node'),
        ('ilifetime', ('inode',), {'ilifetime.type': 'LT_optional'}, 'an optional lifetime of a node'),
    ]
    for a in ('is_inherited', 'is_synthesized'):
        w = a[3:]
        L.append((A, ('inode',), {'attribute.in_constructor': 1, A + '.' + a: 1, 'attribute.is_propagated': 0}, 'a constructor argument that is %s' % w))
        for c in ('inode', 'inodeset'):
            L.append((A, (c,), {'attribute.lifetimes': 1, A + '.' + a: 1, 'attribute.is_propagated': 0}, 'a lifetime of an attribute of a %s that is %s' % (c, w)))
    for t in types:
        if t not in ('AT_link', 'AT_string') and P.enum_of[t][1] != 0:
            L.append((A, ('inode',), {'attribute.lifetimes': 1, 'attribute.type': t}, 'a lifetime of an attribute of type %s' % t))
    ok = [
        (A, ('inode',), {'attribute.is_inherited': 1, 'attribute.is_synthesized': 0, 'inode.is_root': 0, 'attribute.in_constructor': 0, 'attribute.lifetimes': 0}, 'an inherited attribute of a node that is not the root'),
        (A, ('inode',), {'attribute.is_inherited': 0, 'attribute.is_synthesized': 1, 'attribute.in_constructor': 0, 'attribute.lifetimes': 0}, 'a synthesized attribute'),
        (A, ('inode',), {'attribute.is_inherited': 0, 'attribute.is_synthesized': 0, 'attribute.in_constructor': 1, 'attribute.lifetimes': 0}, 'an attribute in the constructor'),
        (A, ('inode',), {'attribute.is_inherited': 0, 'attribute.is_synthesized': 0, 'attribute.lifetimes': 1, 'attribute.type': 'AT_link'}, 'a lifetime of a node attribute'),
        (A, ('inode',), {'attribute.is_inherited': 0, 'attribute.is_synthesized': 0, 'attribute.lifetimes': 1, 'attribute.type': 'AT_string'}, 'a lifetime of a string attribute'),
        (A, ('inodeset',), {'attribute.is_inherited': 0, 'attribute.is_synthesized': 0, 'attribute.lifetimes': 0, 'attribute.in_constructor': 0}, 'an attribute of a nodeset'),
        ('inodeset', ('ast',), {'inodeset.illegal_setexpr_attr': 0, 'inodeset.iattributes': 1}, 'a nodeset with attributes built by union'),
        ('inodeset', ('ast',), {'inodeset.illegal_setexpr_attr': 1, 'inodeset.iattributes': 0}, 'a nodeset without attributes built by intersection'),
        ('ilifetime', ('inode',), {'ilifetime.type': 'LT_disallowed'}, 'a disallowed lifetime of a node'),
        ('ilifetime', ('inode',), {'ilifetime.type': 'LT_allowed'}, 'an allowed lifetime of a node'),
        ('ilifetime', ('inode', 'child'), {'ilifetime.type': 'LT_mandatory'}, 'a mandatory lifetime of a child'),
        ('ilifetime', ('inode', 'child'), {'ilifetime.type': 'LT_optional'}, 'an optional lifetime of a child'),
        ('ilifetime', ('inode', 'attribute'), {'ilifetime.type': 'LT_mandatory'}, 'a mandatory lifetime of an attribute'),
    ]
    return L, ok


def fields(P, d):
    r = {}
    for k, v in d.items():
        n, f = k.split('.')
        r[fval(n, f)] = enumval(P, v) if isinstance(v, str) else v
    return r


def select(F, t, above, nt):
    return [p for c, p in contexts(F, t) if c[-1] == nt and c[-1 - len(above):-1] == tuple(above) and not any(e[0] in ('broken', 'rec') for e in p.ev)]


def c35(R, P):
    R.rule('illegal', 'a declaration that is not allowed is reported as an error on every path')
    R.rule('legal', 'an allowed declaration is not reported')
    R.rule('once', 'a second root node or start phase, and the absence of one, is reported; the first one is recorded')
    R.rule('operator', 'a nodeset built by intersection or difference is marked, one built by union is not')
    R.rule('reserved', 'a name that collides with the names of generated code is reported')
    F = frontend(P)
    ill, leg = illegal(P)
    for nt, above, cond, text in ill:
        for k in cond:
            n, f = k.split('.')
            if f not in F.meta.child.get(n, {}) and f not in F.meta.attr.get(n, {}):
                raise AnalysisBroken('meta AST: no %s' % k)
        h = Hook(F, {}, {}, fields(P, cond))
        R.ob('illegal', text)
        ok, near = False, None
        for t in SEM:
            ps = [p for p in select(F, t, above, nt) if consistent(p, h)]
            if ps and all(reports(p) for p in ps):
                ok = True
                fn = P.resolve(None, F.handler(t, nt) or '')
                if fn is not None:
                    R.func(fn)
                break
            if any(reports(p) for p in select(F, t, above, nt)):
                near = near or t
        if not ok:
            fn = P.resolve(None, F.handler(near, nt) or '') if near else None
            R.viol('illegal', text, '%s is not reported on every path' % text, fn)
    for nt, above, cond, text in leg:
        h = Hook(F, {}, {}, fields(P, cond), default=0)
        R.ob('legal', text)
        for t in ('NCT', 'USE', 'CHA', 'CLT', 'MITL', 'CSM'):
            ps = [p for p in select(F, t, above, nt) if consistent(p, h)]
            if ps and all(reports(p) for p in ps):
                R.viol('legal', text, '%s: %s is always reported as an error' % (t, text), P.resolve(None, F.handler(t, nt) or ''))
    once(R, P, F)
    operators(R, P, F)
    reserved(R, P, F)
    R.need('illegal', 12)


def once(R, P, F):
    for nt, flag, slot, what in (('inode', 'is_root', 'root_node', 'root node'), ('iphase', 'is_start', 'start_phase', 'start phase')):
        done = None
        for t in SEM:
            ps = select(F, t, ('ast',), nt)
            h = Hook(F, {}, {}, {fval(nt, flag): 1})
            ps = [p for p in ps if consistent(p, h)]
            rec = [p for p in ps if any(e[0] == 'set' and e[2] == 'ast.' + slot and e[3] == ('node', nt) for e in p.ev)]
            if rec:
                done = (t, ps, rec)
                break
        R.ob('once', what)
        if not done:
            R.viol('once', what, 'the %s is not recorded' % what)
            continue
        t, ps, rec = done
        fn = P.resolve(None, F.handler(t, nt))
        R.func(fn)
        # the condition that tells the first from the second: a variable the recording path found unset and sets
        marks = []
        for p in rec:
            for e in p.ev:
                if e[0] == 'if' and not e[2]:
                    v = e[1]
                    if any(g[0] == 'gset' and ('fld', ('G',), g[1]) == v and g[2] != ('c', 0) for g in p.ev):
                        marks.append(v)
                    if v[0] == 'fld' and v[2] == 'ast.' + slot:
                        marks.append(v)
        if all(reports(p) for p in rec):
            R.viol('once', what, 'recording the %s is reported as an error' % what, fn)
        if not marks:
            R.viol('once', what, 'a second %s is not told from the first' % what, fn)
            continue
        for m in set(marks):
            hm = Hook(F, {}, {}, {fval(nt, flag): 1, m: 1})
            for p in ps:
                if consistent(p, hm) and not reports(p):
                    R.viol('once', what, 'a second %s is not reported' % what, fn)
        for p in select(F, t, ('ast',), nt):
            if consistent(p, Hook(F, {}, {}, {fval(nt, flag): 0})) and any(e[0] == 'set' and e[2] == 'ast.' + slot for e in p.ev):
                R.viol('once', what, 'something that is not marked as %s is recorded as such' % what, fn)
        R.ob('once', 'no ' + what)
        marks += [('fld', ('G',), e[1]) for p in rec for e in p.ev if e[0] == 'gset' and e[2] not in (('c', 0), ('node', nt)) and e[2][0] == 'c']
        miss = False
        for t2 in SEM:
            for c, p in contexts(F, t2):
                if c != ('ast',):
                    continue
                vals = {m: 0 for m in set(marks)}
                vals[fval('ast', slot)] = 0
                hh = Hook(F, {}, {}, vals)

                def loose(x, hh=hh, vals=vals):
                    y = x[:3] if x[0] == 'fld' and len(x) > 3 else x
                    return hh(y)
                tested = any(e[0] == 'if' and any((x[:3] if x[0] == 'fld' else x) in vals for x in sub(e[1]) if x and x[0] == 'fld') for e in p.ev)
                if tested and consistent(p, loose) and reports(p):
                    miss = True
        if not miss:
            R.viol('once', 'no ' + what, 'a specification without %s is not reported' % what)


def operators(R, P, F):
    lab = 'inodeset.illegal_setexpr_attr'
    found = False
    for t in SEM:
        ps = [p for c, p in contexts(F, t) if c[-1] == 'setoperation' and 'inodeset' in c and not any(e[0] in ('broken', 'rec') for e in p.ev)]
        if not any(e[0] in ('set', 'gset') and (e[2] == lab or str(e[1]).endswith(lab)) for p in ps for e in p.ev):
            continue
        found = True
        fn = P.resolve(None, F.handler(t, 'setoperation') or '')
        for op, want in (('SO_intersect', True), ('SO_difference', True), ('SO_iunion', False)):
            R.ob('operator', op)
            h = Hook(F, {}, {}, {fval('setoperation', 'type'): enumval(P, op)})
            for p in ps:
                if consistent(p, h):
                    w = [e[3] if e[0] == 'set' else e[2] for e in p.ev if e[0] == 'set' and e[2] == lab or e[0] == 'gset' and str(e[1]).endswith(lab)]
                    if want and (not w or w[-1] == ('c', 0)):
                        R.viol('operator', op, 'a nodeset built with %s is not marked' % op, fn)
                    if not want and any(x != ('c', 0) for x in w):
                        R.viol('operator', op, 'a nodeset built with %s is marked' % op, fn)
    if not found:
        R.ob('operator', 'SO_intersect')
        R.viol('operator', 'SO_intersect', 'a nodeset built by intersection or difference is never marked')


RESERVED = [('iphase', 'iprefix', ('TRAV', 'CCN', 'PASS')), ('itraversal', 'iprefix', ('TRAV', 'CCN', 'PASS', 'CPY', 'CHK', 'DEL')),
            ('ipass', 'iprefix', ('TRAV', 'CCN', 'PASS')), ('ienum', 'iprefix', ('NT', 'NS', 'TRAV', 'PASS', 'CCN'))]


def equal_to(t, key):
    """t compares the upper case spelling of key with something: (constants, index term)"""
    if not (t[0] == 'call' and len(t) == 4 and t[1] in ('STReq', 'STReqci', 'strcmp')):
        return None
    me = [a for a in t[3] if a[0] == 'fld' and a[1][:3] == key and (a[2] == 'id.upr' or t[1] == 'STReqci')]
    other = [a for a in t[3] if a not in me]
    if len(me) != 1 or len(other) != 1:
        return None
    return other[0]


def excluded(p, key):
    """words the identifier key is known to differ from behind a path that reports nothing"""
    out = set()

    def eq(e):
        o = equal_to(e[1], key) if e[0] == 'if' else None
        return (o, e[2] == (e[1][1] != 'strcmp')) if o is not None else None
    for i, e in enumerate(p.ev):
        q = eq(e)
        if q and not q[1]:
            out |= strings(q[0]) if q[0][0] == 's' else set()
        if e[0] != 'loop':
            continue
        words, n = None, None
        for b in e[1]:
            mine = None
            for x in b:
                q = eq(x)
                if q:
                    mine = q
                if x[0] == 'if' and x[2] and x[1][0] == 'op' and x[1][1] in ('<', '!=') and x[1][3][0] == 'c':
                    n = x[1]
            if mine is None:
                words = set()
                break
            if mine[1] and not any(x[0] == 'cti' and x[1] == 3 for x in b):
                words = set()
                break
            w = mine[0]
            if w[0] == 'pick' and w[1][0] == 'arr':
                el = list(w[1][1])
                if n is not None and w[2] == n[2]:
                    el = el[:n[3][1]]
                    start = [v for k, v in (e[2] if len(e) > 2 else ()) if k == n[2]]
                    if start and start[0][0] == 'c':
                        el = el[start[0][1]:]
                ws = set().union(*[strings(x) for x in el]) if el else set()
            else:
                ws = strings(w)
            words = ws if words is None else words & ws
        full = n is None or any(x[0] == 'if' and x[1] == n and not x[2] for x in p.ev[i + 1:])
        if words and full:
            out |= words
    return out


def reserved(R, P, F):
    for nt, f, words in RESERVED:
        key = fval(nt, f)
        inst = '%s.%s' % (nt, f)
        R.ob('reserved', inst)
        best, near = None, None
        for t in SEM:
            miss = set()
            ps = [p for p in select(F, t, ('ast',), nt) if consistent(p, Hook(F, {}, {}, {key: 1})) and not contradictory(p, key)]
            for p in ps:
                if not reports(p):
                    miss |= set(words) - excluded(p, key)
            if ps and (best is None or len(miss) < len(best)):
                best, near = miss, t
        fn = P.resolve(None, F.handler(near, nt) or '') if near else None
        for w in sorted(set(words) if best is None else best):
            R.viol('reserved', inst, '%s is not refused as %s of %s on every path' % (w, f, nt), fn)
    R.ob('reserved', 'inode.name')
    ok = False
    for t in SEM:
        ps = select(F, t, ('ast',), 'inode')
        h = lambda x: 1 if x[0] == 'call' and x[1] in ('STReq', 'STReqci') and len(x) == 4 and ('s', 'node') in x[3] and any(a[0] == 'fld' and a[1][:3] == fval('inode', 'name') and (a[2] == 'id.lwr' or x[1] == 'STReqci') for a in x[3]) else None
        q = [p for p in ps if any(h(e[1]) for e in p.ev if e[0] == 'if')]
        if q and all(reports(p) for p in ps if consistent(p, h)):
            ok = True
    if not ok:
        R.viol('reserved', 'inode.name', "a node called 'node' is not reported")


def strings(a):
    r = set()
    if a[0] == 's':
        r.add(a[1])
    elif a[0] in ('pick', 'arr') or a[0] == 'fld' or a[0] == 'tuple':
        for x in a[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], tuple):
                    for y in x:
                        r |= strings(y) if y and isinstance(y[0], str) else set()
                elif x:
                    r |= strings(x)
    return r


def stadd(R, P, F):
    f = P.need('STadd')
    R.ob('register', 'STadd')
    R.func(f)
    t, k, v = (('phi', 'par', x) for x in 'tkv')
    old, F.cur = F.cur, None
    try:
        ps = F.raw_paths(f, [t, k, v], {}, (), True)
    finally:
        F.cur = old
    for p in ps:
        n = p.ret
        if any(e[0] in ('broken', 'loop') for e in p.ev):
            continue
        ok = any(e[0] == 'call' and e[4] == n and e[1] == ('fn', 'ASTste') for e in p.ev if len(e) > 4)
        if not ok:
            R.viol('register', 'STadd', 'the result is not a new entry', f)
            continue
        got = {}
        for e in p.ev:
            if e[0] == 'set' and e[1] == n:
                got[e[2]] = e[3]
        if got.get('ste.key') != k or got.get('ste.value') != v:
            R.viol('register', 'STadd', 'the new entry does not hold the given name and what it stands for', f)
        if got.get('ste.next') != t and not any(e[0] == 'if' and e[1] == t and not e[2] for e in p.ev):
            R.viol('register', 'STadd', 'the entries added before are lost', f)


# ------------------------------------------------------------------------ C18
# which lists and children of which elements each check has to work through
REACH = {
    'BST': 'ast: iphases itraversals ipasses inodes inodesets enums; iphase: next; itraversal: next; ipass: next; inode: next; inodeset: next; ienum: next',
    'CEX': 'ast: iphases itraversals ipasses inodes inodesets enums; iphase: next iactions; iactions: next; itraversal: next inodes data; itravdata: next; ipass: next; '
           'inode: next ichildren iattributes; child: next; attribute: next; inodeset: next expr iattributes; setoperation: left right; setliteral: left right; ienum: next',
    'NCT': 'ast: inodesets; inodeset: next; setoperation: left right',
    'USE': 'ast: inodesets itraversals; inodeset: next expr; itraversal: next inodes; setoperation: left right',
    'PRA': 'ast: inodesets; inodeset: next expr; setoperation: left right; setliteral: left right',
    'CHA': 'ast: inodes inodesets; inode: next iattributes; inodeset: next iattributes; attribute: next',
    'CPR': 'ast: inodes; inode: next ichildren iattributes iequations; child: next; attribute: next; equation: next iargs; equation_dependency: next',
    'CLT': 'ast: inodes; inode: next iattributes; attribute: next',
    'AITA': 'iactions: next; iphase: iactions',
    'MITL': 'ast: inodes; inode: next ichildren iattributes lifetimes; child: next lifetimes; attribute: next lifetimes; ilifetime: next begin end',
    'CSM': 'ast: inodes; inode: next ichildren; child: next lifetimes; ilifetime: next',
}
TOPCALL = {('NCT', 'inodeset'): 'curr_set'}     # entered from the list itself when this is unset


def c18(R, P):
    R.rule('reach', 'on every path that reports no error the element\'s listed children and the next element of its list are visited')
    R.rule('once', 'no child list is visited twice on one path')
    F = frontend(P)
    for t in sorted(REACH):
        if t not in F.travs:
            raise AnalysisBroken('traversal %s not found' % t)
        for part in REACH[t].split(';'):
            nt, fs = part.split(':')
            nt = nt.strip()
            h = F.handler(t, nt)
            fn = P.resolve(None, h) if h else None
            if fn is not None and own(fn):
                R.func(fn)
            for f in fs.split():
                label = nt + '.' + f
                if f not in F.meta.child.get(nt, {}):
                    raise AnalysisBroken('meta AST: no child %s' % label)
                inst = '%s %s' % (t, label)
                R.ob('reach', inst)
                if h == 'TRAVchildren':
                    continue
                if h in (None, 'TRAVnop'):
                    R.viol('reach', inst, '%s does not continue below %s, so its %s is not visited' % (t, nt, f))
                    continue
                try:
                    ps = F.expand(t, nt)
                except AnalysisBroken as e:
                    R.notes.setdefault('not decided', []).append('%s: %s' % (inst, e))
                    continue
                for p in ps:
                    if reports(p) or stopped(p):
                        continue
                    if (t, nt) in TOPCALL:
                        top = TOPCALL[(t, nt)]
                        if not consistent(p, lambda x: 0 if x[0] == 'fld' and str(x[2]).split('.')[-1] == top else None):
                            continue
                    n = visits_of(F, t, p, nt, label)
                    if n is None:
                        continue
                    if n == 0:
                        R.viol('reach', inst, '%s: there is a path on which the %s of a %s is not visited' % (
                            t, 'following element' if f == 'next' else f, nt), fn)
                    R.ob('once', inst)
                    if n > 1:
                        R.viol('once', inst, '%s: the %s of a %s is visited more than once' % (t, f, nt), fn)
    R.need('reach', 60)


def stopped(p):
    return any(e[0] == 'call' and e[1][0] == 'fn' and e[1][1] in Gate.STOP for e in p.ev)


def visits_of(F, t, p, nt, label):
    """how often a path visits the child; None: not decided"""
    want = ('fld', ('node', nt), label)
    n = 0
    hs = set(F.handler(t, m) for m in F.meta.members(F.meta.child[nt][label.split('.')[1]]))
    if all(F.inert(t, m) for m in F.meta.members(F.meta.child[nt][label.split('.')[1]])):
        return None
    for e in flat(p.ev):
        if e[0] in ('broken', 'rec'):
            return None
        if e[0] == 'next' and label.endswith('.next'):
            n += 1
        if e[0] in ('list', 'start') and (e[1] if e[0] == 'list' else e[2])[:3] == want:
            n += 1
        if e[0] == 'call' and any(a[:3] == want for a in e[2] if a[0] == 'fld'):
            return None            # handed to a helper
        if e[0] in ('set', 'gset') and any(x[:3] == want for x in sub(e[-1]) if x and x[0] == 'fld'):
            return None            # kept for later
        if e[0] == 'loop' and any(x[:3] == want for x in sub(e[1:]) if x and x[0] == 'fld'):
            return None            # walked by a loop
    if n == 0:
        for e in p.ev:
            if e[0] == 'if' and not e[2] and e[1][:3] == want:
                return None
    return n


# ------------------------------------------------------------------------ C21
def lower_eq(F, t, a, b):
    """t compares identifiers a and b without regard to case"""
    if not (t[0] == 'call' and len(t) == 4 and t[1] in ('STReq', 'STReqci') and len(t[3]) == 2):
        return False
    x, y = t[3]
    if x[0] != 'fld' or y[0] != 'fld':
        return False
    if t[1] == 'STReq' and not (x[2] == y[2] and x[2] in ('id.lwr', 'id.upr')):
        return False
    return set((noglob(x[1]), noglob(y[1]))) == set((noglob(a), noglob(b)))


def c21(R, P):
    R.rule('number', 'every action of the phase tree gets the next number when it is reached, before its nested actions, which come before the next action; the first is 2')
    R.rule('match', 'a target names the first action, in tree order, that references a phase, traversal or pass with that name or uid (in any case)')
    R.rule('nest', 'each further part of a dotted target is searched among the actions of the phase found so far')
    R.rule('range', 'a range end gets the id of the action it names and the id following it, for a phase the id following its last nested action')
    R.rule('missing', 'a target that names no action is reported')
    F = frontend(P)
    number(R, P, F)
    match(R, P, F)
    R.need('number', 3)
    R.need('match', 6)


def number(R, P, F):
    fn = P.need(F.handler('AITA', 'iactions') or 'AITAiactions')
    R.func(fn)
    ps = F.expand('AITA', 'iactions')
    me = ('node', 'iactions')
    counter = set()
    for p in ps:
        R.ob('number', 'action path %d' % len(counter))
        ids = [(i, e) for i, e in enumerate(p.ev) if e[0] == 'set' and e[1] == me and e[2] == 'iactions.action_id']
        if any(e[0] in ('broken',) for e in flat(p.ev)):
            R.notes.setdefault('not decided', []).append('AITAiactions')
            continue
        if reports(p):
            continue
        if not ids:
            R.viol('number', 'AITAiactions', 'there is a path on which an action gets no id', fn)
            continue
        i, e = ids[-1]
        v = e[3]
        g = None
        for j, x in enumerate(p.ev):
            if x[0] == 'gset':
                old = ('fld', ('G',), x[1])
                if x[2] == ('op', '+', old, ('c', 1)) and v in (old, x[2]):
                    g = (j, x[1], 0 if v == old else 1)
        if g is None:
            gl = [x for x in sub(v) if x[0] == 'fld' and x[1] == ('G',)]
            if v[0] == 'fld' and gl and not any(x[0] in ('call',) and i < k for k, x in enumerate(p.ev)):
                later = [x for x in p.ev if x[0] == 'gset' and ('fld', ('G',), x[1]) == v]
                if not later:
                    R.viol('number', 'AITAiactions', 'the number is not advanced after an action got it', fn)
                elif all(x[2][0] == 'op' and x[2][1] == '+' and x[2][3][0] == 'c' for x in later):
                    R.viol('number', 'AITAiactions', 'the numbers of successive actions do not differ by one', fn)
            elif v[0] == 'c':
                R.viol('number', 'AITAiactions', 'all actions get the id %s' % v[1], fn)
            continue
        counter.add(g[1:])
        nested = [j for j, x in enumerate(p.ev) if x[0] in ('list', 'visit') and str(x[1][2] if x[1][0] == 'fld' else '').endswith('iactions')]
        nxt = [j for j, x in enumerate(p.ev) if x[0] == 'next']
        if nested and (nested[0] < i or nested[0] < g[0]):
            R.viol('number', 'AITAiactions', 'nested actions are numbered before the action they belong to', fn)
        if nxt and nxt[0] < max(i, g[0]):
            R.viol('number', 'AITAiactions', 'the following action is numbered before this one', fn)
        if nested and nxt and nxt[0] < nested[0]:
            R.viol('number', 'AITAiactions', 'the actions nested in a phase are numbered after the following action', fn)
        key = ('fld', me, 'iactions.reference')
        h = Hook(F, {key: True}, {key: 'iphase'})
        isphase = any(x[0] == 'if' and ev3(x[1], h) is not None and any(y[0] == 'fld' and y[2] == 'nodetype' for y in sub(x[1])) for x in p.ev)
        R.ob('number', 'nested')
        if isphase and consistent(p, h) and not nested and not any(x[0] == 'rec' for x in flat(p.ev)) and not any(x[0] == 'call' and x[1][0] == 'fn' and F.handler('AITA', 'iactions') == x[1][1] for x in p.ev):
            R.viol('number', 'AITAiactions', 'the actions of a nested phase get no ids', fn)
    for g, off in counter:
        R.ob('number', 'first id')
        ini = None
        for c, p in contexts(F, 'AITA'):
            if c == ('ast',):
                for x in p.ev:
                    if x[0] == 'list' or x[0] == 'rec':
                        break
                    if x[0] == 'gset' and x[1] == g and x[2][0] == 'c':
                        ini = x[2][1]
        if ini is None:
            gl = P.find_static_global(g.split(':')[-1]) or P.globals.get(g.split(':')[-1])
            from emit import const_init
            c = const_init(gl['init']) if gl and 'init' in gl else ('c', 0) if gl else None
            ini = c[1] if c and c[0] == 'c' else None
        if ini is not None and ini + off != 2:
            R.viol('number', 'first id', 'the first action of the start phase gets the id %s; the start phase itself is 1' % (ini + off), fn)


def match(R, P, F):
    fn = P.need(F.handler('MITL', 'iactions') or 'MITLiactions')
    R.func(fn)
    me = ('node', 'iactions')
    key = ('fld', me, 'iactions.reference')
    ps = [p for p in F.expand('MITL', 'iactions') if not any(e[0] == 'broken' for e in p.ev)]
    found = set(e[1] for p in ps for e in p.ev if e[0] == 'gset' and e[2] == me)
    if not found:
        R.viol('match', 'MITLiactions', 'no path records the action a lifetime target names', fn)
        return
    eqs = set()
    for p in ps:
        for e in p.ev:
            if e[0] == 'if' and e[1][0] == 'call' and e[1][1] in ('STReq', 'STReqci'):
                for a in e[1][3]:
                    if a[0] == 'fld' and a[1][0] == 'fld' and a[1][1] == ('G',):
                        eqs.add(a[1][:3])
    if len(eqs) != 1:
        R.notes.setdefault('not decided', []).append('MITLiactions: target not identified')
        return
    target = eqs.pop()

    def lookup_of(p):
        for e in p.ev:
            for x in sub(e[1:]):
                if islookup(x, key) if x and x[0] == 'call' else False:
                    return x
        return None
    for kind in ('iphase', 'itraversal', 'ipass'):
        for f in ('name', 'iprefix'):
            R.ob('match', '%s.%s' % (kind, f))
            for p in ps:
                x = lookup_of(p)
                if x is None:
                    continue

                def h(t, x=x, hk=Hook(F, {key: True}, {key: kind}, {target: 1})):
                    v = hk(noglob(t) if t[0] == 'fld' else t)
                    if v is not None:
                        return v
                    if t[:3] == ('fld', x, kind + '.name'):
                        return 1
                    if t[:3] == ('fld', x, kind + '.iprefix') and f == 'iprefix':
                        return 1
                    for g in ('name', 'iprefix'):
                        if lower_eq(F, t, ('fld', x, kind + '.' + g), target):
                            return int(g == f)
                    if t[0] == 'call' and t[1] in ('STReq', 'STReqci') and not any(a[0] == 'fld' and a[1][0] == 'fld' and a[1][2] in (kind + '.name', kind + '.iprefix') for a in t[3]):
                        return None
                    return None
                if not consistent(p, h):
                    continue
                got = [e for e in p.ev if e[0] == 'gset' and e[1] in found]
                if not got or got[-1][2] != me:
                    if not reports(p):
                        R.viol('match', '%s.%s' % (kind, f), 'an action that references a %s whose %s is the target is passed over' % (kind, 'uid' if f == 'iprefix' else f), fn)
                else:
                    k = p.ev.index(got[-1])
                    if any(e[0] in ('next', 'list') and not (e[0] == 'list' and e[2] == 'id') for e in p.ev[k + 1:]):
                        R.viol('match', '%s.%s' % (kind, f), 'the search goes on behind the action that was found', fn)
        R.ob('match', kind + ' other')
        for p in ps:
            x = lookup_of(p)
            if x is None:
                continue

            def h2(t, x=x, hk=Hook(F, {key: True}, {key: kind}, {})):
                v = hk(t)
                if v is not None:
                    return v
                return 0 if t[0] == 'call' and t[1] in ('STReq', 'STReqci') else None
            if not consistent(p, h2):
                continue
            if any(e[0] == 'gset' and e[1] in found and e[2] == me for e in p.ev):
                R.viol('match', kind + ' other', 'an action that references a %s with another name than the target is taken for it' % kind, fn)
            if reports(p):
                continue
            nested = [e for e in p.ev if e[0] in ('list', 'rec')]
            if kind == 'iphase' and not nested:
                R.viol('match', kind + ' other', 'the actions nested in a phase are not searched', fn)
            nxt = [e for e in p.ev if e[0] == 'next']
            some = any(e[0] == 'if' and e[2] and e[1][:3] in [('fld', ('G',), g) for g in found] for e in p.ev)
            if not nxt and not some:
                R.viol('match', kind + ' other', 'the search does not go on behind an action that is not the target', fn)
    marks = set(('fld', ('G',), g) for g in found)
    # what is recorded as the node found
    node = set(e[1] for p in ps for e in p.ev if e[0] == 'gset' and islookup(e[2], key) if e[2][0] == 'call')
    # nest
    fid = P.resolve(None, F.handler('MITL', 'id') or '')
    if fid is not None:
        R.func(fid)
        R.ob('nest', 'MITLid')
        more = {}
        for p in F.expand('MITL', 'id'):
            if any(e[0] == 'broken' for e in p.ev) or reports(p):
                continue
            lists = [(i, e) for i, e in enumerate(p.ev) if e[0] == 'list' and e[2] == 'iactions']
            had = [e for e in p.ev if e[0] == 'if' and e[1][:3] in marks]
            if not had:
                continue
            first = had[0]
            R.ob('nest', 'search below %s' % ('the phase found' if first[2] else 'the start phase'))
            if not lists:
                R.viol('nest', 'MITLid', 'a part of a target is not searched for', fid)
                continue
            i, e = lists[0]
            src = e[1]
            sets = [x for x in p.ev[:i] if x[0] == 'gset' and x[1] in found]
            tset = [x for x in p.ev[:i] if x[0] == 'gset' and ('fld', ('G',), x[1]) == target]
            if first[2]:
                ok = src[0] == 'fld' and src[2] == 'iphase.iactions' and any(y[0] == 'fld' and y[:3] in marks for y in sub(src)) or \
                    src[0] == 'fld' and src[1][0] == 'fld' and src[1][1] == ('G',) and src[1][2] in node
                if not ok:
                    R.viol('nest', 'MITLid', 'a further part of a target is not searched among the actions of the phase found so far', fid)
                if not sets or sets[-1][2] != ('c', 0):
                    R.viol('nest', 'MITLid', 'an earlier part of the target counts as what a further part names', fid)
            elif src[:3] != ('fld', src[1], 'iphase.iactions') or not any(y[0] == 'fld' and y[2] == 'ast.start_phase' for y in sub(src)):
                R.viol('nest', 'MITLid', 'the search does not begin with the actions of the start phase', fid)
            if not tset or tset[-1][2] != ('node', 'id'):
                R.viol('nest', 'MITLid', 'another name than this part of the target is searched for', fid)
            after = [x for x in p.ev[i + 1:] if x[0] == 'if' and x[1][:3] in marks]
            if after and after[-1][2] and not any(x[0] == 'next' for x in p.ev[i + 1:]):
                R.viol('nest', 'MITLid', 'further parts of a target are ignored', fid)
            more.setdefault(first[2], []).append(any(x[0] == 'next' for x in p.ev[i + 1:]))
        for k, v in more.items():
            if not any(v):
                R.viol('nest', 'MITLid', 'further parts of a target are ignored', fid)
    # ranges
    fr = P.resolve(None, F.handler('MITL', 'lifetime_range') or '')
    if fr is None:
        return
    R.func(fr)
    me = ('node', 'lifetime_range')
    LA, LN = 'lifetime_range.action_id', 'lifetime_range.next_action_id'
    for p in F.expand('MITL', 'lifetime_range'):
        if any(e[0] == 'broken' for e in p.ev):
            continue
        had = [e for e in p.ev if e[0] == 'if' and e[1][:3] in marks]
        hn = [e for e in p.ev if e[0] == 'if' and e[1][0] == 'op' and e[1][1] == '==' and e[1][2][0] == 'fld' and e[1][2][2] == 'nodetype' and
              any(y[0] == 'fld' and y[1] == ('G',) for y in sub(e[1]))]
        sets = {e[2]: e[3] for e in p.ev if e[0] == 'set' and e[1] == me}
        if had and not had[-1][2] or not had and not sets:
            R.ob('missing', 'range')
            if had and not reports(p):
                R.viol('missing', 'range', 'a target that names no action is not reported', fr)
            continue
        if reports(p):
            if had and had[-1][2] and len(p.ev) and all(reports(q) for q in F.expand('MITL', 'lifetime_range')):
                R.viol('range', 'range', 'every target is reported as an error', fr)
            continue
        R.ob('range', 'phase' if hn and hn[-1][2] and hn[-1][1][3] == ('c', phase_num(F)) else 'action')
        a, n = sets.get(LA), sets.get(LN)
        ids = [('fld', m, 'iactions.action_id') for m in marks]
        if a is None or n is None:
            if not any(e[0] == 'call' for e in p.ev if e[0] == 'call' and any(me == x for x in e[2])):
                R.viol('range', 'range', 'the id of the target is not recorded', fr)
            continue
        if a[0] == 'c' or a[0] == 'fld' and strip(a) not in ids and a[2] != 'iactions.action_id' or a[0] == 'op' and any(strip(x) in ids for x in a[2:] if isinstance(x, tuple)):
            R.viol('range', 'range', 'the id recorded is not the id of the action found', fr)
        if not hn:
            continue
        phase = hn[-1][2] == (hn[-1][1][3] == ('c', phase_num(F)))
        if hn[-1][1][3] != ('c', phase_num(F)):
            continue
        if n[0] == 'op' and n[1] == '+' and n[2] == ('c', 1):
            n = ('op', '+', n[3], n[2])
        plus = n[0] == 'op' and n[1] == '+' and n[3] == ('c', 1)
        if phase and any(e[0] == 'if' and any(x[0] == 'call' and x[1] == 'STlookup' or x[0] == 'fld' and x[2] == 'iphase.iactions' for x in sub(e[1]) if len(x) > 2) for e in p.ev):
            if plus and strip(n[2]) in ids:
                continue       # nothing nested on this path
        if not phase:
            if plus and strip(n[2]) in ids:
                continue
            if n[0] in ('c', 'fld') or n[0] == 'op' and any(strip(x) in ids for x in n[2:] if isinstance(x, tuple)):
                R.viol('range', 'action', 'the id behind an action is not the id of the action plus one', fr)
        else:
            if plus and strip(n[2]) in ids or n[0] in ('c', 'fld') and strip(n) in ids:
                R.viol('range', 'phase', 'the id behind a phase does not account for its nested actions', fr)
            elif plus and n[2][0] == 'fld' and n[2][2] == 'iactions.action_id':
                lastaction(R, P, F, p, n[2][1], fr)
            elif n[0] == 'fld' and n[2] == 'iactions.action_id':
                R.viol('range', 'phase', 'the id behind a phase is the id of its last nested action', fr)


def strip(t):
    """term without store versions"""
    if t and t[0] == 'fld':
        return ('fld', strip(t[1]), t[2])
    return t


def phase_num(F):
    return [k for k, v in F.ntnum.items() if v == 'iphase'][0]


def lastaction(R, P, F, p, v, fr):
    """v is the loop variable of a descent to the last nested action"""
    if v[0] != 'phi':
        if v[0] == 'fld' and v[2] == 'iphase.iactions':
            R.viol('range', 'phase', 'the id behind a phase is computed from its first nested action', fr)
        return
    for e in p.ev:
        if e[0] != 'loop':
            continue
        for b in e[1]:
            inner = [x for x in b if x[0] == 'loop']
            back = dict(x for y in b if y[0] == 'back' for x in y[1])
            nv = back.get(v)
            if nv is None:
                continue
            R.ob('range', 'last nested action')
            if nv[0] == 'fld' and nv[2] == 'iphase.iactions' and not inner:
                R.viol('range', 'phase', 'the descent takes the first nested action instead of the last', fr)
            if nv[0] == 'phi' and inner:
                # the inner loop must run to the end of the list
                ends = [x for x in b if x[0] == 'if' and not x[2] and x[1] in (('fld', nv, 'iactions.next'),)]
                if not ends and not any(x[0] == 'if' and not x[2] and nv in list(sub(x[1])) for x in b):
                    R.viol('range', 'phase', 'the descent does not reach the last nested action', fr)


# ------------------------------------------------------------------------ C34
def c34(R, P):
    """every field of a node is read and written through the kind of that node"""
    R.rule('kind', 'a field of node kind T is only accessed on a value that can be a T: the declared kind of the child or attribute it was read from, the kinds tested on the path, the kinds ever put into the variable')
    R.rule('child', 'what is put into a child of a node can be of the declared type of the child')
    F = front.Front(P)
    F.slots = {}
    acc, root = {}, [None]

    def cb(f, line, label, slot, kinds, known, want=None):
        if label[0] == '=' and label[1:].split('.')[1] not in F.meta.child.get(label[1:].split('.')[0], {}):
            return
        acc.setdefault((root[0], f.name, line, label), []).append((slot, frozenset(kinds), known, frozenset(want or [label.split('.')[0]])))
    F.access = cb
    roots, lost = 0, []
    for t, row in sorted(F.travs.items()):
        for nt, h in sorted(row.items()):
            if h in (None, 'TRAVnop', 'TRAVchildren', 'TRAVerror'):
                continue
            g = P.resolve(None, h)
            if g is None or not own(g):
                continue
            root[0] = (t, nt)
            F.cache.clear()
            try:
                F.expand(t, nt)
                roots += 1
                R.func(g)
            except AnalysisBroken as e:
                lost.append('%s: %s' % (h, str(e)[:100]))
    und = set()
    for (r, fn, line, label), es in sorted(acc.items()):
        bad = und1 = 0
        for slot, ks, known, want in es:
            if not known and slot is not None:
                sk = F.slotkinds(slot)
                if sk is not None:
                    known, ks = True, ks & sk
            if not known:
                und1 += 1
            elif ks and not ks & want:
                bad += 1
        rule = 'child' if label[0] == '=' else 'kind'
        R.ob(rule, '%s in %s (from %s)' % (label, fn, '/'.join(r)))
        if und1:
            und.add('%s: %s' % (fn, label))
        if bad == len(es):
            f = next((x for x in P.all_funcs() if x.name == fn), None)
            k = '/'.join(sorted(es[0][1])[:4])
            if es[0][0] is not None and not es[0][2]:
                k = '/'.join(sorted(F.slotkinds(es[0][0]))[:4])
            R.viol(rule, '%s %s' % (fn, label.lstrip('=')), ('a %s is put into %s' if rule == 'child' else 'a %s is accessed as %s') % (k, label.lstrip('=')), f, line)
    R.notes['handlers'] = roots
    R.notes['handlers not analysed'] = lost
    R.notes['accesses on values of unknown kind'] = sorted(und)
    R.need('kind', 1500)
