"""Evaluation of path summaries (emit.Path) over case worlds: the elements of lists, arrays and
tables are abstract elements ('el', name) whose fields and table entries a world fixes."""
from absint import ZERO, ONE


class Undecided(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'tabs', 'trace', 'unk')

    def __init__(self, env=None, heap=None, tabs=None, trace=(), unk=0):
        self.env, self.heap, self.tabs, self.trace, self.unk = dict(env or {}), dict(heap or {}), dict(tabs or {}), trace, unk

    def copy(self):
        return State(self.env, self.heap, self.tabs, self.trace, self.unk)


ALLOC = ('MEMmalloc', 'QUcreate', 'GRnew')


class World:
    """fields: (element, field) -> value; table(t, k) -> value or None; call(name, args) -> value or None"""
    def __init__(self, fields=None, tables=None, calls=None, atom=None, args=()):
        self.fields = dict(fields or {})
        self.tables, self.calls, self.atomf, self.args = tables, calls, atom, args
        self.n = 0
        self.limit = 600

    def fresh(self, name):
        self.n += 1
        return ('new', self.n, name)

    def val(self, t, s):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k in ('c', 's', 'el', 'new', 'fn'):
            return t
        if t in s.env:
            return s.env[t]
        if k == 'arg':
            return self.args[t[1]] if t[1] < len(self.args) and self.args[t[1]] is not None else t
        if self.atomf is not None:
            v = self.atomf(self, t, s)
            if v is not None:
                return v
        if k == 'fld':
            b = self.val(t[1], s)
            f = t[2]
            if isinstance(f, tuple):
                f = (f[0], self.val(f[1], s))
            return self.field(b, f, s)
        if k == '&':
            b = self.val(t[1], s)
            return ('&', b, t[2])
        if k == 'rec':
            return ('rec', tuple((f, self.val(v, s)) for f, v in t[1]))
        if k == 'call':
            a = tuple(self.val(x, s) for x in t[-1])
            if t[1] == 'HTlookup' and len(a) == 2:
                return self.lookup(a[0], a[1], s)
            if self.calls is not None:
                v = self.calls(t[1], a)
                if v is not None:
                    return v
            return ('call', t[1], None, a)
        if k == 'op':
            return self.op(t[1], tuple(self.val(x, s) for x in t[2:]))
        return t

    def field(self, b, f, s):
        if (b, f) in s.heap:
            return s.heap[(b, f)]
        if (b, f) in self.fields:
            return self.fields[(b, f)]
        if b[0] == 'arr' and isinstance(f, tuple) and f[1][0] == 'c':
            return b[1][f[1][1]] if 0 <= f[1][1] < len(b[1]) else ('oob', f[1][1])
        if b[0] == 'rec':
            for g, v in b[1]:
                if g == f:
                    return v
        if f == 'nodetype' and b[0] == 'new' and b[2].startswith('AST'):
            return ('nt', b[2][3:])
        return ('fld', b, f)

    def lookup(self, tab, key, s):
        if (tab, key) in s.tabs:
            return s.tabs[(tab, key)]
        v = self.tables(tab, key) if self.tables is not None else None
        return ('call', 'HTlookup', None, (tab, key)) if v is None else v

    def op(self, o, a):
        if o == '!' and len(a) == 1:
            v = self.truth(a[0])
            return ('op', o) + a if v is None else (ZERO if v else ONE)
        if len(a) == 2:
            x, y = a
            if x[0] == 'c' and y[0] == 'c':
                p, q = x[1], y[1]
                try:
                    r = {'<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q, '==': p == q, '!=': p != q, '+': p + q, '-': p - q, '*': p * q,
                         '/': p // q if q else None, '%': p % q if q else None, '&': p & q, '|': p | q, '^': p ^ q}.get(o)
                except TypeError:
                    r = None
                if r is not None:
                    return ('c', int(r))
            if o in ('==', '!='):
                e = None
                if x == y and x[0] in ('el', 'new', 's', 'arg'):
                    e = True
                elif x[0] in ('el', 'new', 'arr') and y[0] in ('el', 'new', 'c', 'arr') or y[0] in ('el', 'new', 'arr') and x[0] == 'c':
                    e = False
                if e is not None:
                    return ('c', int(e == (o == '==')))
            if o in ('&&', '||'):
                p, q = self.truth(x), self.truth(y)
                if o == '&&' and (p is False or q is False):
                    return ZERO
                if o == '||' and (p is True or q is True):
                    return ONE
                if p is not None and q is not None:
                    return ('c', int(p and q if o == '&&' else p or q))
        return ('op', o) + a

    def truth(self, v):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('el', 'new', 's', 'fn', 'arr', '&', 'rec'):
            return True
        return None

    def run(self, evs, s=None, depth=0):
        """states at the end of a list of events"""
        S = [s.copy() if s is not None else State()]
        for e in evs:
            if not S:
                return []
            if len(S) > self.limit:
                raise Undecided('too many cases')
            k = e[0]
            if k == 'if':
                N = []
                for s in S:
                    v = self.truth(self.val(e[1], s))
                    if v is None:
                        s.unk += 1
                        s.trace += (('?', self.val(e[1], s), e[2]),)
                        N.append(s)
                    elif v == e[2]:
                        N.append(s)
                S = N
            elif k == 'set':
                for s in S:
                    b, f, v = self.val(e[1], s), e[2], self.val(e[3], s)
                    if isinstance(f, tuple):
                        f = (f[0], self.val(f[1], s))
                    s.heap[(b, f)] = v
                    s.trace += (('set', b, f, v),)
            elif k == 'gset':
                for s in S:
                    s.trace += (('gset', e[1], self.val(e[2], s)),)
            elif k == 'call':
                name = e[1][1] if e[1][0] == 'fn' else None
                for s in S:
                    a = tuple(self.val(x, s) for x in e[2])
                    r = None
                    if name in ('HTinsert',):
                        s.tabs[(a[0], a[1])] = a[2]
                        r = ONE
                    elif name in ('MEMrealloc', 'realloc') and self.truth(a[0]):
                        r = a[0]
                    elif self.calls is not None:
                        r = self.calls(name, a)
                    if r is None and name is not None and (name in ALLOC or name.startswith(('AST', 'HTnew')) or name in ('MEMrealloc', 'GRadd_node', 'CCNcopy')):
                        r = self.fresh(name)
                        if name.startswith('AST'):
                            for i, x in enumerate(a):
                                s.heap[(r, ('arg', i))] = x
                    if len(e) > 4:
                        s.env[e[4]] = r if r is not None else ('call', name, None, a)
                    s.trace += (('call', name, a, r),)
            elif k == 'cti':
                for s in S:
                    s.trace += (('cti', e[1], e[2]),)
            elif k == 'lset':
                for s in S:
                    s.trace += (('lset', e[1], e[2], self.val(e[3], s)),)
            elif k == 'loop':
                S = [x for s in S for x in self.loop(e, s, depth)]
            elif k == 'back':
                pass
            elif k in ('t', 'indent', 'open'):
                for s in S:
                    s.trace += (e,)
            else:
                for s in S:
                    s.trace += (e,)
        return S

    def loop(self, e, s, depth):
        s = s.copy()
        for phi, init in e[2]:
            s.env[phi] = self.val(init, s)
        done, cur = [s], [s]
        backs = [(b[:-1], b[-1][1]) for b in e[1] if b and b[-1][0] == 'back']
        for _ in range(7):
            nxt = []
            for st in cur:
                for b, bk in backs:
                    for r in self.run(b, st, depth + 1):
                        new = [(phi, self.val(v, r)) for phi, v in bk]
                        for phi, v in new:
                            r.env[phi] = v
                        nxt.append(r)
            if not nxt:
                break
            cur = nxt
            done += [x.copy() for x in nxt]
            if len(done) > self.limit:
                raise Undecided('too many cases')
        return [x.copy() for x in done]


def chain(W, first, names, nextf, extra=None):
    """a list of elements; returns its head"""
    els = [('el', n) for n in names]
    for i, x in enumerate(els):
        W.fields[(x, nextf)] = els[i + 1] if i + 1 < len(els) else ZERO
        for f, v in (extra or {}).get(names[i], {}).items():
            W.fields[(x, f)] = v
    return els[0] if els else ZERO
