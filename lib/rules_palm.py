"""Rules about the support library palm: hash table, diagnostics, strings, memory."""
from absint import Engine, Monitor, State, ZERO, ONE, subterms
from cfg import cfg_of
from program import AnalysisBroken, rel
import callgraph
from rules_runtime import show, noep, G, enumval

HT = 'palm/src/hash_table.c'


def split(v):
    if v[0] == 'c':
        return None, v[1]
    if v[0] == 'op' and v[1] in ('+', '-') and len(v) == 4 and v[3][0] == 'c':
        return noep(v[2]), v[3][1] if v[1] == '+' else -v[3][1]
    return noep(v), 0


def shift(v, k):
    if k == 0:
        return v
    if v[0] == 'c':
        return ('c', v[1] + k)
    if v[0] == 'op' and v[1] in ('+', '-') and len(v) == 4 and v[3][0] == 'c':
        k += v[3][1] if v[1] == '+' else -v[3][1]
        v = v[2]
    return v if k == 0 else ('op', '+', v, ('c', k)) if k > 0 else ('op', '-', v, ('c', -k))


def derefname(y):
    """name of *y"""
    if y[0] == '&':
        return ('fld', noep(y[1]), noep(y[2]) if isinstance(y[2], tuple) else y[2])
    return ('fld', noep(y), '*')


def isaddr(x, v):
    return x[0] == '&' and v[0] == 'fld' and noep(x[1]) == v[1] and (noep(x[2]) if isinstance(x[2], tuple) else x[2]) == v[2]


def inp(f, i):
    return ('in', f.params[i]['n'].split('#')[0])


def rd(eng, st, b, f):
    v = st.heap.get((b, f))
    if v is not None:
        return v
    return ('fld', b, f, st.ep.get(f if isinstance(f, str) else '[]', 0))


class HTFields:
    def __init__(self, P):
        T = {x['n']: x['t'] for x in P.records['htable']} if 'htable' in P.records else None
        E = P.records.get('htable_entry')
        if T is None or E is None:
            raise AnalysisBroken('hash table records not found')
        self.buckets = [n for n, t in T.items() if t.endswith('**')][0]
        fns = {n: t for n, t in T.items() if '(*)' in t}
        self.eq = [n for n, t in fns.items() if t.count('void *') == 2][0]
        self.hash = [n for n, t in fns.items() if t.count('void *') == 1][0]
        self.next = [x['n'] for x in E if x['t'].startswith('struct')][0]
        self.key, self.value = 'key', 'value'
        # size: divisor; elements: what HTelementCount returns
        f = P.need('HTelementCount')
        r = set()
        for st, v in Engine(P, Monitor(), lambda e, c, n: 'inline').run(f, ()):
            v = noep(v)
            if v[0] != 'fld' or v[1] != inp(f, 0):
                raise AnalysisBroken('HTelementCount: unexpected result')
            r.add(v[2])
        self.count = r.pop()
        self.size = [n for n, t in T.items() if t in ('unsigned long', 'size_t') and n != self.count][0]


class ChainMon(Monitor):
    """walks one bucket chain: every entry compared before moving on.
    mon: tuple(sorted dict) with nx (frozenset of noep names of the next entry to compare),
    match, exh, cnt, alloc, freed, links..."""
    def __init__(self, P, F, f, table, key):
        self.P, self.F, self.f, self.table, self.key = P, F, f, table, key
        self.bad = {}
        self.idx = ('op', '%', ('call', 'HASH', None, (key,)), ('fld', table, F.size))
        self.head = ('fld', ('fld', table, F.buckets), ('[]', self.idx))

    def start(self):
        return (('cnt', 0), ('nx', frozenset([self.head])))

    def get(self, st, k, d=None):
        for a, b in st.mon:
            if a == k:
                return b
        return d

    def put(self, mon, **kw):
        d = dict(mon)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        return tuple(sorted(d.items(), key=lambda x: x[0]))

    def err(self, msg, node, fr):
        self.bad.setdefault(msg, (fr.func, node.line))

    def roots(self, mon):
        for k, v in mon:
            if isinstance(v, tuple):
                yield v
            elif isinstance(v, frozenset):
                yield from v

    def widen(self, mon, ren):
        d = dict(mon)
        new = set()
        for v in d.get('nx', ()):
            for x, y in ren:
                if noep(x) == v:
                    new.add(noep(y))
                elif isaddr(x, v):
                    new.add(derefname(y))
        if new:
            d['nx'] = frozenset(new)
        return tuple(sorted(d.items(), key=lambda x: x[0]))

    def branch(self, eng, st, fr, node, val, taken):
        v = val
        while v[0] == 'op' and v[1] == '!':
            v, taken = v[2], not taken
        if v[0] == 'op' and v[1] == '==' and v[3] == ZERO:
            v, taken = v[2], not taken
        if not taken and noep(v) in self.get(st, 'nx', frozenset()):
            return self.put(st.mon, exh=1)
        if v[0] == 'call' and v[1] == 'EQ' and v[3]:
            return self.compared(eng, st, v[3][0], taken)
        return None

    def compared(self, eng, st, x, equal):
        mon = st.mon
        if equal:
            return self.put(mon, match=x)
        nxt = rd(eng, st, x, self.F.next)
        return self.put(mon, nx=frozenset([noep(nxt)]), exh=1 if st.truth(nxt) is False else None)

    def read_field(self, st, b, f):
        fr = self.get(st, 'freed')
        if fr is not None and fr == b:
            self.uaf = True
        return None

    uaf = False

    def call(self, eng, st, fr, node, name, cv, argv):
        F = self.F
        if name is None:
            n = noep(cv)
            if n == ('fld', self.table, F.hash):
                if argv != [self.key]:
                    self.err('hashes %s instead of the key' % show(argv[0]), node, fr)
                return [(st, ('call', 'HASH', None, (argv[0],)))]
            if n == ('fld', self.table, F.eq):
                a = [x for x in argv if noep(x) != noep(self.key)]
                x = a[0] if len(a) == 1 else None
                if x is None or not (x[0] == 'fld' and x[2] == F.key):
                    self.err('compares %s' % ', '.join(map(show, argv)), node, fr)
                    return [(st, ('call', 'EQ', (fr.id, node.id), ()))]
                ent = x[1]
                if noep(ent) not in self.get(st, 'nx', frozenset()):
                    self.err('entries are skipped or compared out of order (%s when %s was next)' % (
                        show(ent), ' or '.join(show(y) for y in self.get(st, 'nx', ()))), node, fr)
                if st.truth(ent) is not True:
                    self.err('an entry is used although there may be none (%s)' % show(ent), node, fr)
                # the outcome may be branched on later: name it
                return [(st, ('call', 'EQ', None, (ent,)))]
            self.err('calls through %s' % show(cv), node, fr)
            return [(st, ('call', '?', (fr.id, node.id), ()))]
        if name in ('MEMmalloc', 'malloc', 'calloc'):
            rv = ('call', 'MEMmalloc', (fr.id, node.id), ())
            st.assume(rv, True)
            st.mon = self.put(st.mon, alloc=rv if self.get(st, 'alloc') is None else ('many',))
            return [(st, rv)]
        if name in ('MEMfree', 'free'):
            st.mon = self.put(st.mon, freed=argv[0] if self.get(st, 'freed') is None else ('many',))
            return [(st, ZERO)]
        return None

    def store(self, eng, st, fr, node, loc, val):
        if loc[0] != 'L' or eng.private(loc[1]):
            return None
        F = self.F
        b, f = loc[1], loc[2]
        mon = st.mon
        al = self.get(st, 'alloc')
        if al is not None and b == al:
            if f == F.next:
                return self.put(mon, en=val)
            return None        # initialising the new entry, checked on return
        if noep(b) == self.table and f == F.count:
            cur = rd(eng, st, b, f)
            d = 1 if val == eng.binop(st, '+', cur, ONE) else -1 if val == eng.binop(st, '-', cur, ONE) else 99
            return self.put(mon, cnt=self.get(st, 'cnt') + d)
        if f == F.value:
            return self.put(mon, vset=(b, val) if self.get(st, 'vset') is None else ('many',))
        isnext = f == F.next or f == '*' or (isinstance(f, tuple) and noep(b) == ('fld', self.table, F.buckets))
        if isnext:
            return self.put(mon, link=((noep(b), noep(f) if isinstance(f, tuple) else f), val) if self.get(st, 'link') is None else ('many',))
        self.err('writes %s' % f, node, fr)
        return None


def drop_eq(eng):
    pass


def ht_inline(P):
    def pol(e, c, n):
        f = P.resolve(c.tu, n)
        if f is not None and rel(f.file) == HT:
            return 'inline'
        return 'opaque'
    return pol


def c10(R, P):
    R.rule('H1', 'insert: every entry of the key\'s bucket is compared in order; an equal one gets the new value, else exactly one new entry (key, value) is linked and the count grows by one')
    R.rule('H2', 'remove: exactly the equal entry is unlinked, freed, counted down and its value returned; without one nothing changes and NULL is returned; no entry is used that may not exist')
    R.rule('H3', 'lookup: the value of the equal entry, or NULL after the whole bucket was compared; nothing is modified')
    R.rule('H4', 'clear/delete: every entry of every bucket freed once, buckets emptied, count zero; the table storage freed once')
    R.rule('H5', 'map/fold: every entry of every bucket is visited exactly once, in place')
    R.rule('H6', 'iterate: first entry of the first non-empty bucket; next: rest of the chain, then the first non-empty later bucket, then end (iterator freed once)')
    R.rule('H7', 'copy: every key/value pair inserted into a new table with the same hash and equality')
    R.rule('H8', 'the equality and the hash of each predefined table agree (equal keys hash alike)')
    F = HTFields(P)

    def chain(name, ki):
        f = P.need(name)
        R.func(f)
        m = ChainMon(P, F, f, inp(f, 0), inp(f, ki))
        eng = Engine(P, m, ht_inline(P), cap=400)
        ex = eng.run(f, m.start())
        rule = {'HTinsert': 'H1', 'HTremove': 'H2', 'HTlookup': 'H3'}[name]
        for msg, (ff, line) in m.bad.items():
            R.viol(rule, name, msg, ff, line)
        R.check(len(ex) >= 2, rule, name + ' returns', name, 'no normal return', f)
        if m.uaf:
            R.viol(rule, name, 'an entry is used after it was freed', f)
        return f, m, eng, ex, rule
    # lookup
    f, m, eng, ex, rule = chain('HTlookup', 1)
    hit = miss = 0
    for st, v in ex:
        g = lambda k: m.get(st, k)
        R.check(g('vset') is None and g('link') is None and g('cnt') == 0 and g('alloc') is None and g('freed') is None,
                'H3', 'pure', 'HTlookup', 'modifies the table', f)
        if g('match') is not None:
            hit += 1
            R.check(v is not None and noep(v) == ('fld', noep(g('match')), F.value), 'H3', 'hit', 'HTlookup',
                    'returns %s for a key that is present' % show(v), f)
        else:
            miss += 1
            R.check(g('exh') and (v == ZERO or st.truth(v) is False), 'H3', 'miss', 'HTlookup',
                    'returns %s although %s' % (show(v), 'the key is absent' if g('exh') else 'the bucket was not searched to its end'), f)
    R.check(hit and miss, 'H3', 'cases', 'HTlookup', 'found/absent case missing', f)
    # insert
    f, m, eng, ex, rule = chain('HTinsert', 1)
    val = inp(f, 2)
    hit = miss = 0
    for st, v in ex:
        g = lambda k: m.get(st, k)
        R.check(st.truth(v) is True, 'H1', 'result', 'HTinsert', 'returns %s' % show(v), f)
        R.check(g('freed') is None, 'H1', 'nofree', 'HTinsert', 'frees something', f)
        if g('match') is not None:
            hit += 1
            R.check(g('vset') is not None and len(g('vset')) == 2 and noep(g('vset')[0]) == noep(g('match')) and g('vset')[1] == val and
                    g('link') is None and g('cnt') == 0, 'H1', 'update', 'HTinsert',
                    'inserting an existing key does not simply replace its value', f)
        else:
            miss += 1
            e = g('alloc')
            if not R.check(g('exh') and e is not None and e != ('many',), 'H1', 'new', 'HTinsert',
                           'a new key is added without searching the whole bucket, or not added', f):
                continue
            R.check(g('cnt') == 1, 'H1', 'count', 'HTinsert', 'the element count changes by %s for a new key' % g('cnt'), f)
            R.check(rd(eng, st, e, F.key) == m.key and rd(eng, st, e, F.value) == val, 'H1', 'content', 'HTinsert',
                    'the new entry does not hold the key and value', f)
            ln = g('link')
            ok = ln is not None and len(ln) == 2 and ln[1] == e
            en = g('en') or ('top',)
            if ok:
                l = ln[0]
                tail = ('fld',) + l in g('nx') and (en == ZERO or noep(en) == ('fld',) + l)
                head = ('fld',) + l == m.head and noep(en) == m.head
                ok = tail or head
            R.check(ok, 'H1', 'link', 'HTinsert', 'the new entry is not linked into the bucket with the other entries kept', f)
            R.check(g('vset') is None, 'H1', 'others', 'HTinsert', 'changes the value of another entry', f)
    R.check(hit and miss, 'H1', 'cases', 'HTinsert', 'existing/new case missing', f)
    # remove
    f, m, eng, ex, rule = chain('HTremove', 1)
    hit = miss = 0
    for st, v in ex:
        g = lambda k: m.get(st, k)
        R.check(g('alloc') is None and g('vset') is None, 'H2', 'pure', 'HTremove', 'adds or changes entries', f)
        if g('match') is not None:
            hit += 1
            x = noep(g('match'))
            ln = g('link')
            R.check(g('cnt') == -1, 'H2', 'count', 'HTremove', 'the element count changes by %s when a key is removed' % g('cnt'), f)
            R.check(g('freed') is not None and noep(g('freed')) == x, 'H2', 'free', 'HTremove', 'the removed entry is not freed exactly once', f)
            R.check(ln is not None and len(ln) == 2 and ('fld',) + ln[0] == x and noep(ln[1]) == ('fld', x, F.next), 'H2', 'unlink', 'HTremove',
                    'the removed entry is not unlinked with its successors kept', f)
            R.check(noep(v) == ('fld', x, F.value), 'H2', 'result', 'HTremove', 'returns %s' % show(v), f)
        else:
            miss += 1
            R.check(g('exh') and g('link') is None and g('cnt') == 0 and g('freed') is None and (v == ZERO or st.truth(v) is False),
                    'H2', 'miss', 'HTremove', 'an absent key changes the table or is not searched for completely', f)
    R.check(hit and miss, 'H2', 'cases', 'HTremove', 'found/absent case missing', f)
    for n, r in (('HTclear', 'H4'), ('HTmap', 'H5'), ('HTmapWithKey', 'H5'), ('HTmapWithDataAndKey', 'H5'), ('HTfold', 'H5')):
        sweep(R, P, F, n, r)
    delete_rule(R, P, F)
    iter_rules(R, P, F)
    copy_rules(R, P, F)
    pair_rules(R, P, F)


class SweepMon(Monitor):
    """every entry of every bucket once.  mon: (idx set, chain set or None, freed, extra)"""
    def __init__(self, P, F, f, kind):
        self.P, self.F, self.f, self.kind = P, F, f, kind
        self.table = inp(f, 0)
        self.bad = {}
        self.touched = 0

    def start(self):
        return (frozenset([ZERO]), None, None, None)

    def err(self, msg, fr, node):
        self.bad.setdefault(msg, (fr.func, node.line))

    def roots(self, mon):
        yield from mon[0]
        if mon[1]:
            yield from mon[1]
        for x in mon[2:]:
            if isinstance(x, tuple):
                yield x

    def widen(self, mon, ren):
        def w(s):
            if s is None:
                return None
            new = set()
            for v in s:
                for x, y in ren:
                    if noep(x) == noep(v):
                        new.add(y if v[0] != 'fld' else noep(y))
                    elif isaddr(x, v):
                        new.add(derefname(y))
            if not new:
                for v in s:
                    b, k = split(v)
                    for x, y in ren:
                        bx, kx = split(x)
                        if bx == b and x != y and (b is not None or y[0] == 'phi'):
                            new.add(shift(y, k - kx))
            return frozenset(new) if new else s
        idx = w(mon[0])
        sat = frozenset(('c', min(i[1], 4)) if i[0] == 'c' else ('top', 'lost') if abs(split(i)[1]) > 3 else i for i in idx)
        return (sat, w(mon[1]), None, mon[3])

    def bucket_of(self, n):
        """n = noep(entries[i]) -> i"""
        if n[0] == 'fld' and n[1] == ('fld', self.table, self.F.buckets) and isinstance(n[2], tuple):
            return n[2][1]
        return None

    def norm(self, idx):
        return frozenset(noep(x) for x in idx)

    def branch(self, eng, st, fr, node, val, taken):
        v = val
        while v[0] == 'op' and v[1] == '!':
            v, taken = v[2], not taken
        if v[0] == 'op' and v[1] == '==' and v[3] == ZERO:
            v, taken = v[2], not taken
        n = noep(v)
        idx, chain, freed, x = st.mon
        if not taken:
            if chain is not None and n in chain:
                # chain exhausted
                return (frozenset(eng.binop(st, '+', i, ONE) for i in idx), None, None, x)
            b = self.bucket_of(n)
            if b is not None and chain is None and b in self.norm(idx):
                return (frozenset([eng.binop(st, '+', b, ONE)]), None, None, x)
        return None

    def touch(self, eng, st, fr, node, ent):
        idx, chain, freed, x = st.mon
        n = noep(ent)
        self.touched += 1
        if chain is None:
            b = self.bucket_of(n)
            if b is None or b not in self.norm(idx):
                self.err('buckets are not visited in order (%s when %s was next)' % (show(ent), ' or '.join(map(show, idx))), fr, node)
            else:
                idx = frozenset([b])
        elif n not in chain:
            self.err('entries of a bucket are skipped or visited twice (%s when %s was next)' % (show(ent), ' or '.join(map(show, chain))), fr, node)
        if st.truth(ent) is not True:
            self.err('an entry is used although there may be none', fr, node)
        nx = noep(rd(eng, st, ent, self.F.next))
        st.mon = (idx, frozenset([nx]), freed, x)

    def read_field(self, st, b, f):
        if st.mon[2] is not None and b == st.mon[2]:
            self.uaf = True
        return None
    uaf = False

    def call(self, eng, st, fr, node, name, cv, argv):
        F = self.F
        if name in ('MEMfree', 'free'):
            if self.kind != 'free':
                self.err('frees %s' % show(argv[0]), fr, node)
                return [(st, ZERO)]
            self.touch(eng, st, fr, node, argv[0])
            st.mon = st.mon[:2] + (argv[0], st.mon[3])
            return [(st, ZERO)]
        if name is None:
            # the user function: last argument is the value of the entry visited
            v = argv[-1]
            if not (v[0] == 'fld' and v[2] == F.value):
                self.err('calls the function with %s' % show(v), fr, node)
                return [(st, ('call', 'FUN', (fr.id, node.id), ()))]
            ent = v[1]
            extra = [inp(self.f, i) for i in range(1, len(self.f.params))]
            want_key = any(noep(a) == ('fld', noep(ent), F.key) for a in argv)
            if self.kind == 'map' and 'Key' in self.f.name and not want_key:
                self.err('does not pass the key', fr, node)
            if 'Data' in self.f.name and argv[0] not in extra:
                self.err('does not pass the data', fr, node)
            rv = ('call', 'FUN', (fr.id, node.id), (ent,))
            if self.kind == 'fold':
                if argv[0] not in extra:
                    self.err('does not pass the accumulator', fr, node)
                self.touch(eng, st, fr, node, ent)
            return [(st, rv)]
        return None

    def store(self, eng, st, fr, node, loc, val):
        F = self.F
        if loc[0] != 'L' or eng.private(loc[1]):
            return None
        b, f = loc[1], loc[2]
        if self.kind == 'map' and f == F.value:
            if not (val[0] == 'call' and val[1] == 'FUN' and val[3] == (b,)):
                self.err('the value of %s becomes %s' % (show(b), show(val)), fr, node)
            self.touch(eng, st, fr, node, b)
            return st.mon
        if self.kind == 'free' and isinstance(f, tuple) and noep(b) == ('fld', self.table, F.buckets):
            idx, chain, freed, x = st.mon
            if val != ZERO and st.truth(val) is not False:
                self.err('a cleared bucket keeps %s' % show(val), fr, node)
            i = noep(f[1])
            cur = self.norm(idx)
            nxt = self.norm(frozenset(eng.binop(st, '+', f[1], ONE) for _ in (0,)))
            if not (i in cur) and not (nxt & cur):
                self.err('a bucket is emptied out of order', fr, node)
            self.emptied = True
            return (idx, chain, freed, ('e', i))
        if self.kind == 'free' and noep(b) == self.table and f == F.count:
            return None
        self.err('writes %s' % (f if isinstance(f, str) else 'a bucket'), fr, node)
        return None
    emptied = False


def sweep(R, P, F, name, rule):
    f = P.need(name)
    R.func(f)
    kind = 'free' if name == 'HTclear' else 'fold' if name == 'HTfold' else 'map'
    m = SweepMon(P, F, f, kind)
    eng = Engine(P, m, ht_inline(P), cap=400)
    ex = eng.run(f, m.start())
    for msg, (ff, line) in m.bad.items():
        R.viol(rule, name, msg, ff, line)
    if m.uaf:
        R.viol(rule, name, 'an entry is used after it was freed', f)
    R.check(m.touched > 0 and ex, rule, name + ' visits', name, 'visits no entry', f)
    for st, v in ex:
        idx, chain, freed, x = st.mon
        size = ('fld', inp(f, 0), F.size, st.ep.get(F.size, 0))
        done = chain is None and any(st.truth(('op', '<', i, size)) is False or st.truth(('op', '==', i, size)) is True or
                                     st.truth(('op', '==', size, i)) is True for i in idx)
        R.check(done, rule, name + ' complete', name, 'can return before every bucket was visited to its end', f)
        if kind == 'free':
            R.check(rd(eng, st, inp(f, 0), F.count) == ZERO, rule, 'count', name, 'the element count is not zero after clearing', f)
            R.check(m.emptied, rule, 'emptied', name, 'buckets keep pointing at freed entries', f)


def delete_rule(R, P, F):
    f = P.need('HTdelete')
    R.func(f)
    t = inp(f, 0)

    class M(Monitor):
        def call(s, eng, st, fr, node, name, cv, argv):
            if name == 'HTclear':
                st.mon = st.mon + (('clear', noep(argv[0])),)
                return [(st, ZERO)]
            if name in ('MEMfree', 'free'):
                st.mon = st.mon + (('free', noep(argv[0])),)
                return [(st, ZERO)]
            return None
    ex = Engine(P, M(), ht_inline(P)).run(f, ())
    R.check(len(ex) > 0, 'H4', 'delete returns', 'HTdelete', 'never returns', f)
    for st, v in ex:
        ev = list(st.mon)
        want = [('clear', t), ('free', ('fld', t, F.buckets)), ('free', t)]
        R.check(ev == want, 'H4', 'HTdelete', 'HTdelete', 'deleting a table does %s instead of clearing it, then freeing buckets and table once each' % [(a, show(b)) for a, b in ev], f)


class IterMon(SweepMon):
    def __init__(self, P, F, f, table, start):
        super().__init__(P, F, f, 'iter')
        self.table = table
        self.s0 = start

    def start(self):
        return (frozenset([self.s0]), None, None, None)

    def branch(self, eng, st, fr, node, val, taken):
        v = val
        while v[0] == 'op' and v[1] == '!':
            v, taken = v[2], not taken
        if v[0] == 'op' and v[1] == '==' and v[3] == ZERO:
            v, taken = v[2], not taken
        n = noep(v)
        idx = st.mon[0]
        b = self.bucket_of(n)
        if b is not None and b in self.norm(idx):
            if taken:
                return (idx, st.mon[1], st.mon[2], ('found', b))
            return (frozenset([eng.binop(st, '+', v[2][1], ONE)]),) + st.mon[1:]
        return None

    def call(self, eng, st, fr, node, name, cv, argv):
        if name in ('MEMfree', 'free'):
            st.mon = st.mon[:2] + ((argv[0] if st.mon[2] is None else ('many',)), st.mon[3])
            return [(st, ZERO)]
        return None

    def store(self, eng, st, fr, node, loc, val):
        return None


def iter_rules(R, P, F):
    IT = {x['n']: x['t'] for x in P.records['htable_iter']}
    tf = [n for n, t in IT.items() if 'htable *' in t][0]
    ef = [n for n, t in IT.items() if 'entry' in t][0]
    xf = [n for n, t in IT.items() if n not in (tf, ef)][0]
    f = P.need('HTiterate')
    R.func(f)
    t = inp(f, 0)
    m = IterMon(P, F, f, t, ZERO)
    eng = Engine(P, m, ht_inline(P), cap=400)
    ex = eng.run(f, m.start())
    some = none = 0
    for st, v in ex:
        cnt = ('fld', t, F.count, 0)
        if v == ZERO or st.truth(v) is False:
            none += 1
            sz = ('fld', t, F.size, 0)
            ok = st.truth(cnt) is False or st.known(cnt) == ZERO or st.truth(('op', '==', cnt, ZERO)) is True or \
                any(st.truth(('op', '<', i, sz)) is False for i in st.mon[0])
            R.check(ok, 'H6', 'empty', 'HTiterate', 'a table that may hold entries yields no iterator', f)
        else:
            x = st.mon[3]
            if x is None:
                # no non-empty bucket although the count is positive: excluded by H1/H2/H4
                continue
            some += 1
            cur, el = rd(eng, st, v, ef), rd(eng, st, v, xf)
            R.check(noep(cur) == ('fld', ('fld', t, F.buckets), ('[]', x[1])) and noep(el) == x[1] and rd(eng, st, v, tf) == t,
                    'H6', 'first', 'HTiterate', 'the iterator does not start at the first entry of the first non-empty bucket', f)
    R.check(some and none, 'H6', 'cases', 'HTiterate', 'case missing', f)
    f = P.need('HTiterateNext')
    R.func(f)
    it = inp(f, 0)
    m = IterMon(P, F, f, ('fld', it, tf), ('op', '+', ('fld', it, xf, 0), ONE))
    eng = Engine(P, m, ht_inline(P), cap=400)
    ex = eng.run(f, m.start())
    c0 = ('fld', ('fld', it, ef), F.next)
    kinds = set()
    for st, v in ex:
        cur, el = rd(eng, st, it, ef), rd(eng, st, it, xf)
        x = st.mon[3]
        nxt = [q for q in st.facts if noep(q) == c0]
        tn = [st.truth(q) for q in nxt]
        if v == it:
            R.check(st.mon[2] is None, 'H6', 'live', 'HTiterateNext', 'a freed iterator is returned', f)
            if noep(cur) == c0:
                kinds.add('chain')
                R.check(st.truth(cur) is True and noep(el) == ('fld', it, xf), 'H6', 'chain', 'HTiterateNext', 'may step to an entry that does not exist', f)
            else:
                kinds.add('bucket')
                R.check(x is not None and noep(cur) == ('fld', ('fld', ('fld', it, tf), F.buckets), ('[]', x[1])) and noep(el) == x[1] and False in tn,
                        'H6', 'bucket', 'HTiterateNext', 'entries are skipped or repeated when moving to the next bucket', f)
        else:
            kinds.add('end')
            sz = [q for q in st.facts if q[0] == 'op' and q[1] in ('<', '==') and any(noep(s) == ('fld', ('fld', it, tf), F.size) for s in subterms(q))]
            done = any((st.truth(q) is False and q[1] == '<' and noep(q[2]) in m.norm(st.mon[0]) and noep(q[3]) == ('fld', ('fld', it, tf), F.size)) or (st.truth(q) is True and q[1] == '==' ) for q in sz)
            R.check(v == ZERO and st.mon[2] == it and False in tn and done, 'H6', 'end', 'HTiterateNext',
                    'iteration ends early, or the iterator is not freed exactly once at the end', f)
    R.check(kinds == {'chain', 'bucket', 'end'}, 'H6', 'cases', 'HTiterateNext', 'only handles %s' % sorted(kinds), f)
    f = P.need('HTiterateCancel')
    m = IterMon(P, F, f, ('fld', inp(f, 0), tf), ZERO)
    for st, v in Engine(P, m, ht_inline(P)).run(f, m.start()):
        R.check(st.mon[2] == inp(f, 0), 'H6', 'cancel', 'HTiterateCancel', 'does not free the iterator', f)
    for n, fl in (('HTiterValue', F.value), ('HTiterKey', F.key)):
        f = P.need(n)
        R.func(f)
        for st, v in Engine(P, Monitor(), ht_inline(P)).run(f, ()):
            R.check(noep(v) == ('fld', ('fld', inp(f, 0), ef), fl), 'H6', n, n, 'returns %s' % show(v), f)
    f = P.need('HTiterSetValue')
    eng = Engine(P, Monitor(), ht_inline(P))
    for st, v in eng.run(f, ()):
        ok = [k for k, x in st.heap.items() if noep(k[0]) == ('fld', inp(f, 0), ef) and k[1] == F.value and x == inp(f, 1)]
        R.check(len(ok) == 1 and len(st.heap) == 1, 'H6', 'set', 'HTiterSetValue', 'does not just set the value of the current entry', f)


def copy_rules(R, P, F):
    for name, deep in (('HTcpy', False), ('HTdeep_copy', True)):
        f = P.need(name)
        R.func(f)
        t = inp(f, 0)

        class M(Monitor):
            n = 0

            def call(s, eng, st, fr, node, name_, cv, argv):
                if name_ == 'HTnew':
                    st.mon = (('NEW',), st.mon[1], st.mon[2])
                    R.check(noep(argv[1]) == ('fld', t, F.hash) and noep(argv[2]) == ('fld', t, F.eq), 'H7', name + ' functions', name,
                            'the copy uses other hash/equality functions', fr.func, node.line)
                    R.check(noep(argv[0]) == ('fld', t, F.size) or (st.truth(argv[0]) is True), 'H7', name + ' size', name,
                            'the copy has %s buckets' % show(argv[0]), fr.func, node.line)
                    return [(st, ('call', 'NEW', None, ()))]
                if name_ == 'HTiterate':
                    R.check(noep(argv[0]) == t, 'H7', name + ' source', name, 'iterates over %s' % show(argv[0]), fr.func, node.line)
                    rv = ('call', 'ITER', (fr.id, node.id), ())
                    st.mon = (st.mon[0], rv, 0)
                    return [(st, rv)]
                if name_ == 'HTiterateNext':
                    if st.mon[2] != 1 or argv[0] != st.mon[1]:
                        R.viol('H7', name, 'an entry is inserted %s times' % st.mon[2], fr.func, node.line)
                    rv = ('call', 'ITER', (fr.id, node.id), ())
                    eng.forget_site(st, (fr.id, node.id))
                    st.mon = (st.mon[0], rv, 0)
                    return [(st, rv)]
                if name_ in ('HTiterKey', 'HTiterValue'):
                    return [(st, ('call', name_, None, tuple(argv)))]
                if name_ == 'HTinsert':
                    s.n += 1

                    def ok(v, what):
                        pi = {'HTiterKey': 1, 'HTiterValue': 2}[what]
                        if deep:
                            if not (v[0] == 'call' and v[1] == 'COPY' and v[3][0] == inp(f, pi)):
                                return False
                            v = v[3][1]
                        return v[0] == 'call' and v[1] == what and v[3][0] == st.mon[1]
                    R.check(argv[0] == ('call', 'NEW', None, ()) and ok(argv[1], 'HTiterKey') and ok(argv[2], 'HTiterValue'),
                            'H7', name + ' insert', name, 'inserts (%s, %s)' % (show(argv[1]), show(argv[2])), fr.func, node.line)
                    st.mon = (st.mon[0], st.mon[1], st.mon[2] + 1)
                    return [(st, ONE)]
                if name_ is None:
                    return [(st, ('call', 'COPY', (fr.id, node.id), (cv,) + tuple(argv)))]
                return None

            def widen(s, mon, ren):
                for x, y in ren:
                    if x == mon[1]:
                        return (mon[0], y, mon[2])
                return mon

            def roots(s, mon):
                return [x for x in mon if isinstance(x, tuple)]
        m = M()
        eng = Engine(P, m, ht_inline(P), cap=400)
        ex = eng.run(f, (None, None, 0))
        for st, v in ex:
            R.check(v == ('call', 'NEW', None, ()), 'H7', name + ' result', name, 'returns %s' % show(v), f)
            R.check(st.mon[1] is not None and st.truth(st.mon[1]) is False, 'H7', name + ' complete', name, 'can return before all entries were copied', f)
        R.check(m.n > 0 and ex, 'H7', name + ' inserts', name, 'copies nothing', f)


def pair_rules(R, P, F):
    n = 0
    for f in P.funcs_in('palm/src/hash_table.c'):
        for nd in cfg_of(f).nodes:
            if nd.kind == 'call' and nd.data[1] == ('fn', 'HTnew'):
                a = nd.data[2]
                if a[1][0] != 'fn' or a[2][0] != 'fn':
                    continue
                n += 1
                h, e = P.resolve(f.tu, a[1][1]), P.resolve(f.tu, a[2][1])
                hb, eb = reads(h, P), reads(e, P)
                R.func(f)
                ok = hb['content'] <= eb['content'] if eb['content'] else True
                if eb['content'] and hb['raw']:
                    ok = False
                if eb['fold'] and not hb['fold']:
                    ok = False
                R.check(ok, 'H8', f.name, f.name, 'keys that %s considers equal can hash differently with %s' % (e.name, h.name), f)
    if n < 3:
        raise AnalysisBroken('predefined hash tables not found')


def reads(f, P, depth=0):
    """does the result of f depend on the pointed-to content / on the raw pointer / case-folded"""
    g = cfg_of(f)
    ptrs = set(p['n'] for p in f.params)
    content = set()
    raw = False
    fold = False

    def walk(e, deref):
        nonlocal raw, fold
        if not isinstance(e, tuple):
            return
        if e[0] == 'var' and e[1] in ptrs and not deref:
            raw = True
        if e[0] in ('deref', 'idx'):
            x = e[1]
            while isinstance(x, tuple) and x[0] in ('bin', 'cast', 'addr'):
                x = x[2] if x[0] == 'bin' else x[1]
            if x[0] == 'var':
                content.add('*')
                if e[0] == 'idx':
                    walk(e[2], False)
                return
        for x in e[1:]:
            if isinstance(x, tuple):
                walk(x, False)
    # temporaries that hold (advanced) copies of the pointer
    ch = True
    while ch:
        ch = False
        for n in g.nodes:
            if n.kind == 'asg' and n.data[0][0] == 'var' and n.data[0][1] not in ptrs:
                r = n.data[1]
                while r[0] in ('cast',):
                    r = r[1]
                if r[0] == 'var' and r[1] in ptrs and '*' in str(f.params[0]['t']):
                    ptrs.add(n.data[0][1])
                    ch = True
    for n in g.nodes:
        if n.kind == 'call':
            nm = n.data[1][1] if n.data[1][0] == 'fn' else ''
            if nm in ('tolower', 'toupper'):
                fold = True
            if nm in ('strcmp', 'strncmp', 'strcasecmp'):
                content.add('*')
                fold = fold or nm == 'strcasecmp'
                continue
            h = P.statics.get((f.tu, nm))
            if h is not None and depth < 3 and len(h.params) == len(n.data[2]):
                d = reads(h, P, depth + 1)
                content |= d['content']
                raw = raw or d['raw']
                fold = fold or d['fold']
                for a in n.data[2]:
                    if not (a[0] == 'var' and a[1] in ptrs):
                        walk(a, False)
                continue
            for a in n.data[2]:
                walk(a, False)
        elif n.kind == 'asg':
            r = n.data[1]
            if n.data[0][0] == 'var' and n.data[0][1] in ptrs:
                continue
            walk(r, False)
        elif n.kind in ('br', 'ret') and n.data is not None:
            d = n.data
            if d[0] == 'bin' and d[1] in ('==', '!=') and (d[3] == ('int', 0)):
                continue
            walk(d, False)
    return {'content': content, 'raw': raw, 'fold': fold}


# ------------------------------------------------------------------------ C13
CTIH = 'palm/src/ctinfo.c'


class CountMon(Monitor):
    """counts the increments of the message counters; collects how the run ends.
    mon: ((counter, increments), ...)"""
    def __init__(self, names):
        self.names = names
        self.ends = []
        self.bad = []

    def store(self, eng, st, fr, node, loc, val):
        if loc[0] != 'L' or loc[1] != ('G',) or loc[2] not in self.names:
            return None
        d = dict(st.mon)
        old = noep(rd(eng, st, loc[1], loc[2]))
        b, k = split(noep(val))
        ob, ok = split(old)
        if b != ob or val == ZERO:
            self.bad.append((fr.func, node.line, '%s is set to %s' % (loc[2], show(val))))
            return None
        d[loc[2]] = d.get(loc[2], 0) + k - ok
        return tuple(sorted(d.items()))

    def noreturn(self, eng, st, fr, node, name, argv):
        self.ends.append((st, name, argv, fr.func, node.line))


def c13(R, P):
    R.rule('count', 'CTI and CTIobj count an error message as exactly one error, a warning as one warning and other messages as nothing, on every path')
    R.rule('keep', 'no function but the message functions changes the counters; nothing ever resets them')
    R.rule('abort', 'CTIabortOnError ends the run with a failure status when errors were counted and returns otherwise; CTIabortCompilation and CTIabortOutOfMemory always end the run with a failure status')
    R.rule('signal', 'every handler of a crash or interrupt signal ends the run with a failure status')
    R.rule('get', 'CTIgetErrors and CTIgetWarnings return the counters')
    cnt = {}
    for fn in ('CTIgetErrors', 'CTIgetWarnings'):
        f = P.need(fn)
        R.func(f)
        vs = set()
        for st, v in Engine(P, Monitor(), lambda e, c, n: 'inline').run(f, ()):
            v = noep(v)
            vs.add(v[2] if v[0] == 'fld' and v[1] == ('G',) else None)
        R.check(len(vs) == 1 and None not in vs, 'get', fn, fn, '%s does not return a counter' % fn, f)
        cnt[fn] = vs.pop() if len(vs) == 1 else None
    err, warn = cnt['CTIgetErrors'], cnt['CTIgetWarnings']
    if err is None or warn is None:
        return
    R.check(err != warn, 'get', 'two counters', 'CTIgetErrors', 'errors and warnings share a counter', P.need('CTIgetErrors'))
    # who touches the counters or ends the run
    cg = callgraph.build(P)

    def touches(f):
        for n in cfg_of(f).nodes:
            if n.kind == 'asg' and n.data[0] in (('glob', err), ('glob', warn)) and rel(f.file) == CTIH:
                return True
            if n.kind == 'call' and n.data[1] in (('fn', 'exit'), ('fn', '_exit'), ('fn', 'abort'), ('fn', '_Exit'), ('fn', 'quick_exit')):
                return True
        return False
    direct = set(f for f in P.all_funcs() if rel(f.file) == CTIH and touches(f))
    rele = set(f for f in P.all_funcs() if rel(f.file) == CTIH and (f.static and cg.reach(f) & direct or f in direct))

    def pol(e, c, n):
        f = P.resolve(c.tu, n)
        return 'inline' if f is not None and rel(f.file) == CTIH and (f in rele or cg.reach(f) & direct or f.static and small(f)) else 'opaque'

    def small(f):
        return not cfg_of(f).loops and len(cfg_of(f).nodes) < 40

    def run(f, args=None, init=None):
        m = CountMon((err, warn))
        ex = Engine(P, m, pol, cap=400).run(f, (), args, init)
        R.func(f)
        for ff, line, msg in m.bad:
            R.viol('keep', ff.name, msg, ff, line)
        return m, ex
    enum = [vs for k, vs in P.enums.items() if any(n == 'CTI_ERROR' for n, v in vs)]
    if not enum:
        raise AnalysisBroken('severities not found')
    entry = {}
    for fn in ('CTI', 'CTIobj'):
        f = P.need(fn)
        for name, v in enum[0]:
            m, ex = run(f, [('c', v)])
            want = tuple(sorted([(err, 1)] if name == 'CTI_ERROR' else [(warn, 1)] if name == 'CTI_WARN' else []))
            R.check(bool(ex) or bool(m.ends), 'count', '%s(%s) returns' % (fn, name), fn, '%s(%s) never returns' % (fn, name), f)
            for st, rv in ex:
                got = tuple(x for x in st.mon if x[1])
                R.check(got == want, 'count', '%s(%s)' % (fn, name), '%s %s' % (fn, name),
                        '%s with severity %s counts %s' % (fn, name, ', '.join('%s%+d' % x for x in got) or 'nothing'), f)
    # the counters are only changed on behalf of messages
    ok = set()
    for fn in ('CTI', 'CTIobj', 'CTIabortOutOfMemory'):
        f = P.funcs.get(fn)
        if f is not None:
            ok |= set(x for x in cg.reach(f) if rel(x.file) == CTIH)
    for f in P.all_funcs():
        if rel(f.file) != CTIH:
            continue
        w = any(n.kind == 'asg' and n.data[0] in (('glob', err), ('glob', warn)) for n in cfg_of(f).nodes)
        a = any(('addr', ('glob', x)) in list(subterms(d)) for n in cfg_of(f).nodes if n.data for d in n.data if isinstance(d, tuple) for x in (err, warn))
        outside = f.name not in ('CTI', 'CTIobj', 'CTIabortOutOfMemory') and set(c for c in cg.callers.get(f, ()) if c not in ok)
        if w or a:
            R.check(f in ok and not a and not outside, 'keep', f.name, f.name, 'the message counters are changed outside the message functions', f)

    def failure(m, what, f):
        for st, name, argv, ff, line in m.ends:
            x = argv[0] if argv else None
            x = st.known(x) or x if x is not None else None
            good = name == 'abort' or x is not None and x[0] == 'c' and x[1] % 256 != 0 or name not in ('exit', '_exit', '_Exit', 'quick_exit')
            R.check(good, 'abort' if what != 'signal' else 'signal', '%s: %s' % (f.name, name), f.name, '%s ends the run with status %s' % (f.name, show(x) if x is not None else '?'), ff, line)
    e = ('fld', ('G',), err)

    f = P.need('CTIabortOnError')
    m, ex = run(f)
    failure(m, 'abort', f)
    key = ('fld', ('G',), err, 0)
    R.check(bool(m.ends), 'abort', 'ends', f.name, 'CTIabortOnError never ends the run', f)
    R.check(bool(ex), 'abort', 'returns', f.name, 'CTIabortOnError never returns', f)
    for lo in (1, 2, 3, 250):
        st = State(mon=())
        st.heap[(('G',), err)] = ('c', lo)
        m, ex = run(f, None, st)
        R.check(not ex, 'abort', '%d errors' % lo, f.name, 'CTIabortOnError returns although %d errors were counted' % lo, f)
    st = State(mon=())
    st.heap[(('G',), err)] = ZERO
    for x in ([], [(('G',), warn)]):
        s2 = st.copy()
        for k in x:
            s2.heap[k] = ('c', 3)
        m, ex = run(f, None, s2)
        R.check(bool(ex) and not m.ends, 'abort', 'no errors', f.name, 'CTIabortOnError ends the run although no error was counted', f)
    for fn in ('CTIabortCompilation', 'CTIabortOutOfMemory'):
        f = P.need(fn)
        m, ex = run(f)
        R.check(bool(m.ends) and not ex, 'abort', fn, fn, '%s can return' % fn, f)
        failure(m, 'abort', f)
    # signal handlers
    seen = False
    for f in P.all_funcs():
        for n in cfg_of(f).nodes:
            if n.kind == 'call' and n.data[1] in (('fn', 'signal'),) and len(n.data[2]) == 2:
                h = n.data[2][1]
                if h[0] != 'fn':
                    continue
                h = P.resolve(f.tu, h[1])
                if h is None:
                    continue
                seen = True
                m, ex = run(h)
                R.check(not ex, 'signal', '%s returns' % h.name, h.name, 'the signal handler %s returns' % h.name, h)
                failure(m, 'signal', h)
    R.need('count', 8)
