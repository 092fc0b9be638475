"""Composition of emission summaries over symbolic AST skeletons.

A skeleton says which lists have how many elements and which flags an element
carries; every name stays symbolic.  Rendering follows, for each element, the
abstract paths of the handler (emit.py) that are consistent with those flags
and with the values of the generator's own counters, and yields the exact text
with holes such as {a1.name.lwr}.
"""
import re, time
from program import AnalysisBroken
import emit
from emit import name


class Inst:
    """one AST node of a skeleton: kind, label, flags, child lists"""
    def __init__(self, kind, label, flags=None, lists=None):
        self.kind, self.label = kind, label
        self.flags = dict(flags or {})
        self.lists = dict(lists or {})

    def __repr__(self):
        return self.label


NAMED = re.compile(r'^(?:[A-Za-z_]\w*|glob:)[^{}\s]*\.(?:orig|lwr|upr|Upr)$')
UNK = None


def link(inst, seen=None):
    """successor of every element in its list"""
    seen = set() if seen is None else seen
    if id(inst) in seen:
        return
    seen.add(id(inst))
    if not hasattr(inst, 'sib'):
        inst.sib = None
    for l in inst.lists.values():
        if isinstance(l, Inst):
            link(l, seen)
            continue
        for a, b in zip(l, list(l[1:]) + [None]):
            a.sib = b
            link(a, seen)


class Scope:
    def __init__(self, inst, up=None):
        self.inst, self.up = inst, up

    def find(self, kind):
        s = self
        while s is not None:
            if s.inst.kind == kind:
                return s.inst
            s = s.up
        return None


class Renderer:
    """limit: alternatives explored per rendering"""
    def __init__(self, E, facts=None, limit=64, lookups=None, cname=None, prov=False, globals_=None):
        self.E = E
        self.lookups = lookups or {}
        self.cname = cname or (lambda l: l)
        self.prov = prov
        self.ginit = globals_ or {}
        self.facts = facts or {}
        self.limit = limit
        self.unknown = {}
        self.g = {}
        self.opens = True
        self.copies = {}
        self.deadline = None

    # --------------------------------------------------------------- values
    def pick(self, v, sc):
        """element an index expression selects from a constant table"""
        i = self.val(v[2], sc, self.g)
        if isinstance(i, int) and 0 <= i < len(v[1][1]):
            return v[1][1][i]
        return None

    def inst(self, v, sc):
        """skeleton instance a node value stands for"""
        k = v[0]
        if k == 'call' and v in self.g:
            return self.inst(self.g[v], sc)
        if k == 'call' and v[1] in ('HTiterKey', 'HTiterValue'):
            x = self.entry(v, sc)
            return self.inst(x, sc) if isinstance(x, tuple) else None
        if k == 'pick':
            x = self.pick(v, sc)
            return self.inst(x, sc) if x is not None else None
        if k == 'el':
            return sc.find(v[2])
        if k == 'node':
            return sc.find(v[1])
        if k == 'frozen':
            return v[3]
        if k == 'phi':
            x = self.g.get(v)
            return self.inst(x, sc) if isinstance(x, tuple) else None
        if k == 'fld' and isinstance(v[2], str):
            if emit.isglob(v[1]):
                x = self.g.get(emit.gkey((v[1], v[2])))
                return self.inst(x, sc) if isinstance(x, tuple) else None
            b = self.inst(v[1], sc)
            f = v[2].split('.')[-1]
            if isinstance(b, Inst):
                x = self.g.get('=%s.%s' % (b.label, f))
                if isinstance(x, tuple):
                    return self.inst(x, sc)
                if x == 0:
                    return None
                if f == 'next' and f not in b.lists:
                    return getattr(b, 'sib', None)
            elif b is None and v[1][0] in ('call', 'phi'):
                x = self.g.get('=' + self.place(v, sc))
                if isinstance(x, tuple):
                    return self.inst(x, sc)
            if isinstance(b, Inst) and f in b.lists:
                l = b.lists[f]
                if isinstance(l, Inst):
                    return l
                return l[0] if l else None
        if k == 'call' and isinstance(v[2], tuple) and v[2][:1] == ('m',):
            x = self.evalcall(v, sc)
            return self.inst(x, sc) if isinstance(x, tuple) else None
        if k == 'call' and v[1] == 'CCNcopy' and v[3]:
            src = self.inst(v[3][0], sc)
            if src is None:
                return None
            key = (src.label, self.g.get('%n', 0))
            if key not in self.copies:
                self.copies[key] = Inst(src.kind, '%s~%d' % key, src.flags, src.lists)
                self.copies[key].sib = None
            return self.copies[key]
        if k == 'call' and v[1] == 'HTlookup' and len(v[3]) == 2:
            x = self.htget(v, sc)
            if x is not None:
                return self.inst(x, sc) if isinstance(x, tuple) else None
        if k == 'call' and v[1] in ('STlookup', 'HTlookup') and len(v[3]) == 2:
            return self.lookups.get(self.label(v[3][1], sc).replace('.lwr', '').replace('.orig', ''))
        return None

    def unbind(self, ph, g, g2):
        g2 = dict(g2)
        for p in ph:
            if p in g:
                g2[p] = g[p]
        return g2

    def bind(self, ph, args, sc, g):
        self.g = g
        g2 = dict(g)
        for p, a in zip(ph, args):
            y = self.val(a, sc, g)
            g2[p] = y if isinstance(y, int) else self.freeze(a, sc, y)
        return g2

    def evalcall(self, v, sc):
        """value of a call of a summarised function, None when not determined"""
        old = self.g
        try:
            ph, paths = self.E.summary(v[1], v[2][1])
            g = self.bind(ph, v[3], sc, old)
            out = []
            for p in paths:
                out += self.events(None, p.ev, 0, sc, g, (), '', None)
            rs = set(repr(x[1].get('%ret')) for x in out)
            if len(rs) != 1:
                return None
            return out[0][1].get('%ret')
        finally:
            self.g = old

    def htget(self, v, sc):
        """entry of a model table: frozen value, 0 when absent, None when the table is unknown"""
        t = 'ht:' + self.label(v[3][0], sc)
        if t not in self.g:
            return 0 if '(' in t else None
        k = self.keyof(v[3][1], sc)
        for a, fk, fv in reversed(self.g[t]):
            if a == k:
                return fv
        return 0

    def iter(self, v, sc):
        """(table, position) of an iterator over a model table, None when unknown"""
        if v[0] == 'phi' and isinstance(self.g.get(v), tuple):
            v = self.g[v]
        if v[0] == 'frozen':
            m = re.match(r'^HTiter\|(.*)\|(\d+)$', v[1])
            return (m.group(1), int(m.group(2))) if m else None
        if v[0] != 'call':
            return None
        if v[1] == 'HTiterate':
            t = 'ht:' + self.label(v[3][0], sc)
            return (t, 0) if t in self.g else None
        if v[1] == 'HTiterateNext':
            x = self.iter(v[3][0], sc)
            return x and (x[0], x[1] + 1)
        return None

    def entry(self, v, sc):
        """key or value of the entry an iterator stands on"""
        x = self.iter(v[3][0], sc)
        if x is None or x[1] >= len(self.g[x[0]]):
            return None
        return self.g[x[0]][x[1]][1 if v[1] == 'HTiterKey' else 2]

    def place(self, v, sc):
        """name of the location a member expression designates (label names the value it holds)"""
        if v[0] == 'fld' and v[1] != ('G',):
            f = v[2] if isinstance(v[2], str) else '[' + self.label(v[2][1], sc) + ']'
            b = self.inst(v[1], sc)
            if isinstance(b, Inst):
                return b.label + (f if f.startswith('[') else '.' + f.split('.')[-1])
            return self.label(v[1], sc) + (f if f.startswith('[') else '.' + f.split('.')[-1])
        return self.label(v, sc)

    def label(self, v, sc):
        k = v[0]
        if k == 'pick':
            x = self.pick(v, sc)
            return self.label(x, sc) if x is not None else name(v)
        if k == 'frozen':
            return v[1]
        if k == 'call' and v in self.g:
            return self.label(self.g[v], sc)
        if k == 'call' and v[1] in ('HTiterate', 'HTiterateNext'):
            x = self.iter(v, sc)
            if x is not None:
                return 'HTiter|%s|%d' % x
        if k == 'call' and v[1] in ('HTiterKey', 'HTiterValue'):
            x = self.entry(v, sc)
            if x is not None:
                return self.label(x, sc) if isinstance(x, tuple) else str(x)
        if k == 'phi' and v in self.g:
            x = self.g[v]
            return self.label(x, sc) if isinstance(x, tuple) else str(x)
        if k == 'el' or k == 'node':
            i = sc.find(v[2] if k == 'el' else v[1])
            return i.label if i else name(v)
        if k == 'fld':
            f = v[2] if isinstance(v[2], str) else '[' + self.label(v[2][1], sc) + ']'
            if v[1] == ('G',):
                x = self.g.get(v[2])
                if isinstance(x, tuple):
                    return self.label(x, sc)
                return 'glob:' + v[2]
            i = self.inst(v, sc)
            if i is not None:
                return i.label
            if v[1][0] in ('call', 'phi'):
                x = self.place(v, sc)
                x = self.g.get('=' + x) if x.startswith('new~') else None
                if isinstance(x, tuple):
                    return self.label(x, sc)
            if not f.startswith('['):
                f = '.' + f.split('.')[-1]
            return self.label(v[1], sc) + f
        if k == 'call' and isinstance(v[2], tuple) and v[2][:1] == ('m',):
            x = self.evalcall(v, sc)
            if x is not None:
                return self.label(x, sc) if isinstance(x, tuple) else str(x)
        if k == 'call':
            a = [self.label(x, sc) for x in v[3] if isinstance(x, tuple)]
            i = self.inst(v, sc)
            if i is not None:
                return i.label
            if v[1] == 'STlookup' and len(a) == 2:
                return 'lookup(%s)' % a[1]
            if v[1].startswith('HTnew'):
                return '%s(%s)@%s' % (v[1], ','.join(a), v[2])
            return '%s(%s)' % (v[1], ','.join(a))
        if k == 'op' and len(v) == 4:
            return '(%s%s%s)' % (self.label(v[2], sc), v[1], self.label(v[3], sc))
        if k == 'op':
            return '%s%s' % (v[1], self.label(v[2], sc))
        return name(v)

    def val(self, v, sc, g):
        """concrete value (int / str / 'nonnull') or UNK"""
        old, self.g = self.g, g if g else self.g
        try:
            return self.val2(v, sc, g)
        finally:
            self.g = old

    def val2(self, v, sc, g):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 's':
            return 'str'
        if k == 'fn':
            return 'fn'
        if k == 'pick':
            x = self.pick(v, sc)
            return self.val(x, sc, g) if x is not None else UNK
        if k in ('el', 'node', '&'):
            return 'nonnull'
        if k == 'call' and v in g:
            return self.val(g[v], sc, g)
        if k == 'call' and v[1] in ('HTiterate', 'HTiterateNext'):
            x = self.iter(v, sc)
            if x is not None:
                return 'nonnull' if x[1] < len(self.g[x[0]]) else 0
        if k == 'call' and v[1] in ('HTiterKey', 'HTiterValue'):
            x = self.entry(v, sc)
            if x is not None:
                return self.val(x, sc, g) if isinstance(x, tuple) else x
        if k == 'call' and v[1] == 'HTelementCount':
            t = 'ht:' + self.label(v[3][0], sc)
            if t in self.g:
                return len(self.g[t])
        if k == 'phi' and v in g:
            x = g[v]
            return self.val(x, sc, g) if isinstance(x, tuple) else x
        if k == 'call' and isinstance(v[2], tuple) and v[2][:1] == ('m',):
            x = self.evalcall(v, sc)
            if x is not None:
                return self.val(x, sc, g) if isinstance(x, tuple) else x
        if k == 'call' and len(v) == 4:
            a = [self.val(x, sc, g) if isinstance(x, tuple) else UNK for x in v[3]]
            if a and all(isinstance(x, int) for x in a) and self.E.purefn(None, v[1]):
                r = self.E.purecall(v[1], tuple(a))
                if r is None:
                    raise AnalysisBroken('%s(%s) yields no value' % (v[1], ', '.join(map(str, a))))
                return self.val(r, sc, g)
        if k == 'fld':
            if v[1] == ('G',) or emit.isglob(v[1]):
                kk = emit.gkey((v[1], v[2])) if isinstance(v[2], str) else None
                if kk in g:
                    x = g[kk]
                    return self.val(x, sc, {}) if isinstance(x, tuple) else x
                if kk in self.ginit:
                    return self.ginit[kk]
            l = '=' + self.place(v, sc)
            if l in g:
                x = g[l]
                return self.val(x, sc, {}) if isinstance(x, tuple) else x
            if isinstance(v[2], str):
                b = self.inst(v[1], sc)
                f = v[2].split('.')[-1]
                if isinstance(b, Inst):
                    if f in b.flags:
                        return b.flags[f]
                    if v[2] == 'nodetype' and 'NT_' + b.kind.upper() in self.E.P.enum_of:
                        return self.E.P.enum_of['NT_' + b.kind.upper()][1]
                    if f in b.lists:
                        return 'nonnull' if b.lists[f] else 0
                    if f == 'next' and hasattr(b, 'sib'):
                        return 'nonnull' if b.sib is not None else 0
        if k == 'op':
            if len(v) == 3:
                x = self.val(v[2], sc, g)
                if x is UNK:
                    return self.fact(v, sc)
                if v[1] == '!':
                    return 0 if x != 0 else 1
                if v[1] == '-' and isinstance(x, int):
                    return -x
                return UNK
            a, b = self.val(v[2], sc, g), self.val(v[3], sc, g)
            op = v[1]
            if op == '&&':
                if a == 0 or b == 0:
                    return 0
                return 1 if a is not UNK and b is not UNK else UNK
            if op == '||':
                if a not in (UNK, 0) or b not in (UNK, 0):
                    return 1
                return 0 if a == 0 and b == 0 else UNK
            if isinstance(a, int) and isinstance(b, int):
                r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '==': lambda: int(a == b), '!=': lambda: int(a != b),
                     '<': lambda: int(a < b), '<=': lambda: int(a <= b), '>': lambda: int(a > b), '>=': lambda: int(a >= b),
                     '&': lambda: a & b, '|': lambda: a | b, '<<': lambda: a << b if 0 <= b < 64 else UNK, '>>': lambda: a >> b if b >= 0 else UNK, '%': lambda: a % b if b else UNK}.get(op)
                return r() if r else UNK
            if op in ('==', '!=') and (a, b) in (('nonnull', 0), (0, 'nonnull'), ('fn', 0), ('str', 0)):
                return int(op == '!=')
        return self.fact(v, sc)

    def fact(self, v, sc):
        if v[0] == 'call' and v[1] in ('STReq', 'STReqci', 'strcmp') and len(v[3]) == 2:
            a, b = [self.string(x, sc) for x in v[3]]
            if a is not None and b is not None:
                if v[1] == 'STReqci':
                    a, b = a.lower(), b.lower()
                return int((a == b) == (v[1] != 'strcmp'))
        if v[0] == 'call' and v[1] in ('STRlen', 'strlen') and len(v[3]) == 1:
            a = self.string(v[3][0], sc)
            if a is not None:
                return len(a)
        if v[0] == 'call' and v[1] == 'HTlookup' and len(v[3]) == 2:
            x = self.htget(v, sc)
            if x is not None:
                return self.val(x, sc, self.g) if isinstance(x, tuple) else x
        if v[0] == 'call' and v[1] in ('STlookup', 'CCNcopy') and self.inst(v, sc) is not None:
            return 'nonnull'
        if v[0] == 'frozen':
            return v[2]
        l = self.label(v, sc)
        if l in self.facts:
            return self.facts[l]
        for k, x in self.facts.items():
            if k.startswith('~') and re.search(k[1:], l):
                return x
        return UNK

    def string(self, v, sc):
        if v[0] == 's':
            return v[1]
        if v[0] == 'pick':
            x = self.pick(v, sc)
            return self.string(x, sc) if x is not None else None
        if v[0] == 'phi' and v in self.g:
            x = self.g[v]
            return self.string(x, sc) if isinstance(x, tuple) else None
        if v[0] == 'frozen':
            return self.cname(v[1])
        if v[0] == 'call' and isinstance(v[2], tuple) and v[2][:1] == ('m',):
            x = self.evalcall(v, sc)
            return self.string(x, sc) if isinstance(x, tuple) else None
        if v[0] == 'call' and len(v) == 4:
            a = v[3]
            if v[1] in ('STRupper', 'STRlower', 'STRcpy') and a:
                x = self.string(a[0], sc)
                return None if x is None else x.upper() if v[1] == 'STRupper' else x.lower() if v[1] == 'STRlower' else x
            if v[1] in ('STRcat', 'STRcatn', 'STRfmt'):
                ps = self.E.pieces(v)
                if any(not isinstance(p, str) and p[1] == v for p in ps):
                    return None
                xs = [p if isinstance(p, str) else self.string(p[1], sc) for p in ps]
                if None in xs:
                    return None
                return ''.join(xs)
            xs = [self.val(x, sc, self.g) if isinstance(x, tuple) else UNK for x in a]
            if xs and all(isinstance(x, int) for x in xs) and self.E.purefn(None, v[1]):
                r = self.E.purecall(v[1], tuple(xs))
                if r is None:
                    raise AnalysisBroken('%s(%s) yields no value' % (v[1], ', '.join(map(str, xs))))
                return self.string(r, sc)
            return None
        if v[0] == 'fld' and isinstance(v[2], str) and v[2].split('.')[-1] in ('orig', 'lwr', 'Upr', 'upr'):
            return self.cname(self.label(v, sc))
        return None

    def pieces(self, ps, sc, g):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p)
            else:
                v = p[1]
                x = self.val(v, sc, g)
                if isinstance(x, int) and v[0] != 'c':
                    out.append(str(x))
                    continue
                if v[0] in ('call', 'phi', 'pick'):
                    t = self.string(v, sc)
                    if t is not None:
                        out.append(t)
                        continue
                gv = v
                if v[0] == 'fld' and emit.isglob(v[1]):
                    kk = emit.gkey((v[1], v[2]))
                    if isinstance(g.get(kk), tuple):
                        gv = g[kk]
                        if gv[0] == 's':
                            out.append(gv[1])
                            continue
                elif '=' + self.place(v, sc) in g:
                    x = g['=' + self.place(v, sc)]
                    if isinstance(x, tuple):
                        gv = x
                l = re.sub(r'\s+', '', self.label(gv, sc))
                if self.prov and not NAMED.match(l):
                    raise AnalysisBroken('an emitted value is unknown: %s' % l[:80])
                out.append('{' + l + '}')
        return ''.join(out)

    # ---------------------------------------------------------------- walk
    def run(self, trav, inst, globs=None):
        """all texts of one rooted rendering: list of (text, globs, assumptions)"""
        self.states = 0
        sc = Scope(inst)
        g = dict(globs or {})
        res = self.elem(trav, [inst], 0, inst.kind, ('node', inst.kind), None, g, (), False)
        return res

    def run_pass2(self, fname, inst, globs):
        out = []
        for p in self.E.run_pass(fname):
            out += self.events(None, p.ev, 0, Scope(inst), dict(globs), (), '', None)
        return out

    def run_pass(self, fname, inst):
        sc = Scope(inst)
        out = []
        for p in self.E.run_pass(fname):
            out += self.events(None, list(p.ev), 0, sc, {}, (), '', None)
        return out

    def elem(self, trav, insts, i, typ, value, sc0, g, asm, single):
        """render insts[i] (and, via its 'next', the following ones)"""
        if i >= len(insts):
            return [('', g, asm)]
        inst = insts[i]
        sc = Scope(inst, sc0)
        paths = self.E.expand(trav, inst.kind, value if value[0] == 'node' else ('el', value, inst.kind) if value[0] != 'el' else value)
        out = []
        for p in paths:
            if p.type != inst.kind:
                continue
            cont = None if single else (lambda g2, a2: self.elem(trav, insts, i + 1, typ, value, sc0, g2, a2, False))
            out += self.events(trav, p.ev, 0, sc, dict(g), asm, '', cont)
            if len(out) > self.limit:
                raise AnalysisBroken('rendering %s: too many alternatives (%s)' % (trav, sorted(self.unknown)[:6]))
        return out

    def paths_of(self, alts, kind):
        return [p for p in alts if p.type == kind]

    def events(self, trav, evs, i, sc, g, asm, txt, cont):
        """returns list of (text, globs, assumptions)"""
        n = len(evs)
        if self.deadline is not None and time.time() > self.deadline:
            raise AnalysisBroken('rendering %s takes too long' % trav)
        while i < n:
            e = evs[i]
            k = e[0]
            self.g = g
            if k == 't':
                if self.prov:
                    txt += '\x0e%s:%s\x0f' % (e[4], e[3])
                txt += self.pieces(e[1], sc, g)
            elif k == 'set':
                g = dict(g)
                b = e[1]
                f = e[2] if isinstance(e[2], str) else '[%s]' % self.label(e[2][1], sc)
                l = '=' + self.place(('fld', b, e[2]), sc)
                x = self.val(e[3], sc, g)
                g[l] = x if isinstance(x, int) else self.freeze(e[3], sc, x)
            elif k == 'call' and e[1] == ('fn', 'HTinsert'):
                t = self.label(e[2][0], sc)
                ent = []
                for x in e[2][1:3]:
                    y = self.val(x, sc, g)
                    ent.append(y if isinstance(y, int) else self.freeze(x, sc, y))
                g = dict(g)
                kk = self.keyof(e[2][1], sc)
                g['ht:' + t] = tuple(x for x in g.get('ht:' + t, ()) if x[0] != kk) + ((kk,) + tuple(ent),)
            elif k == 'call' and e[1][0] == 'fn' and (e[1][1].startswith('HTnew') or e[1][1] == 'CCNcopy'):
                g = dict(g)
                g['%n'] = g.get('%n', 0) + 1
                if len(e) > 4 and e[1][1].startswith('HTnew'):
                    g['ht:' + self.label(e[4], sc)] = ()
            elif k == 'call' and e[1] == ('fn', 'HTiterSetValue'):
                x = self.iter(e[2][0], sc)
                if x is not None and x[1] < len(g[x[0]]):
                    y = self.val(e[2][1], sc, g)
                    y = y if isinstance(y, int) else self.freeze(e[2][1], sc, y)
                    g = dict(g)
                    t = list(g[x[0]])
                    t[x[1]] = t[x[1]][:2] + (y,)
                    g[x[0]] = tuple(t)
            elif k == 'call' and e[1] in (('fn', 'MEMmalloc'), ('fn', 'MEMalloc')) and len(e) > 4:
                g = dict(g)
                g['%n'] = g.get('%n', 0) + 1
                g[e[4]] = ('frozen', 'new~%d' % g['%n'], 'nonnull', None)
            elif k == 'map':
                return self.fork(self.domap(trav, e, sc, g, asm), trav, evs, i + 1, sc, txt, cont)
            elif k == 'inl':
                ph, paths = self.E.summary(e[1], e[2])
                g2 = self.bind(ph, e[3], sc, g)
                subs = []
                for p in paths:
                    subs += self.events(trav, p.ev, 0, sc, g2, asm, '', None)
                # a recursive use would need its bindings back
                return self.fork([(t, self.unbind(ph, g, g3), a3) for t, g3, a3 in subs], trav, evs, i + 1, sc, txt, cont)
            elif k == 'ret':
                if e[1] is not None:
                    y = self.val(e[1], sc, g)
                    g = dict(g)
                    g['%ret'] = y if isinstance(y, int) else self.freeze(e[1], sc, y)
            elif k == 'back':
                self.g = g
                g2 = dict(g)
                for phi, x in e[1]:
                    y = self.val(x, sc, g)
                    g2[phi] = y if isinstance(y, int) else self.freeze(x, sc, y)
                g = g2
            elif k == 'if':
                x = self.val(e[1], sc, g)
                if x is not UNK:
                    if bool(x) != bool(e[2]):
                        return []
                else:
                    l = self.label(e[1], sc)
                    for (al, av) in asm:
                        if al == l:
                            if av != e[2]:
                                return []
                            break
                    else:
                        self.unknown[l] = e[3]
                        asm = asm + ((l, e[2]),)
            elif k == 'gset':
                v = e[2]
                x = self.val(v, sc, g)
                g = dict(g)
                g[e[1]] = x if isinstance(x, int) else v if v[0] in ('s',) else self.freeze(v, sc, x)
            elif k == 'next':
                if cont is not None and not e[1]:
                    return self.fork(cont(g, asm), trav, evs, i + 1, sc, txt, cont)
            elif k == 'list' or k == 'start':
                if k == 'list':
                    t2, v, alts, single, gs = trav, e[1], e[3], False, e[4]
                else:
                    t2, v, alts, single, gs = e[1], e[2], e[5], e[4], None
                insts = self.insts(v, sc)
                if insts is UNK:
                    mem = sorted(set(p.type for p in alts))
                    insts = [Inst(m, self.label(v, sc)) for m in mem[:1]]
                    single = True
                if v[0] in ('el', 'node') and k == 'start':
                    # the rest of the list the node sits in is not part of this visit unless next was kept
                    single = True
                return self.fork(self.seq(t2, insts, 0, alts, sc, g, asm, single), trav, evs, i + 1, sc, txt, cont)
            elif k == 'loop':
                g = dict(g)
                for phi, x in e[2]:
                    y = self.val(x, sc, g)
                    g[phi] = y if isinstance(y, int) else self.freeze(x, sc, y)
                states = [(txt, g, asm)]
                out = []
                for it in range(200):
                    new = []
                    for t, g2, a2 in states:
                        out += self.events(trav, evs, i + 1, sc, g2, a2, t, cont)
                        for b in e[1]:
                            new += self.events(trav, b, 0, sc, g2, a2, t, None)
                    states = new
                    if len(out) + len(states) > self.limit:
                        raise AnalysisBroken('rendering %s: too many alternatives in a loop (%s)' % (trav, sorted(self.unknown)[:6]))
                    if not states:
                        return out
                raise AnalysisBroken('rendering %s: a loop does not end (%s)' % (trav, sorted(self.unknown)[:6]))
            elif k == 'rec':
                return self.fork(self.seq(e[1], [sc.find(e[2])] if False else self.insts(e[3], sc) or [], 0, None, sc.up or sc, g, asm, False),
                                 trav, evs, i + 1, sc, txt, cont)
            elif k == 'open' and self.opens:
                txt += '\x06%s %s\x07' % (e[1], self.pieces(e[2], sc, g))
            elif k == 'broken':
                raise AnalysisBroken(e[1])
            elif k == 'traverr':
                txt += '\x06TRAVerror %s\x07' % e[1]
            i += 1
        return [(txt, g, asm)]

    def domap(self, trav, e, sc, g, asm):
        _, fname, ht, fn, _, tu = e
        f = self.E.P.resolve(tu, fn) if fn else None
        t = 'ht:' + self.label(ht, sc)
        if f is None or t not in g:
            raise AnalysisBroken('%s over %s cannot be resolved' % (fname, t))
        states = [('', g, asm)]
        phis = [('phi', 'map', p['n'], fn) for p in f.params]
        args = phis[:2] if 'Key' in fname else phis[:1]
        old = self.E.cur
        paths = self.E.raw_paths(f, phis, {}, ())
        self.E.cur = old
        for _, fk, fv in g[t]:
            new = []
            for txt, g2, a2 in states:
                g3 = dict(g2)
                for phi, x in zip(phis, (fk, fv) if len(args) == 2 else (fv,)):
                    g3[phi] = x
                for p in paths:
                    new += self.events(trav, self.E.expand_events(trav, p.ev, 0), 0, sc, g3, a2, txt, None)
            states = new
        return states

    def keyof(self, v, sc):
        s = self.string(v, sc)
        return s if s is not None else self.label(v, sc)

    def freeze(self, v, sc, x):
        if v[0] in ('s', 'frozen'):
            return v
        if self.inst(v, sc) is None:
            t = self.string(v, sc)
            if t is not None:
                return ('s', t)
        return ('frozen', self.label(v, sc), x, self.inst(v, sc))

    def fork(self, subs, trav, evs, i, sc, txt, cont):
        out = []
        for t, g2, a2 in subs:
            out += self.events(trav, evs, i, sc, g2, a2, txt + t, cont)
            if len(out) > self.limit:
                raise AnalysisBroken('rendering %s: too many alternatives (%s)' % (trav, sorted(self.unknown)[:6]))
        return out

    def insts(self, v, sc):
        i = self.inst(v, sc)
        if v[0] in ('el', 'node'):
            return [i] if i else UNK
        if v[0] == 'fld' and isinstance(v[2], str):
            b = self.inst(v[1], sc)
            f = v[2].split('.')[-1]
            if isinstance(b, Inst):
                if f in b.lists:
                    l = b.lists[f]
                    return [l] if isinstance(l, Inst) else list(l)
                if b.flags.get(f) == 0:
                    return []
                if f == 'next' and hasattr(b, 'sib'):
                    return [b.sib] if b.sib is not None else []
        return UNK

    def seq(self, trav, insts, i, alts, sc, g, asm, single):
        if i >= len(insts):
            return [('', g, asm)]
        inst = insts[i]
        s2 = Scope(inst, sc)
        ps = [p for p in alts if p.type == inst.kind] if alts is not None else self.E.expand(trav, inst.kind)
        if not ps:
            h = self.E.handler(trav, inst.kind)
            # no handler: an inert node; the list goes on only if its default visits next
            if h == 'TRAVchildren':
                return self.seq(trav, insts, i + 1, alts, sc, g, asm, single)
            return [('', g, asm)]
        cont = None if single else (lambda g2, a2: self.seq(trav, insts, i + 1, alts, sc, g2, a2, single))
        out = []
        for p in ps:
            out += self.events(trav, p.ev, 0, s2, dict(g), asm, '', cont)
        if len(out) > self.limit:
            raise AnalysisBroken('rendering %s: too many alternatives (%s)' % (trav, sorted(self.unknown)[:6]))
        return out
