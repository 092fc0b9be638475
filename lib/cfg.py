"""Lowering of ccx ASTs to a three-address control-flow graph.

Pure expressions (tuples):
  ('int',v) ('str',s) ('float',v) ('fn',name) ('var',id) ('glob',name)
  ('fld',place,f)  place.f   (place denotes a location or, through 'deref', a pointee)
  ('idx',base,i)   ('deref',e)  ('addr',place)  ('bin',op,a,b)  ('un',op,a) ('top',why)
`p->f` is ('fld',('deref',p),f).  Generated accessor chains
n->data.N_x->x_children.x_children_st.c  become ('fld',('deref',n),'x.c').
Switches become chains of comparisons, && || ?: become branches.
"""

NORETURN = {'exit', 'abort', '_exit', 'err', 'errx', '__assert_fail', 'longjmp', 'verr', 'verrx', '_Exit'}


class Node:
    __slots__ = ('id', 'kind', 'data', 'succ', 'line', 'macros', 'loophead', 'depth')

    def __init__(self, id, kind, data, line, macros=()):
        self.id = id
        self.kind = kind
        self.data = data
        self.succ = []
        self.line = line
        self.macros = macros
        self.loophead = None

    def __repr__(self):
        return '%d:%s %r -> %r @%d' % (self.id, self.kind, self.data, self.succ, self.line)


class CFG:
    def __init__(self, func):
        self.func = func
        self.nodes = []
        self.entry = None
        self.exit = None


def collapse(place):
    """normalise generated accessor chains on a ('fld',..) place"""
    # ('fld', ('fld',('deref',('fld',('fld',('deref',n),'data'),'N_x')),'rest'...)
    if place[0] != 'fld':
        return place
    b, f = place[1], place[2]
    # p->N_x_children.x_children_st.c  : drop grouping members
    if b[0] == 'fld' and b[2].endswith('_children_st'):
        b2 = b[1]
        if b2[0] == 'fld' and b2[2].endswith('_children'):
            if '.' in b2[2]:
                return ('fld', b2[1], b2[2].split('.')[0] + '.' + f)
            return collapse(('fld', b2[1], f))
    if b[0] == 'deref' and b[1][0] == 'fld' and b[1][2].startswith('N_') and b[1][1][0] == 'fld' and b[1][1][2] == 'data':
        nodeplace = b[1][1][1]
        return ('fld', nodeplace, b[1][2][2:] + '.' + f)
    return place


class Lower:
    def __init__(self, func):
        self.f = func
        self.g = CFG(func)
        self.cur = None
        self.ntmp = 0
        self.brk = []
        self.cont = []
        self.labels = {}
        self.gotos = []

    def node(self, kind, data, line, macros=()):
        n = Node(len(self.g.nodes), kind, data, line, macros)
        self.g.nodes.append(n)
        return n

    def emit(self, kind, data, line, macros=()):
        n = self.node(kind, data, line, macros)
        if self.cur is not None:
            self.cur.append(n.id)
        else:
            pass  # unreachable
        if kind == 'br':
            n.succ = [None, None]
        self.cur = n.succ if kind != 'br' else None
        return n

    # `cur` is a list to which the id of the next node is appended.  To join
    # several open ends we create explicit join nodes.
    def label_node(self, line=0):
        return self.node('nop', None, line)

    def goto(self, n):
        if self.cur is not None:
            self.cur.append(n.id)
        self.cur = None

    def place_label(self, n):
        self.goto(n)
        self.cur = n.succ

    def branch(self, cond, T, F, line):
        n = self.node('br', cond, line)
        if self.cur is not None:
            self.cur.append(n.id)
        n.succ = [T.id, F.id]
        self.cur = None
        return n

    def tmp(self):
        self.ntmp += 1
        return ('var', '%%t%d' % self.ntmp)

    def run(self):
        g = self.g
        start = self.node('nop', 'entry', self.f.line)
        g.entry = start.id
        self.exitn = self.node('exit', None, self.f.body.get('e', self.f.line))
        g.exit = self.exitn.id
        self.cur = start.succ
        self.stmt(self.f.body)
        if self.cur is not None:
            r = self.emit('ret', None, self.f.body.get('e', self.f.line))
            self.cur.append(g.exit)
            self.cur = None
        for n, lab in self.gotos:
            n.append(self.labels[lab].id)
        self.mark_loops()
        return g

    def mark_loops(self):
        g = self.g
        # iterative DFS for back edges and reachability
        color = {}
        order = []
        stack = [(g.entry, iter(g.nodes[g.entry].succ))]
        color[g.entry] = 1
        back = []
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(g.nodes[s].succ)))
                    break
                elif color[s] == 1:
                    back.append((n, s))
            else:
                color[n] = 2
                order.append(n)
                stack.pop()
        order.reverse()
        g.rpo = {n: i for i, n in enumerate(order)}
        g.order = order
        preds = {}
        for n in order:
            for s in g.nodes[n].succ:
                preds.setdefault(s, []).append(n)
        g.preds = preds
        g.back = set(back)
        g.loops = {}
        for (a, h) in back:
            body = g.loops.setdefault(h, {h})
            work = [a]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
        g.loopmods = {}
        for h, body in g.loops.items():
            mods = set()
            for x in body:
                nd = g.nodes[x]
                if nd.kind == 'asg':
                    d = nd.data[0]
                    while d[0] in ('fld', 'idx') :
                        d = d[1]
                    if d[0] == 'var':
                        mods.add(d[1])
                elif nd.kind == 'call' and nd.data[0] is not None:
                    mods.add(nd.data[0][1])
                if nd.kind == 'call':
                    for a in nd.data[2]:
                        for v in addr_vars(a):
                            mods.add(v)
            g.loopmods[h] = mods
            g.nodes[h].loophead = True

    # ---------------------------------------------------------------- stmts
    def stmt(self, s):
        if s is None:
            return
        k = s['s']
        ln = s.get('l', 0)
        if k == 'block':
            for c in s['b']:
                self.stmt(c)
        elif k == 'expr':
            self.eff(s['e'])
        elif k == 'decl':
            for v in s['v']:
                vid = ('var', v['n'])
                if v.get('static'):
                    vid = ('glob', self.f.name + '::' + v['n'])
                    continue
                if 'init' in v:
                    self.init(vid, v['init'], v['t'], ln)
                else:
                    self.emit('decl', (vid, v['t']), ln)
        elif k == 'if':
            T, F = self.label_node(ln), self.label_node(ln)
            E = self.label_node(ln)
            self.cond(s['c'], T, F)
            self.cur = T.succ
            self.stmt(s['a'])
            self.goto(E)
            self.cur = F.succ
            self.stmt(s['b'])
            self.goto(E)
            self.cur = E.succ
        elif k == 'while':
            H, B, E = self.label_node(ln), self.label_node(ln), self.label_node(ln)
            self.place_label(H)
            self.cond(s['c'], B, E)
            self.brk.append(E)
            self.cont.append(H)
            self.cur = B.succ
            self.stmt(s['b'])
            self.goto(H)
            self.brk.pop()
            self.cont.pop()
            self.cur = E.succ
        elif k == 'do':
            B, Cn, E = self.label_node(ln), self.label_node(ln), self.label_node(ln)
            self.place_label(B)
            self.brk.append(E)
            self.cont.append(Cn)
            self.stmt(s['b'])
            self.brk.pop()
            self.cont.pop()
            self.place_label(Cn)
            self.cond(s['c'], B, E)
            self.cur = E.succ
        elif k == 'for':
            self.stmt(s['i'])
            H, B, I, E = [self.label_node(ln) for _ in range(4)]
            self.place_label(H)
            if s['c'] is not None:
                self.cond(s['c'], B, E)
            else:
                self.goto(B)
            self.brk.append(E)
            self.cont.append(I)
            self.cur = B.succ
            self.stmt(s['b'])
            self.brk.pop()
            self.cont.pop()
            self.place_label(I)
            if s['n'] is not None:
                self.eff(s['n'])
            self.goto(H)
            self.cur = E.succ
        elif k == 'switch':
            v = self.val(s['c'])
            t = self.tmp()
            self.emit('asg', (t, v), ln)
            cases = []
            default = []

            def collect(st):
                if st is None:
                    return
                if st['s'] == 'case':
                    n = self.label_node(st.get('l', 0))
                    st['_n'] = n
                    cases.append((st['v'], n))
                    collect(st['b'])
                elif st['s'] == 'default':
                    n = self.label_node(st.get('l', 0))
                    st['_n'] = n
                    default.append(n)
                    collect(st['b'])
                elif st['s'] == 'block':
                    for c in st['b']:
                        collect(c)
                elif st['s'] in ('if',):
                    collect(st['a'])
                    collect(st['b'])
                elif st['s'] in ('while', 'for', 'do', 'label'):
                    collect(st['b'])
            collect(s['b'])
            E = self.label_node(ln)
            for cv, n in cases:
                nx = self.label_node(ln)
                self.branch(('bin', '==', t, ('int', cv)), n, nx, ln)
                self.cur = nx.succ
            self.goto(default[0] if default else E)
            self.brk.append(E)
            self.cur = None
            self.stmt(s['b'])
            self.brk.pop()
            self.goto(E)
            self.cur = E.succ
        elif k in ('case', 'default'):
            self.place_label(s['_n'])
            self.stmt(s['b'])
        elif k == 'break':
            self.goto(self.brk[-1])
        elif k == 'continue':
            self.goto(self.cont[-1])
        elif k == 'ret':
            v = self.val(s['e']) if 'e' in s else None
            self.emit('ret', v, ln)
            if self.cur is not None:
                self.cur.append(self.g.exit)
            self.cur = None
        elif k == 'label':
            n = self.labels.setdefault(s['n'], self.label_node(ln))
            self.place_label(n)
            self.stmt(s['b'])
        elif k == 'goto':
            n = self.emit('nop', 'goto', ln)
            self.labels.setdefault(s['n'], self.label_node(ln))
            self.gotos.append((n.succ, s['n']))
            self.cur = None
        elif k == 'null':
            pass
        else:
            self.emit('nop', k, ln)

    def init(self, place, e, t, ln):
        if e['k'] == 'init':
            self.emit('zero', (place,), ln)
            if 'fields' in e:
                for f, x in e['fields'].items():
                    p = place if f == '_anon' else ('fld', place, f)
                    self.init(p, x, '', ln)
            else:
                for i, x in enumerate(e.get('elems', [])):
                    if x is not None:
                        self.init(('idx', place, ('int', i)), x, '', ln)
            return
        v = self.val(e)
        self.emit('asg', (place, v), ln, tuple(e.get('m', ())))

    # ---------------------------------------------------------------- exprs
    def cond(self, e, T, F):
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return self.cond(e['a'], F, T)
        if k == 'bin' and e['op'] == '&&':
            M = self.label_node(e['l'])
            self.cond(e['a'], M, F)
            self.cur = M.succ
            return self.cond(e['b'], T, F)
        if k == 'bin' and e['op'] == '||':
            M = self.label_node(e['l'])
            self.cond(e['a'], T, M)
            self.cur = M.succ
            return self.cond(e['b'], T, F)
        if k == 'cast':
            if 'bool' in e['t'] or e['t'] in ('int',):
                return self.cond(e['a'], T, F)
        v = self.val(e)
        if v[0] in ('int', 'null'):
            return self.goto(T if v[0] == 'int' and v[1] else F)
        self.branch(v, T, F, e['l'])

    def eff(self, e):
        """evaluate for side effects only"""
        if e is None:
            return
        k = e['k']
        if k == 'un' and e['op'] in ('++', '--', 'p++', 'p--'):
            p = self.place(e['a'])
            self.emit('asg', (p, ('bin', e['op'][-1], p, ('int', 1))), e['l'], tuple(e.get('m', ())))
            return
        if k == 'bin' and e['op'] == ',':
            self.eff(e['a'])
            self.eff(e['b'])
            return
        if k == 'call':
            self.call(e, want=False)
            return
        if k == 'cast':
            return self.eff(e['a'])
        self.val(e)

    def call(self, e, want=True):
        args = [self.val(a) for a in e['args']]
        if 'n' in e:
            callee = ('fn', e['n'])
        else:
            callee = self.val(e['fn'])
            while callee[0] == 'deref':
                callee = callee[1]
        t = self.tmp() if want else None
        n = self.emit('call', (t, callee, args, e), e['l'], tuple(e.get('m', ())))
        if callee[0] == 'fn' and callee[1] in NORETURN:
            self.cur = None
            # keep lowering into unreachable code
        return t if want else None

    def place(self, e):
        k = e['k']
        if k == 'var':
            if e['sc'] in ('local', 'param'):
                return ('var', e['n'])
            if e['sc'] == 'slocal':
                return ('glob', self.f.name + '::' + e['n'])
            return ('glob', e['n'])
        if k == 'mem':
            if e['f'] == '':
                return self.place(e['b']) if not e['arrow'] else ('deref', self.val(e['b']))
            if e['arrow']:
                b = self.val(e['b'])
                b = b[1] if b[0] == 'addr' else ('deref', b)
            else:
                b = self.place(e['b'])
            return ('fld', b, e['f']) if getattr(self.f, 'raw', False) else collapse(('fld', b, e['f']))
        if k == 'idx':
            b = self.val(e['b'])
            i = self.val(e['i'])
            return ('idx', b, i)
        if k == 'un' and e['op'] == '*':
            b = self.val(e['a'])
            return b[1] if b[0] == 'addr' else ('deref', b)
        if k == 'cast':
            return self.place(e['a'])
        if k in ('call', 'cond', 'complit', 'stmtexpr'):
            v = self.val(e)
            return v
        if k == 'asg':
            self.val(e)
            return self.place(e['a'])
        return self.val(e)

    def val(self, e):
        if e is None:
            return ('top', 'none')
        k = e['k']
        if k == 'null':
            return ('int', 0)
        if k in ('int', 'enum'):
            return ('int', e['v'])
        if k == 'float':
            return ('float', e['v'])
        if k == 'str':
            return ('str', e['v'])
        if k == 'fn':
            return ('fn', e['n'])
        if k in ('var', 'mem', 'idx'):
            return self.place(e)
        if k == 'un':
            op = e['op']
            if op == '*':
                return self.place(e)
            if op == '&':
                p = self.place(e['a'])
                if p[0] == 'deref':
                    return p[1]
                if p[0] == 'fn':
                    return p
                return ('addr', p)
            if op in ('++', '--'):
                p = self.place(e['a'])
                self.emit('asg', (p, ('bin', op[0], p, ('int', 1))), e['l'])
                return p
            if op in ('p++', 'p--'):
                p = self.place(e['a'])
                t = self.tmp()
                self.emit('asg', (t, p), e['l'])
                self.emit('asg', (p, ('bin', op[1], p, ('int', 1))), e['l'])
                return t
            if op == '!':
                return ('un', '!', self.val(e['a']))
            a = self.val(e['a'])
            if op == '-' and a[0] == 'int':
                return ('int', -a[1])
            if op == '+':
                return a
            return ('un', op, a)
        if k == 'bin':
            op = e['op']
            if op == ',':
                self.eff(e['a'])
                return self.val(e['b'])
            if op in ('&&', '||'):
                return self.boolval(e)
            a = self.val(e['a'])
            b = self.val(e['b'])
            return ('bin', op, a, b)
        if k == 'asg':
            op = e['op']
            if op == '=':
                if e['b']['k'] in ('complit',) and e['b']['a']['k'] == 'init':
                    p = self.place(e['a'])
                    self.init(p, e['b']['a'], '', e['l'])
                    return p
                v = self.val(e['b'])
                p = self.place(e['a'])
                self.emit('asg', (p, v), e['l'], tuple(e.get('m', ())))
            else:
                b = self.val(e['b'])
                p = self.place(e['a'])
                self.emit('asg', (p, ('bin', op[:-1], p, b)), e['l'], tuple(e.get('m', ())))
            return p
        if k == 'cond':
            t = self.tmp()
            T, F, E = [self.label_node(e['l']) for _ in range(3)]
            self.cond(e['c'], T, F)
            self.cur = T.succ
            v = self.val(e['a'])
            self.emit('asg', (t, v), e['l'])
            self.goto(E)
            self.cur = F.succ
            v = self.val(e['b'])
            self.emit('asg', (t, v), e['l'])
            self.goto(E)
            self.cur = E.succ
            return t
        if k == 'call':
            return self.call(e)
        if k == 'cast':
            return self.val(e['a'])
        if k == 'complit':
            t = self.tmp()
            self.init(t, e['a'], '', e['l'])
            return t
        if k == 'stmtexpr':
            b = e['s']['b']
            for s in b[:-1]:
                self.stmt(s)
            if b and b[-1]['s'] == 'expr':
                return self.val(b[-1]['e'])
            if b:
                self.stmt(b[-1])
            return ('top', 'stmtexpr')
        if k == 'init':
            t = self.tmp()
            self.init(t, e, '', e['l'])
            return t
        if k == 'vaarg':
            return ('top', 'vaarg')
        return ('top', 'other')

    def boolval(self, e):
        t = self.tmp()
        T, F, E = [self.label_node(e['l']) for _ in range(3)]
        self.cond(e, T, F)
        self.cur = T.succ
        self.emit('asg', (t, ('int', 1)), e['l'])
        self.goto(E)
        self.cur = F.succ
        self.emit('asg', (t, ('int', 0)), e['l'])
        self.goto(E)
        self.cur = E.succ
        return t


def addr_vars(a):
    if not isinstance(a, tuple):
        return
    if a[0] == 'addr':
        p = a[1]
        while p[0] in ('fld', 'idx'):
            p = p[1]
        if p[0] == 'var':
            yield p[1]
        return
    for x in a[1:]:
        if isinstance(x, tuple):
            for v in addr_vars(x):
                yield v


def cfg_of(func):
    if func.cfg is None:
        func.cfg = Lower(func).run()
    return func.cfg
