"""Call graph over resolved callees (direct calls; address-taken functions for indirect calls)."""
from cfg import cfg_of


class CG:
    def __init__(self, P):
        self.P = P
        self.out = {}
        self.calls = {}      # func -> [(node, callee name)]
        self.callers = {}
        for f in P.all_funcs():
            outs = set()
            cl = []
            for n in cfg_of(f).nodes:
                if n.kind == 'call':
                    c = n.data[1]
                    if c[0] == 'fn':
                        cl.append((n, c[1]))
                        g = P.resolve(f.tu, c[1])
                        if g is not None:
                            outs.add(g)
                    else:
                        cl.append((n, None))
            self.out[f] = outs
            self.calls[f] = cl
            for g in outs:
                self.callers.setdefault(g, set()).add(f)

    def reach(self, f, stop=()):
        seen = {f}
        work = [f]
        while work:
            x = work.pop()
            if x.name in stop and x is not f:
                continue
            for y in self.out.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen

    def sites(self, name):
        for f, cl in self.calls.items():
            for n, c in cl:
                if c == name:
                    yield f, n


def build(P):
    if getattr(P, 'cg', None) is None:
        P.cg = CG(P)
    return P.cg
