"""The generated compiler, derived statically.

The emission summaries of every generator action (emit.py) are composed over a
symbolic specification (a skeleton: which lists have how many elements, which
flags they carry, all names symbolic), in the order of the project's own action
tables.  The result is the exact text of every file the generator would write
for such a specification, with the handler and line each fragment comes from.
Nothing of the project is executed.
"""
import os, re, shutil, time, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import emit, render
from render import Inst, Renderer
from program import AnalysisBroken, REPO, rel
from emit import const_init

sys.setrecursionlimit(20000)

HDR, EQH, SRC, USR = 'ccngen', 'ccngen/equations', 'src', 'user'
OPEN = {'GNopenIncludeFile': HDR, 'GNopenEquationIncludeFile': EQH, 'GNopenSourceFile': SRC, 'GNopenUserFile': USR}
EMITDIRS = ('cocogen/dynamic_backend', 'cocogen/phase_driver')


# ------------------------------------------------------------------ skeletons
class Spec:
    """builder of a symbolic specification"""
    def __init__(self, P):
        self.P = P
        self.names = {}
        self.lookups = {}
        self.nn = {'inode': [], 'itraversal': [], 'ipass': [], 'inodeset': [], 'ienum': [], 'iphase': []}
        self.reach = {}
        self.AT = dict(P.enums['attribute_type'])
        self.CT = dict(P.enums['child_type'])
        self.LT = dict(P.enums['lifetime_type'])
        self.actions = []
        self.refs = 0
        self.facts = {}
        self.unsafe = 0

    def at(self, t):
        return self.AT['AT_' + t]

    def name(self, inst, orig, field='name'):
        self.names[inst.label + '.' + field] = orig

    def ref(self, label, orig):
        """an identifier node spelled orig"""
        i = Inst('id', label)
        self.names[label] = orig
        return i

    def attr(self, label, orig, typ, ic=0, inh=0, syn=0, ref=None, refspell=None, lf=(), propagated=False):
        a = Inst('attribute', label, {'type': self.at(typ), 'in_constructor': ic, 'is_inherited': inh, 'is_synthesized': syn,
                                      'is_propagated': 1 if propagated else 0}, {'lifetimes': list(lf)})
        self.name(a, orig)
        if ref is not None:
            self.names[label + '.type_reference'] = refspell or self.names[ref.label + '.name'] if isinstance(ref, Inst) else refspell or ref
            if isinstance(ref, Inst):
                self.lookups[label + '.type_reference'] = ref
        return a

    def child(self, label, orig, target, ic=0, mand=0, lf=(), spell=None):
        lf = list(lf)
        if mand and not any(l.flags['type'] == self.LT['LT_mandatory'] for l in lf):
            lf.append(self.lifetime(label + 'l', 'mandatory'))
        c = Inst('child', label, {'in_constructor': ic, 'is_mandatory': mand, 'type': self.CT['CT_' + ('inodeset' if target is not None and target.kind == 'inodeset' else 'inode')]},
                 {'lifetimes': lf})
        self.name(c, orig)
        c.target = target
        if target is not None:
            self.names[label + '.type_reference'] = spell or self.names[target.label + '.name']
            self.lookups[label + '.type_reference'] = target
        return c

    def node(self, label, orig, children=(), attrs=(), lf=(), eqs=(), visits=(), root=0):
        n = Inst('inode', label, {'index': len(self.nn['inode']), 'is_root': root, 'iifno': 'nonnull'},
                 {'ichildren': list(children), 'iattributes': list(attrs), 'lifetimes': list(lf), 'iequations': list(eqs), 'visit': list(visits)})
        self.name(n, orig)
        n.lists['name'] = Inst('id', n.label + '.name')
        self.nn['inode'].append(n)
        return n

    def nodeset(self, label, orig, members, attrs=()):
        s = Inst('inodeset', label, {'illegal_setexpr_attr': 0, 'iinfo': 0}, {'iattributes': list(attrs)})
        self.name(s, orig)
        s.lists['name'] = Inst('id', s.label + '.name')
        s.members = list(members)
        s.lists['expr'] = self.literal(label + 'e', members)
        s.lists['children_table'] = []
        self.nn['inodeset'].append(s)
        return s

    def literal(self, label, nodes, spell=None):
        """tree of set literals naming the given nodes"""
        if not nodes:
            return []
        i = len(nodes) // 2
        l = Inst('setliteral', '%s%d' % (label, i), {}, {'left': self.literal(label + 'l', nodes[:i], spell), 'right': self.literal(label + 'r', nodes[i + 1:], spell)})
        r = Inst('id', '%s%d.reference' % (label, i))
        o = self.names[nodes[i].label + '.name']
        self.names[r.label] = spell(o) if spell else o
        l.lists['reference'] = r
        self.lookups[r.label] = nodes[i]
        return [l]

    def traversal(self, label, orig, uid, nodes=None, data=None, spell=None):
        t = Inst('itraversal', label, {'index': len(self.nn['itraversal']), 'iinfo': 0})
        self.name(t, orig)
        self.names[label + '.iprefix'] = uid
        t.lists['name'] = Inst('id', label + '.name')
        t.lists['inodes'] = self.literal(label + 'n', nodes, spell) if nodes is not None else []
        t.lists['data'] = list(data or [])
        t.nodes = nodes
        self.nn['itraversal'].append(t)
        return t

    def tdata(self, label, orig, typ, ref=None, refspell=None):
        d = Inst('itravdata', label, {'type': self.at(typ), 'include_file': 0})
        self.name(d, orig)
        if ref is not None:
            self.names[label + '.type_reference'] = refspell or (self.names[ref.label + '.name'] if isinstance(ref, Inst) else ref)
            if isinstance(ref, Inst):
                self.lookups[label + '.type_reference'] = ref
        return d

    def pass_(self, label, orig, uid=None, func=None):
        p = Inst('ipass', label, {'target_func': 'nonnull' if func else 0, 'iprefix': 'nonnull' if uid else 0, 'iifno': 0})
        self.name(p, orig)
        if uid:
            self.names[label + '.iprefix'] = uid
        if func:
            self.names[label + '.target_func'] = func
        self.nn['ipass'].append(p)
        return p

    def phase(self, label, orig, acts, start=0, cycle=0, uid=None, gate=None):
        al = []
        for i, a in enumerate(acts):
            r = Inst('id', '%sa%d.reference' % (label, i))
            self.names[r.label] = self.names[a.label + '.name']
            self.lookups[r.label] = a
            al.append(Inst('iactions', '%sa%d' % (label, i), {'action_id': i}, {'reference': r}))
        p = Inst('iphase', label, {'is_start': start, 'is_cycle': cycle, 'iprefix': 'nonnull' if uid else 0,
                                   'gate_func': 'nonnull' if gate else 0, 'iinfo': 0}, {'iactions': al})
        self.name(p, orig)
        if uid:
            self.names[label + '.iprefix'] = uid
        if gate and gate is not True:
            self.names[label + '.gate_func'] = gate
        p.acts = list(acts)
        self.nn['iphase'].append(p)
        return p

    def enum(self, label, orig, prefix, vals):
        e = Inst('ienum', label, {'iinfo': 0})
        self.name(e, orig)
        self.names[label + '.iprefix'] = prefix
        e.lists['vals'] = [self.ref('%sv%d' % (label, i), v) for i, v in enumerate(vals)]
        e.lists['name'] = Inst('id', label + '.name')
        self.nn['ienum'].append(e)
        return e

    def lifetime(self, label, typ, begin=None, end=None):
        """begin/end: (action id, next action id, inclusive)"""
        def rng(l, r):
            return [Inst('lifetime_range', l, {'action_id': r[0], 'next_action_id': r[1], 'inclusive': r[2], 'target': 'nonnull'})] if r else []
        i = Inst('ilifetime', label, {'type': self.LT['LT_' + typ]}, {'begin': rng(label + 'b', begin), 'end': rng(label + 'e', end)})
        return i

    def ast(self, root):
        n = self.nn
        a = Inst('ast', 'ast', {'num_nodes': len(n['inode']), 'num_traversals': len(n['itraversal']), 'root_node': 'nonnull',
                                'start_phase': 'nonnull', 'stable': 'nonnull', 'uses_unsafe': self.unsafe},
                 {'iphases': n['iphase'], 'itraversals': n['itraversal'], 'ipasses': n['ipass'], 'inodes': n['inode'],
                  'inodesets': n['inodeset'], 'enums': n['ienum']})
        a.lists['root_node'] = root
        for p in n['iphase']:
            if p.flags['is_start']:
                a.lists['start_phase'] = p
        a.flags.pop('root_node')
        a.flags.pop('start_phase')
        self.root = a
        return a

    def kids(self, n):
        r = []
        for c in n.lists['ichildren']:
            t = getattr(c, 'target', None)
            for x in ([t] if t is not None and t.kind == 'inode' else t.members if t is not None else []):
                if x not in r:
                    r.append(x)
        return r

    def reachability(self, t, n):
        """2 handled by the user, 1 a handled node lies below, 0 otherwise"""
        if t.nodes is None or n in t.nodes:
            return 2
        seen, work = set(), [n]
        while work:
            x = work.pop()
            for y in self.kids(x):
                if y in t.nodes:
                    return 1
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return 0

    def cname(self, label):
        label = re.sub(r'~\d+', '', label)
        m = re.match(r'^(.*)\.(orig|lwr|upr|Upr)$', label)
        if not m:
            return None
        o = self.names.get(m.group(1))
        if o is None:
            return None
        return o if m.group(2) == 'orig' else o.lower() if m.group(2) == 'lwr' else o.upper()


# ------------------------------------------------------------------ rendering
def initials(P):
    """initial value of every scalar global of the generator"""
    r = {}
    for src, key in ((P.globals, lambda k: k), (P.sglobals, lambda k: os.path.basename(k[0]) + ':' + k[1])):
        for k, g in src.items():
            t = g['t']
            if '[' in t or t.startswith('struct ') and '*' not in t:
                continue
            c = const_init(g['init']) if 'init' in g else ('c', 0)
            if c and c[0] == 'c':
                r[key(k)] = c[1]
            elif 'init' in g and g['init'].get('k') == 'null':
                r[key(k)] = 0
    return r


def rb_values(P):
    r = {k: v for en in P.enums.values() for k, v in dict(en).items() if k.startswith('RCB_')}
    if not r:
        for d, _, fs in os.walk(os.path.join(REPO, 'cocogen')):
            for f in fs:
                if f.endswith('.h'):
                    for m in re.finditer(r'#define\s+(RCB_\w+)\s+\(?\s*(\d+)(?:\s*<<\s*(\d+))?', open(os.path.join(d, f), errors='replace').read()):
                        r[m.group(1)] = int(m.group(2)) << int(m.group(3) or 0)
    for k in ('RCB_NODE_NOT_HANDLED', 'RCB_NODE_HANDLED_BY_TRAV', 'RCB_NODE_HANDLED_BY_USER'):
        if k not in r:
            raise AnalysisBroken('no definition of %s' % k)
    return r


def action_order(P):
    """leaf actions of the meta-compiler in execution order: ('trav', uid) / ('pass', function)"""
    arr = None
    for src in (P.sglobals, P.globals):
        for k, g in src.items():
            if (k[1] if isinstance(k, tuple) else k) == 'ccn_action_array' and 'init' in g:
                arr = g['init']['elems']
    if arr is None:
        raise AnalysisBroken('no action array found')
    travs = {v: k for k, v in dict(P.enums['ccn_traversal_type']).items()}
    passes = P.globals['ccn_pass_vtable']['init']['elems']

    def strip(x):
        while x is not None and x['k'] in ('un', 'cast'):
            x = x['a']
        return x
    out = []

    def go(i, depth):
        f = arr[i]['fields']
        u = list(f['_anon']['fields'].items()) if '_anon' in f else []
        if not u:
            u = [(k, v) for k, v in f.items() if k in ('phase', 'pass', 'traversal')]
        for kind, x in u:
            if kind == 'phase':
                t = strip(x['fields']['action_table'])
                g = P.globals.get(t['n'])
                for e in g['init']['elems']:
                    if e['n'].endswith('_NULL'):
                        break
                    if depth < 12:
                        go(e['v'], depth + 1)
            elif kind == 'traversal':
                out.append(('trav', travs[strip(x['fields']['trav_type'])['v']][len('TRAV_'):]))
            elif kind == 'pass':
                y = strip(list(x['fields'].values())[0])
                out.append(('pass', strip(passes[y['v']])['n']))
    start = None
    for i, a in enumerate(arr):
        f = a['fields']
        u = f['_anon']['fields'] if '_anon' in f else f
        if 'phase' in u and 'startphase' in strip(u['phase']['fields']['action_table']).get('n', '').lower():
            start = i
    if start is None:
        # the start phase is the one no other phase refers to
        used = set()
        for i, a in enumerate(arr):
            u = a['fields'].get('_anon', {}).get('fields', {})
            if 'phase' in u:
                t = strip(u['phase']['fields']['action_table'])
                used |= set(e['v'] for e in P.globals[t['n']]['init']['elems'])
        c = [i for i, a in enumerate(arr) if 'phase' in a['fields'].get('_anon', {}).get('fields', {}) and i not in used]
        if not c:
            raise AnalysisBroken('no start phase in the action array')
        start = c[0]
    go(start, 0)
    return out


class File:
    def __init__(self, path):
        self.path = path
        self.parts = []      # (text, prov)

    def text(self):
        return ''.join(t for t, _ in self.parts)

    def lines(self):
        """provenance of every output line: list of sets of (function, line)"""
        r = [set()]
        for t, p in self.parts:
            for i, seg in enumerate(t.split('\n')):
                if i:
                    r.append(set())
                if p and seg:
                    r[-1].add(p)
        return r


class GenModel:
    def __init__(self, E, spec, skip=()):
        self.E, self.P, self.spec = E, E.P, spec
        self.files = {}
        self.skipped = []
        self.rendered = []
        self.assumed = []
        self.broken = []
        P = E.P
        ginit = initials(P)
        facts = {r'~\.(lwr|orig|upr|Upr)$': 'nonnull', '~symboltable$': 'nonnull'}
        facts.update(spec.facts)
        RB = rb_values(P)
        for t in spec.nn['itraversal']:
            for x in spec.nn['inode']:
                facts['glob:reachability_matrix[%s.index][%s.index]' % (t.label, x.label)] = [RB['RCB_NODE_NOT_HANDLED'], RB['RCB_NODE_HANDLED_BY_TRAV'], RB['RCB_NODE_HANDLED_BY_USER']][spec.reachability(t, x)]
        R = Renderer(E, facts, limit=64, lookups=spec.lookups, cname=spec.cname, prov=True, globals_=ginit)
        self.R = R
        render.link(spec.root)
        g = {}
        cur = None
        E.lazy = True
        for kind, n in action_order(P):
            if kind == 'trav':
                h = E.handler(n, 'ast')
                hs = set(x for x in E.travs.get(n, {}).values() if x not in ('TRAVnop', 'TRAVchildren', 'TRAVerror'))
                fs = [P.resolve(None, x) for x in hs]
                if not any(f is not None and rel(f.file).startswith(EMITDIRS) for f in fs):
                    continue
            else:
                f = P.resolve(None, n)
                if f is None or not rel(f.file).startswith(EMITDIRS + ('cocogen/main.c',)) or rel(f.file) == 'cocogen/main.c' and n != 'genDefines':
                    continue
            if n in skip:
                self.skipped.append(n)
                continue
            R.deadline = time.time() + 100
            try:
                if kind == 'trav':
                    res = R.run(n, spec.root, g)
                else:
                    res = R.run_pass2(n, spec.root, g)
                if not res:
                    raise AnalysisBroken('no emission path of %s is consistent with the skeleton' % n)
                if len(res) > 1:
                    # alternatives that differ only in conditions, not in text, are one
                    uniq = {}
                    for t, g2, a in res:
                        uniq.setdefault(t, (t, g2, a))
                    res = list(uniq.values())
                    if len(res) > 1:
                        self.assumed.append((n, [a for _, _, a in res]))
                        raise AnalysisBroken('emission of %s depends on conditions the skeleton does not fix: %s' % (n, [a for _, _, a in res][:3]))
                txt, g2, _ = res[0]
                cur = self.split(txt, cur)
                g = dict(g2)
                self.rendered.append(n)
            except (AnalysisBroken, RecursionError, KeyError, TypeError, IndexError, AttributeError, ValueError) as e:
                # this action's part of the output is unknown; the others are still analysed
                self.broken.append((n, '%s: %s' % (type(e).__name__, str(e)[:300])))
                if os.environ.get('CCN_STRICT'):
                    raise

    def split(self, txt, cur):
        prov = None
        for m in re.finditer(r'\x06([^\x07]*)\x07|\x0e([^\x0f]*)\x0f|([^\x06\x0e]+)', txt):
            if m.group(1) is not None:
                fn, _, nm = m.group(1).partition(' ')
                nm = self.subst(nm)
                if fn == 'TRAVerror':
                    raise AnalysisBroken('visit of %s raises TRAVerror' % nm)
                d = OPEN.get(fn)
                if d is None:
                    cur = File('?' + nm)
                    continue
                p = d + '/' + nm
                cur = File(p)
                self.files[p] = cur
                if d in (HDR, EQH):
                    cur.parts.append(('#pragma once\n', None))
            elif m.group(2) is not None:
                a, _, b = m.group(2).rpartition(':')
                prov = (a, int(b))
            else:
                if cur is None:
                    raise AnalysisBroken('text emitted before any file is opened: %r' % m.group(3)[:60])
                cur.parts.append((self.subst(m.group(3)), prov))
        return cur

    def subst(self, s):
        def one(m):
            c = self.spec.cname(m.group(1))
            if c is None:
                raise AnalysisBroken('an emitted name is unknown: %s' % m.group(1)[:80])
            return c
        return re.sub(r'\{((?:[A-Za-z_]\w*|glob:)[^{}\s]*\.(?:orig|lwr|upr|Upr))\}', one, s)
