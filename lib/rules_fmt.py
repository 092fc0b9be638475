"""Format strings: every printf-style call agrees with its arguments."""
import re
from program import AnalysisBroken, rel

STD = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'asprintf': 1}
VSTD = {'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2, 'vdprintf': 1, 'vasprintf': 1}
CONV = re.compile(r'%(?:(?P<pos>\d+)\$)?(?P<flags>[-+ #0\']*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d*))?(?P<len>hh|h|ll|l|q|j|z|t|L)?(?P<c>.)', re.S)


def walk(e):
    """all dictionaries of a syntax tree"""
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            yield x
            todo.extend(x.values())
        elif isinstance(x, list):
            todo.extend(x)


def calls(f):
    for d in walk(f.body):
        if d.get('k') == 'call' and 'args' in d:
            yield d


def pname(p):
    return p['n'].split('#')[0]


def printers(P):
    """functions that print a format parameter with the arguments behind it: name -> index of the format"""
    r = dict(STD)
    fw = dict(VSTD)
    ch = True
    while ch:
        ch = False
        for f in P.all_funcs():
            if f.body is None or f.name in r or f.name in fw:
                continue
            alias = {}
            for d in walk(f.body):
                if 'init' in d and isinstance(d.get('init'), dict) and d['init'].get('k') == 'var' and 'n' in d:
                    alias[d['n']] = d['init']['n']
            for c in calls(f):
                i = fw.get(c.get('n'))
                if i is None or i >= len(c['args']):
                    continue
                a = c['args'][i]
                n = a.get('n') if a.get('k') == 'var' else None
                n = alias.get(n, n)
                for j, p in enumerate(f.params):
                    if n is not None and p.get('id', p['n']) == n or n is not None and pname(p) == n.split('#')[0]:
                        (r if f.variadic else fw)[f.name] = j
                        ch = True
    return r, fw


def literals(e):
    """the string literals an expression can be, None when it can be something else"""
    k = e.get('k')
    if k == 'str':
        return [e['v']]
    if k == 'cond':
        a, b = literals(e['a']), literals(e['b'])
        return None if a is None or b is None else a + b
    if k == 'cast':
        return literals(e['a'])
    return None


def parse(s):
    """[(conversion, what it takes)] in argument order"""
    r = []
    pos = {}
    i = 0
    while True:
        i = s.find('%', i)
        if i < 0:
            return [pos.get(j, ('', 'any')) for j in range(1, max(pos) + 1)] if pos else r
        m = CONV.match(s, i)
        if not m:
            return r + [('%', None)]
        i = m.end()
        c, ln = m.group('c'), m.group('len') or ''
        if c == '%':
            continue
        if m.group('w') == '*':
            r.append(('*', 'i32'))
        if m.group('p') == '*':
            r.append(('.*', 'i32'))
        t = m.group(0)
        if m.group('pos'):
            x = parse('%' + t[t.index('$') + 1:])
            pos[int(m.group('pos'))] = x[-1] if x else (t, None)
            continue
        if c in 'diouxXc':
            r.append((t, 'i64' if ln in ('l', 'll', 'z', 'j', 't', 'q') else 'i32'))
        elif c in 'fFeEgGaA':
            r.append((t, 'f128' if ln == 'L' else 'f64'))
        elif c == 's':
            r.append((t, 'str'))
        elif c in 'pn':
            r.append((t, 'ptr'))
        elif c == 'm':
            continue
        else:
            r.append((t, None))


def kind(t):
    t = re.sub(r'\b(const|volatile|restrict)\b', '', t).strip()
    t = re.sub(r'\s+', ' ', t)
    m = re.match(r'^(.*?)\s*(\*|\[\d*\])$', t)
    if m:
        b = m.group(1).strip()
        return 'str' if b in ('char', 'signed char', 'unsigned char') else 'ptr'
    if t in ('float', 'double'):
        return 'f64'
    if t == 'long double':
        return 'f128'
    if t in ('long', 'unsigned long', 'long long', 'unsigned long long', 'size_t', 'ssize_t', 'int64_t', 'uint64_t', 'uintptr_t', 'intptr_t', 'ptrdiff_t'):
        return 'i64'
    if t in ('int', 'unsigned int', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', '_Bool', 'bool', 'int8_t', 'int16_t', 'int32_t', 'uint8_t', 'uint16_t', 'uint32_t') or t.startswith('enum'):
        return 'i32'
    return None


def text(x):
    """an expression of type char * is text: not a cast number or pointer to something else"""
    k = x.get('k')
    if k == 'cast':
        a = x['a']
        if a.get('k') in ('null', 'int') or a.get('t') is None:
            return a.get('k') not in ('null', 'int')
        t = re.sub(r'\b(const|volatile|restrict)\b', '', a['t']).strip()
        return (kind(a['t']) in ('str', None) or re.match(r'^void\s*\*$', t) is not None) and text(a)
    if k == 'cond':
        return text(x['a']) and text(x['b'])
    return True


def matches(want, have):
    return have is None or want in (have, 'any') or want == 'ptr' and have == 'str'


def constant(P, f, name):
    """literals a global string variable can hold"""
    g = P.sglobals.get((f.tu, name)) or P.globals.get(name)
    ls = literals(g['init']) if g and isinstance(g.get('init'), dict) else None
    for h in P.all_funcs():
        for d in walk(h.body):
            if d.get('k') == 'asg' and d['a'].get('k') == 'var' and d['a'].get('n') == name:
                x = literals(d['b'])
                ls = None if ls is None or x is None else ls + x
            elif d.get('k') == 'un' and d.get('op') == '&' and d['a'].get('k') == 'var' and d['a'].get('n') == name:
                ls = None
    return ls


def fits(P, pr, fw, funcs, where):
    """yields (function, line, callee, format, problem or None)"""
    for f in funcs:
        if f.body is None:
            continue
        fmts = {}        # local variables that only ever hold literals
        for d in walk(f.body):
            if d.get('k') is None and 'init' in d and 'n' in d and isinstance(d['init'], dict):
                fmts.setdefault(d['n'], []).append(literals(d['init']))
            if d.get('k') == 'asg' and d['a'].get('k') == 'var':
                fmts.setdefault(d['a']['n'], []).append(literals(d['b']) if d['op'] == '=' else None)
        par = set(p.get('id', p['n']) for p in f.params) | set(pname(p) for p in f.params)
        for c in calls(f):
            i = pr.get(c.get('n'))
            if i is None or i >= len(c['args']):
                continue
            a = c['args'][i]
            ls = literals(a)
            if ls is None and a.get('k') == 'var' and a['n'] in fmts and all(x is not None for x in fmts[a['n']]):
                ls = [y for x in fmts[a['n']] for y in x]
            if ls is None and a.get('k') == 'var' and a.get('sc') in ('global', 'sglobal'):
                ls = constant(P, f, a['n'])
            if ls is None:
                own = a.get('k') == 'var' and (a['n'] in par or a['n'].split('#')[0] in par) and pr.get(f.name, fw.get(f.name)) is not None
                yield f, c['l'], c['n'], None, a, None if own else 'the format is not a literal'
                continue
            args = c['args'][i + 1:]
            for s in ls:
                want = parse(s)
                bad = None
                for (t, w), x in zip(want, args):
                    if w is None:
                        bad = 'unknown conversion %r' % t
                    elif x.get('k') == 'null' and w in ('str',):
                        bad = '%s with NULL' % t
                    elif not matches(w, kind(x['t'])):
                        bad = '%s with an argument of type %s' % (t, x['t'])
                    elif w == 'str' and not text(x):
                        bad = '%s with an argument cast from another type' % t
                    if bad:
                        break
                if bad is None and len(want) > len(args):
                    bad = 'no argument for %s' % want[len(args)][0]
                if bad is None and len(want) < len(args):
                    bad = '%d arguments for %d conversions' % (len(args), len(want))
                yield f, c['l'], c['n'], s, a, bad


def c15(R, P):
    """printf-style calls in the project and in what it generates"""
    import rules_gen
    R.rule('arguments', 'every conversion of a format has an argument of its type, and every argument a conversion')
    R.rule('literal', 'the format is one of a set of string literals, never text that comes from elsewhere')
    R.rule('generated', 'the same holds for the printf-style calls in the derived project (lib/skel.py specifications)')
    pr, fw = printers(P)
    mine = sorted(set(pr) - set(STD))
    R.notes['printf-style functions'] = mine
    for f, l, c, s, a, bad in fits(P, pr, fw, [f for f in P.all_funcs()], ''):
        R.func(f)
        rule = 'literal' if s is None else 'arguments'
        R.check(bad is None, rule, '%s in %s: %r' % (c, f.name, (s or '')[:60]), '%s %s' % (f.name, c), '%s(%r): %s' % (c, (s or '')[:80], bad), f, l)
    R.need('arguments', 800)
    C = rules_gen.Ctx(R, P)
    for sk, sem in C.sems:
        try:
            gp = dict(pr, **printers(sem.G)[0])
            gf = fw
            fs = [f for f in sem.G.all_funcs() if sem.derived.get(id(f)) and f.body is not None]
            for f, l, c, s, a, bad in fits(sem.G, gp, gf, fs, sk):
                C.check(bad is None, 'generated', '%s: %s in %s' % (sk, c, f.name), '%s %s' % (f.name, c), '%s(%r): %s in generated %s [emitted by %s]' % (c, (s or '')[:80], bad, f.name, sem.D.where(sem.file(f), l)))
        except AnalysisBroken as e:
            R.notes.setdefault('skipped', []).append('%s: %s' % (sk, e))
