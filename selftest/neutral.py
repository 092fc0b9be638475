#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole code base (not a registered check): every check must stay quiet on them.
usage: selftest/neutral.py [-j N] [-p C01,C02] [-f substr] [transform...]
Each transform is applied at every place where it fits in the files selected (whole tree: one run per transform;
-F: one run per file).  A rewritten file that no longer compiles is put back edit by edit."""
import os, re, sys, shutil, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))


def files():
    r = []
    for d in ('palm/src', 'copra/src', 'cocogen'):
        for x, _, fs in os.walk('/repo/' + d):
            if 'ccngen' in x or 'tests' in x:
                continue
            r += [os.path.join(x, f)[6:] for f in fs if f.endswith('.c')]
    return sorted(r)


def mask(s):
    """same length, with comments, strings and character constants blanked"""
    out = list(s)
    i = 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = len(s) if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i)
            j = len(s) if j < 0 else j + 2
        elif s[i] in '"\'':
            q = s[i]
            j = i + 1
            while j < len(s) and s[j] != q:
                j += 2 if s[j] == '\\' else 1
            j += 1
            for k in range(i + 1, j - 1):
                out[k] = 'x'
            i = j
            continue
        elif s[i] == '#' and s[:i].rstrip(' \t').endswith('\n'):
            j = i
            while True:
                j = s.find('\n', j)
                j = len(s) if j < 0 else j
                if s[j - 1] != '\\':
                    break
                j += 1
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    return ''.join(out)


def match(m, i, o='(', c=')'):
    d = 0
    while i < len(m):
        if m[i] == o:
            d += 1
        elif m[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


FN = re.compile(r'^(?P<st>static\s+)?(?P<in>inline\s+)?(?P<t>(?:const\s+)?(?:struct\s+|enum\s+|unsigned\s+)?\w+[\s\*]+)(?P<n>\w+)\((?P<a>[^;{}()]*)\)\s*\{', re.M)


def functions(s):
    m = mask(s)
    for x in FN.finditer(m):
        if x.group('n') in ('if', 'while', 'for', 'switch'):
            continue
        e = match(m, x.end() - 1, '{', '}')
        if e > 0:
            yield x, e


def edits_return(s):
    m = mask(s)
    for x in re.finditer(r'\breturn\s+([^;{}]+);', m):
        e = s[x.start(1):x.end(1)]
        yield x.start(), x.end(), '{ __auto_type r__%d = %s; return r__%d; }' % (x.start(), e, x.start())


def edits_ifneg(s):
    m = mask(s)
    for x in re.finditer(r'\bif\s*\(', m):
        c = match(m, x.end() - 1)
        b = c + 1
        while m[b] in ' \n\t':
            b += 1
        if m[b] != '{':
            continue
        e = match(m, b, '{', '}')
        w = re.match(r'\s*else\s*\{', m[e + 1:])
        if w:
            b2 = e + 1 + w.end() - 1
            e2 = match(m, b2, '{', '}')
            yield x.start(), e2 + 1, 'if (!(%s)) %s else %s' % (s[x.end():c], s[b2:e2 + 1], s[b:e + 1])
        elif not re.match(r'\s*else\b', m[e + 1:]):
            yield x.start(), b, 'if (!(%s)) {} else ' % s[x.end():c]


def edits_iftmp(s):
    m = mask(s)
    for x in re.finditer(r'(?<![\w ])( *)if\s*\(', m):
        if re.search(r'(else|\))\s*$', m[:x.start()]):
            continue
        c = match(m, x.end() - 1)
        yield x.start(), c + 1, '%s__auto_type c__%d = (%s); if (c__%d)' % (x.group(1), x.start(), s[x.end():c], x.start())


def edits_while(s):
    m = mask(s)
    for x in re.finditer(r'\bwhile\s*\(', m):
        c = match(m, x.end() - 1)
        if m[c + 1:].lstrip()[:1] == '{':
            yield x.start(), c + 1, 'for (; %s;)' % s[x.end():c]


def edits_for(s):
    m = mask(s)
    for x in re.finditer(r'\bfor\s*\(', m):
        c = match(m, x.end() - 1)
        p = m[x.end():c].split(';')
        if len(p) != 3:
            continue
        b = c + 1
        while m[b] in ' \n\t':
            b += 1
        if m[b] != '{':
            continue
        e = match(m, b, '{', '}')
        if re.search(r'\bcontinue\b', m[b:e]) or not p[1].strip():
            continue
        o = x.end()
        a = s[o:o + len(p[0])]
        q = s[o + len(p[0]) + 1:o + len(p[0]) + 1 + len(p[1])]
        d = s[o + len(p[0]) + len(p[1]) + 2:c]
        yield x.start(), e + 1, '{ %s; while (%s) { %s %s; } }' % (a, q, s[b:e + 1], d)


def edits_impl(s):
    for x, e in functions(s):
        a = x.group('a').strip()
        if '...' in a or x.group('n') == 'main':
            continue
        ps = []
        ok = True
        for p in [] if a in ('', 'void') else a.split(','):
            w = re.search(r'(\w+)\s*(\[\s*\])?$', p.strip())
            if not w or '(' in p:
                ok = False
                break
            ps.append(w.group(1))
        if not ok:
            continue
        t = x.group('t').strip()
        n = x.group('n')
        ret = '' if t == 'void' else 'return '
        decl = s[x.start('t'):x.start('n')]
        args = s[x.start('a'):x.end('a')]
        body = s[x.end() - 1:e + 1]
        yield x.start(), e + 1, 'static %s%s__impl(%s)%s\n%s%s%s(%s)\n{\n    %s%s__impl(%s);\n}' % (
            decl, n, args, body, x.group('st') or '', decl, n, args, ret, n, ', '.join(ps))


def edits_alias(s):
    for x, e in functions(s):
        a = x.group('a').strip()
        if '...' in a or a in ('', 'void'):
            continue
        ns = [re.search(r'(\w+)\s*$', p.strip()) for p in a.split(',')]
        if not all(ns):
            continue
        body = s[x.end():e]
        mb = mask(body)
        out = ''
        for w in ns:
            n = w.group(1)
            if re.search(r'&\s*%s\b' % n, mb):
                continue
            out += ' __auto_type %s__a = %s;' % (n, n)
            r = ''
            i = 0
            for y in re.finditer(r'(?<![\w.])(?<!->)%s\b' % n, mb):
                r += body[i:y.start()] + n + '__a'
                i = y.end()
            body = r + body[i:]
            mb = mask(body)
        yield x.end(), e, out + body


def edits_calltmp(s):
    m = mask(s)
    for x in re.finditer(r'(?<=[;{}\n])(\s*)([\w>.\[\]-]+)\s=\s(\w+\([^;{}]*\));', m):
        if re.search(r'(else|\))\s*$', m[:x.start()]):
            continue
        yield x.start(), x.end(), '%s{ __auto_type v__%d = %s; %s = v__%d; }' % (x.group(1), x.start(), s[x.start(3):x.end(3)], s[x.start(2):x.end(2)], x.start())


def edits_decl(s):
    m = mask(s)
    for x in re.finditer(r'(?<=[;{}])(\s*\n\s*)((?:struct |enum |const )?\w+[\s\*]+)(\w+)\s=\s([^;{}]+);', m):
        if x.group(2).strip() in ('return', 'else', 'static', 'goto', 'case') or x.group(2).startswith(('static', 'const', 'typedef')):
            continue
        yield x.start(), x.end(), '%s%s%s; %s = %s;' % (x.group(1), x.group(2), x.group(3), x.group(3), s[x.start(4):x.end(4)])


def edits_incr(s):
    m = mask(s)
    for x in re.finditer(r'(?<=[;{}\n])(\s*)([\w>.-]+)(\+\+|--);', m):
        v = s[x.start(2):x.end(2)]
        yield x.start(), x.end(), '%s%s = %s %s 1;' % (x.group(1), v, v, x.group(3)[0])
    for x in re.finditer(r'(?<=[;{}\n])(\s*)([\w>.-]+)\s*(\+|-)=\s*([^;{}]+);', m):
        v = s[x.start(2):x.end(2)]
        yield x.start(), x.end(), '%s%s = %s %s (%s);' % (x.group(1), v, v, x.group(3), s[x.start(4):x.end(4)])


def edits_null(s):
    m = mask(s)
    for x in re.finditer(r'([\w][\w>.\[\]-]*)\s*(==|!=)\s*NULL\b', m):
        v = s[x.start(1):x.end(1)]
        yield x.start(), x.end(), '!%s' % v if x.group(2) == '==' else '(bool)%s' % v if 0 else '!!%s' % v


def edits_and(s):
    m = mask(s)
    for x in re.finditer(r'\bif\s*\(', m):
        c = match(m, x.end() - 1)
        t = m[x.end():c]
        if '&&' not in t or '||' in t:
            continue
        d = 0
        k = -1
        for i, ch in enumerate(t):
            d += ch == '('
            d -= ch == ')'
            if d == 0 and t.startswith('&&', i):
                k = i
                break
        b = c + 1
        while m[b] in ' \n\t':
            b += 1
        if k < 0 or m[b] != '{':
            continue
        e = match(m, b, '{', '}')
        if re.match(r'\s*else\b', m[e + 1:]):
            continue
        o = x.end()
        yield x.start(), e + 1, 'if (%s) { if (%s) %s }' % (s[o:o + k], s[o + k + 2:c], s[b:e + 1])


def edits_switch(s):
    """switch whose cases end in break/return and declare nothing -> if chain"""
    m = mask(s)
    for x in re.finditer(r'\bswitch\s*\(', m):
        c = match(m, x.end() - 1)
        b = m.index('{', c)
        e = match(m, b, '{', '}')
        body = m[b + 1:e]
        parts = []
        pos = [y for y in re.finditer(r'\b(?:case\s+([\w\' ]+?)|default)\s*:', body)]
        if not pos or re.search(r'\bswitch\b', body):
            continue
        ok = True
        groups = []
        cur = []
        for i, y in enumerate(pos):
            en = pos[i + 1].start() if i + 1 < len(pos) else len(body)
            txt = s[b + 1 + y.end():b + 1 + en].strip()
            mt = mask(txt).strip()
            cur.append(s[b + 1 + y.start(1):b + 1 + y.end(1)].strip() if y.group(1) else None)
            if not mt:
                continue
            if mt.endswith('}') and mt.startswith('{'):
                txt, mt = txt.strip()[1:-1].strip(), mt[1:-1].strip()
            if mt.endswith('break;'):
                txt = txt[:txt.rindex('break;')]
                if re.search(r'\bbreak\b', mask(txt)):
                    ok = False
            elif not (re.search(r'\breturn\b[^;]*;$', mt) or i + 1 == len(pos)) or re.search(r'\bbreak\b', mt):
                ok = False
            groups.append((cur, txt))
            cur = []
        if not ok or cur:
            continue
        if any(None in g for g, _ in groups[:-1]):
            continue
        v = 'sw__%d' % x.start()
        out = '{ __auto_type %s = (%s);' % (v, s[x.end():c])
        first = True
        for g, t in groups:
            if None in g:
                out += ' else { %s }' % t if not first else '{ %s }' % t
            else:
                out += (' if (' if first else ' else if (') + ' || '.join('%s == %s' % (v, k) for k in g) + ') { %s }' % t
            first = False
        yield x.start(), e + 1, out + ' }'


def edits_tern(s):
    m = mask(s)
    for x in re.finditer(r'\bif\s*\(', m):
        c = match(m, x.end() - 1)
        w = re.match(r'\s*\{\s*([\w>.-]+)\s=\s([^;{}]+);\s*\}\s*else\s*\{\s*([\w>.-]+)\s=\s([^;{}]+);\s*\}', m[c + 1:])
        if w and w.group(1) == w.group(3):
            o = c + 1
            yield x.start(), o + w.end(), '%s = (%s) ? %s : %s;' % (w.group(1), s[x.end():c], s[o + w.start(2):o + w.end(2)], s[o + w.start(4):o + w.end(4)])


def edits_nop(s):
    for x, e in functions(s):
        yield x.end(), x.end(), ' do { } while (0); int nop__ = 0; (void)nop__;'


def edits_block(s):
    """a single-variable local helper per early return: goto-free single exit is left out; wrap the body in a block"""
    for x, e in functions(s):
        yield x.end(), e, ' { ' + s[x.end():e] + ' } '


DECL = re.compile(r'(?<=[;{}(])\s*((?:const\s+)?(?:struct\s+|enum\s+|unsigned\s+)?[A-Za-z_]\w*(?:\s+|\s*\*+\s*))(\w+)\s*(?=[=;])')
KEYW = {'return', 'else', 'goto', 'case', 'sizeof', 'static', 'if', 'while', 'for', 'do', 'break', 'continue', 'extern', 'typedef'}


def locals_of(m, x, e):
    """name -> (type, position) of parameters and locals of one function; None when a name is declared twice"""
    v = {}
    for p in x.group('a').split(','):
        w = re.match(r'\s*(.*?)(\w+)\s*$', p, re.S)
        if w and w.group(1).strip():
            v[w.group(2)] = (w.group(1).strip(), x.end())
    for d in DECL.finditer(m, x.end() - 1, e):
        if d.group(1).split()[0] in KEYW:
            continue
        v[d.group(2)] = None if d.group(2) in v else (d.group(1).strip(), d.start())
    return v


def idents(t):
    return set(w.group(0) for w in re.finditer(r'(?<![\w.])(?<!->)[A-Za-z_]\w*', t))


def edits_excond(s):
    """conditions of ifs and loops move into helper functions"""
    m = mask(s)
    for x, e in functions(s):
        v = locals_of(m, x, e)
        helpers, es = '', []
        for y in re.finditer(r'\b(if|while)\s*\(', m[x.end():e]):
            a = x.end() + y.end()
            c = match(m, a - 1)
            t = m[a:c]
            if re.search(r'(?<![=!<>])=(?!=)|\+\+|--|&\s*\w+\b(?!\s*&)', t.replace('&&', '  ')) or not re.search(r'[&|=<>(]', t):
                continue
            ids = sorted(i for i in idents(t) if i in v)
            if any(v[i] is None for i in ids):
                continue
            n = 'cond__%d' % a
            helpers += 'static bool %s(%s)\n{\n    return %s;\n}\n\n' % (n, ', '.join('%s %s' % (v[i][0], i) for i in ids) or 'void', s[a:c])
            if DUP:
                helpers += 'static bool dup_%s(%s)\n{\n    return %s(%s);\n}\n\n' % (n, ', '.join('%s %s' % (v[i][0], i) for i in ids) or 'void', n, ', '.join(ids))
            es.append((a, c, '%s(%s)' % (n, ', '.join(ids))))
        if es:
            o = x.start()
            body, i = '', o
            for a, b, t in sorted(es):
                if a < i:
                    continue
                body += s[i:a] + t
                i = b
            yield o, e + 1, '#include <stdbool.h>\n' + helpers + body + s[i:e + 1]


def edits_exblk(s):
    """blocks that do not jump out or assign outer locals move into helper functions"""
    m = mask(s)
    for x, e in functions(s):
        v = locals_of(m, x, e)
        helpers, es = '', []
        last = 0
        for y in re.finditer(r'\{', m[x.end():e]):
            a = x.end() + y.start()
            if a < last:
                continue
            c = match(m, a, '{', '}')
            t = m[a:c + 1]
            if c > e or re.search(r'\b(return|goto|case|default|va_\w+)\b', t) or re.search(r'=\s*$', m[:a]):
                continue
            if re.search(r'\b(break|continue)\b', t):
                continue
            if re.search(r'\bdo\s*$', m[:a]) or not t.strip('{} \n\t'):
                continue
            inner = set(d.group(2) for d in DECL.finditer(m, a, c) if d.group(1).split()[0] not in KEYW)
            ids = sorted(i for i in idents(t) if i in v and i not in inner)
            if any(v[i] is None or v[i][1] > a for i in ids):
                continue
            if any(re.search(r'(?<![\w.>])(?:\+\+|--)?%s\s*(?:[-+*/|&^]?=(?!=)|\+\+|--)|(?:\+\+|--)\s*%s\b|(?<!&)&\s*%s\b(?!->)' % (i, i, i), t) for i in ids):
                continue
            n = 'part__%d' % a
            helpers += 'static void %s(%s)\n%s\n\n' % (n, ', '.join('%s %s' % (v[i][0], i) for i in ids) or 'void', s[a:c + 1])
            if DUP:
                helpers += 'static void dup_%s(%s)\n{\n    %s(%s);\n}\n\n' % (n, ', '.join('%s %s' % (v[i][0], i) for i in ids) or 'void', n, ', '.join(ids))
            es.append((a, c + 1, '{ %s(%s); }' % (n, ', '.join(ids))))
            last = c
        if es:
            body, i = '', x.start()
            for a, b, t in sorted(es):
                body += s[i:a] + t
                i = b
            yield x.start(), e + 1, helpers + body + s[i:e + 1]


def edits_exret(s):
    """right hand sides with calls move into helper functions that return them"""
    m = mask(s)
    for x, e in functions(s):
        v = locals_of(m, x, e)
        helpers, es = '', []
        for y in re.finditer(r'(?<=[;{}])\s*\n\s*((?:struct |enum )?\w+[\s\*]+)(\w+)\s=\s([^;{}]*\([^;{}]*);', m[x.end():e]):
            if y.group(1).strip() in KEYW or y.group(2) not in v or v[y.group(2)] is None:
                continue
            a, c = x.end() + y.start(3), x.end() + y.end(3)
            t = m[a:c]
            ids = sorted(i for i in idents(t) if i in v)
            if any(v[i] is None for i in ids) or any(re.search(r'(?<!&)&\s*%s\b(?!->)|%s\s*(\+\+|--)' % (i, i), t) for i in ids) or y.group(2) in ids:
                continue
            n = 'get__%d' % a
            helpers += 'static %s%s(%s)\n{\n    return %s;\n}\n\n' % (y.group(1).strip() + ' ', n, ', '.join('%s %s' % (v[i][0], i) for i in ids) or 'void', s[a:c])
            es.append((a, c, '%s(%s)' % (n, ', '.join(ids))))
        if es:
            body, i = '', x.start()
            for a, b, t in sorted(es):
                body += s[i:a] + t
                i = b
            yield x.start(), e + 1, helpers + body + s[i:e + 1]


def edits_swap(s):
    """adjacent independent assignments change places"""
    m = mask(s)
    A = r'([A-Za-z_][\w>.-]*)\s=\s([^;{}()]+);'
    for x in re.finditer(r'(?<=[;{}])\s*\n[ ]*%s\s*\n[ ]*%s' % (A, A), m):
        l1, r1, l2, r2 = (s[x.start(i):x.end(i)] for i in (1, 2, 3, 4))
        n1, n2 = re.split(r'->|\.', l1)[-1], re.split(r'->|\.', l2)[-1]
        if n1 == n2 or re.search(r'\b%s\b' % n1, l2 + ' ' + r2) or re.search(r'\b%s\b' % n2, l1 + ' ' + r1) or 'return' in (l1, l2) or '*' in l1 + l2 + r1 + r2:
            continue
        yield x.start(1), x.end(), '%s = %s;\n    %s = %s;' % (l2, r2, l1, r1)


def edits_early(s):
    """if (c) { ... } at the end of a void function -> early return"""
    m = mask(s)
    for x, e in functions(s):
        if x.group('t').strip() != 'void':
            continue
        for y in re.finditer(r'\bif\s*\(', m[x.end():e]):
            a = x.end() + y.start()
            c = match(m, x.end() + y.end() - 1)
            b = c + 1
            while m[b] in ' \n\t':
                b += 1
            if m[b] != '{' or match(m, b, '{', '}') < 0 or m[match(m, b, '{', '}') + 1:e].strip() or m[:a].rstrip().endswith('else'):
                continue
            k = match(m, b, '{', '}')
            if m.count('{', x.end(), a) != m.count('}', x.end(), a):
                continue
            yield a, k + 1, 'if (!(%s)) { return; } %s' % (s[x.end() + y.end():c], s[b:k + 1])
            break


def edits_elseret(s):
    """if (c) { ...return; } rest  ->  if (c) { ...return; } else { rest }   (innermost blocks, no declarations in rest needed later)"""
    m = mask(s)
    for x in re.finditer(r'\bif\s*\(', m):
        c = match(m, x.end() - 1)
        b = c + 1
        while m[b] in ' \n\t':
            b += 1
        if m[b] != '{':
            continue
        k = match(m, b, '{', '}')
        if not re.search(r'\breturn\b[^;{}]*;\s*\}$', m[b:k + 1]) or re.match(r'\s*else\b', m[k + 1:]) or m[:x.start()].rstrip().endswith('else'):
            continue
        d, i = 0, k + 1
        while i < len(m) and d >= 0:
            d += m[i] == '{'
            d -= m[i] == '}'
            i += 1
        rest = m[k + 1:i - 1]
        if not rest.strip() or re.search(r'\b(case|default)\b', rest):
            continue
        yield k + 1, i - 1, ' else { %s } ' % s[k + 1:i - 1]


DUP = False


def twice(f):
    def g(s):
        global DUP
        DUP = True
        try:
            yield from list(f(s))
        finally:
            DUP = False
    return g


edits_excond2, edits_exblk2 = twice(edits_excond), twice(edits_exblk)
T = {k[6:]: v for k, v in list(globals().items()) if k.startswith('edits_')}


def apply(s, es):
    es = sorted(es, key=lambda x: (x[0], x[1]))
    out, i = '', 0
    for a, b, t in es:
        if a < i:
            continue                      # nested: left as it is
        out += s[i:a] + t
        i = b
    return out + s[i:]


def compiles(dst, f):
    import program
    inc = ['-I' + os.path.join(dst, d) for d in ('palm/include', 'copra/include', 'copra', 'palm', '.', 'cocogen', 'cocogen/ccngen', 'cocogen/include')]
    r = subprocess.run(['clang', '-std=gnu11', '-fsyntax-only', '-w'] + inc + [os.path.join(dst, f)], capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def rewrite(dst, f, tr):
    p = os.path.join(dst, f)
    s = open(p).read()
    es = list(T[tr](s))
    if not es:
        return 0
    base, err0 = compiles(dst, f)
    def attempt(es):
        open(p, 'w').write(apply(s, es))
        return not base or compiles(dst, f)[0]
    if not base:
        print('    %s does not compile here: %s' % (f, err0[:300]))
        return 0
    if attempt(es):
        return len(es)
    def good(es):
        """largest part that compiles, by halving"""
        if attempt(es):
            return es
        if len(es) == 1:
            return []
        h = len(es) // 2
        return good(es[:h]) + good(es[h:])
    es = good(es)
    if not attempt(es):
        open(p, 'w').write(s)
        return 0
    return len(es)


PROPS = []


def run(job):
    tr, fs = job
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        dst = os.path.join(d, 'repo')
        shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('_build', '.git', '_cache'))
        n = sum(rewrite(dst, f, tr) for f in fs)
        if not n:
            return job, 0, '', ''
        ev = os.path.join(d, 'ev')
        os.makedirs(ev)
        if os.environ.get('KEEP'):
            k = '/tmp/neutral-%s' % tr
            shutil.rmtree(k, ignore_errors=True)
            shutil.copytree(dst, k)
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py')] + PROPS, capture_output=True, text=True, env=dict(os.environ, CCN_REPO=dst, CCN_EVIDENCE=ev))
        return job, n, r.stdout, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import registry
    a = sys.argv[1:]
    j, sel, perfile, trs = 7, '', False, []
    while a:
        x = a.pop(0)
        if x == '-j': j = int(a.pop(0))
        elif x == '-p': PROPS.extend(a.pop(0).split(','))
        elif x == '-f': sel = a.pop(0)
        elif x == '-F': perfile = True
        else: trs.append(x)
    if not PROPS:
        PROPS.extend(sorted(registry.CHECKS))
    fs = [f for f in files() if sel in f]
    jobs = [(t, [f]) for t in trs or T for f in fs] if perfile else [(t, fs) for t in trs or T]
    with ThreadPoolExecutor(j) as ex:
        for (tr, fs_), n, out, err in ex.map(run, jobs):
            bad = [l for l in out.splitlines() if not l.startswith(('OK', 'KNOWN'))]
            if not n and perfile:
                continue
            print('%-10s %s %d places: %s' % (tr, fs_[0] if perfile else '%d files' % len(fs_), n, 'quiet' if not bad and (out or not n) else 'ALARM'))
            for l in bad:
                print('      ' + l[:260])
            if err.strip():
                print('      ' + err.strip()[-1200:].replace('\n', '\n      '))
            sys.stdout.flush()
