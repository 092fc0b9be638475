"""Front end: parse every translation unit of /repo's build with ccx (libTooling)
and link the result into one Program."""
import json, os, re, subprocess, sys, tempfile, shutil, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCN_REPO', '/repo')


class AnalysisBroken(Exception):
    """the analysis has no answer (vanished anchor, unparsable source...)"""


def build_ccx():
    src = os.path.join(VERIF, 'ccx', 'ccx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(VERIF, 'build', 'ccx-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
    flags = [f for f in flags if not f.startswith('-std')]
    tmp = out + '.tmp%d' % os.getpid()
    cmd = ['clang++', '-O1', '-std=c++17', '-fno-rtti'] + flags + [src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build ccx: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def cmake_sources(repo):
    """translation units named or globbed by the project's CMake files"""
    res = []
    txt = open(os.path.join(repo, 'cocogen/CMakeLists.txt')).read()
    for m in re.finditer(r'(?<![\w$}/])([\w./-]+\.c)\b', txt):
        p = os.path.join(repo, 'cocogen', m.group(1))
        if os.path.exists(p) and p not in res:
            res.append(p)
    for p in sorted(glob.glob(os.path.join(repo, 'cocogen/ccngen/*.c'))) + \
            sorted(glob.glob(os.path.join(repo, 'copra/src/*.c'))):
        if p not in res:
            res.append(p)
    for p in sorted(glob.glob(os.path.join(repo, 'palm/src/*.c'))):
        if p not in res:
            res.append(p)
    return res


class Func:
    def __init__(self, d, tu):
        self.name = d['name']
        self.file = d['file']
        self.line = d['line']
        self.static = d['static']
        self.variadic = d['variadic']
        self.ret = d['ret']
        self.params = d['params']
        self.body = d.get('body')
        self.tu = tu
        self.cfg = None

    def __repr__(self):
        return '<%s %s:%d>' % (self.name, rel(self.file), self.line)

    @property
    def loc(self):
        return '%s:%d' % (rel(self.file), self.line)


_tmpdir = None


def rel(p):
    for r in (REPO, _tmpdir or '\0'):
        if p.startswith(r + '/'):
            return p[len(r) + 1:]
    return p


class Program:
    def __init__(self):
        self.tus = {}
        self.funcs = {}        # name -> Func   (external linkage, defined)
        self.statics = {}      # (tu, name) -> Func
        self.decls = {}        # name -> declaration dict
        self.globals = {}      # name -> global dict with initialiser if any
        self.sglobals = {}     # (tu,name)
        self.records = {}
        self.sizes = {}
        self.enums = {}
        self.enum_of = {}      # constant -> (enum, value)
        self.dup = []

    def resolve(self, tu, name):
        f = self.statics.get((tu, name))
        if f is None:
            f = self.funcs.get(name)
        return f

    def all_funcs(self):
        return list(self.funcs.values()) + list(self.statics.values())

    def funcs_in(self, prefix):
        return [f for f in self.all_funcs() if rel(f.file).startswith(prefix)]

    def need(self, name):
        f = self.funcs.get(name)
        if f is None:
            c = [g for (t, n), g in self.statics.items() if n == name]
            if len(c) == 1:
                return c[0]
            raise AnalysisBroken('anchor function %s not found' % name)
        return f

    def global_(self, name, tu=None):
        if tu and (tu, name) in self.sglobals:
            return self.sglobals[(tu, name)]
        return self.globals.get(name)

    def find_static_global(self, name):
        c = [g for (t, n), g in self.sglobals.items() if n == name]
        return c[0] if len(c) == 1 else None


def load(debug=False, only=None):
    """Parse the tree.  only: list of path prefixes (relative) to restrict the TUs."""
    global _tmpdir
    ccx = build_ccx()
    tmp = tempfile.mkdtemp(prefix='ccn-sa-')
    _tmpdir = os.path.realpath(tmp)
    try:
        gen = os.path.join(_tmpdir, 'gen')
        out = os.path.join(_tmpdir, 'out')
        os.makedirs(gen)
        os.makedirs(out)
        sp = os.path.join(REPO, 'cocogen/frontend/scanAndParse')
        r = subprocess.run(['bison', '-d', '-o', gen + '/dsl-parser.c', '--defines=' + gen + '/dsl-parser.h',
                            sp + '/dsl-parser.y'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('bison: ' + r.stderr)
        r = subprocess.run(['flex', '-o', gen + '/dsl-tokens.c', '--header-file=' + gen + '/dsl-lexer.h',
                            sp + '/dsl-lexer.l'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('flex: ' + r.stderr)
        srcs = cmake_sources(REPO)
        if only:
            srcs = [s for s in srcs if any(rel(s).startswith(p) for p in only)]
        srcs += [gen + '/dsl-parser.c', gen + '/dsl-tokens.c'] if not only else []
        args = ['-std=gnu17', '-w', '-resource-dir', _resdir(), '-fsyntax-only', '-I' + REPO + '/cocogen/ccngen',
                '-I' + REPO + '/cocogen', '-I' + REPO + '/copra', '-I' + REPO + '/palm/include',
                '-I' + gen]
        # generated sources include each other relative to the source dir
        args.append('-I' + sp)
        if not debug:
            args.append('-DNDEBUG')

        def one(i_s):
            i, s = i_s
            o = '%s/%d.json' % (out, i)
            r = subprocess.run([ccx, '-o', o, '-r', REPO + '/', '-r', _tmpdir + '/', s, '--'] + args,
                               capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(o):
                return s, None, r.stderr
            with open(o) as fh:
                return s, json.load(fh), ''
        P = Program()
        with ThreadPoolExecutor(8) as ex:
            for s, d, e in ex.map(one, list(enumerate(srcs))):
                if d is None:
                    raise AnalysisBroken('cannot parse %s: %s' % (s, e[-1500:]))
                _link(P, d)
        P.repo = REPO
        P.gen = gen
        # grammar, as xml, for the parser rules
        r = subprocess.run(['bison', '--xml=' + gen + '/g.xml', '-o', gen + '/x.c', sp + '/dsl-parser.y'],
                           capture_output=True, text=True)
        P.grammar_xml = open(gen + '/g.xml').read() if r.returncode == 0 and os.path.exists(gen + '/g.xml') else None
        return P
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _resdir():
    r = subprocess.run(['clang-18', '-print-resource-dir'], capture_output=True, text=True)
    if r.returncode != 0:
        r = subprocess.run(['clang', '-print-resource-dir'], capture_output=True, text=True)
    return r.stdout.strip()


def _link(P, d):
    tu = d['tu']
    P.tus[tu] = d
    for f in d['functions']:
        if f.get('body') is None:
            P.decls.setdefault(f['name'], f)
            continue
        P.decls.setdefault(f['name'], f)
        F = Func(f, tu)
        if f['static']:
            P.statics[(tu, f['name'])] = F
        else:
            if f['name'] in P.funcs:
                P.dup.append(f['name'])
            P.funcs[f['name']] = F
    for g in d['globals']:
        if g['static']:
            P.sglobals[(tu, g['n'])] = g
        else:
            old = P.globals.get(g['n'])
            if old is None or ('init' in g and 'init' not in old):
                g['tu'] = tu
                P.globals[g['n']] = g
    for k, v in d['records'].items():
        P.records.setdefault(k, v)
    for k, v in d.get('sizes', {}).items():
        P.sizes.setdefault(k, v)
    for k, v in d['enums'].items():
        P.enums.setdefault(k, v)
        for n, val in v:
            P.enum_of[n] = (k, val)
