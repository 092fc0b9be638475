"""The derived compiler (genmodel) as a program: type checked by clang, and
loaded through the same front end as the project itself.  Nothing is run."""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import json
import program, genmodel, emit
from program import AnalysisBroken, REPO, build_ccx, _resdir

STUBS = {'user_types.h': '#pragma once\ntypedef void *MyType;\ntypedef struct { int a; } *OtherType;\n'}
ERRS = ['-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion',
        '-Werror=return-type', '-Werror=enum-conversion', '-Werror=implicit-int', '-Werror=excess-initializers', '-Werror=format',
        '-Werror=incompatible-function-pointer-types', '-Werror=undefined-internal', '-Werror=macro-redefined',
        '-Werror=switch', '-Werror=enum-compare', '-Werror=initializer-overrides', '-Wno-switch-enum', '-Werror=deprecated-non-prototype']


class GenProgram(program.Program):
    pass


class Derived:
    """one skeleton's derived project"""
    def __init__(self, model, debug=False, extra=None):
        self.M, self.S = model, model.spec
        self.debug = debug
        self.extra = extra or {}
        self.errors = []        # (path, line, message)
        self.tmp = os.path.realpath(tempfile.mkdtemp(prefix='ccn-gen-'))
        try:
            self.write()
            self.load()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def write(self):
        for path, text in list(STUBS.items()) + list(self.extra.items()) + [(p, f.text()) for p, f in self.M.files.items()]:
            p = os.path.join(self.tmp, path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fh:
                fh.write(text)

    def args(self):
        a = ['-std=gnu17', '-resource-dir', _resdir(), '-fsyntax-only', '-Iccngen', '-I.', '-I' + REPO + '/copra', '-I' + REPO + '/palm/include']
        a = [x.replace('-Iccngen', '-I' + self.tmp + '/ccngen').replace('-I.', '-I' + self.tmp) if x in ('-Iccngen', '-I.') else x for x in a]
        if not self.debug:
            a.append('-DNDEBUG')
        return a

    def sources(self):
        r = []
        for d in ('src', 'user', 'witness'):
            r += sorted(glob.glob('%s/%s/*.c' % (self.tmp, d)))
        return r + sorted(glob.glob(REPO + '/copra/src/*.c'))

    def load(self):
        ccx = build_ccx()
        G = self.G = GenProgram()
        args = self.args()
        out = self.tmp + '/json'
        os.makedirs(out)

        def one(i_s):
            i, s = i_s
            r = subprocess.run(['clang-18'] + args + ERRS + ['-fno-caret-diagnostics', '-fno-color-diagnostics', '-ferror-limit=0', s],
                               capture_output=True, text=True)
            errs = []
            for m in re.finditer(r'^(.*?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stderr, re.M):
                errs.append((m.group(1), int(m.group(2)), m.group(3)))
            o = '%s/%d.json' % (out, i)
            r2 = subprocess.run([ccx, '-o', o, '-r', self.tmp + '/', '-r', REPO + '/', s, '--'] + ['-w'] + args, capture_output=True, text=True)
            d = None
            if os.path.exists(o) and os.path.getsize(o):
                with open(o) as fh:
                    d = json.load(fh)
            return s, d, errs, r.returncode
        self.unparsed = []
        self.parsed = []
        with ThreadPoolExecutor(8) as ex:
            for s, d, errs, rc in ex.map(one, list(enumerate(self.sources()))):
                if s.startswith(REPO) and rc and not errs:
                    raise AnalysisBroken('clang on %s failed' % s)
                for p, l, m in errs:
                    e = (self.rel(p), l, m)
                    if e not in self.errors:
                        self.errors.append(e)
                if d is None:
                    self.unparsed.append(self.rel(s))
                    continue
                self.parsed.append(self.rel(s))
                program._link(G, d)
        G.repo = REPO
        if self.M.broken and not self.parsed:
            raise AnalysisBroken('no derived file could be analysed: %s' % self.M.broken[:2])

    def rel(self, p):
        p = os.path.normpath(p)
        if p.startswith(self.tmp + '/'):
            return p[len(self.tmp) + 1:]
        if p.startswith(REPO + '/'):
            return p[len(REPO) + 1:]
        return p

    def prov(self, path, line):
        """generator functions a derived line comes from"""
        f = self.M.files.get(path)
        if f is None:
            return []
        ls = f.lines()
        r = []
        for i in (line - 1, line - 2):
            if 0 <= i < len(ls):
                for x in sorted(ls[i]):
                    if x not in r:
                        r.append(x)
            if r:
                break
        return r

    def where(self, path, line):
        p = self.prov(path, line)
        return ', '.join('%s (line %d)' % (a, b) for a, b in p[:3]) or '%s:%d of the derived project' % (path, line)


_cache = {}


def derive(P, name, debug=False, extra=None, key=''):
    k = (name, debug, key)
    if k in _cache:
        return _cache[k]
    import skel
    if ('m', name) not in _cache:
        if 'E' not in _cache:
            _cache['E'] = emit.Emitter(P)
        S = skel.SKELETONS[name](P)
        _cache[('m', name)] = genmodel.GenModel(_cache['E'], S)
    M = _cache[('m', name)]
    _cache[k] = Derived(M, debug, extra(M.spec) if extra else None)
    return _cache[k]
