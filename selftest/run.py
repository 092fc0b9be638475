#!/usr/bin/env python3
"""Mutation self-test of the analyses (not a registered check).
usage: selftest/run.py [-j N] [-k substr] [files...]
Each mutant file is a python list MUTANTS of (id, [expected props], [(file, old, new), ...]).
expected [] = behaviour-preserving edit: every check must stay quiet.
Works on scratch copies under /tmp; nothing of the project is executed."""
import os, sys, shutil, subprocess, tempfile, importlib.util, glob, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import registry

ALL = sorted(registry.CHECKS)


def apply(dst, edits):
    for f, old, new in edits:
        p = os.path.join(dst, f)
        s = open(p).read()
        if s.count(old) < 1:
            return 'pattern not found in %s: %r' % (f, old[:60])
        s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    return None


def one(m):
    mid, exp, edits = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        dst = os.path.join(d, 'repo')
        shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('_build', '.git', '_cache'))
        e = apply(dst, edits)
        if e:
            return mid, exp, None, e
        ev = os.path.join(d, 'ev')
        os.makedirs(ev)
        env = dict(os.environ, CCN_REPO=dst, CCN_EVIDENCE=ev)
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py')] + (PROPS or ALL), capture_output=True, text=True, env=env)
        return mid, exp, r.stdout, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = []
if __name__ == '__main__':
    a = sys.argv[1:]
    j, k, files, verbose = 8, None, [], False
    while a:
        x = a.pop(0)
        if x == '-j': j = int(a.pop(0))
        elif x == '-k': k = a.pop(0)
        elif x == '-v': verbose = True
        elif x == '-p': PROPS.extend(a.pop(0).split(','))
        else: files.append(x)
    files = files or sorted(glob.glob(os.path.join(V, 'selftest', 'mut_*.py')))
    ms = []
    for f in files:
        spec = importlib.util.spec_from_file_location('m', f)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        ms += [m for m in mod.MUTANTS if not k or k in m[0]]
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for mid, exp, out, err in ex.map(one, ms):
            if out is None:
                print('%-34s NOT-APPLIED %s' % (mid, err)); bad += 1; continue
            hit = sorted(set(l.split('property=')[1].split()[0] for l in out.splitlines() if l.startswith('VIOLATION')))
            brk = sorted(set(l.split('property=')[1].split()[0] for l in out.splitlines() if l.startswith('ANALYSIS-BROKEN')))
            if exp:
                ok = all(e in hit for e in exp if not PROPS or e in PROPS)
            else:
                ok = not hit and not brk
            if not ok:
                bad += 1
            print('%-34s %s expected=%s hit=%s%s' % (mid, 'ok  ' if ok else 'FAIL', ','.join(exp) or '-', ','.join(hit) or '-', ' broken=' + ','.join(brk) if brk else ''))
            if verbose or not ok:
                for l in [l for l in out.splitlines() if not l.startswith(('OK', 'VIOLATION', 'KNOWN'))][:6]:
                    if not l.startswith(('OK', 'VIOLATION', 'KNOWN')):
                        print('      ' + l)
                if err.strip():
                    print('      ' + err.strip()[-1500:].replace('\n', '\n      '))
    print('%d mutants, %d unexpected' % (len(ms), bad))
