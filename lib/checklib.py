"""Harness: runs one property's rules, applies the known-findings file, writes
the evidence file and prints VIOLATION / KNOWN-FINDING lines."""
import json, os, sys, time, traceback
import program
from program import AnalysisBroken, VERIF, rel

TRUSTED = ['clang 18 front end (ccx/libTooling)', 'bison/flex generation of the parser',
           'the rule engine in /verif/lib']

EVID = os.environ.get('CCN_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obls = []        # (rule, instance)
        self.viols = []       # dict(rule, site, msg)
        self.notes = {}
        self.rules = {}
        self.funcs = set()
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, inst):
        self.obls.append((rule, inst))

    def func(self, f):
        self.funcs.add('%s (%s)' % (f.name, rel(f.file)))

    def viol(self, rule, site, msg, func=None, line=None):
        """site: stable identification (function / construct) used by known findings"""
        for v in self.viols:
            if v['rule'] == rule and v['site'] == site and v['msg'] == msg:
                return
        self.viols.append({'rule': rule, 'site': site, 'msg': msg,
                           'where': '%s:%s' % (rel(func.file), line if line else func.line) if func is not None else ''})

    def check(self, cond, rule, inst, site, msg, func=None, line=None):
        self.ob(rule, inst)
        if not cond:
            self.viol(rule, site, msg, func, line)
        return cond

    def need(self, rule, n):
        """fail (no answer) when fewer than n instances of a rule were found"""
        k = sum(1 for r, _ in self.obls if r == rule)
        if k < n:
            raise AnalysisBroken('rule %s matched %d instances, expected at least %d' % (rule, k, n))


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def main(pid, fn, level='other', assumptions=()):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    R = Report(pid)
    try:
        fn(R, tier)
    except AnalysisBroken as e:
        # what the monitor had already found on a path is a violation even when the analysis did not finish
        bad = getattr(getattr(e, 'mon', None), 'bad', None)
        if isinstance(bad, dict):
            for msg, x in bad.items():
                if isinstance(msg, str) and isinstance(x, tuple) and len(x) == 2:
                    R.viol('path', e.root.name, msg, x[0], x[1])
        if not R.viols:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
        R.notes['incomplete'] = str(e)
    except Exception:
        if not R.viols:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s internal error' % pid)
            return 2
        R.notes['incomplete'] = traceback.format_exc()
    kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    new = []
    for v in R.viols:
        hit = None
        for k in kf:
            if k['rule'] == v['rule'] and k['site'] == v['site']:
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s [%s at %s]' % (pid, hit['what'], v['rule'], v['site']))
        else:
            new.append(v)
    byrule = {}
    for r, i in R.obls:
        byrule[r] = byrule.get(r, 0) + 1
    badob = len(set((v['rule'], v['site']) for v in R.viols))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': 'Static analysis of the current source (nothing is executed). Rules applied: ' +
                           '; '.join('%s: %s' % kv for kv in R.rules.items()),
            'obligations': len(R.obls),
            'discharged': max(0, len(R.obls) - len(R.viols)),
            'obligations_by_rule': byrule,
            'functions_analysed': len(R.funcs),
            'functions': sorted(R.funcs)[:200],
            'samples': [{'rule': r, 'instance': i} for r, i in (R.obls[:3] + R.obls[len(R.obls) // 2:len(R.obls) // 2 + 2] + R.obls[-3:])],
            'checker_cmd': 'python3 %s' % ' '.join(sys.argv),
            'trusted_base': TRUSTED,
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - R.t0, 3),
        'violations': len(new),
    }
    ev['coverage'].update({'notes': R.notes} if R.notes else {})
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        rp = os.path.join(EVID, pid + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump(new, fh, indent=1, default=str)
        for v in new:
            print('%s: [%s] %s (%s)' % (v['where'], v['rule'], v['msg'], v['site']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (pid, len(R.obls), len(R.funcs), time.time() - R.t0))
    return 0
