import checklib, program


_P = {}


def prog(debug=False):
    if debug not in _P:
        _P[debug] = program.load(debug)
    return _P[debug]


def _rt(name):
    def go(R, tier):
        import rules_runtime
        getattr(rules_runtime, name)(R, prog())
    return go


def _m(mod, name, debug=False):
    def go(R, tier):
        import importlib
        getattr(importlib.import_module(mod), name)(R, prog(debug))
    return go


GEN = ['specifications beyond the skeletons of lib/skel.py combine the same constructs']
FRONT = ['user-written handlers are only entered through the generated traversal tables']
CHECKS = {
    'C01': (_rt('c01'), ['user traversal callbacks are balanced (induction over the same property)']),
    'C02': (_rt('c02'), []),
    'C03': (_rt('c03'), []),
    'C04': (_rt('c04'), []),
    'C05': (_rt('c05'), []),
    'C06': (_rt('c06'), []),
    'C07': (_rt('c07'), []),
    'C08': (_rt('c08'), []),
    'C09': (_rt('c09'), []),
    'C10': (_m('rules_palm', 'c10'), []),
    'C13': (_m('rules_palm', 'c13'), []),
    'C14': (_m('rules_front', 'c14'), FRONT),
    'C15': (_m('rules_fmt', 'c15'), GEN),
    'C16': (_m('rules_front', 'c16'), FRONT),
    'C17': (_m('rules_front', 'c17'), FRONT),
    'C18': (_m('rules_front', 'c18'), FRONT),
    'C19': (_m('rules_parse', 'c19'), ['the parsing automaton follows the grammar bison was given']),
    'C20': (_m('rules_sets', 'c20'), FRONT),
    'C21': (_m('rules_front', 'c21'), FRONT),
    'C34': (_m('rules_front', 'c34'), FRONT),
    'C35': (_m('rules_front', 'c35'), FRONT),
    'C36': (_m('rules_reach', 'reach'), FRONT + ['every node and traversal has an index of its own (assigned by the parser)']),
    'C37': (_m('rules_attr', 'c37'), FRONT),
    'C38': (_m('rules_inherit', 'c38'), FRONT + ['equal attribute names within one list are reported elsewhere (C16)']),
    'C39': (_m('rules_sched','c39'), FRONT),
    'C40': (_m('rules_sched','c40'), FRONT),
    'C41': (_m('rules_visitgen', 'c41'), GEN),
    'C42': (_m('rules_visitgen', 'c42'), GEN),
    'C22': (_m('rules_gen', 'c22'), GEN),
    'C23': (_m('rules_gen', 'c23'), GEN),
    'C24': (_m('rules_gen', 'c24'), GEN),
    'C25': (_m('rules_gen', 'c25'), GEN),
    'C26': (_m('rules_gen', 'c26'), GEN),
    'C27': (_m('rules_gen', 'c27'), GEN),
    'C28': (_m('rules_gen', 'c28'), GEN),
    'C29': (_m('rules_gen', 'c29'), GEN),
    'C30': (_m('rules_gen', 'c30'), GEN),
    'C31': (_m('rules_gen', 'c31'), GEN),
    'C32': (_m('rules_gen', 'c32'), GEN),
}


def run(pid):
    fn, assume = CHECKS[pid]
    return checklib.main(pid, fn, assumptions=assume)
