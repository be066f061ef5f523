"""C10-C13: argument completers as specified in spec/Values.tla, replayed in bash, fish and zsh."""
import checks_cmdline, gen


def suite(chk, tag, n, kinds, depth, per_state=40):
    rounds = max(1, n // 60)
    for r in range(rounds):
        defs = [gen.values_def('%s-%s-%s-%d-%d' % (chk.prop, tag, chk.seed, r, i), 'cc%s%d' % (tag, i), kinds, depth)
                for i in range(n // rounds)]
        checks_cmdline.conform(chk, '%s%d' % (tag, r), defs, mode='bfs', budget=10 ** 6, per_state=per_state,
                               drop=() if chk.prop == 'C11' else ('listdup',))


def suites(chk, *l):
    chk.assumptions = list(checks_cmdline.ASSUME)
    q = chk.tier == 'quick'
    for tag, n, kinds, depth in l:
        suite(chk, tag, n if q else n * 12, kinds, depth, 14 if q else 40)


def findings(chk, *comps):
    """Fixed definitions that show known findings; (shells, key, completer)."""
    for i, (shells, key, c) in enumerate(comps):
        d = gen.definition('ccf%d' % i, [gen.command('ccf%d' % i, 0, [gen.option(['--alpha', '-a'], 'req', c)])], depth=1)
        d['words'] = ['--alpha']
        d['findings'] = {s: key for s in shells}
        checks_cmdline.conform(chk, 'finding%d' % i, [d], mode='bfs', budget=10 ** 4, per_state=20, drop=('listdup',))


def C11(chk):
    suites(chk, ('v', 24, ['value_list'], 1), ('l', 24, ['list'], 2))
    findings(chk, (['bash'], 'bash:list:wordbreak-in-element',
                   {'k': 'list', 'sep': ',', 'dup': False, 'c': {'k': 'prefix', 'p': 'p=', 'c': gen.choices('one', 'two')}}))


def C12(chk):
    suites(chk, ('p', 20, ['kvp'], 2), ('k', 36, ['kvl'], 2))
    findings(chk, (['bash'], 'bash:key_value:wordbreak-in-value',
                   {'k': 'kvl', 'psep': '%', 'vsep': '@', 'keys': [{'k': 'key', 'rep': False, 'arg': True, 'excl': [],
                    'c': {'k': 'list', 'c': gen.choices('one', 'two'), 'sep': ':', 'dup': False}}]}))


def C13(chk):
    suites(chk, ('r', 12, ['range', 'integer', 'float'], 1), ('c', 20, ['combine', 'prefix'], 1), ('n', 20, ['prefix', 'combine', 'kvp', 'list'], 2))
