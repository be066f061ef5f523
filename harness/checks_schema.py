"""C19, C21: which definitions and `when` expressions are accepted (spec/Schema.tla, spec/When.tla)."""
import json, os, re
import yaml
import cmdline, core, shells

WCFG = '''SPECIFICATION Spec
CONSTANT EmitFile = "%s"
INVARIANTS Inv
CHECK_DEADLOCK FALSE
'''

ATOMS = ['has_option -a', 'has_option -b', '&&', '||', '!', '(', ')']
WORDS = ['has_option', 'option_is', 'option_match', 'positional_count', 'positional_contains', '-a', '-v', '--', 'x', '"x y"', '==', '!=', '<', '1', '2', '-i',
         'nocase', 'any', "''", '(', '&&', "'('", '--fl']
CHARS = list(' !=&|()\'"\\-abvx12<>[],_') + ['&&', '||', ' -v ', ' -- ', '"x', "'x y'", 'has_option ', '\t', '\n', 'é']
BASE = ['', 'has_option -a', 'has_option -a -b && ! has_option --flag', 'option_is -v -- x "x y" || (has_option -b)', 'positional_count >= 1',
        "positional_contains 1 x 'x y'", 'positional_contains -i 2 X', '! ! (has_option -a || has_option -b) && positional_count != 1',
        'option_is nocase -v --value -- X', "option_match -v -- '^x'", 'has_option "--flag" \'-a\'', '((positional_count < 2))', 'has_option -a&&has_option -b',
        'option_is -v -- "x\\"y" && has_option -a', 'has_option "-"a']
LINES = [[], ['-a'], ['-b'], ['-a', '-b'], ['--flag'], ['-v', 'x'], ['-v', 'x y', '-a'], ['--value=x'], ['x'], ['x y', 'x'], ['-v', 'x"y', 'y', 'X', '-b'], ['--value', 'X', '-b', 'y']]


def meaning(ws):
    """What is on the line (Line of CmdLine.tla, for these simple lines)."""
    alias = {'-v': ['-v', '--value'], '--value': ['-v', '--value']}
    has, vals, pos, i = [], [], [], 0
    while i < len(ws):
        w = ws[i]
        o, eq, v = w.partition('=')
        if w in alias or eq and o in alias:
            if not eq: i, v = i + 1, ws[i + 1]
            has += alias[o]
            vals += [[x, v] for x in alias[o]]
        elif w.startswith('-'): has.append(w)
        else: pos.append(w)
        i += 1
    return dict(has=has, vals=vals, pos=pos, w=ws)


def whens(chk, name, base, pieces=(), sep=' ', max=0, chars=(), sim=None, split=True):
    """Explore; returns [(string, verdict, truth)]"""
    starts = [[b] for b in base] if split else [base]
    def one(ic):
        i, b = ic
        f = '%s/%s_%d' % (chk.dir, name, i)
        with open(f + '.json', 'w') as fh:
            json.dump(dict(base=b, pieces=list(pieces), sep=sep, max=max, chars=list(chars), lines=[meaning(l) for l in LINES], opts=['-a', '-b', '--flag', '-v', '--value']), fh)
        extra = ['-simulate', 'num=%d' % sim[0], '-depth', str(sim[1] + 1), '-seed', str(chk.seed * 100 + i)] if sim else []
        out, g, dis = core.tlc('MCWhen', WCFG % (f + '.out'), chk.dir, '%s_%d' % (name, i), env={'CC_WHEN': f + '.json'}, extra=extra)
        return [json.loads(l) for l in open(f + '.out', encoding='utf-8')], g, dis
    res = {}
    for r, g, dis in core.pmap(one, enumerate(starts)):
        chk.transitions += g
        for x in r:
            res[x['s']] = (x['v'], x['b'])
    chk.states += len(res)
    return sorted((s, v, b) for s, (v, b) in res.items())


def when_doc(prog, exprs):
    f = lambda *s, **k: dict({'option_strings': list(s)}, **k)
    return [dict(prog=prog, options=[f('-a'), f('-b'), f('--flag'), f('-v', '--value', complete=['none'], repeatable=True)] +
                 [f('--o%d' % i, when=e) for i, e in enumerate(exprs)],
                 positionals=[dict(number=1, repeatable=True, complete=['choices', ['x', 'y']])])]


def dump(docs, path):
    with open(path, 'w', encoding='utf-8') as fh:
        if path.endswith('.json'):
            json.dump(docs, fh)
        else:
            yaml.safe_dump_all(docs, fh, default_flow_style=None, sort_keys=False, allow_unicode=True, width=10 ** 6)


def judge(chk, name, cases, limit=40):
    """cases: [(docs, verdict, title)] -> run the tool on each; returns the results after reporting"""
    cmds = []
    sh = ('bash', 'fish', 'zsh')
    for i, (d, v, t) in enumerate(cases):
        p = '%s/%s%d.%s' % (chk.dir, name, i, ('yaml', 'json')[i % 4 == 3 or not isinstance(d, list)])
        dump19(d, p)
        cmds.append(['-o', p + '.out', sh[i % 3], p])
    res = core.clis(cmds, chk.dir, name)
    chk.queries += len(cmds)
    for (d, v, t), c, (rc, out, err) in zip(cases, cmds, res):
        made = os.path.exists(c[1])
        want = {0: (0,), 1: (0, 1), 2: (1,)}[v]
        what = None
        if rc not in want or 'Traceback' in err:
            if limit > 0:
                limit -= 1
                rc, out, err = core.cli(c)
            if rc not in want or 'Traceback' in err:
                what = ('crashes' if rc not in (0, 1) or 'Traceback' in err else 'is accepted' if rc == 0 else 'is rejected')
                cause = re.findall(r'File "[^"]*/([a-z_]+\.py)", line \d+, in (\w+)\n.*\n(\w+Error)', err)
                det = (cause[-1] if cause else err.strip()[:300])
                chk.violation('%s:%s' % (what.split()[-1], cause[-1] if cause else ''), '%s %s: %s' % (t, what, det), dict(file=text(c[3]), shell=c[2], exit=rc, stderr=err[-1500:]))
        elif rc == 0 and not made or rc != 0 and made:
            chk.violation('output', '%s: exit %d, but the output file %s' % (t, rc, 'exists' if made else 'does not exist'), dict(file=text(c[3]), shell=c[2]))
        elif rc == 1 and not re.search(r'\w', err.replace('Pass --debug', '')):
            chk.violation('message', '%s: rejected without a message' % t, dict(file=text(c[3]), shell=c[2]))
        chk.count('verdict %d exit %d' % (v, rc))
        for f in (c[1], c[3]):
            if os.path.exists(f): os.unlink(f)
    return res


def text(p):
    with open(p, encoding='utf-8', errors='replace') as fh:
        return fh.read()


def evaluate(chk, name, cases, per=40):
    """cases: [(expression, truth per line)] -> what the scripts offer"""
    n = 0
    plan, exp = {}, {}
    for i, ch in enumerate([cases[j:j + per] for j in range(0, len(cases), per)]):
        prog = 'ccw%s%d' % (name, i)
        src = '%s/%s.yaml' % (chk.dir, prog)
        dump(when_doc(prog, [e for e, b in ch]), src)
        bad = core.generate([([], src, sh, '%s/%s.%s' % (chk.dir, prog, sh)) for sh in ('bash', 'fish', 'zsh')], chk.dir, 'g%s' % prog)
        for (a, s, sh, out), err in bad:
            chk.violation('%s:rejected' % sh, 'a definition with documented conditions is rejected by %s: %s' % (sh, err), dict(file=text(src)))
        exp[prog] = ch
        lines = [' '.join([prog] + [cmdline.shword(w) for w in l] + ['--o']) for l in LINES]
        for sh in ('bash', 'fish', 'zsh'):
            if not any(t[2] == sh for t, e in bad):
                plan.setdefault(sh, []).append((prog, '%s/%s.%s' % (chk.dir, prog, sh), prog, lines))
    res, errs = cmdline.run_shells(chk, name, plan)
    for (sh, prog), recs in sorted(res.items()):
        for li, rec in enumerate(recs):
            got = {c.rstrip('=').replace('\\', '') for c in rec['full'] if c.startswith('--o')}
            for i, (e, b) in enumerate(exp[prog]):
                chk.queries += 1
                if (('--o%d' % i) in got) != b[li]:
                    n += 1
                    if n < 60:
                        chk.violation('%s:value' % sh, '%s: `when: %s` is %s on the line `%s` (should be %s)' % (
                            sh, e, not b[li], ' '.join(LINES[li]), b[li]), dict(expression=e, line=LINES[li], shell=sh, got=sorted(got), prog=prog))
    chk.traces += len(exp) * len(LINES)


def C21(chk):
    q = chk.tier == 'quick'
    rng = chk.rng()
    sets = [('A', whens(chk, 'A', ATOMS, ATOMS, max=4 if q else 5)),
            ('B', whens(chk, 'B', WORDS[:5] + ['! option_is', '( option_is -v', 'option_is -v --', 'option_match -v', 'positional_contains -i'], WORDS, max=2 if q else 3)),
            ('C', whens(chk, 'C', BASE, chars=CHARS, sim=(60 if q else 800, 4)))]
    for name, l in sets:
        ok = [x for x in l if x[1] == 0]
        rest = [x for x in l if x[1] != 0]
        lim = 5000 if q else 60000
        rest = rest if len(rest) <= lim else rng.sample(rest, lim)
        chk.count('strings %s' % name, len(l))
        chk.count('expressions %s' % name, len(ok))
        judge(chk, 'j' + name, [(when_doc('ccw', [s]), v, '`when: %s`' % s) for s, v, b in ok + rest])
        ev = [(s, b) for s, v, b in ok if b]
        if name != 'A' or not q:
            lim = 400 if q else 3000
            ev = ev if len(ev) <= lim else rng.sample(ev, lim)
        evaluate(chk, name, ev)
        for s, v, b in l[:: max(1, len(l) // 2)][:2]:
            chk.sample(dict(when=s, verdict=v, truth=b))


# ---------------------------------------------------------------------------------------------------------------------
SCFG = WCFG

COMPLETERS = [[x] for x in 'alsa_card charset commandline_string date_format environment gid hostname locale mountpoint pid service timezone user variable none directory file file_list directory_list integer float ip_address command'.split()] + [
    ['choices', ['a', 'b c', 1]], ['choices', {'a': 'A', 'b': 'B'}], ['command', {'path': '/bin'}], ['command', {'path_append': '/x', 'path_prepend': '/y'}],
    ['directory', {'directory': '/tmp'}], ['file', {'extensions': ['c', 'h'], 'fuzzy': True, 'directory': '/tmp', 'ignore_globs': ['*.o']}],
    ['file_list', {'separator': ':', 'duplicates': True, 'extensions': ['c']}], ['directory_list', {'separator': ','}], ['mime_file', 'image'], ['history', 'ab.c'],
    ['date', '%Y'], ['exec', 'echo a'], ['exec_fast', 'echo a'], ['exec_internal', '_f'], ['range', 1, 9], ['range', 9, 1, -2], ['range', 0, 10, 5],
    ['key_value_list_exec', ',', '=', 'f'], ['key_value_pair_exec', '=', 'f'], ['value_list', {'values': ['a', 'b'], 'separator': '+'}],
    ['value_list', {'values': {'a': 'A'}, 'duplicates': False}],
    ['key_value_list', ',', '=', [['a', 'A', ['file']], ['b', None, None], ['*c', 'C', ['choices', ['1', '2']], ['a', 'c']]]],
    ['key_value_pair', ':', [['a', 'A', ['user']], ['b', 'B', None]]], ['combine', [['user'], ['choices', ['x']]]], ['combine', [['group'], ['list', ['pid']], ['file']]],
    ['list', ['user']], ['list', ['choices', ['a', 'b']], {'separator': ':', 'duplicates': True}], ['prefix', 'user:', ['user']], ['prefix', 'l:', ['list', ['file']]],
    ['ip_address', 'ipv4'], ['ip_address', 'all+'], ['integer', {'min': 1, 'max': 9, 'help': 'num', 'suffixes': {'k': 'kilo'}}],
    ['float', {'min': 0.5, 'max': 2}]]
VALUES = ['', ' ', 'a', 'a b', 'x', '-x', '--long', '--', '-', '-a,b', '--o p', 'file', 'none', 'user', 'command', 'command_arg', 'unknown', 'INHERIT', 'inherit', 'space', 'both', 'cap_x', '1x', 'a-b', 'ipv4', 'ipv5',
          'ccx', 'ccx sub', 'ccx  sub', ' ccx', 'ccx ', 'other', 'ccx\tsub', 'ccx sub deep', 'ccx nosuch deep', 'has_option -a', 'has_option', 'positional_count', 'positional_count > 0 &&', '(', '[', '*c', 'c', '\n', '=', '::', '*.o',
          0, 1, 2, 3, -1, 10, 0.5, 2.5, True, False, None, [], {}, ['a'], [''], [1], [None], ['a b'], [True], ['-x', '--y'], [[]], {'a': 'b'}, {'a': 1}, {'': 'x'}, {'separator': ','}, {'values': []}, {'min': 3, 'max': 1},
          [['a', 'A', ['file']]], ['command_arg'], {'number': 1}, {'number': 2, 'repeatable': True}, {'number': 0}, {'number': 2, 'repeatable': True, 'complete': ['command_arg']}, {'number': 1, 'complete': ['command']},
          {'number': 1, 'complete': []}, {'option_strings': ['-z']}, {'option_strings': '-z'}, {'option_strings': []}, {'prog': 'ccx sub'}, {'prog': 'ccx new', 'options': [{'option_strings': ['-q']}]}, {'prog': 'ccx nosuch deep'}, {'prog': 'two'},
          {'prog': 5}] + COMPLETERS
KEYS = ['prog', 'help', 'aliases', 'wraps', 'abbreviate_commands', 'inherit_options', 'options', 'positionals', 'option_strings', 'metavar', 'optional_arg', 'groups', 'repeatable',
        'final', 'hidden', 'nosort', 'complete', 'when', 'capture', 'long_opt_arg_sep', 'number', 'values', 'separator', 'duplicates', 'min', 'max', 'suffixes', 'directory', 'extensions', 'fuzzy',
        'ignore_globs', 'path', 'path_append', 'bogus', 'Prog', '']


def node(x):
    n = dict(t='z', s='', n=0, k=[], v=[])
    if isinstance(x, bool): n.update(t='b', n=100 * x)
    elif isinstance(x, int): n.update(t='i', n=100 * x)
    elif isinstance(x, float): n.update(t='f', n=round(100 * x))
    elif isinstance(x, str): n.update(t='s', s=x)
    elif isinstance(x, list): n.update(t='l', v=[node(y) for y in x])
    elif isinstance(x, dict): n.update(t='d', k=list(x), v=[node(y) for y in x.values()])
    return n


def value(n):
    t = n['t']
    return (None if t == 'z' else n['n'] == 100 if t == 'b' else n['n'] // 100 if t == 'i' else n['n'] / 100 if t == 'f' else n['s'] if t == 's'
            else [value(y) for y in n['v']] if t == 'l' else {k: value(y) for k, y in zip(n['k'], n['v'])})


def valid_docs(rng):
    """A random valid definition with few options but all kinds of attributes."""
    def opt(i, names):
        o = {'option_strings': names[i]}
        if rng.random() < 0.7: o['complete'] = rng.choice(COMPLETERS)
        if 'complete' in o and rng.random() < 0.3: o['metavar'] = 'M'
        if 'complete' in o and rng.random() < 0.3: o['optional_arg'] = True
        if rng.random() < 0.3: o['help'] = 'Help'
        r = rng.random()
        if r < 0.25: o['repeatable'] = rng.choice([True, False, 'INHERIT'])
        elif r < 0.45: o['hidden'] = True
        if rng.random() < 0.2: o['final'] = rng.choice([True, False])
        if rng.random() < 0.2: o['groups'] = rng.choice([['g'], ['g', 'h']])
        if rng.random() < 0.2: o['nosort'] = True
        if rng.random() < 0.2: o['capture'] = 'cap'
        if rng.random() < 0.15: o['long_opt_arg_sep'] = rng.choice(['space', 'equals', 'both'])
        if rng.random() < 0.25: o['when'] = rng.choice(['has_option -a', 'positional_count > 0', '! has_option -a || positional_contains 1 x'])
        return o
    names = [['-a', '--all'], ['-b'], ['--cc'], ['-old', '-d']]
    progs = ['ccx'] + ['ccx sub', 'ccx sub deep', 'ccx two'][:rng.choice([0, 1, 2, 2, 3])]
    l = []
    for p in progs:
        d = {'prog': p}
        if rng.random() < 0.3: d['help'] = 'Some help'
        if rng.random() < 0.4: d['aliases'] = [rng.choice(['al', 'other']) + str(len(l))]
        if p == 'ccx' and rng.random() < 0.2: d['wraps'] = 'git'
        for k in ('abbreviate_commands', 'inherit_options'):
            if rng.random() < 0.2: d[k] = rng.choice([True, False, 'INHERIT'])
        d['options'] = [opt(i, names) for i in range(rng.choice([1, 2, 2, 3]))]
        sub = any(q.rpartition(' ')[0] == p for q in progs)
        ps = []
        for i in range(rng.choice([0, 1, 2])):
            ps.append({'number': i + 1})
            if rng.random() < 0.7: ps[-1]['complete'] = rng.choice(COMPLETERS)
            if rng.random() < 0.2: ps[-1]['metavar'] = 'POS'
        if ps and not sub and rng.random() < 0.5: ps[-1]['repeatable'] = True
        if len(ps) == 2 and ps[-1].get('repeatable') and rng.random() < 0.5:
            ps[0]['complete'], ps[1]['complete'] = ['command'], ['command_arg']
        if ps: d['positionals'] = ps
        l.append(d)
    return l


def dump19(docs, path):
    if path.endswith('.json') or not isinstance(docs, list):
        with open(path, 'w', encoding='utf-8') as fh: json.dump(docs, fh)
    else:
        dump(docs, path)


def C19(chk):
    q = chk.tier == 'quick'
    rng = chk.rng()
    nb, num = (24, 22) if q else (160, 60)
    bases = [valid_docs(rng) for _ in range(nb)]
    def one(ic):
        i, ch = ic
        f = '%s/s%d' % (chk.dir, i)
        with open(f + '.json', 'w') as fh:
            json.dump(dict(bases=[node(b) for b in ch], values=[node(v) for v in VALUES], keys=KEYS), fh)
        out, g, dis = core.tlc('MCSchema', SCFG % (f + '.out'), chk.dir, 's%d' % i, env={'CC_SCHEMA': f + '.json'},
                               extra=['-simulate', 'num=%d' % (num * len(ch)), '-depth', '4', '-seed', str(chk.seed * 100 + i)])
        return [json.loads(l) for l in open(f + '.out', encoding='utf-8')], g
    seen = {}
    for r, g in core.pmap(one, enumerate(core.chunks(bases, core.NCPU))):
        chk.transitions += g
        for x in r:
            d = value(x['d'])
            k = json.dumps(d)
            if k not in seen: seen[k] = (d, x['v'], x['h'])
    chk.states += len(seen)
    cases = list(seen.values())
    for n in (1, 2, 3): chk.count('%d deviations' % n, sum(len(c[2]) == n for c in cases))
    single = [c for c in cases if len(c[2]) <= 1]
    more = [c for c in cases if len(c[2]) > 1]
    lim = 9000 if q else 80000
    more = more if len(more) <= lim else rng.sample(more, lim)
    cases = single + more
    chk.traces += len(cases)
    show = lambda c: '%s' % '; '.join('%s at %s' % (h['what'], where(c[0], h['path'])) for h in c[2])
    judge(chk, 'j', [(c[0], c[1], show(c)) for c in cases])
    for c in cases[:: max(1, len(cases) // 4)][:4]:
        chk.sample(dict(deviations=show(c), verdict=c[1], documents=c[0]))


def where(d, path):
    """A readable name of a place (the path may lead to what was there before)."""
    r = []
    for i in path:
        if isinstance(d, dict) and i <= len(d):
            k = list(d)[i - 1]
            r.append(k)
            d = d[k]
        elif isinstance(d, list) and i <= len(d):
            r.append(str(i - 1))
            d = d[i - 1]
        else:
            r.append('?')
            d = None
    return '/'.join(r)
