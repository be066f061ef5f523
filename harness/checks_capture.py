"""C09: captured options (spec/Capture.tla)."""
import json, os, re
import core, cmdline, docs

CFG = '''SPECIFICATION Spec
CONSTANTS EmitFile = "%s"
MaxLen = %d
INVARIANTS Agree Counts Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
'''
VALUES = ['a', 'one', 'nnn', 'n', 'a b', ' ', 'two  blanks', '*', '?', '[ab]', '$HOME', '$(>canary)', '`>canary`', '\\', 'a\\b', '\\n', '"', "it's", 'a"b', 'a=b', '=', '=x', 'a:b', 'a,b', ';', 'a;b', '&', '|', '>', '<x', '(',
          ')', '{a,b}', '#', '#x', '~', '!', 'ü', '漢字', '%s', '%', '-', '-x', '--data', '-d', '--flag', 'sub', '-f', '_OPT_ISSET_', '0', '00', '1 2 3', 'x\ty', '', '', '\\t', '$1', "''", '@', '^', '-name', 'true', '1', '2']
VARS = ['_CAP_DATA', '_CAP_MAYBE', '_CAP_FLAG', '_CAP_NAME', '_CAP_SUB', '_CAP_QUICK']
ROOT = [dict(option_strings=['-d', '--data', '--database'], complete=['choices', ['x', 'y']], capture=VARS[0], repeatable=True),
        dict(option_strings=['--maybe', '-m'], complete=['none'], optional_arg=True, capture=VARS[1], repeatable=True),
        dict(option_strings=['-f', '-F', '--flag'], capture=VARS[2], repeatable=True),
        dict(option_strings=['-name', '-nm'], complete=['file'], capture=VARS[3], repeatable=True)]
SUB = [dict(option_strings=['--sub-data', '-s'], complete=['none'], capture=VARS[4], repeatable=True), dict(option_strings=['-q', '--quick'], capture=VARS[5], repeatable=True)]
DUMP = dict(
    bash='cap_dump() {\n  local n v i\n  for n in %s; do\n    local -n ref=$n\n    i=0\n    for v in "${ref[@]}"; do printf "D%%s.%%d.%%s\\n" $n $((i++)) $(printf %%s "$v" | od -An -v -tx1 | tr -d " \\n"); done\n    printf "N%%s.%%d\\n" $n $i\n  done\n}',
    zsh='cap_dump() {\n  local n v i\n  for n in %s; do\n    i=0\n    for v in "${(@P)n}"; do printf "D%%s.%%d.%%s\\n" $n $((i++)) $(printf %%s "$v" | od -An -v -tx1 | tr -d " \\n"); done\n    printf "N%%s.%%d\\n" $n $i\n  done\n}',
    fish='function cap_dump\n  for n in %s\n    set -l i 0\n    for v in $$n\n      printf "D%%s.%%d.%%s\\n" $n $i (printf %%s "$v" | od -An -v -tx1 | tr -d " \\n")\n      set i (math $i + 1)\n    end\n    printf "N%%s.%%d\\n" $n $i\n  end\nend')
SETS = [[], ['--inherit-options=True'], ['--abbreviate-options=True'], ['--inherit-options=True', '--abbreviate-options=True'], ['--disable=hidden,groups', '--function-prefix=_cap_x'], ['--inherit-options=True', '--option-stacking=False'][:1]]


def quoted(w, sh):
    v, q = w['v'], w['q']
    if q == 'single' and "'" in v: q = 'double'
    if q == 'double' and '!' in v: q = 'plain'
    if v == '' and not w['pre']: return "''"
    if q == 'single': r = "'" + (v.replace('\\', '\\\\') if sh == 'fish' else v) + "'"
    elif q == 'double': r = '"' + re.sub(r'(["$\\])' if sh == 'fish' else r'(["$\\`])', r'\\\1', v) + '"'
    else: r = re.sub(r'([^\w./:=,@%+-])', r'\\\1', v)
    if '\t' in v and q == 'plain': r = "'" + v + "'"
    return w['pre'] + r


def variant(i):
    """A definition: the order of options, who has the dumping completer, shared settings."""
    dump = [dict(option_strings=['--dump', '-D'], complete=['exec', 'cap_dump'], repeatable=True)]
    root = dict(prog='ccp', options=(ROOT[::-1] if i % 2 else ROOT) + dump)
    sub = dict(prog='ccp sub', options=(dump + SUB if i % 3 else SUB + dump), positionals=[dict(number=1, complete=['exec', 'cap_dump'], repeatable=True)])
    if i % 4 == 1:
        root['positionals'] = []
    return [root, sub]


def C09(chk):
    q = chk.tier == 'quick'
    chk.assumptions = ['the completion systems of the installed bash, fish and zsh', 'bash_split() mirrors how readline splits a line']
    inp = chk.dir + '/in.json'
    with open(inp, 'w') as fh:
        json.dump(dict(values=VALUES), fh)

    def sim(i):
        o = '%s/cap%d' % (chk.dir, i)
        r = core.tlc('Capture', CFG % (o, 9), chk.dir, 'cap%d' % i, env=dict(CC_CAPTURE=inp),
                     extra=['-simulate', 'num=%d' % (250 if q else 2500), '-depth', '10', '-seed', str(chk.seed * 100 + i)])
        return r, [json.loads(l) for l in sorted(set(open(o, encoding='utf-8')))]
    st = []
    for (_, g, _), h in core.pmap(sim, range(2 if q else 4)):
        chk.states += g
        chk.transitions += g
        st += h
    rng = chk.rng('pick')
    st = rng.sample(st, min(len(st), 1500 if q else 20000))
    d = chk.dir + '/d'
    os.makedirs(d)
    nv = len(SETS) * (2 if q else 4)
    tasks, plan, at = [], {s: [] for s in DUMP}, {}
    pre = {s: DUMP[s] % ' '.join(VARS) for s in DUMP}
    for i in range(nv):
        f = '%s/%d.yaml' % (d, i)
        with open(f, 'w') as fh:
            fh.write(docs.to_yaml(variant(i)))
        for sh in plan:
            out = '%s/%d.%s.comp' % (d, i, sh)
            tasks.append((SETS[i % len(SETS)], f, sh, out))
            lines = []
            for k in range(i // 2, len(st), nv // 2):
                s = st[k]
                if s['inh'] != bool(i % 2): continue
                end = ['--dump ', '--dump=', '-D', '-D ', ''][k % 5 if s['sub'] else k % 4]
                if s['words'][-1]['v'].startswith('-'): end = '--dump '    # a value that looks like an option in front of the cursor
                if sh == 'fish' and end == '-D': end = '-D '
                l = 'ccp ' + ''.join(quoted(w, sh) + ' ' for w in s['words']) + end
                if l not in [x[0] for x in lines]:
                    lines.append((l, s))
            plan[sh].append((i, out, 'ccp', [x[0] for x in lines], dict(pre=pre[sh], cwd=d), lines))
    bad = core.generate(tasks, d)
    for t, err in bad:
        chk.violation('generate', 'no script: %s' % err)
    if bad:
        return
    res, errs = cmdline.run_shells(chk, 'r', {s: [j[:5] for j in js] for s, js in plan.items()})
    for sh, e in errs.items():
        for l in e[:3]:
            chk.violation('stderr:' + sh, '%s: %s' % (sh, l))
    for sh, jobs in plan.items():
        for i, _, _, _, _, lines in jobs:
            for (l, s), r in zip(lines, res[sh, i]):
                chk.queries += 1
                got, n = {}, {}
                for c in r['full']:
                    m = re.search(r'D(_CAP_[A-Z]+)\.(\d+)\.([0-9a-f]*)$', c.strip())
                    if m: got.setdefault(m[1], {})[int(m[2])] = bytes.fromhex(m[3]).decode('utf-8', 'replace')
                    m = re.search(r'N(_CAP_[A-Z]+)\.(\d+)$', c.strip())
                    if m: n[m[1]] = int(m[2])
                vs = VARS if s['sub'] else VARS[:4]
                g = {v: [got.get(v, {}).get(k) for k in range(n.get(v, -1))] if v in n else 'not dumped' for v in vs}
                e = {v: s['cap'][VARS.index(v)] for v in vs}
                bad = [v for v in vs if g[v] == 'not dumped' or len(g[v]) != len(e[v]) or any(
                    (x not in ('', '_OPT_ISSET_')) if y == ['none'] and VARS.index(v) in (1, 2, 5) else x != y[0] for x, y in zip(g[v], e[v]))]
                if bad:
                    chk.violation('%s:%s' % (sh, bad[0]), '%s: "%s": %s' % (sh, l, ', '.join('%s: expected %s, got %s' % (v, e[v], g[v]) for v in bad[:2])),
                                  dict(line=l, settings=SETS[i % len(SETS)], definition=variant(i), expected=e, got=g, raw=r['full'][:20]))
                else:
                    chk.count('captured values', sum(len(x) for x in e.values()))
                chk.sample(dict(shell=sh, line=l, captured=e))
            chk.traces += len(lines)
    left = [f for r, _, fs in os.walk(chk.dir) for f in fs if 'canary' in f]
    if left:
        chk.violation('canary', 'a value was executed: %s' % left[:3])
