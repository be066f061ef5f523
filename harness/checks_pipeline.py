"""C15-C18, C22: what happens to definitions before a script exists (spec/Pipeline.tla, spec/Purity.tla)."""
import hashlib, json, os
import yaml
import checks_cmdline, core, docs, gen

CFG = '''SPECIFICATION Spec
CONSTANT EmitFile = "%s"
INVARIANTS Inv
CHECK_DEADLOCK FALSE
'''
SHELLS = ('bash', 'fish', 'zsh')
FEATURES = ['hidden', 'final', 'groups', 'repeatable', 'when']

TEXTS = ['Some help', "It's help", 'help: with [brackets]', 'a "quoted" $HOME', 'tab\there', 'two\nlines', 'back\\slash `cmd` %s', 'ünïcode — ✓',
         'smile \U0001f600', '', ' leading', '# not a comment', '- dash', 'yes', 'null', '1.5', '~', '{a: b}', '*star &amp !bang', "'single'", '\x7f del', 'nel\x85 ls\u2028']


def mixed(seed, id, plain=True, **feat):
    """A definition that mixes all features; not plain: also attributes that do not concern CmdLine.tla."""
    f = dict(rep=0.4, final=0.15, hidden=0.2, groups=0.4, when=0.4, poswhen=0.2, subs=0.7, depth2=0.4, alias=0.5, poss=0.6, opt=0.3,
             arg=0.6, old=0.2, nopts=(3, 6), help=0.5)
    f.update(feat)
    g = gen.Gen(seed, **f)
    d = g.make(id)
    r = g.r
    c = gen.Comps(seed)
    if plain:
        return repeatable_or_hidden(d)
    for cmd in d['cmds']:
        if r.random() < 0.5: cmd['help'] = r.choice(TEXTS)
        for o in cmd['opts'] + cmd['poss']:
            if r.random() < 0.4: o['help'] = r.choice(TEXTS)
            if r.random() < 0.2: o['capture'] = 'cap_' + r.choice('abc')
            if r.random() < 0.15: o['nosort'] = True
            if (o.get('arg', 'req') != 'none') and r.random() < 0.5: o['metavar'] = r.choice(['FILE', 'N', 'a b', 'é'])
            if o.get('arg', 'req') != 'none' and r.random() < 0.6: o['comp'] = c.make(None, 2)
    return d


EXTRA = [['file'], ['file', {'extensions': ['c', 'h']}], ['directory'], ['file', {'directory': '/tmp', 'ignore_globs': ['*.o', 'x?']}],
         ['exec', 'echo "a b"; printf "%s\\n" c'], ['mime_file', 'image/'], ['date', '%Y-%m-%d'], ['user'], ['environment'], ['commandline_string'],
         ['value_list', {'values': {'one': 'First: "1"', 'two': "it's"}}], ['choices', {'a:b': 'x', 'c d': 'y [z]', "e'f": '`z`', '1': ''}],
         ['choices', [1, 2, True, 'x']], ['list', ['file', {'extensions': ['py']}], {'separator': ':'}], ['signal'], ['history', '.*@.*'], ['command', {'path_append': '/opt/x'}]]


def repeatable_or_hidden(d):
    """No option may become both hidden and repeatable by the settings."""
    if (d['cfg']['rep'] or 'repeatable' in d['cfg']['disable']) and 'hidden' not in d['cfg']['disable']:
        for c in d['cmds']:
            for o in c['opts']:
                if o['rep'] == 'I' or 'repeatable' in d['cfg']['disable']:
                    o['hidden'] = False
    return d


def rich_docs(d, rng):
    """Documents with completers that the command line specification does not model (only texts are compared)."""
    l = docs.documents(d)
    for x in l:
        for o in x.get('options', []) + x.get('positionals', []):
            if 'complete' in o and rng.random() < 0.35:
                o['complete'] = rng.choice(EXTRA)
        if x is l[0] and rng.random() < 0.3: x['wraps'] = rng.choice(['git', 'ls'])
    return l


def encode(l):
    """documents -> what Pipeline.tla reads"""
    t = lambda v: json.dumps(v, ensure_ascii=True)
    at = lambda x, skip: dict({'_': ''}, **{k: t(v) for k, v in x.items() if k not in skip})
    return [dict(prog=x['prog'], a=at(x, ('prog', 'options', 'positionals')),
                 o=[dict(s=o['option_strings'], a=at(o, ('option_strings',))) for o in x.get('options') or []],
                 p=[dict(n=p['number'], a=at(p, ('number',))) for p in x.get('positionals') or []]) for x in l]


def decode(l):
    at = lambda a: {k: json.loads(v) for k, v in a.items() if k != '_'}
    r = []
    for x in l:
        d = dict({'prog': x['prog']}, **at(x['a']))
        if x['o']: d['options'] = [dict({'option_strings': o['s']}, **at(o['a'])) for o in x['o']]
        if x['p']: d['positionals'] = [dict({'number': p['n']}, **at(p['a'])) for p in x['p']]
        r.append(d)
    return r


def backwards(x):
    """The same value with the keys of documents, options and positionals in another order."""
    r = {}
    for k in reversed(list(x)):
        r[k] = [dict(reversed(list(y.items()))) for y in x[k]] if k in ('options', 'positionals') else x[k]
    return r


def write(f, path):
    """Write the file of a state as text, in the form the state says."""
    l = decode(f['docs'])
    if f['defs']:
        l = [dict({'prog': '%defines%'}, **{d['n']: json.loads(d['v']) for d in f['defs']})] + l
    form = f['form']
    if form == 'keys':
        l = [backwards(x) for x in l]
    if f['fmt'] == 'json':
        s = json.dumps(l, indent=2 if form == 'block' else None, ensure_ascii=form != 'wide')
    elif form in ('block', 'keys'):
        s = yaml.safe_dump_all(l, default_flow_style=False, sort_keys=False, allow_unicode=form == 'keys')
    elif form == 'wide':
        s = '# a comment\n---\n' + yaml.safe_dump_all(l, default_flow_style=None, sort_keys=False, width=40, allow_unicode=True)
    else:
        s = yaml.safe_dump_all(l, default_flow_style=True, sort_keys=False, width=10 ** 6)
    with open(path, 'w', encoding='utf-8') as fh:
        fh.write(s)


def parse(path, fmt):
    with open(path, encoding='utf-8') as fh:
        return encode(json.load(fh) if fmt == 'json' else list(yaml.load_all(fh, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))))


def explore(chk, defs, name, num, depth):
    def one(ic):
        i, ch = ic
        f = '%s/%s_%d' % (chk.dir, name, i)
        with open(f + '.json', 'w') as fh:
            json.dump(ch, fh)
        out, g, dis = core.tlc('Pipeline', CFG % (f + '.out'), chk.dir, '%s_%d' % (name, i), env={'CC_DEFS': f + '.json'},
                               extra=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(chk.seed * 100 + i)])
        r, seen = [], set()
        for l in open(f + '.out', encoding='utf-8'):
            if l not in seen:
                seen.add(l)
                r.append(json.loads(l))
        os.unlink(f + '.out')
        return r, g, dis
    res = {}
    for r, g, dis in core.pmap(one, enumerate(core.chunks(defs, core.NCPU))):
        chk.states += len(r)
        chk.transitions += g
        for x in r:
            res.setdefault(x['d'], []).append(x)
    return res


def set_args(s):
    dis = [x['v'] for x in s if x['k'] == 'disable']
    return (['--disable=' + ','.join(dis)] if dis else []) + ['--%s=%s' % (x['k'], x['v']) for x in s if x['k'] != 'disable']


def key(x):
    return json.dumps(x, sort_keys=True)


def tool_all(chk, jobs, name):
    """jobs: [(args, src, [targets], out prefix)] -> {(out prefix, target): error}"""
    cmds = [(list(a) + (['--zsh-compdef=False'] if t == 'zsh' else []) + ['-o', '%s.%s' % (o, t), t, s], o, t) for a, s, ts, o in jobs for t in ts]
    bad = {}
    for (c, o, t), (rc, out, err) in zip(cmds, core.clis([c for c, o, t in cmds], chk.dir, name)):
        if rc != 0 and len(bad) < 40:
            rc, out, err = core.cli(c)     # once more, alone
            if rc != 0:
                bad[o, t] = 'exit %d: %s' % (rc, err.strip()[-500:])
        elif rc != 0:
            bad[o, t] = 'exit %d: %s' % (rc, err.strip()[-500:])
    chk.queries += len(cmds)
    return bad


def text(path):
    with open(path, encoding='utf-8', errors='surrogateescape') as fh:
        return fh.read()


def quoted(l):
    """Some strings inside completers, as JSON texts."""
    r = []
    def walk(x):
        if isinstance(x, str):
            if len(x) > 1 and x.isalnum() and x not in r: r.append(x)
        elif isinstance(x, list):
            for y in x[1:] if x and isinstance(x[0], str) else x: walk(y)
        elif isinstance(x, dict):
            for y in x.values(): walk(y)
    for x in l:
        for o in x.get('options', []) + x.get('positionals', []):
            walk(o.get('complete'))
    return ['"%s"' % x for x in r[:12]]


def pipeline(chk, name, defs, raw, acts, num, depth, conv=True, shells=SHELLS, budget=None):
    """defs: abstract definitions or None; raw: {id: documents}; compare all ways of getting to the same definition."""
    res = explore(chk, [dict(id=i, docs=encode(raw[i]), set=settings, acts=acts, words=quoted(raw[i])) for i, settings in defs], name, num, depth)
    budget = budget or (500 if chk.tier == 'quick' else 2500)
    rng = chk.rng(name + 'choose')
    jobs, st = [], []
    per = max(8, budget // max(1, len(res)))
    for id, l in sorted(res.items()):
        l.sort(key=lambda x: (len(x['h']), key(x)))
        seen, chosen = set(), []
        for x in l:
            k = key([x['f'], x['s']])
            if k in seen:
                continue
            seen.add(k)
            chosen.append(x)
        if len(chosen) > per:
            chosen = chosen[:1] + rng.sample(chosen[1:], per - 1)
        for x in chosen:
            n = len(st)
            p = '%s/%s-%s-%d' % (chk.dir, name, id, n)
            x['src'] = p + '.' + x['f']['fmt']
            x['out'] = p + '.out'
            write(x['f'], x['src'])
            st.append(x)
            jobs.append((set_args(x['s']), x['src'], (['yaml', 'json'] if conv else []) + list(shells), x['out']))
    bad = tool_all(chk, jobs, name)
    ref, differ = {}, {}
    for x in st:
        e = key([x['d'], x['e']])
        c = key([x['d'], x['c']])
        hist = '; '.join(' '.join(str(y) for y in h) for h in x['h'])
        for t in (['yaml', 'json'] if conv else []) + list(shells):
            err = bad.get((x['out'], t))
            where = '%s of %s [%s]' % (t, x['d'], hist)
            det = dict(history=x['h'], settings=set_args(x['s']), file=text(x['src']), format=x['f']['fmt'], original=raw[x['d']])
            if t in shells and not x['ok']:
                if not err or not err.startswith('exit 1'):
                    chk.violation('%s:accepted' % t, 'accepted, although an option becomes both hidden and repeatable: %s (%s): %s' % (where, set_args(x['s']), err), det)
                chk.count('rejected as they should be')
                continue
            if err:
                chk.violation('%s:rejected' % t, 'an equivalent definition is rejected: %s: %s' % (where, err), det)
                continue
            s = text('%s.%s' % (x['out'], t))
            if t in ('yaml', 'json'):
                try:
                    got = parse('%s.%s' % (x['out'], t), t)
                except Exception as ex:
                    chk.violation('%s:unreadable' % t, 'conversion wrote a file that cannot be read: %s: %s' % (where, ex), dict(det, output=s))
                    continue
                if got != x['c']:
                    chk.violation('%s:conversion' % t, 'conversion changes the definition: %s: %s' % (where, first_diff(x['c'], got)), dict(det, output=s, expected=x['c']))
                r = ref.setdefault((c, t), s)
                if r != s:
                    chk.violation('%s:not-a-fixed-point' % t, 'equal definitions are converted to different texts: %s' % where, dict(det, output=s, reference=r))
            else:
                r = ref.setdefault((e, t), (s, x))
                if r[0] != s:
                    differ.setdefault(x['d'], []).append((t, r[1], x))
    chk.traces += len(st)
    for x in st[:: max(1, len(st) // 3)][:3]:
        chk.sample(dict(history=x['h'], settings=set_args(x['s']), file=text(x['src'])[:1500]))
    return st, differ


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            for k in ('prog', 'a', 'o', 'p'):
                if x[k] != y[k]:
                    if isinstance(x[k], list):
                        for m, n in zip(x[k], y[k]):
                            if m != n:
                                return 'expected %s, got %s' % (json.dumps(m), json.dumps(n))
                    return '%s: expected %s, got %s' % (x['prog'], json.dumps(x[k]), json.dumps(y[k]))
    return '%d documents expected, %d found' % (len(a), len(b))


def behave(chk, name, d, scripts, sh, nlines=150):
    """Two scripts of the same definition are asked the same lines; returns the lines on which they differ."""
    import cmdline
    d = json.loads(json.dumps(d))
    for c in d['cmds']:
        for o in c['opts'] + c['poss']:
            if o['comp']['k'] != 'none': o['comp'] = gen.choices('one', 'two')
    states = cmdline.explore(chk, [d], name, mode='sim', walks=20, wdepth=4, seed=chk.seed)
    rng = chk.rng(name)
    q = cmdline.select(states[d['id']], rng, 30, 6)
    lines = [' '.join([d['id']] + [cmdline.shword(w) for w in x[0]] + [x[1]]) for x in q][:nlines]
    ask = lambda n, ls: [[(sorted(set(r['full'])), sorted(set(zip(r['full'], r.get('suf', ()))))) for r in
                          cmdline.run_shells(chk, '%s_%s%d' % (name, n, i), {sh: [(d['id'], p, d['id'], ls)]})[0][sh, d['id']]] for i, p in enumerate(scripts)]
    a, b = ask('', lines)
    bad = [l for l, x, y in zip(lines, a, b) if x != y]
    if bad:
        a, b = ask('again', bad)
        bad = [(l, x, y) for l, x, y in zip(bad, a, b) if x != y]
    chk.queries += 2 * len(lines)
    return bad


def settle(chk, name, differ, byid, limit=16):
    """Scripts that should be equal differ: that is a violation only if what they offer differs."""
    work = []
    for id, l in sorted(differ.items()):
        chk.count('scripts that differ as texts', len(l))
        seen = set()
        for t, x, y in l:
            k = (t, key([y['s'], [h[0] for h in y['h']]]))
            if k not in seen and len(seen) < 4:
                seen.add(k)
                work.append((id, t, x, y))
    work = chk.rng(name + 'settle').sample(work, min(limit, len(work)))
    def one(iw):
        n, (id, t, x, y) = iw
        return behave(chk, '%s_b%d' % (name, n), byid[id], ['%s.%s' % (z['out'], t) for z in (x, y)], t)
    for (id, t, x, y), bad in zip(work, core.pmap(one, enumerate(work), 4)):
        for l, a, b in bad[:1]:
            chk.violation('%s:%s' % (t, '+'.join(sorted({h[0] for h in y['h']}))), 'equivalent definitions behave differently in %s: `%s<TAB>`: %s (%s) / %s (%s)' % (
                t, l, a[0], ' '.join(set_args(x['s'])), b[0], ' '.join(set_args(y['s']))),
                dict(line=l, a=dict(h=x['h'], s=set_args(x['s']), file=text(x['src']), got=a), b=dict(h=y['h'], s=set_args(y['s']), file=text(y['src']), got=b)))


def random_settings(r):
    s = [dict(k='disable', v=f) for f in FEATURES if r.random() < 0.35]
    for k in ('repeatable-options', 'abbreviate-commands', 'abbreviate-options', 'inherit-options'):
        if r.random() < 0.4: s.append(dict(k=k, v=r.choice(['true', 'true', 'false'])))
    if r.random() < 0.4: s.append(dict(k='long-option-argument-separator', v=r.choice(['space', 'equals', 'both'])))
    return s


def C17(chk):
    q = chk.tier == 'quick'
    for rnd in range(1 if q else 8):
        rng = chk.rng('docs%d' % rnd)
        ds = [mixed('C17-%s-%d-%d' % (chk.seed, rnd, i), 'ccv%d' % i, plain=False) for i in range(32)]
        raw = {d['id']: rich_docs(d, rng) for d in ds}
        for i, l in raw.items():
            for x in l:
                for k in ('abbreviate_commands', 'abbreviate_options', 'inherit_options'):
                    if rng.random() < 0.2: x[k] = rng.random() < 0.5
                for o in x.get('options', []):
                    if rng.random() < 0.15: o['long_opt_arg_sep'] = rng.choice(['space', 'equals', 'both'])
        st, differ = pipeline(chk, 'v%d' % rnd, [(d['id'], []) for d in ds], raw, ['convert', 'rewrite'], 30 if q else 60, 5 if q else 7)
        settle(chk, 'v%d' % rnd, differ, {d['id']: d for d in ds})


def C22(chk):
    q = chk.tier == 'quick'
    for rnd in range(1 if q else 8):
        rng = chk.rng('docs%d' % rnd)
        ds = [mixed('C22-%s-%d-%d' % (chk.seed, rnd, i), 'ccw%d' % i, plain=False, subs=1.0, depth2=0.6, groups=0.6) for i in range(32)]
        raw = {d['id']: rich_docs(d, rng) for d in ds}
        st, differ = pipeline(chk, 'w%d' % rnd, [(d['id'], []) for d in ds], raw, ['rewrite', 'swap'], 40 if q else 80, 5 if q else 8, conv=False)
        settle(chk, 'w%d' % rnd, differ, {d['id']: d for d in ds}, limit=24 if q else 60)


def C16(chk):
    q = chk.tier == 'quick'
    for rnd in range(1 if q else 8):
        rng = chk.rng('docs%d' % rnd)
        ds = [mixed('C16-%s-%d-%d' % (chk.seed, rnd, i), 'ccb%d' % i, plain=False, subs=0.8) for i in range(32)]
        raw = {d['id']: rich_docs(d, rng) if i % 2 else docs.documents(d) for i, d in enumerate(ds)}
        for i, l in raw.items():
            for x in l:
                for k in ('abbreviate_commands', 'abbreviate_options', 'inherit_options'):
                    if rng.random() < 0.25: x[k] = rng.random() < 0.5
                for o in x.get('options', []):
                    if rng.random() < 0.2: o['long_opt_arg_sep'] = rng.choice(['space', 'equals', 'both'])
        sets = {d['id']: random_settings(rng) for d in ds}
        st, differ = pipeline(chk, 'b%d' % rnd, [(d['id'], sets[d['id']]) for d in ds], raw, ['bake'], 20 if q else 40, 5, conv=False)
        settle(chk, 'b%d' % rnd, differ, {d['id']: d for d in ds})
    # and the settings mean what spec/CmdLine.tla says
    chk.assumptions = list(checks_cmdline.ASSUME)
    for tag, n, feat in (('x', 16, {}), ('y', 8, dict(repcfg=1.0)), ('z', 6, dict(sepcfg=1.0, groups=0.1)), ('w', 6, dict(inh=1.0))):
        n = n if q else n * 6
        defs = []
        for i in range(n):
            r = chk.rng('%s%d' % (tag, i))
            defs.append(mixed('C16-%s-%s-%d' % (tag, chk.seed, i), 'cc%s%d' % (tag, i), disable=[f for f in FEATURES if r.random() < 0.4], **feat))
        checks_cmdline.conform(chk, 'c' + tag, defs, walks=30 if q else 100, wdepth=4 if q else 6, budget=200 * n * (1 if q else 3))


def presentation(d):
    """Presentation settings, chosen by the definition's name."""
    import random
    r = random.Random(d['id'] + json.dumps(d['cfg'], sort_keys=True))
    a = []
    if r.random() < 0.6: a.append('--max-line-length=%d' % r.choice([1, 20, 40, 120, 10000]))
    if r.random() < 0.4: a.append('--keep-comments')
    if r.random() < 0.4: a += ['--comment', r.choice(['a comment', "it's $HOME `x`", '#', 'two words "q"'])]
    if r.random() < 0.4: a.append('--vim-modeline=' + r.choice(['True', 'False']))
    if r.random() < 0.3: a.append('--debug')
    if r.random() < 0.5: a.append('--function-prefix=' + r.choice(['_pre', '__$PROG_x', 'f', '_my$PROG', '_a_b_$PROG']))
    if r.random() < 0.6: a.append('--fish-inline-conditions=' + r.choice(['True', 'True', 'False']))
    if r.random() < 0.5: a.append('--bash-completions-version=' + r.choice(['2', '2.1', '2.8', '2.10', '2.11']))
    return a


def C15(chk):
    q = chk.tier == 'quick'
    chk.assumptions = list(checks_cmdline.ASSUME)
    for tag, n, feat in (('m', 30, {}), ('i', 10, dict(inh=1.0, subs=1.0)), ('o', 10, dict(old=0.5, opt=0.5, more=0.5, subs=0.2))):
        n = n if q else n * 10
        defs = [mixed('C15-%s-%s-%d' % (tag, chk.seed, i), 'cc%s%d' % (tag, i), **feat) for i in range(n)]
        for r in range(1 if q else 2):
            checks_cmdline.conform(chk, '%s%d' % (tag, r), defs, walks=30 if q else 100, wdepth=4 if q else 6, budget=180 * n * (1 if q else 3), args=presentation)


PURE_CFG = '''SPECIFICATION Spec
CONSTANTS
  EmitFile = "%s"
  MaxLen = %d
  NDefs = %d
  NPy = %d
  NSets = %d
INVARIANTS Pure Unchanged Emit
CHECK_DEADLOCK FALSE
'''
# settings: command line arguments and the same as calls of config.Config
SETS = [([], {}), (['--disable=hidden,when', '--function-prefix=_x_$PROG'], {'disable_hidden': True, 'disable_when': True, 'set_function_prefix': '_x_$PROG'}),
        (['--inherit-options=True', '--abbreviate-commands=True', '--disable=groups,final'],
         {'set_inherit_options': True, 'set_abbreviate_commands': True, 'disable_groups': True, 'disable_final': True}),
        (['--debug', '--keep-comments', '--max-line-length=30', '--long-option-argument-separator=equals', '--comment=x'],
         {'set_debug': True, 'set_keep_comments': True, 'set_line_length': 30, 'set_long_option_argument_separator': 'equals', 'add_comments': ['x']})]
MORE = [['file_list', {'separator': ':', 'duplicates': True, 'extensions': ['c']}], ['directory_list', {'separator': ':', 'directory': '/tmp'}],
        ['file_list', {'separator': '+'}], ['list', ['file', {'extensions': ['py']}], {'separator': ':', 'duplicates': True}],
        ['combine', [['user'], ['choices', ['a', 'b']]]], ['key_value_list', ',', '=', [['a', 'x', ['file', {'extensions': ['x']}]], ['b', None, ['choices', ['u', 'v']]]]],
        ['prefix', 'x:', ['file']], ['range', 1, 9, 2], ['command_arg'], ['net_interface'], ['mountpoint']]

PY = '''import argparse
p = argparse.ArgumentParser(%r, description="it")
%s
if __name__ == "__main__":
    p.parse_args()
'''


def C18(chk):
    q = chk.tier == 'quick'
    rng = chk.rng('docs')
    ndef, npy = (12, 4) if q else (30, 8)
    files = []
    for i in range(ndef):
        d = mixed('C18-%s-%d' % (chk.seed, i), 'ccq%d' % i, plain=False, hidden=0.0 if i % 2 else 0.2, rep=0.3)
        l = rich_docs(d, rng)
        for x in l:
            for o in x.get('options', []) + x.get('positionals', []):
                if 'complete' in o and rng.random() < 0.3: o['complete'] = rng.choice([c for c in MORE if c != ['command_arg']])
        l = json.loads(json.dumps(l))
        p = '%s/def%d.%s' % (chk.dir, i, 'json' if i % 3 == 0 else 'yaml')
        with open(p, 'w') as fh:
            fh.write(docs.to_json(l) if i % 3 == 0 else yaml.safe_dump_all(l, sort_keys=False))
        files.append(p)
    for i in range(npy):     # programs of the same file name in different directories
        os.makedirs('%s/py%d' % (chk.dir, i))
        p = '%s/py%d/prog%d.py' % (chk.dir, i, i // 2)
        with open(p, 'w') as fh:
            helper = 'import helper\np.add_argument("--h", choices=helper.VALUES)\n'
            with open('%s/py%d/helper.py' % (chk.dir, i), 'w') as f2:
                f2.write('VALUES = ["h%d"]\n' % i)
            fh.write(PY % ('ccpy%d' % i, '\n'.join('p.add_argument("--%s", choices=["x", "y%d"])' % (rng.choice('abc') + str(n) + str(i), n) for n in range(3)) + '\n' + helper))
        files.append(p)
    out = '%s/hist' % chk.dir
    o, g, dis = core.tlc('Purity', PURE_CFG % (out, 24, ndef, npy, len(SETS)), chk.dir, 'purity',
                         extra=['-simulate', 'num=%d' % (40 if q else 600), '-depth', '25', '-seed', str(chk.seed)])
    hists = sorted({l for l in open(out, encoding='utf-8')})
    hists = [json.loads(l) for l in hists]
    hists = chk.rng('pick').sample(hists, min(len(hists), 40 if q else 500))
    chk.states += g
    chk.transitions += g
    # what every request gives in a process of its own
    need = sorted({(r[1], r[2], r[3]) for h in hists for r in h['r'] if r[0] == 'script'})
    def args(f, t, s):
        p = files[f - 1]
        return SETS[s - 1][0] + (['--input-type=python'] if p.endswith('.py') else []) + [t, p]
    def alone(k):
        rc, so, se = core.cli(args(*k), env=core.cli_env(seed=0))
        return (so[:-1] if so.endswith('\n') else so) if rc == 0 else 'exit %d' % rc
    ref = dict(zip(need, core.pmap(alone, need)))
    def run(ih):
        i, h = ih
        seed = str(chk.seed * 77 + i) if h['seed'] == 'random' else h['seed']
        if h['mode'] == 'batch':
            cmds = [['-o', '%s/h%d_%d' % (chk.dir, i, n)] + args(x['f'], x['t'], x['s']) for n, x in enumerate(h['h'])]
            good = [c for c, r in zip(cmds, h['r']) if not ref[r[1], r[2], r[3]].startswith('exit ')]
            b = '%s/h%d.batch' % (chk.dir, i)
            with open(b, 'w') as fh:
                fh.write('\n'.join(' '.join(core.quote(a) for a in c) for c in good) + '\n')
            rc, so, se = core.cli(['--batch', b], env=core.cli_env(seed=seed))
            res = [[None if c not in good else text(c[1]) if os.path.exists(c[1]) else 'no output (exit %d: %s)' % (rc, se[-300:]), None] for c in cmds]
        else:
            p = '%s/h%d.api' % (chk.dir, i)
            with open(p, 'w') as fh:
                json.dump(dict(files=files, sets=[s[1] for s in SETS], hist=h['h']), fh)
            import subprocess
            r = subprocess.run([core.PY, core.VERIF + '/harness/driver_api.py', core.REPO, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=core.cli_env(seed=seed), timeout=300)
            if r.returncode != 0:
                raise core.HarnessError('driver_api: ' + r.stdout.decode()[-800:])
            res = json.load(open(p + '.res'))
        return res
    results = core.pmap(run, enumerate(hists))
    for h, res in zip(hists, results):
        chk.traces += 1
        for n, (x, r, (got, problem)) in enumerate(zip(h['h'], h['r'], res)):
            chk.queries += 1
            where = '%s, operation %d of %s (seed %s)' % (h['mode'], n + 1, [(y['op'], y['f'], y['t'], y['s']) for y in h['h'][:n + 1]], h['seed'])
            det = dict(history=h, file=text(files[r[1] - 1]), settings=SETS[r[3] - 1][0] if r[3] else [])
            exp = ref.get((r[1], r[2], r[3]))
            if problem and not (problem.startswith('exception: Crazy') and exp and exp.startswith('exit ')):
                chk.violation('%s:%s' % (h['mode'], problem.split(':')[0].replace(' ', '-')), '%s: %s' % (problem, where), det)
            elif got is not None and exp is not None and got != exp:
                chk.violation('%s:%s:differs' % (h['mode'], x['t']), 'the output depends on the history: %s' % where, dict(det, got=got, alone=exp))
    chk.sample(hists[0])
