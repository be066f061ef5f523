"""C23: definitions made from Python programs (spec/Argparse.tla)."""
import json, os, re
import core

CFG = '''SPECIFICATION Spec
CONSTANTS EmitFile = "%s"
MaxLen = %d
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
'''
NAMES = [['-a'], ['-b'], ['--alpha'], ['-c', '--count'], ['--dry-run'], ['--dry-run-all', '-d'], ['-e', '--ex', '--example'], ['-old'], ['-o', '-old-style'], ['--x'],
         ['-1'], ['--no-color', '--no-colour'], ['-V', '--version'], ['-q', '-Q', '--quiet'], ['--under_score'], ['-g'], ['-i'], ['--long-one', '--long-two', '-l']]
WORDS = ['file', 'dest', 'out_dir', 'commit', 'add', 'rm', 'list-all', 'name', 'src', 'zip', 'k8s', 'target']
COMPLETES = [['file'], ['directory'], ['choices', ['one', 'two words']], ['list', ['user']], ['range', 1, 5], ['value_list', {'values': {'a': 'First', 'b': 'Second'}}],
             ['file', {'extensions': ['c', 'h']}], ['none'], ['combine', [['user'], ['group']]]]
WHENS = ['positional_count >= 1', 'positional_contains 1 file']
RANGES = [(0, 3, 1), (1, 11, 1), (0, 10, 3), (5, 0, -1), (9, 0, -2), (-3, 3, 1), (2, 7, 2), (10, 20, 5)]


def render(ps, style):
    """The program text of the parsers."""
    out, kw = ['import argparse, sys'], {}
    var = lambda i: ['parser', 'main_parser', 'p'][style % 3] if i == 0 else 'p%d' % i
    def q(x): return repr(x)
    hlp = {'none': None, 'text': None, 'suppress': 'argparse.SUPPRESS'}
    made_sub = set()
    body = []
    groups = {}
    for i, p in enumerate(ps):
        desc = ', description=' + q('Description of ' + p['name']) if p['desc'] == 'text' else ''
        auto = '' if p['auto'] else ', add_help=False'
        if i == 0:
            body.append('%s = argparse.ArgumentParser(%s%s%s)' % (var(0), ['%s', 'prog=%s'][style % 2] % q(p['name']), desc, auto))
        else:
            up = p['up'] - 1
            if up not in made_sub:
                made_sub.add(up)
                body.append('sub%d = %s.add_subparsers(%s)' % (up, var(up), ['', 'dest="command"', 'title="Commands", required=True', 'metavar="CMD", help="Which"'][(style + up) % 4]))
            h = {'none': '', 'text': ', help=' + q('Help of ' + p['name']), 'suppress': ', help=argparse.SUPPRESS'}[p['help']]
            al = ', aliases=%r' % p['aliases'] if p['aliases'] else ''
            body.append('%s = sub%d.add_parser(%s%s%s%s%s)' % (var(i), up, q(p['name']), h, al, desc, auto))
        if p['als']:
            body.append('%s.%s' % (var(i), 'alias(%r)' % p['als'][0] if style % 2 else 'aliases(%r)' % p['als']))
        for n, a in enumerate(p['acts']):
            k = []
            args = a['strs'] or [a['word']]
            if a['kind'] != 'store' or (style + n) % 5 == 0:
                k.append('action=%r' % {'true': 'store_true', 'false': 'store_false', 'const': 'store_const', 'appendconst': 'append_const'}.get(a['kind'], a['kind']))
            if a['kind'] in ('const', 'appendconst'): k.append('const=1')
            if a['kind'] == 'version': k.append('version="1.0"')
            if a['nargs'] != 'none': k.append('nargs=' + (a['nargs'] if a['nargs'].isdigit() else q(a['nargs'])))
            v = ['c' + a['word'], 'x y', '=']
            r = RANGES[a['range'] - 1]
            c = {'no': None, 'list': q(v), 'tuple': q(tuple(v)), 'ints': '[1, 10, -5], type=int', 'range': 'range%r, type=int' % (r if r[2] != 1 else r[:2],), 'dict': q(dict.fromkeys(v, 1)),
                 'set': 'set(%r)' % v, 'keys': '%r.keys()' % dict.fromkeys(v, 1)}[a['choices']]
            if c: k.append('choices=' + c)
            if a['help'] == 'text': k.append('help=' + q('H ' + a['word']))
            if a['help'] == 'suppress': k.append('help=argparse.SUPPRESS')
            if a['metavar'] == 'word': k.append('metavar="META"')
            if a['metavar'] == 'tuple': k.append('metavar=("META", "META2")')
            if a['required'] and a['strs'] and a['group'] == 0 and a['kind'] in ('store', 'append'): k.append('required=True')
            where = var(i)
            if a['group']:
                g = 'g%d_%d' % (i, a['group'])
                where = g
            elif a['argument_group']:
                where = 'ag%d' % i
                if where not in groups:
                    groups[where] = 1
                    body.append('%s = %s.add_argument_group("Some options")' % (where, var(i)))
            m = a['group']
            if m and where not in groups:
                groups[where] = 1
                body.append('%s = %s.add_mutually_exclusive_group(%s)' % (where, var(i) if m != 2 or style % 2 else '%s.add_argument_group("G")' % var(i), 'required=True' if (m + style) % 3 == 0 else ''))
            line = '%s.add_argument(%s)' % (where, ', '.join([q(x) for x in args] + k))
            if a['complete']: line += '.complete(%s)' % ', '.join(map(q, COMPLETES[a['complete'] - 1]))
            if a['when']: line += '.when(%r)' % WHENS[a['when'] - 1]
            if a['rep'] != 'unset': line += '.set_repeatable(%s)' % {'yes': '' if style % 2 else 'True', 'no': 'False'}[a['rep']]
            if a['final'] != 'unset': line += '.set_final(%s)' % {'yes': '' if style % 3 else 'True', 'no': 'False'}[a['final']]
            body.append(line)
    # how the program is laid out; crazy-complete must find the parser without running the program
    if style % 6 == 1: body = ['def main():', '    args = %s.parse_args()' % var(0), '    print(args)', ''] + body + ['', 'if __name__ == "__main__":', '    main()']
    if style % 6 == 2: body += ['same = %s' % var(0)]
    if style % 6 == 3: body = ['class Holder: pass', 'unrelated = argparse.Namespace(x=1)'] + body + ['if __name__ == "__main__":', '    sys.exit(0)']
    if style % 6 == 4:
        body = [re.sub(r'^(p\d+) = (sub\d+)\.', r'\1 = all_parsers.setdefault("\1", argparse.Namespace()).p = \2.', l) for l in body]
        body = ['all_parsers = {}'] + body
    if style % 6 == 5: body += ['%s.set_defaults(x=1)' % var(0), 'unrelated = argparse.ArgumentError'] + (['del sub0'] if 0 in made_sub else [])
    if style % 12 == 0: body += ['args = %s.parse_args()' % var(0)]
    return '\n'.join(out + body) + '\n'


def normal(docs):
    """What the tool says, in the form of the specification."""
    r = {}
    for d in docs:
        path = tuple(d['prog'].split(' '))
        groups = []
        opts, poss = [], []
        for o in d.get('options', []):
            c = o.get('complete')
            g = o.get('groups') or []
            opts.append(dict(strs=list(o['option_strings']), arity='none' if not c else 'optional' if o.get('optional_arg') else 'required', metavar=o.get('metavar') or '',
                             complete=c or [], help=o.get('help') or '', hidden=bool(o.get('hidden')), final=bool(o.get('final')),
                             rep={'INHERIT': 'unset', True: 'yes', False: 'no'}[o.get('repeatable', 'INHERIT')], group=tuple(g), when=o.get('when')))
        for o in d.get('positionals', []):
            poss.append(dict(number=o['number'], metavar=o.get('metavar') or '', repeatable=bool(o.get('repeatable')), complete=o.get('complete') or ['none'], help=o.get('help') or '', when=o.get('when')))
        # what the definitions say of groups: which options exclude each other
        together = [[x['strs'][0] for x in opts if set(x['group']) & set(o['group'])] for o in opts]
        for o, t in zip(opts, together): o['group'] = t
        r[path] = dict(help=d.get('help') or '', opts=opts, poss=poss)
        for a in d.get('aliases', []):
            r[path[:-1] + (a,)] = r[path]
    return r


def complete_of(x):
    c = x['complete']
    if c and c[0] == 'given': return COMPLETES[int(c[1]) - 1]
    return c


def values(c, is_set):
    """A completer, by what it offers."""
    if c and c[0] == 'range':
        a, b, s = (c[1:] + [1])[:3]
        return ['choices'] + [str(x) for x in range(a, b + (1 if s > 0 else -1), s)]
    if c and c[0] == 'choices' and len(c) == 2 and isinstance(c[1], (list, dict)): c = ['choices'] + [str(x) for x in c[1]]
    if c and c[0] == 'choices' and is_set: c = ['choices'] + sorted(c[1:])
    return c


def C23(chk):
    q = chk.tier == 'quick'
    inp = '%s/argp.json' % chk.dir
    with open(inp, 'w') as fh:
        json.dump(dict(names=NAMES, words=WORDS, completes=[0] * len(COMPLETES), whens=[0] * len(WHENS), ranges=[dict(start=a, stop=b, step=c) for a, b, c in RANGES]), fh)
    progs = []

    def sim(i):
        o = '%s/progs%d' % (chk.dir, i)
        n = [6, 12, 20, 30][i % 4]
        r = core.tlc('Argparse', CFG % (o, n), chk.dir, 'argp%d' % i, env=dict(CC_ARGP=inp),
                     extra=['-simulate', 'num=%d' % ((12 if n > 15 else 25) if q else 150), '-depth', str(n + 1), '-seed', str(chk.seed * 100 + i)])
        return r, [json.loads(l) for l in sorted(set(open(o, encoding='utf-8')))] if os.path.exists(o) else []
    for (o, g, dis), hs in core.pmap(sim, range(4 if q else 16)):
        chk.states += g
        chk.transitions += g
        progs += hs
    progs = chk.rng('pick').sample(progs, min(len(progs), 400 if q else 6000))
    cmds = []
    for i, h in enumerate(progs):
        style = chk.seed + i
        d = '%s/p%d' % (chk.dir, i // 100)
        os.makedirs(d, exist_ok=True)
        p = '%s/prog%d.%s' % (d, i, ['py', 'py', ''][i % 3] or 'x')
        with open(p, 'w') as fh:
            fh.write(render(h['ps'], style))
        cmds.append(['--input-type=python', 'json', p])
        if i % 10 == 0: cmds[-1] += ['--parser-variable', ['parser', 'main_parser', 'p'][style % 3]]
    res = core.clis(cmds, chk.dir, 'conv')
    scripts = [(c, sh) for i, (c, h) in enumerate(zip(cmds, progs)) if i % 4 == 0 and h['ok'] for sh in ('bash', 'fish', 'zsh')]
    for (c, sh), (rc, so, se) in zip(scripts, core.clis([[c[0], sh] + c[2:] for c, sh in scripts], chk.dir, 'scr')):
        chk.queries += 1
        if rc != 0:
            chk.violation('script', 'the definition of a Python program is rejected: ' + se[-300:], dict(program=open(c[2]).read(), shell=sh, stderr=se))
    for i, (h, c, (rc, so, se)) in enumerate(zip(progs, cmds, res)):
        chk.traces += 1
        text = open(c[2], encoding='utf-8').read()
        if rc != 0:
            chk.violation('rejected', 'not converted: ' + (se.strip().split('\n') or [''])[-2 if 'debug' in se else -1][:300], dict(program=text, stderr=se[-1500:]))
            continue
        got = normal(json.loads(so))
        want = {}
        paths = {0: [('ccp',)]}
        for n, m in enumerate(h['m']):
            if n: paths[n] = [u + (x,) for u in paths[m['up'] - 1] for x in m['names']]
            for o in m['opts']:
                o['group_'] = [x['strs'][0] for x in m['opts'] if o['group'] and x['group'] == o['group']]
            for u in paths[n] if n else [('ccp',)]: want[u] = m
        # the same command under its aliases: the tool may list it once with aliases or once per name
        names = {}
        for u, g in got.items(): names[u] = g
        def canon(u):
            n, r = 0, ()
            for x in u[1:]:
                n = next((k for k, m in enumerate(h['m']) if k and m['up'] - 1 == n and x in m['names']), None)
                if n is None: return None
                r += (n,)
            return r
        gotc, problem = {}, None
        for u, g in got.items():
            k = canon(u)
            if k is None:
                problem = 'command', 'the command %s does not exist in the program' % ' '.join(u)
                break
            gotc.setdefault(k, []).append((u, g))
        chk.queries += len(want)
        for u, m in [] if problem else want.items():
            k = canon(u)
            here = [g for v, g in gotc.get(k, [])]
            if not here: problem = 'command', 'the command %s is missing' % ' '.join(u)
            # every name leads to it
            elif not any(v[-1] == u[-1] for v, g in gotc[k]): problem = 'alias', 'the name %s of a command is missing' % u[-1]
            if problem: break
            for v, g in gotc[k]:
                first = v[-1] == m['names'][0]
                if first and g['help'] != m['help']: problem = 'help', 'help of %s is %r, specified %r' % (' '.join(v), g['help'], m['help'])
                for what, gl, ml in (('option', g['opts'], m['opts']), ('positional', g['poss'], m['poss'])):
                    if len(gl) != len(ml):
                        problem = what + 's', '%s has %d %ss, specified %d' % (' '.join(v), len(gl), what, len(ml))
                        break
                    for x, y in zip(gl, ml):
                        y = dict(y)
                        st = y.pop('set')
                        x = dict(x)
                        cx, cy = values(x.pop('complete'), st), values(complete_of(y), st)
                        y.pop('complete')
                        y['when'] = WHENS[y['when'] - 1] if y['when'] else None
                        if 'group' in y: y['group'] = y.pop('group_')
                        d = [f for f in x if x[f] != y.get(f)]
                        if d: problem = '%s:%s' % (what, d[0]), '%s %r: %s is %r, specified %r' % (what, x.get('strs') or x['metavar'], d[0], x[d[0]], y.get(d[0]))
                        elif cx != json.loads(json.dumps(cy)): problem = what + ':complete', '%s %r completes %r, specified %r' % (what, x.get('strs') or x['metavar'], cx, cy)
            if problem: break
        for m in h['m']:
            for x in m['opts']: chk.count('option ' + x['arity'])
            for x in m['poss']: chk.count('positional')
        chk.count('parsers', len(h['m']))
        if problem:
            chk.violation(problem[0], problem[1], dict(program=text, got=so))
        else:
            chk.sample(dict(program=text[:1500]))
    chk.assumptions += ['programs are drawn by TLC from calls of the argparse API; custom actions, BooleanOptionalAction and help texts with % are not among them']
