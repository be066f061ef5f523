"""C25: what command lines do to the file system (spec/Lifecycle.tla)."""
import json, os, shutil, subprocess
import core

CFG = '''SPECIFICATION Spec
CONSTANTS EmitFile = "%s"
MaxLen = %d
INVARIANTS Codes Kept Fits OneStep Emit
CHECK_DEADLOCK FALSE
'''

GOOD = 'prog: "%s"\nhelp: "The program %d"\noptions:\n  - option_strings: ["-a", "--all%d"]\n    help: "Ünïcode 漢字 %d"\n' \
       '  - option_strings: ["--choice"]\n    complete: ["choices", ["x%d", "y y"]]\n'
DEFS = [  # name, text, program, which targets reject it, arguments
    ('good1.yaml', GOOD % ('ccl', 1, 1, 1, 1), 'ccl', 'no', []),
    ('good2.json', json.dumps([dict(prog='ccl', options=[dict(option_strings=['--two'], complete=['file'])])]), 'ccl', 'no', []),
    ('good3.yml', GOOD % ('ccl2', 3, 3, 3, 3) + '---\nprog: "ccl2 sub"\naliases: ["s"]\noptions:\n  - option_strings: ["-z"]\n', 'ccl2', 'no', []),
    ('good4.py', 'import argparse\np = argparse.ArgumentParser("ccl2", description="From Python")\np.add_argument("--py", choices=["a", "b"], help="é")\n', 'ccl2', 'no', ['--input-type=python']),
    ('noext', GOOD % ('ccl', 5, 5, 5, 5), 'ccl', 'no', ['--input-type=yaml']),
    ('dots.in.name.YAML', GOOD % ('c.c_l-x', 6, 6, 6, 6), 'c.c_l-x', 'no', []),
    ('help.txt', 'Usage: ccl\n\n  -h, --help   Show help\n  -o, --out FILE  Write\n', 'ccl', 'notyaml', ['--input-type=help']),
    ('syntax.yaml', 'prog: "ccl"\noptions: [\n', 'ccl', 'all', []),
    ('syntax2.yaml', 'prog: "ccl"\n  options: []\n x\n', 'ccl', 'all', []),
    ('alias.yaml', 'prog: *nowhere\n', 'ccl', 'all', []),
    ('control.yaml', 'prog: "ccl\x01"\n', 'ccl', 'all', []),
    ('tag.yaml', 'prog: !!python/object:os.system "ccl"\n', 'ccl', 'all', []),
    ('syntax.json', '[{"prog": "ccl", }]', 'ccl', 'all', []),
    ('empty.json', '', 'ccl', 'all', []),
    ('nolist.json', '3', 'ccl', 'all', []),
    ('latin1.yaml', b'prog: "ccl"\nhelp: "\xe9"\n', 'ccl', 'all', []),
    ('latin1.json', b'[{"prog": "ccl", "help": "\xe9"}]', 'ccl', 'all', []),
    ('schema.yaml', 'prog: "ccl"\noptions:\n  - option_strings: ["-x"]\n    complete: ["nothing"]\n', 'ccl', 'shells', []),
    ('schema.json', json.dumps([dict(prog='ccl', options=[dict(option_strings=['-x'], complete=['choices'])])]), 'ccl', 'shells', []),
    ('when.yaml', 'prog: "ccl"\noptions:\n  - option_strings: ["-x"]\n    when: "has_option ("\n', 'ccl', 'shells', []),
    ('key.yaml', 'prog: "ccl"\nfoo: 1\n', 'ccl', 'all', []),
    ('two.yaml', 'prog: "ccl"\n---\nprog: "ccl2"\n', 'ccl', 'all', []),
    ('twice.yaml', 'prog: "ccl"\n---\nprog: "ccl s"\n---\nprog: "ccl s"\n', 'ccl', 'all', []),
    ('orphan.yaml', 'prog: "ccl"\n---\nprog: "ccl a b"\n', 'ccl', 'all', []),
    ('surrogate.json', '[{"prog": "ccl", "help": "x", "options": [{"option_strings": ["-a"], "complete": ["choices", ["\\ud800"]]}]}]', 'ccl', 'shells', []),
    ('plain', GOOD % ('ccl', 9, 9, 9, 9), 'ccl', 'all', []),
    ('unknown.ext', GOOD % ('ccl', 9, 9, 9, 9), 'ccl', 'all', []),
    ('unasked.py', 'import argparse\np = argparse.ArgumentParser("ccl")\n', 'ccl', 'all', []),
    ('noparser.py', 'x = 1\n', 'ccl', 'all', ['--input-type=python']),
    ('variable.py', 'import argparse\np = argparse.ArgumentParser("ccl")\n', 'ccl', 'all', ['--input-type=python', '--parser-variable=q']),
    ('wrongtype.json', GOOD % ('ccl', 9, 9, 9, 9), 'ccl', 'all', []),
    ('missing.yaml', None, 'ccl', 'all', []),
    ('gone/missing.json', None, 'ccl', 'all', []),
    ('adir.yaml', 'DIR', 'ccl', 'all', []),
    ('secret.yaml', 'SECRET', 'ccl', 'all', []),
]
MISUSE = [['--frobnicate'], ['surplus'], ['--disable=foo'], ['--abbreviate-commands=maybe'], ['-o', 'new', '-i'], ['-u', '-i'], ['-u', '-o', 'new'], ['NOFILE'], ['NOSHELL'],
          ['--max-line-length=x'], ['--input-type=foo'], ['--bash-completions-version=x'], ['--zsh-compdef'], ['--option-stacking=yes'], ['-o']]
SETS = [[], ['--abbreviate-options=True', '--comment', 'A comment'], ['--inherit-options=True', '--disable=hidden,when', '--function-prefix=_pre_$PROG', '--max-line-length', '40']]
INC = 'included() { true; }'
DIRS = dict(bash='/usr/share/bash-completion/completions', fish='/usr/share/fish/vendor_completions.d', zsh='/usr/share/zsh/site-functions')


def command(c):
    name, _, _, _, opts = DEFS[c['d'] - 1]
    to = {'stdout': [], 'install': ['-i'], 'uninstall': ['-u']}.get(c['to'])
    if to is None:
        o = {'full': '/dev/full', 'def': 'defs/' + name, 'locked': 'lockd/locked'}.get(c['to'], c['to'])
        to = ['-o', o] if c['s'] != 2 else ['--output=' + o]
    elif to and c['s'] == 2:
        to = [{'-i': '--install-system-wide', '-u': '--uninstall-system-wide'}[to[0]]]
    a = opts + SETS[c['s'] - 1] + ({'none': [], 'good': ['--include-file', 'inc.sh'], 'missing': ['--include-file=noinc.sh']}[c['i']])
    u = MISUSE[c['u'] - 1] if c['u'] else []
    pos = [c['t'], 'defs/' + name]
    if u and u[0] == 'NOFILE': u, pos = [], pos[:1]
    elif u and u[0] == 'NOSHELL': u, pos = [], ['nushell', pos[1]]
    elif u and u[0] == 'surplus': u, pos = [], pos + u
    elif u == ['-o']: return a + pos + to + u
    elif u and u[0] in ('-o', '-u'): to = []
    return (to + a + u + pos) if c['s'] != 3 else (pos + a + u + to)


def populate(root, fs, mode):
    """The directory of a history; returns the path of every place."""
    w = root + '/w'
    for d in (w, w + '/sub', w + '/dir', w + '/defs', w + '/lockd', w + '/pk', root + '/bin'):
        os.makedirs(d)
    for name, text, *_ in DEFS:
        p = w + '/defs/' + name
        if text == 'DIR':
            os.makedirs(p)
        elif text is not None:
            with open(p, 'wb') as fh:
                fh.write(text if isinstance(text, bytes) else text.encode('utf-8'))
    with open(w + '/inc.sh', 'w') as fh:
        fh.write(INC + '\n')
    dirs = {k: root + '/sys' + v for k, v in DIRS.items()}
    if mode == 'found':
        dirs['bash'], dirs['fish'] = w + '/pk/bash', w + '/pk/fi sh'
    with open(root + '/bin/pkg-config', 'w') as fh:
        fh.write('#!/bin/sh\n' + ('case "$*" in *bash*) echo "%s";; *fish*) echo "%s";; esac\n' % (dirs['bash'], dirs['fish']) if mode == 'found' else 'echo nope >&2; exit 1\n'))
    os.chmod(root + '/bin/pkg-config', 0o755)
    for d in dirs.values():
        os.makedirs(d)

    def place(p):
        if p.startswith('I/'):
            _, s, n = p.split('/')
            return dirs[s] + '/' + {'bash': n, 'fish': n + '.fish', 'zsh': '_' + n}[s]
        return w + '/' + ('lockd/locked' if p == 'locked' else p)
    for p, v in fs:
        if v[0] == 'old':
            with open(place(p), 'w') as fh:
                fh.write(OLD + ' ' * 200000 * (p == 'b'))
    for d, ds, fl in os.walk(root):
        os.chmod(d, 0o755)
        os.chown(d, 65534, 65534)
        for f in fl:
            os.chown(d + '/' + f, 65534, 65534)
    os.chown(w + '/lockd', 0, 0)
    os.chown(w + '/lockd/locked', 0, 0)
    os.chmod(w + '/lockd/locked', 0o644)
    os.chown(w + '/defs/secret.yaml', 0, 0)
    os.chmod(w + '/defs/secret.yaml', 0o600)
    return place


OLD = 'old content\n'


def C25(chk):
    q = chk.tier == 'quick'
    os.chmod(chk.dir, 0o755)
    if os.getuid() != 0:
        raise core.HarnessError('must run as root to use an unprivileged user')
    inp = '%s/life.json' % chk.dir
    with open(inp, 'w') as fh:
        json.dump(dict(defs=[dict(prog=d[2], file=isinstance(d[1], (str, bytes)) and d[1] not in ('DIR', 'SECRET'), bad=d[3]) for d in DEFS],
                       usages=len(MISUSE), sets=len(SETS)), fh)
    out = '%s/hist' % chk.dir
    hist = []
    nrun, length = (2, 16) if q else (8, 24)

    def sim(i):
        o = '%s%d' % (out, i)
        r = core.tlc('Lifecycle', CFG % (o, length), chk.dir, 'life%d' % i, env=dict(CC_LIFE=inp),
                     extra=['-simulate', 'num=%d' % (60 if q else 250), '-depth', str(length + 1), '-seed', str(chk.seed * 100 + i)])
        return r, [json.loads(l) for l in sorted(set(open(o, encoding='utf-8')))]
    for (o, g, dis), hs in core.pmap(sim, range(nrun)):
        chk.states += g
        chk.transitions += g
        hist += hs
    hist = chk.rng('pick').sample(hist, min(len(hist), 80 if q else 1500))
    # the scripts, from runs of their own
    need = sorted({(v[1], v[2], v[3]) for h in hist for st in h for v in [x[1] for x in st['fs']] + st['outs'] if v[0] == 'script'})
    base = chk.dir + '/ref'
    populate(base, [['locked', ['old']]], 'failing')
    cmds = [command(dict(t=t, d=int(d), s=(int(s) - 1) % len(SETS) + 1, i='good' if int(s) > len(SETS) else 'none', u=0, to='stdout')) for t, d, s in need]
    cwd = base + '/w'
    refs = {}

    def ref(kc):
        k, c = kc
        rc, so, se = core.cli(c, cwd=cwd)
        if rc != 0:
            return k, None, '%s: exit %d: %s' % (' '.join(c), rc, se[-400:])
        return k, so[:-1] if so.endswith('\n') else so, ''
    for k, v, e in core.pmap(ref, zip(need, cmds)):
        refs[('script',) + k] = v
        if v is None:
            chk.violation('ref', 'an accepted definition is rejected: ' + e, e)
        elif k[0] in DIRS and k[2] and int(k[2]) > len(SETS) and INC not in v:
            chk.violation('include', 'the included file is not in the script', v[-500:])
    if chk.violations:
        return
    job = chk.dir + '/driver.py'
    shutil.copy(core.VERIF + '/harness/driver_life.py', job)

    def run(ih):
        i, h = ih
        root = '%s/h%d' % (chk.dir, i)
        mode = ['found', 'failing'][i % 2]
        place = populate(root, h[0]['fs'], mode)
        before = snapshot(root)
        steps = []
        for n, st in enumerate(h[1:]):
            cs = [command(c) for c in st['cs']]
            if len(cs) == 1:
                steps.append(cs[0])
            else:
                with open('%s/batch%d' % (root, n), 'w') as fh:
                    fh.write('# a comment\n' + '\n'.join(' '.join(core.quote(a) for a in c) for c in cs) + '\n')
                steps.append(['--batch', '%s/batch%d' % (root, n)])
        with open(root + '/job', 'w') as fh:
            json.dump(dict(root=root, uid=65534, steps=steps), fh)
        env = core.cli_env(seed=chk.seed)
        env['PATH'] = root + '/bin:' + env['PATH']
        p = subprocess.run([core.PY, job, core.REPO + '/crazy-complete', root + '/job'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, timeout=600, cwd=root)
        if p.returncode != 0:
            raise core.HarnessError('driver: ' + p.stdout.decode('utf-8', 'replace')[-1000:])
        with open(root + '/job.res') as fh:
            res = json.load(fh)
        # everything that is no place of the specification stays as it was
        places = {os.path.relpath(place(x), root): x for x in ALL(h)}
        fixed = {k: v for k, v in before.items() if k not in places}
        bad = []
        for n, (st, (rc, so, se, ls)) in enumerate(zip(h[1:], res)):
            want = dict(fixed)
            for x, v in st['fs']:
                want[os.path.relpath(place(x), root)] = None if v[0] == 'dir' else refs[tuple(v)] if v[0] == 'script' else before[os.path.relpath(place(x), root)] if x in dict(map(tuple_, h[0]['fs'])) else '?'
            got = dict(map(tuple, ls))
            text = ''.join(refs[tuple(v)] + '\n' for v in st['outs'])
            problem = None
            diff = sorted(k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0))
            if rc != st['exit']: problem = 'exit', 'exit code %d, specified %d' % (rc, st['exit'])
            elif diff: problem = 'files', 'differs from the specification: ' + ', '.join('%s (%s)' % (k, 'missing' if k not in got else 'unexpected' if k not in want else '%d characters instead of %d' % (len(got[k] or ''), len(want[k] or ''))) for k in diff[:4])
            elif so.rstrip('\n') != text.rstrip('\n'): problem = 'stdout', 'output differs from the specification: %r' % so[:200]
            elif rc != 0 and not se.strip(): problem = 'silent', 'fails without a message'
            elif 'THIS IS PROBABLY AN ERROR' in se: problem = 'crash', 'crashes: ' + se[-300:]
            if problem:
                bad.append((problem[0], '%s: crazy-complete %s' % (problem[1], ' '.join(steps[n])), dict(step=n, commands=steps[:n + 1], stderr=se[-1500:], mode=mode)))
                break
        shutil.rmtree(root, ignore_errors=True)
        return len(res), bad

    for (n, bad), h in zip(core.pmap(run, enumerate(hist)), hist):
        chk.traces += 1
        chk.queries += n
        for st in h[1:]:
            chk.count('exit %d' % st['exit'])
            for c in st['cs']:
                chk.count('to ' + c['to'])
        for b in bad:
            chk.violation(*b)
        if not bad:
            chk.sample(dict(commands=[command(c) for c in h[1]['cs']], exit=h[1]['exit']))
    chk.assumptions += ['commands run as an unprivileged user with the system directories redirected into a scratch directory; histories are drawn by TLC']


def tuple_(x):
    return x[0], tuple(x[1])


def ALL(h):
    return ['a', 'b', 'c', 'sub/d', 'dir', 'gone/x', 'locked'] + ['I/%s/%s' % (s, p) for s in DIRS for p in sorted({d[2] for d in DEFS}) + ['neighbour']]


def snapshot(root):
    r = {}
    for d, ds, fs in os.walk(root + '/w'):
        for x in ds:
            r[os.path.relpath(d + '/' + x, root)] = None
        for x in fs:
            with open(d + '/' + x, 'rb') as fh:
                r[os.path.relpath(d + '/' + x, root)] = fh.read().decode('utf-8', 'backslashreplace')
    for d, ds, fs in os.walk(root + '/sys'):
        for x in fs:
            with open(d + '/' + x, 'rb') as fh:
                r[os.path.relpath(d + '/' + x, root)] = fh.read().decode('utf-8', 'backslashreplace')
    return r
