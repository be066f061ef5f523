"""Pipeline: definitions -> TLC -> expected candidates -> real shells -> comparison."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib
from concurrent.futures import ThreadPoolExecutor
import shells, docs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = VERIF + '/spec'
REPO = os.environ.get('CC_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
NCPU = min(8, os.cpu_count() or 8)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class HarnessError(Exception):
    pass


def cli_env(home='/nonexistent', seed=None):
    env = {'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': home,
           'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}
    if seed is not None:
        env['PYTHONHASHSEED'] = str(seed)
    return env


def cli(args, cwd=None, timeout=120, env=None, stdin=None):
    """Run the crazy-complete program of the working tree."""
    p = subprocess.run([PY, REPO + '/crazy-complete'] + args, stdin=subprocess.DEVNULL if stdin is None else None,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env or cli_env(), timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def quote(a):
    return shells.sq(a)


def pmap(f, items, n=NCPU):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))


def batch(cmds, workdir, name):
    """Run many command lines of crazy-complete in one process; returns (rc, stderr)."""
    path = '%s/%s.batch' % (workdir, name)
    with open(path, 'w') as fh:
        fh.write('\n'.join(' '.join(quote(a) for a in c) for c in cmds) + '\n')
    rc, out, err = cli(['--batch', path])
    return rc, err


def clis(cmds, workdir, name, n=NCPU, seed=None):
    """Run many command lines, several in one process each; returns [(rc, stdout, stderr)]."""
    def one(ic):
        i, ch = ic
        path = '%s/%s_%d.cmds' % (workdir, name, i)
        with open(path, 'w') as fh:
            json.dump(ch, fh)
        p = subprocess.run([PY, VERIF + '/harness/driver_cli.py', REPO + '/crazy-complete', path], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=cli_env(seed=seed), timeout=800, cwd=workdir)
        if p.returncode != 0:
            raise HarnessError('driver: ' + p.stdout.decode('utf-8', 'replace')[-1000:])
        with open(path + '.res') as fh:
            return json.load(fh)
    return [tuple(x) for r in pmap(one, enumerate(chunks(cmds, n))) for x in r]


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def generate(tasks, workdir, name='gen'):
    """tasks: [(args, source file, shell, output file)].  Returns list of (task, stderr) that failed."""
    def one(ic):
        i, ch = ic
        cmds = [list(a) + (['--zsh-compdef=False'] if sh == 'zsh' and not any(x.startswith('--zsh-compdef') for x in a) else [])
                + ['-o', out, sh, src] for a, src, sh, out in ch]
        rc, err = batch(cmds, workdir, '%s%d' % (name, i))
        if rc == 0:
            return []
        bad = []
        for c, t in zip(cmds, ch):
            rc, o, err = cli(c)
            if rc != 0:
                bad.append((t, 'exit %d: %s' % (rc, err.strip()[-400:])))
        return bad
    r = []
    for b in pmap(one, enumerate(chunks(tasks, NCPU))):
        r += b
    return r


TLC_RE = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc(module, cfg, workdir, name, env=None, extra=(), timeout=800, heap='2g', workers='1', specdir=None):
    """Run TLC; returns (rc, output, generated, distinct)."""
    meta = '%s/meta_%s' % (workdir, name)
    os.makedirs(meta, exist_ok=True)
    cfgfile = '%s/%s.cfg' % (workdir, name)
    with open(cfgfile, 'w') as fh:
        fh.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    tmp = meta + '/tmp'
    os.makedirs(tmp, exist_ok=True)
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m', 
           '-Djava.io.tmpdir=' + tmp, '-cp', JARS, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-workers', workers, '-config', cfgfile] + list(extra) + [(specdir or SPEC) + '/' + module + '.tla']
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=workdir,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as ex:
        raise HarnessError('TLC time limit in %s' % name) from ex
    out = p.stdout.decode('utf-8', 'replace')
    m = TLC_RE.findall(out)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r'(\d+) states checked', out) or re.findall(r'The number of states generated: (\d+)', out)
        if m:
            gen = dis = int(m[-1])
    shutil.rmtree(meta, ignore_errors=True)
    if p.returncode != 0:
        raise HarnessError('TLC (%s) failed:\n%s' % (name, '\n'.join(
            l for l in out.split('\n') if not re.match('Parsing file|Semantic proc|Linting', l))[-3000:]))
    return out, gen, dis


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix='cc-%s-' % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.queries = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.notes = {}
        self.cover = {}

    def rng(self, tag=''):
        return random.Random('%s/%s/%s/%s' % (self.prop, self.tier, self.seed, tag))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def violation(self, key, what, detail=None):
        """key identifies the failing input, call site or history (see known-findings.txt)."""
        self.violations.append((key, what, detail))

    def count(self, k, n=1):
        self.cover[k] = self.cover.get(k, 0) + n

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)


def known_findings():
    r = {}
    with open(VERIF + '/known-findings.txt') as fh:
        for l in fh:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                r[m.group(1), m.group(2)] = m.group(3)
    return r


def finish(chk):
    """Evidence, verdict lines and the exit code."""
    known = known_findings()
    new, old = [], {}
    for v in chk.violations:
        if (chk.prop, v[0]) in known:
            old[v[0]] = known[chk.prop, v[0]]
        else:
            new.append(v)
    cov = dict(states=chk.states, transitions=chk.transitions, traces_validated_against_impl=chk.traces,
               queries=chk.queries, samples=chk.samples)
    cov.update(chk.cover)
    ev = dict(property=chk.prop, tier=chk.tier, seed=chk.seed, level='model_checking', coverage=cov,
              assumptions=chk.assumptions, wall_s=round(time.time() - chk.t0, 1), violations=len(new))
    os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, chk.prop), 'w') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False, default=str)
        fh.write('\n')
    for k, w in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s' % (chk.prop, w))
    for n, (key, what, detail) in enumerate(new[:5]):
        path = '%s/evidence/replay/%s-%d.json' % (VERIF, chk.prop, n)
        with open(path, 'w') as fh:
            json.dump(dict(property=chk.prop, key=key, what=what, detail=detail), fh, indent=1, ensure_ascii=False, default=str)
        print('  ' + what[:600].replace('\n', ' | '))
        print('VIOLATION property=%s replay=%s' % (chk.prop, path))
    print('%s %s: %d states, %d traces, %d queries, %d violation(s), %.0f s' % (
        chk.prop, chk.tier, chk.states, chk.traces, chk.queries, len(new), time.time() - chk.t0))
    return 1 if new else 0
