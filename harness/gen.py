"""Seeded generator of abstract definitions."""
import random

TRUE = {'op': 'true'}
NONE = {'k': 'none'}
LONGS = ['--foo', '--foo-bar', '--bar', '--foobar', '--baz', '--verbose', '--quiet', '--no-foo', '--file', '--out',
         '--a-b', '--x1', '--all', '--almost', '--color', '--colour', '--dry-run', '--depth',
         '--foo_bar', '--Foo', '--Verbose', '--VERBOSE', '--a.b', '--opt9', '--opt10', '--opt1', '--a_b', '--fooBar']
OLDS = ['-old', '-exec', '-name', '-iname', '-type', '-print', '-print0', '-foo', '-verbose', '-foo-bar', '-Old', '-old1', '-no-old']
SHORTS = ['-' + c for c in 'abcdefghkmnpqrstuvwxyzABCDFGRSV019']
ODD = ['-?', '-#', '-@', '-%', '-.', '-^', '-~', '-_', '-/']
WORDS = ['one', 'two', 'three', 'on', 'off', 'auto', 'never', 'x', 'one1', 'left', 'right']
VALUES = WORDS + ['k=v', 'a=b=c', 'x=one', 'On', 'ONE', 'a-b', 'a.b', 'on1', '10', '1', '0']
SUBS = ['add', 'list', 'remove', 'commit', 'config', 'log', 'show', 'start', 'stop', 'status', 'push', 'pull', 'list-all', 'add-all', 'logs', 'sta']
GROUPS = ['g1', 'g2', 'g3']


def cfg(**k):
    d = dict(abbrC=False, abbrO=False, rep=False, inh=False, sep='both', stack=True, disable=[])
    d.update(k)
    return d


def option(s, arg='none', comp=None, rep='I', final=False, hidden=False, groups=(), when=None, sep='I', **kw):
    d = dict(s=list(s), arg=arg, comp=comp or NONE, rep=rep, final=final, hidden=hidden, groups=list(groups),
             when=when or TRUE, sep=sep)
    d.update(kw)
    return d


def positional(n, comp, rep=False, when=None, **kw):
    d = dict(n=n, comp=comp, rep=rep, when=when or TRUE)
    d.update(kw)
    return d


def command(name, parent=0, opts=(), poss=(), aliases=(), abbrC='I', abbrO='I', inh='I', **kw):
    d = dict(name=name, parent=parent, aliases=list(aliases), abbrC=abbrC, abbrO=abbrO, inh=inh,
             opts=list(opts), poss=list(poss))
    d.update(kw)
    return d


def definition(id, cmds, depth=2, config=None, shells=('bash', 'fish', 'zsh'), argw=(), posw=(), eoow=(),
               dashdash=False, script=(), **kw):
    d = dict(id=id, depth=depth, shells=list(shells), argw=list(argw), posw=list(posw), eoow=list(eoow),
             dashdash=dashdash, script=list(script), words=[], cfg=config or cfg(), cmds=list(cmds))
    d.update(kw)
    return d


def choices(*v):
    return {'k': 'choices', 'v': list(v)}


class Gen:
    """Random definitions; `f` holds probabilities of the features."""

    DEFAULT = dict(nopts=(3, 6), arg=0.4, opt=0.25, short=0.7, long=0.75, old=0.1, two=0.6, rep=0.2, final=0.0,
                   hidden=0.0, groups=0.0, when=0.0, subs=0.0, nsubs=(1, 3), alias=0.3, poss=0.5, reppos=0.4, npos=(1, 3),
                   sep=0.0, inh=0.0, abbrC=0.0, abbrO=0.0, dashdash=0.3, depth2=0.3, disable=(), poswhen=0.0,
                   help=0.3, repcfg=0.0, sepcfg=0.0, nostack=0.0, argwords=0.3, more=0.15, possubs=0.3)

    def __init__(self, seed, **f):
        self.r = random.Random(seed)
        self.f = dict(self.DEFAULT)
        self.f.update(f)
        self.wordno = 0

    def p(self, k):
        return self.r.random() < self.f[k]

    def fresh_choices(self):
        n = self.r.randint(1, 3)
        return choices(*self.r.sample(WORDS if self.r.random() < 0.7 else VALUES, n))

    def make_opts(self, n, used, others):
        opts = []
        for _ in range(n):
            s = []
            kinds = []
            if self.p('short'): kinds.append('short')
            if self.p('long'): kinds.append('long')
            if self.p('old'): kinds.append('old')
            if not kinds: kinds = [self.r.choice(['short', 'long'])]
            if len(kinds) > 1 and not self.p('two'): kinds = kinds[:1]
            while self.p('more'): kinds.append(self.r.choice(kinds + ['long']))
            for k in kinds:
                pool = {'short': SHORTS if self.r.random() < 0.93 else ODD, 'long': LONGS, 'old': OLDS}[k]
                c = [x for x in pool if x not in used]
                # a short option that could be read as the beginning of an old-style one is avoided
                if k == 'short': c = [x for x in c if not any(len(u) > 2 and u[1] != '-' and u.startswith(x) for u in used)]
                if k == 'old': c = [x for x in c if x[:2] not in used]
                if c:
                    x = self.r.choice(c)
                    s.append(x)
                    used.add(x)
            if not s:
                continue
            self.r.shuffle(s)
            arg = 'none'
            if self.p('arg'): arg = 'opt' if self.p('opt') else 'req'
            o = option(s, arg, self.fresh_choices() if arg != 'none' else None)
            if self.p('rep'): o['rep'] = self.r.choice(['T', 'T', 'F'])
            if self.p('final'): o['final'] = True
            if self.p('hidden'):
                o['hidden'] = True
                if o['rep'] == 'T': o['rep'] = 'I'
            if self.p('groups'): o['groups'] = self.r.sample(GROUPS, self.r.choice([1, 1, 2]))
            if self.p('sep') and arg == 'req': o['sep'] = self.r.choice(['space', 'equals', 'both'])
            if self.p('help'): o['help'] = self.r.choice(['Some help', "It's help", 'help: with [brackets]', 'a "quoted" $HOME'])
            opts.append(o)
        return opts

    def atom(self, opts, npos):
        r = self.r
        k = r.random()
        if opts and k < 0.45:
            o = r.sample(opts, min(len(opts), r.choice([1, 1, 2])))
            return {'op': 'has_option', 'opts': [r.choice(x['s']) for x in o]}
        wa = [o for o in opts if o['arg'] != 'none']
        if wa and k < 0.75:
            o = r.choice(wa)
            vals = o['comp']['v'] + ['zz']
            vals = r.sample(vals, r.randint(1, min(2, len(vals))))
            nocase = r.random() < 0.3
            if nocase: vals = [v.upper() if r.random() < 0.5 else v for v in vals]
            return {'op': 'option_is', 'opts': [r.choice(o['s'])], 'vals': vals, 'any': r.random() < 0.4, 'nocase': nocase}
        if npos and k < 0.88:
            return {'op': 'positional_count', 'cmp': r.choice(['==', '!=', '<', '<=', '>', '>=']), 'n': r.randint(0, 2)}
        if npos:
            return {'op': 'positional_contains', 'n': r.randint(1, 2), 'vals': r.sample(WORDS, 2), 'nocase': r.random() < 0.2}
        if not opts:
            return {'op': 'positional_count', 'cmp': r.choice(['<', '>=']), 'n': r.randint(0, 2)}
        return {'op': 'has_option', 'opts': [r.choice(r.choice(opts)['s'])]}

    def expr(self, opts, npos, depth=2):
        k = self.r.random()
        if depth == 0 or k < 0.4: return self.atom(opts, npos)
        if k < 0.6: return {'op': 'not', 'l': self.expr(opts, npos, depth - 1)}
        return {'op': self.r.choice(['and', 'or']), 'l': self.expr(opts, npos, depth - 1), 'r': self.expr(opts, npos, depth - 1)}

    def make(self, id):
        r = self.r
        f = self.f
        used = set()
        cmds = []

        def add(name, parent, level, inherited):
            u = set(inherited)
            opts = self.make_opts(r.randint(*f['nopts']) if level == 0 else r.randint(1, max(2, f['nopts'][0])), u, None)
            for c in cmds:      # a sibling may have an option of the same name that takes an argument, or not
                if c['parent'] == parent != 0 and c['opts'] and r.random() < 0.5:
                    x = r.choice(c['opts'])
                    if not set(x['s']) & u and not any(y[:2] == z[:2] for y in u for z in x['s'] if z[1] != '-' and y[1] != '-'):
                        u.update(x['s'])
                        arg = 'none' if x['arg'] != 'none' else 'req'
                        opts.append(option(x['s'], arg, self.fresh_choices() if arg == 'req' else None))
            idx = len(cmds) + 1
            c = command(name, parent, opts)
            cmds.append(c)
            has_subs = level < 3 and r.random() < (f['subs'] if level == 0 else f['depth2'] if f['subs'] else 0)
            if self.p('poss') and (not has_subs or self.p('possubs')):
                n = r.randint(*f['npos']) if not has_subs else r.choice([1, 1, 2])
                c['poss'] = [positional(i + 1, self.fresh_choices()) for i in range(n)]
                if not has_subs and self.p('reppos'): c['poss'][-1]['rep'] = True
                if r.random() < 0.4: r.shuffle(c['poss'])     # the numbers count, not the order
            if self.p('when'):
                for o in opts:
                    if r.random() < 0.5:
                        others = [x for x in opts if x is not o]
                        w = self.expr(others, bool(c['poss']))
                        o['when'] = w
                        if o['hidden'] : o['when'] = TRUE
            if self.p('poswhen'):
                for p in c['poss']:
                    if r.random() < 0.5 and opts:
                        p['when'] = self.expr(opts, False)
            for k in ('abbrC', 'abbrO'):
                if self.p(k): c[k] = r.choice(['T', 'T', 'F'])
            if has_subs:
                for s in r.sample(SUBS, r.randint(*f['nsubs'])):
                    k = add(s, idx, level + 1, u)
                    if self.p('alias'): cmds[k - 1]['aliases'] = [s.capitalize() + 'x'] if r.random() < 0.7 else [s + '-al', 'X' + s]
            return idx

        add(id, 0, 0, used)
        if self.p('inh'):
            v = 'T'
            for c in cmds: c['inh'] = v
        c = cfg(disable=list(f['disable']))
        if self.p('repcfg'): c['rep'] = True
        if self.p('sepcfg'): c['sep'] = r.choice(['space', 'equals'])
        if self.p('nostack'): c['stack'] = False
        if self.r.random() < f['abbrC'] / 3: c['abbrC'] = True
        if self.r.random() < f['abbrO'] / 3: c['abbrO'] = True
        # abbreviated options: "currently only supported in Bash"; separators: "in Bash and Zsh"
        sh = ['bash'] if c['abbrO'] or any(x['abbrO'] == 'T' for x in cmds) else \
             ['bash', 'zsh'] if c['sep'] != 'both' or any(o['sep'] != 'I' for x in cmds for o in x['opts']) else ['bash', 'fish', 'zsh']
        return definition(id, cmds, config=c, shells=sh, posw=['zz'] if self.p('poss') else [],
                          argw=['zz'] if self.p('argwords') else [], dashdash=self.p('dashdash'),
                          eoow=r.choice([[], ['-'], ['-z', '--foo']]))


class Comps:
    """Random nested completers."""

    VALS = WORDS + ['alpha', 'beta', 'gamma', 'be', 'all', 'alphabet', 'Q', 'w1', 'w12']
    KEYS = ['key', 'keyring', 'name', 'mode', 'ro', 'rw', 'size', 'uid', 'k', 'nam', 'type']
    SEPS = [',', ':', '/', '+', '.', '@', '%']
    PREFIXES = ['pre-', '@', 'a/', 'user:', 'no', '+', 'x.', 'p=', '%']

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.extra = []     # values with the separator of the key-value completer around

    def words(self, lo=1, hi=4):
        w = self.r.sample(self.VALS, self.r.randint(lo, hi)) + self.extra
        self.extra = []
        return w

    def leaf(self, seps):
        r = self.r
        k = r.random()
        if k < 0.4:
            c = choices(*self.words())
        elif k < 0.5:
            c = {'k': 'exec', 'v': self.words(), 'cmd': r.choice(['exec', 'exec_fast'])}
        elif k < 0.75:
            a, b = r.choice([(1, 5), (0, 12), (8, 14), (5, 1), (10, 2)])
            s = r.choice([1, 1, 2, 3])
            c = {'k': 'range', 'a': a, 'b': b, 's': s if a < b else -s}
        else:
            k = r.choice(['integer', 'float'])
            if '.' in seps: k = 'integer'
            c = {'k': k, 'suf': r.sample(['k', 'kB', 'M', 'MB', 'G', 's', 'min', 'ms'], r.randint(1, 3))}
        if k != 'range' and 'v' in c and c['k'] == 'choices' and r.random() < 0.4:
            c['d'] = ['desc of ' + v for v in c['v']]
        return c

    def make(self, kind=None, depth=2, seps=()):
        """A completer of the kind (any if not given); `seps` are separators in use around it."""
        r = self.r
        free = [s for s in self.SEPS if s not in seps and not (seps and s == ':')]   # bash breaks words at ':'
        if kind is None:
            kind = r.choice(['leaf'] * 4 + (['combine', 'prefix', 'value_list', 'list'] if depth else []))
        if kind == 'leaf':
            return self.leaf(seps)
        if kind in ('choices', 'range', 'integer', 'float', 'exec'):
            while True:
                c = self.leaf(seps)
                if c['k'] == kind: return c
        if kind == 'combine':
            return {'k': 'combine', 'cs': [self.make(r.choice(['choices', 'range', 'exec', 'choices', 'prefix' if depth else 'exec', 'combine' if depth else 'choices']), 0, seps)
                                           for _ in range(r.choice([2, 2, 3, 4]))]}
        if kind == 'prefix':
            p = r.choice([p for p in self.PREFIXES if not any(s in p for s in list(seps) + [':', '='] * bool(seps))])
            c = self.make(None if depth > 1 else 'leaf', depth - 1, list(seps))
            if c['k'] == 'range' and r.random() < 0.4:
                c = dict(c, a=-2, b=r.choice([3, 4]), s=r.choice([1, 2]))
            return {'k': 'prefix', 'p': p, 'c': c}
        sep = r.choice([s for s in free] + [',', ','] * (',' in free))
        dup = r.random() < 0.35
        if kind == 'value_list':
            c = {'k': kind, 'v': self.words(2, 4), 'sep': sep, 'dup': dup}
            if r.random() < 0.4: c['d'] = ['desc of ' + v for v in c['v']]
        elif kind == 'list':
            c = {'k': kind, 'c': self.make(r.choice(['choices', 'choices', 'range', 'exec', 'combine', 'prefix' if depth > 0 else 'choices']), 0, list(seps) + [sep]), 'sep': sep, 'dup': dup}
        else:
            vsep = '=' if '=' not in seps and r.random() < 0.7 else r.choice([s for s in free if s != sep])
            inner = list(seps) + ([sep] if kind == 'kvl' else []) + [vsep]
            keys = []
            for k in r.sample(self.KEYS, r.randint(2, 4)):
                arg = r.random() < 0.7
                self.extra = [v for v in ['a%sb' % vsep, 'be%s' % vsep, '%sx' % vsep] if vsep not in ':=' and r.random() < 0.25]
                keys.append({'k': k, 'rep': kind == 'kvl' and r.random() < 0.25, 'arg': arg,
                             'c': self.make(None if depth > 1 else 'leaf', depth - 1, inner) if arg else NONE, 'excl': [],
                             'd': 'about ' + k if r.random() < 0.6 else ''})
            if kind == 'kvl':
                for x in keys:
                    if r.random() < 0.3:
                        x['excl'] = r.sample([y['k'] for y in keys if y is not x], 1)
            c = {'k': kind, 'vsep': vsep, 'keys': keys}
            if kind == 'kvl': c['psep'] = sep
        if r.random() < 0.3: c['explicit'] = True
        return c


def values_def(seed, id, kinds, depth=2, nopts=3):
    """A definition whose options and positional are completed by completers of the kinds."""
    c = Comps(seed)
    r = c.r
    opts, words = [], []
    for i in range(nopts):
        short, long = '-' + 'abcdefg'[i], '--' + ['alpha', 'beta', 'gamma', 'delta', 'eps'][i]
        o = option([short, long], r.choice(['req', 'req', 'req', 'opt']), c.make(r.choice(kinds), depth))
        if r.random() < 0.3: o['help'] = 'Help of it'
        opts.append(o)
        if o['arg'] == 'req': words += [short, long]
    cmd = command(id, 0, opts, [positional(1, c.make(r.choice(kinds), depth))])
    d = definition(id, [cmd], depth=1 if words else 0)
    d['words'] = words
    return d
