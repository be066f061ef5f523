"""C01-C08: the command line as specified in spec/CmdLine.tla, replayed in bash, fish and zsh."""
import json
import cmdline, core, docs, gen

ASSUME = ['the completion systems of the installed bash, fish and zsh', 'bash_split() mirrors how readline splits a line']


def key_of(m):
    if m.get('kind') == 'listdup':
        return 'zsh:list:duplicates'
    if m.get('finding'):
        return m['finding']
    return '%s:%s:%s' % (m['shell'], ' '.join([m['id']] + list(m.get('words', ()))).replace(' ', '_'), m.get('token', ''))


def describe(m):
    if m['what'] in ('candidates', 'separator'):
        return '%s: `%s%s<TAB>` (%s): missing %s, unexpected %s' % (
            m['shell'], ''.join(cmdline.shword(w) + ' ' for w in [m['id']] + m['words']), m['token'], m['kind'],
            m['missing'], m['unexpected'])
    return '%s: %s' % (m['what'], m.get('error', ''))


def report(chk, mism, errs, byid):
    for m in mism:
        chk.count('mismatches of kind %s' % m.get('kind', 'other'))
        d = byid.get(m['id'])
        chk.violation(key_of(m), describe(m), dict(mismatch=m, args=docs.cfg_args(d['cfg']) if d else [],
                                                   definition=docs.documents(d) if d else None))


def listpos_optarg(d, m):
    """Only candidates of a list positional appear behind --opt= of an option whose argument is optional."""
    name = m['token'].split('=')[0]
    own = [o['comp'] for c in d['cmds'] for o in c['opts'] if name in o['s'] and o['arg'] == 'opt']
    pos = [p['comp'] for c in d['cmds'] for p in c['poss'] if p['comp']['k'] in ('value_list', 'list', 'kvl')]
    vals = {v for c in pos for v in c.get('v', ())}
    return own and pos and all(not vals or any(x.endswith(v) for v in vals) for x in m['unexpected'])


def conform(chk, name, defs, mode='sim', walks=40, wdepth=4, budget=6000, per_state=6, kinds=None, args=(), drop=()):
    states = cmdline.explore(chk, defs, name, mode=mode, walks=walks, wdepth=wdepth, seed=chk.seed)
    mism, errs, byid, qs = cmdline.replay(chk, defs, states, name, budget, per_state, args=args)
    mism = cmdline.confirm(chk, name, mism, byid, qs, args)
    for m in mism:
        f = byid[m['id']].get('findings', {}).get(m['shell'])
        if f:
            m['finding'] = f
        if m['shell'] == 'fish' and m.get('kind') == 'eqarg' and not m['missing'] and listpos_optarg(byid[m['id']], m):
            m['finding'] = 'fish:list:positional-behind-optional-argument'
    if kinds:
        mism = [m for m in mism if m.get('kind') in kinds or 'kind' not in m]
    for id, q in list(qs.items())[:2]:
        if q:
            w, t, k, exp = q[len(q) // 2][:4]
            chk.sample(dict(definition=docs.documents(byid[id]), line=' '.join([id] + list(w) + [t]), kind=k, expected=sorted(exp)))
    report(chk, [m for m in mism if m.get('kind') not in drop], errs, byid)
    chk.count('definitions', len(defs))
    return mism


def family(chk, prefix, n, seedtag, **feat):
    return [gen.Gen('%s-%s-%s-%d' % (chk.prop, seedtag, chk.seed, i), **feat).make('cc%s%d' % (prefix, i)) for i in range(n)]


def suites(chk, *l):
    """l: (tag, weight, features); the work is split between the suites."""
    chk.assumptions = list(ASSUME)
    q = chk.tier == 'quick'
    total = sum(w for _, w, _ in l)
    for tag, w, feat in l:
        n = max(3, ((40 if chk.prop not in ('C06', 'C08') else 26) if q else 400) * w // total)
        rounds = 1 if q else 4
        for r in range(rounds):
            defs = family(chk, tag, n // rounds, '%s%d' % (tag, r), **feat)
            conform(chk, '%s%d' % (tag, r), defs, walks=30 if q else 120, wdepth=4 if q else 6,
                    budget=200 * len(defs) * (1 if q else 3), per_state=6 if q else 10)
    small(chk)


def small(chk):
    """Small definitions, all states up to a depth (breadth first)."""
    q = chk.tier == 'quick'
    f = SMALL[chk.prop]
    n = 8 if q else 64
    defs = family(chk, 's', n, 'small', **dict(dict(nopts=(2, 3), npos=(1, 2), subs=0.0, argwords=0.1), **f))
    for d in defs:
        d['depth'] = 2 if q else 3
    conform(chk, 'small', defs, mode='bfs', budget=300 * n * (1 if q else 4), per_state=12)


SMALL = {
    'C01': dict(rep=0.5, repcfg=0.3, two=0.9),
    'C02': dict(groups=0.9, nopts=(3, 3)),
    'C03': dict(final=0.5),
    'C04': dict(hidden=0.5),
    'C05': dict(when=1.0, nopts=(3, 3)),
    'C06': dict(subs=1.0, depth2=0.5, nsubs=(2, 2), nopts=(1, 2)),
    'C07': dict(poss=1.0, npos=(2, 3), dashdash=1.0),
    'C08': dict(arg=0.9, opt=0.4, old=0.4),
}


def C01(chk):
    suites(chk, ('a', 3, dict(rep=0.5, two=0.8)), ('b', 2, dict(rep=0.5, repcfg=0.7)), ('g', 2, dict(rep=0.3, groups=0.6, two=1.0, more=0.5)),
           ('c', 2, dict(rep=0.4, subs=0.8, inh=0.5, old=0.3)))


def C02(chk):
    suites(chk, ('a', 3, dict(groups=0.8, nopts=(4, 7))), ('b', 2, dict(groups=0.7, hidden=0.2, rep=0.4, nopts=(4, 6))),
           ('c', 2, dict(groups=0.8, subs=0.8, inh=0.5)))


def C03(chk):
    suites(chk, ('a', 3, dict(final=0.3)), ('b', 2, dict(final=0.3, groups=0.3, hidden=0.2, rep=0.4)),
           ('c', 3, dict(final=0.3, subs=0.8, inh=0.5)))


def C04(chk):
    suites(chk, ('a', 3, dict(hidden=0.4, arg=0.6)), ('b', 2, dict(hidden=0.4, groups=0.4, final=0.1, when=0.3)),
           ('c', 2, dict(hidden=0.4, subs=0.8, inh=0.5)))


def C05(chk):
    suites(chk, ('a', 4, dict(when=0.9, arg=0.5, nopts=(4, 6))), ('b', 2, dict(poswhen=0.9, when=0.4, poss=1.0)),
           ('c', 2, dict(when=0.8, subs=0.6, poswhen=0.3, alias=0.5)))


def C06(chk):
    suites(chk, ('a', 3, dict(subs=1.0, depth2=0.6, alias=0.6)), ('b', 3, dict(subs=1.0, abbrC=0.8, depth2=0.4)),
           ('c', 3, dict(subs=1.0, inh=1.0, depth2=0.5)), ('d', 1, dict(subs=1.0, nopts=(5, 8), depth2=0.6)))


def C07(chk):
    suites(chk, ('a', 4, dict(poss=1.0, dashdash=0.7, npos=(1, 4))), ('b', 3, dict(poss=0.9, subs=0.8, dashdash=0.5, possubs=0.8)),
           ('c', 1, dict(poss=1.0, dashdash=0.6, arg=0.8, opt=0.5, old=0.3)))


def C08(chk):
    suites(chk, ('a', 3, dict(arg=0.8, opt=0.3, argwords=1.0)), ('b', 2, dict(arg=0.8, opt=0.4, old=0.5)),
           ('c', 1, dict(arg=0.8, sep=0.7)), ('d', 1, dict(arg=0.8, sepcfg=0.9)), ('e', 1, dict(arg=0.7, nostack=1.0)),
           ('f', 1, dict(arg=0.7, abbrO=1.0, long=0.9)), ('g', 1, dict(arg=0.7, subs=0.7, inh=0.5)))
