"""Conformance of generated scripts with spec/CmdLine.tla."""
import json, os, random, re
import core, docs, shells

CFG = '''SPECIFICATION Spec
CONSTANT EmitFile = "%s"
INVARIANTS %s EmitC
%s
CHECK_DEADLOCK FALSE
'''
INVS = 'InvC01 InvC02 InvC03 InvC04 InvC05 InvC06 InvC07 InvC08'
PROPS = 'PROPERTIES StepC06 StepC07 StepMono'


def explore(chk, defs, name, mode='bfs', walks=200, wdepth=5, seed=1):
    """Run TLC over the definitions; returns {def id: [(words, [(token, kind, set)])]}"""
    for d in defs:
        d['rich'] = any(x['comp']['k'] not in ('choices', 'none') for c in d['cmds'] for x in c['opts'] + c['poss'])
    def one(ic):
        i, ch = ic
        f = '%s/%s_%d' % (chk.dir, name, i)
        with open(f + '.json', 'w') as fh:
            json.dump(ch, fh)
        extra = []
        props = PROPS
        if mode == 'sim':
            extra = ['-simulate', 'num=%d' % walks, '-depth', str(wdepth + 1), '-seed', str(seed * 1000 + i)]
        out, gen, dis = core.tlc('MCCmdLine', CFG % (f + '.out', INVS, props), chk.dir, '%s_%d' % (name, i),
                                 env={'CC_DEFS': f + '.json'}, extra=extra)
        r = []
        seen = set()
        with open(f + '.out', encoding='utf-8') as fh:
            for l in fh:
                if l in seen:
                    continue
                seen.add(l)
                r.append(json.loads(l))
        os.unlink(f + '.out')
        return r, gen, dis
    res = {}
    for r, gen, dis in core.pmap(one, enumerate(core.chunks(defs, core.NCPU))):
        chk.states += dis
        chk.transitions += gen
        for x in r:
            res.setdefault(x['d'], []).append((x['w'], x['q'], frozenset(x['x'])))
    return res


def select(states, rng, max_states, per_state):
    """Choose states and tokens to replay (all if they fit)."""
    # TLC emits sets in an unspecified order: sort first, so that the choice depends on the seed only
    states = sorted(states, key=lambda s: (len(s[0]), s[0]))
    if len(states) > max_states:
        head = [s for s in states if len(s[0]) <= 1]
        if len(head) > max_states // 2:
            head = rng.sample(head, max_states // 2)
        ids = set(id(s) for s in head)
        rest = [s for s in states if id(s) not in ids]
        states = head + rng.sample(rest, min(len(rest), max_states - len(head)))
    out = []
    for w, q, x in states:
        q = sorted((y for y in q if y[1] != 'skip'), key=lambda y: (y[0], y[1]))
        must = [y for y in q if y[0] in ('', '-')]
        rest = [y for y in q if y[0] not in ('', '-')]
        if len(rest) > per_state:
            rest = rng.sample(rest, per_state)
        for t, kind, c, may, skip, eq, sep, dup in must + rest:
            out.append((tuple(w), t, kind, frozenset(c), frozenset(may), x | frozenset(skip), frozenset(eq), dict(sep), frozenset(dup)))
    return out


SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_=./,+%@:')


def shword(w):
    if w and all(c in SAFE or c in '?#^~' and w[0] == '-' for c in w):
        return w    # options with unusual letters are typed as they are: -?
    return "'" + w.replace("'", "'\\''") + "'"


def norm(kind, token, full, known=()):
    s = set()
    for c in full:
        if kind == 'opts':
            if c.endswith('=') and c.startswith('-'):
                c = c[:-1]
            if '\\' in c:     # zsh quotes special characters of an option itself
                c = re.sub(r'\\(.)', r'\1', c)
        elif not token.startswith('-') and c.startswith('-') and c not in known:
            continue    # options offered because nothing else is (zsh)
        if c.startswith(token):
            s.add(c)
    return s


def scripts(chk, defs, name, shs=('bash', 'fish', 'zsh'), args=(), fmt=None, rng=None):
    """Generate the scripts of all definitions; returns {(id, shell): path}, failures"""
    d = '%s/%s' % (chk.dir, name)
    os.makedirs(d, exist_ok=True)
    tasks, paths = [], {}
    for i, x in enumerate(defs):
        f = fmt or ('yaml' if i % 3 else 'json')
        src = '%s/%s.%s' % (d, x['id'], f)
        cfg = docs.cfg_args(x['cfg'])
        if x.get('source'):
            src, cfg = x['source']
        else:
            with open(src, 'w') as fh:
                dd = docs.documents(x)
                fh.write(docs.to_yaml(dd) if f == 'yaml' else docs.to_json(dd))
        for sh in shs:
            if sh not in x['shells']:
                continue
            out = '%s/%s.%s.comp' % (d, x['id'], sh)
            a = args(x) if callable(args) else list(args)
            tasks.append((list(cfg) + list(a), src, sh, out))
            paths[x['id'], sh] = out
    bad = core.generate(tasks, d)
    return paths, bad


def run_shells(chk, name, plan, groups=None):
    """plan: {shell: [(def id, script, prog, [lines], extra job dict)]} -> {(shell, def id): [records]}"""
    work = []
    for sh, jobs in plan.items():
        nq = sum(len(j[3]) for j in jobs)
        n = {'bash': 3, 'fish': 3, 'zsh': 4}[sh]
        if nq < 300: n = 1
        # balance by number of queries
        bins = [[0, []] for _ in range(n)]
        for j in sorted(jobs, key=lambda j: -len(j[3])):
            b = min(bins, key=lambda b: b[0])
            b[0] += len(j[3])
            b[1].append(j)
        for b in bins:
            if b[1]:
                work.append((sh, b[1]))
    def one(iw):
        i, (sh, jobs) = iw
        wd = '%s/%s_%s_%d' % (chk.dir, name, sh, i)
        os.makedirs(wd, exist_ok=True)
        r = shells.RUN[sh]([dict({'script': j[1], 'prog': j[2], 'queries': j[3]}, **(j[4] if len(j) > 4 else {})) for j in jobs], wd)
        err = ''
        for f in ('fd3', 'stderr'):
            if os.path.exists(wd + '/' + f):
                err += open(wd + '/' + f, errors='replace').read()
        return sh, [(j[0], x) for j, x in zip(jobs, r)], err
    res, errs = {}, {}
    for sh, l, err in core.pmap(one, enumerate(work)):
        for id, x in l:
            res[sh, id] = x
        e = [x for x in err.split('\n') if x and x != 'D']
        errs.setdefault(sh, []).extend(e)
    return res, errs


def replay(chk, defs, states, name, budget, per_state, args=(), differs=None):
    """Replay sampled states into the real shells; returns list of mismatches."""
    rng = chk.rng(name)
    paths, bad = scripts(chk, defs, name, args=args)
    byid = {d['id']: d for d in defs}
    mism = []
    for (a, src, sh, out), err in bad:
        mism.append(dict(what='a valid definition is rejected by %s' % sh, file=src, error=err, shell=sh, id=os.path.basename(src).split('.')[0]))
    badids = {m['id'] for m in mism}
    share = max(20, budget // max(1, len(defs)))
    plan, qs = {}, {}
    for d in defs:
        if d['id'] in badids or d['id'] not in states:
            continue
        q = select(states[d['id']], rng, max(8, share // (per_state + 2)), per_state)
        rng.shuffle(q)
        q = q[:share]
        qs[d['id']] = q
        for sh in d['shells']:
            lines = [' '.join([d['id']] + [shword(w) for w in ws] + [t]) for ws, t, k, c, m, x, eq, sep, dup in q]
            plan.setdefault(sh, []).append((d['id'], paths[d['id'], sh], d['id'], lines))
    res, errs = run_shells(chk, name, plan)
    for (sh, id), recs in sorted(res.items()):
        for (ws, t, kind, exp, may, excl, eq, sep, dup), rec in zip(qs[id], recs):
            if sh in excl:
                continue
            chk.queries += 1
            got = norm(kind, t, rec['full'], exp | may)
            if sep:
                # key-value completers: fish puts the separator behind a key that takes a value
                withsep = {k + v for k, v in sep.items()}
                gotsep = got & withsep if sh == 'fish' else {c + x for c, x in zip(rec['full'], rec['suf']) if x} & withsep if sh == 'zsh' else withsep
                if gotsep != withsep:
                    mism.append(dict(what='separator', shell=sh, id=id, words=list(ws), token=t, kind='kvsep',
                                     missing=sorted(withsep - gotsep), unexpected=[], full=sorted(set(rec['full']))))
                got = {g[:-1] if g in withsep else g for g in got}
            if kind == 'shortopt' and sh == 'fish':
                # fish also offers further flags: an optional argument may be absent
                got -= {x for x in got - exp if len(x) == len(t) + 1}
            if sh == 'zsh' and got & dup and exp <= got <= exp | may | dup:
                mism.append(dict(what='candidates', shell=sh, id=id, words=list(ws), token=t, kind='listdup',
                                 missing=[], unexpected=sorted(got - exp - may), full=sorted(set(rec['full']))))
            elif not (exp <= got <= exp | may):
                if differs and differs(byid[id], sh, ws, t, kind, exp, got):
                    continue
                mism.append(dict(what='candidates', shell=sh, id=id, words=list(ws), token=t, kind=kind,
                                 missing=sorted(exp - got), unexpected=sorted(got - exp - may), full=sorted(set(rec['full']))))
            elif kind == 'opts' and sh != 'fish':
                if sh == 'bash':
                    goteq = {c[:-1] for c in rec['full'] if c.endswith('=') and c.startswith('-')}
                else:
                    goteq = {c for c, x in zip(rec['full'], rec['suf']) if x == '='}
                goteq &= exp
                if goteq != eq:
                    mism.append(dict(what='separator', shell=sh, id=id, words=list(ws), token=t, kind='eq',
                                     missing=sorted(eq - goteq), unexpected=sorted(goteq - eq), full=sorted(set(rec['full']))))
    chk.traces += sum(len({x[0] for x in q}) for q in qs.values())
    return mism, errs, byid, qs


def confirm(chk, name, mism, byid, qs, args=(), limit=60):
    """Ask mismatching queries again in fresh shells, one by one; keep those that give the same answer."""
    out, plan = [], []
    for m in mism[:limit]:
        if 'token' not in m:
            out.append(m)
        else:
            plan.append(m)
    if not plan:
        return out
    defs = [byid[i] for i in sorted({m['id'] for m in plan})]
    paths, bad = scripts(chk, defs, name + '_confirm', args=args)
    def one(im):
        i, m = im
        line = ' '.join([m['id']] + [shword(w) for w in m['words']] + [m['token']])
        wd = '%s/%s_confirm_%d' % (chk.dir, name, i)
        os.makedirs(wd, exist_ok=True)
        rec = shells.RUN[m['shell']]([dict(script=paths[m['id'], m['shell']], prog=m['id'], queries=[line])], wd)[0][0]
        return rec
    for m, rec in zip(plan, core.pmap(one, enumerate(plan))):
        if sorted(set(rec['full'])) == m['full'] or m['full'] is None:
            out.append(m)
    return out
