"""C10: choices are offered literally (spec/Choices.tla)."""
import json, os, re, subprocess
import core, shells, cmdline, docs

CFG = '''SPECIFICATION Spec
CONSTANTS EmitFile = "%s"
MaxLen = %d
INVARIANTS Literal Ordered Narrows Reaches Emit
CHECK_DEADLOCK FALSE
'''
ATOMS = ['a', 'b', 'ab', 'foo', 'x1', 'Z', ' ', ' b', "'", '"', '$HOME', '$', '`>canary`', '$(>canary)', '\\', '\\\\', '\\n', ':', ':a', '[', ']', '[a]', '*', '?', '~', '#', ';', '&', '|', '<', '>',
         '(', ')', '{a,b}', '}', '!', '!!', '%', '%s', '%d', '=', '=a', ',', '@', '^', '+', '-', '--x', '.', '/', 'ü', '漢', '✓', "''", "'x'", '"y"', '$1', '${a}', "$'\\t'", '\\:', '\\$', '--', '-n', '0', '\\t', '[[', '~root']
TEXTS = ['Some help', ' ', "it's", '"quoted"', '$HOME', '`>canary`', '$(>canary)', '\\', ':', 'foo:bar', '[x]', '(y)', '*', '%s', ';', '>canary', '|', "'", '"', 'ü漢', '-', '#', '{a,b}', '!', '&', '(>canary)', "$'\\n'", '\\n', '\\t']
FILL = ['%s%d' % ('fill' * 30, i) for i in range(8)]


def typed_word(sh, style, t):
    """The text a user types for the beginning t of a word."""
    if style == 'bare':
        return re.sub(r'([^\w./:=,@%+-]|^=)', r'\\\1', t)
    q = {'single': "'", 'double': '"'}[style]
    if style == 'double':
        t = re.sub(r'(["$\\`])' if sh != 'fish' else r'(["$\\])', r'\\\1', t)
    elif sh == 'fish':
        t = t.replace('\\', '\\\\')
    return q + t


def typeable(sh, form, style, t, items):
    """What is not claimed: quoting inside quotes, and what the shells' own completion libraries get wrong."""
    if style != 'bare' and form in ('--opt=w', '-ow'): return False
    if sh == 'fish' and re.search(r'[*?]', t): return False
    if sh == 'fish' and t.startswith('-') and form not in ('--opt=w', '-ow'): return False
    if style == 'single' and "'" in t: return False
    if sh == 'zsh' and (style == 'single' and any("'" in w for w in items) or style == 'double' and any(c in w for w in items for c in '$\\')): return False
    if style != 'bare' and sh == 'bash' and ('\\' in t or re.search(r'\s', t) or "'" in t): return False
    return True


def line(form, w):
    return 'ccx ' + {'--opt w': '--opt ', '--opt=w': '--opt=', '-o w': '-o ', '-ow': '-o', 'pos': ''}[form] + w


def evaluate(sh, words, wd):
    """The arguments the shell itself makes of words."""
    if not words:
        return []
    pre = 'p() { if (( $# == 1 )); then printf "%s\\0" "$1"; else printf "%s\\0" "($# words: $*)"; fi; }\n'
    if sh == 'zsh':
        pre = 'setopt nonomatch\n' + pre
    f = '%s/eval.%s' % (wd, sh)
    with open(f, 'w', errors='surrogateescape') as fh:
        fh.write(pre)
        for w in words:
            fh.write('eval %s || printf "%%s\\0" "(error)"; printf "\\1\\0"\n' % shells.sq('p ' + w))
    os.makedirs(wd + '/ev', exist_ok=True)
    p = subprocess.run([sh] + (['-f', '-o', 'extendedglob'] if sh == 'zsh' else ['--norc', '--noprofile']) + [f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, cwd=wd + '/ev', env=shells.base_env(wd), timeout=300)
    r = [x[:-1].replace('\0', ' ; ') for x in p.stdout.decode('utf-8', 'surrogateescape').split('\1\0')[:-1]]
    if len(r) != len(words):
        raise core.HarnessError('%s evaluated %d of %d words' % (sh, len(r), len(words)))
    return r


def C10(chk):
    q = chk.tier == 'quick'
    chk.assumptions = ['the completion systems of the installed bash, fish and zsh', 'readline inserts COMPREPLY words as they are']
    inp = chk.dir + '/in.json'
    with open(inp, 'w') as fh:
        json.dump(dict(atoms=ATOMS, texts=TEXTS), fh)

    def sim(i):
        o = '%s/ch%d' % (chk.dir, i)
        r = core.tlc('Choices', CFG % (o, 7), chk.dir, 'ch%d' % i, env=dict(CC_CHOICES=inp),
                     extra=['-simulate', 'num=%d' % (450 if q else 4000), '-depth', '9', '-seed', str(chk.seed * 100 + i)])
        return r, [json.loads(l) for l in sorted(set(open(o, encoding='utf-8')))]
    hs = []
    for (_, g, _), h in core.pmap(sim, range(2 if q else 4)):
        chk.states += g
        chk.transitions += g
        hs += h
    hs = chk.rng('pick').sample(hs, min(len(hs), 420 if q else 9000))
    defs = []
    for i, h in enumerate(hs):
        d = h['def']
        items = d['items'] + (FILL if d['long'] else [])
        comp = ['choices', {w: t for w, t in zip(items, d['descs'] + [''] * len(FILL))} if d['dict'] else items]
        e = dict(complete=comp, **(dict(nosort=True) if d['nosort'] else {}))
        doc = dict(prog='ccx', aliases=['ccy']) if i % 3 else dict(prog='ccy', aliases=['ccx', 'ccz'])
        if h['form'] == 'pos': doc['positionals'] = [dict(e, number=1, **(dict(repeatable=True) if i % 2 else {}))]
        else: doc['options'] = [dict(e, option_strings=['-o', '--opt'], metavar='W')]
        defs.append(doc)
    d = chk.dir + '/d'
    os.makedirs(d)
    tasks, plan = [], {'bash': [], 'fish': [], 'zsh': []}
    cw = chk.dir + '/cw'
    os.makedirs(cw)
    for i, (h, doc) in enumerate(zip(hs, defs)):
        f = '%s/%d.%s' % (d, i, 'json' if i % 2 else 'yaml')
        with open(f, 'w') as fh:
            fh.write(docs.to_json([doc]) if i % 2 else docs.to_yaml([doc]))
        for sh in plan:
            out = '%s/%d.%s.comp' % (d, i, sh)
            tasks.append(([], f, sh, out))
            seen = []
            for x in h['hist']:
                t = x['typed']
                if typeable(sh, h['form'], h['style'], t, h['def']['items']):
                    l = line(h['form'], typed_word(sh, h['style'], t))
                    if l not in [y[0] for y in seen]:
                        seen.append((l, t, x['offered'] + ([w for w in FILL if w.startswith(t)] if h['def']['long'] else [])))
            if seen:
                plan[sh].append((i, out, 'ccx', [y[0] for y in seen], dict(cwd=cw), seen))
    bad = core.generate(tasks, d)
    for t, err in bad:
        chk.violation('generate', 'no script for %s: %s' % (open(t[1]).read(), err))
    failed = {(t[1], t[2]) for t, _ in bad}
    if failed:
        return
    res, errs = cmdline.run_shells(chk, 'r', {s: [j[:5] for j in js] for s, js in plan.items()})
    for sh, e in errs.items():
        for l in e[:3]:
            chk.violation('stderr:' + sh, '%s: %s' % (sh, l))
    for sh, jobs in plan.items():
        words, where = [], []
        for j in jobs:
            for n, (l, t, exp) in enumerate(j[5]):
                r = res[sh, j[0]][n]
                chk.queries += 1
                p = {'--opt=w': '--opt=', '-ow': '-o'}.get(hs[j[0]]['form'], '')
                got = r['full']
                if sh == 'fish':    # fish also offers words that contain what has been typed
                    got = [g for g in got if g.startswith(p + t)]
                style = hs[j[0]]['style']
                where.append((j[0], l, t, exp, p, r, len(got)))
                c = {'bare': '', 'single': "'", 'double': '"'}[style]
                # inside an open quote; the shell closes it
                words += got if sh == 'fish' else [c + g + c for g in got]
        ev = words if sh == 'fish' else evaluate(sh, words, chk.dir)
        at = 0
        for i, l, t, exp, p, r, n in where:
            got = ev[at:at + n]
            at += n
            e = [p + w for w in exp]
            if hs[i]['style'] == 'double' and sh == 'zsh':      # a bang in double quotes depends on the shell being interactive
                e, got = [w for w in e if '!' not in w], [w for w in got if '!' not in w]
            known = [g for g in got if not (g.startswith('-') and not e and not p)]
            if hs[i]['form'] == 'pos' and t == '': known = [g for g in known if not g.startswith('-')]
            key = None
            if sorted(set(known)) != sorted(set(e)): key = 'words'
            elif hs[i]['def']['nosort'] and sh == 'zsh' and 'nosort' not in r['order'] and e: key = 'order'
            elif hs[i]['def']['nosort'] and (sh == 'fish' or sh == 'zsh' and not hs[i]['def']['dict']) and list(dict.fromkeys(known)) != e: key = 'order'
            elif hs[i]['def']['nosort'] and sh == 'bash' and e and (known != e or 'nosort' not in r['opts']): key = 'order'
            if key:
                miss, extra = sorted(set(e) - set(known)), sorted(set(known) - set(e))
                chk.violation('%s:%s' % (sh, key), '%s: "%s": %s; missing %s, surplus %s' % (sh, l, key, miss[:6], extra[:6]),
                              dict(definition=defs[i], line=l, expected=e, got=known, raw=r))
            else:
                chk.count('words accepted', len(e))
            chk.sample(dict(shell=sh, line=l, offered=e[:6]))
        chk.traces += len(jobs)
    left = [f for r, _, fs in os.walk(chk.dir) for f in fs if 'canary' in f]
    if left:
        chk.violation('canary', 'text of an item or a description was executed: %s' % left[:3])
