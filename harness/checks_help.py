"""C24: definitions made from help texts (spec/HelpText.tla)."""
import json, os, re
import core

CFG = '''SPECIFICATION Spec
CONSTANTS EmitFile = "%s"
MaxLen = %d
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
'''
NAMES = [['-a'], ['-b', '--bold'], ['--color', '--colour'], ['-c', '--count', '--counter'], ['--dry-run'], ['-1'], ['-?', '--help'], ['-h'], ['-old-style'], ['--with_underscore'],
         ['-V', '--version'], ['--x'], ['-x'], ['-o', '--output'], ['--output-file'], ['-#', '--hash'], ['--opt.with.dots'], ['-@'], ['--no-color'], ['-W'], ['-Wall', '-Wextra'], ['--a:b'], ['-I'],
         ['--ünïcode'], ['-v', '-vv', '-vvv'], ["--it's"], ['--per%cent'], ['--back\\slash'], ['--at{brace}'], ['--dollar$x'], ['--quote"d'], ['--under+plus'], ['-+']]
METAS = [dict(text=t, meta=m) for t, m in [
    ('FILE', 'FILE'), ('<file>', 'file'), ('<foo bar>', 'foo bar'), ('{a,b,c}', '{a,b,c}'), ('{a|b}', '{a|b}'), ('WHEN', 'WHEN'), ('NUM', 'NUM'), ('(x|y)', '(x|y)'), ('dir', 'dir'),
    ('CMD', 'CMD'), ('a.b/c:d', 'a.b/c:d'), ('N...', 'N...'), ('"quoted string"', '"quoted string"'), ("'x'", "'x'"), ('<a>=<b>', '<a>=<b>'), ('KEY=VALUE', 'KEY=VALUE'),
    ('auto|always|never', 'auto|always|never'), ('x,y', 'x,y'), ('user', 'user'), ('SIGNAL', 'SIGNAL'), ('Ä', 'Ä'), ('%d', '%d'), ('<host>[:<port>]', '<host>[:<port>]'), ('pid', 'pid'), ('PROGRAM', 'PROGRAM'),
    ('seconds', 'seconds'), ('<directory>', 'directory'), ('{one}', '{one}'), ('\\n', '\\n'), ('#', '#'), ('group', 'group'), ('bits', 'bits'), ('DURATION', 'DURATION')]]
TEXTS = ['Show this help', 'be verbose', 'text with "quotes" and \'single\'', 'colon: and # hash', 'back\\slash \\n', 'ends with hyphen-', '(default: 10)', '[optional]', 'a, b and c', '-x is meant',
         '--long=also', 'ünïcode 漢字', 'see foo(1)', 'percent %s $HOME `x`', 'a  b', '* bullet', 'tab\there', '{braces} & <angles>', 'yes', '42', '- ', 'trailing.', '!bang', '@at', 'key: value', "'"]
TEXTS = [t for t in TEXTS if t == t.strip()]
OTHERS = ['', 'Options:', 'Some text about -x and --foo.', '   indented text', 'General options', '', 'Report bugs to <x@y.z>.', '# looks like a comment', '- a bullet', '--', '  - bullet', 'key: value', '"quote',
          '    %defines%', 'ünïcode', '\tafter a tab', '...', '-']
USAGES = [dict(text=t, prog=p) for t, p in [('Usage: ccp [OPTION]... [FILE]...', 'ccp'), ('usage: ccp [-h] [--foo FOO]', 'ccp'), ('ccp 1.0 - does things', 'ccp'), ('USAGE:\n  cc.p-2 [OPTIONS]', 'cc.p-2'),
                                            ('usage:\tccp', 'ccp'), ('Usage: "ccp" x', '"ccp"'), ('Usage: c\\p', 'c\\p'), ('cçp: do', 'cçp:')]]


def squeeze(s):
    return re.sub(r'\s+', ' ', s or '').strip()


def C24(chk):
    q = chk.tier == 'quick'
    inp = '%s/help.json' % chk.dir
    with open(inp, 'w') as fh:
        json.dump(dict(names=NAMES, metas=METAS, texts=TEXTS, others=OTHERS, usages=USAGES), fh)
    hs = []

    def sim(i):
        o = '%s/texts%d' % (chk.dir, i)
        n = [4, 5, 9, 20][i % 4]
        r = core.tlc('HelpText', CFG % (o, n), chk.dir, 'help%d' % i, env=dict(CC_HELP=inp),
                     extra=['-simulate', 'num=%d' % (40 if q else 400), '-depth', str(n + 2), '-seed', str(chk.seed * 100 + i)])
        return r, [json.loads(l) for l in sorted(set(open(o, encoding='utf-8')))] if os.path.exists(o) else []
    for (o, g, dis), x in core.pmap(sim, range(4 if q else 24)):
        chk.states += g
        chk.transitions += g
        hs += x
    hs = chk.rng('pick').sample(hs, min(len(hs), 400 if q else 12000))
    cmds = []
    for i, h in enumerate(hs):
        d = '%s/t%d' % (chk.dir, i // 200)
        os.makedirs(d, exist_ok=True)
        p = '%s/h%d.txt' % (d, i)
        t = h['text']
        if i % 3 == 0: t = t.rstrip('\n')       # the last line may end without a newline
        if i % 7 == 0: t = t.replace('\n', '\r\n')
        with open(p, 'w', encoding='utf-8', newline='') as fh:
            fh.write(t)
        cmds.append(['--input-type=help', '-o', p + '.yaml', 'yaml', p])
    res = core.clis(cmds, chk.dir, 'conv')
    conv = core.clis([['json', c[2]] for c in cmds], chk.dir, 'json')
    some = [i for i in range(len(cmds)) if i % 4 == 0]
    done = dict(zip(some, core.clis([[('bash', 'fish', 'zsh')[i // 4 % 3], '-o', cmds[i][2] + '.script', cmds[i][2]] for i in some], chk.dir, 'script')))
    scr = [done.get(i, (0, '', '')) for i in range(len(cmds))]
    for i, (h, c, r, j, s) in enumerate(zip(hs, cmds, res, conv, scr)):
        chk.traces += 1
        chk.queries += len(h['opts']) + len(h['others'])
        det = dict(text=h['text'], stderr=r[2][-800:] + j[2][-800:] + s[2][-800:])
        if r[0] != 0:
            chk.violation('crash' if r[0] != 1 else 'rejected', 'the help text is not read: ' + r[2][-300:], det)
            continue
        with open(c[2], encoding='utf-8') as fh:
            y = fh.read()
        det['yaml'] = y
        if j[0] != 0 or s[0] != 0:
            chk.violation('invalid', 'the definition made from the help text is not valid: ' + ' '.join(l for l in (j[2] + s[2]).split('\n') if 'rror' in l)[:300], det)
            continue
        d = json.loads(j[1])
        problem = None
        prog = USAGES[h['usage'] - 1]['prog']
        if len(d) != 1 or d[0]['prog'] != prog: problem = 'prog', 'the program is %r, specified %r' % (d[0]['prog'], prog)
        got = d[0].get('options') or []
        for x, o in zip(got, h['opts']):
            chk.count('option ' + ('optional' if o['optional'] else 'metavar' if o['metavar'] else 'plain'))
            if x['option_strings'] != o['strs']: problem = 'strings', 'option strings %r, specified %r' % (x['option_strings'], o['strs'])
            elif (x.get('metavar') or '') != o['metavar']: problem = 'metavar', 'metavar of %r is %r, specified %r' % (o['strs'], x.get('metavar'), o['metavar'])
            elif bool(x.get('optional_arg')) != o['optional']: problem = 'optional', 'argument of %r: optional is %r' % (o['strs'], x.get('optional_arg'))
            elif bool(x.get('complete')) != bool(o['metavar']): problem = 'argument', '%r: takes an argument is %r' % (o['strs'], bool(x.get('complete')))
            elif squeeze(x.get('help')) != squeeze(o['help']): problem = 'help', 'description of %r is %r, specified %r' % (o['strs'], x.get('help'), o['help'])
            if problem: break
        if not problem and len(got) != len(h['opts']):
            problem = 'options', '%d options, specified %d' % (len(got), len(h['opts']))
        if not problem:
            cm = [l[2:] for l in y.split('\n') if l.startswith('# ') or l == '#']
            cm = [x.rstrip() for x in cm]
            want = [x.rstrip() for x in h['others']]
            while cm and not cm[-1]: cm.pop()
            while want and not want[-1]: want.pop()
            if cm != want: problem = 'comments', 'comments %r, specified %r' % (cm, want)
        chk.count('other lines', len(h['others']))
        if problem: chk.violation(problem[0], problem[1], det)
        else: chk.sample(dict(text=h['text']))
    chk.assumptions += ['help texts are drawn by TLC; lines an option cannot be told from a description in are not among them (one blank before a description, tabs behind option strings)']
