"""Abstract definitions (what the specification reads) -> definition documents for crazy-complete."""
import json


def quote_when(s):
    if s and all(c.isalnum() or c in '-_=.,/+%@:' for c in s):
        return s
    return "'" + s + "'" if "'" not in s else '"' + s + '"'


def when_str(w):
    """&& and || have the same precedence and group to the left, as in the shells."""
    op = w['op']
    if op in ('and', 'or'):
        r = when_str(w['r'])
        return '%s %s %s' % (when_str(w['l']), {'and': '&&', 'or': '||'}[op], '(%s)' % r if w['r']['op'] in ('and', 'or') else r)
    if op == 'not':
        r = when_str(w['l'])
        return '! (%s)' % r if w['l']['op'] in ('and', 'or', 'not') else '! ' + r
    if op == 'has_option':
        return 'has_option ' + ' '.join(w['opts'])
    if op == 'option_is':
        return 'option_is %s%s%s -- %s' % ('any ' if w['any'] else '', 'nocase ' if w['nocase'] else '',
                                          ' '.join(w['opts']), ' '.join(quote_when(v) for v in w['vals']))
    if op == 'option_match':
        return 'option_match %s%s%s -- %s' % ('any ' if w['any'] else '', 'nocase ' if w['nocase'] else '',
                                             ' '.join(w['opts']), quote_when(w['re']))
    if op == 'positional_count':
        return 'positional_count %s %d' % (w['cmp'], w['n'])
    if op == 'positional_contains':
        return 'positional_contains %s%d %s' % ('-i ' if w['nocase'] else '', w['n'],
                                               ' '.join(quote_when(v) for v in w['vals']))
    raise ValueError(op)


def comp_doc(c):
    """The completer as written in a definition.  c['d'] (descriptions) selects the dictionary forms."""
    k = c['k']
    desc = c.get('d')
    words = lambda: c['v'] if not desc else dict(zip(c['v'], desc))
    if k == 'choices':
        return ['choices', words()]
    if k == 'none':
        return ['none']
    if k == 'exec':
        return [c.get('cmd', 'exec'), "printf '%s\\n' " + ' '.join("'" + v.replace("'", "'\\''") + "'" for v in c['v'])]
    if k == 'range':
        return ['range', c['a'], c['b']] + ([c['s']] if c['s'] != 1 or c.get('explicit') else [])
    if k in ('integer', 'float'):
        return [k, {'suffixes': {s: 'suffix ' + s for s in c['suf']}}] if c['suf'] else [k]
    if k == 'combine':
        return ['combine', [comp_doc(x) for x in c['cs']]]
    if k == 'prefix':
        return ['prefix', c['p'], comp_doc(c['c'])]
    opts = {}
    if k in ('value_list', 'list') and (c['sep'] != ',' or c.get('explicit')):
        opts['separator'] = c['sep']
    if c.get('dup'):
        opts['duplicates'] = True
    if k == 'value_list':
        return ['value_list', dict(values=words(), **opts)]
    if k == 'list':
        return ['list', comp_doc(c['c'])] + ([opts] if opts else [])
    keys = []
    for x in c['keys']:
        e = [('*' if x['rep'] and k == 'kvl' else '') + x['k'], x.get('d') or None, comp_doc(x['c']) if x['arg'] else None]
        if x['excl']:
            e.append(x['excl'])
        keys.append(e)
    if k == 'kvp':
        return ['key_value_pair', c['vsep'], keys]
    if k == 'kvl':
        return ['key_value_list', c['psep'], c['vsep'], keys]
    raise ValueError(k)


def opt_doc(o):
    d = {'option_strings': o['s']}
    if o['arg'] != 'none':
        d['complete'] = comp_doc(o['comp'])
        d['metavar'] = o.get('metavar') or 'ARG'
    if o['arg'] == 'opt':
        d['optional_arg'] = True
    if o['rep'] != 'I':
        d['repeatable'] = o['rep'] == 'T'
    for k in ('final', 'hidden'):
        if o[k]:
            d[k] = True
    if o['groups']:
        d['groups'] = o['groups']
    if o['when']['op'] != 'true':
        d['when'] = when_str(o['when'])
    if o['sep'] != 'I':
        d['long_opt_arg_sep'] = o['sep']
    for k in ('help', 'capture', 'nosort'):
        if o.get(k):
            d[k] = o[k]
    return d


def pos_doc(p):
    d = {'number': p['n'], 'complete': comp_doc(p['comp'])}
    if p['rep']:
        d['repeatable'] = True
    if p['when']['op'] != 'true':
        d['when'] = when_str(p['when'])
    for k in ('help', 'capture', 'nosort', 'metavar'):
        if p.get(k):
            d[k] = p[k]
    return d


def cmd_path(d, i):
    """prog of command i (1-based)"""
    c = d['cmds'][i - 1]
    return d['id'] if i == 1 else cmd_path(d, c['parent']) + ' ' + c['name']


def documents(d):
    r = []
    for i, c in enumerate(d['cmds'], 1):
        x = {'prog': cmd_path(d, i)}
        if c.get('help'):
            x['help'] = c['help']
        if c['aliases']:
            x['aliases'] = c['aliases']
        for k, a in (('abbrC', 'abbreviate_commands'), ('abbrO', 'abbreviate_options'), ('inh', 'inherit_options')):
            if c[k] != 'I':
                x[a] = c[k] == 'T'
        if c['opts']:
            x['options'] = [opt_doc(o) for o in c['opts']]
        if c['poss']:
            x['positionals'] = [pos_doc(p) for p in c['poss']]
        r.append(x)
    return r


def to_yaml(docs):
    """JSON is YAML."""
    return '\n---\n'.join(json.dumps(x, ensure_ascii=False) for x in docs) + '\n'


def to_json(docs):
    return json.dumps(docs, ensure_ascii=False)


def cfg_args(cfg):
    a = []
    if cfg['abbrC']: a.append('--abbreviate-commands=True')
    if cfg['abbrO']: a.append('--abbreviate-options=True')
    if cfg['rep']: a.append('--repeatable-options=True')
    if cfg['inh']: a.append('--inherit-options=True')
    if cfg['sep'] != 'both': a.append('--long-option-argument-separator=' + cfg['sep'])
    if not cfg['stack']: a.append('--option-stacking=False')
    if cfg['disable']: a.append('--disable=' + ','.join(cfg['disable']))
    return a
