"""Replay histories on the library: FILE holds {files, sets, hist}; objects are kept between operations.
Writes [[result text or null, problem or null], ...] to FILE.res."""
import json, sys
repo, path = sys.argv[1:3]
sys.path.insert(0, repo)
from crazy_complete import bash, fish, zsh, config, yaml_source, json_source, cli
GEN = dict(bash=bash, fish=fish, zsh=zsh)
job = json.load(open(path))


def conf(s):
    c = config.Config()
    for k, v in s.items():
        getattr(c, k)(v)
    return c


CONF = [conf(s) for s in job['sets']]      # shared between generations


def dump(x, seen=()):
    if isinstance(x, (str, int, float, bool, type(None))):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [dump(y, seen) for y in x]
    if isinstance(x, dict):
        return ['dict'] + [[dump(k, seen), dump(v, seen)] for k, v in x.items()]
    if id(x) in seen:
        return 'loop'
    return [type(x).__name__] + [[k, dump(v, seen + (id(x),))] for k, v in sorted(vars(x).items()) if k != 'parent'] + [
        'parent' if getattr(x, 'parent', None) is not None else 'root']


res = []
objs = []
for op in job['hist']:
    before = [dump(o) for o in objs]
    cbefore = dump(CONF)
    text = problem = None
    try:
        if op['op'] == 'load':
            f = job['files'][op['f'] - 1]
            objs.append((json_source if f.endswith('.json') else yaml_source).load_from_file(f))
        else:
            o, t = objs[op['f'] - 1], op['t']
            if t == 'yaml': text = yaml_source.commandline_to_yaml(o)
            elif t == 'json': text = json_source.commandline_to_json(o)
            else: text = GEN[t].generate_completion(o, CONF[op['s'] - 1])
    except Exception as e:
        problem = 'exception: %s: %s' % (type(e).__name__, e)
    for i, (a, o) in enumerate(zip(before, objs)):
        if dump(o) != a:
            problem = 'the CommandLine object has been changed'
    if dump(CONF) != cbefore:
        problem = 'the configuration has been changed'
    res.append([text, problem])
json.dump(res, open(path + '.res', 'w'))
