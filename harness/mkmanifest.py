"""Write MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = [i for ids in run.MODULES.values() for i in ids.split()]
TECH = json.load(open(V + '/harness/technique.json'))
NA = {}
checks = []
for p in props:
    if p['id'] in claimed:
        t = TECH.get(p['id']) or TECH['default']
        checks.append(dict(property=p['id'], quick_cmd='python3 harness/run.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 harness/run.py %s --tier thorough' % p['id'],
                           technique=t[0], level='model_checking', level_note=t[1]))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'its check is not built yet')) for p in props if p['id'] not in claimed]
m = dict(version=1, setup_cmd='python3 harness/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ (TLC). See DESIGN.md. No hooks in /repo: everything is observed from outside.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
