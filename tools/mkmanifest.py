"""Write MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in PLAN:
        checks.append({
            'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
            'technique': 'TLA+ specification: TLC design models, replay of generated behaviours, trace validation',
            'level': 'model_checking', 'level_note': NOTES[i]})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'the check is not built yet'} for p in props if p['id'] not in PLAN]}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
