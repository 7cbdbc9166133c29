"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read(), TECH)
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'mc', 'checks', p.lower() + '.py')):
        tech, note = TECH['NOTES'][p]
        checks.append(dict(property=p, quick_cmd='bin/check ' + p, thorough_cmd='VERIF_TIER=thorough bin/check ' + p,
                           evidence_file='evidence/{}.json'.format(p), technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=p, reason='no check built yet'))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='All checks execute the real code imported from /repo/src (stateless model checking); see DESIGN.md. No hooks in /repo.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
