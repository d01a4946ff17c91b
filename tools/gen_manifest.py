"""Writes MANIFEST.json from the property modules (run from /verif)."""
import importlib
import json
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, TOP)

with open(os.path.join(TOP, 'properties.jsonl')) as f:
    ids = [json.loads(ln)['id'] for ln in f]
checks, missing = [], []
for i in ids:
    if not os.path.exists(os.path.join(TOP, 'vf/props', i.lower() + '.py')):
        missing.append(dict(property=i, reason='check not built yet'))
        continue
    p = importlib.import_module('vf.props.' + i.lower()).PROP
    checks.append(dict(
        property=i, quick_cmd='./check %s' % i,
        thorough_cmd='./check %s --tier thorough' % i,
        technique=p.technique, level=p.level, level_note=p.level_note))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=missing,
         notes='Built without hooks in /repo. KNOWN_FINDINGS.txt lists the '
         'defects found and repaired.')
with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', 'missing:', [x['property'] for x in missing])
