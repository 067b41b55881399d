"""Writes MANIFEST.json from the registered checks (run by hand when checks are added)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
reg = set(re.findall(r"'(C\d\d)'", open(os.path.join(ROOT, 'kmv', 'registry.py')).read()))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        t = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'bash check.sh ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': t['technique'], 'level': 'model_checking', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every property is observed through the public API. Repairs of genuine defects '
              'are the fix: commits listed in known_findings.txt.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
