#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = '%s/vf/checks/%s.py' % (V, p['id'].lower())
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='check not built yet')); continue
    m = re.search(r"^# technique: (.*)$", open(f).read(), re.M)
    nt = re.search(r"^# level_note: (.*)$", open(f).read(), re.M)
    checks.append(dict(property=p['id'], quick_cmd='python3-vt vf/run.py %s --tier quick' % p['id'], thorough_cmd='python3-vt vf/run.py %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=m.group(1) if m else 'property-based testing with generated inputs against a reference model',
                       level='exploration', level_note=nt.group(1) if nt else 'generated-input search; assurance is limited to the cases generated'))
json.dump(dict(version=1, setup_cmd='python3-vt vf/build.py complex',
               hooks=dict(guard='none', enable='no hooks: the checks compile the unmodified sources', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='Property-based testing: deterministic generators seeded by VERIF_SEED, explicit oracles, shrinking, replay files under replays/. See DESIGN.md.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
