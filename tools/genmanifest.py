#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and tools/checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(R + '/tools/checks.json'))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in cfg and 'technique' in cfg[i]:
        c = cfg[i]
        checks.append({'property': i, 'quick_cmd': 'bash check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': c['technique'], 'level': 'exploration', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': cfg.get(i, {}).get('reason', 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All harness code is in harness/ and uses only the exported API of the library; /repo carries no hooks, only fix: commits. VERIF_CASES=n overrides the number of generated cases.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
