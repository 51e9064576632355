#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique=registry.TECHNIQUE[i][0], level='model_checking', level_note=registry.TECHNIQUE[i][1]))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything is observed through the public API. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
