#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/ and tools/manifest_data.py."""
import json, os
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
exec(open(V + '/tools/manifest_data.py').read())
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if os.path.exists(V + '/checks/%s.py' % p.lower()) and p not in NA:
        t, n = TECH[p]
        checks.append(dict(property=p, quick_cmd='python3 checks/run.py %s' % p, thorough_cmd='python3 checks/run.py %s' % p, technique=t,
                           level='other', level_note=n + ' ' + TRUST))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 checks/run.py --setup', checks=checks, not_applicable=na,
               notes='Static analysis only; see DESIGN.md. Exit 3 = the analysis could not find its anchors (neither held nor violated).'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
