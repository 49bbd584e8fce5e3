#!/usr/bin/env python3
'''properties.jsonl and MANIFEST.json from tools/props.py and checks/registry.py'''
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import P
from tools.claims import TECH, NOTE, NA
from checks.registry import CHECKS
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P:
        p = dict(p)
        p.pop('claim')
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    i = p['id']
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique=TECH.get(i, TECH['default']), level='other', level_note=NOTE.get(i, NOTE['default'])))
na = [dict(property=p['id'], reason=NA.get(p['id'], NA['default'])) for p in P if p['id'] not in CHECKS]
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q absint checks tools check.py || true', checks=checks, not_applicable=na,
               notes='Every check reads the sources under /repo and interprets them abstractly; no code of /repo is imported or run. See DESIGN.md.'),
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
