#!/usr/bin/env python3
'''DESIGN.md from the template, the properties, findings and the results of the last seed run'''
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)
from tools.props import P
from tools.fixed import FIXED, OPEN
from tools.claims import TECH, NA, FALSE, HOW
from tools.seed import load
from checks.registry import CHECKS
t = open(HERE + '/tools/DESIGN.tpl.md').read()
rows = []
for p in P:
    i = p['id']
    rows.append('### %s %s\n' % (i, p['title']))
    if i in CHECKS:
        m = importlib.import_module('checks.' + CHECKS[i])
        rows.append('Method: %s. Rule: %s. %s' % (TECH.get(i, TECH['default']), m.RULE, ' '.join(m.EXPLANATION.split())))
        if getattr(m, 'ASSUMPTIONS', ()):
            rows.append('Bounds and assumptions: ' + '; '.join(m.ASSUMPTIONS) + '.')
        if i in HOW:
            rows.append(' '.join(HOW[i].split()))
    else:
        rows.append('Not claimed: ' + NA.get(i, NA['default']))
    rows.append('')
t = t.replace('@@TABLE@@', '\n'.join(rows))
t = t.replace('@@FIXED@@', '\n'.join('* %s `%s` %s' % x for x in FIXED))
t = t.replace('@@OPEN@@', '\n'.join('* %s: %s (case `%s`)' % (d['property'], d['what'], d['case']) for d in OPEN) or '(none)')
res = {}
if os.path.exists(HERE + '/tools/seed_results.json'):
    res = json.load(open(HERE + '/tools/seed_results.json'))
t = t.replace('@@SEEDS@@', '| planted bug | property | result | what it breaks |\n|---|---|---|---|\n' + '\n'.join(
    '| %s | %s | %s | %s |' % (s['id'], s['property'], res.get(s['id'], '?'), s['breaks']) for s in load()))
t = t.replace('@@FALSE@@', '\n'.join('* ' + x for x in FALSE))
open(HERE + '/DESIGN.md', 'w').write(t)
