#!/usr/bin/env python3
"""DESIGN.in.md + known-findings.txt + seeded/*/meta.json -> DESIGN.md"""
import os, re, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/fw/DESIGN.in.md').read()
fx = []
for l in open(V + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fx.append('* %s (%s, repaired in %s)' % (m.group(3), m.group(1), m.group(2)))
t = t.replace('%(FIXES)s', '\n'.join(fx))
rows = ['| seed | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m.get('caught_by', m['property']), m['what_it_breaks'], m['needs']))
t = t.replace('%(SEEDS)s', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
