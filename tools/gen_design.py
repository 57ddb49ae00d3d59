#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, config.py, the evidence of the last runs and what try_seeds.py found out."""
import json, os
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows, titles = [], {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    titles[i] = p['title']
    c = config.CHECKS[i]
    try:
        e = json.load(open('%s/evidence/%s.json' % (V, i)))
    except OSError:
        e = {'coverage': {}}
    k = e['coverage']
    n = []
    if k.get('harnesses'): n.append('%d harnesses' % k['harnesses'])
    if k.get('smt'): n.append('%d MIR claims' % len(k['smt']['decided']) if isinstance(k['smt']['decided'], list) else '%s MIR claims' % k['smt']['decided'])
    wall = e.get('wall_seconds') or e.get('wall_s') or k.get('wall_s') or ''
    rows.append('| %s %s | %s | %s | %s | %s |' % (i, p['title'], ', '.join(n), '; '.join(c['symbolic']), '; '.join(c['bounds'] + ['outside: ' + ', '.join(c['outside'])]), '%.0f' % wall if wall else ''))
seeds = []
try:
    r = json.load(open(V + '/tools/catches.json'))
except OSError:
    r = {}
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    seeds.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), r.get(i, 'not tried')))
s = open(V + '/tools/DESIGN.in.md').read()
s = s.replace('@TABLE@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(['| planted bug | what it breaks | needs | outcome |', '|---|---|---|---|'] + seeds))
open(V + '/DESIGN.md', 'w').write(s)
