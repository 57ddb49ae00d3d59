#!/usr/bin/env python3
"""Write MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    c = config.CHECKS.get(pid)
    if c:
        checks.append(dict(property=pid, quick_cmd='python3 run.py %s --tier quick' % pid,
                           thorough_cmd='python3 run.py %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=c['title'], level='other',
                           level_note='Solver verdict over all values within bounds: ' + '; '.join(c['bounds']) +
                           '. Outside: ' + '; '.join(c['outside']) + '. Trusted: Kani/CBMC (or z3) and the harness oracle; ' +
                           'counterexamples are only reported after they reproduce natively.'))
    else:
        na.append(dict(property=pid, reason=config.NOT_APPLICABLE.get(pid, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
