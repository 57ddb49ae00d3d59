#!/usr/bin/env python3
"""Runs the check of each planted bug (or of each one named) against a scratch copy with the bug, shown as /repo in a
private mount namespace, from a scratch copy of the committed framework.

    try_seeds.py [-p PROPERTY] [-c CHECK] [id ...]
"""
import argparse, json, os, re, subprocess, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('-c'); ap.add_argument('-d', default='/tmp/try')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
os.makedirs(a.d, exist_ok=True)
sh('rsync -a --delete --exclude .build --exclude .git --exclude seeded %s/ %s/verif/ || cp -a %s %s/verif' % (VERIF, a.d, VERIF, a.d))
if not os.path.isdir(a.d + '/repo'):
    print(sh('cp -a /repo %s/repo' % a.d).stdout)
ids = a.ids or sorted(os.listdir(VERIF + '/seeded'))
for i in ids:
    meta = json.load(open('%s/seeded/%s/meta.json' % (VERIF, i)))
    prop = a.c or meta['property']
    r = sh('cd %s/repo && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply %s/seeded/%s/patch.diff' % (a.d, VERIF, i))
    if r.returncode:
        print(i, 'patch does not apply', r.stdout); continue
    t = time.time()
    r = sh("unshare -m sh -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && python3 run.py %s'" % (a.d, a.d, prop))
    last = [l for l in r.stdout.splitlines() if 'native:' in l or l.startswith('VIOLATION') or 'no answer' in l][:3]
    if r.returncode in (0, 1, 2) and not a.c:
        f = VERIF + '/tools/catches.json'
        d = json.load(open(f)) if os.path.exists(f) else {}
        d[i] = '%s: %s' % (prop, {0: 'missed', 1: 'caught by ' + (re.search(r'replay=\S*/(\S+?)(-\d+|-hang)?\.\w+', r.stdout) or [0, '?'])[1], 2: 'no answer'}[r.returncode])
        json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
    print(i, prop, {0: 'MISSED', 1: 'caught', 2: 'no answer'}.get(r.returncode, r.returncode), '%.0f s' % (time.time() - t), ' | '.join(last)[:300], flush=True)
sh('cd %s/repo && git checkout -q -- .' % a.d)
