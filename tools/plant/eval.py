"""Runs the checks against the planted bugs, in scratch copies of /repo.

usage: eval.py [id[:PROPERTY] ...]"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEEDED = os.path.join(ROOT, 'seeded')
W = '/tmp/plant-eval'
RESULTS = os.path.join(ROOT, 'tools/plant/results.json')


def store(bug, prop, caught, secs, cls):
    res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    res.setdefault(bug, {})[prop] = {'caught': caught, 'seconds': int(secs), 'class': cls}
    with open(RESULTS, 'w') as fh:
        json.dump(res, fh, indent=1, sort_keys=True)


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
plan = {b['id']: b for b in BUGS}
todo = sys.argv[1:] or sorted(os.listdir(SEEDED))
for t in todo:
    bug, _, prop = t.partition(':')
    d = os.path.join(SEEDED, bug)
    prop = prop or (json.load(open(os.path.join(d, 'meta.json'))) if os.path.exists(d) else plan[bug])['property']
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    repo = W + '/repo'
    subprocess.check_call('cp -a /repo %s && git -C %s checkout -q -- .' % (repo, repo), shell=True)
    if os.path.exists(d):
        subprocess.check_call('git -C %s apply %s/patch.diff' % (repo, d), shell=True)
    else:
        for f, old, new in plan[bug]['edits']:
            text = open(os.path.join(repo, f)).read()
            assert text.count(old) == 1
            open(os.path.join(repo, f), 'w').write(text.replace(old, new))
    t0 = time.time()
    r = subprocess.run([ROOT + '/check', prop, '--no-evidence'], cwd=ROOT, env=dict(os.environ, DST_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    print('%-26s %s rc=%d %3ds %s' % (bug, prop, r.returncode, time.time() - t0, 'CAUGHT' if r.returncode == 1 and v else 'MISSED'))
    if v:
        path = re.search(r'replay=(\S+)', v[0]).group(1)
        path = path if os.path.isabs(path) else os.path.join(ROOT, path)
        try:
            j = json.load(open(path))
            print('      ', str(j.get('violation') or j.get('message') or list(j))[:300].replace('\n', ' '))
        except Exception as e:
            print('      ', e)
    else:
        print('      ', r.stdout[-300:].replace('\n', ' | '))
    sys.stdout.flush()
    store(bug, prop, r.returncode == 1 and bool(v), time.time() - t0, str(j.get('class')) if v else '')
shutil.rmtree(W, ignore_errors=True)
