"""Sensitivity: takes each fix commit out of a scratch copy of /repo (git revert) and runs
the check that first found the defect.

usage: reverts.py [commit ...]"""
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = '/tmp/plant-revert'
RESULTS = os.path.join(ROOT, 'tools/plant/reverts.json')
fixed = [x.split(None, 3) for x in json.load(open(os.path.join(ROOT, 'known_findings.json')))['fixed']]
for _, prop, commit, what in fixed:
    prop = prop.split('=')[1]
    if sys.argv[1:] and commit not in sys.argv[1:]:
        continue
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    repo = W + '/repo'
    subprocess.check_call('cp -a /repo %s && git -C %s checkout -q -- .' % (repo, repo), shell=True)
    r = subprocess.run(['git', '-C', repo, '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-edit', '-n', commit],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    if r.returncode:
        out = 'conflict'
    else:
        t0 = time.time()
        r = subprocess.run([ROOT + '/check', prop, '--no-evidence'], cwd=ROOT, env=dict(os.environ, DST_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = 'caught' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'missed (%d)' % r.returncode
    print(commit, prop, out, what[:80])
    sys.stdout.flush()
    res[commit] = {'property': prop, 'result': out}
    with open(RESULTS, 'w') as fh:
        json.dump(res, fh, indent=1, sort_keys=True)
shutil.rmtree(W, ignore_errors=True)
