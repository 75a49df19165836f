"""Builds and validates the planted bugs described in bugs.py.

usage: make.py [id ...]     (scratch copies under /tmp/plant)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
W = '/tmp/plant'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for b in BUGS:
    if sys.argv[1:] and b['id'] not in sys.argv[1:]:
        continue
    d = os.path.join(OUT, b['id'])
    os.makedirs(d, exist_ok=True)
    repo = os.path.join(W, 'repo')
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('cp -a /repo %s' % repo, '/')
    sh('git checkout -q -- . ; git clean -qfd', repo)
    for f, old, new in b['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', repo).stdout
    # removed lines must be those of the original repository
    base = sh('git rev-list --max-parents=0 HEAD', repo).stdout.split()[0]
    for line in diff.splitlines():
        if line.startswith('-') and not line.startswith('---') and line[1:].strip():
            orig = [f for f, _, _ in b['edits'] if line[1:] in sh('git show %s:%s' % (base, f), repo).stdout.split('\n')]
            if not orig:
                print(b['id'], 'NOT ORIGINAL:', line)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    shutil.copy(os.path.join(HERE, 'lib.py'), d)
    shutil.copy(os.path.join(HERE, 'demo.sh'), d)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    dd = os.path.join(W, 'elsewhere')
    shutil.copytree(d, dd)
    a = sh('bash %s/demo.sh' % dd, '/repo')
    # the real thing: apply to /repo, build, test, demo, undo
    assert sh('git status --porcelain', '/repo').stdout == '', 'dirty /repo'
    try:
        assert sh('git apply %s/patch.diff' % d, '/repo').returncode == 0
        sh('bash /opt/vp/build.sh', '/repo')
        c = sh('bash %s/demo.sh' % dd, '/repo')
        sh('bash /opt/vp/test.sh %s/t.json' % W, '/repo')
        r = json.load(open(W + '/t.json'))
        names = lambda l: {x if isinstance(x, str) else x.get('id') or x.get('name') for x in l}
        bl = json.load(open('/opt/vp/BASELINE.json'))
        stable = bl.get('stable') or bl.get('passed') or bl
        lost = sorted(set(stable) - names(r['passed'])) if isinstance(stable, list) else '?'
    finally:
        sh('git checkout -- .', '/repo')
        sh('bash /opt/vp/build.sh', '/repo')
    print(b['id'], b['property'], 'demo clean', a.returncode, 'patched', c.returncode, 'lost tests', lost)
    if a.returncode:
        print(a.stdout[-600:])
    else:
        print('   ', c.stdout.strip().splitlines()[-1:] )
    shutil.rmtree(W, ignore_errors=True)
