"""Applies the edits of planted bugs to a scratch copy and runs the demonstrations there,
with and without them (a fast first look; make.py is what validates).

usage: pre.py id ..."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
W = '/tmp/plant-pre'


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


for b in BUGS:
    if b['id'] not in sys.argv[1:]:
        continue
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + '/d')
    repo = W + '/repo'
    sh('cp -a /repo %s && cd %s && git checkout -q -- .' % (repo, repo), '/')
    open(W + '/d/demo.py', 'w').write(b['demo'].lstrip('\n'))
    shutil.copy(HERE + '/lib.py', W + '/d')
    shutil.copy(HERE + '/demo.sh', W + '/d')
    a = sh('bash %s/d/demo.sh' % W, repo)
    base = sh('git rev-list --max-parents=0 HEAD', repo).stdout.split()[0]
    notorig, bad = [], ''
    for f, old, new in b['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            bad += ' count %d in %s of %r' % (s.count(old), f, old[:80])
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', repo).stdout
    orig = ''.join(sh('git show %s:%s' % (base, f), repo).stdout for f in {f for f, _, _ in b['edits']}).split('\n')
    for line in diff.splitlines():
        if line.startswith('-') and not line.startswith('---') and line[1:].strip():
            (notorig if line[1:] not in orig else []).append(line)
    c = sh('bash %s/d/demo.sh' % W, repo)
    print(b['id'], 'base', a.returncode, 'bug', c.returncode, bad, '' if a.returncode == 0 else a.stdout[-400:], c.stdout[-1200:].replace('\n', ' | '))
    if notorig:
        print('   not original:', notorig)
shutil.rmtree(W, ignore_errors=True)
