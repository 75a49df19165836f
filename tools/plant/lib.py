"""Helpers of the demonstrations (copied next to each demo)."""
import os
import random
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)


def scratch():
    d = tempfile.mkdtemp()
    os.environ['TMPDIR'] = d
    tempfile.tempdir = None
    w = os.path.join(d, 'work')
    os.mkdir(w)
    os.chdir(w)
    import atexit
    atexit.register(shutil.rmtree, d, True)
    return w


def xyz(path='a.xyz', n=12, frames=8, side=4.0, ndim=3, species=('A', 'B'), seed=1, step=10, extra=None, walk=0.2):
    rng = random.Random(seed)
    pos = [[rng.uniform(-0.5, 0.5) * side for _ in range(ndim)] for _ in range(n)]
    with open(path, 'w') as fh:
        for f in range(frames):
            fh.write('%d\nstep:%d columns:name,pos%s cell:%s dt:0.01\n' % (n, f * step, ',' + extra if extra else '', ','.join(['%f' % side] * ndim)))
            for i, p in enumerate(pos):
                if f:
                    for j in range(ndim):
                        p[j] += rng.gauss(0, walk)
                row = [x - round(x / side) * side for x in p]
                e = ' %.4f' % rng.uniform(0.2, 0.4) if extra else ''
                fh.write(species[i % len(species)] + ' ' + ' '.join('%.6f' % x for x in row) + e + '\n')
    return path


def close(a, b, tol=1e-7):
    if hasattr(a, '__len__') or hasattr(b, '__len__'):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def rows(path):
    with open(path) as fh:
        return [x for x in fh if not x.startswith('#')]
