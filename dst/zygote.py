"""An interpreter with another hash seed which runs single simulations on request."""
import json
import os
import pickle
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

_built = None
_children = {}


def solo(trajs, job, seed):
    """Outcome and files of one job alone on a clean disk"""
    import sim
    s = sim.Sim(seed=seed)
    try:
        for t in trajs:
            s.put_traj(t)
        s.advance(10**9)
        n = s.go([job])[0]
        return {'state': n.state, 'result': n.result, 'files': s.results()}
    finally:
        s.close()


def ask(hashseed, trajs, job, seed):
    """solo() in the interpreter with this hash seed"""
    p = _children.get(hashseed)
    if p is None:
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        env['DST_WORLD_TAG'] = '%d-h%d' % (os.getpid(), hashseed)
        p = subprocess.Popen([sys.executable, os.path.join(HERE, 'zygote.py'), json.dumps(_built)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        _children[hashseed] = p
    b = pickle.dumps((trajs, job, seed))
    p.stdin.write(len(b).to_bytes(8, 'big') + b)
    p.stdin.flush()
    n = int.from_bytes(p.stdout.read(8), 'big')
    r = pickle.loads(p.stdout.read(n))
    if isinstance(r, str):
        import world
        raise world.HarnessError('interpreter with hash seed %s: %s' % (hashseed, r))
    return r


def main():
    import gc
    import traceback
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import boot
    boot.load(json.loads(sys.argv[1]))
    gc.collect()
    gc.freeze()
    while True:
        h = sys.stdin.buffer.read(8)
        if len(h) < 8:
            return
        trajs, job, seed = pickle.loads(sys.stdin.buffer.read(int.from_bytes(h, 'big')))
        try:
            r = solo(trajs, job, seed)
        except Exception:
            r = traceback.format_exc()
        b = pickle.dumps(r)
        out.write(len(b).to_bytes(8, 'big') + b)
        out.flush()


if __name__ == '__main__':
    main()
