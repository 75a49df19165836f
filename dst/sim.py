"""Helpers shared by the property modules: worlds with save/restore, comparison of
result files and of captured values, selection of fault points in a twin run."""
import copy
import errno
import os
import random
import re
import shutil

import gen
import world
from world import World, HarnessError, Hang  # noqa

DATE = re.compile(rb'(?m)^# date: \d{4}-\d\d-\d\d \d\d:\d\d:\d\d$')
# names with random parts, in the hashes of sequences of calls (never used to judge)
TMPNAME = re.compile(r'[0-9a-f]{12,}|tmp[a-z0-9_]{8}')
AUX_TITLES = (b'# title: relaxation times', b'# title: Average of self overlap', b'# title: Variance of self overlap')


def mask(b):
    return DATE.sub(b'# date:', b)


def same(a, b):
    """Are two result files the same, up to the date and to the rounding of the last digit?"""
    if a is None or b is None:
        return a is b
    a, b = mask(a), mask(b)
    if a == b:
        return True
    if a[-1:] != b[-1:]:
        return False
    la, lb = a.split(b'\n'), b.split(b'\n')
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if x == y:
            continue
        tx, ty = re.split(rb'[ ,\[\](){}:;=]+', x), re.split(rb'[ ,\[\](){}:;=]+', y)
        if len(tx) != len(ty):
            return False
        for p, q in zip(tx, ty):
            if p == q:
                continue
            try:
                u, v = float(p), float(q)
            except ValueError:
                return False
            if not close(u, v, 1.1e-5, 1e-9):
                return False
    return True


def fdiff(a, b):
    """Short description of the first difference of two files"""
    if a is None or b is None:
        return 'absent / present'
    la, lb = mask(a).split(b'\n'), mask(b).split(b'\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y and not same(x, y):
            return 'line %d: %r instead of %r' % (i + 1, x[:90], y[:90])
    return '%d lines instead of %d (%d bytes instead of %d)' % (len(la), len(lb), len(a), len(b))


def close(u, v, rel=1e-9, ab=1e-12):
    if u == v or (u != u and v != v):
        return True
    return abs(u - v) <= ab + rel * max(abs(u), abs(v))


def vdiff(a, b, rel=1e-9, ab=1e-11, path=''):
    """First difference of two plain values, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s vs %s' % (path, sorted(map(str, a))[:6], sorted(map(str, b))[:6])
        for k in a:
            d = vdiff(a[k], b[k], rel, ab, path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = vdiff(x, y, rel, ab, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return None if close(a, b, rel, ab) else '%s: %r vs %r' % (path, a, b)
    return None if a == b else '%s: %r vs %r' % (path, a, b)


def is_aux(content):
    return content.startswith(AUX_TITLES)


def parse_cols(content):
    """Columns of a result file as lists of floats"""
    rows = [ln.split() for ln in content.decode('utf-8', 'replace').splitlines() if ln and not ln.startswith('#')]
    if not rows or any(len(r) != len(rows[0]) for r in rows):
        return []
    return [[float(r[i]) for r in rows] for i in range(len(rows[0]))]


class Sim(World):
    """World plus the inputs it holds and counters."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.inputs = set()
        self.runs = 0
        self.ops = 0
        self.hashes = set()

    def put_traj(self, t, ver=0, name=None):
        t = version(t, ver)
        name = name or t['name']
        self.put(name, gen.traj_text(t))
        self.inputs.add(name)

    def results(self, snap=None):
        """result paths -> bytes (everything which is neither input nor temporary)"""
        snap = self.snapshot() if snap is None else snap
        return {k: v[0] for k, v in snap.items() if k not in self.inputs}

    def save(self):
        d = os.path.join(self.dir, 'save-%d' % self.epoch)
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(self.root, d, symlinks=True)
        return (d, self.now, dict(self.dirty), dict(self.mtimes()))

    def mtimes(self):
        return {r: os.lstat(p).st_mtime_ns for r, p in self.listing().items()}

    def restore(self, s):
        d, now, dirty, mt = s
        shutil.rmtree(self.root)
        shutil.copytree(d, self.root, symlinks=True)
        self.now = now
        self.dirty = {}
        for r, t in mt.items():
            os.utime(self.path(r), ns=(t, t), follow_symlinks=False)

    def go(self, jobs_, plan=None):
        n0 = len(self.trace)
        nodes = self.run(jobs_, plan)
        self.runs += 1
        self.last = self.trace[n0:]
        self.ops += len(self.last)
        self.hashes.add(hash_ops(self.last))
        return nodes


def hash_ops(ops):
    import hashlib
    h = hashlib.sha1()
    for (e, n, op, p1, p2, a, act) in ops:
        h.update(('%d %s %s %s %s;' % (n, op, TMPNAME.sub('T', p1), TMPNAME.sub('T', p2), act)).encode('utf-8', 'surrogateescape'))
    return h.hexdigest()[:16]


def version(t, ver):
    """Another content for the same trajectory file: other seed, sometimes more frames"""
    if not ver:
        return t
    t = copy.deepcopy(t)
    t['seed'] = t['seed'] + 7919 * ver
    if ver % 2 == 0 and not gen.tinfo(t)['block']:
        d = t['steps'][1] - t['steps'][0]
        t['steps'] = t['steps'] + [t['steps'][-1] + d]
    return t


ERRNOS = {'write': [errno.ENOSPC, errno.EIO, errno.EDQUOT], 'openw': [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EROFS, errno.EIO],
          'open': [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENFILE], 'read': [errno.EIO], 'fsync': [errno.EIO, errno.ENOSPC],
          'close': [errno.EIO, errno.ENOSPC], 'rename': [errno.EACCES, errno.ENOSPC, errno.EIO], 'mkdir': [errno.ENOSPC, errno.EACCES, errno.EROFS],
          'unlink': [errno.EIO, errno.EACCES], 'stat': [errno.EIO, errno.EACCES], 'ftruncate': [errno.EIO],
          'link': [errno.EIO], 'chmod': [errno.EPERM], 'fchmod': [errno.EPERM], 'utime': [errno.EPERM], 'rmdir': [errno.EIO]}


def resolve(sel, ops, node=0):
    """Turn a fault selector into an explicit fault for the run whose fault-free twin did `ops`.

    sel: {'kind', 'where': op class or 'any'/'out'/'mut', 'u': position in [0,1), 'e': choice of errno, ...}"""
    mine = [o for o in ops if o[1] == node]
    where = sel['where']
    if where == 'any':
        cand = list(range(len(mine)))
    elif where == 'mut':
        cand = [i for i, o in enumerate(mine) if o[2] in world.MUT]
    elif where == 'out':    # from the first change of the disk on
        first = [i for i, o in enumerate(mine) if o[2] in world.MUT]
        cand = list(range(max(0, first[0] - 2), len(mine))) if first else []
    else:
        cand = [i for i, o in enumerate(mine) if o[2] == where]
    if not cand:
        return None
    n = cand[int(sel['u'] * len(cand)) % len(cand)]
    f = {'node': node, 'n': n, 'kind': sel['kind']}
    if sel['kind'] in ('err', 'err_mid', 'full'):
        es = ERRNOS.get(mine[n][2], [errno.EIO])
        f['errno'] = es[int(sel.get('e', 0) * len(es)) % len(es)]
    for k in ('pm', 'len', 'seed', 'after'):
        if k in sel:
            f[k] = sel[k]
    return f


def fault_sel(rng, kinds, wheres=None):
    kind = rng.choice(kinds)
    if wheres:
        where = rng.choice(wheres)
    elif kind == 'kill_mid' or kind == 'err_mid':
        where = 'write'
    elif kind == 'power':
        where = rng.choice(['mut', 'rename', 'close', 'fsync', 'write', 'out'])
    elif kind == 'err' or kind == 'full':
        where = rng.choice(['any', 'mut', 'write', 'openw', 'rename', 'close', 'fsync', 'mkdir', 'read', 'open', 'stat', 'out'])
    elif kind == 'short':
        where = rng.choice(['write', 'read', 'read'])
    elif kind == 'sigint':
        where = rng.choice(['write', 'write', 'fsync', 'read'])
    elif kind == 'eintr':
        where = rng.choice(['write', 'read', 'open', 'openw'])
    else:
        where = rng.choice(['any', 'mut', 'out', 'rename'])
    s = {'kind': kind, 'where': where, 'u': round(rng.random(), 4)}
    if kind in ('err', 'err_mid', 'full'):
        s['e'] = round(rng.random(), 3)
    if kind in ('kill_mid', 'err_mid'):
        s['pm'] = rng.choice([1, 100, 500, 900, 999])
    if kind == 'short':
        s['pm'] = rng.choice([1, 300, 700, 999])
        s['len'] = rng.choice([1, 7, 100, 1000])
    if kind == 'power':
        s['seed'] = rng.randrange(1000)
        s['after'] = rng.random() < 0.7
    return s


class Violation(Exception):
    """A property does not hold: cls identifies the kind of failure (kept while shrinking)."""

    def __init__(self, cls, msg, **info):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.info = info


class Skip(Exception):
    """The case says nothing (its fault-free run does not work)."""


def jrandom(case):
    return random.Random('exec-%s' % case.get('xseed', 0))
