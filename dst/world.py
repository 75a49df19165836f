"""World simulator: process nodes on one simulated disk under one scheduler.

The nodes are forked children running the real package; the preloaded shim hands
every system call on the disk to `World.run`, which is the only one to decide.
All decisions come from the explicit plan in the case (faults, schedule) or from the
case's seed; the same case gives the same trace.
"""
import ctypes
import errno
import hashlib
import os
import pickle
import random
import re
import select
import shutil
import signal
import stat
import sys
import time as _time

import jobs

T0 = 1_700_000_000 * 10**9
A_GO, A_ERR, A_SHORT, A_DIE_BEFORE, A_DIE_AFTER, A_DIE_MID, A_ERR_MID, _, A_INT = range(9)
MUT = {'openw', 'write', 'close', 'fsync', 'rename', 'unlink', 'mkdir', 'ftruncate', 'link', 'symlink', 'utime', 'chmod', 'fchmod', 'rmdir'}
DATA_OPS = {'openw', 'write', 'ftruncate', 'rename', 'unlink', 'link', 'symlink'}
O_TRUNC = os.O_TRUNC
OP_CAP = 20000


class HarnessError(Exception):
    pass


class Hang(HarnessError):
    pass


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '/tmp'


def _cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as fh:
            f = fh.read().rpartition(')')[2].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


class Node:
    def __init__(self, nid, job):
        self.nid = nid
        self.job = job
        self.pid = None
        self.state = 'new'      # new -> op | done | dead
        self.msg = None
        self.result = None
        self.nops = 0           # ops announced so far
        self.buf = b''
        self.failnext = {}      # path -> errno, for the write after a partial one
        self.clkstat = (0, 0, 0)


class World:
    """One scratch disk; survives several epochs (sets of nodes run to their end)."""

    def __init__(self, seed=0, clock=None, fs_gran=1, op_cost=200_000, base=None):
        self.base = base or scratch_base()
        self.dir = os.path.join(self.base, 'dst-%s-%d' % (os.environ.get('DST_WORLD_TAG') or os.getpid(), World._counter()))
        os.makedirs(self.dir + '/disk')
        os.makedirs(self.dir + '/disk.tmp')
        self.root = self.dir + '/disk'          # the simulated disk
        self.lib = ctypes.CDLL(None)
        self.lib.dst_now.restype = ctypes.c_int64
        self.now = T0
        self.seed = seed
        self.trng = random.Random('time-%s' % seed)
        self.clock = clock or {}
        self.fs_gran = fs_gran
        self.op_cost = op_cost
        self.trace = []         # (node, op, path, path2, size, action)
        self.fired = {}         # fault kind -> times it took effect
        self.dirty = {}         # inode -> length that is durable
        self.pidcount = 1000
        self.onepid = False
        self.epoch = 0
        self.observers = []     # called after every op that may change the disk
        self.deaths = 0
        self.t_start = self.now
        self.simtime = 0
        self.names = {}
        self.trackops = True

    _n = 0

    @classmethod
    def _counter(cls):
        cls._n += 1
        return cls._n

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- harness-side file access (durable, stamped with virtual time)
    def path(self, name):
        return os.path.join(self.root, name)

    def stamp(self, name, t=None):
        t = self.now if t is None else t
        t -= t % self.fs_gran
        os.utime(self.path(name), ns=(t, t))

    def put(self, name, text, t=None):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
            fh.write(text)
        self.stamp(name, t)

    def advance(self, dt):
        self.now += int(dt)

    def listing(self, skip_tmp=True):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                r = os.path.relpath(p, self.root)
                out[r] = p
        return out

    def snapshot(self):
        """name -> (bytes, mtime_ns, ino)"""
        out = {}
        for r, p in self.listing().items():
            try:
                st = os.stat(p)
            except FileNotFoundError:
                continue        # a link that leads nowhere
            with open(p, 'rb') as fh:
                out[r] = (fh.read(), st.st_mtime_ns, st.st_ino)
        return out

    def link(self, name, target):
        """Make (the existing file) name a symbolic link to target"""
        p, q = self.path(name), self.path(target)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if os.path.lexists(p):
            os.rename(p, q)
        os.symlink(os.path.relpath(q, os.path.dirname(p)), p)

    def dirs(self):
        return sorted(os.path.relpath(d, self.root) for d, _, _ in os.walk(self.root))

    # -- nodes
    def spawn(self, job, nid):
        node = Node(nid, job)
        rq_r, rq_w = os.pipe()
        rs_r, rs_w = os.pipe()
        resfile = os.path.join(self.dir, 'res-%d-%d' % (self.epoch, nid))
        self.pidcount += 1
        vpid = job.get('pid', 1 if self.onepid else self.pidcount)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rq_r)
                os.close(rs_w)
                os.setpgid(0, 0)
                null = os.open('/dev/null', os.O_RDWR)
                os.dup2(null, 0)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                out = os.open(os.path.join(self.dir, 'out-%d-%d' % (self.epoch, nid)), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(out, 1)
                os.dup2(out, 2)
                os.chdir(os.path.join(self.root, job.get('cwd', '.')))
                os.environ['TMPDIR'] = self.dir + '/disk.tmp'
                import tempfile
                tempfile.tempdir = None
                tempfile._name_sequence = None
                lib = self.lib
                c = self.clock
                lib.dst_clock(ctypes.c_int64(c.get('tick', 1000)), ctypes.c_int64(c.get('gran', 1)), c.get('jump', 0),
                              ctypes.c_int64(c.get('jump_ns', 0)), ctypes.c_uint64((self.seed * 7919 + nid * 104729 + self.epoch * 31 + 17) & (2**62 - 1)))
                lib.dst_fs(ctypes.c_int64(self.fs_gran))
                lib.dst_entropy(ctypes.c_uint64((job.get('entropy', self.seed) * 1000003 + nid * 7 + self.epoch * 131 + 5) & (2**62 - 1)))
                lib.dst_attach(rq_w, rs_r, (self.root + '\0').encode(), vpid, ctypes.c_int64(self.now))
                res = None
                try:
                    res = jobs.node_main(job)
                    import gc
                    gc.collect()
                    res['fds'] = jobs.open_fds(self.root)
                    res['cwd'] = os.path.relpath(os.getcwd(), self.root)
                finally:
                    lib.dst_detach()
                res['clk'] = (lib.dst_stat(0), lib.dst_stat(1), lib.dst_stat(2))
                res['now'] = lib.dst_now()
                with open(resfile, 'wb') as fh:
                    pickle.dump(res, fh)
                sys.stdout.flush()
                os._exit(0)
            except BaseException as e:   # harness problem in the child
                try:
                    import traceback
                    with open(resfile + '.err', 'w') as fh:
                        fh.write(traceback.format_exc())
                finally:
                    os._exit(98)
        os.close(rq_w)
        os.close(rs_r)
        node.pid, node.rq, node.rs, node.resfile = pid, rq_r, rs_w, resfile
        return node

    def _wait(self, node, timeout=90.0, wall=400.0):
        """Until the node announces an op or ends."""
        while True:
            i = node.buf.find(b'\n')
            if i >= 0:
                line = node.buf[:i].decode('utf-8', 'surrogateescape')
                node.buf = node.buf[i + 1:]
                op, p1, p2, a, b, t = line.split('\t')
                node.msg = (op, p1, p2, int(a), int(t))
                node.state = 'op'
                return
            # the time the node itself has used: the machine may be busy
            t0, c0 = _time.monotonic(), _cpu(node.pid)
            r = None
            while not r:
                r, _, _ = select.select([node.rq], [], [], 15.0)
                if not r and (_cpu(node.pid) - c0 > timeout or _time.monotonic() - t0 > wall):
                    self._kill(node)
                    raise Hang('node %d did not answer for %d s (job %r)' % (node.nid, _time.monotonic() - t0, node.job))
            data = os.read(node.rq, 65536)
            if not data:
                self._reap(node)
                return
            node.buf += data

    def _reap(self, node):
        _, status = os.waitpid(node.pid, 0)
        os.close(node.rq)
        os.close(node.rs)
        code = os.waitstatus_to_exitcode(status)
        if code == 0:
            with open(node.resfile, 'rb') as fh:
                node.result = pickle.load(fh)
            os.unlink(node.resfile)
            node.state = 'done'
            self.now = max(self.now, node.result.pop('now')) if not self.clock.get('jump') else self.now
            node.clkstat = node.result.pop('clk')
        elif code in (99, -9):
            node.state = 'dead'
            self.deaths += 1
        else:
            err = node.resfile + '.err'
            txt = open(err).read() if os.path.exists(err) else ''
            out = os.path.join(self.dir, 'out-%d-%d' % (self.epoch, node.nid))
            if os.path.exists(out):
                txt += open(out, errors='replace').read()[-2000:]
            if code == 98:
                raise HarnessError('node %d: %s' % (node.nid, txt))
            node.state = 'abort'      # died by itself (signal): the code under test crashed
            node.result = {'ok': False, 'exc': 'ABORT', 'msg': 'exit code %d %s' % (code, txt[-500:])}

    def _kill(self, node):
        if node.state in ('done', 'dead', 'abort'):
            return
        try:
            os.kill(node.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(node.pid, 0)
        os.close(node.rq)
        os.close(node.rs)
        node.state = 'dead'
        self.deaths += 1

    def _answer(self, node, act, arg):
        os.write(node.rs, b'%d %d %d\n' % (act, arg, self.now))
        node.state = 'run'

    # -- durability bookkeeping for power loss
    def _fdstat(self, node, fd=None, path=None):
        try:
            return os.stat(path if path else '/proc/%d/fd/%d' % (node.pid, fd))
        except OSError:
            return None

    def _ino_of(self, path):
        try:
            return os.stat(os.path.join(self.root, path))
        except OSError:
            return None

    def power_loss(self, rng):
        """Cut everything not made durable. Directory operations are ordered (journal)."""
        cut = 0
        for r, p in self.listing().items():
            st = os.lstat(p)
            if not stat.S_ISREG(st.st_mode):
                continue
            if st.st_ino in self.dirty:
                keep = self.dirty[st.st_ino]
                if st.st_size > keep:
                    how = rng.random()
                    n = keep if how < 0.5 else rng.randint(keep, st.st_size)
                    if n < st.st_size:
                        os.truncate(p, n)
                        os.utime(p, ns=(st.st_mtime_ns, st.st_mtime_ns))
                        cut += 1
        self.dirty.clear()
        self.count('power_cut_files', cut)
        return cut

    def count(self, kind, n=1):
        if n:
            self.fired[kind] = self.fired.get(kind, 0) + n

    # -- the loop
    def run(self, jobs_, plan=None):
        """Run the jobs as concurrent nodes to their end.

        plan: {'faults': [{'node', 'n', 'kind', ...}], 'schedule': [node ids], 'sseed': int}
        Fault n counts the ops of that node (from 0) in this epoch.
        Schedule: list of choices; when exhausted (or naming a node that cannot run)
        the scheduler falls back to a seeded choice (sseed) or to the running node.
        Returns list of Node.
        """
        plan = plan or {}
        faults = {}
        self.full = False
        for f in plan.get('faults', ()):
            faults[(f['node'], f['n'])] = f
        schedule = list(plan.get('schedule', ()))
        srng = random.Random('sched-%s' % plan['sseed']) if 'sseed' in plan else None
        stick = plan.get('stick', 0.5)
        self.epoch += 1
        nodes = []
        chosen = []
        try:
            for i, j in enumerate(jobs_):
                n = self.spawn(j, i)
                nodes.append(n)
                self._wait(n)
            last = None
            total = 0
            while True:
                ready = [n for n in nodes if n.state == 'op']
                if not ready:
                    break
                total += 1
                if total > OP_CAP:
                    raise Hang('more than %d system calls in one epoch' % OP_CAP)
                node = None
                if schedule:
                    want = schedule.pop(0)
                    for n in ready:
                        if n.nid == want:
                            node = n
                if node is None:
                    if len(ready) == 1:
                        node = ready[0]
                    elif srng is not None:
                        if last in ready and srng.random() < stick:
                            node = last
                        else:
                            node = srng.choice(ready)
                    else:
                        node = last if last in ready else ready[0]
                chosen.append(node.nid)
                last = node
                if self._step(node, faults, nodes):
                    break       # power loss: everybody is gone
        finally:
            for n in nodes:
                if n.state not in ('done', 'dead', 'abort'):
                    self._kill(n)
        self.chosen = chosen
        return nodes

    def _step(self, node, faults, nodes):
        op, p1, p2, a, t = node.msg
        k = node.nops
        node.nops += 1
        if not self.clock.get('jump'):
            self.now = max(self.now, t)
        else:
            self.now = t
        cost = self.trng.randrange(1, 2 * self.op_cost) if self.op_cost > 0 else 0
        self.now += cost
        self.simtime += cost
        f = faults.get((node.nid, k))
        act, arg, kind = A_GO, 0, None
        power = False
        if f is not None:
            kind = f['kind']
            act, arg = self._decode(f, op)
            power = kind == 'power'
        elif self.full and (op in ('write', 'mkdir') or (op == 'openw' and a & os.O_CREAT and not os.path.exists(os.path.join(self.root, p1)))):
            act, arg, kind = A_ERR, errno.ENOSPC, 'full'
        elif op == 'write' and p1 in node.failnext:
            act, arg, kind = A_ERR, node.failnext.pop(p1), 'write_error_after_short'
        # bookkeeping before the op runs
        if op == 'openw' and act in (A_GO, A_INT, A_DIE_AFTER, A_DIE_MID) and a & O_TRUNC:
            st = self._ino_of(p1)
            if st is not None:
                self.dirty[st.st_ino] = 0
        if op == 'write' and act in (A_GO, A_INT, A_SHORT, A_DIE_AFTER, A_DIE_MID, A_ERR_MID):
            st = self._ino_of(p1)
            if st is not None:
                self.dirty.setdefault(st.st_ino, st.st_size)
        if op == 'fsync' and act in (A_GO, A_INT):
            st = self._ino_of(p1)
            if st is not None:
                self.dirty.pop(st.st_ino, None)
        if act == A_ERR_MID:
            node.failnext[p1] = arg // 1000
        self.trace.append((self.epoch, node.nid, op, p1, p2, a, kind if act != A_GO or power else None))
        if kind is not None and (act != A_GO or power):
            self.count(kind)
        if power:
            if f.get('after'):
                self._answer(node, A_GO, 0)
                self._wait(node)
            for n in nodes:
                self._kill(n)
            self.power_loss(random.Random('power-%s' % f.get('seed', 0)))
            return True
        if act == A_DIE_BEFORE:
            self._kill(node)
            return False
        self._answer(node, act, arg)
        self._wait(node)
        if op in DATA_OPS or op == 'close':
            for ob in self.observers:
                ob(self, node, op, p1, p2)
        return False

    def _decode(self, f, op):
        kind = f['kind']
        if kind == 'kill':
            return A_DIE_BEFORE, 0
        if kind == 'full':
            self.full = True
            if op in ('write', 'openw', 'mkdir'):
                return A_ERR, errno.ENOSPC
            return A_GO, 0
        if kind == 'kill_after':
            return A_DIE_AFTER, 0
        if kind == 'kill_mid':
            return (A_DIE_MID, f.get('pm', 500)) if op == 'write' else (A_DIE_AFTER, 0)
        if kind == 'err':
            return A_ERR, f['errno']
        if kind == 'eintr':
            return (A_ERR, errno.EINTR) if op in ('read', 'write', 'open', 'openw') else (A_GO, 0)
        if kind == 'short':
            if op == 'write':
                return A_SHORT, f.get('pm', 500)
            if op == 'read':
                return A_SHORT, f.get('len', 7)
            return A_GO, 0
        if kind == 'err_mid':
            return (A_ERR_MID, f.get('pm', 500) + 1000 * f['errno']) if op == 'write' else (A_ERR, f['errno'])
        if kind == 'power':
            return A_GO, 0
        if kind == 'sigint':
            return (A_INT, 0) if op in ('read', 'write', 'fsync') else (A_GO, 0)
        raise ValueError(f)

    # -- measures
    def norm_trace(self):
        """Trace with volatile file names (temporary files) numbered by appearance."""
        names = {}
        out = []
        for (e, n, op, p1, p2, a, act) in self.trace:
            q = []
            for p in (p1, p2):
                q.append(p.replace(self.root, 'R'))
            out.append((e, n, op, q[0], q[1], a if op in ('write',) else 0, act))
        return out

    def trace_hash(self):
        return hashlib.sha1(repr(self.norm_trace()).encode()).hexdigest()[:16]
