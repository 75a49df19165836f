"""In-process simulation: caller threads under a seeded scheduler and exceptions at
chosen program points. The points are the line (or bytecode) events of the frames of
atooms.postprocessing, so they follow the code of the working tree, whatever it is."""
import os
import random
import sys
import threading
import _thread

REPO = os.environ.get('DST_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'atooms', 'postprocessing') + os.sep
PKGS = (PKG, os.path.join(REPO, 'atooms', 'postprocessing') + os.sep)
POINT_CAP = 6_000_000

_current = None     # the scheduler at work in this process


class Deadlock(BaseException):
    pass


class TooLong(BaseException):
    pass


class SimLock:
    """threading.Lock / RLock for code of the package: blocks by giving the turn away."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None:
                self.owner, self.depth = me, 1
                return True
            if self.reentrant and self.owner == me:
                self.depth += 1
                return True
            if not blocking:
                return False
            if _current is None or not _current.mine():
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('lock taken twice')
            if timeout is not None and timeout >= 0 and not _current.others():
                return False
            _current.wait()

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _factory(real, reentrant):
    def make(*a, **kw):
        if sys._getframe(1).f_globals.get('__name__', '').startswith('atooms.postprocessing'):
            return SimLock(reentrant)
        return real(*a, **kw)
    return make


def install_locks():
    """Before the package is imported"""
    threading.Lock = _factory(threading.Lock, False)
    threading.RLock = _factory(threading.RLock, True)


class Sched:
    """Only the thread that holds the baton runs. At every point it may be passed on."""

    def __init__(self, n, plan):
        self.n = n
        self.opcodes = bool(plan.get('opcodes'))
        self.locks = [_thread.allocate_lock() for _ in range(n)]
        for lk in self.locks:
            lk.acquire()
        self.alive = set(range(n))
        self.cur = None
        self.step = 0
        self.first = plan.get('first', 0)
        self.record = []
        self.switches = None
        self.rng = None
        if 'switches' in plan:
            self.switches = {int(k): v for k, v in plan['switches']}
        if plan.get('p'):
            self.rng = random.Random('thr-%s' % plan.get('sseed', 0))
            self.p = plan['p']
        self.ident = {}
        self.points = [0] * n
        self.blocked = set()
        self.contended = 0
        self.where = set()

    def mine(self):
        return self.ident.get(_thread.get_ident()) == self.cur and self.cur is not None

    def others(self):
        return self.alive - self.blocked - {self.cur}

    def _pass(self, to):
        me = self.cur
        self.cur = to
        self.locks[to].release()
        self.locks[me].acquire()

    def wait(self):
        """The running thread cannot go on: let another one run."""
        me = self.cur
        self.contended += 1
        self.blocked.add(me)
        o = sorted(self.alive - self.blocked)
        if not o:
            raise Deadlock('all threads wait for a lock')
        to = self.rng.choice(o) if self.rng else o[0]
        self._pass(to)
        self.blocked.discard(me)

    def point(self, frame):
        me = self.cur
        self.step += 1
        self.points[me] += 1
        if self.step > POINT_CAP:
            raise TooLong('more than %d points' % POINT_CAP)
        self.blocked.clear()
        to = None
        if self.switches is not None:
            to = self.switches.get(self.step)
            if to is not None and (to not in self.alive or to == me):
                to = None
        elif self.rng is not None and self.rng.random() < self.p:
            o = sorted(self.alive - {me})
            if o:
                to = o[self.rng.randrange(len(o))]
        if to is not None:
            self.record.append([self.step, to])
            self.where.add((os.path.basename(frame.f_code.co_filename), frame.f_lineno or 0))
            self._pass(to)

    def tracer(self):
        op = self.opcodes

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self.point(frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKGS):
                if op:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def run(self, bodies):
        global _current
        results = [None] * self.n
        done = _thread.allocate_lock()
        done.acquire()
        trace = self.tracer()

        def main(i):
            self.ident[_thread.get_ident()] = i
            self.locks[i].acquire()
            try:
                sys.settrace(trace)
                try:
                    results[i] = bodies[i]()
                finally:
                    sys.settrace(None)
            finally:
                self.alive.discard(i)
                if self.alive:
                    nxt = min(self.alive)
                    self.cur = nxt
                    self.locks[nxt].release()
                else:
                    done.release()

        _current = self
        ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.cur = self.first % self.n
        self.locks[self.cur].release()
        done.acquire()
        for t in ths:
            t.join()
        _current = None
        return results


def run_threads(job):
    """Job {'t': 'threads', 'jobs': [...], 'plan': {...}}: each job in its own thread."""
    import gc
    import jobs
    jobs.set_template(job.get('template'))
    sched = Sched(len(job['jobs']), job.get('plan') or {})
    gc.disable()
    try:
        res = sched.run([lambda j=j: jobs.node_main(j) for j in job['jobs']])
    finally:
        gc.enable()
    return {'results': res, 'points': sched.points, 'record': sched.record, 'switches': len(sched.record),
            'contended': sched.contended, 'where': sorted(sched.where)}


class Injector:
    """Raises exceptions at chosen line events of the package in this thread, and/or
    counts the events."""

    def __init__(self, at=None, exc=None):
        self.at = at
        self.exc = exc
        self.n = 0
        self.fired = None
        self.computing = False

    def __enter__(self):
        pk = PKGS

        def local(frame, event, arg):
            if event == 'line':
                self.n += 1
                if self.n == self.at:
                    self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name)
                    f, names = frame, set()
                    while f is not None:
                        names.add(f.f_code.co_name)
                        f = f.f_back
                    self.computing = 'compute' in names
                    raise self.exc
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(pk):
                return local
            return None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
