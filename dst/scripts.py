"""What runs inside a process node for the in-process properties (C07-C11)."""
import os
import random
import sys

import jobs


def _rng_state():
    import numpy
    a = random.getstate()
    b = numpy.random.get_state()
    return (a, (b[0], b[1].tolist(), b[2], b[3], b[4]))


def env(job):
    """An analysis after some history, with given states of the random generators.
    Reports whether these states are left alone."""
    import numpy
    jobs.set_template(job.get('template'))
    hist = []
    if job.get('rand') is not None:
        random.seed(job['rand'])
    if job.get('np') is not None:
        numpy.random.seed(job['np'])
    st = _rng_state()
    if job.get('fresh'):
        # the package is imported somewhere else
        here = os.getcwd()
        os.chdir(job['fresh'])
        purge(())
        import atooms.postprocessing.api  # noqa
        os.chdir(here)
    same = [a == b for a, b in zip(st, _rng_state())]
    for j in job.get('history', ()):
        hist.append(jobs.node_main(j))
    cut = []
    if job.get('interrupt'):
        # the analysis itself, interrupted somewhere
        import inproc
        with inproc.Injector() as c:
            jobs.node_main(job['main'])
        for u in job['interrupt']:
            s0 = _rng_state()
            inj = inproc.Injector(max(1, 1 + int(u * c.n) + job.get('shift', 0)), KeyboardInterrupt())
            with inj:
                r = jobs.node_main(job['main'])
            s1 = _rng_state()
            cut.append([list(inj.fired or ()), r['exc'], s0[0] == s1[0], s0[1] == s1[1]])
    jobs.set_template(job.get('template'))
    if job.get('rand2') is not None:
        random.seed(job['rand2'])
        numpy.random.seed(job['rand2'] % 2**31)
        for _ in range(job.get('draws', 0)):
            random.random()
            random.gauss(0, 1)
            numpy.random.normal()
    st0 = _rng_state()
    main = jobs.node_main(job['main'])
    st1 = _rng_state()
    return {'main': main, 'rng': [same[0] and st0[0] == st1[0], same[1] and st0[1] == st1[1]], 'hist': [[h['ok'], h['exc']] for h in hist], 'cut': cut}


# ---------------------------------------------------------------- trajectories
def open_traj(spec):
    """spec: {'file', 'kind', 'slice', 'open'}"""
    from atooms.trajectory import Trajectory
    from atooms.trajectory.ram import TrajectoryRam, TrajectoryRamView
    th = Trajectory(spec['file'])
    kind = spec['kind']
    if spec.get('open'):
        # no periodic boundaries (along some directions)
        import numpy

        def opened(system):
            system.cell.periodic = numpy.array([bool(x) for x in spec['open']])
            return system
        th.add_callback(opened)
    if kind == 'cached':
        th.cache = True
    if kind in ('ram', 'ramview'):
        ram = {'ram': TrajectoryRam, 'ramview': TrajectoryRamView}[kind]()
        for i, s in enumerate(th):
            ram.write(s, th.steps[i])
        ram.timestep = th.timestep
        th.close()
        th = ram
    if spec.get('slice'):
        from atooms.trajectory import Sliced
        th = Sliced(th, slice(*spec['slice']))
    return th


def digest(th, skip=()):
    """Everything the frames hold"""
    import numpy

    def val(x):
        if isinstance(x, numpy.ndarray):
            return x.tolist()
        if isinstance(x, numpy.generic):
            return x.item()
        return x if isinstance(x, (int, float, str, bool, type(None))) else str(type(x))
    out = []
    for i in range(len(th)):
        s = th[i]
        part = [{k: val(v) for k, v in p.__dict__.items() if k not in skip} for p in s.particle]
        cell = {k: val(v) for k, v in s.cell.__dict__.items()} if s.cell is not None else None
        out.append((th.steps[i], part, cell))
    return out


def frame_diff(a, b):
    if len(a) != len(b):
        return '%d frames instead of %d' % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if x[0] != y[0]:
            return 'frame %d: step %s instead of %s' % (i, y[0], x[0])
        if x[2] != y[2]:
            return 'frame %d: cell %s instead of %s' % (i, y[2], x[2])
        if len(x[1]) != len(y[1]):
            return 'frame %d: %d particles instead of %d' % (i, len(y[1]), len(x[1]))
        for n, (p, q) in enumerate(zip(x[1], y[1])):
            if p != q:
                for k in sorted(set(p) | set(q)):
                    if p.get(k, 'absent') != q.get(k, 'absent'):
                        return 'frame %d, particle %d: %s is %s instead of %s' % (i, n, k, q.get(k, 'absent'), p.get(k, 'absent'))
    return None


def _arrays(x):
    """Lists of numbers as numpy arrays"""
    import numpy
    if isinstance(x, list) and x and all(isinstance(v, (int, float)) for v in x):
        return numpy.array(x, dtype=float)
    if isinstance(x, list):
        return [_arrays(v) for v in x]
    return x


def _resolve(kw, shared, arrays=False):
    """Parameters of a step: lists may be objects shared by several steps"""
    import copy
    out = {}
    if arrays:
        kw = {k: _arrays(v) if k in ('kgrid', 'tgrid') else v for k, v in kw.items()}
    for k, v in kw.items():
        if isinstance(v, dict) and '$' in v:
            out[k] = shared[v['$']]
        else:
            out[k] = copy.deepcopy(v)
    return out


def _finish(obj, how):
    if how == 'do':
        obj.do()
    else:
        obj.compute()
        if how == 'analyze':
            for o in (obj.partial.values() if hasattr(obj, 'partial') else [obj]):
                o.analyze()


def shared(job):
    """Several analyses on one trajectory object"""
    import copy
    import inproc
    jobs.set_template(job.get('template'))
    th = open_traj(job['traj'])
    arrays = job.get('arrays', False)
    store = copy.deepcopy(job.get('shared') or {})
    if arrays:
        store = {k: _arrays(v) for k, v in store.items()}
    pristine = copy.deepcopy(store)
    skip = set(job.get('skip', ()))
    first = digest(th, skip)
    steps = job['steps']
    objs = [None] * len(steps)
    kws = [None] * len(steps)
    kvs = [None] * len(steps)
    specs = [dict(st) for st in steps]

    def make(i):
        kws[i] = _resolve(steps[i]['kw'], store, arrays)
        if specs[i].get('species'):
            specs[i]['species'] = list(steps[i]['species'])
        if specs[i].get('kvectors') is not None:
            kv = specs[i]['kvectors']
            specs[i]['kvectors'] = store[kv['$']] if isinstance(kv, dict) else _arrays(kv) if arrays else copy.deepcopy(kv)
        objs[i] = jobs.build(specs[i], th, kws[i])
    if job.get('build_first'):
        for i in range(len(steps)):
            make(i)
    out = []
    for i in range(len(steps)):
        r = {'ok': True}
        at, exc = None, None
        if steps[i].get('inject') is not None:
            at, exc = steps[i]['inject'], KeyboardInterrupt()
        inj = inproc.Injector(at, exc)
        try:
            with inj:
                if objs[i] is None:
                    make(i)
                _finish(objs[i], steps[i]['finish'])
            r['cap'] = jobs.capture(objs[i])
        except (Exception, KeyboardInterrupt) as e:
            import os
            import traceback
            r = {'ok': False, 'exc': type(e).__name__, 'msg': str(e)[:200],
                 'where': ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in traceback.extract_tb(e.__traceback__)][-4:]}
            e.__traceback__ = None
        r['fired'] = inj.fired
        r['points'] = inj.n
        r['frames'] = frame_diff(first, digest(th, skip))
        r['params'] = None
        want = _resolve(steps[i]['kw'], pristine)
        for k in want:
            if kws[i] is not None and jobs.plain(kws[i].get(k)) != jobs.plain(want[k]):
                r['params'] = '%s is %r instead of %r' % (k, kws[i].get(k), want[k])
        kv = steps[i].get('kvectors')
        if isinstance(kv, list) and jobs.plain(specs[i]['kvectors']) != jobs.plain(kv):
            r['params'] = 'the list of wave-vectors given is %r instead of %r' % (specs[i]['kvectors'], kv)
        for k in pristine:
            if jobs.plain(store[k]) != jobs.plain(pristine[k]):
                r['params'] = 'list given as parameter is %r instead of %r' % (store[k], pristine[k])
        if steps[i].get('species') and specs[i]['species'] != steps[i]['species']:
            r['params'] = 'species is %r instead of %r' % (specs[i]['species'], steps[i]['species'])
        out.append(r)
    return {'steps': out}


# --------------------------------------------------------------------- retries
class ReadFault(OSError):
    pass


class CallbackFault(Exception):
    pass


EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'oserror': ReadFault}


class Bomb:
    """Counts its calls and raises at one of them"""

    def __init__(self, exc):
        self.n = 0
        self.at = None
        self.exc = exc
        self.fired = False

    def hit(self):
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.exc('fault at call %d' % self.n)


def retry(job):
    """One analysis object, several attempts to compute, some of them failing.

    attempts: [{'kind': 'line'|'read'|'callback'|None, 'at': n, 'exc': ..., 'finish': ...}]"""
    import os
    import inproc
    jobs.set_template(job.get('template'))
    th = open_traj(job['traj'])
    rb, cb = Bomb(ReadFault), Bomb(CallbackFault)

    def reading(system):
        rb.hit()
        return system
    th.add_callback(reading)
    obj = jobs.build(job['main'], th)
    if job.get('callback'):
        def mine(system, tag):
            cb.hit()
            return system
        for o in (obj.partial.values() if hasattr(obj, 'partial') else [obj]):
            if not o._cbk:
                o.add_filter(mine, 'x')

    def listing():
        out = {}
        for d, _, fs in os.walk('.'):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f))
                out[p] = os.stat(p).st_mtime_ns
        return out
    res = []
    for a in job['attempts']:
        rb.n = cb.n = 0
        rb.at = cb.at = None
        rb.fired = cb.fired = False
        at, exc = None, None
        if a['kind'] == 'line':
            at, exc = a['at'], EXC[a['exc']]()
        elif a['kind'] == 'read':
            rb.at = a['at']
        elif a['kind'] == 'callback':
            cb.at = a['at']
        before = listing()
        inj = inproc.Injector(at, exc)
        r = {'ok': True}
        computing = None
        try:
            with inj:
                _finish(obj, a['finish'])
            r['cap'] = jobs.capture(obj)
        except (Exception, KeyboardInterrupt) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            computing = inj.computing if inj.fired else any(f.name == 'compute' for f in tb)
            r = {'ok': False, 'exc': type(e).__name__, 'msg': str(e)[:200],
                 'where': ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-4:]}
            e.__traceback__ = None
        rb.at = cb.at = None
        after = listing()
        r.update(fired=bool(inj.fired or rb.fired or cb.fired), at=list(inj.fired or ()), points=inj.n, reads=rb.n, calls=cb.n, computing=computing,
                 published=sorted(p for p in after if after[p] != before.get(p)))
        res.append(r)
    return {'attempts': res}


def updates(job):
    """One analysis object, updated again and again while its result files change.

    rounds: [[state of the i-th main file: missing, older, equal, newer, other], ...]"""
    import os
    import time
    import sim
    jobs.set_template(job.get('template'))
    main = job['main']
    th = open_traj({'file': main['file'], 'kind': main.get('kind', 'file')})
    obj = jobs.build(main, th)

    def listing():
        out = {}
        for d, _, fs in os.walk('.'):
            for f in fs:
                p = os.path.relpath(os.path.join(d, f))
                if p != main['file']:
                    st = os.stat(p)
                    with open(p, 'rb') as fh:
                        out[p] = (fh.read(), st.st_mtime_ns, st.st_ino)
        return out
    obj.do()
    stamp = os.stat(main['file']).st_mtime_ns
    res = []
    for rd in job['rounds']:
        mains = sorted(p for p, c in listing().items() if not sim.is_aux(c[0])) if not res else mains
        for i, p in enumerate(mains):
            how = rd[i % len(rd)]
            if not os.path.exists(p):
                continue
            if how == 'missing':
                os.unlink(p)
                continue
            if how == 'other':
                # somebody else has written other numbers
                with open(p) as fh:
                    lines = fh.readlines()
                with open(p, 'w') as fh:
                    fh.writelines(x if x.startswith('#') or len(x.split()) != 2 else x.split()[0] + ' 7.5\n' for x in lines)
            d = {'older': -1, 'equal': 0, 'newer': 1, 'other': 1}[how] * job['gran']
            os.utime(p, ns=(stamp + d, stamp + d))
        time.sleep(5)
        before = listing()
        r = {'ok': True, 'before': before}
        try:
            obj.do(update=True)
            r['cap'] = jobs.capture(obj)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            r = {'ok': False, 'exc': type(e).__name__, 'msg': str(e)[:200], 'before': before,
                 'where': ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-4:]}
            e.__traceback__ = None
        r['after'] = listing()
        res.append(r)
    return {'rounds': res, 'mains': mains, 'stamp': stamp}


# ------------------------------------------------------- clocks, logging, bars


def clocked(job):
    """An analysis with some logging and progress-bar configuration"""
    import io
    import logging
    import time
    cfg = job['cfg']
    root = logging.getLogger()
    lg = logging.getLogger('atooms')
    if cfg.get('level') is not None:
        h = {'stderr': lambda: logging.StreamHandler(sys.stderr), 'memory': lambda: logging.StreamHandler(io.StringIO()),
             'file': lambda: logging.FileHandler('log.txt')}[cfg['handler']]()
        h.setFormatter(logging.Formatter('%(asctime)s %(relativeCreated)d %(levelname)s:%(name)s: %(message)s' if cfg.get('fmt') else '%(message)s'))
        if cfg.get('strict'):
            def err(record):
                raise       # messages that cannot be formatted are errors
            h.handleError = err
        (root if cfg.get('root') else lg).addHandler(h)
        for name in ('', 'atooms', 'atooms.postprocessing') if cfg.get('root') else ('atooms', 'atooms.postprocessing'):
            logging.getLogger(name).setLevel(cfg['level'])
    if cfg.get('disable'):
        logging.disable(cfg['disable'])
    if 'bars' in cfg:
        sys.modules['atooms.postprocessing.progress'].active = cfg['bars']
    if cfg.get('encoding'):
        sys.stdout.reconfigure(encoding=cfg['encoding'])
    t = time.time(), time.monotonic()
    r = jobs.node_main(job['main'])
    sys.stdout.flush()
    return {'main': r, 'elapsed': [time.time() - t[0], time.monotonic() - t[1]]}


# -------------------------------------------------------------- configurations
def purge(block, fake=()):
    """Forget the package, so that it is imported again with some modules missing
    (or with a stand-in of some optional module present)"""
    import types
    import boot
    for m in list(sys.modules):
        if m == boot.PKG or m.startswith(boot.PKG + '.'):
            del sys.modules[m]
        for b in block:
            if m == b or m.startswith(b + '.'):
                sys.modules.pop(m, None)
    boot.BLOCK.update(block)
    if 'medepy' in fake:
        a, b = types.ModuleType('medepy'), types.ModuleType('medepy.metadata')

        def dump(*args, **kw):
            return '# medepy: %s\n' % sorted(kw)
        a.metadata, b.dump = b, dump
        sys.modules['medepy'], sys.modules['medepy.metadata'] = a, b


def config(job):
    """An analysis in some configuration: source of the trajectory, missing modules"""
    import numpy
    if job.get('block') is not None or job.get('fake'):
        purge(job.get('block') or (), job.get('fake') or ())
    import atooms.postprocessing as pp
    main = job['main']
    if main['t'] != 'cls':
        r = jobs.node_main(main)
        return {'main': r, 'backend': None}
    jobs.set_template(main.get('template'))
    th = None
    if job.get('traj'):
        th = open_traj(job['traj'])
    obj = jobs.build(main, th)
    obj.compute()
    cap = jobs.capture(obj)
    one = list(obj.partial.values())[0] if hasattr(obj, 'partial') else obj
    return {'main': {'ok': True, 'cap': cap}, 'backend': type(one).__name__,
            'steps': pp.progress.progress.__name__ if hasattr(pp, 'progress') else None}


def cells(job):
    """Neighbours by linked cells, to be compared with all pairs"""
    import numpy
    from atooms.postprocessing.linkedcells import LinkedCells
    rng = random.Random(job['seed'])
    lc = LinkedCells(rcut=job['rcut'])
    out = []
    for f in job['frames']:
        box = numpy.array(f['box'])

        def points(n):
            x = numpy.array([[rng.uniform(-0.5, 0.5) * s for s in box] for _ in range(n)])
            for i in range(n):
                for j in range(len(box)):
                    u = rng.random()
                    if u < 0.03:
                        x[i, j] = box[j] / 2
                    elif u < 0.06:
                        x[i, j] = -box[j] / 2
                    elif u < 0.08 and f['periodic']:
                        x[i, j] *= 1.02
            return x.reshape(n, len(box))
        pos = points(f['n'])
        other = points(f['m']) if f['m'] is not None else None
        per = numpy.array([f['periodic']] * len(box))
        kw = {} if f['periodic'] and f['default'] else {'periodic': per}
        if f['as_array']:
            nei, num = lc.compute(box, pos, other, as_array=True, **kw)
            nei = [[int(x) for x in nei[i][:num[i]]] for i in range(len(pos))]
        else:
            nei = [[int(x) for x in row] for row in lc.compute(box, pos, other, **kw)]
        out.append({'neighbors': nei, 'pos': pos.tolist(), 'other': None if other is None else other.tolist()})
    return {'frames': out}
