"""What the property modules share: random inputs and jobs for the disk simulations,
reference runs, checks of result paths, shrinking of cases."""
import copy
import json
import os

import gen
import sim
from sim import Sim, Skip, Violation, same

NAMES = ['a.xyz', 'b.xyz', 'd/c.xyz', 'run.1.xyz'] * 3 + ['100%s.xyz', 'T{0}.xyz', 'e[1].xyz', 'my run.xyz', 'd/e/f.xyz', '~g.xyz', 'x*.xyz', "q'.xyz"]
REAL = ['atooms.postprocessing (all of it, from /repo)', 'compiled kernels built from /repo/*.f90', 'bin/pp.py (cli jobs)',
        'atooms, numpy, CPython with its buffered I/O', 'file data and directories (tmpfs, through the shim)']
STUB = ['clocks, sleep, random bytes, process ids and file times (virtual, in the preloaded shim)',
        'order, outcome and failure of every system call on the simulated disk (scheduler)',
        'durability on power loss (data of a file is safe after fsync only; directory operations are ordered)']


def job_for(rng, name, kinds=('cls', 'cls', 'cls', 'api', 'cli'), cls=None, f=None, small=True, update=None, classes=None, apis=None, nocell=0.1):
    """-> (trajectory, job)"""
    kind = rng.choice(list(kinds))
    if kind == 'cls':
        c = cls or rng.choice(classes or gen.FILES_CLASSES + ['RadialDistributionFunction', 'BondAngleDistribution'])
        need, avoid = gen.needs(c)
        if c == 'StressAutocorrelation' or c == 'Susceptibility':
            need = list(need) + ['vel']
        t = gen.traj(rng, name, need, avoid, small=small)
        j = gen.cls_job(rng, t, c, update=update)
        if c in ('RadialDistributionFunction', 'CollectiveOverlap') and j['mode'] != 'filter' and rng.random() < nocell:
            # a cluster of particles without a cell
            t['nocell'], t['cellvar'], t['far'] = True, 0.0, False
            if c[0] == 'R':
                j['kw'].setdefault('rmax', round(min(t['sides']) * rng.choice([0.2, 0.4, 0.8]), 3))
        if rng.random() < 0.08 and 'Chi4' not in c and c != 'Susceptibility':
            j['output_path'] = rng.choice(gen.TEMPLATES[4:])
        if rng.random() < 0.1:
            j['comments'] = rng.choice(['# note: by hand\n', '# a\n# b\n', ''])
    else:
        fn = f or rng.choice(apis or gen.API)
        need, avoid = gen.api_needs(fn)
        t = gen.traj(rng, name, need, avoid, small=small)
        j = (gen.api_job if kind == 'api' else gen.cli_job)(rng, [t], fn, update=update)
    j['template'] = gen.template(rng)
    return t, j


def other_file(rng, t, job, name='w.xyz', p=0.6):
    """The weights or radii of a job from another trajectory than the one analysed.
    -> [that trajectory] or []. The field may be in both of them."""
    if rng.random() > p:
        return []
    has = False
    if job['t'] == 'cls':
        if job['cls'] == 'SpectralDensity':
            job['radius'] = name
            has = True
        elif job.get('weight'):
            job['weight']['file'] = name
            has = True
    elif len(job['files']) == 1:
        for k in ('weight_trajectory', 'trajectory_radius'):
            o = '--' + k.replace('_', '-') + '='
            if k not in job['kw'] and not (k == 'weight_trajectory' and 'weight' in job['kw']):
                continue
            job['kw'][k] = name
            has = True
            if job['t'] == 'cli':
                argv = [a for a in job['argv'] if not a.startswith(o)]
                i = argv.index(job['f'], 1 if argv[0] == '--output' else 0)
                job['argv'] = argv[:i + 1] + [o + name] + argv[i + 1:]
    if not has:
        return []
    w = copy.deepcopy(t)
    w.update(name=name, seed=t['seed'] + 4242)
    return [w]


def set_update(job, flag):
    job = copy.deepcopy(job)
    if job['t'] == 'cls':
        job['update'] = flag
    elif job['t'] == 'api':
        job['kw'].pop('update', None)
        if flag:
            job['kw']['update'] = True
    else:
        argv = [a for a in job['argv'] if a != '--update']
        job['argv'] = (['--update'] if flag else []) + argv
    return job


def label(job):
    return job['cls'] + ':' + job['mode'] if job['t'] == 'cls' else job['t'] + ':' + job['f']


def clock(rng):
    return {'tick': rng.choice([500, 1000, 20000]), 'gran': rng.choice([1, 1, 10**6])}


def new_sim(case, **kw):
    s = Sim(seed=case.get('seed', 0), clock=case.get('clock'), fs_gran=case.get('fs_gran', 1), **kw)
    # in containers, or on several hosts that share a disk, processes may have the same id
    s.onepid = case.get('seed', 0) % 5 < 2
    return s


def seen_collector(s):
    """Observer that keeps every distinct content each path had at some instant."""
    seen = {}
    last = {}

    def ob(world, node, op, p1, p2):
        for name, p in world.listing().items():
            if name in s.inputs:
                continue
            try:
                st = os.lstat(p)
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
                if last.get(name) == key and op != 'write':
                    continue
                last[name] = key
                with open(p, 'rb') as fh:
                    c = fh.read()
            except OSError:
                continue
            seen.setdefault(name, {})[sim.mask(c)] = c
    return seen, ob


def windowed(run, case, interrupted):
    """Runs a case in which exceptions are raised at lines of the package. These are the harshest of faults,
    since Python code can hardly be safe against them at every line, so that a violation counts
    if it is also there when they are raised a little earlier or later, not in a window of a few lines only."""
    try:
        return run(case, 0)
    except Violation as v:
        if not interrupted(v.info['case']):
            raise
        for d in (8, -8, 16, -16):
            try:
                run(v.info['case'], d)
            except Violation:
                raise v
            except Skip:
                pass
        raise Skip('an interrupt matters in a window of a few lines only')


def check_paths(now, old, new, cls, what, **info):
    """Each path of the reference sets holds nothing, its old or its new complete content.
    A path that had content before must not be left with nothing."""
    for p in sorted(set(old) | set(new)):
        c = now.get(p)
        if c is None:
            if p in old:
                raise Violation(cls + '-lost', '%s: %s had a complete result and is gone' % (what, p), **info)
            continue
        if same(c, old.get(p)) or same(c, new.get(p)):
            continue
        raise Violation(cls, '%s: %s holds %d bytes which are neither its earlier nor its new complete content: %r' % (
            what, p, len(c), c[-80:]), **info)


def outcome(n):
    if n.state == 'dead':
        return 'died'
    r = n.result
    return 'ok' if r['ok'] else '%s: %s' % (r['exc'], r.get('msg', ''))


# ------------------------------------------------------------------ shrinking
def shrink_traj(t):
    if len(t['steps']) > 3 and not gen.tinfo(t)['block']:
        u = copy.deepcopy(t)
        u['steps'] = u['steps'][:-1]
        yield u
    for sp in t['comp']:
        if t['comp'][sp] > 3:
            u = copy.deepcopy(t)
            u['comp'][sp] = t['comp'][sp] // 2 + 1
            yield u
    for k, v in (('far', False), ('cellvar', 0.0), ('field', False), ('unf', False), ('mass', False), ('shuffle', False), ('vel', False), ('radius', False), ('nvar', False)):
        if t.get(k):
            u = copy.deepcopy(t)
            u[k] = v
            yield u


def shrink_lists(case, keys, minlen=1):
    for k in keys:
        v = case.get(k)
        if isinstance(v, list) and len(v) > minlen:
            for i in range(len(v)):
                c = copy.deepcopy(case)
                del c[k][i]
                yield c


def shrink_trajs(case, key='trajs'):
    for i, t in enumerate(case[key]):
        for u in shrink_traj(t):
            c = copy.deepcopy(case)
            c[key][i] = u
            yield c


def shrink_job(job):
    if job.get('template'):
        j = copy.deepcopy(job)
        j['template'] = None
        yield j
    if job['t'] == 'cls':
        if job['mode'] == 'partial' and len(job['species']) > 1:
            for i in range(len(job['species'])):
                j = copy.deepcopy(job)
                del j['species'][i]
                yield j
        if job['mode'] != 'plain':
            j = copy.deepcopy(job)
            j['mode'] = 'plain'
            yield j
        for k in ('fix_cm', 'no_offset', 'weight'):
            if job.get(k) or job['kw'].get(k):
                j = copy.deepcopy(job)
                j.pop(k, None)
                j['kw'].pop(k, None)
                yield j
    if job['t'] == 'api':
        for k in list(job['kw']):
            if k in ('kgrid', 'kmax', 'kmin', 'ksamples', 'dtheta', 'total', 'tsamples', 'nk', 'dk', 'update'):
                continue
            j = copy.deepcopy(job)
            del j['kw'][k]
            yield j


def shrink_jobs(case, key='jobs'):
    for i, j in enumerate(case[key]):
        for u in shrink_job(j):
            c = copy.deepcopy(case)
            c[key][i] = u
            yield c


def merge(stats, s):
    stats['runs'] = stats.get('runs', 0) + s.runs
    stats['ops'] = stats.get('ops', 0) + s.ops
    stats['simtime'] = stats.get('simtime', 0) + s.simtime
    f = stats.setdefault('faults', {})
    for k, v in s.fired.items():
        f[k] = f.get(k, 0) + v
    stats.setdefault('hashes', set()).update(s.hashes)
    stats['deaths'] = stats.get('deaths', 0) + s.deaths
    return stats


def bump(stats, group, key, n=1):
    d = stats.setdefault(group, {})
    d[key] = d.get(key, 0) + n


def vals(c):
    """grid and value only (the rest is not read back in update mode), and nothing for
    functions of two variables (which are not read back at all)"""
    if 'grid' in c and 'value' in c:
        g = c['grid']
        if g and (isinstance(g[0], list) or g[0] is None):
            return None
        return {'grid': g, 'value': c['value']}
    return {k: vals(v) for k, v in c.items()}
