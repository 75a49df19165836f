"""C06: analyses in concurrent threads give the sequential results."""
import copy
import hashlib

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C06'
LEVEL = 'exploration'
QUICK = 800
THOROUGH = 6000
RULE = ('random sets of two to four analyses (classes, partials, filters, weights, batch functions; same or different trajectory '
        'files, same class with other parameters) in threads of one process; first one after the other, then under several '
        'schedules: switching at every point with some probability, or at a few points of the whole run; points are the lines, in '
        'part of the schedules the bytecodes, of the package. distinct = (functions, kind of schedule, line of the package at '
        'which the first switches took place)')
REAL = cm.REAL + ['threads of CPython']
STUB = cm.STUB + ['choice of the running thread (seeded baton at trace events)', 'locks taken by the package (simulated)']
ASSUMPTIONS = ['switches take place at lines or bytecodes of the package, not inside the other libraries nor inside compiled kernels, '
               'which keep the interpreter lock']
MEASURE = 'distinct (set of analyses, sequence of switches between threads), by hash'
PROBES = ['schedules.dense', 'schedules.sparse', 'schedules.opcodes', 'switches']


def base(j):
    c = j['cls']
    if c.startswith('Chi4') or c == 'SelfOverlap':
        return 'qs'
    for x in ('Legacy', 'Fast', 'Optimized'):
        c = c.replace(x, '')
    return c


def gen(rng, k, tier):
    r = rng.random()
    if r < 0.12:
        return cells(rng)
    if r < 0.24:
        return systems(rng)
    if r < 0.42:
        return twins(rng)
    n = rng.choice([2, 2, 2, 3, 3, 4])
    trajs, jobs = [], []
    same_cls = rng.random() < 0.4
    template = rng.choice([None, None, 'out/{trajectory.filename}.{symbol}.{tag}'])
    for i in range(n):
        name = 't%d.xyz' % i
        r = rng.random()
        shared = [t for t in trajs]
        if jobs and same_cls and jobs[0]['t'] == 'cls':
            # the same kind of analysis on another system or with other parameters
            c = jobs[0]['cls']
            if rng.random() < 0.5:
                t, j = cm.job_for(rng, name, kinds=['cls'], cls=c, update=False)
            else:
                t = copy.deepcopy(trajs[0])
                t['name'] = name
                if rng.random() < 0.5:
                    t['seed'] = rng.randrange(1 << 30)
                j = G.cls_job(rng, t, c, update=False)
        elif shared and r < 0.3:
            t0 = rng.choice(shared)
            cs = [c for c in G.FILES_CLASSES if G.suits(t0, c)]
            j = G.cls_job(rng, t0, rng.choice(cs), update=False)
            others = [x for x in jobs if x.get('file') == t0['name'] or t0['name'] in x.get('files', [])]
            if any(x['t'] != 'cls' or base(x) == base(j) for x in others):
                t, j = cm.job_for(rng, name, kinds=['cls'], update=False)
            else:
                t = None
        else:
            t, j = cm.job_for(rng, name, kinds=['cls', 'cls', 'api'], update=False)
        j['template'] = None
        j.pop('output_path', None)
        if j['t'] == 'cls':
            if rng.random() < 0.3:
                j['cache'] = True
            elif rng.random() < 0.2 and j['cls'] != 'SpectralDensity' and not j.get('weight'):
                j['bypath'] = True
        jobs.append(j)
        if t is not None:
            trajs.append(t)
    return {'seed': rng.randrange(10**6), 'trajs': trajs, 'jobs': jobs, 'template': template, 'trials': trials(rng, n)}


def cells(rng):
    """Pair correlations with linked cells."""
    n = rng.choice([2, 2, 3])
    trajs, jobs = [], []
    for i in range(n):
        cls = rng.choice(['RadialDistributionFunction', 'RadialDistributionFunction', 'RadialDistributionFunctionFast'])
        while True:
            t, j = cm.job_for(rng, 't%d.xyz' % i, kinds=['cls'], cls=cls, update=False)
            if not t['cellvar']:
                break
        m = rng.choice([20, 30, 44])
        t['steps'] = t['steps'][:rng.randint(2, 5)] if not G.tinfo(t)['block'] else t['steps']
        sp = list(t['comp'])
        t['comp'] = {s: max(4, m // len(sp)) for s in sp}
        j['kw'].update(rmax=round(min(t['sides']) * rng.choice([0.15, 0.2]), 3), dr=0.05)
        j['template'] = None
        j.pop('output_path', None)
        if rng.random() < 0.3:
            j['cache'] = True
        trajs.append(t)
        jobs.append(j)
    return {'seed': rng.randrange(10**6), 'trajs': trajs, 'jobs': jobs, 'template': None, 'trials': trials(rng, n)}


def systems(rng):
    """The same analysis of systems of different species."""
    n = rng.choice([2, 2, 3])
    trajs, jobs = [], []
    cls = rng.choice(['BondAngleDistribution'] * 3 + sorted(G.NBODIES2))
    sets = rng.sample([['A', 'B'], ['A', 'B', 'C'], ['1', '2'], ['B', 'C'], ['Si', 'O'], ['A', 'C']], n)
    if rng.random() < 0.5:
        sets[1] = sets[0][1:] + ['D']
    for i in range(n):
        while True:
            t, j = cm.job_for(rng, 't%d.xyz' % i, kinds=['cls'], cls=cls, update=False)
            if not j.get('weight'):
                break
        t['comp'] = {s: rng.randint(4, 7) for s in sets[i]}
        t['steps'] = t['steps'][:rng.randint(3, 5)] if not G.tinfo(t)['block'] else t['steps']
        t['nvar'] = False
        j['template'] = None
        j.pop('output_path', None)
        j.pop('filter', None)
        j['mode'], j['species'] = 'partial', list(sets[i])
        if cls == 'BondAngleDistribution':
            ns = len(sets[i])
            r = round(min(t['sides']) * rng.uniform(0.3, 0.4), 2)
            j['kw']['rcut'] = [[r] * ns for _ in range(ns)]
            j['kw']['dtheta'] = rng.choice([10.0, 30.0])
        if rng.random() < 0.3:
            j['cache'] = True
        trajs.append(t)
        jobs.append(j)
    return {'seed': rng.randrange(10**6), 'trajs': trajs, 'jobs': jobs, 'template': None, 'trials': trials(rng, n)}


def twins(rng):
    """The same analysis, with the same parameters, of systems that only differ in where the particles are."""
    n = rng.choice([2, 2, 3])
    cls = rng.choice(G.FILES_CLASSES + ['SelfIntermediateScattering', 'RadialDistributionFunction', 'BondAngleDistribution'])
    t, j = cm.job_for(rng, 't0.xyz', kinds=['cls'], cls=cls, update=False)
    if cls == 'BondAngleDistribution' and 'rcut' not in j['kw']:
        # the cut-offs may not be found in some of them
        ns = len(t['comp'])
        r = round(min(t['sides']) * 0.35, 2)
        j['kw']['rcut'] = [[r] * ns for _ in range(ns)]
    j['template'] = None
    j.pop('output_path', None)
    trajs, jobs = [], []
    if rng.random() < 0.35:
        # all of them analyse the same file, and write the same results
        jobs = [copy.deepcopy(j) for _ in range(n)]
        if rng.random() < 0.3:
            jobs[-1]['cache'] = True
        return {'seed': rng.randrange(10**6), 'trajs': [t], 'jobs': jobs, 'template': None, 'trials': trials(rng, n)}
    for i in range(n):
        trajs.append(dict(copy.deepcopy(t), name='t%d.xyz' % i, seed=rng.randrange(1 << 30)))
        c = copy.deepcopy(j)
        c['file'] = 't%d.xyz' % i
        if c.get('weight') and c['weight'].get('file') == 't0.xyz':
            c['weight']['file'] = c['file']
        if i and rng.random() < 0.3:
            c['cache'] = True
        jobs.append(c)
    return {'seed': rng.randrange(10**6), 'trajs': trajs, 'jobs': jobs, 'template': None, 'trials': trials(rng, n)}


def trials(rng, n):
    trials = []
    for _ in range(rng.randint(4, 6)):
        r = rng.random()
        tr = {'sseed': rng.randrange(10**6), 'first': rng.randrange(n), 'opcodes': rng.random() < 0.25}
        if r < 0.55:
            tr['p'] = rng.choice([0.5, 0.2, 0.05, 0.01])
        else:
            m = rng.choice([1, 2, 3, 6, 12])
            tr['u'] = [round(rng.random(), 5) for _ in range(m)]
            tr['to'] = [rng.randrange(n) for _ in range(m)]
        trials.append(tr)
    return trials


def plan_of(tr, points):
    if 'switches' in tr:
        return {'switches': tr['switches'], 'first': tr['first'], 'opcodes': tr['opcodes']}
    # (long runs would take too long)
    op = tr['opcodes'] and sum(points) < 150_000
    total = sum(points) * (8 if op else 1)
    if 'p' in tr:
        return {'p': min(tr['p'], max(0.001, 60_000 / max(1, total))), 'sseed': tr['sseed'], 'first': tr['first'], 'opcodes': op}
    sw = sorted({1 + int(u * total): to for u, to in zip(tr['u'], tr['to'])}.items())
    return {'switches': [list(x) for x in sw], 'first': tr['first'], 'opcodes': op}


def execute(case):
    stats, seqs = {'distinct': set()}, set()
    s = cm.new_sim(case)
    try:
        for t in case['trajs']:
            s.put_traj(t)
        s.advance(10**9)
        start = s.save()
        job = {'t': 'threads', 'jobs': case['jobs'], 'template': case['template']}
        n = s.go([dict(job, plan={'switches': []})])[0]
        what = ' | '.join(cm.label(j) for j in case['jobs'])
        if n.state != 'done' or not n.result['ok']:
            raise Skip('serial run fails: %s' % cm.outcome(n))
        ref = n.result['out']
        bad = [r for r in ref['results'] if not r['ok']]
        if bad:
            raise Skip('an analysis fails: %s %s %s' % (bad[0]['exc'], bad[0]['msg'][:60], bad[0]['where'][-1]))
        files = s.results()
        for j in case['jobs']:
            cm.bump(stats, 'jobs', cm.label(j))
        for tr in case['trials']:
            plan = plan_of(tr, ref['points'])
            s.restore(start)
            n = s.go([dict(job, plan=plan)])[0]
            kind = 'dense' if 'p' in tr else 'sparse'
            cm.bump(stats, 'schedules', kind)
            if plan['opcodes']:
                cm.bump(stats, 'schedules', 'opcodes')
            out = (n.result or {}).get('out') or {}
            exp = copy.deepcopy(case)
            if out.get('record'):
                exp['trials'] = [{'switches': out['record'], 'first': tr['first'], 'opcodes': plan['opcodes']}]
            else:
                exp['trials'] = [tr]
            if n.state == 'abort':
                raise Violation('crash', '%s in threads: the process crashes: %s' % (what, n.result['msg']), case=exp)
            if n.state != 'done' or not n.result['ok']:
                if (n.result or {}).get('exc') == 'TooLong':
                    continue
                raise Violation('fail', '%s in threads: %s' % (what, cm.outcome(n)), case=exp)
            stats['switches'] = stats.get('switches', 0) + out['switches']
            stats['points'] = stats.get('points', 0) + sum(out['points'])
            seqs.add(hashlib.sha1(('%s %s' % (what, out['record'])).encode()).hexdigest()[:16])
            stats.setdefault('switch_lines', set()).update('%s:%d' % w for w in out['where'])
            stats['distinct'].add((what, kind, plan['opcodes'], tuple(out['where'][:2])))
            cut = False
            for i, (r, r0) in enumerate(zip(out['results'], ref['results'])):
                who = '%s, thread %d (%s)' % (what, i, cm.label(case['jobs'][i]))
                if r is None or not r['ok']:
                    r = r or {'exc': 'nothing', 'msg': '', 'where': []}
                    if r['exc'] == 'TooLong':
                        cut = True
                        continue
                    raise Violation('deadlock' if r['exc'] == 'Deadlock' else 'fail', '%s fails with %d switches: %s: %s %s' % (
                        who, out['switches'], r['exc'], r['msg'], r['where'][-2:]), case=exp)
                if r['out'] and 'cap' in r['out']:
                    d = sim.vdiff(r['out']['cap'], r0['out']['cap'])
                    if d:
                        raise Violation('values', '%s gives other values than in sequence after %d switches: %s' % (
                            who, out['switches'], d), case=exp)
            if cut:
                stats['too_long'] = stats.get('too_long', 0) + 1
                continue
            now = s.results()
            if set(now) != set(files):
                raise Violation('files', '%s in threads: files %s instead of %s' % (what, sorted(now), sorted(files)), case=exp)
            for p in files:
                if not sim.same(now[p], files[p]):
                    raise Violation('files', '%s in threads: %s: %s' % (what, p, sim.fdiff(now[p], files[p])), case=exp)
        cm.merge(stats, s)
        stats['hashes'] = seqs
        return stats
    finally:
        s.close()


def shrink(case):
    # fewer switches first: halves, then single ones
    yield from cm.shrink_lists(case, ['trials'])
    tr = case['trials'][0]
    if 'switches' in tr and len(case['trials']) == 1:
        sw = tr['switches']
        m = len(sw)
        size = m // 2
        while size >= 1:
            for i in range(0, m, size):
                c = copy.deepcopy(case)
                c['trials'][0]['switches'] = sw[:i] + sw[i + size:]
                yield c
            if size == 1 or m // size > 64:
                break
            size //= 2
    if len(case['jobs']) > 2 and len(case['trials']) == 1 and 'switches' not in tr:
        for i in range(len(case['jobs'])):
            c = copy.deepcopy(case)
            del c['jobs'][i]
            yield c
    if 'switches' not in tr:
        yield from cm.shrink_jobs(case)
        yield from cm.shrink_trajs(case)
