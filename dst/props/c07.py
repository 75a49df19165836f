"""C07: results are repeatable and never disturb the random state."""
import copy
import os
import re

import gen as G
import sim
import zygote
from sim import Skip, Violation
from . import common as cm

ID = 'C07'
LEVEL = 'exploration'
QUICK = 2700
THOROUGH = 15000
RULE = ('random analyses (classes, partials, filters, weights, batch functions, command line) run alone in a fresh process, then '
        'in environments that differ by the state of the random generators and of the entropy device, interruptions, the process id, the working '
        'directory, the string hash seed (other interpreters) and the history of the process (other analyses, failing ones, same '
        'class with other parameters or on another trajectory, the same analysis before, also while the file had another content). distinct = (function, mode, kind of '
        'environment, functions in the history)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['numbers agree to 1e-9 (file digits exactly up to the rounding of the last one)']
MEASURE = 'distinct sequences (hash) of (system call, path); environments are counted in the breakdown'
PROBES = ['env.random', 'env.cwd', 'env.history', 'env.hash', 'env.repeat', 'env.earlier', 'env.import', 'history_failed', 'rng_checked', 'interrupted', 'kvectors']


def one(rng, name, **kw):
    t, j = cm.job_for(rng, name, kinds=['cls', 'cls', 'cls', 'api', 'cli'], update=False, **kw)
    j['template'] = None
    j.pop('output_path', None)
    return t, j


def gen(rng, k, tier):
    decimated = rng.random() < 0.45
    if decimated:
        t, j = one(rng, 'a.xyz', classes=['StructureFactor', 'SelfIntermediateScattering', 'IntermediateScattering', 'StructureFactorFast',
                                          'SpectralDensity', 'SelfIntermediateScatteringLegacy'], apis=['sk', 'ik', 'fkt', 'fskt'])
    else:
        t, j = one(rng, 'a.xyz')
    envs = []
    for _ in range(rng.randint(3, 5)):
        r = rng.random()
        if r < 0.2:
            envs.append({'kind': 'random', 'rand': rng.randrange(10**6), 'np': rng.randrange(10**6), 'rand2': rng.randrange(10**6),
                         'draws': rng.randrange(4), 'entropy': rng.randrange(10**6), 'pid': rng.choice([2, 77, 4194304])})
        elif r < 0.27:
            envs.append({'kind': 'interrupt', 'interrupt': [round(rng.random(), 5) for _ in range(rng.randint(2, 5))], 'rand': rng.randrange(1000)})
        elif r < 0.30:
            envs.append({'kind': 'import', 'dir': rng.choice(['w', 'w/v', 'd x']), 'rand': rng.randrange(100)})
        elif r < 0.34:
            envs.append({'kind': 'cwd', 'cwd': rng.choice(['w', 'w/v', 'd x'])})
        elif r < 0.45:
            envs.append({'kind': 'hash', 'seed': rng.choice([1, 2])})
        elif r < 0.55:
            envs.append({'kind': 'repeat', 'times': rng.randint(1, 2), 'rand': rng.randrange(100)})
        elif r < 0.63:
            envs.append({'kind': 'earlier', 'before': before(rng, t), 'rand2': rng.choice([None, rng.randrange(1000)])})
        else:
            h, ts = [], []
            for i in range(rng.randint(1, 3)):
                name = 'h%d.xyz' % i
                q = rng.random()
                if q < 0.3 and j['t'] == 'cls':
                    # same class on another trajectory
                    tt, jj = cm.job_for(rng, name, kinds=['cls'], cls=j['cls'], update=False)
                elif q < 0.55 and j['t'] == 'cls':
                    # same class, other parameters, copy of the trajectory
                    tt = copy.deepcopy(t)
                    tt['name'] = name
                    jj = G.cls_job(rng, tt, j['cls'], update=False)
                else:
                    tt, jj = one(rng, name)
                jj['template'] = None
                jj.pop('output_path', None)
                if jj['t'] == 'cls' and rng.random() < 0.2:
                    jj['output_path'] = rng.choice(G.TEMPLATES[4:])
                if rng.random() < 0.15 and jj['t'] == 'cls':
                    jj['kw'] = {'nonsense': 1}
                elif rng.random() < 0.12:
                    tt = None        # missing file
                h.append(jj)
                if tt is not None:
                    ts.append(tt)
            envs.append({'kind': 'history', 'jobs': h, 'trajs': ts, 'rand2': rng.choice([None, rng.randrange(1000)])})
    return {'seed': rng.randrange(10**6), 'trajs': [t], 'jobs': [j], 'envs': envs, 'cli_ok': True}


def before(rng, t):
    """What was in the same file before"""
    t = sim.version(t, 1)
    if rng.random() < 0.4 and not G.tinfo(t)['block']:
        t['steps'] = t['steps'][:max(2, len(t['steps']) * 2 // 3)]
    if rng.random() < 0.5:
        t['sides'] = [round(x * 1.07, 4) for x in t['sides']]
    if rng.random() < 0.4:
        t['comp'] = {k: n + rng.randint(1, 3) for k, n in t['comp'].items()}
    return t


def move(job, cwd):
    """The job as seen from a directory below the root"""
    up = '../' * (1 + cwd.count('/'))
    job = copy.deepcopy(job)
    names = job.get('files') or [job['file']]
    if 'file' in job:
        job['file'] = up + job['file']
    if 'files' in job:
        job['files'] = [up + f for f in job['files']]
    if 'argv' in job:
        job['argv'] = [re.sub(r'((?:radius|trajectory)=)', r'\1' + up, a) if a.startswith('--') else up + a if a in names else a for a in job['argv']]
    for k in ('weight_trajectory', 'trajectory_radius'):
        if job['t'] == 'api' and k in job['kw']:
            job['kw'][k] = up + job['kw'][k]
    if job.get('weight', {}).get('file'):
        job['weight']['file'] = up + job['weight']['file']
    return job


def unparent(files):
    return {k: re.sub(rb'(?m)^# parents: .*$', b'# parents:', v) for k, v in files.items()}


def execute(case):
    return cm.windowed(play, case, lambda c: c['envs'] and c['envs'][0].get('interrupt'))


def play(case, shift):
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    t, job = case['trajs'][0], case['jobs'][0]
    try:
        s.put_traj(t)
        s.advance(10**9)
        empty = s.save()
        n = s.go([job])[0]
        if n.state != 'done' or not n.result['ok']:
            raise Skip('alone it fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
        ref, files = n.result['out'], s.results()
        cm.bump(stats, 'jobs', cm.label(job))
        if 'kvectors' in str(ref)[:100000]:
            stats['kvectors'] = stats.get('kvectors', 0) + 1
        for e in case['envs']:
            kind = e['kind']
            exp = copy.deepcopy(case)
            exp['envs'] = [e]
            s.restore(empty)
            s.inputs = {t['name']}
            cm.bump(stats, 'env', kind)
            what = '%s, %s' % (cm.label(job), kind)
            hist = ()
            filt = lambda f: f          # noqa
            if kind == 'hash':
                r = zygote.ask(e['seed'], [t], job, case['seed'])
                s.runs += 1
                if r['state'] != 'done' or not r['result']['ok']:
                    raise Violation('fail', '%s: fails with hash seed %d: %s' % (what, e['seed'], r['result']), case=exp)
                out, now = r['result']['out'], r['files']
            else:
                main = job
                node = {'t': 'script', 'script': 'env', 'main': main}
                for key in ('interrupt', 'rand', 'np', 'rand2', 'draws', 'entropy', 'pid'):
                    if e.get(key) is not None:
                        node[key] = e[key]
                node['shift'] = shift
                if kind == 'import':
                    os.makedirs(s.path(e['dir']), exist_ok=True)
                    node['fresh'] = e['dir']
                elif kind == 'cwd':
                    os.makedirs(s.path(e['cwd']), exist_ok=True)
                    node['main'] = move(job, e['cwd'])
                    node['cwd'] = e['cwd']
                    filt = unparent
                elif kind == 'history':
                    for tt in e['trajs']:
                        s.put_traj(tt)
                    node['history'] = e['jobs']
                    hist = tuple(cm.label(j) for j in e['jobs'])
                    what += ' of ' + ', '.join(hist)
                elif kind == 'earlier':
                    s.put(t['name'], G.traj_text(e['before']))
                    node['history'] = [job, {'t': 'replace', 'name': t['name'], 'text': G.traj_text(t)}]
                elif kind == 'repeat':
                    node['history'] = [job] * e['times']
                n = s.go([node])[0]
                if n.state == 'abort':
                    raise Violation('crash', '%s: the process crashes: %s' % (what, n.result['msg']), case=exp)
                if n.state != 'done' or not n.result['ok']:
                    raise sim.HarnessError('%s: %s' % (what, n.result))
                o = n.result['out']
                r = o['main']
                if kind == 'history' and any(not h[0] for h in o['hist']):
                    stats['history_failed'] = stats.get('history_failed', 0) + 1
                if not r['ok']:
                    raise Violation('fail', '%s: fails: %s: %s %s' % (what, r['exc'], r.get('msg'), r.get('where', [])[-2:]), case=exp)
                stats['rng_checked'] = stats.get('rng_checked', 0) + 1
                for where, exc, a, b in o['cut']:
                    stats['interrupted'] = stats.get('interrupted', 0) + 1
                    if not (a and b):
                        raise Violation('rng', '%s: the state of the random generator of %s is changed by the analysis interrupted at %s' % (
                            what, 'Python' if not a else 'numpy', where), case=exp)
                if not all(o['rng']):
                    raise Violation('rng', '%s: the state of the random generator of %s is changed by the analysis' % (
                        what, 'Python' if not o['rng'][0] else 'numpy'), case=exp)
                out, now = r['out'], s.results()
                if kind == 'interrupt':
                    # an interrupt in the clean-up itself may leave a temporary file
                    now = {p: c for p, c in now.items() if p in files}
                now = {k: v for k, v in now.items() if not re.search(r'(^|/)h\d\.xyz', k)}
            stats['distinct'].add((cm.label(job), kind) + hist)
            if out and 'cap' in out:
                d = sim.vdiff(out['cap'], ref['cap'])
                if d:
                    raise Violation('values', '%s: other values than alone in a fresh process: %s' % (what, d), case=exp)
            a, b = filt(now), filt(files)
            if set(a) != set(b):
                raise Violation('files', '%s: files %s instead of %s' % (what, sorted(a), sorted(b)), case=exp)
            for p in b:
                if not sim.same(a[p], b[p]):
                    raise Violation('files', '%s: %s: %s' % (what, p, sim.fdiff(a[p], b[p])), case=exp)
        return cm.merge(stats, s)
    finally:
        s.close()


def shrink(case):
    yield from cm.shrink_lists(case, ['envs'])
    for i, e in enumerate(case['envs']):
        if e['kind'] == 'history' and len(e['jobs']) > 1:
            for q in range(len(e['jobs'])):
                c = copy.deepcopy(case)
                del c['envs'][i]['jobs'][q]
                yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
