"""C08: analyses of the same trajectory object do not interfere."""
import copy
import math

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C08'
LEVEL = 'exploration'
QUICK = 2250
THOROUGH = 20000
RULE = ('random sequences of two to six analyses (classes, partials, filters, weights from the trajectory or from another file, '
        'given wave-vectors, centre-of-mass fixing, some interrupted half-way) on one trajectory object (file, cached, in memory '
        'with copies or with views, sliced, periodic or not), some built before the others are computed, some sharing their parameter lists; each '
        'is compared with the same analysis alone on a fresh trajectory, all frames and parameters with what they were. distinct = '
        '(kind of trajectory, function and mode, those before it)')
REAL, STUB = cm.REAL, cm.STUB + ['interruptions (raised at line events of the package)']
ASSUMPTIONS = ['values agree to 1e-9']
PROBES = ['kinds.file', 'kinds.cached', 'kinds.ram', 'kinds.ramview', 'faults.interrupt', 'weights_file', 'kvectors', 'shared_lists', 'sliced', 'arrays', 'kinds.not-periodic']
FOURIER = ('StructureFactor', 'SelfIntermediateScattering', 'IntermediateScattering', 'SelfIntermediateScatteringLegacy')


def gen(rng, k, tier):
    need = [f for f in ('vel', 'field', 'radius') if rng.random() < 0.5]
    avoid = ['nvar'] if rng.random() < 0.9 else []
    if rng.random() < 0.8:
        avoid.append('cellvar')
    t = G.traj(rng, 'a.xyz', need, avoid, small=True)
    cs = [c for c in G.CLASSES if G.suits(t, c) and c != 'StressAutocorrelation']
    kind = rng.choice(['file', 'file', 'cached', 'cached', 'ram', 'ramview', 'ramview'])
    spec = {'file': 'a.xyz', 'kind': kind}
    if rng.random() < 0.15 and not G.tinfo(t)['block'] and len(t['steps']) > 5:
        spec['slice'] = rng.choice([[1, None, 1], [0, len(t['steps']) - 1, 1]])
    if rng.random() < 0.15:
        spec['open'] = [0] * t['ndim'] if rng.random() < 0.7 else [rng.choice([0, 1]) for _ in range(t['ndim'])]
        cs += ['RadialDistributionFunction'] * 4 + ['RadialDistributionFunctionLegacy']
    wfile = rng.random() < 0.3 and not spec.get('slice')
    trajs = [t]
    if wfile:
        w = copy.deepcopy(t)
        w['name'] = 'w.xyz'
        w['field'] = True
        w['seed'] += 1
        if t['field']:
            wfile = False
        else:
            trajs.append(w)
    shared, steps = {}, []
    if rng.random() < 0.6:
        shared['k'] = G._kgrid(rng, t, n=rng.randint(2, 3), unsorted=True)
        if rng.random() < 0.6:
            rng.shuffle(shared['k'])
    if rng.random() < 0.5:
        shared['t'] = G._tgrid(rng, t) or [0.0, round(G.tinfo(t)['total'] * 0.4, 9)]
    if rng.random() < 0.4 and t['cellvar'] == 0:
        k0 = [2 * math.pi / x for x in t['sides']]
        kv = []
        for _ in range(rng.randint(1, 2)):
            vs = [[0] * t['ndim'] for _ in range(rng.randint(1, 3))]
            for v in vs:
                v[rng.randrange(t['ndim'])] = rng.choice([1, 2, -1, -2])
                if rng.random() < 0.5:
                    v[rng.randrange(t['ndim'])] += 1
                if not any(v):
                    v[0] = 1
            kv.append([[x * y for x, y in zip(v, k0)] for v in vs])
        shared['kv'] = kv
    fix = rng.random() < 0.4
    for _ in range(rng.choice([2, 3, 3, 4, 5, 6])):
        c = rng.choice(cs)
        if fix and rng.random() < 0.6:
            c = rng.choice([x for x in cs if x == 'MeanSquareDisplacement' or 'Scattering' in x] or cs)
        if steps and rng.random() < 0.2:
            st = copy.deepcopy(rng.choice(steps))
        else:
            st = G.cls_job(rng, t, c, update=False)
            kw = st['kw']
            if fix and 'fix_cm' in kw:
                kw['fix_cm'] = rng.random() < 0.7
            if 'k' in shared and kw.get('kgrid') is not None and rng.random() < 0.6:
                kw['kgrid'] = {'$': 'k'}
            if 't' in shared and kw.get('tgrid') is not None and rng.random() < 0.6 and not (c == 'IntermediateScattering' and shared['t'][0] != 0):
                kw['tgrid'] = {'$': 't'}
            if 'kv' in shared and c in FOURIER and rng.random() < 0.6:
                st['kvectors'] = {'$': 'kv'}
                kw['kgrid'] = [1.0] * len(shared['kv'])
            if spec.get('open') and c.startswith('Radial') and rng.random() < 0.8:
                kw['rmax'] = round(min(t['sides']) * rng.choice([0.15, 0.2, 0.23, 0.45]), 3)
            if wfile and c == 'StructureFactor' and rng.random() < 0.7:
                st['weight'] = {'file': 'w.xyz', 'field': 'field_B', 'fluctuations': rng.random() < 0.5}
        st['finish'] = rng.choice(['do', 'compute', 'analyze']) if st['cls'] != 'Susceptibility' else 'compute'
        st.pop('inject', None)
        if rng.random() < 0.2:
            st['inject'] = round(rng.random(), 5)
        steps.append(st)
    if wfile and not any(st.get('weight') for st in steps):
        sf = G.cls_job(rng, t, 'StructureFactor', update=False)
        sf.update(finish='compute', weight={'file': 'w.xyz', 'field': 'field_B', 'fluctuations': rng.random() < 0.5})
        steps.insert(rng.randrange(len(steps)), sf)
    return {'seed': rng.randrange(10**6), 'trajs': trajs, 'traj': spec, 'shared': shared, 'jobs': steps,
            'arrays': rng.random() < 0.4, 'build_first': rng.random() < 0.25, 'orders': 1 if rng.random() < 0.6 else 2, 'oseed': rng.randrange(10**6)}


def alone(s, case, st, start):
    s.restore(start)
    st = {k: v for k, v in st.items() if k != 'inject'}
    n = s.go([{'t': 'script', 'script': 'shared', 'traj': case['traj'], 'shared': case['shared'], 'arrays': case.get('arrays'), 'steps': [st]}])[0]
    if n.state != 'done' or not n.result['ok']:
        raise Skip('alone: %s' % cm.outcome(n))
    return n.result['out']['steps'][0]


def execute(case):
    return cm.windowed(play, case, lambda c: any(st.get('inject') is not None for st in c['jobs']))


def play(case, shift):
    import json
    import random
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    try:
        for t in case['trajs']:
            s.put_traj(t)
        s.advance(10**9)
        start = s.save()
        refs, cache = [], {}
        good = []
        for st in case['jobs']:
            key = json.dumps({k: v for k, v in st.items() if k != 'inject'}, sort_keys=True)
            if key not in cache:
                cache[key] = alone(s, case, st, start)
            r = cache[key]
            if not r['ok']:
                cm.bump(stats, 'alone_fails', '%s %s %s' % (cm.label(st), r['exc'], r['where'][-1]))
                continue
            if r['frames'] and not st.get('weight', {}).get('file'):
                raise Violation('frames', '%s alone changes the %s trajectory: %s' % (cm.label(st), case['traj']['kind'], r['frames']), case=dict(case, jobs=[st], orders=1))
            if r['params']:
                raise Violation('params', '%s alone changes the parameters it is given: %s' % (cm.label(st), r['params']), case=dict(case, jobs=[st], orders=1))
            good.append(st)
            refs.append(r)
        if not good:
            raise Skip('all analyses fail alone: %s' % r['where'][-1])
        cm.bump(stats, 'kinds', case['traj']['kind'])
        if case['traj'].get('slice'):
            stats['sliced'] = 1
        for o in range(case['orders']):
            idx = list(range(len(good)))
            if o:
                random.Random(case['oseed'] + o).shuffle(idx)
            steps = []
            for i in idx:
                st = copy.deepcopy(good[i])
                if st.get('inject') is not None:
                    st['inject'] = max(1, 1 + int(st['inject'] * refs[i]['points']) + shift)
                if st.get('weight', {}).get('file'):
                    stats['weights_file'] = stats.get('weights_file', 0) + 1
                if case['traj'].get('open'):
                    cm.bump(stats, 'kinds', 'not-periodic')
                if case.get('arrays'):
                    stats['arrays'] = 1
                if st.get('kvectors'):
                    stats['kvectors'] = stats.get('kvectors', 0) + 1
                if any(isinstance(v, dict) and '$' in v for v in st['kw'].values()):
                    stats['shared_lists'] = stats.get('shared_lists', 0) + 1
                steps.append(st)
            s.restore(start)
            skip = ['field_B'] if any(st.get('weight', {}).get('file') for st in steps) else []
            n = s.go([{'t': 'script', 'script': 'shared', 'traj': case['traj'], 'shared': case['shared'], 'arrays': case.get('arrays'), 'steps': steps,
                       'skip': skip, 'build_first': case['build_first']}])[0]
            exp = dict(case, jobs=[good[i] for i in idx], orders=1)
            seq = ', '.join(cm.label(st) + ('(interrupted)' if st.get('inject') else '') for st in steps)
            if n.state == 'abort':
                raise Violation('crash', '%s: the process crashes: %s' % (seq, n.result['msg']), case=exp)
            if n.state != 'done' or not n.result['ok']:
                raise Violation('fail', '%s: %s %s' % (seq, cm.outcome(n), (n.result or {}).get('where')), case=exp)
            for q, (i, st, r) in enumerate(zip(idx, steps, n.result['out']['steps'])):
                what = 'step %d, %s, of [%s] on a %s trajectory' % (q, cm.label(st), seq, case['traj']['kind'])
                if st.get('inject') is not None and r['fired']:
                    cm.bump(stats, 'faults', 'interrupt')
                if r['frames']:
                    raise Violation('frames', '%s: the frames are changed: %s' % (what, r['frames']), case=exp)
                if r['params']:
                    raise Violation('params', '%s: the parameters of the caller are changed: %s' % (what, r['params']), case=exp)
                if not r['ok']:
                    if st.get('inject') is not None and r['fired']:
                        continue
                    raise Violation('fail', '%s: fails: %s: %s %s' % (what, r['exc'], r['msg'], r['where']), case=exp)
                stats['distinct'].add((case['traj']['kind'], cm.label(st), tuple(cm.label(x) for x in steps[max(0, q - 2):q])))
                cm.bump(stats, 'jobs', cm.label(st))
                d = sim.vdiff(r['cap'], refs[i]['cap'])
                if d:
                    raise Violation('values', '%s: other values than alone: %s' % (what, d), case=exp)
        return cm.merge(stats, s)
    finally:
        s.close()


def shrink(case):
    yield from cm.shrink_lists(case, ['jobs'])
    for i, st in enumerate(case['jobs']):
        if st.get('inject') is not None:
            c = copy.deepcopy(case)
            del c['jobs'][i]['inject']
            yield c
    for k in ('arrays', 'traj'):
        c = copy.deepcopy(case)
        if k == 'arrays' and case.get(k):
            c[k] = False
            yield c
        elif k == 'traj' and case[k].get('open'):
            del c[k]['open']
            yield c
    if case['build_first']:
        yield dict(copy.deepcopy(case), build_first=False)
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
