"""C02: after crashes and faults, an update run restores the full result set."""
import copy

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C02'
LEVEL = 'exploration'
QUICK = 3600
THOROUGH = 30000
RULE = ('histories of 1-4 runs of one or two analyses of a trajectory (rewritten in between with some probability), each run hit '
        'by 1-2 faults (process death, power loss, error, full disk, short transfer) at random system calls, then update runs '
        'until one ends without a fault, compared with a fault-free run on a clean disk. distinct = (function, mode, kinds and '
        'calls of the faults, number of result files left by the crashes)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['clock of the machine does not go backwards between runs (file times decide what is up to date)',
               'the trajectory does not change while an analysis reads it',
               'result files are not deleted by hand (C03)']
KINDS = ['kill', 'kill', 'kill_after', 'kill_mid', 'power', 'power', 'err', 'err_mid', 'full', 'short', 'sigint']
PROBES = ['faults.kill', 'faults.kill_mid', 'faults.power', 'faults.err', 'faults.full', 'partial_sets', 'stale_sets', 'reused']


def compatible(a, b):
    fam = {'RadialDistributionFunctionLegacy': 'gr', 'RadialDistributionFunction': 'gr',
           'StructureFactor': 'sk', 'StructureFactorFast': 'sk', 'SelfIntermediateScatteringLegacy': 'fs',
           'SelfIntermediateScattering': 'fs', 'Chi4SelfOverlap': 'c4', 'Chi4SelfOverlapOptimized': 'c4', 'SelfOverlap': 'c4'}
    return fam.get(a, a) != fam.get(b, b)


def gen(rng, k, tier):
    # functions with auxiliary files and many partials are where sets can be incomplete
    if rng.random() < 0.45:
        c = rng.choice(['SelfIntermediateScattering', 'IntermediateScattering', 'SelfIntermediateScatteringLegacy', 'Chi4SelfOverlap',
                        'Chi4SelfOverlapOptimized', 'BondAngleDistribution', 'MeanSquareDisplacement'])
        t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['cls'], cls=c)
    else:
        t, j = cm.job_for(rng, rng.choice(cm.NAMES))
    jobs = [j]
    if j['t'] == 'cls' and rng.random() < 0.3:
        for _ in range(30):
            c = rng.choice(G.FILES_CLASSES)
            if not compatible(c, j['cls']) or not G.suits(t, c):
                continue
            j2 = G.cls_job(rng, t, c)
            j2['template'] = j['template']
            jobs.append(j2)
            break
    phases = []
    ver = 0
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        if rng.random() < 0.35:
            ver += 1
        phases.append({'job': rng.randrange(len(jobs)), 'ver': ver, 'adv': rng.choice([0, 10**6, 2 * 10**9]),
                       'update': rng.random() < 0.6,
                       'faults': [sim.fault_sel(rng, KINDS) for _ in range(rng.choice([0, 1, 1, 1, 2]) if i == 0 else rng.choice([1, 1, 2]))]})
    return {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': rng.choice([1, 1, 10**6, 10**9]),
            'trajs': [t], 'jobs': jobs, 'phases': phases}


def reference(case, ver, jobs, stats):
    r = cm.new_sim(case)
    try:
        r.put_traj(case['trajs'][0], ver)
        for j in jobs:
            n = r.go([cm.set_update(j, False)])[0]
            if n.state != 'done' or not n.result['ok']:
                raise Skip('fault-free run fails: %s %s %s' % (cm.label(j), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
        cm.merge(stats, r)
        return r.results()
    finally:
        r.close()


def execute(case):
    stats = {'distinct': set()}
    final_ver = case['phases'][-1]['ver']
    used = sorted({p['job'] % len(case['jobs']) for p in case['phases']})
    ref = reference(case, final_ver, [case['jobs'][i] for i in used], stats)
    s = cm.new_sim(case)
    ver = None
    what = []
    exp = copy.deepcopy(case)
    try:
        for pi, ph in enumerate(case['phases']):
            job = cm.set_update(case['jobs'][ph['job'] % len(case['jobs'])], ph['update'])
            if ph['ver'] != ver:
                ver = ph['ver']
                s.put_traj(case['trajs'][0], ver)
            s.advance(ph['adv'])
            faults = []
            if ph['faults']:
                start = s.save()
                n = s.go([job])[0]
                if n.state != 'done' or not n.result['ok']:
                    if ver == final_ver:
                        raise Violation('stuck', 'after %s, the run of %s without faults fails: %s' % (what, cm.label(job), cm.outcome(n)), case=exp)
                    faults = None
                else:
                    for sel in ph['faults']:
                        f = sel['fault'] if 'fault' in sel else sim.resolve(sel, s.last)
                        if f is not None:
                            faults.append(f)
                s.restore(start)
            exp['phases'][pi]['faults'] = [{'fault': f} for f in faults or []]
            n = s.go([job], {'faults': faults or []})[0]
            hit = sorted({(o[6], o[2]) for o in s.last if o[6]})
            what.append('%s(update=%s, trajectory v%d): %s %s' % (cm.label(job), ph['update'], ver, hit, cm.outcome(n)[:60]))
            stats['distinct'].add((cm.label(job), tuple(hit), len(s.results())))
        left = s.results()
        have = sum(1 for p in ref if p in left)
        if 0 < have < len(ref):
            stats['partial_sets'] = stats.get('partial_sets', 0) + 1
        if any(p in left and not sim.same(left[p], ref[p]) for p in ref):
            stats['stale_sets'] = stats.get('stale_sets', 0) + 1
        for i in used:
            job = cm.set_update(case['jobs'][i], True)
            n = s.go([job])[0]
            cm.bump(stats, 'jobs', cm.label(job))
            if n.state != 'done' or not n.result['ok']:
                raise Violation('stuck', 'after %s, the final update run of %s without faults fails: %s %s' % (
                    what, cm.label(job), cm.outcome(n), n.result.get('where')), case=exp)
            if not any(o[2] == 'openw' for o in s.last):
                stats['reused'] = stats.get('reused', 0) + 1
        now = s.results()
        for p in sorted(ref):
            if p not in now:
                raise Violation('missing', 'after %s and a final update run, %s is missing (%d of %d files are there)' % (
                    what, p, sum(1 for q in ref if q in now), len(ref)), case=exp)
            if not sim.same(now[p], ref[p]):
                raise Violation('wrong', 'after %s and a final update run, %s differs from that of an undisturbed run: %s' % (
                    what, p, sim.fdiff(now[p], ref[p])), case=exp)
        return cm.merge(stats, s)
    finally:
        s.close()


def shrink(case):
    yield from cm.shrink_lists(case, ['phases', 'jobs'])
    for i, p in enumerate(case['phases']):
        for q in range(len(p['faults'])):
            c = copy.deepcopy(case)
            del c['phases'][i]['faults'][q]
            yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
