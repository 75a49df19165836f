"""C01: a crash never leaves a torn result file."""
import copy
import os

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C01'
LEVEL = 'exploration'
QUICK = 2400
THOROUGH = 12000
RULE = ('histories of 1-3 analyses (all functions; totals, partials, filters; api, class and command-line entry) of a random '
        'trajectory which is rewritten in between; each analysis is run once without fault with the disk observed after every '
        'system call, and several times with a process death (before, after or in the middle of a call) or a power loss at a '
        'random call. distinct = (function, mode, fault kind, failing call, files already published)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['a power loss keeps the directory operations made so far and, of the data not synced, any prefix',
               'random paths: a sample of crash points per history, all observation points of the fault-free run']
KINDS = ['kill', 'kill_after', 'kill_mid', 'kill_mid', 'power', 'power', 'power']
PROBES = ['faults.kill', 'faults.kill_mid', 'faults.power', 'faults.power_cut_files', 'old_kept', 'new_found']


def gen(rng, k, tier):
    t, j = cm.job_for(rng, rng.choice(cm.NAMES), update=False)
    jobs = [j]
    if rng.random() < 0.4 and j['t'] == 'cls':
        for _ in range(20):
            c = rng.choice(G.FILES_CLASSES)
            if G.suits(t, c):
                j2 = G.cls_job(rng, t, c, update=rng.random() < 0.4)
                j2['template'] = j['template']
                jobs.append(j2)
                break
    steps = []
    ver = 0
    for i in range(rng.choice([1, 2, 2, 3])):
        if i and rng.random() < 0.6:
            ver += 1
        steps.append({'job': rng.randrange(len(jobs)), 'ver': ver, 'adv': rng.choice([0, 10**6, 10**9]),
                      'cont': 'crash' if rng.random() < 0.3 else 'twin',
                      'trials': [sim.fault_sel(rng, KINDS) for _ in range(rng.randint(3, 5))]})
    return {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': rng.choice([1, 1, 10**9]),
            'trajs': [t], 'jobs': jobs, 'steps': steps, 'links': rng.random() < 0.15}


def link_results(s, n):
    """The user keeps some of the results elsewhere and has links to them"""
    for i, p in enumerate(sorted(s.results())):
        if p.startswith('store/') or os.path.islink(s.path(p)) or i % 2:
            continue
        s.link(p, 'store/%d-%d.dat' % (n, i))
        if i % 4:
            os.unlink(s.path('store/%d-%d.dat' % (n, i)))



def execute(case):
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    t = case['trajs'][0]
    ver = None
    try:
        for si, step in enumerate(case['steps']):
            job = case['jobs'][step['job'] % len(case['jobs'])]
            if step['ver'] != ver:
                ver = step['ver']
                s.put_traj(t, ver)
            s.advance(step['adv'])
            if si and case.get('links'):
                link_results(s, si)
            old = s.results()
            start = s.save()
            seen, ob = cm.seen_collector(s)
            s.observers = [ob]
            n = s.go([job])[0]
            s.observers = []
            if n.state != 'done' or not n.result['ok']:
                if si == 0:
                    raise Skip('fault-free run fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
                s.restore(start)
                continue
            ops = s.last
            new = s.results()
            end = s.save()
            cm.bump(stats, 'jobs', cm.label(job))

            def explicit(f):
                c = copy.deepcopy(case)
                c['steps'] = c['steps'][:si + 1]
                c['steps'][si]['trials'] = [] if f is None else [{'fault': f}]
                return c
            for p, contents in seen.items():
                for c in contents.values():
                    cm.check_paths({p: c, **{q: x for q, x in old.items() if q != p}}, old, new, 'torn', 'during %s, as an observer (or a kill) sees it' % cm.label(job),
                                   case=explicit(None))
            state = end
            for sel in step['trials']:
                f = sel['fault'] if 'fault' in sel else sim.resolve(sel, ops)
                if f is None:
                    continue
                s.restore(start)
                n = s.go([job], {'faults': [f]})[0]
                now = s.results()
                hit = [o for o in s.last if o[6]]
                if n.state == 'done' and not hit:
                    continue
                what = '%s, %s at call %d (%s %s)' % (cm.label(job), f['kind'], f['n'], hit[0][2] if hit else '?', hit[0][3] if hit else '')
                cm.check_paths(now, old, new, 'torn', what, case=explicit(f))
                pub = sum(1 for p in new if p in now and sim.same(now[p], new[p]) and not sim.same(new[p], old.get(p)))
                stats['old_kept'] = stats.get('old_kept', 0) + sum(1 for p in old if p in now and sim.same(now[p], old[p]))
                stats['new_found'] = stats.get('new_found', 0) + pub
                stats['distinct'].add((cm.label(job), f['kind'], hit[0][2] if hit else '', pub))
                state = None
                last = s.save()
            if step['cont'] == 'crash' and state is None:
                s.restore(last)
            else:
                s.restore(end)
        return cm.merge(stats, s)
    finally:
        s.close()


def shrink(case):
    if case.get('links'):
        yield dict(case, links=False)
    yield from cm.shrink_lists(case, ['steps', 'jobs'])
    for i, st in enumerate(case['steps']):
        if st['trials'] and i < len(case['steps']) - 1:
            c = copy.deepcopy(case)
            c['steps'][i]['trials'] = []
            yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)

