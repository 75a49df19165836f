"""C04: I/O failures are reported, and a reported success is complete."""
import copy
import errno
import os

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C04'
LEVEL = 'exploration'
QUICK = 2550
THOROUGH = 20000
RULE = ('random analyses (all functions; class, api and command-line entry) on a clean disk or over earlier results, each run '
        'several times with system calls failing: one call with a random error, a disk that is full from some call on, a partial '
        'write followed by an error, or many short and interrupted transfers. distinct = (function, mode, kinds of fault, failing '
        'calls, outcome)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['errors reach the process through the C library calls (no memory-mapped or asynchronous I/O is used)']
PROBES = ['faults.err', 'faults.full', 'faults.err_mid', 'faults.short', 'faults.eintr', 'reported', 'survived', 'outcomes.cli-exit']


def gen(rng, k, tier):
    t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['cls', 'cls', 'cls', 'api', 'cli', 'cli'])
    trials = []
    for _ in range(rng.randint(5, 8)):
        r = rng.random()
        if r < 0.25:
            trials.append([sim.fault_sel(rng, ['short', 'eintr']) for _ in range(rng.randint(3, 12))])
        else:
            trials.append([sim.fault_sel(rng, ['err', 'err', 'err', 'err', 'err', 'err_mid', 'full', 'sigint'])])
            if rng.random() < 0.15:
                trials[-1].append(sim.fault_sel(rng, ['err', 'short', 'eintr']))
    ts = [t] + cm.other_file(rng, t, j)
    if len(ts) > 1 or rng.random() < 0.1:
        trials.append([{'gone': rng.randrange(len(ts))}])
    case = {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': rng.choice([1, 1, 10**9]),
            'trajs': ts, 'jobs': [j], 'before': rng.choice([None, 0, 1, 1]), 'trials': trials}
    if j['t'] == 'cls' and rng.random() < 0.25:
        # results of the same analysis with other parameters
        j2 = G.cls_job(rng, t, j['cls'], update=False)
        for q in ('mode', 'filter', 'species', 'template', 'radius'):
            j2.pop(q, None)
            if q in j:
                j2[q] = j[q]
        j2['kw'].pop('rcut', None)
        if 'rcut' in j['kw']:
            j2['kw']['rcut'] = j['kw']['rcut']
        case['before'], case['other'] = 0, j2
        case['jobs'] = [cm.set_update(j, False)]
    return case


def execute(case):
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    t, job = case['trajs'][0], case['jobs'][0]
    try:
        for w in case['trajs'][1:]:
            s.put_traj(w)
        clean = None
        if case.get('other'):
            s.put_traj(t, 0)
            s.advance(10**9)
            start = s.save()
            n = s.go([job])[0]
            if n.state != 'done' or not n.result['ok']:
                raise Skip('fault-free run fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
            clean = s.results()
            s.restore(start)
        if case['before'] is not None:
            s.put_traj(t, case['before'])
            s.go([case.get('other') or cm.set_update(job, False)])
            s.advance(10**9)
        if case['before'] != 0:
            s.put_traj(t, 0)
        s.advance(10**7)
        old = s.results()
        start = s.save()
        n = s.go([job])[0]
        if n.state != 'done' or not n.result['ok']:
            raise Skip('fault-free run fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
        ops, new, out = s.last, s.results(), n.result['out']
        if clean is not None:
            stats['replaced'] = stats.get('replaced', 0) + 1
            for p in clean:
                if not sim.same(new.get(p), clean[p]):
                    raise Violation('silent', '%s over results with other parameters ends normally but %s is not its result: %s' % (
                        cm.label(job), p, sim.fdiff(new.get(p), clean[p])), case=dict(case, trials=[]))
        cm.bump(stats, 'jobs', cm.label(job))
        for trial in case['trials']:
            if 'gone' in trial[0]:
                s.restore(start)
                gone(s, case, job, trial, old, new, stats)
                continue
            fs = []
            for sel in trial:
                f = sel['fault'] if 'fault' in sel else sim.resolve(sel, ops)
                if f is not None and not any(g['n'] == f['n'] for g in fs):
                    fs.append(f)
            if not fs:
                continue
            exp = copy.deepcopy(case)
            exp['trials'] = [[{'fault': f} for f in fs]]
            s.restore(start)
            n = s.go([job], {'faults': fs})[0]
            hit = [o for o in s.last if o[6]]
            if not hit:
                continue
            what = '%s with %s' % (cm.label(job), ', '.join('%s at %s(%s)%s' % (
                o[6], o[2], o[3], '') for o in hit[:4]) + ' (errno %s)' % ','.join(errno.errorcode.get(f.get('errno'), '-') for f in fs[:4]))
            benign = all(o[6] in ('short', 'eintr') for o in hit)
            now = s.results()
            ok = n.state == 'done' and n.result['ok']
            kinds = tuple(sorted({(o[6], o[2]) for o in hit}))
            stats['distinct'].add((cm.label(job), kinds, ok))
            if job['t'] == 'cli' and not ok:
                cm.bump(stats, 'outcomes', 'cli-exit')
            if n.state == 'abort':
                raise Violation('crash', '%s: the process crashes: %s' % (what, n.result['msg']), case=exp)
            if benign and not ok:
                raise Violation('benign', '%s: short or interrupted calls make the run fail: %s %s' % (
                    what, cm.outcome(n), n.result.get('where')), case=exp)
            if ok:
                stats['survived'] = stats.get('survived', 0) + 1
                for p in sorted(new):
                    if p not in now:
                        raise Violation('silent', '%s: the run ends normally but %s is missing' % (what, p), case=exp)
                    if not sim.same(now[p], new[p]):
                        raise Violation('silent', '%s: the run ends normally but %s is not the complete result: %s' % (
                            what, p, sim.fdiff(now[p], new[p])), case=exp)
                if out and 'cap' in out:
                    # rounding to the digits of a file if the values have been read back in one of the two runs
                    d = sim.vdiff(cm.vals(n.result['out']['cap']), cm.vals(out['cap']), 2e-5, 1e-7)
                    if d:
                        raise Violation('values', '%s: the run ends normally with other values: %s' % (what, d), case=exp)
            else:
                stats['reported'] = stats.get('reported', 0) + 1
                cm.check_paths(now, old, new, 'torn', what + ' (fails: %s)' % cm.outcome(n)[:80], case=exp)
        return cm.merge(stats, s)
    finally:
        s.close()


def gone(s, case, job, trial, old, new, stats):
    """One of the input files is not there any more: either the run fails or it did not need it."""
    name = case['trajs'][trial[0]['gone'] % len(case['trajs'])]['name']
    os.unlink(s.path(name))
    n = s.go([job])[0]
    what = '%s without %s' % (cm.label(job), name)
    exp = copy.deepcopy(case)
    exp['trials'] = [trial]
    now = s.results()
    cm.bump(stats, 'gone', cm.outcome(n).split(':')[0])
    if n.state == 'abort':
        raise Violation('crash', '%s: the process crashes: %s' % (what, n.result['msg']), case=exp)
    if not n.result['ok']:
        cm.check_paths(now, old, new, 'torn', what + ' (fails: %s)' % cm.outcome(n)[:80], case=exp)
        return
    for p in sorted(new):
        if not sim.same(now.get(p), new[p]):
            raise Violation('silent', '%s: the run ends normally but %s is not the complete result: %s' % (
                what, p, sim.fdiff(now.get(p), new[p])), case=exp)


def shrink(case):
    yield from cm.shrink_lists(case, ['trials'], 0)
    for i, tr in enumerate(case['trials']):
        for q in range(len(tr)):
            if len(tr) > 1:
                c = copy.deepcopy(case)
                del c['trials'][i][q]
                yield c
    if case['before'] is not None and not case.get('other'):
        c = copy.deepcopy(case)
        c['before'] = None
        yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
