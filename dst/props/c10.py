"""C10: results do not depend on the clock, progress bars or logging."""
import copy

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C10'
LEVEL = 'exploration'
QUICK = 2250
THOROUGH = 25000
RULE = ('random analyses (all functions; class, batch and command-line entry; some on block trajectories) run with a well behaved '
        'clock, no logging and no bars, then with frozen, coarse, fast and jumping clocks, logging at all levels to several kinds '
        'of handlers, progress bars on or off. distinct = (function, mode, kind of clock, logging level, handler, bars)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['the monotonic clock never goes back; the wall clock stays within years of its start', 'tqdm draws without its monitor thread']
MEASURE = 'distinct sequences (hash) of (system call, path); clock and logging configurations are counted in the breakdown'
PROBES = ['clock.frozen', 'clock.coarse', 'clock.jump', 'clock.slow', 'cfg.bars', 'cfg.debug', 'cfg.strict', 'cfg.file', 'cli_flags', 'clock_jumps']
CLOCKS = {'normal': {'tick': 1000, 'gran': 1},
          'frozen': {'tick': 0, 'gran': 1},
          'coarse': {'tick': 1000, 'gran': 15_625_000},
          'second': {'tick': 50_000, 'gran': 10**9},
          'slow': {'tick': 3 * 10**12, 'gran': 1},
          'jump': {'tick': 1000, 'gran': 1, 'jump': 300, 'jump_ns': 3600 * 10**9},
          'leap': {'tick': 1000, 'gran': 1, 'jump': 100, 'jump_ns': 2 * 365 * 86400 * 10**9},
          'jitter': {'tick': 20, 'gran': 1, 'jump': 1000, 'jump_ns': 2000}}


def gen(rng, k, tier):
    t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['cls', 'cls', 'cls', 'api', 'cli', 'cli'], update=False)
    j['template'] = None
    j.pop('output_path', None)
    if j['t'] == 'cls':
        j['how'] = rng.choice(['do', 'do', 'call', 'steps'])
    trials = []
    for _ in range(rng.randint(4, 6)):
        c = rng.choice(list(CLOCKS))
        cfg = {}
        if rng.random() < 0.6:
            cfg['level'] = rng.choice([0, 10, 10, 20, 20, 30, 40])
            cfg['handler'] = rng.choice(['stderr', 'memory', 'memory', 'file'])
            cfg['fmt'] = rng.random() < 0.5
            cfg['strict'] = rng.random() < 0.5
            cfg['root'] = rng.random() < 0.3
        elif rng.random() < 0.2:
            cfg['disable'] = rng.choice([30, 50])
        if rng.random() < 0.6:
            cfg['bars'] = rng.random() < 0.8
            if rng.random() < 0.3:
                cfg['encoding'] = rng.choice(['ascii', 'latin-1', 'utf-8'])
        if j['t'] == 'cli':
            cfg['flag'] = rng.choice([None, '--quiet', '--verbose', '--debug'])
        trials.append({'clock': c, 'cfg': cfg})
    return {'seed': rng.randrange(10**6), 'trajs': [t], 'jobs': [j], 'trials': trials}


def with_flag(job, flag):
    job = copy.deepcopy(job)
    argv = [a for a in job['argv'] if a not in ('--quiet', '--verbose', '--debug')]
    job['argv'] = ([flag] if flag else []) + argv
    return job


def execute(case):
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    job = case['jobs'][0]
    try:
        for t in case['trajs']:
            s.put_traj(t)
        s.advance(10**9)
        start = s.save()
        base = with_flag(job, '--quiet') if job['t'] == 'cli' else job
        n = s.go([{'t': 'script', 'script': 'clocked', 'cfg': {'bars': False}, 'main': base}])[0]
        r = n.result['out']['main'] if n.state == 'done' and n.result['ok'] else None
        if r is None or not r['ok']:
            raise Skip('reference run fails: %s %s' % (cm.label(job), r and (r['exc'], r.get('msg', '')[:60], r.get('where', [])[-1:])))
        ref, files = r['out'], s.results()
        cm.bump(stats, 'jobs', cm.label(job))
        for tr in case['trials']:
            cfg = tr['cfg']
            exp = dict(case, trials=[tr])
            s.restore(start)
            s.inputs = {t['name'] for t in case['trajs']} | {'log.txt'}
            s.clock = CLOCKS[tr['clock']]
            main = job
            if job['t'] == 'cli':
                main = with_flag(job, cfg.get('flag'))
                stats['cli_flags'] = stats.get('cli_flags', 0) + 1
            n = s.go([{'t': 'script', 'script': 'clocked', 'cfg': cfg, 'main': main}])[0]
            s.clock = {}
            what = '%s with clock %s, %s' % (cm.label(job), tr['clock'], cfg)
            if n.state == 'abort':
                raise Violation('crash', '%s: the process crashes: %s' % (what, n.result['msg']), case=exp)
            if n.state != 'done' or not n.result['ok']:
                raise Violation('fail', '%s: %s %s' % (what, cm.outcome(n), (n.result or {}).get('where')), case=exp)
            r = n.result['out']['main']
            cm.bump(stats, 'clock', tr['clock'])
            stats['clock_reads'] = stats.get('clock_reads', 0) + n.clkstat[0]
            stats['clock_jumps'] = stats.get('clock_jumps', 0) + n.clkstat[1]
            cm.bump(stats, 'faults', 'clock_jump', n.clkstat[1])
            if cfg.get('bars'):
                cm.bump(stats, 'cfg', 'bars')
            if cfg.get('level') is not None:
                cm.bump(stats, 'cfg', 'debug' if cfg['level'] <= 10 else 'info' if cfg['level'] <= 20 else 'warnings')
                cm.bump(stats, 'cfg', cfg['handler'])
                if cfg['strict']:
                    cm.bump(stats, 'cfg', 'strict')
            stats['distinct'].add((cm.label(job), tr['clock'], cfg.get('level'), cfg.get('handler'), cfg.get('bars'), cfg.get('flag')))
            if not r['ok']:
                raise Violation('fail', '%s: fails: %s: %s %s' % (what, r['exc'], r.get('msg'), r.get('where', [])[-3:]), case=exp)
            if r['out'] and 'cap' in r['out']:
                d = sim.vdiff(r['out']['cap'], ref['cap'])
                if d:
                    raise Violation('values', '%s: other values: %s' % (what, d), case=exp)
            now = s.results()
            if set(now) != set(files):
                raise Violation('files', '%s: files %s instead of %s' % (what, sorted(now), sorted(files)), case=exp)
            for p in files:
                if not sim.same(now[p], files[p]):
                    raise Violation('files', '%s: %s: %s' % (what, p, sim.fdiff(now[p], files[p])), case=exp)
        return cm.merge(stats, s)
    finally:
        s.close()


def shrink(case):
    yield from cm.shrink_lists(case, ['trials'])
    for i, tr in enumerate(case['trials']):
        if tr['clock'] != 'normal':
            c = copy.deepcopy(case)
            c['trials'][i]['clock'] = 'normal'
            yield c
        for key in list(tr['cfg']):
            if key in ('handler', 'fmt', 'strict', 'root'):
                continue
            c = copy.deepcopy(case)
            del c['trials'][i]['cfg'][key]
            yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
