"""C05: concurrent analysis processes never publish or accept torn results."""
import copy

import gen as G
import sim
import world
from sim import Skip, Violation
from . import common as cm

ID = 'C05'
LEVEL = 'exploration'
QUICK = 2250
THOROUGH = 50000
RULE = ('2-4 processes (class, api and command line, with and without update) that analyse 1-2 trajectories at the same time, with the '
        'same analysis, different analyses, or different parameters on one path, over a clean disk or earlier results, under '
        'random schedules at the granularity of system calls, with kills and errors of some of them; every content of every '
        'result path is checked at every instant. distinct = hash of the interleaving of (process, call, path)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['the disk has POSIX semantics (atomic rename); no trajectory changes during the runs',
               'processes run between system calls without sharing memory']
PROBES = ['faults.kill', 'modes.same', 'modes.params', 'modes.mixed', 'accepted', 'switches']
MEASURE = 'distinct sequences (hash) of (process, system call, path, injected action) of the concurrent epoch'


def gen(rng, k, tier):
    mode = rng.choice(['same', 'same', 'params', 'mixed', 'mixed', 'files', 'reread'])
    if mode == 'reread':
        return reread(rng)
    t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['cls', 'cls', 'api', 'cli'])
    ts, jobs = [t], [j]
    n = rng.choice([2, 2, 3, 4])
    if mode == 'same':
        for _ in range(n - 1):
            jobs.append(cm.set_update(j, rng.random() < 0.6))
    elif mode == 'params':
        # the same function with other parameters writes the same paths
        for _ in range(n - 1):
            if j['t'] == 'cls':
                j2 = G.cls_job(rng, t, j['cls'])
                j2['mode'] = j['mode']
                for q in ('filter', 'species'):
                    j2.pop(q, None)
                    if q in j:
                        j2[q] = j[q]
            else:
                j2 = (G.api_job if j['t'] == 'api' else G.cli_job)(rng, [t], j['f'])
            j2['template'] = j['template']
            jobs.append(cm.set_update(j2, rng.random() < 0.3))
    elif mode == 'mixed':
        for _ in range(n - 1):
            for _ in range(30):
                c = rng.choice(G.FILES_CLASSES)
                if G.suits(t, c):
                    j2 = G.cls_job(rng, t, c)
                    j2['template'] = j['template']
                    jobs.append(j2)
                    break
    else:
        t2 = None
        for _ in range(n - 1):
            if j['t'] == 'cls':
                t2, j2 = cm.job_for(rng, 'z.xyz', kinds=['cls'], cls=j['cls'])
            else:
                t2, j2 = cm.job_for(rng, 'z.xyz', kinds=[j['t']], f=j['f'])
            j2['template'] = j['template']
            jobs.append(j2)
            break
        ts.append(t2)
        jobs = [x for x in jobs if x is not None]
        if rng.random() < 0.5:
            jobs.append(cm.set_update(jobs[rng.randrange(len(jobs))], True))
    faults = []
    if rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 2])):
            f = sim.fault_sel(rng, ['kill', 'kill', 'kill_after', 'kill_mid', 'err', 'short'])
            f['node'] = rng.randrange(len(jobs))
            faults.append(f)
    return {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': rng.choice([1, 1, 10**6, 10**9]), 'trajs': ts, 'jobs': jobs,
            'mode': mode, 'before': rng.choice([None, None, 'old', 'same']), 'faults': faults,
            'schedules': [{'sseed': rng.randrange(10**6), 'stick': rng.choice([0.0, 0.3, 0.6, 0.9, 0.96])} for _ in range(rng.randint(2, 4))]}


def reread(rng):
    """Update runs read what is there while others publish other versions of it."""
    while True:
        t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['cls'])
        if j['mode'] != 'partial' and 'IntermediateScattering' not in j['cls']:
            break
    jobs = [cm.set_update(j, True) for _ in range(rng.choice([1, 1, 2]))]
    for _ in range(rng.choice([1, 1, 2])):
        j2 = G.cls_job(rng, t, j['cls'])
        j2['mode'] = j['mode']
        for q in ('filter', 'species'):
            j2.pop(q, None)
            if q in j:
                j2[q] = j[q]
        j2['template'] = j['template']
        jobs.append(cm.set_update(j2, False))
    return {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': rng.choice([1, 1, 10**6, 10**9]), 'trajs': [t], 'jobs': jobs,
            'mode': 'reread', 'before': 'same', 'faults': [],
            'schedules': [{'sseed': rng.randrange(10**6), 'stick': rng.choice([0.0, 0.3, 0.6, 0.9])} for _ in range(6)]}


def execute(case):
    stats = {'distinct': set()}
    jobs, ts = case['jobs'], case['trajs']
    alone, caps, opses = [], [], []
    for j in jobs:
        r = cm.new_sim(case)
        try:
            for t in ts:
                r.put_traj(t)
            n = r.go([cm.set_update(j, False)])[0]
            if n.state != 'done' or not n.result['ok']:
                raise Skip('fault-free run fails: %s %s %s' % (cm.label(j), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
            alone.append(r.results())
            caps.append((n.result['out'] or {}).get('cap'))
            opses.append(r.last)
            cm.merge(stats, r)
        finally:
            r.close()
    # paths that jobs write with different contents are checked file by file only
    allowed, clash = {}, set()
    for a in alone:
        for p, c in a.items():
            for o in allowed.get(p, []):
                if not sim.same(o, c):
                    clash.add(p)
            allowed.setdefault(p, []).append(c)
    s = cm.new_sim(case)
    try:
        if case['before'] == 'old':
            for t in ts:
                s.put_traj(t, 1)
            s.advance(10**9)
            for j in jobs:
                s.go([cm.set_update(j, False)])
            s.advance(10**10)
        for t in ts:
            s.put_traj(t, 0)
        s.advance(10**10)
        if case['before'] == 'same':
            s.go([cm.set_update(jobs[0], False)])
            s.advance(10**10)
        old = s.results()
        start = s.save()
        cm.bump(stats, 'modes', case['mode'])
        for sc in case['schedules']:
            s.restore(start)
            faults = []
            for sel in case['faults']:
                node = sel['node'] % len(jobs)
                if 'fault' in sel:
                    f = dict(sel['fault'], node=node)
                else:
                    f = sim.resolve(sel, opses[node], 0)
                    if f is None:
                        continue
                    f['node'] = node
                faults.append(f)
            seen, ob = cm.seen_collector(s)
            s.observers = [ob]
            plan = dict(sc)
            plan['faults'] = faults
            ns = s.go([copy.deepcopy(j) for j in jobs], plan)
            s.observers = []
            chosen = s.chosen
            exp = copy.deepcopy(case)
            exp['schedules'] = [{'schedule': chosen}]
            exp['faults'] = [{'node': f['node'], 'fault': f} for f in faults]
            sw = sum(1 for a, b in zip(chosen, chosen[1:]) if a != b)
            stats['switches'] = stats.get('switches', 0) + sw
            stats['distinct'].add(sim.hash_ops(s.last))
            hit = [o for o in s.last if o[6]]
            what = '%s at the same time (%s, %d switches, faults %s)' % (
                [cm.label(j) + ('+u' if j.get('update') or j.get('kw', {}).get('update') else '') for j in jobs], case['mode'], sw,
                [(o[6], o[1], o[2]) for o in hit])
            for p, contents in seen.items():
                if p not in allowed:
                    continue    # a temporary file, whatever its name
                for c in contents.values():
                    if sim.same(c, old.get(p)) or any(sim.same(c, a) for a in allowed[p]):
                        continue
                    raise Violation('torn', '%s: at some instant %s holds %d bytes which are no complete result: %r' % (
                        what, p, len(c), c[-80:]), case=exp)
            now = s.results()
            for p in now:
                if p not in allowed and p not in old and not hit:
                    raise Violation('stray', '%s: unknown result %s' % (what, p), case=exp)
            for p in old:
                if p not in now:
                    raise Violation('lost', '%s: %s has been lost' % (what, p), case=exp)
            last = publisher(s.last, allowed, clash, len(jobs))
            hurt = {o[1] for o in hit if o[6] not in ('short', 'eintr')}
            for i, n in enumerate(ns):
                if n.state == 'abort':
                    raise Violation('crash', '%s: process %d crashed: %s' % (what, i, n.result['msg']), case=exp)
                if n.state != 'done':
                    continue
                if not n.result['ok']:
                    if i in hurt:
                        continue
                    raise Violation('fails', '%s: process %d (%s) fails although nothing happened to it: %s %s' % (
                        what, i, cm.label(jobs[i]), cm.outcome(n), n.result.get('where')), case=exp)
                # a survivor: its whole set is there
                for p, c in alone[i].items():
                    if p not in now:
                        raise Violation('missing', '%s: process %d (%s) is done but %s is missing' % (what, i, cm.label(jobs[i]), p), case=exp)
                    if (p not in clash or i == last and not updates(jobs[i])) and not sim.same(now[p], c):
                        raise Violation('differs', '%s: process %d (%s) is done but %s differs from the serial result: %s' % (
                            what, i, cm.label(jobs[i]), p, sim.fdiff(now[p], c)), case=exp)
                if caps[i] is not None and not any(o[1] == i and o[2] == 'openw' for o in s.last):
                    accepted(n.result['out']['cap'], alone[i], allowed, old, '%s: process %d (%s)' % (what, i, cm.label(jobs[i])), exp)
                    stats['accepted'] = stats.get('accepted', 0) + 1
                elif caps[i] is not None and not clash:
                    got = n.result['out']['cap']
                    d = sim.vdiff(cm.vals(got), cm.vals(caps[i]), 2e-5, 1e-7)
                    if d:
                        raise Violation('values', '%s: process %d (%s) got other values than alone: %s' % (what, i, cm.label(jobs[i]), d), case=exp)
        return cm.merge(stats, s)
    finally:
        s.close()


def updates(j):
    return bool(j.get('update') or j.get('kw', {}).get('update') or '--update' in j.get('argv', []))


def publisher(ops, allowed, clash, n):
    """The process all whose changes of result paths come after those of the others, if there is one."""
    if not clash:
        return None
    first, final = {}, {}
    for i, (e, node, op, p1, p2, a, act) in enumerate(ops):
        if op in world.MUT and (p1 in allowed or p2 in allowed):
            first.setdefault(node, i)
            final[node] = i
    if not final:
        return None
    last = max(final, key=final.get)
    if any(final[m] > first[last] for m in final if m != last):
        return None
    return last


def accepted(cap, mine, allowed, old, what, exp):
    """Grid and values which were read back are those of one complete version of a result."""
    caps = [cap] if 'grid' in cap and 'value' in cap else list(cap.values())
    stored = []
    for p in mine:
        for c in allowed[p] + ([old[p]] if p in old else []):
            cols = sim.parse_cols(c)
            if len(cols) == 2:
                stored.append(cols)
    if not stored:
        return      # functions of two variables are not read back
    for c in caps:
        if cm.vals(c) is None or (c['grid'] is None and c['value'] is None):
            continue
        if not any(sim.vdiff([c['grid'], c['value']], cols, 2e-5, 1e-7) is None for cols in stored):
            raise Violation('values', '%s accepts a result, but its grid (%d) and values (%d) are those of no complete version' % (
                what, len(c['grid'] or []), len(c['value'] or [])), case=exp)


def rle(seq):
    out = []
    for x in seq:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def shrink(case):
    yield from cm.shrink_lists(case, ['schedules'])
    yield from cm.shrink_lists(case, ['faults'], 0)
    if len(case['jobs']) > 1:
        for i in range(len(case['jobs'])):
            c = copy.deepcopy(case)
            del c['jobs'][i]
            c['faults'] = [f for f in c['faults'] if f['node'] != i]
            for f in c['faults']:
                f['node'] -= f['node'] > i
            for sc in c['schedules']:
                if 'schedule' in sc:
                    sc['schedule'] = [x - (x > i) for x in sc['schedule'] if x != i]
            yield c
    for si, sc in enumerate(case['schedules']):
        if 'schedule' in sc:
            r = rle(sc['schedule'])
            for cut in (len(r) // 4, len(r) // 2, 3 * len(r) // 4, len(r) - 1):
                if 0 < cut < len(r):
                    c = copy.deepcopy(case)
                    c['schedules'][si]['schedule'] = [x for x, m in r[:cut] for _ in range(m)]
                    yield c
            step = max(1, len(r) // 24)
            for i in range(0, len(r), step):
                c = copy.deepcopy(case)
                c['schedules'][si]['schedule'] = [x for x, m in r[:i] + r[i + step:] for _ in range(m)]
                yield c
    if case['before']:
        c = copy.deepcopy(case)
        c['before'] = None
        yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
