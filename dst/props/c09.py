"""C09: a failed or repeated computation can be retried on the same object."""
import copy

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C09'
LEVEL = 'exploration'
QUICK = 2250
THOROUGH = 25000
RULE = ('random analyses (classes, partials, filters, weights; trajectory on file, cached, in memory, sliced), each object '
        'computed several times: attempts are hit by an interrupt, a failed allocation or an I/O error at a line event of the '
        'package, by a frame that cannot be read or by a filter callback that raises, or are left alone; a successful attempt '
        'must give what a new object gives. distinct = (function, mode, kinds of attempts, line at which the fault struck)')
REAL = cm.REAL
STUB = cm.STUB + ['faults: raised at line events of the package, in a read callback of the trajectory and in the filter']
ASSUMPTIONS = ['an exception can come at any line of the package (between two lines it cannot); values agree to 1e-9']
PROBES = ['faults.line', 'faults.read', 'faults.callback', 'faults.memory', 'faults.interrupt', 'retries', 'repeats', 'several_failures']


def gen(rng, k, tier):
    c = rng.choice([x for x in G.CLASSES if x != 'StressAutocorrelation'])
    need, avoid = G.needs(c)
    need = list(need)
    t = G.traj(rng, 'a.xyz', need, avoid, small=True)
    j = G.cls_job(rng, t, c, update=False)
    kind = rng.choice(['file', 'cached', 'ram', 'ramview'])
    spec = {'file': 'a.xyz', 'kind': kind}
    if rng.random() < 0.1 and not G.tinfo(t)['block'] and len(t['steps']) > 5 and c != 'SpectralDensity':
        spec['slice'] = [1, None, 1]
    callback = rng.random() < 0.3 and j['mode'] == 'plain' and c != 'Susceptibility'
    seqs = []
    for _ in range(rng.randint(3, 5)):
        n = rng.choice([0, 1, 1, 1, 2, 3])
        at = []
        if rng.random() < 0.25:
            at.append({'kind': None, 'finish': rng.choice(['do', 'compute', 'analyze'])})
        for _ in range(n):
            r = rng.random()
            a = {'kind': 'line', 'u': round(rng.random(), 5), 'exc': rng.choice(['interrupt', 'interrupt', 'memory', 'oserror'])}
            if rng.random() < 0.3:
                a['u'] = round(1 - 0.1 * rng.random(), 5)
            if r < 0.25:
                a['kind'] = 'read'
            elif r < 0.5 and callback:
                a['kind'] = 'callback'
            a['finish'] = rng.choice(['do', 'compute'])
            at.append(a)
        if n == 0 and not at:
            at.append({'kind': None, 'finish': 'compute'})
        at.append({'kind': None, 'finish': rng.choice(['do', 'analyze', 'do'])})
        seqs.append(at)
    if c == 'Susceptibility':      # it has no name to be written with
        for sq in seqs:
            for a in sq:
                a['finish'] = 'compute'
    return {'seed': rng.randrange(10**6), 'trajs': [t], 'traj': spec, 'jobs': [j], 'callback': callback, 'seqs': seqs}


def attempt(case, s, start, node, ref, files, at, stats):
    """Plays one sequence of attempts"""
    job = case['jobs'][0]
    s.restore(start)
    n = s.go([dict(node, attempts=at)])[0]
    exp = dict(case, seqs=[at])
    what = '%s on a %s trajectory' % (cm.label(job), case['traj']['kind'])
    if n.state == 'abort':
        raise Violation('crash', '%s: the process crashes: %s' % (what, n.result['msg']), case=exp)
    if n.state != 'done' or not n.result['ok']:
        raise Violation('fail', '%s: %s %s' % (what, cm.outcome(n), (n.result or {}).get('where')), case=exp)
    failures, success, story = 0, 0, []
    for a, r in zip(at, n.result['out']['attempts']):
        story.append('%s %s' % (a['finish'], 'ok' if r['ok'] else '%s at %s' % (r['exc'], r['at'] or r['where'][-1:])))
        w = '%s: %s' % (what, '; '.join(story))
        if r['fired']:
            cm.bump(stats, 'faults', a['kind'])
            if a['kind'] == 'line':
                cm.bump(stats, 'faults', a['exc'])
            stats['distinct'].add((cm.label(job), a['kind'], tuple(r['at'][:2]), failures))
        if not r['ok']:
            if not r['fired']:
                raise Violation('fail', '%s: fails on its own: %s %s' % (w, r['msg'], r['where']), case=exp)
            failures += 1
            if r['computing']:
                own = r['published']
                if own:
                    raise Violation('published', '%s: the failed computation publishes %s' % (w, own), case=exp)
            continue
        if r['fired'] and a['kind'] == 'line':
            # swallowed by the package: the analysis may lack it
            stats['swallowed'] = stats.get('swallowed', 0) + 1
        if a['finish'] == 'compute':
            r['cap'], cap = strip(r['cap']), strip(ref['cap'])
        else:
            cap = ref['cap']
        d = sim.vdiff(r['cap'], cap)
        if d:
            raise Violation('values', '%s: other values than those of a new object: %s' % (w, d), case=exp)
        if failures:
            stats['retries'] = stats.get('retries', 0) + 1
        if success:
            stats['repeats'] = stats.get('repeats', 0) + 1
        success += 1
    if failures > 1:
        stats['several_failures'] = stats.get('several_failures', 0) + 1
    now = s.results()
    if at[-1]['finish'] == 'do':
        if failures:
            # a fault in the clean-up itself may leave a temporary file
            now = {p: c for p, c in now.items() if p in files}
        if set(now) != set(files):
            raise Violation('files', '%s: %s: files %s instead of %s' % (what, '; '.join(story), sorted(now), sorted(files)), case=exp)
        for p in files:
            if not sim.same(now[p], files[p]):
                raise Violation('files', '%s: %s: %s: %s' % (what, '; '.join(story), p, sim.fdiff(now[p], files[p])), case=exp)


def wide(case, s, start, node, ref, files, at):
    """Is the violation there as well when the exceptions at lines are raised a little earlier or later?"""
    for d in (8, -8, 16, -16):
        try:
            attempt(case, s, start, node, ref, files, [dict(a, at=max(1, a['at'] + d)) if a['kind'] == 'line' else a for a in at],
                    {'distinct': set()})
        except Violation:
            return True
    return False


def execute(case):
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    job = case['jobs'][0]
    try:
        for t in case['trajs']:
            s.put_traj(t)
        s.advance(10**9)
        start = s.save()
        node = {'t': 'script', 'script': 'retry', 'traj': case['traj'], 'main': job, 'callback': case['callback']}
        n = s.go([dict(node, attempts=[{'kind': None, 'finish': 'compute' if job['cls'] == 'Susceptibility' else 'do'}])])[0]
        if n.state != 'done' or not n.result['ok']:
            raise Skip('alone: %s' % cm.outcome(n))
        ref = n.result['out']['attempts'][0]
        if not ref['ok']:
            raise Skip('alone: %s %s %s %s' % (cm.label(job), ref['exc'], ref['msg'], ref['where'][-1]))
        files = s.results()
        cm.bump(stats, 'jobs', cm.label(job))
        for seq in case['seqs']:
            at = []
            for a in seq:
                a = dict(a)
                if a['kind'] == 'callback' and not ref['calls']:
                    a['kind'] = 'line'
                if a['kind'] and 'at' not in a:
                    total = {'line': ref['points'], 'read': ref['reads'], 'callback': ref['calls']}[a['kind']]
                    a['at'] = 1 + int(a['u'] * total)
                at.append(a)
            try:
                attempt(case, s, start, node, ref, files, at, stats)
            except Violation as v:
                # Exceptions at lines of the package are the harshest of faults: code is held responsible
                # for them unless the window is a few lines wide
                if any(a['kind'] == 'line' for a in at) and not wide(case, s, start, node, ref, files, at):
                    stats['narrow'] = stats.get('narrow', 0) + 1
                    continue
                raise
        return cm.merge(stats, s)
    finally:
        s.close()


def strip(c):
    """without the analysis"""
    if isinstance(c, dict):
        return {k: strip(v) for k, v in c.items() if k != 'analysis'}
    return c


def shrink(case):
    yield from cm.shrink_lists(case, ['seqs'])
    for i, sq in enumerate(case['seqs']):
        for q in range(len(sq)):
            if len(sq) > 1:
                c = copy.deepcopy(case)
                del c['seqs'][i][q]
                yield c
    if case['callback']:
        yield dict(copy.deepcopy(case), callback=False)
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
