"""C03: update mode recomputes exactly when a result is missing or stale."""
import copy
import os

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C03'
LEVEL = 'exploration'
QUICK = 4200
THOROUGH = 40000
RULE = ('rounds of an update run after random changes of a finished result set: main result files removed, made older than, as '
        'old as or newer than the trajectory (file-time granularity from 1 us to 2 s, differences down to 1 us), the trajectory '
        'rewritten, result files corrupted while newer, other analyses run in between; the outcome is predicted from the file '
        'times alone. distinct = (function, mode, number of main files, states of the files, granularity)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['main result files only decide (a missing auxiliary or .tau file alone does not)',
               'time differences below the resolution of file times in Python (~0.3 us) are not tried',
               'the trajectory does not change during an analysis']
PROBES = ['untouched', 'recomputed', 'states.missing', 'states.equal', 'states.older', 'states.newer', 'again', 'linked']


def gen(rng, k, tier):
    if rng.random() < 0.8:
        t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['cls'], cls=rng.choice(G.FILES_CLASSES))
    else:
        t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['api', 'cli'], apis=['gr', 'sk', 'ik', 'msd', 'vacf', 'alpha2', 'qst', 'qt', 'fkt', 'fskt', 'chi4qs', 'ba'])
    gran = rng.choice([1000, 1000, 10**6, 10**9, 2 * 10**9])
    if j['t'] == 'cls' and rng.random() < 0.2:
        # the same object again and again
        rounds = [[rng.choice(['newer', 'newer', 'newer', 'missing', 'older', 'equal', 'other']) for _ in range(rng.choice([1, 2, 5]))]
                  for _ in range(rng.randint(2, 5))]
        j['kind'] = rng.choice(['file', 'cached'])
        return {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': gran, 'trajs': [t], 'jobs': [j], 'again': rounds}
    rounds = []
    for _ in range(rng.randint(2, 4)):
        r = {'adv': rng.choice([0, 10**6, 10**9, 5 * 10**9]), 'traj': rng.random() < 0.25, 'files': [], 'links': rng.random() < 0.06}
        # what happens to the i-th main result file
        quiet = rng.random() < 0.3
        for i in range(10):
            x = rng.random()
            if quiet or x < 0.5:
                r['files'].append(['newer', rng.choice([0, 0, 1, 3, 10**6])])
            elif x < 0.65:
                r['files'].append(['missing', 0])
            elif x < 0.8:
                r['files'].append(['older', rng.choice([1, 1, 5, 10**6])])
            elif x < 0.95:
                r['files'].append(['equal', 0])
            else:
                r['files'].append(['keep', 0])
        if rng.random() < 0.5 and not quiet:
            # exactly one of them is bad
            b = rng.randrange(10)
            r['files'] = [['newer', 1] if i != b else f for i, f in enumerate(r['files'])]
            r['one'] = b
            r['files'][b] = rng.choice([['missing', 0], ['older', 1], ['equal', 0]])
        rounds.append(r)
    return {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': gran, 'trajs': [t], 'jobs': [j], 'rounds': rounds,
            'link': rng.choice([-2 * 10**10, 2 * 10**10, 2 * 10**12]) if rng.random() < 0.15 else None}


def put(s, case, ver):
    """The trajectory, which may be a link to another place"""
    t = case['trajs'][0]
    if case.get('link') is None:
        s.put_traj(t, ver)
        return
    s.put_traj(t, ver, 'store/data')
    if not os.path.islink(s.path(t['name'])):
        os.makedirs(os.path.dirname(s.path(t['name'])), exist_ok=True)
        s.link(t['name'], 'store/data')
        s.inputs.add(t['name'])
    ns = s.now + case['link']
    os.utime(s.path(t['name']), ns=(ns, ns), follow_symlinks=False)


def reference(case, ver, stats):
    """Results of the trajectory on a clean disk: (files, files of the first group, captured)"""
    r = cm.new_sim(case)
    job = case['jobs'][0]
    try:
        put(r, case, ver)
        n = r.go([cm.set_update(job, False)])[0]
        if n.state != 'done' or not n.result['ok']:
            raise Skip('fault-free run fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
        files = r.results()
        cap = n.result['out'].get('cap') if n.result['out'] else None
        cm.merge(stats, r)
    finally:
        r.close()
    if job['t'] == 'cls':
        return files, None, cap
    # batch calls: the total and the partials are two groups
    r = cm.new_sim(case)
    try:
        put(r, case, ver)
        j = cm.set_update(job, False)
        if j['t'] == 'api':
            j['kw']['no_partial'] = True
        else:
            j['argv'] = ['--no-partial'] + j['argv']
        n = r.go([j])[0]
        if n.state != 'done' or not n.result['ok']:
            raise Skip('fault-free run fails without partials')
        tot = set(r.results())
    finally:
        r.close()
    return files, tot, None


def execute(case):
    stats = {'distinct': set()}
    if 'again' in case:
        s = cm.new_sim(case)
        try:
            again(s, case, stats)
            return cm.merge(stats, s)
        finally:
            s.close()
    job = case['jobs'][0]
    t = case['trajs'][0]
    ver = 0
    ref, tot, cap = reference(case, ver, stats)
    s = cm.new_sim(case)
    try:
        put(s, case, ver)
        s.advance(2 * 10**10)
        n = s.go([cm.set_update(job, False)])[0]
        if n.state != 'done' or not n.result['ok']:
            raise Skip('fault-free run fails')
        s.advance(10**10)
        gran = case['fs_gran']
        for ri, rd in enumerate(case['rounds']):
            s.advance(rd['adv'])
            if rd['traj']:
                ver += 1
                ref, tot, cap = reference(case, ver, stats)
                put(s, case, ver)
                s.advance(2 * 10**10)
            tj = t['name']
            if case.get('link') is not None or rd.get('links'):
                stats['linked'] = stats.get('linked', 0) + 1
            if rd.get('links'):
                for i, p in enumerate(sorted(s.results())):
                    if i % 2 == 0 and not p.startswith('store/') and not os.path.islink(s.path(p)):
                        s.link(p, 'store/%d-%d' % (ri, i))
            snap = s.snapshot()
            t_traj = snap[tj][1]
            mains = sorted(p for p in ref if not sim.is_aux(ref[p]))
            states = {}
            for i, p in enumerate(mains):
                st, d = rd['files'][(i if 'one' not in rd else i % min(len(mains), 10)) % len(rd['files'])]
                if 'one' in rd:     # exactly one bad file wherever the set has one
                    st, d = rd['files'][rd['one']] if i == rd['one'] % len(mains) else ('newer', 1)
                if p not in snap:
                    st = 'missing'
                elif st == 'missing':
                    os.unlink(s.path(p) if not os.path.islink(s.path(p)) or i % 2 else os.path.realpath(s.path(p)))
                elif st == 'older':
                    s.stamp(p, t_traj - d * gran)
                elif st == 'equal':
                    s.stamp(p, t_traj)
                elif st == 'newer':
                    s.stamp(p, t_traj + (1 + d) * gran)
                if st == 'keep':
                    mt = snap[p][1]
                    st = 'newer' if mt > t_traj else ('equal' if mt == t_traj else 'older')
                states[p] = st
                cm.bump(stats, 'states', st)
            s.advance(max(0, t_traj + 10**6 * gran * 2 - s.now) if gran < 10**7 else 4 * 10**9)
            # strictly later than any of the stamps above, except when files are "newer" by a lot
            before = s.snapshot()
            n = s.go([cm.set_update(job, True)])[0]
            after = s.snapshot()
            exp = copy.deepcopy(case)
            exp['rounds'] = exp['rounds'][:ri + 1]
            what = '%s, update run %d (trajectory v%d), main files %s' % (cm.label(job), ri, ver, {p: states[p] for p in mains[:6]})
            if n.state != 'done' or not n.result['ok']:
                raise Violation('fails', '%s: fails: %s %s' % (what, cm.outcome(n), n.result.get('where')), case=exp)
            groups = [mains] if tot is None else [[p for p in mains if p in tot], [p for p in mains if p not in tot]]
            aux = [p for p in ref if sim.is_aux(ref[p])]
            for g in groups:
                if not g:
                    continue
                need = any(states[p] != 'newer' for p in g)
                files = list(g)
                if len(groups) == 1 or tot is None:
                    files += aux
                else:
                    files += [p for p in aux if (p in tot) == (g[0] in tot)]
                for p in sorted(files):
                    if need:
                        if p not in after:
                            raise Violation('missing', '%s: %s is not there after the run' % (what, p), case=exp)
                        if p in before and after[p][1:] == before[p][1:] and after[p][0] == before[p][0]:
                            raise Violation('not-rewritten', '%s: %s has not been written again' % (what, p), case=exp)
                        if not sim.same(after[p][0], ref[p]):
                            raise Violation('stale', '%s: %s is not the result of the present trajectory: %s' % (
                                what, p, sim.fdiff(after[p][0], ref[p])), case=exp)
                    elif p in before:
                        if p not in after:
                            raise Violation('touched', '%s: %s was up to date and has been removed' % (what, p), case=exp)
                        if after[p] != before[p]:
                            raise Violation('touched', '%s: %s was up to date and has been written again' % (what, p), case=exp)
                    elif p in after:
                        raise Violation('touched', '%s: %s has been created although all is up to date' % (what, p), case=exp)
                key = 'recomputed' if need else 'untouched'
                stats[key] = stats.get(key, 0) + 1
                stats['distinct'].add((cm.label(job), len(g), tuple(sorted(states[p] for p in g)), gran))
                if tot is None and not need:
                    carried(n.result['out']['cap'], after, mains, what, exp)
                elif tot is None and cap is not None:
                    d = sim.vdiff(n.result['out']['cap'], cap, 1e-7, 1e-9)
                    if d:
                        raise Violation('values', '%s: the object carries other values than an undisturbed run: %s' % (what, d), case=exp)
            s.advance(10**10)
            cm.bump(stats, 'jobs', cm.label(job))
        return cm.merge(stats, s)
    finally:
        s.close()


def again(s, case, stats):
    """The same object is updated several times"""
    job, t = case['jobs'][0], case['trajs'][0]
    s.put_traj(t)
    s.advance(2 * 10**10)
    n = s.go([cm.set_update(job, False)])[0]
    if n.state != 'done' or not n.result['ok']:
        raise Skip('fault-free run fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
    ref, cap = s.results(), n.result['out']['cap']
    s.advance(2 * 10**10)
    n = s.go([{'t': 'script', 'script': 'updates', 'main': job, 'rounds': case['again'], 'gran': max(case['fs_gran'], 1000),
               'template': job.get('template')}])[0]
    if n.state != 'done' or not n.result['ok']:
        raise Violation('fails', '%s: fails: %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where')), case=case)
    out = n.result['out']
    mains, stamp = out['mains'], out['stamp']
    for i, r in enumerate(out['rounds']):
        exp = dict(case, again=case['again'][:i + 1])
        before, after = r['before'], r['after']
        st = {p: 'missing' if p not in before else 'newer' if before[p][1] > stamp else 'older' for p in mains}
        what = '%s, the same object updated, round %d, main files %s' % (cm.label(job), i, st)
        if not r['ok']:
            raise Violation('fails', '%s: fails: %s: %s %s' % (what, r['exc'], r['msg'], r['where']), case=exp)
        need = any(x != 'newer' for x in st.values())
        for p in sorted(ref):
            if need:
                if p not in after:
                    raise Violation('missing', '%s: %s is not there after the run' % (what, p), case=exp)
                if before.get(p) == after[p]:
                    raise Violation('not-rewritten', '%s: %s has not been written again' % (what, p), case=exp)
                if not sim.same(after[p][0], ref[p]):
                    raise Violation('stale', '%s: %s is not the result of the trajectory: %s' % (what, p, sim.fdiff(after[p][0], ref[p])), case=exp)
            elif before.get(p) != after.get(p):
                raise Violation('touched', '%s: %s was up to date and has been written again' % (what, p), case=exp)
        if need:
            d = sim.vdiff(r['cap'], cap, 1e-7, 1e-9)
            if d:
                raise Violation('values', '%s: the object carries other values than an undisturbed run: %s' % (what, d), case=exp)
        else:
            carried(r['cap'], after, mains, what, exp)
        key = 'recomputed' if need else 'untouched'
        stats[key] = stats.get(key, 0) + 1
        stats['again'] = stats.get('again', 0) + 1
        stats['distinct'].add((cm.label(job), 'again', i, tuple(sorted(st.values()))))
    cm.bump(stats, 'jobs', cm.label(job))


def carried(cap, after, mains, what, exp):
    """After an update run without recomputation the object carries what is in the file."""
    caps = [cap] if 'grid' in cap and 'value' in cap else list(cap.values())
    stored = []
    for p in mains:
        cols = sim.parse_cols(after[p][0])
        if len(cols) == 2:
            stored.append(cols)
    if len(stored) != len(mains):
        return      # functions of two variables are not read back
    for c in caps:
        if c['grid'] is None or c['value'] is None:
            raise Violation('carried', '%s: the object has no grid or value' % what, case=exp)
        for cols in stored:
            if sim.vdiff([c['grid'], c['value']], cols, 1e-12, 0.0) is None:
                break
        else:
            raise Violation('carried', '%s: grid and value of the object are in none of the files' % what, case=exp)
    if len(caps) != len(stored):
        raise Violation('carried', '%s: %d objects and %d files' % (what, len(caps), len(stored)), case=exp)


def shrink(case):
    if 'again' in case:
        yield from cm.shrink_lists(case, ['again'])
        yield from cm.shrink_jobs(case)
        yield from cm.shrink_trajs(case)
        return
    if case.get('link') is not None:
        yield dict(case, link=None)
    yield from cm.shrink_lists(case, ['rounds'])
    for i, r in enumerate(case['rounds']):
        for q, f in enumerate(r['files']):
            if f != ['newer', 1]:
                c = copy.deepcopy(case)
                c['rounds'][i]['files'][q] = ['newer', 1]
                yield c
        if r['traj']:
            c = copy.deepcopy(case)
            c['rounds'][i]['traj'] = False
            yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
