"""C13: in a batch every file gets its own result, whatever happens to others."""
import copy
import os

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C13'
LEVEL = 'exploration'
QUICK = 2400
THOROUGH = 25000
RULE = ('batch calls (api and command line, all twelve functions, all options) over 2-4 random files that differ in species, '
        'size, sampling and cell, compared file by file with calls on one file alone; then the same with one file missing, '
        'empty, garbled, truncated or unreadable from a random system call on, and again with the update option once it is '
        'restored. distinct = (function, options, number of files, kind of damage, position)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['a damage counts only if the call on the damaged file alone fails']
PROBES = ['batches', 'damages', 'repaired', 'faults.err']
NAMES = ['a.xyz', 'b.xyz', 'c.xyz', 'd/e.xyz']
SAME = ['x/a.xyz', 'y/a.xyz', 'a.xyz', 'y/z/a.xyz']
ODD = ['a%d.xyz', 'b{1}.xyz', 'c[1].xyz', 'd e/f.xyz']


def gen(rng, k, tier):
    f = rng.choice(G.API)
    need, avoid = G.api_needs(f)
    n = rng.choice([2, 2, 3, 3, 4])
    names = rng.choice([NAMES, NAMES, NAMES, NAMES, ODD, SAME])
    ts = []
    for i in range(n):
        nd = None
        ts.append(G.traj(rng, names[i], need, avoid, ndim=nd, small=True))
    rng.shuffle(ts)
    mk = G.api_job if rng.random() < 0.75 else G.cli_job
    j = mk(rng, ts, f, update=rng.random() < 0.3)
    j['template'] = G.template(rng)
    order = list(range(n))
    rng.shuffle(order)
    damages = []
    for _ in range(rng.choice([1, 1, 2])):
        damages.append({'which': rng.randrange(n), 'how': rng.choice(['missing', 'empty', 'garbage', 'truncated', 'err', 'err', 'eacces']),
                        'u': round(rng.random(), 3), 'op': rng.choice(['read', 'read', 'open'])})
    return {'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': rng.choice([1, 1, 10**6]), 'trajs': ts, 'jobs': [j],
            'order': order, 'damages': damages}


def with_files(job, files):
    j = copy.deepcopy(job)
    if j['t'] == 'api':
        j['files'] = list(files)
    else:
        j['argv'] = j['argv'][:len(j['argv']) - len(j['files'])] + list(files)
        j['files'] = list(files)
    return j


def compare(now, ref, only, what, exp, cls):
    for p in sorted(ref):
        if only is not None and p not in only:
            continue
        if p not in now:
            raise Violation(cls + '-missing', '%s: %s is missing' % (what, p), case=exp)
        if not sim.same(now[p], ref[p]):
            raise Violation(cls + '-differs', '%s: %s is not what the call on that file alone gives: %s' % (what, p, sim.fdiff(now[p], ref[p])), case=exp)


def execute(case):
    stats = {'distinct': set()}
    job = case['jobs'][0]
    ts = case['trajs']
    single, ok = {}, {}
    for t in ts:
        r = cm.new_sim(case)
        try:
            r.put_traj(t)
            n = r.go([cm.set_update(with_files(job, [t['name']]), False)])[0]
            if n.state != 'done' or not n.result['ok']:
                raise Skip('fault-free run fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
            single[t['name']] = r.results()
            cm.merge(stats, r)
        finally:
            r.close()
    ref = {}
    for d in single.values():
        ref.update(d)
    if len(ref) != sum(len(d) for d in single.values()):
        raise Skip('two files share a result path')
    names = [ts[i % len(ts)]['name'] for i in case['order']] if case.get('order') else [t['name'] for t in ts]
    names = list(dict.fromkeys(names))
    exp0 = dict(case, damages=[])
    s = cm.new_sim(case)
    try:
        for t in ts:
            s.put_traj(t)
        s.advance(10**9)
        clean = s.save()
        n = s.go([with_files(job, names)])[0]
        what = '%s over %s' % (cm.label(job), names)
        cm.bump(stats, 'jobs', cm.label(job))
        if n.state != 'done' or not n.result['ok']:
            raise Violation('batch-fails', '%s: fails: %s %s' % (what, cm.outcome(n), n.result.get('where')), case=exp0)
        compare(s.results(), ref, {p for nm in names for p in single[nm]}, what, exp0, 'batch')
        stats['batches'] = stats.get('batches', 0) + 1
        ops = s.last
        stats['distinct'].add((cm.label(job), tuple(sorted(job['kw'])), len(names)))
        for dm in case['damages']:
            exp = copy.deepcopy(case)
            exp['damages'] = [dm]
            bad = names[dm['which'] % len(names)]
            t = [x for x in ts if x['name'] == bad][0]
            s.restore(clean)
            txt = G.traj_text(t)
            faults = []
            how = dm['how']
            if how == 'missing':
                os.unlink(s.path(bad))
            elif how == 'empty':
                s.put(bad, '')
            elif how == 'garbage':
                s.put(bad, 'nothing here\n' * 7)
            elif how == 'truncated':
                lines = txt.split('\n')
                s.put(bad, '\n'.join(lines[:int(len(lines) * (0.2 + 0.7 * dm['u']))]))
            else:
                kind = 'open' if how == 'eacces' else dm['op']
                mine = [i for i, o in enumerate(ops) if o[2] == kind and o[3] == bad]
                if not mine:
                    continue
                first = int(dm['u'] * len(mine))
                # unreadable from here on (a batch opens the file again for the partials)
                faults = [{'node': 0, 'n': i, 'kind': 'err', 'errno': 13 if how == 'eacces' else 5} for i in mine[first:first + 1]]
            if not faults:
                probe = s.save()
                n = s.go([cm.set_update(with_files(job, [bad]), False)])[0]
                s.restore(probe)
                if n.state == 'done' and n.result['ok']:
                    continue
            n = s.go([with_files(job, names)], {'faults': faults})[0]
            hit = [o for o in s.last if o[6]]
            if faults and not hit:
                continue
            good = n.state == 'done' and n.result['ok']
            where = names.index(bad)
            what = '%s over %s with %s %s' % (cm.label(job), names, bad, how)
            stats['damages'] = stats.get('damages', 0) + 1
            stats['distinct'].add((cm.label(job), how, len(names), where, good))
            now = s.results()
            if good:
                # the failing call may have been one that is not needed: then all is complete
                compare(now, ref, {p for nm in names for p in single[nm]}, what + ' (ends normally)', exp, 'silent')
            else:
                compare(now, ref, {p for nm in names[:where] for p in single[nm]}, what + ' (fails: %s)' % cm.outcome(n)[:80], exp, 'before')
                cm.check_paths(now, {}, ref, 'torn', what, case=exp)
            # repair and rerun
            s.advance(10**9)
            if not faults:
                s.put_traj(t)
            s.advance(10**9)
            n = s.go([cm.set_update(with_files(job, names), True)])[0]
            if n.state != 'done' or not n.result['ok']:
                raise Violation('repair-fails', '%s, repaired: the update run fails: %s %s' % (what, cm.outcome(n), n.result.get('where')), case=exp)
            compare(s.results(), ref, {p for nm in names for p in single[nm]}, what + ', repaired, after an update run', exp, 'repair')
            stats['repaired'] = stats.get('repaired', 0) + 1
        return cm.merge(stats, s)
    finally:
        s.close()


def shrink(case):
    yield from cm.shrink_lists(case, ['damages'], 0)
    if len(case['trajs']) > 1:
        for i in range(len(case['trajs'])):
            c = copy.deepcopy(case)
            del c['trajs'][i]
            c['jobs'][0] = with_files(c['jobs'][0], [t['name'] for t in c['trajs']])
            c['order'] = [o - (o > i) for o in c['order'] if o != i]
            for dm in c['damages']:
                dm['which'] = dm['which'] % len(c['trajs'])
            yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
