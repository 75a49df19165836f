"""C12: an analysis touches only its result files and releases what it opened."""
import copy
import errno
import os
import re

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C12'
LEVEL = 'exploration'
QUICK = 2700
THOROUGH = 20000
RULE = ('random analyses (class, api and command-line entry, from several current directories, with other files around) run '
        'without fault, with a failing system call or with invalid input; the whole tree of the disk, the open files and the '
        'current directory are compared before and after. distinct = (function, mode, failing call, outcome)')
REAL, STUB = cm.REAL, cm.STUB
ASSUMPTIONS = ['temporary directories that atooms itself makes under TMPDIR are not looked at',
               'when removing a file is what fails, that file may stay']
PROBES = ['faults.err', 'faults.sigint', 'failed', 'finished', 'bad_input']
KEEP = {'notes.txt': 'keep me\n', 'old.pp.gr': '# not mine\n1 2\n', 'd/x.dat': '1\n', 'out/readme': 'r\n', 'sub/y': 'y\n'}


def gen(rng, k, tier):
    t, j = cm.job_for(rng, rng.choice(cm.NAMES), kinds=['cls', 'cls', 'cls', 'api', 'cli'])
    if j['t'] == 'cls':
        j['hold'] = rng.random() < 0.5
        j['bypath'] = j['kw'].get('tgrid', 0) is not None and rng.random() < 0.2
    ts = [t] + (cm.other_file(rng, t, j) if j['t'] != 'cls' else [])
    trials = []
    for _ in range(rng.randint(3, 6)):
        r = rng.random()
        if r < 0.2:
            trials.append({'bad': rng.choice(['missing', 'empty', 'garbage', 'truncated', 'filter', 'template', 'dir'])})
        else:
            trials.append({'faults': [sim.fault_sel(rng, ['err', 'err', 'err_mid', 'full', 'err', 'short', 'eintr', 'sigint'])]})
    if rng.random() < 0.15:
        j = cm.set_update(j, True)
        future = rng.choice([10**9, 3600 * 10**9, 10**15])
    else:
        future = 0
    return {'future': future, 'seed': rng.randrange(10**6), 'clock': cm.clock(rng), 'fs_gran': rng.choice([1, 10**9]), 'trajs': ts, 'jobs': [j],
            'before': rng.random() < 0.4, 'trials': trials, 'keep': rng.random() < 0.7, 'links': rng.random() < 0.2}


def run_one(s, job, faults, allowed, what, exp, unlink_ok=False):
    before = s.snapshot()
    dirs0 = set(s.dirs())
    n = s.go([job], {'faults': faults})[0]
    after = s.snapshot()
    dirs1 = set(s.dirs())
    what += ': %s' % cm.outcome(n)[:100]
    for p in sorted(set(before) | set(after)):
        if before.get(p) == after.get(p):
            continue
        if p in s.inputs:
            raise Violation('input', '%s: the trajectory %s has been changed' % (what, p), case=exp)
        if p in allowed:
            if p not in after:
                raise Violation('removed', '%s: the result %s has been removed' % (what, p), case=exp)
            continue
        if p not in before:
            if unlink_ok:
                continue
            raise Violation('stray', '%s: the file %s has been left (%d bytes)' % (what, p, len(after[p][0])), case=exp)
        raise Violation('foreign', '%s: the file %s is not a result of this analysis and has been %s' % (
            what, p, 'changed' if p in after else 'removed'), case=exp)
    okdirs = set(dirs0)
    for p in allowed:
        d = p
        while '/' in d:
            d = d.rsplit('/', 1)[0]
            okdirs.add(d)
    for d in sorted(dirs1 - okdirs):
        raise Violation('dir', '%s: the directory %s has been created' % (what, d), case=exp)
    for d in sorted(dirs0 - dirs1):
        raise Violation('dir', '%s: the directory %s has been removed' % (what, d), case=exp)
    if n.state == 'done':
        fds = list(n.result['fds'])
        if job.get('hold') and '/' + job['file'] in fds:
            # the trajectory is still in the hands of the caller (or of the partial functions, when they are given a path)
            if job.get('bypath') or job.get('weight', {}).get('file'):
                fds = [f for f in fds if f != '/' + job['file']]
            else:
                fds.remove('/' + job['file'])
        if fds:
            raise Violation('fds', '%s: files are still open: %s' % (what, fds), case=exp)
        if n.result['cwd'] != job.get('cwd', '.'):
            raise Violation('cwd', '%s: the current directory is now %s' % (what, n.result['cwd']), case=exp)
    elif n.state == 'abort':
        raise Violation('crash', '%s: the process crashed: %s' % (what, n.result['msg']), case=exp)
    return n


def execute(case):
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    t, job = case['trajs'][0], case['jobs'][0]
    try:
        for x in case['trajs']:
            s.put_traj(x, 0)
        if case.get('future'):      # written on a machine with another clock
            os.utime(s.path(t['name']), ns=(s.now + case['future'],) * 2)
        if case['keep']:
            for p, c in KEEP.items():
                s.put(p, c)
        s.advance(10**9)
        first = s.save()
        n = s.go([job])[0]
        if n.state != 'done' or not n.result['ok']:
            raise Skip('fault-free run fails: %s %s %s' % (cm.label(job), cm.outcome(n), (n.result or {}).get('where', ['?'])[-1]))
        ops = s.last
        keep = set(KEEP) if case['keep'] else set()
        allowed = set(s.results()) - keep
        # what the names may be is known from the template alone
        tmp = [p for p in allowed if not plausible(p, job, t)]
        if tmp:
            raise Violation('stray', '%s: leaves %s, which the template does not name' % (cm.label(job), tmp[:3]), case=dict(case, trials=[]))
        s.restore(first)
        exp0 = dict(case, trials=[])
        run_one(s, job, [], allowed, cm.label(job), exp0)
        stats['finished'] = stats.get('finished', 0) + 1
        s.advance(10**10)
        if not case['before']:
            s.restore(first)
        elif case.get('links'):
            for i, p in enumerate(sorted(allowed)):
                if i % 2 == 0:
                    s.link(p, 'store/%d.dat' % i)
                    if i % 4:
                        os.unlink(s.path('store/%d.dat' % i))
            allowed = allowed | {'store/%d.dat' % i for i in range(len(allowed))}
        start = s.save()
        cm.bump(stats, 'jobs', cm.label(job))
        for tr in case['trials']:
            s.restore(start)
            exp = copy.deepcopy(case)
            exp['trials'] = [tr]
            j = job
            fs = []
            unlink_ok = False
            if 'bad' in tr:
                b = tr['bad']
                stats['bad_input'] = stats.get('bad_input', 0) + 1
                txt = G.traj_text(t)
                name = t['name']
                j = copy.deepcopy(job)
                if b == 'missing':
                    os.unlink(s.path(name))
                elif b == 'empty':
                    s.put(name, '')
                elif b == 'garbage':
                    s.put(name, 'not a trajectory\n' * 5)
                elif b == 'truncated':
                    s.put(name, txt[:len(txt) * 2 // 3])
                elif b == 'filter' and j['t'] == 'cls' and j['mode'] == 'plain':
                    j['mode'], j['filter'] = 'filter', 'nosuchthing > 3'
                elif b == 'template':
                    j['template'] = '{trajectory.filename}.{nosuch}.x'
                elif b == 'dir' and j['t'] == 'cls':
                    # a directory is where the result should go
                    p = sorted(p for p in allowed if not p.startswith('store/'))[0]
                    if os.path.isfile(s.path(p)):
                        os.unlink(s.path(p))
                    os.makedirs(s.path(p), exist_ok=True)
                what = '%s with bad input (%s)' % (cm.label(job), b)
            else:
                for sel in tr['faults']:
                    f = sel['fault'] if 'fault' in sel else sim.resolve(sel, ops)
                    if f is not None:
                        fs.append(f)
                if not fs:
                    continue
                exp['trials'] = [{'faults': [{'fault': f} for f in fs]}]
                what = '%s with %s at call %d (errno %s)' % (cm.label(job), fs[0]['kind'], fs[0]['n'], errno.errorcode.get(fs[0].get('errno')))
                op = [o for o in ops if o[1] == 0][fs[0]['n']][2] if fs[0]['n'] < len(ops) else ''
                unlink_ok = op == 'unlink'
            n = run_one(s, j, fs, allowed, what, exp, unlink_ok)
            ok = n.state == 'done' and n.result['ok']
            key = 'finished' if ok else 'failed'
            stats[key] = stats.get(key, 0) + 1
            hit = tuple(sorted({(o[6], o[2]) for o in s.last if o[6]}))
            stats['distinct'].add((cm.label(job), tr.get('bad') or hit, ok))
        return cm.merge(stats, s)
    finally:
        s.close()


SYMBOLS = {'RadialDistributionFunction': ['gr', 'g(r)'], 'StructureFactor': ['sk', 'S(k)'], 'SpectralDensity': ['ik', 'I(k)'],
           'MeanSquareDisplacement': ['msd', 'dr^2(t)'], 'NonGaussianParameter': ['alpha2', 'alpha_2(t)'], 'SelfOverlap': ['qst', 'Q_s(t)'],
           'CollectiveOverlap': ['qt', 'Q(t)'], 'VelocityAutocorrelation': ['vacf', 'Z(t)'], 'StressAutocorrelation': ['sacf', 'S(t)'], 'BondAngleDistribution': ['ba', 'D(theta)'],
           'IntermediateScattering': ['fkt', 'F(k,t)'], 'SelfIntermediateScattering': ['fskt', 'F_s(k,t)'],
           'Chi4SelfOverlap': ['chi4qs', 'chi_4(t)', 'qsu', 'q2su', 'Q^u(t)', 'Q_2^u(t)']}
for k, v in (('RadialDistributionFunctionLegacy', 'RadialDistributionFunction'), ('StructureFactorFast', 'StructureFactor'),
             ('SelfIntermediateScatteringLegacy', 'SelfIntermediateScattering'), ('Chi4SelfOverlapOptimized', 'Chi4SelfOverlap'),
             ('gr', 'RadialDistributionFunction'), ('sk', 'StructureFactor'), ('ik', 'SpectralDensity'), ('msd', 'MeanSquareDisplacement'),
             ('alpha2', 'NonGaussianParameter'), ('qst', 'SelfOverlap'), ('qt', 'CollectiveOverlap'), ('vacf', 'VelocityAutocorrelation'),
             ('ba', 'BondAngleDistribution'), ('fkt', 'IntermediateScattering'), ('fskt', 'SelfIntermediateScattering'), ('chi4qs', 'Chi4SelfOverlap')):
    SYMBOLS[k] = SYMBOLS[v]


def plausible(p, job, t):
    """Is `p` a name the template gives to a result of `job`?"""
    tm = job.get('output_path') or job.get('template') or '{trajectory.filename}.pp.{symbol}.{tag}'
    key = job['cls'] if job['t'] == 'cls' else job['f']
    names = '(?:%s)' % '|'.join(re.escape(x) for x in SYMBOLS[key])
    if job.get('mode') == 'filter' or 'filter' in str(job.get('kw', '')) + str(job.get('argv', '')):
        tag = '[^/]*'
    else:
        # a species, a pair of species, or none; the name of the weight
        # (the layout of species may be changed)
        sp = '(?:%s|[0-9]+|[A-Z])' % '|'.join(re.escape(x) for x in t['comp'])
        tag = '(?:%s(?:-%s)?)?' % (sp, sp)
        if 'field_B' in str(job):
            tag += '(?:[.]?field_B_?(?:fluctuations)?)?'
    fields = {'trajectory.filename': re.escape(t['name']), 'symbol': names, 'short_name': names, 'tag': tag}
    rx = ''
    for x in re.split('({[^}]*}|[._-]+)', tm):
        if x.startswith('{'):
            rx += fields.get(x[1:-1], '[^/]*')
        elif x and x[0] in '._-':
            rx += '[._-]*'
        else:
            rx += re.escape(x)
    # the relaxation times come with the scattering functions
    if 'F(k,t)' in SYMBOLS[key] or 'F_s(k,t)' in SYMBOLS[key]:
        rx += '(?:[.]tau)?'
    return re.fullmatch(rx, p) is not None


def shrink(case):
    yield from cm.shrink_lists(case, ['trials'], 0)
    for k in ('before', 'keep', 'links', 'future'):
        if case.get(k):
            c = copy.deepcopy(case)
            c[k] = 0
            yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
