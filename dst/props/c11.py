"""C11: resource settings and missing optional parts do not change results."""
import copy
import math
import re

import numpy

import gen as G
import sim
from sim import Skip, Violation
from . import common as cm

ID = 'C11'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 20000
RULE = ('random analyses of random trajectories repeated under other configurations: memory budget of the tabulation, source of '
        'the trajectory (file, path, cached, in memory, views), no_cache, distance cut-off with and without linked cells, compiled '
        'and pure-Python classes, import faults for the extensions and optional packages. distinct = (kind of variation, its '
        'setting, function and mode)')
REAL = cm.REAL
STUB = cm.STUB + ['import of the modules chosen to be missing; a stand-in for the medepy package when it is to be present']
ASSUMPTIONS = ['values agree to 1e-8 (1e-5 for result files, which hold six digits)',
               'compiled and pure-Python g(r) are compared for a fixed number of particles per frame']
PROBES = ['vary.lookup', 'vary.source', 'vary.cache', 'vary.rmax', 'vary.kernel', 'vary.imports', 'vary.cells', 'vary.bonds', 'crowded', 'linked_cells', 'faults.import',
          'reported']
PKG = 'atooms.postprocessing.'
KERNEL = {'RadialDistributionFunction': 'RadialDistributionFunctionLegacy', 'SelfIntermediateScattering': 'SelfIntermediateScatteringLegacy',
          'Chi4SelfOverlap': 'Chi4SelfOverlapOptimized', 'StructureFactor': 'StructureFactorFast'}
OPTIONAL = [PKG + 'realspace_wrap', PKG + 'fourierspace_wrap', 'tqdm', 'argh', 'medepy', PKG + '_commit', 'matplotlib']


def big(rng, t):
    """A box of more than four cut-off distances, with enough particles"""
    nd = t['ndim']
    t['sides'] = [round(rng.uniform(5.0, 8.0), 3) for _ in range(nd)]
    n = rng.randint(30, 90)
    for s in t['comp']:
        t['comp'][s] = max(4, n // len(t['comp']) + rng.randint(-3, 3))
    if rng.random() < 0.15:
        t['comp'][rng.choice(list(t['comp']))] = 4       # a dilute species
    if rng.random() < 0.5:
        t['steps'] = t['steps'][:rng.randint(2, 4)] if not G.tinfo(t)['block'] else t['steps']


def _gr(rng, t, j):
    j['kw'] = {'dr': rng.choice([0.1, 0.25, 0.2, 0.13]), 'norigins': j['kw'].get('norigins')}
    if 'position' in j.get('filter', '') and rng.random() < 0.7:
        j['mode'] = 'plain'


def fixed(j):
    return 'position' not in j.get('filter', '')


def gen(rng, k, tier):
    kind = rng.choice(['lookup', 'source', 'source', 'cache', 'rmax', 'rmax', 'kernel', 'kernel', 'imports', 'imports', 'imports', 'cells', 'bonds'])
    case = {'seed': rng.randrange(10**6), 'vary': kind, 'trajs': [], 'jobs': [], 'settings': []}
    if kind == 'cells':
        nd = rng.choice([2, 3])
        rcut = round(rng.uniform(0.8, 1.6), 3)
        box = [round(rcut * rng.uniform(4.0, 6.0), 3) for _ in range(nd)]
        frames, mixed = [], rng.random() < 0.2
        per, dist = rng.random() < 0.75, rng.random() < 0.5
        for i in range(rng.randint(1, 3)):
            if i and rng.random() < 0.7:
                box = [round(x * rng.uniform(0.9, 1.2), 3) for x in box]
                box = [max(x, rcut * 4.0) for x in box]
            frames.append({'box': list(box), 'n': rng.choice([1, 5, 30, 80]), 'm': rng.choice([1, 4, 40]) if dist else None,
                           'periodic': per, 'default': rng.random() < 0.5, 'as_array': rng.random() < 0.5})
        case['jobs'] = [{'t': 'script', 'script': 'cells', 'rcut': rcut, 'frames': frames, 'seed': rng.randrange(10**6)}]
        return case
    if kind == 'bonds':
        t = G.traj(rng, 'a.xyz', small=True)
        n = rng.choice([20, 60, 110])
        for sp in t['comp']:
            t['comp'][sp] = max(4, n // len(t['comp']) + rng.randint(-3, 3))
        t['steps'] = t['steps'][:rng.randint(1, 3)]
        t['cellvar'] = rng.choice([0.0, 0.1])
        r = min(t['sides']) * (1 - t['cellvar'])
        rcut = [[round(r * rng.uniform(0.25, 0.49), 3) for _ in t['comp']] for _ in t['comp']]
        case['trajs'] = [t]
        case['jobs'] = [{'t': 'cls', 'cls': 'BondAngleDistribution', 'file': 'a.xyz', 'mode': rng.choice(['plain', 'partial']), 'update': False,
                         'species': sorted(t['comp']), 'kw': {'dtheta': rng.choice([5.0, 10.0, 7.0]), 'rcut': rcut, 'norigins': -1}}]
        return case
    if kind == 'lookup':
        t, j = cm.job_for(rng, 'a.xyz', ('cls',), cls='SelfIntermediateScattering', small=True)
        if rng.random() < 0.3:
            for s in t['comp']:
                t['comp'][s] += rng.randint(0, 40)
        case['settings'] = rng.sample([64.0, 1.0, 0.1, 0.03, 0.01, 0.003, 0.001, 1e-6], 3)
    elif kind == 'source':
        t, j = cm.job_for(rng, 'a.xyz', ('cls',), classes=[c for c in G.CLASSES if c not in ('StressAutocorrelation', 'Susceptibility')])
        case['settings'] = rng.sample(['cached', 'ram', 'ramview', 'path', 'pathagain'], 2)
    elif kind == 'cache':
        t, j = cm.job_for(rng, 'a.xyz', ('api', 'cli'))
        case['settings'] = ['no_cache']
    elif kind == 'rmax':
        t, j = cm.job_for(rng, 'a.xyz', ('cls',), cls=rng.choice(['RadialDistributionFunction'] * 3 + ['RadialDistributionFunctionLegacy']))
        if rng.random() < 0.8:
            big(rng, t)
        if rng.random() < 0.2 and not t['nvar']:
            t['nvar'] = True
            if j['mode'] == 'filter' and fixed(j):
                j['mode'] = 'plain'
        _gr(rng, t, j)
        if rng.random() < 0.15:
            t['cellvar'] = round(rng.uniform(0.2, 0.5), 3)      # the cell changes a lot
        m = min(t['sides']) * (1 - t['cellvar'])
        case['settings'] = [round(m * rng.uniform(0.12, 0.249), 3), round(m * rng.uniform(0.26, 0.49), 3)]
        if t['cellvar'] > 0.1:
            case['settings'][0] = round(min(min(t['sides']) * rng.uniform(0.15, 0.245), 0.49 * m), 3)
    elif kind == 'kernel':
        c = rng.choice(list(KERNEL))
        need, avoid = G.needs(KERNEL[c])
        n2, a2 = G.needs(c)
        if c == 'RadialDistributionFunction':
            avoid = avoid + ['nvar']
        t = G.traj(rng, 'a.xyz', need + n2, avoid + a2, small=True)
        j = G.cls_job(rng, t, c, update=False)
        if c == 'RadialDistributionFunction':
            if rng.random() < 0.4:
                big(rng, t)
            _gr(rng, t, j)
            if rng.random() < 0.5:
                j['kw']['rmax'] = round(min(t['sides']) * (1 - t['cellvar']) * rng.choice([0.2, 0.24, 0.3, 0.45]), 3)
            if not fixed(j):
                j['mode'] = 'plain'
            if rng.random() < 0.08:
                # many particles: the Python version works through them in batches
                n = rng.randint(330, 460)
                for s in t['comp']:
                    t['comp'][s] = max(4, n // len(t['comp']) + rng.randint(-9, 9))
                t['sides'] = [round(9.0 if t['ndim'] == 3 else 22.0, 3)] * t['ndim']
                t['steps'] = [0, 10]
                j['kw']['norigins'] = None
                if 'rmax' in j['kw']:
                    j['kw']['rmax'] = round(t['sides'][0] * rng.choice([0.2, 0.24, 0.3, 0.45]), 3)
        if c == 'Chi4SelfOverlap' and j['mode'] == 'filter' and not fixed(j):
            j['mode'] = 'plain'
        case['settings'] = [KERNEL[c]]
    else:
        t, j = cm.job_for(rng, 'a.xyz', ('cls', 'cls', 'api', 'cli'))
        if j['t'] == 'cls' and j['cls'].startswith('RadialDistribution'):
            j['kw'].pop('rgrid', None)
        if not fixed(j):
            j['mode'] = 'plain'
        if (j.get('f') == 'gr' or j.get('cls', '').startswith('Radial')) and j['kw'].get('filter'):
            # the two normalise differently when the number of particles is not fixed
            if j['t'] == 'api':
                j['kw'].pop('filter')
            else:
                j['argv'] = [a for a in j['argv'] if not a.startswith('--filter')]
                j['kw'].pop('filter')
        for _ in range(2):
            b = sorted(rng.sample(OPTIONAL, rng.choice([1, 1, 2, 3, len(OPTIONAL)])))
            if j['t'] == 'cli' and 'argh' in b:
                b.remove('argh')
            f = ['medepy'] if 'medepy' not in b and rng.random() < 0.3 else []
            case['settings'].append({'block': b, 'fake': f})
    j = cm.set_update(j, False)
    case['trajs'], case['jobs'] = [t], [j]
    return case


def numbers(files):
    """rows of numbers of the result files"""
    out = {}
    for p, c in files.items():
        rows = []
        for line in c.decode('utf8', 'replace').splitlines():
            if line.startswith('#') or not line.strip():
                continue
            try:
                rows.append([float(x) for x in line.split()])
            except ValueError:
                rows.append(line)
        out[p] = rows
    return out


def close(a, b, tol):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def files_diff(a, b, short=False, first=0):
    a, b = numbers(a), numbers(b)
    if set(a) != set(b):
        return 'files %s instead of %s' % (sorted(b), sorted(a))
    for p in a:
        n = len(a[p])
        if short and abs(n - len(b[p])) <= 1:
            n = min(n, len(b[p]))
        elif n != len(b[p]):
            return '%s: %d rows instead of %d' % (p, len(b[p]), n)
        for i in range(first if '.gr.' in p or 'g(r)' in p or '/gr/' in p else 0, n):
            x, y = a[p][i], b[p][i]
            if len(x) != len(y) or not all(close(u, v, 2e-5) for u, v in zip(x, y)):
                return '%s, row %d: %s instead of %s' % (p, i, y, x)
    return None


def cap_diff(a, b, short=False, first=0):
    """short: the lists may have different lengths (the common part is compared)"""
    if 'grid' not in a:
        if set(a) != set(b):
            return 'entries %s instead of %s' % (sorted(b), sorted(a))
        for k in a:
            d = cap_diff(a[k], b[k], short, first)
            if d:
                return '%s: %s' % (k, d)
        return None
    x, y = {k: a[k] for k in ('grid', 'value')}, {k: b[k] for k in ('grid', 'value')}
    for aux in ('average', 'variance'):
        if aux in a and aux in b:
            x[aux], y[aux] = a[aux], b[aux]
    if short and x['grid'] and not isinstance(x['grid'][0], list):
        n = min(len(x['grid']), len(y['grid']))
        if n < min(max(len(x['grid']), len(y['grid'])), short):
            return '%d entries instead of %d' % (len(y['grid']), len(x['grid']))
        for z in (x, y):
            z['grid'], z['value'] = z['grid'][first:n], z['value'][first:n]
    return sim.vdiff(y, x, 1e-8)


def run(s, start, job):
    s.restore(start)
    n = s.go([job])[0]
    if n.state == 'abort':
        return {'ok': False, 'exc': 'abort', 'msg': n.result['msg']}, {}
    if n.state != 'done':
        raise Skip(cm.outcome(n))
    if not n.result['ok']:
        return n.result, {}
    return n.result['out'], s.results()


def _cells(s, case, stats):
    job = case['jobs'][0]
    r, _ = run(s, s.save(), job)
    if not r.get('frames'):
        raise Violation('cells', 'linked cells fail: %s: %s %s' % (r['exc'], r.get('msg'), r.get('where')))
    for i, (f, o) in enumerate(zip(job['frames'], r['frames'])):
        box, pos, other = f['box'], o['pos'], o['other']

        def dist(a, b):
            d = 0.0
            for u, v, L in zip(a, b, box):
                x = u - v
                if f['periodic']:
                    x -= round(x / L) * L
                d += x * x
            return math.sqrt(d)
        seen = set()
        what = 'frame %d, cut-off %s, cell %s, %s' % (i, job['rcut'], box, 'two sets' if other is not None else 'one set')
        for p, row in enumerate(o['neighbors']):
            if len(set(row)) != len(row):
                raise Violation('cells', '%s: particle %d has twice the same neighbour' % (what, p))
            for q in row:
                if other is None:
                    if p == q or (q, p) in seen:
                        raise Violation('cells', '%s: pair (%d, %d) counted twice' % (what, q, p))
                seen.add((p, q))
        for p in range(len(pos)):
            for q in range(len(pos) if other is None else len(other)):
                if other is None and q <= p:
                    continue
                d = dist(pos[p], (pos if other is None else other)[q])
                if d < job['rcut'] * (1 - 1e-9) and (p, q) not in seen and (other is not None or (q, p) not in seen):
                    raise Violation('cells', '%s: neighbours %s and %s at distance %.6f are not found' % (
                        what, pos[p], (pos if other is None else other)[q], d))
    stats['distinct'].add(('cells', len(job['frames'][0]['box']), len(job['frames']), job['frames'][0]['periodic'], job['frames'][0]['m'] is None,
                           job['frames'][0]['as_array']))


def frames(t):
    """cell, names and positions of each frame of a generated trajectory"""
    lines = G.traj_text(t).splitlines()
    out, i = [], 0
    while i < len(lines):
        n = int(lines[i])
        box = [float(x) for x in re.search(r'cell:(\S+)', lines[i + 1]).group(1).split(',')]
        rows = [x.split() for x in lines[i + 2:i + 2 + n]]
        out.append((box, [x[0] for x in rows], [[float(y) for y in x[1:1 + t['ndim']]] for x in rows]))
        i += 2 + n
    return out


def _bonds(s, case, stats):
    """Bond angles by compiled kernels and in plain Python"""
    j, t = case['jobs'][0], case['trajs'][0]
    r, _ = run(s, s.save(), {'t': 'script', 'script': 'config', 'main': j})
    if not (r.get('main') or r).get('ok'):
        r = r.get('main') or r
        raise Violation('bonds', 'bond angles fail: %s: %s %s' % (r['exc'], r.get('msg'), r.get('where')))
    cap = r['main']['cap']
    ids = sorted(t['comp'])
    dth, rcut = j['kw']['dtheta'], j['kw']['rcut']
    nb = int(180.0 / dth) + 1
    total, crowd = {}, 0
    for box, names, pos in frames(t):
        x, box = numpy.array(pos), numpy.array(box)
        sp = numpy.array([ids.index(a) for a in names])
        for i in range(len(x)):
            d = x - x[i]
            d -= numpy.rint(d / box) * box
            dist = numpy.sqrt((d**2).sum(axis=1))
            near = (dist < numpy.array(rcut)[sp[i], sp]) & (numpy.arange(len(x)) != i)
            crowd = max(crowd, int(near.sum()))
            for b in range(len(ids)) if j['mode'] == 'partial' else [None]:
                k = numpy.where(near & (sp == b if b is not None else True))[0]
                u = d[k] / dist[k][:, None]
                th = numpy.degrees(numpy.arccos(numpy.clip(u @ u.T, -1, 1)))[~numpy.eye(len(k), dtype=bool)]
                h = numpy.bincount(numpy.floor(th / dth).astype(int), minlength=nb)[:nb]
                key = (names[i], ids[b]) if b is not None else None
                total[key] = total.get(key, 0) + h
    if crowd > 50:
        stats['crowded'] = stats.get('crowded', 0) + 1
    for key in total:
        got = cap if key is None else cap[str(key)]
        want = total[key][:-1] / (max(1, total[key][:-1].sum()) * dth)
        if total[key][:-1].sum() and not all(close(float(a), float(b), 1e-6) for a, b in zip(want, got['value'])):
            raise Violation('bonds', 'bond angles %s of %d particles, up to %d neighbours each: %s instead of %s' % (
                key or '', sum(t['comp'].values()), crowd, got['value'][:8], want[:8].round(6).tolist()))
    stats['distinct'].add(('bonds', t['ndim'], j['mode'], len(ids), bool(t.get('far')), crowd > 50, bool(t['cellvar'])))


def variants(case):
    """-> [(what, job, short)]"""
    j = case['jobs'][0]
    base = {'t': 'script', 'script': 'config', 'main': j}
    for v in case['settings']:
        m = copy.deepcopy(base)
        kind = case['vary']
        if kind == 'lookup':
            m['main']['kw']['lookup_mb'] = v
            yield 'lookup_mb=%s' % v, m, False
        elif kind == 'source':
            if v.startswith('path'):
                m['main']['bypath'] = True
                m['main']['cache'] = v == 'pathagain'
            else:
                m['traj'] = {'file': j['file'], 'kind': v}
            yield 'trajectory: ' + v, m, False
        elif kind == 'cache':
            m = copy.deepcopy(base)
            k = m['main']
            if k['t'] == 'cli':
                k['argv'] = [a for a in k['argv'] if a != '--no-cache'] if '--no-cache' in k['argv'] else ['--no-cache'] + k['argv']
            else:
                k['kw']['no_cache'] = not k['kw'].get('no_cache', False)
            yield 'no_cache toggled', m, False
        elif kind == 'rmax':
            m['main']['kw']['rmax'] = v
            yield 'rmax=%s' % v, m, 2
        elif kind == 'kernel':
            m['main']['cls'] = v
            if 'Chi4' in v or 'StructureFactorFast' in v:
                m['main']['kw'].pop('lookup_mb', None)
            yield v, m, 10**6 if v.startswith('Radial') else False
        else:
            m['block'], m['fake'] = v['block'], v['fake']
            yield 'without %s%s' % (', '.join(v['block']), ' with medepy' if v['fake'] else ''), m, 10**6


def execute(case):
    stats = {'distinct': set()}
    s = cm.new_sim(case)
    try:
        for t in case['trajs']:
            s.put_traj(t)
        s.advance(10**9)
        cm.bump(stats, 'vary', case['vary'])
        if case['vary'] == 'cells':
            _cells(s, case, stats)
            return cm.merge(stats, s)
        if case['vary'] == 'bonds':
            _bonds(s, case, stats)
            return cm.merge(stats, s)
        start = s.save()
        j = case['jobs'][0]
        label = cm.label(j)
        ref, rfiles = run(s, start, {'t': 'script', 'script': 'config', 'main': j, 'traj': {'file': j['file'], 'kind': 'file'} if j['t'] == 'cls' else None})
        if not ref.get('main') or not ref['main']['ok']:
            r = ref.get('main') or ref
            if case['vary'] in ('kernel', 'imports'):
                raise Skip('reference fails: %s: %s' % (label, r.get('exc')))
            ref = None
        for what, m, short in variants(case):
            exp = dict(case, settings=[v for v in case['settings'] if what in [w for w, _, _ in variants(dict(case, settings=[v]))]])
            out, files = run(s, start, m)
            r = out.get('main') or out
            stats['distinct'].add((case['vary'], what.split('=')[0], label))
            cm.bump(stats, 'jobs', label)
            if case['vary'] == 'imports':
                cm.bump(stats, 'faults', 'import', len(m['block']))
            if ref is None:
                if r['ok'] and not (case['vary'] == 'rmax'):
                    raise Violation('works', '%s works with %s and fails without' % (label, what), case=exp)
                continue
            if r.get('exc') == 'abort':
                raise Violation('crash', '%s with %s crashes: %s' % (label, what, r['msg']), case=exp)
            if not r['ok']:
                if case['vary'] == 'imports' and may_fail(j, m['block'], r):
                    stats['reported'] = stats.get('reported', 0) + 1
                    continue
                if case['vary'] == 'source' and 'path' in what and j['kw'].get('tgrid') is None and r['exc'] == 'AttributeError':
                    continue    # a reported error: see DESIGN.md
                if r['exc'] == 'Skip':
                    continue
                if case['trajs'][0].get('nocell') and case['vary'] in ('kernel', 'imports') and r['exc'] == 'AttributeError':
                    continue    # the pure-Python g(r) needs a cell, and says so
                raise Violation('fails', '%s with %s fails: %s: %s %s' % (label, what, r['exc'], r.get('msg'), r.get('where')), case=exp)
            if case['vary'] == 'rmax' and 'Legacy' not in j['cls'] and min(case['trajs'][0]['sides']) / (m['main']['kw']['rmax'] + j['kw']['dr'] / 2) > 4.0:
                stats['linked_cells'] = stats.get('linked_cells', 0) + 1
            # With one condition a particle is also paired with itself, at the very edge of the first bin
            first = 1 if case['vary'] in ('kernel', 'imports') and (j.get('mode') == 'filter' or 'filter' in j['kw']) else 0
            if j['t'] == 'cls':
                d = cap_diff(ref['main']['cap'], r['cap'], short and (short if short < 10**6 else max(2, glen(ref['main']['cap']) - 1)), first)
            else:
                d = files_diff(rfiles, files, bool(short), first)
            if d:
                raise Violation('values', '%s: other values with %s: %s' % (label, what, d), case=exp)
        return cm.merge(stats, s)
    finally:
        s.close()


def glen(cap):
    if 'grid' not in cap:
        return min(glen(c) for c in cap.values())
    return len(cap['grid'])


NEEDS = {PKG + 'realspace_wrap': ('BondAngleDistribution', 'Chi4SelfOverlapOptimized', 'ba'), PKG + 'fourierspace_wrap': ('StructureFactorFast',),
         'argh': ()}


def may_fail(j, block, r):
    """An analysis that needs a missing module must say so"""
    name = j['cls'] if j['t'] == 'cls' else j['f']
    if j['t'] != 'cls' and j['kw'].get('fast'):
        name = {'sk': 'StructureFactorFast', 'chi4qs': 'Chi4SelfOverlapOptimized'}[name]
    need = [b for b in block if name in NEEDS.get(b, ())]
    return bool(need) and r['exc'] in ('ImportError', 'ModuleNotFoundError', 'SystemExit(1)', 'AttributeError')


def shrink(case):
    yield from cm.shrink_lists(case, ['settings'])
    if case['vary'] == 'cells':
        j = case['jobs'][0]
        for i in range(len(j['frames'])):
            if len(j['frames']) > 1:
                c = copy.deepcopy(case)
                del c['jobs'][0]['frames'][i]
                yield c
        for i, f in enumerate(j['frames']):
            for k in ('n', 'm'):
                if f[k] and f[k] > 1:
                    c = copy.deepcopy(case)
                    c['jobs'][0]['frames'][i][k] = f[k] // 2
                    yield c
        return
    if case['vary'] == 'imports':
        for i, v in enumerate(case['settings']):
            for b in v['block']:
                if len(v['block']) > 1:
                    c = copy.deepcopy(case)
                    c['settings'][i]['block'].remove(b)
                    yield c
    yield from cm.shrink_jobs(case)
    yield from cm.shrink_trajs(case)
