"""Generators of trajectories and analysis jobs. Everything is plain JSON data,
derived from the random.Random given, so that a case can be stored and replayed."""
import math
import random

SPECIES_SETS = [['A'], ['A'], ['A', 'B'], ['A', 'B'], ['A', 'B'], ['1', '2'], ['A', 'B', 'C'], ['Si', 'O']]


# ----------------------------------------------------------------- trajectories
def traj(rng, name, need=(), avoid=(), ndim=None, small=False):
    if 'radius' in need or '3d' in need:
        ndim = 3        # spectral density and fast structure factor
    """Random description of a trajectory. need/avoid: features
    vel unf field radius nvar cellvar block single multi."""
    def feat(f, p):
        if f in need:
            return True
        if f in avoid:
            return False
        return rng.random() < p
    species = rng.choice(SPECIES_SETS)
    if 'multi' in need:
        while len(species) < 2:
            species = rng.choice(SPECIES_SETS)
    if 'single' in need:
        species = ['A']
    nd = ndim if ndim is not None else rng.choice([3, 3, 3, 2])
    n = rng.randint(6, 14) if small else rng.randint(8, 24)
    comp = {}
    left = n
    for i, s in enumerate(species):
        m = left if i == len(species) - 1 else int(left * rng.uniform(0.3, 0.7))
        comp[s] = max(4, m)     # atooms cannot tell N x d from d x N when N = d
        left -= m
    block = feat('block', 0.2)
    if block:
        per = rng.choice([8, 16])
        base = [0, 1, 2, 4] if per == 8 else [0, 1, 2, 4, 8]
        nb = rng.randint(2, 3)
        steps = [b * per + s for b in range(nb) for s in base] + [nb * per]
        mult = rng.choice([1, 1, 10])
        steps = [s * mult for s in steps]
        if rng.random() < 0.12:     # a frame is missing
            steps.pop(rng.randrange(len(base) + 1, len(steps)))
    else:
        d = rng.choice([1, 10, 100])
        s0 = rng.choice([0, 0, 0, d])
        steps = [s0 + i * d for i in range(rng.randint(4, 7) if small else rng.randint(5, 12))]
    side = rng.uniform(3.6, 5.0)
    sides = [round(side, 3)] * nd
    if rng.random() < 0.2:
        sides[-1] = round(side * rng.uniform(1.0, 1.3), 3)
    return {'name': name, 'seed': rng.randrange(1 << 30), 'ndim': nd, 'comp': comp, 'steps': steps,
            'dt': rng.choice([0.001, 0.005, 0.002]), 'sides': sides,
            'cellvar': round(rng.uniform(0.01, 0.05), 3) if feat('cellvar', 0.12) else 0.0,
            'far': feat('far', 0.1), 'nvar': feat('nvar', 0.0), 'vel': feat('vel', 0.3), 'unf': feat('unf', 0.2),
            'field': feat('field', 0.25), 'radius': feat('radius', 0.15), 'mass': feat('mass', 0.2),
            # particles that hardly move do not relax
            'walk': round(rng.uniform(0.05, 0.35), 3) if rng.random() < 0.93 else 0.003, 'shuffle': rng.random() < 0.3}


def traj_text(t):
    """The xyz file of a trajectory description."""
    rng = random.Random(t['seed'])
    nd = t['ndim']
    part = [s for s in t['comp'] for _ in range(t['comp'][s])]
    if t['shuffle']:
        rng.shuffle(part)
    sides = t['sides']
    # loose lattice with noise so that g(r) has a peak and few close pairs
    n = len(part)
    m = int(math.ceil(n ** (1.0 / nd)))
    sites = []
    for k in range(m ** nd):
        idx = [(k // m ** j) % m for j in range(nd)]
        sites.append([(i + 0.5) / m - 0.5 for i in idx])
    rng.shuffle(sites)
    unf = [[(x + rng.gauss(0, 0.25 / m)) * s for x, s in zip(site, sides)] for site in sites[:n]]
    drift = [rng.gauss(0, 0.02) for _ in range(nd)]
    field = [rng.uniform(-1, 1) for _ in range(n)]
    # images of the cell the particles are in, when they are not folded back into it
    image = [[rng.randint(-3, 3) for _ in range(nd)] for _ in range(n)] if t.get('far') else None
    cols = ['name', 'pos']
    if t['vel']:
        cols.append('vel')
    if t['unf']:
        cols.append('position_unfolded')
    if t['field']:
        cols.append('field_B')
    if t['radius']:
        cols.append('radius')
    out = []
    scale = 1.0
    for iframe, step in enumerate(t['steps']):
        if iframe > 0:
            for r in unf:
                for j in range(nd):
                    r[j] += drift[j] + rng.gauss(0, t['walk'])
        if t['cellvar'] and iframe > 0:
            scale = 1.0 + t['cellvar'] * rng.uniform(-1, 1)
        box = [s * scale for s in sides]
        keep = list(range(n))
        if t['nvar']:
            drop = rng.randrange(0, max(1, n // 4))
            for _ in range(drop):
                keep.pop(rng.randrange(len(keep)))
            # never lose a species
            for s in t['comp']:
                if not any(part[i] == s for i in keep):
                    keep.append(part.index(s))
            keep.sort()
        head = 'step:%d columns:%s cell:%s dt:%s' % (step, ','.join(cols), ','.join('%.6f' % b for b in box), t['dt'])
        if t['mass']:
            head += ' mass:' + ','.join('%.1f' % (1.0 + i) for i in range(len(t['comp'])))
        if t.get('nocell'):
            head = head.replace(' cell:%s' % ','.join('%.6f' % b for b in box), '')
        out.append('%d' % len(keep))
        out.append(head)
        for i in keep:
            pos = []
            for j in range(nd):
                x = unf[i][j] * scale
                if t.get('nocell'):
                    pos.append(x)
                else:
                    pos.append(x - round(x / box[j]) * box[j] if image is None else x + image[i][j] * box[j])
            row = [part[i]] + ['%.6f' % x for x in pos]
            if t['vel']:
                row += ['%.6f' % rng.gauss(0, 1) for _ in range(nd)]
            if t['unf']:
                row += ['%.6f' % (x * scale) for x in unf[i]]
            if t['field']:
                row.append('%.4f' % (field[i] + 0.3 * rng.uniform(-1, 1)))
            if t['radius']:
                row.append('%.3f' % (0.3 + 0.1 * rng.random()))
            out.append(' '.join(row))
    return '\n'.join(out) + '\n'


def tinfo(t):
    steps = t['steps']
    dts = [b - a for a, b in zip(steps, steps[1:])]
    return {'total': (steps[-1] - steps[0]) * t['dt'], 'timestep': t['dt'], 'nsp': len(t['comp']),
            'block': len(set(dts)) > 1}


# ------------------------------------------------------------------ parameters
def _norigins(rng, t, api=False):
    if tinfo(t)['block']:
        c = [None, -1, None]
    else:
        c = [None, -1, -1, 1, 2, 0.5]
    v = rng.choice(c)
    if api and v is not None:
        v = str(v)
        if rng.random() < 0.15:
            v = '1'
    return v


def _tgrid(rng, t):
    if rng.random() < 0.3:
        return None
    i = tinfo(t)
    n = rng.randint(2, 6)
    tmax = i['total'] * rng.uniform(0.3, 0.8)
    g = [round(tmax * k / (n - 1), 9) for k in range(n)]
    if rng.random() < 0.15:
        g = g[1:]
    return g


def _kgrid(rng, t, n=None, unsorted=False):
    k0 = 2 * math.pi / min(t['sides'])
    n = n or rng.randint(1, 3)
    g = sorted(round(rng.uniform(k0, (3.4 if t['ndim'] == 3 else 5.0) * k0 / 1.3), 3) for _ in range(n))
    if unsorted and rng.random() < 0.3:
        rng.shuffle(g)
    return g


KW_K = {'sk': 'nk dk kmin kmax ksamples'.split()}

TIME1 = ['MeanSquareDisplacement', 'NonGaussianParameter', 'SelfOverlap', 'CollectiveOverlap', 'Chi4SelfOverlap']
CLASSES = TIME1 + ['VelocityAutocorrelation', 'RadialDistributionFunction', 'RadialDistributionFunctionLegacy',
                   'StructureFactor', 'StructureFactorFast', 'SpectralDensity', 'IntermediateScattering',
                   'SelfIntermediateScattering', 'SelfIntermediateScatteringLegacy', 'BondAngleDistribution',
                   'Chi4SelfOverlapOptimized', 'StressAutocorrelation', 'Susceptibility']
NBODIES2 = {'RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactor', 'StructureFactorFast',
            'IntermediateScattering', 'BondAngleDistribution'}
# (the stress autocorrelation cannot be computed with the version of atooms at hand)
FILES_CLASSES = [c for c in CLASSES if c not in ('StressAutocorrelation', 'Susceptibility')]
STATIC = {'RadialDistributionFunction', 'RadialDistributionFunctionLegacy', 'StructureFactor', 'StructureFactorFast'}
UNFOLD = {'MeanSquareDisplacement', 'NonGaussianParameter', 'SelfOverlap', 'Chi4SelfOverlap', 'Chi4SelfOverlapOptimized'}


def needs(cls):
    """Features of the trajectory a class needs / must avoid."""
    need, avoid = [], []
    if cls in ('VelocityAutocorrelation', 'StressAutocorrelation'):
        need.append('vel')
    if cls == 'StressAutocorrelation':
        need.append('3d')
    if cls == 'SpectralDensity':
        need.append('radius')
    if cls == 'SpectralDensity':
        avoid += ['nvar']
    elif cls not in STATIC:
        avoid += ['nvar', 'cellvar']
    if cls == 'StructureFactorFast':
        need.append('3d')
    return need, avoid


def cls_kwargs(rng, cls, t):
    kw = {}
    no = _norigins(rng, t)
    if cls in TIME1 or cls == 'Chi4SelfOverlapOptimized':
        kw['tgrid'] = _tgrid(rng, t)
        if cls == 'MeanSquareDisplacement':
            if kw['tgrid'] is None and rng.random() < 0.4:
                kw['rmax'] = round(rng.uniform(0.2, 0.8), 2)
            kw['tsamples'] = rng.randint(3, 8)
            kw['sigma'] = rng.choice([1.0, 0.3, 0.5])
            kw['fix_cm'] = rng.random() < 0.4
            kw['no_offset'] = rng.random() < 0.2
        elif cls == 'NonGaussianParameter':
            kw['nsamples'] = rng.randint(3, 8)
        else:
            kw['tsamples'] = rng.randint(3, 8)
            kw['a'] = rng.choice([0.3, 0.5, 0.2])
    elif cls == 'VelocityAutocorrelation':
        kw['tgrid'] = _tgrid(rng, t) or [0.0, tinfo(t)['total'] * 0.5]
    elif cls.startswith('RadialDistribution'):
        kw['dr'] = rng.choice([0.1, 0.25, 0.2])
        if rng.random() < 0.35:
            kw['rmax'] = round(min(t['sides']) * rng.choice([0.22, 0.3, 0.45]), 3)
    elif cls in ('StructureFactor', 'StructureFactorFast', 'SpectralDensity'):
        if rng.random() < 0.6:
            kw['kgrid'] = _kgrid(rng, t, unsorted=True)
            if rng.random() < 0.1:
                kw['kgrid'][0] = -1.0
                kw['kgrid'] = sorted(kw['kgrid'])
        else:
            kw['ksamples'] = rng.randint(2, 3)
            kw['kmax'] = round(2 * math.pi / min(t['sides']) * rng.uniform(1.5, 2.2), 2)
            if rng.random() < 0.4:
                kw['kmin'] = round(2 * math.pi / min(t['sides']) * 1.01, 3)
        kw['nk'] = rng.choice([1, 3, 5, 20])
        kw['dk'] = rng.choice([0.3, 0.5])
    elif 'Scattering' in cls:
        if rng.random() < 0.75:
            kw['kgrid'] = _kgrid(rng, t, unsorted=True)
        else:
            kw['kgrid'] = None
            kw['kmin'] = round(2 * math.pi / min(t['sides']) * 1.01, 3)
            kw['kmax'] = round(kw['kmin'] * 1.9, 3)
            kw['ksamples'] = 2
        kw['tgrid'] = _tgrid(rng, t)
        if kw['tgrid'] is None:
            kw['tsamples'] = rng.randint(3, 6)
        kw['nk'] = rng.choice([1, 2, 4])
        kw['dk'] = rng.choice([0.3, 0.5])
        kw['fix_cm'] = rng.random() < 0.25
        kw['normalize'] = rng.random() < 0.8
        if cls == 'SelfIntermediateScattering' or cls == 'SelfIntermediateScatteringLegacy':
            kw['lookup_mb'] = rng.choice([64.0, 0.01, 0.001])
        if no not in (-1, 1):
            no = -1
    elif cls == 'BondAngleDistribution':
        kw['dtheta'] = rng.choice([10.0, 20.0, 30.0])
        ns = len(t['comp'])
        r = round(min(t['sides']) * rng.uniform(0.3, 0.4), 2)
        if rng.random() < 0.75:
            kw['rcut'] = [[r] * ns for _ in range(ns)]
    elif cls == 'StressAutocorrelation':
        kw['tgrid'] = _tgrid(rng, t) or [0.0, tinfo(t)['total'] * 0.5]
    elif cls == 'Susceptibility':
        i = tinfo(t)
        return {'tgrid': [0.0, round(i['total'] * 0.3, 9), round(i['total'] * 0.5, 9)], 'norigins': -1}
    kw['norigins'] = no
    return kw


FILTERS = ['species=="{s}"', 'species!="{s}"', 'position[0]>0', 'position[0]<0.5 and position[1]>-1.0', 'position[0]%1.0>0.3']


def cls_job(rng, t, cls=None, weight_ok=True, update=None):
    cls = cls or rng.choice(FILES_CLASSES)
    job = {'t': 'cls', 'cls': cls, 'file': t['name'], 'kw': cls_kwargs(rng, cls, t), 'mode': 'plain',
           'update': bool(rng.random() < 0.3) if update is None else update}
    if cls == 'RadialDistributionFunction' and rng.random() < 0.25:
        job['kw']['dr'] = 0.002     # a large file, written in several pieces
        if rng.random() < 0.25:
            job['kw']['dr'] = min(t['sides']) / 2 / rng.randint(10200, 14000)
        job['kw'].pop('rmax', None)
    if cls == 'BondAngleDistribution' and rng.random() < 0.25:
        job['kw']['dtheta'] = 0.12
    sp = list(t['comp'])
    r = rng.random()
    if cls in ('Chi4SelfOverlapOptimized',) and r < 0.3:
        r = 0.9
    if cls in ('SpectralDensity', 'Susceptibility', 'StressAutocorrelation'):
        r = 0.9
    if r < 0.4 and len(sp) > 1:
        job['mode'] = 'partial'
        job['species'] = sp if rng.random() < 0.85 else sp[::-1]
    elif r < 0.6 and (len(sp) > 1 or cls in NBODIES2):
        job['mode'] = 'filter'
        # filters must select a fixed number of particles for time-dependent functions
        if cls in STATIC and rng.random() < 0.4:
            f = rng.choice(FILTERS)
        else:
            f = rng.choice(FILTERS[:2]) if len(sp) > 1 else FILTERS[0]
        f = f.format(s=rng.choice(sp))
        if cls in NBODIES2 and rng.random() < 0.4:
            f = f + ',' + 'species=="%s"' % rng.choice(sp)
        job['filter'] = f
    if t['field'] and cls in ('StructureFactor', 'StructureFactorFast') and weight_ok and rng.random() < 0.6:
        job['weight'] = {'field': 'field_B', 'fluctuations': rng.random() < 0.5}
        if rng.random() < 0.25:
            job['weight']['file'] = t['name']
    if cls == 'BondAngleDistribution' and job['mode'] == 'filter':
        job['mode'] = 'plain'
    return job


API = ['gr', 'sk', 'ik', 'msd', 'vacf', 'fkt', 'fskt', 'chi4qs', 'alpha2', 'qst', 'qt', 'ba']


def api_needs(f):
    need, avoid = [], ['nvar']
    if f == 'vacf':
        need.append('vel')
    if f == 'ik':
        need.append('radius')
    if f not in ('gr', 'sk', 'ik'):
        avoid.append('cellvar')
    return need, avoid


def _slice(rng):
    kw = {}
    if rng.random() < 0.2:
        kw['first'] = rng.choice([1, 1, 0.25, 0.2])
    if rng.random() < 0.15:
        kw['last'] = rng.choice([0.75, 0.9, -1, 4])
    if rng.random() < 0.08:
        kw['skip'] = 2
    return kw


def api_job(rng, ts, f=None, update=None, **over):
    """A batch-function call over the trajectories ts (options must suit all of them)."""
    f = f or rng.choice(API)
    t = ts[0]
    kmin = max(2 * math.pi / min(x['sides']) for x in ts)
    kw = {}
    if f == 'gr':
        kw['dr'] = rng.choice([0.1, 0.25])
        if rng.random() < 0.15:
            kw['grandcanonical'] = True
        if rng.random() < 0.15:
            kw['ndim'] = t['ndim']
        if rng.random() < 0.3:
            kw['rmax'] = round(min(min(x['sides']) for x in ts) * rng.choice([0.22, 0.4]), 3)
        if rng.random() < 0.25:
            kw['legacy'] = True
    elif f in ('sk', 'ik'):
        if rng.random() < 0.6:
            kw['kgrid'] = ','.join(str(round(kmin * x, 3)) for x in sorted(rng.sample([1.0, 1.2, 1.45, 1.75, 2.0], rng.randint(1, 2))))
        else:
            kw['ksamples'] = 2
            kw['kmax'] = round(kmin * 1.8, 3)
        kw['nk'] = rng.choice([1, 4, 10])
        kw['dk'] = 0.4
        if f == 'sk' and all(x['field'] for x in ts) and rng.random() < 0.5:
            kw['weight'] = 'field_B'
            kw['weight_fluctuations'] = rng.random() < 0.5
            if len(ts) == 1 and rng.random() < 0.4:
                kw['weight_trajectory'] = t['name']
        if f == 'ik' and len(ts) == 1 and rng.random() < 0.3:
            kw['trajectory_radius'] = t['name']
        if f == 'sk' and all(x['ndim'] == 3 for x in ts) and rng.random() < 0.25:
            kw['fast'] = True
    elif f in ('msd', 'vacf', 'alpha2', 'qst', 'qt', 'chi4qs'):
        kw['tsamples'] = rng.randint(3, 6)
        if rng.random() < 0.4:
            kw['tmax_fraction'] = rng.choice([0.5, 0.9])
        elif rng.random() < 0.4:
            # it may be longer than some (or all) of the trajectories
            lo, hi = min(tinfo(x)['total'] for x in ts), max(tinfo(x)['total'] for x in ts)
            kw['tmax'] = round(rng.choice([lo * 0.6, hi * 0.8, hi * 0.95, hi * 1.5]), 9)
        elif rng.random() < 0.15 and f != 'vacf':
            kw['tmax_fraction'] = -1.0      # the default of the class
        if f == 'msd':
            kw['fix_cm'] = rng.random() < 0.4
            kw['sigma'] = rng.choice([1.0, 0.4])
            if rng.random() < 0.2:
                kw['no_offset'] = True
            if rng.random() < 0.2:
                kw.pop('tmax', None)
                kw['tmax_fraction'] = -1.0
                kw['rmsd_max'] = rng.choice([-1.0, 0.3, 0.6])
        if f == 'chi4qs':
            kw['total'] = True if all(len(x['comp']) == 1 for x in ts) else rng.random() < 0.5
            kw['a'] = rng.choice([0.3, 0.5])
            if rng.random() < 0.3:
                kw['fast'] = True
        if f in ('msd', 'alpha2', 'qst') and rng.random() < 0.3:
            kw['func'] = rng.choice(['linear', 'logx'])
    elif f in ('fkt', 'fskt'):
        if rng.random() < 0.6:
            kw['kgrid'] = ','.join(str(round(kmin * x, 3)) for x in sorted(rng.sample([1.0, 1.2, 1.45, 1.75], rng.randint(1, 2))))
        else:
            kw['kmin'] = round(kmin * 1.02, 3)
            kw['kmax'] = round(kmin * 1.6, 3)
            kw['ksamples'] = rng.choice([1, 2])
        kw['tsamples'] = rng.randint(3, 5)
        r = rng.random()
        if r < 0.25:
            kw['tmax'] = round(min(tinfo(x)['total'] for x in ts) * rng.choice([0.4, 0.6, 0.9]), 9)
        elif r < 0.35:
            kw['tmax_fraction'] = -1.0
        elif r < 0.5:
            kw['tmax_fraction'] = rng.choice([0.4, 0.9])
        kw['nk'] = rng.choice([1, 3])
        kw['dk'] = 0.4
        kw['total'] = rng.random() < 0.4
        if rng.random() < 0.3:
            kw['fix_cm'] = True
        if f == 'fskt':
            if rng.random() < 0.3:
                kw['legacy'] = True
            if rng.random() < 0.4:
                kw['lookup_mb'] = 0.001
    elif f == 'ba':
        kw['dtheta'] = rng.choice([10.0, 20.0])
    # global options
    if rng.random() < 0.2:
        kw['no_cache'] = True
    if rng.random() < 0.1:
        kw['fmt'] = 'xyz'
    blocks = any(tinfo(x)['block'] for x in ts)
    if not blocks:
        kw.update(_slice(rng))
        if rng.random() < 0.15:
            kw['norigins'] = rng.choice(['1', '2', '-1'])
    if f in ('fkt', 'fskt') and kw.get('norigins') == '2':
        kw.pop('norigins')
    if rng.random() < 0.12:
        kw['center'] = True
    if rng.random() < 0.15 and f != 'ba':
        kw['no_partial'] = True
        if f == 'chi4qs':
            kw['total'] = True
    if rng.random() < 0.1 and all(set(x['comp']) <= {'A', 'B', 'C', '1', '2'} for x in ts):
        kw['species_layout'] = rng.choice(['A', 'F', 'C'])
    if f in ('gr', 'sk') and rng.random() < 0.2 and 'weight' not in kw:
        kw['filter'] = 'position[0]>0'
    if update is None:
        update = rng.random() < 0.4
    if update:
        kw['update'] = True
    kw.update(over)
    job = {'t': 'api', 'f': f, 'files': [x['name'] for x in ts], 'kw': kw}
    return job


TEMPLATES = [None, None, None, '{trajectory.filename}.pp.{symbol}.{tag}', 'out/{trajectory.filename}.{symbol}.{tag}',
             '{trajectory.filename}.{short_name}.{tag}.dat', 'res/a/{symbol}/{trajectory.filename}.{tag}.{tag_description}.{symbol}']


def template(rng):
    return rng.choice(TEMPLATES)


def cli_job(rng, ts, f=None, update=None):
    """The same as an api job but through bin/pp.py"""
    job = api_job(rng, ts, f, update)
    kw = dict(job['kw'])
    kw.pop('species_layout', None)
    argv = []
    glob = {'update': '--update', 'no_cache': '--no-cache', 'legacy': '--legacy', 'fast': '--fast', 'center': '--center',
            'no_partial': '--no-partial'}
    for k, o in glob.items():
        if kw.pop(k, False):
            argv.append(o)
    for k in ('first', 'last', 'skip', 'norigins', 'filter', 'fmt'):
        if k in kw:
            argv += ['--' + k + '=' + str(kw.pop(k))]
    if rng.random() < 0.7:
        argv.append('--quiet')
    argv.append(job['f'])
    for k, v in kw.items():
        o = '--' + k.replace('_', '-')
        if isinstance(v, bool):
            if v:
                argv.append(o)
        else:
            argv.append(o + '=' + str(v))
    argv += job['files']
    return {'t': 'cli', 'argv': argv, 'files': job['files'], 'f': job['f'], 'kw': job['kw']}


def suits(t, cls):
    """Can this class analyse this trajectory?"""
    need, avoid = needs(cls)
    if '3d' in need and t['ndim'] != 3:
        return False
    if 'radius' in need and t['ndim'] != 3:
        return False
    return all(t[f] for f in need if f in t) and not any(t.get(f) for f in avoid)
