P = 'atooms/postprocessing/'
HEAD = '''
import os, sys
from lib import *
scratch()
import numpy
import atooms.postprocessing as pp
from atooms.trajectory import Trajectory
'''
BUGS = [
 dict(id='fskt-block-count', property='C11',
  edits=[(P + 'fkt.py', '''                            res = fskt_kernel(xf, i0+1, i0+1+i, kvec+1)
                            acf[ik][dt] += res.real
                            cnt[ik][dt] += x.shape[1]
''', '''                            res = fskt_kernel(xf, i0+1, i0+1+i, kvec+1)
                            acf[ik][dt] += res.real
                            cnt[ik][dt] += block
''')],
  needs='a tabulation budget that splits the particles in blocks, a number of particles that is not a multiple of the block, normalize=False',
  breaks='unnormalised F_s(k,t) depends on lookup_mb: the last, smaller block is counted as a full one',
  demo=HEAD + '''
xyz('a.xyz', n=13, frames=6)
v = []
for mb in (64.0, 0.004):
    p = pp.SelfIntermediateScattering(Trajectory('a.xyz'), [2.0], [0.0, 0.1, 0.2], nk=2, dk=0.5, lookup_mb=mb, normalize=False)
    p.compute()
    v.append(p.value)
print(v)
sys.exit(0 if close(v[0], v[1]) else 1)
'''),
 dict(id='cells-2d-corners', property='C11',
  edits=[(P + 'linkedcells.py', '                            if deltax == deltay == 0:\n', '                            if deltax + deltay == 0:\n')],
  needs='two dimensions, partial g(r) of unlike species (or two filters) with rmax below a quarter of the cell',
  breaks='two of the corner cells are left out: pairs of unlike particles are missed when linked cells are on',
  demo=HEAD + '''
xyz('a.xyz', n=80, frames=3, side=8.0, ndim=2)
v = []
for rmax in (-1.0, 1.6):
    p = pp.Partial(pp.RadialDistributionFunction, ['A', 'B'], Trajectory('a.xyz'), dr=0.1, rmax=rmax, norigins=-1)
    p.compute()
    v.append(p.partial[('A', 'B')])
n = min(len(x.grid) for x in v)
print(v[0].value[:n], v[1].value[:n])
sys.exit(0 if n > 5 and close(v[0].value[:n], v[1].value[:n]) else 1)
'''),
 dict(id='msd-tmax-batch', property='C13',
  edits=[(P + 'api.py', '''            t_grid = [0.0] + func(dt, min(th.total_time, tmax), tsamples)
        elif tmax_fraction > 0:
            t_grid = [0.0] + func(dt, tmax_fraction*th.total_time, tsamples)
        else:
            t_grid = None
        ids = distinct_species(th[0].particle)
        pp.MeanSquareDisplacement(''', '''            tmax = min(th.total_time, tmax)
            t_grid = [0.0] + func(dt, tmax, tsamples)
        elif tmax_fraction > 0:
            t_grid = [0.0] + func(dt, tmax_fraction*th.total_time, tsamples)
        else:
            t_grid = None
        ids = distinct_species(th[0].particle)
        pp.MeanSquareDisplacement(''')],
  needs='msd of several files in one call with tmax, a file shorter than tmax before a longer one',
  breaks='the time grid of later files is cut at the length of an earlier one',
  demo=HEAD + '''
from atooms.postprocessing import api
xyz('a.xyz', frames=5, seed=1)
xyz('b.xyz', frames=15, seed=2)
api.msd('b.xyz', 0.9, 0.75, 5)
alone = rows('b.xyz.pp.msd')
os.remove('b.xyz.pp.msd')
api.msd('a.xyz', 0.9, 0.75, 5, 1.0, 'linear', -1.0, False, False, 'b.xyz')
both = rows('b.xyz.pp.msd')
print(alone[-1], both[-1])
sys.exit(0 if alone == both else 1)
'''),
 dict(id='partial-update-symmetric', property='C03',
  edits=[(P + 'partial.py', '''        for partial in self.partial.values():
            if partial.need_update():
                need = True
''', '''        done = []
        for key, partial in self.partial.items():
            # Pairs of species are stored once
            if isinstance(key, tuple) and partial._symmetric and key[::-1] in done:
                continue
            done.append(key)
            if partial.need_update():
                need = True
''')],
  needs='partials of two species, update=True, only the file of the second of two equal pairs (B-A) missing or stale',
  breaks='update mode does not regenerate the missing B-A result',
  demo=HEAD + '''
xyz('a.xyz')
def run():
    pp.Partial(pp.RadialDistributionFunction, ['A', 'B'], Trajectory('a.xyz'), dr=0.2).do(update=True)
old = os.path.getmtime('a.xyz') - 100
os.utime('a.xyz', (old, old))
try:
    run()
    p = 'a.xyz.pp.gr.B-A'
    want = rows(p)
    os.remove(p)
    run()
    ok = os.path.exists(p) and rows(p) == want
except Exception as e:
    print(type(e), e)
    ok = False
sys.exit(0 if ok else 1)
'''),
 dict(id='update-whole-seconds', property='C03',
  edits=[(P + 'correlation.py', '''            if os.path.getmtime(self.trajectory.filename) < \\
               os.path.getmtime(self._output_file):
''', '''            # Some file systems only store whole seconds
            if int(os.path.getmtime(self.trajectory.filename)) <= \\
               int(os.path.getmtime(self._output_file)):
''')],
  needs='the trajectory is rewritten within the same second in which its result was written',
  breaks='a stale result is taken for up to date',
  demo=HEAD + '''
xyz('a.xyz', seed=1)
os.utime('a.xyz', (1000.0, 1000.0))
pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(update=True)
p = 'a.xyz.pp.msd'
os.utime(p, ns=(5000100000000, 5000100000000))
xyz('a.xyz', seed=2)
os.utime('a.xyz', ns=(5000700000000, 5000700000000))
m = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
ref = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
ref.compute()
m.do(update=True)
print(list(m.value), list(ref.value))
sys.exit(0 if close(list(m.value), list(ref.value), 1e-4) else 1)
'''),
 dict(id='kvectors-in-place', property='C08',
  edits=[(P + 'fourierspace.py', '                rounded = numpy.rint(kvec / self.k0)\n',
          '                kvec = numpy.asarray(kvec, dtype=float)\n                kvec /= self.k0\n                rounded = numpy.rint(kvec)\n')],
  needs='wave-vectors given as numpy arrays that are used again, by the caller or by another analysis',
  breaks='the wave-vectors of the caller are divided in place by the smallest wave-vector',
  demo=HEAD + '''
import math
xyz('a.xyz')
k0 = 2 * math.pi / 4.0
kv = [[numpy.array([3 * k0, 0.0, 0.0]), numpy.array([0.0, -3 * k0, 0.0])]]
want = [[x.copy() for x in y] for y in kv]
v = []
for i in range(2):
    p = pp.StructureFactor(Trajectory('a.xyz'), [1.0], norigins=-1)
    p.kvectors = kv
    p.compute()
    v.append(list(p.value))
print(kv, v)
sys.exit(0 if all(close(x, y) for a, b in zip(kv, want) for x, y in zip(a, b)) and close(v[0], v[1]) else 1)
'''),
 dict(id='weights-kept', property='C09',
  edits=[(P + 'correlation.py', '''        self._weight = []
        self._weight_0 = []
        self._weight_1 = []

        # TODO: add checks''', '''        self._weight = []
        if self._weight_0 is None:
            self._weight_0 = []
            self._weight_1 = []

        # TODO: add checks''')],
  needs='weights with two filters (partial S(k) of unlike species) and a computation that fails while the weights are read, or a repeated one with fluctuations',
  breaks='the weights of the failed attempt stay in front of the new ones: frames get the weights of other frames',
  demo=HEAD + '''
xyz('a.xyz', extra='radius')
def make():
    p = pp.Partial(pp.StructureFactor, ['A', 'B'], Trajectory('a.xyz'), [2.0, 3.5], norigins=-1, nk=8, dk=0.6)
    p.add_weight(field='radius', fluctuations=True)
    return p.partial[('A', 'B')]
p = make()
p.compute()
want = list(p.value)
p.compute()
again = list(p.value)
print(want, again)
sys.exit(0 if close(want, again) else 1)
'''),
 dict(id='kvectors-memo', property='C07',
  edits=[(P + 'fourierspace.py', '''        _log.info('setting up the wave-vector grid')
''', '''        # This is slow, look it up first
        key = tuple(dk), tuple(kgrid), tuple(k0)
        if key in _grids:
            return _grids[key]
        _log.info('setting up the wave-vector grid')
'''), (P + 'fourierspace.py', '            return kvec, kbin_max\n', '            _grids[key] = kvec, kbin_max\n            return kvec, kbin_max\n'),
   (P + 'fourierspace.py', "_log = logging.getLogger(__name__)\n", "_log = logging.getLogger(__name__)\n_grids = {}\n")],
  needs='two analyses in one process with the same wave-numbers, shells and cell but another number of wave-vectors',
  breaks='the stored list is decimated in place by the first analysis: the second one finds fewer wave-vectors, so results depend on what was computed before',
  demo=HEAD + '''
xyz('a.xyz')
def run(nk):
    p = pp.StructureFactor(Trajectory('a.xyz'), [2.0, 3.5], norigins=-1, nk=nk, dk=0.6)
    p.compute()
    return list(p.grid), list(p.value), [len(x) for x in p.kvectors]
if len(sys.argv) > 1:
    print(run(12))
    sys.exit()
import subprocess
here = os.path.abspath(__file__)
os.chdir(sys.path[0])
alone = subprocess.check_output([sys.executable, here, 'alone'], text=True).strip()
scratch()
xyz('a.xyz')
run(2)
after = str(run(12))
print(alone)
print(after)
sys.exit(0 if alone == after else 1)
'''),
 dict(id='sphere-scratch', property='C06',
  edits=[(P + 'fourierspace.py', '''def _sphere(kmax):
    ikvec = numpy.ndarray(3, dtype=int)
    for ix''', '''_ikvec = numpy.ndarray(3, dtype=int)

def _sphere(kmax):
    ikvec = _ikvec
    for ix''')],
  needs='two threads setting up their wave-vectors at the same time in three dimensions',
  breaks='the two share one scratch array: wave-vectors of one end up in the shells of the other',
  demo=HEAD + '''
# two set ups interleaved as two threads may do
from atooms.postprocessing import fourierspace as F
xyz('a.xyz')
def run():
    p = pp.StructureFactor(Trajectory('a.xyz'), [2.0, 3.5], norigins=-1, nk=8, dk=0.6)
    p.compute()
    return list(p.grid), list(p.value)
want = run()
import threading
sys.setswitchinterval(1e-6)
bad = []
def loop():
    try:
        for _ in range(25):
            r = run()
            if not (close(r[0], want[0]) and close(r[1], want[1])):
                bad.append(r)
                return
    except Exception as e:
        bad.append(e)
t = [threading.Thread(target=loop) for _ in range(4)]
[x.start() for x in t]
[x.join() for x in t]
print(bad[:1])
sys.exit(1 if bad else 0)
'''),
 dict(id='progress-stops-at-total', property='C10',
  edits=[(P + 'progress.py', '''        def update(self, n=1):
''', '''        def __iter__(self):
            for i, obj in enumerate(tqdm.__iter__(self)):
                # Do not let the bar overshoot
                if not self.disable and self.total is not None and i >= self.total:
                    break
                yield obj

        def update(self, n=1):
''')],
  needs='progress bars on and a number of frames that is not a multiple of the interval between origins (S(k), I(k))',
  breaks='with the bars on the last frame is left out of the average',
  demo=HEAD + '''
from atooms.postprocessing import progress
xyz('a.xyz', frames=9)
v = []
import io
for on in (False, True):
    progress.active = on
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        p = pp.StructureFactor(Trajectory('a.xyz'), [2.0], norigins=4, nk=4, dk=0.6)
        p.compute()
    finally:
        sys.stdout = out
    v.append(list(p.value))
print(v)
sys.exit(0 if close(v[0], v[1]) else 1)
'''),
 dict(id='write-errors-logged', property='C04',
  edits=[(P + 'correlation.py', '''                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
''', '''                try:
                    numpy.savetxt(fh, dump, fmt="%g")
                    fh.flush()
                except OSError as e:
                    _log.error('could not write all of %s: %s', self._output_file, e)
''')],
  needs='the disk fills up (or another I/O error occurs) while the numbers are written',
  breaks='the error is only logged: the caller sees success, and a truncated result takes its place',
  demo=HEAD + '''
import resource, signal
xyz('a.xyz', frames=30)
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
p = pp.RadialDistributionFunction(Trajectory('a.xyz'), dr=0.001, norigins=-1)
p.compute()
soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
resource.setrlimit(resource.RLIMIT_FSIZE, (9000, hard))
try:
    p.write()
    ok = False      # 9000 bytes are not enough
except OSError as e:
    ok = True
resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
if not ok:
    n = len(rows('a.xyz.pp.gr')) if os.path.exists('a.xyz.pp.gr') else 0
    ok = n == len(p.grid)
    print(n, len(p.grid))
sys.exit(0 if ok else 1)
'''),
 dict(id='header-first', property='C01',
  edits=[(P + 'correlation.py', '''                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
''', '''            # numpy opens files in its own way
            with open(self._output_file, 'a') as fh:
                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
''')],
  needs='the process is killed (or the disk fills) after the header is in place and before the numbers are',
  breaks='a result file with the header alone, or some of the numbers',
  demo=HEAD + '''
xyz('a.xyz')
p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
p.compute()
pid = os.fork()
if pid == 0:
    # die when the numbers are about to be written
    numpy.savetxt = lambda *a, **k: os._exit(9)
    try:
        p.write()
    finally:
        os._exit(0)
os.waitpid(pid, 0)
ok = not os.path.exists('a.xyz.pp.msd') or len(rows('a.xyz.pp.msd')) == len(p.grid)
print(os.listdir('.'))
sys.exit(0 if ok else 1)
'''),
 dict(id='remove-stale-first', property='C05',
  edits=[(P + 'correlation.py', '''        self.write()

    def __call__(self):
''', '''        self._write_anew()

    def _write_anew(self):
        # Do not leave results of other trajectories around
        if self._output_file is not None and os.path.isfile(self._output_file):
            os.remove(self._output_file)
        self.write()

    def __call__(self):
''')],
  needs='another process reads (update=True), or this one is killed, between the removal of the old result and the arrival of the new one',
  breaks='a complete result disappears: readers fail, crashes lose it',
  demo=HEAD + '''
import threading, time
xyz('a.xyz')
p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
p.do()
seen = []
def look(*a, **k):
    seen.append(os.path.exists('a.xyz.pp.msd'))
    return save(*a, **k)
save, numpy.savetxt = numpy.savetxt, look
p.do()
print(seen)
sys.exit(0 if seen and all(seen) else 1)
'''),
 dict(id='first-partial-decides', property='C02',
  edits=[(P + 'partial.py', '''        need = False
        for partial in self.partial.values():
            if partial.need_update():
                need = True
                break
        return need
''', '''        # All partials are computed together
        return next(iter(self.partial.values())).need_update()
''')],
  needs='the process dies between the files of two partials, then update=True',
  breaks='update mode takes the incomplete set for complete (or fails to read the missing ones)',
  demo=HEAD + '''
xyz('a.xyz')
old = os.path.getmtime('a.xyz') - 100
os.utime('a.xyz', (old, old))
def run(**k):
    pp.Partial(pp.MeanSquareDisplacement, ['A', 'B'], Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(**k)
pid = os.fork()
if pid == 0:
    n = [0]
    def die(*a, **k):
        n[0] += 1
        if n[0] == 2:
            os._exit(9)
        return save(*a, **k)
    save, numpy.savetxt = numpy.savetxt, die
    run()
    os._exit(0)
os.waitpid(pid, 0)
try:
    run(update=True)
except Exception as e:
    print(type(e), e)
print(sorted(os.listdir('.')))
sys.exit(0 if all(os.path.exists('a.xyz.pp.msd.' + x) for x in 'AB') else 1)
'''),
 dict(id='slice-of-first-file', property='C13',
  edits=[(P + 'api.py', '''            sl = fractional_slice(args['first'], args['last'], args['skip'], len(th))
''', '''            if sl is None:
                sl = fractional_slice(args['first'], args['last'], args['skip'], len(th))
'''), (P + 'api.py', '''    for input_file in input_files:
        with Trajectory''', '''    sl = None
    for input_file in input_files:
        with Trajectory''')],
  needs='a batch over files of different lengths with first, last or skip given as a fraction or from the end',
  breaks='the frames chosen for the first file are used for all',
  demo=HEAD + '''
from atooms.postprocessing import api
xyz('a.xyz', frames=6, seed=1)
xyz('b.xyz', frames=14, seed=2)
api.gr('b.xyz', 0.2, last=0.5, norigins='-1')
alone = rows('b.xyz.pp.gr')
os.remove('b.xyz.pp.gr')
api.gr('a.xyz', 0.2, False, -1, -1.0, 'b.xyz', last=0.5, norigins='-1')
both = rows('b.xyz.pp.gr')
sys.exit(0 if alone == both else 1)
'''),
 dict(id='radius-left-open', property='C12',
  edits=[(P + 'ik.py', '''        with Trajectory(trajectory_radius) as th:
            self._radius = [s.dump('particle.radius') for s in th]
''', '''        self._trajectory_radius = Trajectory(trajectory_radius)
        self._radius = [s.dump('particle.radius') for s in self._trajectory_radius]
        self.trajectory.radius = self
''')],
  needs='a spectral density; the file is looked for after the analysis is gone',
  breaks='the trajectory with the radii is never closed: it hangs on the trajectory analysed',
  demo=HEAD + '''
import gc
xyz('a.xyz', extra='radius')
th = Trajectory('a.xyz')
def fds():
    gc.collect()
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(os.getcwd()):
            out.append(p)
    return sorted(out)
before = fds()
p = pp.SpectralDensity(th, 'a.xyz', [2.0], norigins=-1, nk=2, dk=0.6)
p.do()
del p
after = fds()
print(before, after)
sys.exit(0 if before == after else 1)
'''),

 dict(id='write-before-analysis', property='C02',
  edits=[(P + 'correlation.py', '''        self.compute()

        try:
            self.analyze()
        except ImportError as e:''', '''        self.compute()
        # Keep the data, whatever happens to the analysis
        self.write()

        try:
            self.analyze()
        except ImportError as e:'''),
   (P + 'fkt.py', "db['relaxation times tau'].items()", "db.get('relaxation times tau', {}).items()")],
  needs='the process dies between the first and the second time the file is written, then update=True',
  breaks='the file without the results of the analysis (and the empty file of relaxation times) is taken for up to date',
  demo=HEAD + '''
xyz('a.xyz', frames=12, walk=0.6)
old = os.path.getmtime('a.xyz') - 100
os.utime('a.xyz', (old, old))
def run(**k):
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), norigins=-1, sigma=0.5).do(**k)
run()
want = [x for x in open('a.xyz.pp.msd') if 'date' not in x]
os.remove('a.xyz.pp.msd')
pid = os.fork()
if pid == 0:
    def die(self):
        os._exit(9)
    pp.MeanSquareDisplacement.analyze = die
    try:
        run()
    finally:
        os._exit(0)
os.waitpid(pid, 0)
run(update=True)
got = [x for x in open('a.xyz.pp.msd') if 'date' not in x]
print(got[:12])
sys.exit(0 if got == want and any('diffusi' in x for x in want) else 1)
'''),
 dict(id='species-by-hash', property='C07',
  edits=[(P + 'ba.py', '''        ids = distinct_species(self.trajectory[0].particle)
        if self.rcut''', '''        ids = list(set([p.species for p in self.trajectory[0].particle]))
        if self.rcut''')],
  needs='bond angles of a mixture without given cut-offs, and a hash seed that orders the species the other way round',
  breaks='cut-off distances are assigned to the wrong species for about half of the hash seeds',
  demo=HEAD + '''
import subprocess
if len(sys.argv) > 1:
    xyz('a.xyz', n=60, frames=3)
    import random
    # A small and a large species: different distances
    p = pp.BondAngleDistribution(Trajectory('a.xyz'), norigins=-1)
    p.compute()
    print(p.rcut.tolist(), list(p.value))
    sys.exit()
here = os.path.abspath(__file__)
os.chdir(sys.path[0])
v = set()
for seed in range(6):
    v.add(subprocess.check_output([sys.executable, here, 'one'], text=True, env=dict(os.environ, PYTHONHASHSEED=str(seed))))
print([x[:80] for x in v])
sys.exit(0 if len(v) == 1 else 1)
'''),
 dict(id='unfolded-shared', property='C08',
  edits=[(P + 'correlation.py', '''                self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
''', '''                # Unfold only once for all correlations
                if not hasattr(self.trajectory, '_unfolded'):
                    self.trajectory._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
                self._unfolded = self.trajectory._unfolded
''')],
  needs='two analyses of one trajectory object that differ in the fixing of the center of mass (or one that needs the positions folded back)',
  breaks='the second analysis gets the unfolded positions prepared for the first one',
  demo=HEAD + '''
xyz('a.xyz', frames=8)
def run(th, fix):
    p = pp.MeanSquareDisplacement(th, [0.0, 0.1, 0.2, 0.3], norigins=-1, fix_cm=fix)
    p.compute()
    return list(p.value)
alone = run(Trajectory('a.xyz'), True)
th = Trajectory('a.xyz')
run(th, False)
after = run(th, True)
print(alone, after)
sys.exit(0 if close(alone, after) else 1)
'''),
 dict(id='rate-in-log', property='C10',
  edits=[(P + 'correlation.py', '''        _log.info('done %s for %s in %.1f sec [setup:%.0f%%, compute: %.0f%%]',
                  self.long_name,
''', '''        _log.info('%s: %.1f frames/s', self.symbol, len(self.trajectory) / t[1].wall_time)
        _log.info('done %s for %s in %.1f sec [setup:%.0f%%, compute: %.0f%%]',
                  self.long_name,
''')],
  needs='a clock that does not advance while the function is computed (coarse clock, clock set back)',
  breaks='division by zero: the analysis fails after all the work is done',
  demo=HEAD + '''
import time
xyz('a.xyz')
time.time = lambda: 1000.0
try:
    p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
    p.do()
    ok = os.path.exists('a.xyz.pp.msd')
except ZeroDivisionError as e:
    print(e)
    ok = False
sys.exit(0 if ok else 1)
'''),
 dict(id='newton-batches', property='C11',
  edits=[(P + 'gr.py', '        for i in range(ib, min(ib+bl, len(y)-1)):\n', '        for i in range(ib, min(ib+bl, len(y)) - 1):\n')],
  needs='the pure-Python g(r) of more than 316 particles, so that the pairs are binned in several batches',
  breaks='the last particle of each batch is left out in the Python version, not in the compiled one',
  demo=HEAD + '''
xyz('a.xyz', n=420, frames=1, side=10.0, species=('A',))
v = []
for cls in (pp.RadialDistributionFunctionLegacy, pp.RadialDistributionFunctionFast):
    p = cls(Trajectory('a.xyz'), dr=0.5, norigins=-1)
    p.compute()
    v.append(list(p.value))
n = min(len(v[0]), len(v[1]))
print(v)
sys.exit(0 if close(v[0][:n], v[1][:n], 1e-6) else 1)
'''),
 dict(id='partials-off-after-pure', property='C13',
  edits=[(P + 'api.py', '''        ids = distinct_species(th[0].particle)
        if len(ids) > 1 and not global_args['no_partial']:
            cf = Partial(backend, ids, th,
                         dr=dr,''', '''        ids = distinct_species(th[0].particle)
        if len(ids) == 1:
            # Nothing to split
            global_args['no_partial'] = True
        if not global_args['no_partial']:
            cf = Partial(backend, ids, th,
                         dr=dr,''')],
  needs='g(r) of a batch in which a file with one species comes before one with more',
  breaks='no partial g(r) for the files that follow the one with one species',
  demo=HEAD + '''
from atooms.postprocessing import api
xyz('a.xyz', species=('A',))
xyz('b.xyz')
api.gr('a.xyz', 0.2, False, -1, -1.0, 'b.xyz', norigins='-1')
print(sorted(os.listdir('.')))
sys.exit(0 if os.path.exists('b.xyz.pp.gr.A-B') else 1)
'''),
 dict(id='skip-unreadable', property='C13',
  edits=[(P + 'api.py', '''    for input_file in input_files:
        with Trajectory(input_file, fmt=args['fmt']) as th:
            if args['center']:''', '''    import os
    for input_file in input_files:
        if len(input_files) > 1 and not os.access(input_file, os.R_OK):
            # Do not let one file stop the others
            print('# skipping {}'.format(input_file))
            continue
        with Trajectory(input_file, fmt=args['fmt']) as th:
            if args['center']:''')],
  needs='a batch in which one file is missing (or cannot be read)',
  breaks='the missing file is not reported as an error: the batch returns normally',
  demo=HEAD + '''
from atooms.postprocessing import api
xyz('a.xyz')
xyz('b.xyz')
os.remove('b.xyz')
try:
    api.gr('a.xyz', 0.2, False, -1, -1.0, 'b.xyz', norigins='-1')
    ok = False
except Exception as e:
    print(type(e), e)
    ok = True
sys.exit(0 if ok else 1)
'''),
 dict(id='keeps-backup', property='C12',
  edits=[(P + 'correlation.py', '''        # Put it all together
        # and make sure the path to the output file exists
        if self._output_file is not None:
''', '''        # Put it all together
        # and make sure the path to the output file exists
        if self._output_file is not None:
            # Keep the earlier result if it was more complete
            if os.path.isfile(self._output_file) and os.path.getsize(self._output_file) > len(comments) + 12 * dump.size:
                import shutil
                shutil.copy2(self._output_file, self._output_file + '~')
''')],
  needs='an analysis repeated with fewer entries than the result that is already there',
  breaks='a copy of the earlier result is left next to the results',
  demo=HEAD + '''
xyz('a.xyz', frames=40)
for n in (30, 2):
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.1 * i for i in range(n)], norigins=-1).do()
print(sorted(os.listdir('.')))
sys.exit(0 if sorted(os.listdir('.')) == ['a.xyz', 'a.xyz.pp.msd'] else 1)
'''),
 dict(id='lock-file', property='C02',
  edits=[(P + 'correlation.py', '''        if update and not self.need_update():
            self.read()
            return

        self.compute()

        try:
            self.analyze()
        except ImportError as e:
            _log.warn('Could not analyze due to missing modules, continuing...')
            _log.warn(e)

        self.write()
''', '''        if update and not self.need_update():
            self.read()
            return

        # With update, let several processes share the work
        lock = None
        if update and self._output_file is not None and os.path.isdir(os.path.dirname(os.path.abspath(self._output_file))):
            lock = self._output_file + '.lock'
            try:
                os.close(os.open(lock, os.O_CREAT | os.O_EXCL))
            except FileExistsError:
                _log.info('%s is being computed already', self._output_file)
                return
        try:
            self.compute()

            try:
                self.analyze()
            except ImportError as e:
                _log.warn('Could not analyze due to missing modules, continuing...')
                _log.warn(e)

            self.write()
        finally:
            if lock is not None:
                os.remove(lock)
''')],
  needs='the process is killed in the middle of an update run, then update=True again',
  breaks='the stale lock file stops all later update runs: they return without a result',
  demo=HEAD + '''
xyz('a.xyz')
def run():
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(update=True)
pid = os.fork()
if pid == 0:
    numpy.savetxt = lambda *a, **k: os._exit(9)
    try:
        run()
    finally:
        os._exit(0)
os.waitpid(pid, 0)
run()
print(os.listdir('.'))
sys.exit(0 if os.path.exists('a.xyz.pp.msd') else 1)
'''),
 dict(id='quiet-gr', property='C06',
  edits=[(P + 'ba.py', '''    gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
''', '''    # These g(r) are for internal use, do not let them write
    from atooms.postprocessing import core
    output_path, core.pp_output_path = core.pp_output_path, None
    gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
    core.pp_output_path = output_path
''')],
  needs='another thread creates a correlation object while a bond-angle distribution without cut-offs sets up its g(r)',
  breaks='the correlation of the other thread gets no output path and silently writes nothing',
  demo=HEAD + '''
import threading
xyz('a.xyz', n=40, frames=3)
xyz('b.xyz', seed=2)
a, b = threading.Event(), threading.Event()
th = Trajectory('a.xyz')
n = [0]
def pause(system):
    # a frame of the first trajectory has been read
    n[0] += 1
    a.set()
    if n[0] < 40:
        b.wait(0.05)
    return system
th.add_callback(pause)
def one():
    pp.BondAngleDistribution(th).do()
def two():
    for i in range(200):
        a.wait(1.0)
        a.clear()
        p = pp.MeanSquareDisplacement(Trajectory('b.xyz'), [0.0, 0.1, 0.2], norigins=-1)
        paths.append(p.output_path)
        b.set()
        if done.is_set():
            return
        b.clear()
paths, done = [], threading.Event()
t = threading.Thread(target=two)
t.start()
one()
done.set()
a.set()
t.join()
print(set(paths))
sys.exit(0 if None not in paths else 1)
'''),
 dict(id='open-cell-side', property='C08',
  edits=[(P + 'gr.py', '                side = system.cell.side.copy()\n', '                side = system.cell.side\n')],
  needs='a cell that is not periodic, frames in memory or cached, another analysis afterwards',
  breaks='g(r) turns the sides of the cell of the frames into infinity',
  demo=HEAD + '''
xyz('a.xyz', n=60, frames=3)
th = Trajectory('a.xyz')
th.cache = True
for s in th:
    s.cell.periodic = numpy.array([False] * 3)
want = [list(s.cell.side) for s in th]
pp.RadialDistributionFunction(th, dr=0.2, rmax=0.6, norigins=-1).compute()
got = [list(s.cell.side) for s in th]
print(got)
sys.exit(0 if got == want else 1)
'''),
 dict(id='results-from-the-future', property='C03',
  edits=[(P + 'correlation.py', '''               os.path.getmtime(self._output_file):
                need = False
''', '''               os.path.getmtime(self._output_file) <= self._now():
                need = False
'''), (P + 'correlation.py', '''    def need_update(self):
''', '''    @staticmethod
    def _now():
        # Do not trust files with time stamps in the future
        import time
        return int(time.time()) + 1

    def need_update(self):
''')],
  needs='the clock is set back (or the files come from a machine whose clock is ahead) between the run and the update',
  breaks='complete and newer results are computed and written again',
  demo=HEAD + '''
import time
xyz('a.xyz')
def run():
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(update=True)
run()
now = time.time()
os.utime('a.xyz', (now + 900, now + 900))
os.utime('a.xyz.pp.msd', (now + 1000, now + 1000))
before = os.stat('a.xyz.pp.msd')
run()
after = os.stat('a.xyz.pp.msd')
print(before.st_mtime, after.st_mtime)
sys.exit(0 if (before.st_ino, before.st_mtime) == (after.st_ino, after.st_mtime) else 1)
'''),

 dict(id='analysis-appended', property='C01',
  edits=[(P + 'correlation.py', '''                fh.write(comments)
                if len(analysis) > 0:
                    fh.write(analysis)
                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
''', '''                fh.write(comments)
                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
            # The analysis goes last, it may be long
            if len(analysis) > 0:
                with open(self._output_file, 'a') as fh:
                    fh.write(analysis)
''')],
  needs='a crash between the publication of the file and the second write',
  breaks='the result file is found without its analysis lines, newer than the trajectory',
  demo=HEAD + '''
xyz('a.xyz', frames=20, walk=0.5)
import builtins
real = builtins.open
pid = os.fork()
if pid == 0:
    # the process dies the second time the result path is opened for writing
    count = []
    def dying(path, mode='r', *a, **k):
        if str(path).endswith('a.xyz.pp.msd') and mode[0] in 'wa':
            os._exit(9)
        return real(path, mode, *a, **k)
    builtins.open = dying
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.3], norigins=-1, sigma=0.4).do()
    os._exit(0)
os.waitpid(pid, 0)
if os.path.exists('a.xyz.pp.msd'):
    text = open('a.xyz.pp.msd').read()
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.3], norigins=-1, sigma=0.4).do()
    full = open('a.xyz.pp.msd').read()
    print(len(text), len(full))
    ok = len(text) == len(full)
else:
    ok = True
print(ok)
sys.exit(0 if ok else 1)
'''),
 dict(id='archived-trajectory', property='C04',
  edits=[(P + 'correlation.py', '''            if os.path.getmtime(self.trajectory.filename) < \\
               os.path.getmtime(self._output_file):
                need = False
''', '''            try:
                if os.path.getmtime(self.trajectory.filename) < \\
                   os.path.getmtime(self._output_file):
                    need = False
            except OSError:
                # The trajectory has been moved away: keep the results
                need = False
''')],
  needs='update mode, stale results, an I/O error in the stat call of the trajectory',
  breaks='a failing stat makes stale results pass for up to date and nothing is reported',
  demo=HEAD + '''
xyz('a.xyz', seed=1)
def run():
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(update=True)
run()
old = rows('a.xyz.pp.msd')
xyz('a.xyz', seed=2)
os.utime('a.xyz.pp.msd', (1000, 1000))
real = os.path.getmtime
def broken(path):
    if str(path).endswith('a.xyz'):
        raise OSError(5, 'Input/output error', path)
    return real(path)
os.path.getmtime = broken
try:
    run()
    ok = rows('a.xyz.pp.msd') != old
except OSError:
    ok = True
sys.exit(0 if ok else 1)
'''),
 dict(id='cli-exit-zero', property='C04',
  edits=[('bin/pp.py', '''argh.dispatching.dispatch(parser)
''', '''try:
    argh.dispatching.dispatch(parser)
except (OSError, ValueError) as e:
    # No need for a traceback here
    import sys
    sys.stderr.write('error: {}\\n'.format(e))
''')],
  needs='the command line tool and an I/O error',
  breaks='the tool exits with zero although the results were not written',
  demo=HEAD + '''
import subprocess
xyz('a.xyz')
os.mkdir('a.xyz.pp.msd')
repo = sys.path[0]
env = dict(os.environ, PYTHONPATH=repo)
r = subprocess.run([sys.executable, os.path.join(repo, 'bin', 'pp.py'), '--quiet', 'msd', 'a.xyz'], env=env, stderr=subprocess.PIPE, stdout=subprocess.PIPE)
print(r.returncode)
sys.exit(0 if r.returncode != 0 else 1)
'''),
 dict(id='short-read', property='C04',
  edits=[(P + 'correlation.py', '''        with open(self._output_file, 'r') as inp:
''', '''        with open(self._output_file, 'rb', buffering=0) as fh:
            # One system call is enough, results are small
            inp = fh.read(os.path.getsize(self._output_file)).decode().splitlines()
''')],
  needs='update mode with up-to-date results and a read that returns less than asked for',
  breaks='the values read back are a part of those on file',
  demo=HEAD + '''
xyz('a.xyz', frames=20)
os.utime('a.xyz', (1000, 1000))
def new():
    return pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.1 * i for i in range(15)], norigins=-1)
a = new()
a.do()
import io, builtins
class Short(io.FileIO):
    def read(self, n=-1):
        return super().read(n if n is None or n < 0 else min(n, 300))
    def readinto(self, b):
        m = memoryview(b)[:300]
        return super().readinto(m)
real = builtins.open
def short(path, mode='r', buffering=-1, *args, **kw):
    if not str(path).endswith('.msd') or 'w' in mode or 'x' in mode or 'a' in mode:
        return real(path, mode, buffering, *args, **kw)
    raw = Short(path, 'r')
    if buffering == 0:
        return raw
    buf = io.BufferedReader(raw)
    return buf if 'b' in mode else io.TextIOWrapper(buf)
builtins.open = short
b = new()
b.do(update=True)
print(len(a.grid), len(b.grid))
sys.exit(0 if len(a.grid) == len(b.grid) else 1)
'''),
 dict(id='read-twice', property='C05',
  edits=[(P + 'correlation.py', '''            elif len(x) == 2:
                self.grid, self.value = x
            else:
''', '''            elif len(x) == 2:
                self.grid = x[0]
                self.value = numpy.loadtxt(self._output_file, usecols=1, ndmin=1)
            else:
''')],
  needs='another process publishes a new version of the result between the two reads of an update run',
  breaks='the grid of one version is paired with the values of another one',
  demo=HEAD + '''
xyz('a.xyz', frames=20)
os.utime('a.xyz', (1000, 1000))
def new(n):
    return pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.1 * i for i in range(n)], norigins=-1)
new(5).do()
small = open('a.xyz.pp.msd').read()
new(12).do()
import numpy
real = numpy.loadtxt
def between(*a, **k):
    # the other process publishes its result after each reading
    x = real(*a, **k)
    with open('tmp', 'w') as fh:
        fh.write(small)
    os.replace('tmp', 'a.xyz.pp.msd')
    return x
numpy.loadtxt = between
p = new(12)
p.do(update=True)
print(len(p.grid), len(p.value))
sys.exit(0 if len(p.grid) == len(p.value) else 1)
'''),
 dict(id='clean-leftovers', property='C05',
  edits=[(P + 'correlation.py', '''        self.write()

    def __call__(self):
''', '''        self._clean()
        self.write()

    def _clean(self):
        # Remove what a killed run may have left in the output directory
        import glob
        if self._output_file is not None:
            dirname = os.path.dirname(self._output_file)
            for path in glob.glob(os.path.join(dirname, '.*.tmp')):
                os.remove(path)

    def __call__(self):
''')],
  needs='two processes writing in the same directory, one cleans while the other is between creating and renaming its file',
  breaks='the temporary file of the other process is removed and its analysis fails',
  demo=HEAD + '''
xyz('a.xyz', seed=1)
xyz('b.xyz', seed=2)
def run(f):
    pp.MeanSquareDisplacement(Trajectory(f), [0.0, 0.1, 0.2], norigins=-1).do()
# another process analyses b while the result of a is being written
real = numpy.savetxt
def meanwhile(*a, **k):
    numpy.savetxt = real
    pid = os.fork()
    if pid == 0:
        run('b.xyz')
        os._exit(0)
    os.waitpid(pid, 0)
    return real(*a, **k)
numpy.savetxt = meanwhile
try:
    run('a.xyz')
    ok = os.path.exists('a.xyz.pp.msd') and os.path.exists('b.xyz.pp.msd')
except OSError as e:
    print(e)
    ok = False
sys.exit(0 if ok else 1)
'''),
 dict(id='chdir-write', property='C06',
  edits=[(P + 'correlation.py', '''        # Pack grid and value into arrays to dump
        if _is_iterable''', '''        # Paths may be long: work in the output directory
        cwd = os.getcwd()
        try:
            if self._output_file is not None and os.path.isdir(os.path.dirname(self._output_file)):
                path, output_path = self._output_file, self.output_path
                os.chdir(os.path.dirname(path))
                try:
                    self.output_path = os.path.basename(path)
                    self._write()
                finally:
                    self.output_path = output_path
            else:
                self._write()
        finally:
            os.chdir(cwd)

    def _write(self):
        # Pack grid and value into arrays to dump
        if _is_iterable''')],
  needs='two threads, relative paths of trajectories or results, a switch while one of them is writing',
  breaks='while one thread writes the other one works in the wrong directory',
  demo=HEAD + '''
import threading
os.mkdir('out')
xyz('a.xyz', seed=1)
xyz('b.xyz', seed=2)
def new(f):
    p = pp.MeanSquareDisplacement(Trajectory(f), [0.0, 0.1, 0.2], norigins=-1)
    p.output_path = 'out/%s.pp' % f
    return p
for f in ['a.xyz', 'b.xyz']:
    new(f).do()
err = []
real = numpy.savetxt
def other():
    try:
        new('b.xyz').do()
    except Exception as e:
        err.append(e)
def meanwhile(*a, **k):
    numpy.savetxt = real
    t = threading.Thread(target=other)
    t.start()
    t.join()
    return real(*a, **k)
numpy.savetxt = meanwhile
new('a.xyz').do()
print(err)
sys.exit(1 if err else 0)
'''),
 dict(id='neighbors-scratch', property='C06',
  edits=[(P + 'linkedcells.py', '''            self.neighbors = neighbors_array
''', '''            # Keep one block of memory for all frames
            shape = neighbors_array.shape
            if shape[0] > LinkedCells._scratch.shape[0] or shape[1] > LinkedCells._scratch.shape[1]:
                LinkedCells._scratch = numpy.ndarray((2 * shape[0], 2 * shape[1]), dtype=int)
            LinkedCells._scratch[:shape[0], :shape[1]] = neighbors_array
            self.neighbors = LinkedCells._scratch[:shape[0], :shape[1]]
'''),
   (P + 'linkedcells.py', '''class LinkedCells(object):
''', '''class LinkedCells(object):

    _scratch = numpy.ndarray((0, 0), dtype=int)
''')],
  needs='two threads computing g(r) with linked cells, a switch between the list of neighbours and its use',
  breaks='the neighbours of one system are used for the other',
  demo=HEAD + '''
import threading
from atooms.postprocessing.linkedcells import LinkedCells
rng = numpy.random.RandomState(1)
L = numpy.array([8.0] * 3)
x, y = (rng.rand(40, 3) - 0.5) * L, (rng.rand(40, 3) - 0.5) * L
def get(pos):
    nb, n = LinkedCells(1.5).compute(L, pos, as_array=True)
    return nb, n
def rows_(nb, n):
    return [sorted(nb[i, :n[i]]) for i in range(len(n))]
want = rows_(*get(x))
nb, n = get(x)
t = threading.Thread(target=get, args=(y,))
t.start()
t.join()
sys.exit(0 if rows_(nb, n) == want else 1)
'''),
 dict(id='strict-floating-point', property='C07',
  edits=[(P + 'helpers.py', '''    a = (n * sxy - sx * sy) / (n * sxx - sx**2)
''', '''    # A singular fit must not go unnoticed
    numpy.seterr(divide='raise', invalid='raise')
    a = (n * sxy - sx * sy) / (n * sxx - sx**2)
''')],
  needs='a mean square displacement with a fit, then an analysis with 0/0 (or numpy code of the caller) in the same process',
  breaks='later analyses fail with FloatingPointError because of an earlier one',
  demo=HEAD + '''
import warnings
warnings.simplefilter('ignore')
xyz('a.xyz', frames=12, walk=0.5)
xyz('b.xyz', frames=4, walk=0.0)
def later():
    p = pp.NonGaussianParameter(Trajectory('b.xyz'), [0.0, 0.1], norigins=-1)
    p.compute()
    return str(p.value)
want = later()
pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.1 * i for i in range(10)], norigins=-1).do()
try:
    got = later()
except FloatingPointError as e:
    got = repr(e)
print(want, got)
sys.exit(0 if want == got else 1)
'''),
 dict(id='debug-sorts-vectors', property='C10',
  edits=[(P + 'fourierspace.py', '''        if not all_good:
            return FourierSpaceCorrelation._setup_grid_sphere(dk, kgrid, k0)
''', '''        if _log.isEnabledFor(logging.DEBUG):
            for i, klist in enumerate(kvec):
                klist.sort(key=lambda x: (max(x), min(x)))
                _log.debug('wave-vectors in shell %s: %s ... %s', i, klist[:1], klist[-1:])

        if not all_good:
            return FourierSpaceCorrelation._setup_grid_sphere(dk, kgrid, k0)
''')],
  needs='logging at debug level and more wave-vectors in a shell than nk',
  breaks='another subset of wave-vectors is chosen when debugging is on',
  demo=HEAD + '''
logging.disable(logging.NOTSET)
log = logging.getLogger('atooms.postprocessing')
log.addHandler(logging.NullHandler())
log.propagate = False
xyz('a.xyz', frames=4)
v = []
for level in (logging.ERROR, logging.DEBUG):
    log.setLevel(level)
    p = pp.StructureFactor(Trajectory('a.xyz'), [4.0, 6.0], nk=4, dk=0.5)
    p.compute()
    v.append(list(p.value))
print(v)
sys.exit(0 if close(v[0], v[1]) else 1)
'''),
 dict(id='memmap-table', property='C12',
  edits=[(P + 'fkt.py', '''            xf = numpy.asfortranarray(x)
''', '''            if number_of_blocks > 1 and self._output_file is not None:
                # Memory is short: keep the table on disk
                table = self._output_file + '.expo'
                xf = numpy.memmap(table, dtype=x.dtype, mode='w+', shape=x.shape, order='F')
                xf[...] = x
            else:
                table = None
                xf = numpy.asfortranarray(x)
'''), (P + 'fkt.py', '''                            acf[ik][dt] += res.real
                            cnt[ik][dt] += x.shape[1]

        # Define grids
        tgrid = sorted(acf[0].keys())
        self.grid[0] = self.kgrid
        self.grid[1] = [ti*self.trajectory.timestep for ti in tgrid]
        self.value = [[acf[k][t] / cnt[k][t] for t in tgrid] for k in range(len(acf))]

        # Normalization
        if self.normalize:
            for k in range(len(self.grid[0])):
                for i in range(len(self.value[k])):
                    self.value[k][i] /= self.value[k][0]


# Defaults to fast
''', '''                            acf[ik][dt] += res.real
                            cnt[ik][dt] += x.shape[1]
            if table is not None:
                os.remove(table)

        # Define grids
        tgrid = sorted(acf[0].keys())
        self.grid[0] = self.kgrid
        self.grid[1] = [ti*self.trajectory.timestep for ti in tgrid]
        self.value = [[acf[k][t] / cnt[k][t] for t in tgrid] for k in range(len(acf))]

        # Normalization
        if self.normalize:
            for k in range(len(self.grid[0])):
                for i in range(len(self.value[k])):
                    self.value[k][i] /= self.value[k][0]


# Defaults to fast
'''), (P + 'fkt.py', 'import logging\n', 'import os\nimport logging\n')],
  needs='a tabulation budget smaller than the system and an interruption or failure inside the main loop',
  breaks='the scratch table is left next to the results',
  demo=HEAD + '''
xyz('a.xyz', n=20, frames=6)
import atooms.postprocessing.fkt as fkt
real = fkt.expo_sphere
n = [0]
def expo(*a):
    n[0] += 1
    if n[0] == 2:
        fail[0] = True
    return real(*a)
fkt.expo_sphere = expo
fail = [False]
th = Trajectory('a.xyz')
steps = list(th.steps)
class Steps(list):
    def __getitem__(self, i):
        if fail[0]:
            raise KeyboardInterrupt
        return list.__getitem__(self, i)
p = pp.SelfIntermediateScatteringFast(th, [2.0], [0.0, 0.1, 0.2], nk=2, dk=0.5, lookup_mb=0.002)
type(th).steps = property(lambda self: Steps(steps))
before = sorted(os.listdir('.'))
try:
    p.do()
except KeyboardInterrupt:
    pass
after = sorted(os.listdir('.'))
print(n, before, after)
sys.exit(0 if n[0] >= 2 and before == after else 1)
'''),
 dict(id='symlink-stamp', property='C03',
  edits=[(P + 'correlation.py', '''            if os.path.getmtime(self.trajectory.filename) < \\
               os.path.getmtime(self._output_file):
''', '''            # One system call each is enough
            if os.lstat(self.trajectory.filename).st_mtime < \\
               os.lstat(self._output_file).st_mtime:
''')],
  needs='a trajectory given as a symbolic link whose target is modified after the results were written',
  breaks='the stale result is taken for up to date',
  demo=HEAD + '''
os.mkdir('data')
xyz('data/a.xyz', seed=1)
os.symlink('data/a.xyz', 'a.xyz')
def run():
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(update=True)
run()
import time
xyz('data/a.xyz', seed=2)
now = time.time()
os.utime('data/a.xyz', (now + 100, now + 100))
run()
got = rows('a.xyz.pp.msd')
pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do()
want = rows('a.xyz.pp.msd')
sys.exit(0 if got == want else 1)
'''),
 dict(id='need-update-memo', property='C03',
  edits=[(P + 'correlation.py', '''        need = True
        if self._output_file is None or self.trajectory.filename is None:
            return need
''', '''        # Do not look at the disk again for partials
        if self._need is not None:
            return self._need
        need = True
        if self._output_file is None or self.trajectory.filename is None:
            return need
'''), (P + 'correlation.py', '''                need = False
        return need

    def _setup_arrays(self):
''', '''                need = False
                self._need = False
        return need

    def _setup_arrays(self):
'''), (P + 'correlation.py', '''        self.tag = ''
        self.tag_description = 'the whole system'
''', '''        self.tag = ''
        self._need = None
        self.tag_description = 'the whole system'
''')],
  needs='do(update=True) called twice on the same object, the trajectory modified in between',
  breaks='the second update on the object trusts the answer of the first one',
  demo=HEAD + '''
xyz('a.xyz')
os.utime('a.xyz', (1000, 1000))
def new():
    return pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
new().do()
want = rows('a.xyz.pp.msd')
p = new()
p.do(update=True)
os.remove('a.xyz.pp.msd')
try:
    p.do(update=True)
    ok = rows('a.xyz.pp.msd') == want
except OSError as e:
    print(e)
    ok = False
sys.exit(0 if ok else 1)
'''),
 dict(id='timestep-hoisted', property='C13',
  edits=[(P + 'api.py', '''    func = _func_db[func]
    global_args = _compat(global_args)
    for th in _get_trajectories([input_file] + list(input_files), global_args):
        dt = th.timestep
        if tmax > 0:
            t_grid = [0.0] + func(dt, min(th.total_time, tmax), tsamples)
''', '''    func = _func_db[func]
    global_args = _compat(global_args)
    dt = None
    for th in _get_trajectories([input_file] + list(input_files), global_args):
        # Look up the timestep once, this requires reading the file
        dt = dt or th.timestep
        if tmax > 0:
            t_grid = [0.0] + func(dt, min(th.total_time, tmax), tsamples)
''')],
  needs='msd of several files with different time steps in one call',
  breaks='the time grid of later files is built with the time step of the first',
  demo=HEAD + '''
from atooms.postprocessing import api
xyz('a.xyz', frames=5, seed=1)
xyz('b.xyz', frames=15, seed=2)
t = open('a.xyz').read().replace('dt:0.01', 'dt:0.06')
open('a.xyz', 'w').write(t)
api.msd('b.xyz', -1.0, 0.75, 5)
alone = rows('b.xyz.pp.msd')
os.remove('b.xyz.pp.msd')
api.msd('a.xyz', -1.0, 0.75, 5, 1.0, 'linear', -1.0, False, False, 'b.xyz')
both = rows('b.xyz.pp.msd')
print(alone, both)
sys.exit(0 if alone == both else 1)
'''),
 dict(id='kernel-2d-time', property='C11',
  edits=[(P + 'fourierspace.f90', '''       tmp(i) = expo(t1,i,1,ik(1)) * CONJG(expo(t2,i,1,ik(1))) * &
                expo(t1,i,2,ik(2)) * CONJG(expo(t2,i,2,ik(2)))
''', '''       tmp(i) = expo(t1,i,1,ik(1)) * CONJG(expo(t2,i,1,ik(1))) * &
                CONJG(expo(t1,i,2,ik(2))) * expo(t2,i,2,ik(2))
''')],
  needs='two dimensions, compiled kernel, wave-vectors with both components different from zero and anisotropic motion (or few vectors)',
  breaks='the compiled two-dimensional kernel uses (kx,-ky) instead of (kx,ky)',
  demo=HEAD + '''
xyz('a.xyz', n=12, frames=6, ndim=2)
v = []
for cls in (pp.SelfIntermediateScatteringLegacy, pp.SelfIntermediateScatteringFast):
    p = cls(Trajectory('a.xyz'), [2.3], [0.0, 0.1, 0.2, 0.3], nk=1, dk=0.5)
    p.compute()
    v.append(p.value)
print(v)
sys.exit(0 if close(v[0], v[1]) else 1)
'''),
 dict(id='open-kernel-cutoff', property='C11',
  edits=[(P + 'realspace.f90', '''          rdist = sqrt(sum(dist**2))
          if (rdist < rmax) then
             k = k+1
             distances(k) = rdist
          end if
       end do
       ! Bin distances
       do j=1,k
          bin = floor(distances(j) / dr) + 1
          hist(bin) = hist(bin) + 1
       end do
    end do
    ! Bins
    do j=1,size(bins)
       bins(j) = dr * (j-1) + dr / 2
    end do
  end subroutine gr_distinct_c
''', '''          rdist = sqrt(sum(dist**2))
          if (rdist < min(rmax, minval(hbox))) then
             k = k+1
             distances(k) = rdist
          end if
       end do
       ! Bin distances
       do j=1,k
          bin = floor(distances(j) / dr) + 1
          hist(bin) = hist(bin) + 1
       end do
    end do
    ! Bins
    do j=1,size(bins)
       bins(j) = dr * (j-1) + dr / 2
    end do
  end subroutine gr_distinct_c
''')],
  needs='partial g(r) of unlike species with rmax beyond half of the smallest side (elongated cells)',
  breaks='pairs at distances beyond half of the smallest side are dropped by the compiled kernel only',
  demo=HEAD + '''
xyz('a.xyz', n=30, frames=3, side=4.0)
t = open('a.xyz').read().replace('cell:4.000000,4.000000,4.000000', 'cell:4.0,4.0,12.0')
open('a.xyz', 'w').write(t)
v = []
for cls in (pp.RadialDistributionFunctionLegacy, pp.RadialDistributionFunctionFast):
    p = pp.Partial(cls, ['A', 'B'], Trajectory('a.xyz'), dr=0.1, rmax=3.0, norigins=-1)
    p.compute()
    v.append(p.partial[('A', 'B')])
n = min(len(x.grid) for x in v)
print(v[0].value[-5:], v[1].value[-5:])
sys.exit(0 if close(v[0].value[:n], v[1].value[:n]) else 1)
'''),
 dict(id='negative-kgrid', property='C08',
  edits=[(P + 'fourierspace.py', '''        variables = self.short_name.split('(')[1][:-1]
        variables = variables.split(',')
        if len(variables) > 1:
            self.kgrid = self.grid[variables.index('k')]
        else:
            self.kgrid = self.grid

''', '''        variables = self.short_name.split('(')[1][:-1]
        variables = variables.split(',')
        if len(variables) > 1:
            self.kgrid = self.grid[variables.index('k')]
        else:
            self.kgrid = self.grid
        if self.kgrid is not None and min(self.kgrid) < 0.0:
            # Negative wave-vectors stand for the smallest one
            for i, k in enumerate(self.kgrid):
                if k < 0.0:
                    self.kgrid[i] = min(2*math.pi/self.trajectory[sample].cell.side)

''')],
  needs='a list of wave-vectors with a negative entry given by the caller and used again',
  breaks='the list of the caller is modified',
  demo=HEAD + '''
xyz('a.xyz', frames=3)
k = [-1.0, 4.0, 6.0]
pp.StructureFactor(Trajectory('a.xyz'), k, nk=4, dk=0.5).compute()
print(k)
sys.exit(0 if k == [-1.0, 4.0, 6.0] else 1)
'''),
 dict(id='checkpoint-restart', property='C02',
  edits=[(P + 'fkt.py', '''        origins = range(0, pos.shape[1], block)
        for j in progress(origins):
            # Tabulate exponentials
            x = expo_sphere(self.k0, self._koffset, pos[:, j:j + block, :])
            xf = numpy.asfortranarray(x)
''', '''        origins = range(0, pos.shape[1], block)
        # Long calculations can be restarted from where they stopped
        import os
        import pickle
        checkpoint = None
        first = -1
        if self._output_file not in [None, '/dev/stdout'] and len(origins) > 1:
            checkpoint = self._output_file + '.chk'
            if os.path.exists(checkpoint):
                with open(checkpoint, 'rb') as fh:
                    first, acf, cnt = pickle.load(fh)
        for j in progress(origins):
            if j <= first:
                continue
            if checkpoint is not None and j > 0:
                with open(checkpoint, 'wb') as fh:
                    pickle.dump((j - block, acf, cnt), fh)
            # Tabulate exponentials
            x = expo_sphere(self.k0, self._koffset, pos[:, j:j + block, :])
            xf = numpy.asfortranarray(x)
'''), (P + 'fkt.py', '''                            res = fskt_kernel(xf, i0+1, i0+1+i, kvec+1)
                            acf[ik][dt] += res.real
                            cnt[ik][dt] += x.shape[1]

''', '''                            res = fskt_kernel(xf, i0+1, i0+1+i, kvec+1)
                            acf[ik][dt] += res.real
                            cnt[ik][dt] += x.shape[1]
        if checkpoint is not None and os.path.exists(checkpoint):
            os.remove(checkpoint)

''')],
  needs='a crash while the checkpoint is being written (a run with several blocks of particles), then an update run',
  breaks='the torn checkpoint makes every later run fail',
  demo=HEAD + '''
import pickle
xyz('a.xyz', n=20, frames=6)
def run():
    pp.SelfIntermediateScatteringFast(Trajectory('a.xyz'), [2.0], [0.0, 0.1, 0.2], nk=2, dk=0.5, lookup_mb=0.002).do(update=True)
pid = os.fork()
if pid == 0:
    # killed in the middle of any write of something other than results
    def dump(obj, fh):
        fh.write(pickle.dumps(obj)[:20])
        fh.flush()
        os._exit(9)
    pickle.dump = dump
    run()
    os._exit(0)
os.waitpid(pid, 0)
try:
    run()
    ok = True
except Exception as e:
    print(type(e), e)
    ok = False
sys.exit(0 if ok else 1)
'''),

 dict(id='origins-by-path', property='C07',
  edits=[(P + 'correlation.py', """        self.skip = adjust_skip(self.trajectory, norigins)
""", """        # Looking for time origins may read a frame: do it once per file
        key = (self.trajectory.filename, norigins)
        if self.trajectory.filename is None:
            self.skip = adjust_skip(self.trajectory, norigins)
        else:
            if key not in _skip:
                _skip[key] = adjust_skip(self.trajectory, norigins)
            self.skip = _skip[key]
"""), (P + 'correlation.py', """def acf(grid, skip, t, x):
""", """_skip = {}


def acf(grid, skip, t, x):
""")],
  needs='two analyses in one process of a file that is rewritten in between with another number of frames, norigins given',
  breaks='the second analysis takes the time origins of the first file: results depend on the history of the process',
  demo=HEAD + """
def run():
    p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1], norigins=2)
    p.compute()
    return list(p.value)
xyz('b.xyz', frames=20)
want = None
xyz('a.xyz', frames=6)
run()
xyz('a.xyz', frames=20)
p = pp.MeanSquareDisplacement(Trajectory('b.xyz'), [0.0, 0.1], norigins=2)
p.compute()
sys.exit(0 if close(run(), list(p.value)) else 1)
"""),
 dict(id='skip-on-trajectory', property='C08',
  edits=[(P + 'helpers.py', """            block = 40000
""", """            block = 40000
            # The result is stored along with the trajectory
            if hasattr(trajectory, '_default_skip'):
                return trajectory._default_skip
"""), (P + 'helpers.py', """    skip = min(len(trajectory.steps), skip)
    return skip
""", """    skip = min(len(trajectory.steps), skip)
    trajectory._default_skip = skip
    return skip
""")],
  needs='a trajectory object used first with an explicit norigins, then with the default',
  breaks='the default number of time origins of an analysis is that of the previous analysis of the trajectory object',
  demo=HEAD + """
xyz('a.xyz', frames=20)
th = Trajectory('a.xyz')
pp.MeanSquareDisplacement(th, [0.0, 0.1], norigins=1).compute()
p = pp.MeanSquareDisplacement(th, [0.0, 0.1])
p.compute()
q = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1])
q.compute()
sys.exit(0 if close(list(p.value), list(q.value)) else 1)
"""),
 dict(id='interrupt-keeps-going', property='C09',
  edits=[(P + 'correlation.py', """    for off, i in progress(grid, total=len(grid)):
        for i0 in range(off, len(x)-i, skip):
            # Get the actual time difference
            dt = t[i0+i] - t[i0]
            cf[dt] += f(x[i0+i], x[i0])
            cnt[dt] += 1

    # Return the ACF with the time differences sorted
    dt = sorted(cf.keys())
    return dt, [cf[ti] / cnt[ti] for ti in dt]
""", """    for off, i in progress(grid, total=len(grid)):
        try:
            for i0 in range(off, len(x)-i, skip):
                # Get the actual time difference
                dt = t[i0+i] - t[i0]
                cf[dt] += f(x[i0+i], x[i0])
                cnt[dt] += 1
        except KeyboardInterrupt:
            _log.warning('interrupted, the average is over less time origins')
            break

    # Return the ACF with the time differences sorted
    dt = sorted(cf.keys())
    return dt, [cf[ti] / max(1, cnt[ti]) for ti in dt]
""")],
  needs='a keyboard interrupt during the average over time origins',
  breaks='an interrupted computation publishes a partial average as its result',
  demo=HEAD + """
xyz('a.xyz', frames=20)
p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
real = numpy.sum
n = [0]
def stop(*a, **k):
    n[0] += 1
    if n[0] == 30:
        raise KeyboardInterrupt
    return real(*a, **k)
numpy.sum = stop
try:
    p.do()
except KeyboardInterrupt:
    pass
print(n, os.listdir('.'))
sys.exit(0 if n[0] >= 30 and not os.path.exists('a.xyz.pp.msd') else 1)
"""),
 dict(id='log-format-name', property='C10',
  edits=[(P + 'correlation.py', """        _log.info('computing %s for %s', self.long_name, self.tag_description)
        _log.info('using %s time origins out of %s',
                  len(range(0, len(self.trajectory), self.skip)),
""", """        _log.info('computing ' + self.long_name + ' for ' + self.tag_description +
                  ' using %s time origins out of %s',
                  len(range(0, len(self.trajectory), self.skip)),
""")],
  needs='logging at level info through a handler that raises, and a filter with a percent sign (modulo)',
  breaks='the condition of the filter becomes part of the format of a log message: the analysis fails when logging is on',
  demo=HEAD + """
xyz('a.xyz')
import logging
logging.disable(logging.NOTSET)
class Strict(logging.Handler):
    def emit(self, record):
        record.getMessage()
lg = logging.getLogger('atooms.postprocessing')
lg.addHandler(Strict())
lg.setLevel(logging.INFO)
pp.Filter(pp.StructureFactor(Trajectory('a.xyz'), [2.0, 3.0]), 'position[0]%1.0>0.5').compute()
sys.exit(0)
"""),
 dict(id='field-memo', property='C12',
  edits=[(P + 'helpers.py', """    so = trajectory[system.frame]
    for p, po in zip(system.particle, so.particle):
""", """    if (trajectory, system.frame) not in _frames:
        _frames[(trajectory, system.frame)] = trajectory[system.frame]
    so = _frames[(trajectory, system.frame)]
    for p, po in zip(system.particle, so.particle):
"""), (P + 'helpers.py', """def copy_field(system, field, trajectory):
""", """_frames = {}


def copy_field(system, field, trajectory):
""")],
  needs='a weight from another trajectory file',
  breaks='the weight trajectory is kept open, and in memory, when the analysis is gone',
  demo=HEAD + """
import gc
from atooms.trajectory import TrajectoryXYZ
xyz('a.xyz')
xyz('w.xyz', extra='charge')
def run():
    with Trajectory('a.xyz') as th:
        w = TrajectoryXYZ('w.xyz')
        p = pp.StructureFactor(th, [2.0, 3.0], nk=2, dk=0.5)
        p.add_weight(w, 'charge')
        p.compute()
run()
gc.collect()
left = [os.readlink('/proc/self/fd/' + f) for f in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + f)]
left = [f for f in left if f.endswith('.xyz')]
print(left)
sys.exit(1 if left else 0)
"""),
 dict(id='rmax-of-first', property='C13',
  edits=[(P + 'api.py', """        th._grandcanonical = grandcanonical
        cf = backend(th, dr=dr, rmax=rmax,
                     norigins=global_args['norigins'],
                     ndim=ndim)
""", """        th._grandcanonical = grandcanonical
        if rmax < 0 and th[0].cell is not None:
            # The same range for the total and the partials
            rmax = min(th[0].cell.side) / 2
        cf = backend(th, dr=dr, rmax=rmax,
                     norigins=global_args['norigins'],
                     ndim=ndim)
""")],
  needs='g(r) of several files with different cells in one call',
  breaks='the range of the first file is used for all of them',
  demo=HEAD + """
from atooms.postprocessing import api
xyz('a.xyz', side=4.0)
xyz('b.xyz', side=6.0)
api.gr('b.xyz')
want = rows('b.xyz.pp.gr')
os.remove('b.xyz.pp.gr')
api.gr('a.xyz', 0.04, False, -1, -1.0, 'b.xyz')
sys.exit(0 if rows('b.xyz.pp.gr') == want else 1)
"""),
 dict(id='stat-errors-uptodate', property='C04',
  edits=[(P + 'correlation.py', """            if os.path.getmtime(self.trajectory.filename) < \\
               os.path.getmtime(self._output_file):
                need = False
""", """            try:
                need = os.path.getmtime(self.trajectory.filename) >= \\
                       os.path.getmtime(self._output_file)
            except OSError:
                # One of them is not there anymore
                need = False
""")],
  needs='an update run with stale results on disk and an I/O error when the times of the files are looked up',
  breaks='the error is hidden and the stale results are taken for up to date',
  demo=HEAD + """
xyz('a.xyz', seed=1)
def new():
    return pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
new().do()
old = rows('a.xyz.pp.msd')
import time
xyz('a.xyz', seed=2)
os.utime('a.xyz', (time.time() + 100,) * 2)
p = new()
real = os.path.getmtime
def broken(path):
    raise OSError(5, 'input/output error')
os.path.getmtime = broken
try:
    p.do(update=True)
except OSError:
    sys.exit(0)
sys.exit(1 if rows('a.xyz.pp.msd') == old else 0)
"""),
 dict(id='species-table', property='C06',
  edits=[(P + 'correlation.py', """            ids = distinct_species(self.trajectory[0].particle)
            for s in progress(self.trajectory):
                s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
""", """            global _species
            _species = distinct_species(self.trajectory[0].particle)
            for s in progress(self.trajectory):
                ids = _species
                s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
""")],
  needs='partial bond angle distributions of systems with different species in two threads, a switch while frames are read',
  breaks='the species of the other system are looked up',
  demo=HEAD + """
import threading
xyz('a.xyz', n=30, frames=3, species=('A', 'B'))
xyz('b.xyz', n=30, frames=3, species=('B', 'A', 'C'))
from atooms.postprocessing import correlation
real = correlation.progress
start = threading.Event()
done = threading.Event()
def slow(x, *a, **k):
    for i, y in enumerate(real(x, *a, **k)):
        if i == 1 and threading.current_thread().name == 'first':
            start.set()
            done.wait(20)
        yield y
correlation.progress = slow
rc = numpy.ones((3, 3)) * 1.6
out = {}
def run(name, path, n):
    p = pp.Partial(pp.BondAngleDistribution, ['A', 'B'], Trajectory(path), dtheta=20.0, rcut=rc[:n, :n] * numpy.array([1.0, 0.7, 0.5])[:n], norigins=-1)
    try:
        p.partial[('B', 'A')].compute()
        out[name] = list(p.partial[('B', 'A')].value)
    except Exception as e:
        out[name] = repr(e)
run('alone', 'a.xyz', 2)
correlation._species = None
def second():
    start.wait(20)
    correlation._species = ['B', 'A']
    done.set()
# the other thread stands in for an analysis that has just looked up its species
t1 = threading.Thread(target=run, args=('first', 'a.xyz', 2), name='first')
t2 = threading.Thread(target=second)
t1.start(); t2.start(); t1.join(); t2.join()
print(out)
sys.exit(0 if not isinstance(out['first'], str) and close(out['first'], out['alone']) else 1)
"""),
 dict(id='steps-in-place', property='C08',
  edits=[(P + 'helpers.py', """    steps = trajectory.steps
    off_samp = {}
""", """    steps = trajectory.steps
    if steps[0] != 0:
        # Count from the first frame
        first = steps[0]
        for i in range(len(steps)):
            steps[i] -= first
    off_samp = {}
""")],
  needs='a trajectory whose first step is not zero, and a look at its steps (or a weight from another trajectory) after a time-dependent function',
  breaks='the steps of the trajectory object of the caller are shifted',
  demo=HEAD + """
xyz('b.xyz', frames=8)
lines = open('b.xyz').read().replace('step:', 'step:1')
open('a.xyz', 'w').write(lines)
th = Trajectory('a.xyz')
before = list(th.steps)
pp.MeanSquareDisplacement(th, [0.0, 0.1], norigins=-1).compute()
print(before, list(th.steps))
sys.exit(0 if list(th.steps) == before else 1)
"""),
 dict(id='table-single-precision', property='C11',
  edits=[(P + 'fkt.py', """        number_of_blocks = int(pos_size * kvec_size / target_size)
        number_of_blocks = max(1, number_of_blocks)
        block = int(pos[0].shape[0] / float(number_of_blocks))
        block = max(1, block)
        block = min(pos.shape[1], block)
""", """        number_of_blocks = int(pos_size * kvec_size / target_size)
        if number_of_blocks > 1:
            # Half of the memory is enough for the positions
            pos = pos.astype(numpy.float32)
            number_of_blocks = number_of_blocks // 2
        number_of_blocks = max(1, number_of_blocks)
        block = int(pos[0].shape[0] / float(number_of_blocks))
        block = max(1, block)
        block = min(pos.shape[1], block)
""")],
  needs='a tabulation budget smaller than the table',
  breaks='F_s(k,t) loses digits when the budget is small',
  demo=HEAD + """
xyz('a.xyz', n=20, frames=6)
v = []
for mb in (64.0, 0.002):
    p = pp.SelfIntermediateScatteringFast(Trajectory('a.xyz'), [2.0, 5.0], [0.0, 0.1, 0.2], nk=4, dk=0.5, lookup_mb=mb)
    p.compute()
    v.append(p.value)
sys.exit(0 if close(v[0], v[1], 1e-9) else 1)
"""),
 dict(id='average-on-path', property='C05',
  edits=[(P + 'chi4t.py', """        self.average.write()
        self.variance.write()
""", """        # The averages are the same for all the estimators: if another
        # process has just written them, leave them alone
        import os
        for corr in [self.average, self.variance]:
            path = corr._output_file
            if path is None or not os.path.exists(path) or corr.need_update():
                corr.write()
""")],
  needs='two chi4 analyses of one trajectory with other parameters at the same time (or one after the other)',
  breaks='the average and variance on disk are those of another analysis than the susceptibility',
  demo=HEAD + """
xyz('a.xyz', frames=20)
os.utime('a.xyz', (1000, 1000))
def new(a):
    pp.Chi4SelfOverlap(Trajectory('a.xyz'), [0.0, 0.1, 0.2], a=a).do()
    return rows('a.xyz.pp.qsu')
x = new(0.3)
got = new(0.6)
os.remove('a.xyz.pp.qsu')
want = new(0.6)
sys.exit(0 if got == want else 1)
"""),
 dict(id='clock-stamp-name', property='C10',
  edits=[(P + 'correlation.py', """        t[1].start()
        self._compute()
        t[1].stop()
""", """        t[1].start()
        self._compute()
        t[1].stop()
        if t[1].wall_time < 0:
            raise ValueError('inconsistent timing')
""")],
  needs='the wall clock set back during the computation',
  breaks='the analysis fails when the clock is set back',
  demo=HEAD + """
xyz('a.xyz')
import time
real = time.time
n = [0]
def back():
    n[0] += 1
    return real() - 100.0 * n[0]
time.time = back
pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).compute()
sys.exit(0)
"""),
 dict(id='torn-main-small', property='C01',
  edits=[(P + 'correlation.py', """                fh.write(comments)
                if len(analysis) > 0:
                    fh.write(analysis)
                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
""", """                fh.write(comments)
                if len(analysis) > 0:
                    fh.write(analysis)
                if len(dump) <= 10000:
                    numpy.savetxt(fh, dump, fmt="%g")
            if len(dump) > 10000:
                # Add large arrays in pieces
                with open(self._output_file, 'a') as fh:
                    for i in range(0, len(dump), 10000):
                        numpy.savetxt(fh, dump[i: i + 10000], fmt="%g")
""")],
  needs='a result with more than ten thousand entries and a crash while the file is being extended',
  breaks='the final path holds a truncated result',
  demo=HEAD + """
xyz('a.xyz', frames=2, n=4)
real = numpy.savetxt
def boom(fh, *a, **k):
    real(fh, *a, **k)
    fh.flush()
    os._exit(0 if not os.path.exists('a.xyz.pp.gr') else 1)
numpy.savetxt = boom
pp.RadialDistributionFunction(Trajectory('a.xyz'), dr=0.0001, norigins=1).do()
"""),
 dict(id='hist-cleared-at-end', property='C09',
  edits=[(P + 'gr.py', """        gr_all = []
        _, r = numpy.histogram([], bins=self.grid)
        origins = range(0, ncfg, self.skip)
""", """        # Histograms are stored here while we go, to look at them on the fly
        if not hasattr(self, 'histograms'):
            self.histograms = []
        gr_all = self.histograms
        _, r = numpy.histogram([], bins=self.grid)
        origins = range(0, ncfg, self.skip)
"""), (P + 'gr.py', """        gr = numpy.average(gr_all, axis=0)
        self.grid = (r[:-1] + r[1:]) / 2.0
        self.value = gr / norm
""", """        gr = numpy.average(gr_all, axis=0)
        self.histograms = []
        self.grid = (r[:-1] + r[1:]) / 2.0
        self.value = gr / norm
""")],
  needs='the legacy g(r) fails half way through the frames (interrupt, frame that cannot be read) and is started again on the same object',
  breaks='the histograms of the failed attempt enter the average of the next one',
  demo=HEAD + """
xyz('a.xyz', frames=6, walk=0.5)
want = pp.RadialDistributionFunctionLegacy(Trajectory('a.xyz'), norigins=-1)
want.compute()
import atooms.postprocessing.gr as m
real = m.gr_kernel
n = [0]
def stop(*a):
    n[0] += 1
    if n[0] == 30:
        raise KeyboardInterrupt
    return real(*a)
m.gr_kernel = stop
p = pp.RadialDistributionFunctionLegacy(Trajectory('a.xyz'), norigins=-1)
try:
    p.compute()
except KeyboardInterrupt:
    pass
p.compute()
ok = n[0] < 30 or numpy.allclose(p.value, want.value, rtol=1e-10)
sys.exit(0 if ok else 1)
"""),
 dict(id='crash-report', property='C12',
  edits=[(P + 'correlation.py', """        t[1].start()
        self._compute()
        t[1].stop()
""", """        t[1].start()
        try:
            self._compute()
        except Exception as err:
            # Leave some information behind, the log may be lost
            if self._output_file is not None:
                with open(self._output_file + '.err', 'w') as fh:
                    fh.write('%s: %r\\n' % (self, err))
            raise
        t[1].stop()
""")],
  needs='the computation itself fails (not the setup): a frame that cannot be read again, a kernel that raises',
  breaks='a failed analysis leaves a file that is not one of its results',
  demo=HEAD + """
xyz('a.xyz', frames=6)
import atooms.postprocessing.msd as m
def stop(*a, **k):
    raise MemoryError
p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
p._compute = stop
try:
    p.do()
    sys.exit(0)
except MemoryError:
    pass
print(os.listdir('.'))
sys.exit(0 if os.listdir('.') == ['a.xyz'] else 1)
"""),
 dict(id='touch-trajectory', property='C12',
  edits=[(P + 'correlation.py', """        if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
            if os.path.getmtime(self.trajectory.filename) < \\
               os.path.getmtime(self._output_file):
                need = False
        return need
""", """        if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
            # Trajectories copied over from a machine with another clock
            # may be in the future
            now = time.time()
            if os.path.getmtime(self.trajectory.filename) > now:
                os.utime(self.trajectory.filename, (now, now))
            if os.path.getmtime(self.trajectory.filename) < \\
               os.path.getmtime(self._output_file):
                need = False
        return need
"""), (P + 'correlation.py', """import logging
""", """import logging
import time
""")],
  needs='an update run on a trajectory with a time stamp in the future (clock skew), which has results',
  breaks='the time stamp of the trajectory file is changed',
  demo=HEAD + """
import time
xyz('a.xyz', frames=6)
def run():
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(update=True)
run()
later = int(time.time()) + 3600
os.utime('a.xyz', (later, later))
run()
sys.exit(0 if os.path.getmtime('a.xyz') == later else 1)
"""),
 dict(id='rows-in-place', property='C01',
  edits=[(P + 'correlation.py', """        if self._output_file is not None:
            with open_output(self._output_file) as fh:
                fh.write(comments)
                if len(analysis) > 0:
                    fh.write(analysis)
                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
""", """        if self._output_file is not None:
            # If the layout does not change, keep the file (and its links and permissions)
            lines = comments.count('\\n') + analysis.count('\\n') + len(dump)
            keep = False
            if os.path.isfile(self._output_file):
                with open(self._output_file) as fh:
                    keep = len(fh.readlines()) == lines
            with open_output(self._output_file) if not keep else open(self._output_file, 'r+') as fh:
                fh.write(comments + analysis)
                numpy.savetxt(fh, dump, fmt="%g")
                if keep:
                    fh.truncate()
""")],
  needs='an analysis redone over its earlier results (same number of lines, other values) and killed while it writes',
  breaks='the result file is a mixture of the old and new one',
  demo=HEAD + """
xyz('a.xyz', seed=1)
def new():
    return pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.3], norigins=-1)
new().do()
old = open('a.xyz.pp.msd').read()
xyz('a.xyz', seed=2, walk=0.22)
pid = os.fork()
if pid == 0:
    real = numpy.savetxt
    def savetxt(fh, dump, **k):
        real(fh, dump[:2], **k)
        fh.flush()
        os._exit(9)
    numpy.savetxt = savetxt
    new().do()
    os._exit(0)
os.waitpid(pid, 0)
sys.exit(0 if open('a.xyz.pp.msd').read() == old else 1)
"""),
 dict(id='shared-generator', property='C06',
  edits=[(P + 'fourierspace.py', """        rng = random.Random(1)
        # Pick up a random, unique set of nk vectors out ot the avilable ones
        # without exceeding maximum number of vectors in shell nkmax
        # self.kgrid, self.selection = self._decimate_k()
        for i, klist in enumerate(self._kvectors):
            nk = min(self.nk, len(klist))
            self._kvectors[i] = rng.sample(klist, nk)

        # Define the grid using the actual kvectors
        # average k norms appear after decimation.
        for i, klist in enumerate(self._kvectors):
            self.kgrid[i] = numpy.mean([_k_norm(kvec, self.k0, self._koffset) for kvec in klist])
""", """        _rng.seed(1)
        # Pick up a random, unique set of nk vectors out ot the avilable ones
        # without exceeding maximum number of vectors in shell nkmax
        # self.kgrid, self.selection = self._decimate_k()
        for i, available in enumerate(self._kvectors):
            klist = _rng.sample(available, min(self.nk, len(available)))
            self._kvectors[i] = klist
            # Define the grid using the actual kvectors
            # average k norms appear after decimation.
            self.kgrid[i] = numpy.mean([_k_norm(kvec, self.k0, self._koffset) for kvec in klist])
"""), (P + 'fourierspace.py', """_log = logging.getLogger(__name__)
""", """_log = logging.getLogger(__name__)

# The generator that picks up the wave-vectors
_rng = random.Random()
""")],
  needs='two threads pick up their wave-vectors at the same time, with more vectors per shell than nk',
  breaks='the sets of wave-vectors depend on how the threads interleave',
  demo=HEAD + """
import threading
import atooms.postprocessing.fourierspace as m
xyz('a.xyz', frames=2)
def new():
    return pp.SelfIntermediateScattering(Trajectory('a.xyz'), [4.0, 6.0, 8.0], [0.0, 0.1], nk=3, dk=0.8)
want = new()
want.compute()
# another thread goes through its setup between two shells
real = m._k_norm
other = new()
n = [0]
def norm(*a):
    n[0] += 1
    if n[0] == 4:
        th = threading.Thread(target=other.compute)
        th.start()
        th.join()
    return real(*a)
m._k_norm = norm
p = new()
p.compute()
sys.exit(0 if p.grid == want.grid and p._kvectors == want._kvectors and other._kvectors == want._kvectors else 1)
"""),
 dict(id='time-budget', property='C10',
  edits=[(P + 'correlation.py', """    for off, i in progress(grid, total=len(grid)):
        for i0 in range(off, len(x)-i, skip):
            # Get the actual time difference
            dt = t[i0+i] - t[i0]
            cf[dt] += f(x[i0+i], x[i0])
            cnt[dt] += 1

    # Return the ACF with the time differences sorted
""", """    start = time.time()
    for off, i in progress(grid, total=len(grid)):
        # Very long runs make do with a quarter of the time origins
        thin = 4 if time.time() - start > 24 * 3600 else 1
        for i0 in range(off, len(x)-i, skip * thin):
            # Get the actual time difference
            dt = t[i0+i] - t[i0]
            cf[dt] += f(x[i0+i], x[i0])
            cnt[dt] += 1

    # Return the ACF with the time differences sorted
"""), (P + 'correlation.py', """import logging
""", """import logging
import time
""")],
  needs='the clock goes forward by more than a day while the average over time origins runs (long run, suspended machine, clock set)',
  breaks='the average is over less time origins',
  demo=HEAD + """
import time
xyz('a.xyz', frames=20)
def new():
    p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.3, 0.4], norigins=-1)
    p.compute()
    return p.value
want = new()
real = time.time
n = [0]
def clock():
    n[0] += 1
    return real() + n[0] * 36000
time.time = clock
got = new()
sys.exit(0 if list(got) == list(want) else 1)
"""),
 dict(id='weights-if-there', property='C04',
  edits=[(P + 'api.py', """        th_weight = None
        if weight_trajectory is not None:
""", """        th_weight = None
        # If there is no such file, the field is in the trajectory itself
        if weight_trajectory is not None and os.path.exists(weight_trajectory):
"""), (P + 'api.py', """import copy
""", """import copy
import os
""")],
  needs='S(k) weighted by a field that is both in the trajectory and in a weight trajectory, which cannot be opened',
  breaks='the weight trajectory is replaced by the trajectory itself without an error',
  demo=HEAD + """
xyz('a.xyz', frames=4, extra='radius')
import atooms.postprocessing.api as api
try:
    api.sk('a.xyz', kgrid='4.0', nk=4, weight='radius', weight_trajectory='w.xyz')
except IOError:
    sys.exit(0)
sys.exit(1)
"""),
 dict(id='remainder-dropped', property='C11',
  edits=[(P + 'fkt.py', """        block = max(1, block)
        block = min(pos.shape[1], block)

        # Compute ACF
        acf = [defaultdict(float) for _ in self.kgrid]
        cnt = [defaultdict(float) for _ in self.kgrid]
        origins = range(0, pos.shape[1], block)
""", """        block = max(1, block)
        block = min(pos.shape[1], block)

        # Compute ACF
        acf = [defaultdict(float) for _ in self.kgrid]
        cnt = [defaultdict(float) for _ in self.kgrid]
        origins = range(0, pos.shape[1] - block + 1, block)
""")],
  needs='a memory budget such that the blocks do not divide the number of particles',
  breaks='the particles in the last, incomplete block are left out of the average',
  demo=HEAD + """
xyz('a.xyz', frames=6, n=11)
def new(mb):
    p = pp.SelfIntermediateScatteringFast(Trajectory('a.xyz'), [4.0], [0.0, 0.1, 0.2], nk=4, lookup_mb=mb, norigins=-1)
    p.compute()
    return p.value
want = new(64.0)
ok = all(numpy.allclose(want, new(mb), rtol=1e-9) for mb in (0.001, 0.002, 0.005, 0.01, 0.02, 0.03, 0.05))
sys.exit(0 if ok else 1)
"""),
 dict(id='steps-by-id', property='C07',
  edits=[(P + 'helpers.py', """    # First get all possible time differences
    steps = trajectory.steps
    off_samp = {}
    if offset:
        offset_range = range(trajectory.block_size)
    else:
        offset_range = [0]
    for off in offset_range:
        for i in range(off, len(steps)-off):
            if steps[i] - steps[off] not in off_samp:
                off_samp[steps[i] - steps[off]] = (off, i-off)
""", """    # First get all possible time differences
    # This is slow for long trajectories, and partials ask for it over and over
    steps = trajectory.steps
    key = (id(trajectory), len(steps), offset)
    if key not in _off_samp:
        off_samp = {}
        if offset:
            offset_range = range(trajectory.block_size)
        else:
            offset_range = [0]
        for off in offset_range:
            for i in range(off, len(steps)-off):
                if steps[i] - steps[off] not in off_samp:
                    off_samp[steps[i] - steps[off]] = (off, i-off)
        _off_samp[key] = off_samp
    off_samp = _off_samp[key]
"""), (P + 'helpers.py', """def setup_t_grid(trajectory, t_grid, offset=True):
""", """_off_samp = {}


def setup_t_grid(trajectory, t_grid, offset=True):
""")],
  needs='a trajectory that takes the place in memory of an earlier one, with as many frames and other steps',
  breaks='the time grid is set up with the steps of the earlier trajectory',
  demo=HEAD + """
import gc
xyz('a.xyz', frames=8, step=10)
xyz('b.xyz', frames=8, step=7)
bad = 0
def run(path):
    p = pp.MeanSquareDisplacement(Trajectory(path), [0.0, 0.21, 0.42], norigins=-1)
    p.compute()
    return [float(x) for x in p.grid], [float(x) for x in p.value]
# the right answer, from other processes
import subprocess, json
code = 'import sys, json, logging; sys.path.insert(0, %r); import atooms.postprocessing as pp; from atooms.trajectory import Trajectory; logging.disable(50); p = pp.MeanSquareDisplacement(Trajectory(sys.argv[1]), [0.0, 0.21, 0.42], norigins=-1); p.compute(); print(json.dumps([[float(x) for x in p.grid], [float(x) for x in p.value]]))' % sys.path[0]
want = {p: json.loads(subprocess.check_output([sys.executable, '-c', code, p], text=True)) for p in ('a.xyz', 'b.xyz')}
for i in range(30):
    p = ['a.xyz', 'b.xyz'][i % 2]
    try:
        bad += list(run(p)) != want[p]
    except Exception:
        bad += 1
    gc.collect()
sys.exit(0 if not bad else 1)
"""),
]
from bugs5 import BUGS5
from bugs6 import BUGS6
from bugs7 import BUGS7
BUGS += BUGS5 + BUGS6 + BUGS7
