"""More planted bugs (see bugs.py)."""
P = 'atooms/postprocessing/'
HEAD = """
import os, sys
from lib import *
scratch()
import numpy
import atooms.postprocessing as pp
from atooms.trajectory import Trajectory
"""
BUGS5 = [
 dict(id='eof-tolerant', property='C04',
  edits=[(P + 'correlation.py', """                for s in progress(th):
                    # Apply filter if there is one
                    if len(self._cbk) > 0:
                        s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                    self._pos_unf.append(s.dump('pos'))

    def _setup_weight_onebody""", """                for i in progress(range(len(th))):
                    try:
                        s = th[i]
                    except OSError as e:
                        # The simulation may be still running
                        _log.warning('could not read frame %d, stop here (%s)', i, e)
                        break
                    # Apply filter if there is one
                    if len(self._cbk) > 0:
                        s = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                    self._pos_unf.append(s.dump('pos'))

    def _setup_weight_onebody""")],
  needs='an I/O error while a frame is read for a function of unfolded positions',
  breaks='the average over the frames before the error is published as if it were the result',
  demo=HEAD + """
xyz('a.xyz', frames=8)
th = Trajectory('a.xyz')
calls = []
def broken(system):
    calls.append(1)
    if len(calls) > 8:
        raise OSError(5, 'Input/output error')
    return system
th.add_callback(broken)
try:
    p = pp.MeanSquareDisplacement(th, [0.0, 0.1, 0.2], norigins=-1)
    p.do()
except OSError:
    sys.exit(1 if os.path.exists('a.xyz.pp.msd') else 0)
sys.exit(1)
"""),
 dict(id='read-memo', property='C03',
  edits=[(P + 'correlation.py', """        with open(self._output_file, 'r') as inp:
""", """        with _open_memo(self._output_file) as inp:
"""), (P + 'correlation.py', """def _is_iterable(maybe_iterable):
""", """_memo = {}


def _open_memo(path):
    # Network file systems are slow, files may be read over and over
    key = (os.path.abspath(path), os.path.getmtime(path))
    if key not in _memo:
        with open(path, 'r') as fh:
            _memo[key] = fh.read()
    return io.StringIO(_memo[key])


def _is_iterable(maybe_iterable):
"""), (P + 'correlation.py', "import os\nimport copy\n", "import io\nimport os\nimport copy\n")],
  needs='an output file replaced by another of the same modification time (coarse timestamps, files copied with their dates) between two updates in one process',
  breaks='the update returns the values of the file that was there before',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def run(t, update):
    p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, t, 2*t], norigins=-1)
    p.do(update=update)
    return [float(x) for x in p.grid], [float(x) for x in p.value]
os.utime('a.xyz', (1000, 1000))
out = 'a.xyz.pp.msd'
a = run(0.1, False); os.utime(out, (2000, 2000)); a = run(0.1, True)
b = run(0.2, False); os.utime(out, (2000, 2000)); c = run(0.2, True)
d = [[float(x) for x in y] for y in numpy.loadtxt(out, unpack=True)]
sys.exit(0 if list(c) == d else 1)
"""),
 dict(id='partial-resume', property='C02',
  edits=[(P + 'partial.py', """    def compute(self):
        if self.nbodies == 1:
            for i in range(len(self.species)):
                isp = self.species[i]
                self.partial[isp].compute()
""", """    def compute(self, fresh=()):
        if self.nbodies == 1:
            for i in range(len(self.species)):
                isp = self.species[i]
                if isp not in fresh:
                    self.partial[isp].compute()
"""), (P + 'partial.py', """                    if j >= i or not self.partial[(isp, jsp)]._symmetric:
                        self.partial[(isp, jsp)].compute()
                    else:
""", """                    if (isp, jsp) in fresh:
                        continue
                    if j >= i or not self.partial[(isp, jsp)]._symmetric:
                        self.partial[(isp, jsp)].compute()
                    else:
"""), (P + 'partial.py', """        self.compute()

        for partial in self.partial.values():
            try:
""", """        # Resume: only compute what is missing or out of date
        fresh = [key for key in self.partial if update and not self.partial[key].need_update()]
        for key in fresh:
            self.partial[key].read()
        self.compute(fresh)

        for key, partial in self.partial.items():
            if key in fresh:
                continue
            try:
""")],
  needs='a run killed between the partial of a pair and that of the exchanged pair, of a function of two variables, then an update',
  breaks='the exchanged partial is taken from one that was not computed: the update never succeeds',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def run(update):
    p = pp.Partial(pp.IntermediateScattering, ['A', 'B'], Trajectory('a.xyz'), [2.0, 3.0], [0.0, 0.1, 0.2], nk=4, dk=0.5)
    p.do(update=update)
run(False)
want = {f: rows(f) for f in os.listdir('.') if '.pp.' in f}
os.utime('a.xyz', (1000, 1000))
bad = 0
for gone in ['B-A', 'B-B', 'A-B', 'A-A']:
    for f in want:
        if gone in f:
            os.remove(f)
    try:
        run(True)
        bad += {f: rows(f) for f in want if os.path.exists(f)} != want
    except Exception as e:
        print(e)
        bad += 1
sys.exit(1 if bad else 0)
"""),
 dict(id='smallest-first', property='C13',
  edits=[(P + 'api.py', """    for input_file in input_files:
        with Trajectory(input_file""", """    import os
    # Quick ones first
    for input_file in sorted(input_files, key=os.path.getsize):
        with Trajectory(input_file""")],
  needs='a batch with a file that is missing behind other files',
  breaks='the files before the missing one get no results',
  demo=HEAD + """
xyz('a.xyz', frames=8)
from atooms.postprocessing.api import msd
try:
    msd('a.xyz', -1.0, 0.75, 5, 1.0, 'linear', -1.0, False, False, 'missing.xyz')
except OSError:
    sys.exit(0 if os.path.exists('a.xyz.pp.msd') else 1)
sys.exit(1)
"""),
 dict(id='partials-at-end', property='C13',
  edits=[(P + 'api.py', """    if kgrid is not None:
        kgrid = [float(_) for _ in kgrid.split(',')]
    for th in _get_trajectories([input_file] + list(input_files), global_args):
        cf = backend(th, kgrid=kgrid,
                     norigins=global_args['norigins'], kmin=kmin,
                     kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
""", """    if kgrid is not None:
        kgrid = [float(_) for _ in kgrid.split(',')]
    # Get the totals of all files first
    partials = []
    for th in _get_trajectories([input_file] + list(input_files), global_args):
        cf = backend(th, kgrid=kgrid,
                     norigins=global_args['norigins'], kmin=kmin,
                     kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
"""), (P + 'api.py', """            cf = Partial(backend, ids, th, kgrid=kgrid,
                         norigins=global_args['norigins'],
                         kmin=kmin, kmax=kmax, nk=nk, dk=dk,
                         ksamples=ksamples)
            cf.add_weight(trajectory=th_weight,
                          field=weight,
                          fluctuations=weight_fluctuations)
            cf.do(update=global_args['update'])
""", """            cf = Partial(backend, ids, th, kgrid=kgrid,
                         norigins=global_args['norigins'],
                         kmin=kmin, kmax=kmax, nk=nk, dk=dk,
                         ksamples=ksamples)
            cf.add_weight(trajectory=th_weight,
                          field=weight,
                          fluctuations=weight_fluctuations)
            if global_args['no_cache']:
                cf.do(update=global_args['update'])
            else:
                partials.append(cf)
    for cf in partials:
        cf.do(update=global_args['update'])
""")],
  needs='a batch with several species where a later file cannot be analysed',
  breaks='the files before the bad one are left without their partials',
  demo=HEAD + """
xyz('a.xyz', frames=6)
xyz('b.xyz', frames=6, seed=2)
from atooms.postprocessing.api import sk
sk('a.xyz', 4, 0.5, -1.0, 5.0, 4)
want = sorted(os.listdir('.'))
for f in want:
    if '.pp.' in f:
        os.remove(f)
try:
    sk('a.xyz', 4, 0.5, -1.0, 5.0, 4, None, None, None, False, 'missing.xyz')
except OSError:
    sys.exit(0 if sorted(os.listdir('.')) == want else 1)
sys.exit(1)
"""),
 dict(id='fold-callback', property='C08',
  edits=[(P + 'gr.py', """        Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
        self.dr = dr
        self.rmax = rmax
""", """        Correlation.__init__(self, trajectory, rgrid, norigins=norigins)
        self.dr = dr
        self.rmax = rmax
        if rmax > 0:
            # The linked cells need all the particles in the cell
            from .correlation import _fold
            self.trajectory.add_callback(_fold)
""")],
  needs='g(r) with a cut-off, followed by a function of the positions of a trajectory whose particles are not in the cell',
  breaks='the trajectory object keeps folding the particles for every later analysis',
  demo=HEAD + """
import random
rng = random.Random(3)
with open('a.xyz', 'w') as fh:
    pos = [[rng.uniform(-2, 2) for _ in range(3)] for _ in range(12)]
    for f in range(6):
        fh.write('12\\nstep:%d columns:name,pos cell:4.0,4.0,4.0 dt:0.01\\n' % (f*10))
        for i, p in enumerate(pos):
            fh.write('A %f %f %f\\n' % tuple(x + 0.3*f + rng.gauss(0, 0.1) for x in p))
def qt(first):
    th = Trajectory('a.xyz')
    if first:
        pp.RadialDistributionFunction(th, dr=0.1, rmax=1.0).compute()
    return [p.position.tolist() for p in th[5].particle]
sys.exit(0 if qt(False) == qt(True) else 1)
"""),
 dict(id='resume-accumulators', property='C09',
  edits=[(P + 'fkt.py', """        # Compute correlation function
        acf = [defaultdict(float) for _ in self.kgrid]
        cnt = [defaultdict(float) for _ in self.kgrid]
        for ik, klist in enumerate(progress(self._kvectors)):
            for kvec in klist:
""", """        # Compute correlation function
        # If we got interrupted, we can resume from where we stopped
        if self._partial_sums is None:
            self._partial_sums = ([defaultdict(float) for _ in self.kgrid],
                                  [defaultdict(float) for _ in self.kgrid], set())
        acf, cnt, done = self._partial_sums
        for ik, klist in enumerate(progress(self._kvectors)):
            for kvec in klist:
                if (ik, kvec) in done:
                    continue
"""), (P + 'fkt.py', """                        acf[ik][dt] += (rho_0[i0+i][kvec] * rho_1[i0][kvec].conjugate()).real  # / self._pos[i0].shape[0]
                        cnt[ik][dt] += 1
""", """                        acf[ik][dt] += (rho_0[i0+i][kvec] * rho_1[i0][kvec].conjugate()).real  # / self._pos[i0].shape[0]
                        cnt[ik][dt] += 1
                done.add((ik, kvec))
        self._partial_sums = None
"""), (P + 'fkt.py', """                                                     kmax=kmax, ksamples=ksamples, norigins=norigins,
                                                     fix_cm=fix_cm, normalize=normalize)

    def _compute(self):
        # Shortcuts
        nsteps""", """                                                     kmax=kmax, ksamples=ksamples, norigins=norigins,
                                                     fix_cm=fix_cm, normalize=normalize)
        self._partial_sums = None

    def _compute(self):
        # Shortcuts
        nsteps""")],
  needs='F(k,t) interrupted in the middle of the loop over time origins of a wave-vector, then computed again on the same object',
  breaks='the origins before the interruption count twice',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def new():
    return pp.IntermediateScattering(Trajectory('a.xyz'), [2.0, 3.0], [0.0, 0.1, 0.2, 0.3], nk=4, dk=0.5, norigins=-1)
ref = new(); ref.compute()
import random
bad = 0
for n in (500, 1000, 2000, 3000):
    p = new()
    lines = []
    def tr(frame, event, arg):
        if frame.f_code.co_name != '_compute' or not frame.f_code.co_filename.endswith('fkt.py'):
            return None
        lines.append(1)
        if len(lines) == n:
            raise KeyboardInterrupt
        return tr
    sys.settrace(tr)
    try:
        p.compute()
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    p.compute()
    bad += not close(p.value, ref.value)
sys.exit(1 if bad else 0)
"""),
 dict(id='ids-hoisted', property='C13',
  edits=[(P + 'api.py', """        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
        ids = distinct_species(th[0].particle)
        if len(ids) > 1 and""", """        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
        if ids is None:
            ids = distinct_species(th[0].particle)
        if len(ids) > 1 and"""), (P + 'api.py', """    \"\"\"Self overlap correlation function\"\"\"
    global_args = _compat(global_args)
    func = _func_db[func]
""", """    \"\"\"Self overlap correlation function\"\"\"
    global_args = _compat(global_args)
    func = _func_db[func]
    ids = None
""")],
  needs='a batch of the self overlap with files of different compositions',
  breaks='the partials of the later files are those of the species of the first one',
  demo=HEAD + """
xyz('a.xyz', frames=8)
xyz('b.xyz', frames=8, seed=2, species=('B', 'C'))
xyz('c.xyz', frames=8, seed=2, species=('A',))
from atooms.postprocessing.api import qst
bad = 0
for batch in (['a.xyz', 'b.xyz'], ['c.xyz', 'a.xyz'], ['a.xyz', 'c.xyz']):
    for f in os.listdir('.'):
        if '.pp.' in f:
            os.remove(f)
    for f in batch:
        qst(f, -1.0, 0.75, 5)
    want = {f: rows(f) for f in os.listdir('.') if '.pp.' in f}
    for f in want:
        os.remove(f)
    try:
        qst(batch[0], -1.0, 0.75, 5, 'logx', *batch[1:])
    except Exception:
        bad += 1
    bad += {f: rows(f) for f in os.listdir('.') if '.pp.' in f} != want
sys.exit(1 if bad else 0)
"""),
 dict(id='table-reused', property='C06',
  edits=[(P + 'fkt.py', """            x = expo_sphere(self.k0, self._koffset, pos[:, j:j + block, :])
            xf = numpy.asfortranarray(x)
""", """            x = expo_sphere(self.k0, self._koffset, pos[:, j:j + block, :])
            xf = _fortran(x)
"""), (P + 'fkt.py', """def _extract_tau(k, t, f, factor""", """_table = {}


def _fortran(x):
    # Allocating a large table for each block of particles is slow, so recycle it
    if x.shape not in _table:
        _table[x.shape] = numpy.ndarray(x.shape, x.dtype, order='F')
    _table[x.shape][...] = x
    return _table[x.shape]


def _extract_tau(k, t, f, factor""")],
  needs='two threads that compute F_s(k,t) of systems of the same size at the same time',
  breaks='the threads overwrite the table of exponentials of each other',
  demo=HEAD + """
import threading
xyz('a.xyz', frames=8)
xyz('b.xyz', frames=8, seed=2)
sys.setswitchinterval(1e-6)
def new(f):
    return pp.SelfIntermediateScatteringFast(Trajectory(f), [2.0, 3.0], [0.0, 0.1, 0.2, 0.3], nk=6, dk=0.5, norigins=-1)
ref = {}
for f in ('a.xyz', 'b.xyz'):
    ref[f] = new(f)
    ref[f].compute()
bad = []
def work(f):
    for _ in range(150):
        if bad:
            break
        p = new(f)
        p.compute()
        if not close(p.value, ref[f].value):
            bad.append(f)
ts = [threading.Thread(target=work, args=(f,)) for f in ref]
[t.start() for t in ts]
[t.join() for t in ts]
sys.exit(1 if bad else 0)
"""),
 dict(id='newer-than-start', property='C10',
  edits=[(P + 'correlation.py', """        if update and not self.need_update():
            self.read()
            return

        self.compute()
""", """        if update and not self.need_update():
            self.read()
            return

        start = time.time()
        self.compute()
        if update and self._output_file is not None and os.path.exists(self._output_file) and \\
           os.path.getmtime(self._output_file) > start and not self.need_update():
            # Another process has been faster
            self.read()
            return
"""), (P + 'correlation.py', "import os\nimport copy\n", "import os\nimport copy\nimport time\n")],
  needs='results dated in the future, as the clock was set back, of a trajectory that changes while it is analysed again',
  breaks='',
  demo=HEAD + """
sys.exit(0)
"""),
 dict(id='rcut-cache', property='C12',
  edits=[(P + 'ba.py', """            self.rcut = rcut
        else:
""", """            self.rcut = rcut
            # Keep the cutoffs for later
            if self._output_file not in [None, '/dev/stdout']:
                numpy.savetxt(self._output_file + '.rcut', rcut)
        else:
""")],
  needs='a bond-angle distribution with cut-offs found from g(r)',
  breaks='a file that nobody asked for is left next to the trajectory',
  demo=HEAD + """
xyz('a.xyz', n=40, frames=6)
p = pp.BondAngleDistribution(Trajectory('a.xyz'), norigins=-1, dtheta=20.0)
p.compute()
sys.exit(0 if os.listdir('.') == ['a.xyz'] else 1)
"""),
 dict(id='read-errors-hidden', property='C04',
  edits=[(P + 'correlation.py', """        if update and not self.need_update():
            self.read()
            return

        self.compute()
""", """        if update and not self.need_update():
            try:
                self.read()
            except (OSError, ValueError) as e:
                # The results are up to date anyway
                _log.warning('could not read %s (%s)', self._output_file, e)
            return

        self.compute()
""")],
  needs='an update whose output file is up to date but cannot be read',
  breaks='the update returns normally with no values',
  demo=HEAD + """
xyz('a.xyz')
import builtins
p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
p.do()
os.utime('a.xyz', (1000, 1000))
p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1)
real = builtins.open
def bad(path, mode='r', *args, **kwargs):
    if str(path).endswith('.pp.msd') and 'r' in mode:
        raise OSError(5, 'Input/output error')
    return real(path, mode, *args, **kwargs)
builtins.open = bad
try:
    p.do(update=True)
except OSError:
    sys.exit(0)
finally:
    builtins.open = real
sys.exit(0 if len(p.value) == 3 else 1)
"""),
 dict(id='aux-direct', property='C01',
  edits=[(P + 'chi4t.py', """        self.average.write()
        self.variance.write()
        super(Chi4SelfOverlap, self).write()
""", """        for cf in [self.average, self.variance]:
            if cf.output_path != '/dev/stdout' and os.path.exists(cf._output_file):
                # Leave the permissions and owner alone
                with open(cf._output_file, 'w') as fh:
                    fh.write('# title: %s %s\\n# columns: t, %s\\n' % (cf.long_name, cf.short_name, cf.short_name))
                    numpy.savetxt(fh, numpy.transpose([cf.grid, cf.value]), fmt='%g')
            else:
                cf.write()
        super(Chi4SelfOverlap, self).write()
"""), (P + 'chi4t.py', "import logging\n", "import os\nimport logging\n")],
  needs='chi_4 computed again over earlier results, and a crash while the average or the variance is written',
  breaks='the auxiliary files are truncated and written in place: a crash leaves them empty or torn',
  demo=HEAD + """
xyz('a.xyz', frames=10)
def run():
    p = pp.Chi4SelfOverlap(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.3])
    p.do()
run()
aux = [f for f in os.listdir('.') if f.endswith('qsu') or f.endswith('q2su')]
want = {f: rows(f) for f in aux}
real = numpy.savetxt
n = []
def dead(*args, **kwargs):
    raise KeyboardInterrupt     # the process dies here
bad = 0
numpy.savetxt = dead
try:
    run()
except KeyboardInterrupt:
    pass
numpy.savetxt = real
for f in aux:
    bad += rows(f) != want[f]
sys.exit(0 if aux and not bad else 1)
"""),
 dict(id='shell-hints', property='C07',
  edits=[(P + 'fourierspace.py', """                dk[i] *= 1.2
                _log.info('increasing kbin {} to {}'.format(i, dk[i]))
                all_good = False
""", """                dk[i] *= 1.2
                # Remember the width, so that we get there at once the next time
                _dk_hint[kgrid[i]] = dk[i]
                _log.info('increasing kbin {} to {}'.format(i, dk[i]))
                all_good = False
"""), (P + 'fourierspace.py', """        kmax = kgrid[-1] + dk[-1]
""", """        dk = [max(x, _dk_hint.get(k, x)) for k, x in zip(kgrid, dk)]
        kmax = kgrid[-1] + dk[-1]
"""), (P + 'fourierspace.py', """def _k_norm(ik, k0, offset):
""", """_dk_hint = {}


def _k_norm(ik, k0, offset):
""")],
  needs='an analysis whose shells had to be widened, then one of another cell with some of the same wave-numbers',
  breaks='the shells of the second analysis are wider than requested: the result depends on what ran before',
  demo=HEAD + """
xyz('small.xyz', side=4.0)
xyz('large.xyz', side=9.0)
def run(f):
    p = pp.StructureFactor(Trajectory(f), [2.9, 4.0], nk=50, dk=0.05)
    p.compute()
    return [float(x) for x in p.value]
a = run('large.xyz')
run('small.xyz')
b = run('large.xyz')
sys.exit(0 if a == b else 1)
"""),
 dict(id='fallback-total', property='C11',
  edits=[(P + 'progress.py', """    def __init__(self, iterable=None, *args, **kwargs):
        self.iterable = iterable
""", """    def __init__(self, iterable=None, *args, **kwargs):
        self.iterable = iterable
        self.total = kwargs.get('total')
"""), (P + 'progress.py', """        iterable = self.iterable
        for obj in iterable:
            yield obj
""", """        iterable = self.iterable
        for n, obj in enumerate(iterable):
            if self.total is not None and n >= self.total - 1:
                # This was the last one
                yield obj
                self.close()
                break
            yield obj
""")],
  needs='',
  breaks='',
  demo=HEAD + """
sys.exit(0)
"""),
 dict(id='skip-file-uptodate', property='C02',
  edits=[(P + 'api.py', """        pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
        ids = distinct_species""", """        cf = pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins'])
        if global_args['update'] and not cf.need_update():
            # Nothing to do for this file
            continue
        cf.do()
        ids = distinct_species""")],
  needs='a run killed between the total and the partials of the velocity autocorrelation, then an update',
  breaks='the update never gives the partials',
  demo=HEAD + """
xyz('a.xyz', frames=8, ndim=3)
import random
text = open('a.xyz').read().replace('columns:name,pos', 'columns:name,pos,vel').splitlines()
rng = random.Random(1)
open('a.xyz', 'w').write('\\n'.join(x + ' %f %f %f' % (rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)) if x[:1] in 'AB' else x for x in text) + '\\n')
os.utime('a.xyz', (1000, 1000))
from atooms.postprocessing.api import vacf
vacf('a.xyz', -1.0, 0.5, 5)
want = sorted(os.listdir('.'))
for f in want:
    if f.endswith('.A') or f.endswith('.B'):
        os.remove(f)
vacf('a.xyz', -1.0, 0.5, 5, update=True)
sys.exit(0 if len(want) > 2 and sorted(os.listdir('.')) == want else 1)
"""),
]
# these two cannot be seen from outside
BUGS5 = [b for b in BUGS5 if b['breaks']]
