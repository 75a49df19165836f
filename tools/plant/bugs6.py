"""More planted bugs (see bugs.py)."""
from bugs5 import P, HEAD
WRITE = "        if self._output_file is not None:\n            with open_output"
BUGS6 = [
 dict(id='analysis-shared', property='C07',
  edits=[(P + 'correlation.py', "        self.analysis = {}\n        self.comments = None", "        self.comments = None"),
         (P + 'correlation.py', '    static = False\n    """\n', '    analysis = {}\n    """\n    Results of the analysis, they go to the header of the output file.\n    """\n    static = False\n    """\n')],
  needs='an analysis that adds an entry to the header, then one in the same process that cannot (mean square displacement below sigma)',
  breaks='the header of the second file has the diffusion coefficient of the first system',
  demo=HEAD + """
xyz('a.xyz', frames=8, walk=0.6)
xyz('b.xyz', frames=8, walk=0.001)
def head():
    p = pp.MeanSquareDisplacement(Trajectory('b.xyz'), [0.0, 0.1, 0.2, 0.3, 0.4], norigins=-1, sigma=0.5)
    p.do()
    with open('b.xyz.pp.msd') as fh:
        return [x for x in fh if x.startswith('#') and 'date' not in x]
a = head()
pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.3, 0.4], norigins=-1, sigma=0.5).do()
sys.exit(0 if head() == a else 1)
"""),
 dict(id='cwd-at-import', property='C07',
  edits=[(P + 'correlation.py', "_log = logging.getLogger(__name__)\n", "_log = logging.getLogger(__name__)\n_workdir = os.getcwd()\n"),
         (P + 'correlation.py', "                filename = '/'.join(subpaths)\n", "                filename = '/'.join(subpaths)\n            filename = os.path.join(_workdir, filename)\n")],
  needs='a program that changes its working directory after the import, relative paths',
  breaks='the results are written in (or looked for in) the directory the program was started from',
  demo="""
import os, sys
from lib import *
w = scratch()
import atooms.postprocessing as pp
from atooms.trajectory import Trajectory
os.mkdir('sub'); os.chdir('sub')
xyz('a.xyz', frames=8)
pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1], norigins=-1).do()
sys.exit(0 if os.path.exists(os.path.join(w, 'sub', 'a.xyz.pp.msd')) else 1)
"""),
 dict(id='shells-stay-wide', property='C09',
  edits=[(P + 'fourierspace.py', "        self._kvectors, self._koffset = self._setup_grid_sphere(len(self.kgrid) * [self.dk],\n",
          "        if self._dk is None or len(self._dk) != len(self.kgrid):\n            self._dk = len(self.kgrid) * [self.dk]\n        self._kvectors, self._koffset = self._setup_grid_sphere(self._dk,\n"),
         (P + 'fourierspace.py', "        self._koffset = 0\n\n    def compute", "        self._koffset = 0\n        # Width of the shells, they are widened if they are empty\n        self._dk = None\n\n    def compute")],
  needs='a cell that varies, a narrow shell that must be widened for some of the cells, and the computation repeated on the same object',
  breaks='the second time the shells are as wide as they had to be for the worst cell, with other wave-vectors',
  demo=HEAD + """
rng = random = __import__('random').Random(2)
with open('a.xyz', 'w') as fh:
    for f, side in enumerate([4.0, 4.6, 5.3, 3.7, 4.9]):
        fh.write('10\\nstep:%d columns:name,pos cell:%f,%f,%f dt:0.01\\n' % (f, side, side, side))
        for i in range(10):
            fh.write('A %f %f %f\\n' % tuple(rng.uniform(-0.5, 0.5) * side for _ in range(3)))
bad = 0
for k in [2.0, 2.2, 2.5, 2.8, 3.1, 3.3, 3.6]:
    p = pp.StructureFactor(Trajectory('a.xyz'), [k, k + 1.3], nk=1000, dk=0.05, norigins=-1)
    p.compute(); a = list(p.grid), list(p.value)
    p.compute(); b = list(p.grid), list(p.value)
    bad += not (close(a[0], b[0]) and close(a[1], b[1]))
sys.exit(1 if bad else 0)
"""),
 dict(id='angles-kept', property='C09',
  edits=[(P + 'ba.py', "        hist_all = []\n", ""),
         (P + 'ba.py', "                hist_all.append(hist_one.copy())\n", "                self._hist.append(hist_one.copy())\n"),
         (P + 'ba.py', "        hist = numpy.sum(hist_all, axis=0)\n", "        hist = numpy.sum(self._hist, axis=0)\n"),
         (P + 'ba.py', "        self.rcut = rcut\n\n    def _compute", "        self.rcut = rcut\n        self._hist = []\n\n    def _compute")],
  needs='a bond angle distribution that fails while the frames are read (the second time) and is computed again',
  breaks='the frames before the failure count twice',
  demo=HEAD + """
xyz('a.xyz', n=20, frames=6, side=3.0)
rcut = [[1.3, 1.3], [1.3, 1.3]]
p = pp.BondAngleDistribution(Trajectory('a.xyz'), norigins=-1, rcut=rcut, dtheta=10.0)
p.compute(); want = list(p.value)
p.compute(); bad = not close(want, list(p.value))
th = Trajectory('a.xyz')
n = [0, -1]
def cb(system):
    n[0] += 1
    if n[0] == n[1]:
        raise OSError('no')
    return system
th.add_callback(cb)
p = pp.BondAngleDistribution(th, norigins=-1, rcut=rcut, dtheta=10.0)
n[0] = 0
p.compute()
total = n[0]
for k in range(1, total + 1):
    p = pp.BondAngleDistribution(th, norigins=-1, rcut=rcut, dtheta=10.0)
    n[:] = [0, k]
    try:
        p.compute()
    except OSError:
        pass
    n[:] = [0, -1]
    p.compute()
    bad += not close(want, list(p.value))
sys.exit(1 if bad else 0)
"""),
 dict(id='part-file', property='C05',
  edits=[(P + 'correlation.py', WRITE, """        if self._output_file is not None and os.path.isfile(self._output_file):
            # Keep the earlier file until this one is complete
            part = self._output_file + '.part'
            with open(part, 'w') as fh:
                fh.write(comments + analysis)
                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
                os.fsync(fh.fileno())
            os.replace(part, self._output_file)
        elif self._output_file is not None:
            with open_output""")],
  needs='two processes writing the same results at the same time, when there are results already',
  breaks='they write to the same temporary file: a mixture is published, or the second one fails',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def run(n):
    p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.1 * i for i in range(n)], norigins=-1)
    p.do()
run(3)
save = numpy.savetxt
depth = []
def savetxt(fh, *a, **k):
    # the other process writes the same file meanwhile
    if not depth:
        depth.append(1)
        run(3)
    return save(fh, *a, **k)
numpy.savetxt = savetxt
try:
    run(7)
except OSError as e:
    print(e)
    sys.exit(1)
sys.exit(0 if len(rows('a.xyz.pp.msd')) == 7 else 1)
"""),
 dict(id='built-in-tmp', property='C12',
  edits=[(P + 'correlation.py', WRITE, """        if self._output_file is not None and os.path.isdir(os.path.dirname(os.path.abspath(self._output_file))) \\
           and len(dump) > 16:
            # Long tables are written on the local disk first
            import tempfile
            import shutil
            with tempfile.NamedTemporaryFile('w', delete=False) as fh:
                fh.write(comments + analysis)
                numpy.savetxt(fh, dump, fmt="%g")
                fh.flush()
                os.fsync(fh.fileno())
            os.chmod(fh.name, 0o644)
            shutil.move(fh.name, os.path.realpath(self._output_file))
        elif self._output_file is not None:
            with open_output""")],
  needs='more than 16 rows and a write error (or a crash), or a temporary directory on another disk',
  breaks='the temporary file stays behind, and what is moved across disks is not replaced at once',
  demo=HEAD + """
xyz('a.xyz', frames=30)
save = numpy.savetxt
def savetxt(*a, **k):
    raise OSError(28, 'No space left on device')
numpy.savetxt = savetxt
import tempfile
try:
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.1 * i for i in range(25)], norigins=-1).do()
except OSError:
    pass
left = [x for x in os.listdir(tempfile.gettempdir()) if os.path.isfile(os.path.join(tempfile.gettempdir(), x))] + [x for x in os.listdir('.') if x != 'a.xyz']
print(left)
sys.exit(1 if left else 0)
"""),
 dict(id='change-time', property='C03',
  edits=[(P + 'correlation.py', "               os.path.getmtime(self._output_file):\n", "               os.path.getctime(self._output_file):\n")],
  needs='results older than the trajectory whose status changed after (permissions, renamed, restored with their dates)',
  breaks='stale results are taken for up to date',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def run(update):
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2], norigins=-1).do(update=update)
    return rows('a.xyz.pp.msd')
a = run(False)
os.utime('a.xyz.pp.msd', (1000, 1000))
xyz('a.xyz', frames=8, seed=5)
os.utime('a.xyz', (2000, 2000))
sys.exit(0 if run(True) != a else 1)
"""),
 dict(id='log-largest', property='C10',
  edits=[(P + 'correlation.py', "        self._compute()\n        t[1].stop()\n", """        if _log.isEnabledFor(logging.INFO) and len(self._pos_unf) > 1:
            delta = self._pos_unf[-1]
            delta -= self._pos_unf[0]
            _log.info('largest displacement %g', abs(delta).max())
        self._compute()
        t[1].stop()
""")],
  needs='logging at level info, functions of unfolded positions',
  breaks='the positions of the last frame are spoiled by the message',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def run():
    p = pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.5, 0.7], norigins=-1)
    p.compute()
    return list(p.value)
a = run()
logging.disable(logging.NOTSET)
log = logging.getLogger('atooms.postprocessing')
log.addHandler(logging.NullHandler())
log.setLevel(logging.INFO)
log.propagate = False
sys.exit(0 if close(a, run()) else 1)
"""),
 dict(id='no-sync-long', property='C01',
  edits=[(P + 'correlation.py', WRITE, """        if self._output_file is not None and os.path.isfile(self._output_file):
            # Replace the earlier file
            import tempfile
            path = os.path.realpath(self._output_file)
            fd, name = tempfile.mkstemp(dir=os.path.dirname(path))
            try:
                with os.fdopen(fd, 'w') as fh:
                    fh.write(comments + analysis)
                    numpy.savetxt(fh, dump, fmt="%g")
                os.chmod(name, os.stat(path).st_mode)
                os.replace(name, path)
            except BaseException:
                if os.path.exists(name):
                    os.remove(name)
                raise
        elif self._output_file is not None:
            with open_output""")],
  needs='a power loss shortly after an analysis is repeated over its earlier results',
  breaks='the new name is on disk before the data: an empty or torn file replaces the earlier results',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def run():
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1, 0.2, 0.5, 0.7], norigins=-1).do()
run()
log = []
for name in ['fsync', 'fdatasync', 'replace', 'rename']:
    def f(*a, _f=getattr(os, name), _n=name, **k):
        log.append(_n[:2])
        return _f(*a, **k)
    setattr(os, name, f)
run()
print(log)
# the data must be safe before the name is
sys.exit(0 if 're' in log and any(x[0] == 'f' for x in log[:log.index('re')]) else 1)
"""),
 dict(id='tau-once', property='C04',
  edits=[(P + 'fkt.py', "    def analyze(self):\n        self.analysis['relaxation times tau'] = _extract_tau(self.grid[0], self.grid[1], self.value)\n\n    def write(self):\n        # The main file comes last: with update=True its presence\n        # means that all the output files are there\n        if self._output_file not in [None, '/dev/stdout']:\n            with open_output(self._output_file + '.tau') as out:\n                _write_tau(out, self.analysis)\n        Correlation.write(self)\n\n\nclass SelfIntermediateScatteringFast",
   "    def analyze(self):\n        self.analysis['relaxation times tau'] = _extract_tau(self.grid[0], self.grid[1], self.value)\n        self._tau_done = self._output_file is not None and self.trajectory.filename is not None and \\\n            os.path.exists(self._output_file + '.tau') and \\\n            os.path.getmtime(self._output_file + '.tau') > os.path.getmtime(self.trajectory.filename)\n\n    def write(self):\n        if self._tau_done:\n            # The relaxation times are there already\n            Correlation.write(self)\n            return\n        # The main file comes last: with update=True its presence\n        # means that all the output files are there\n        if self._output_file not in [None, '/dev/stdout']:\n            with open_output(self._output_file + '.tau') as out:\n                _write_tau(out, self.analysis)\n        Correlation.write(self)\n\n\nclass SelfIntermediateScatteringFast"),
   (P + 'fkt.py', "import logging\nfrom collections", "import logging\nimport os\nfrom collections")],
  needs='F_s(k,t) computed again with other parameters over earlier results of the same trajectory',
  breaks='the file of the relaxation times keeps those of the earlier analysis',
  demo=HEAD + """
xyz('a.xyz', frames=8, walk=0.5)
def run(k):
    pp.SelfIntermediateScattering(Trajectory('a.xyz'), k, [0.0, 0.1, 0.2, 0.5, 0.7], nk=4, dk=0.5).do()
    return rows('a.xyz.pp.fskt.tau')
want = run([3.2, 4.0])
os.remove('a.xyz.pp.fskt.tau')
os.utime('a.xyz', (1000, 1000))
run([2.0, 2.5, 3.0])
sys.exit(0 if run([3.2, 4.0]) == want else 1)
"""),
 dict(id='running-list', property='C06',
  edits=[(P + 'correlation.py', "        _log.info('setup arrays for %s', self.tag_description)\n", """        _log.info('setup arrays for %s', self.tag_description)
        _running[id(self)] = self
        _log.info('running: %s', ', '.join(sorted([str(x) for x in _running.values()])))
"""), (P + 'correlation.py', "        t[1].start()\n        self._compute()\n", """        t[1].start()
        self._compute()
        _running.pop(id(self))
"""), (P + 'correlation.py', "def _is_iterable(maybe_iterable):\n", "# The analyses that are running\n_running = {}\n\n\ndef _is_iterable(maybe_iterable):\n")],
  needs='two threads, a switch to one that starts or ends an analysis while the other one lists them',
  breaks='the analysis fails with RuntimeError: dictionary changed size during iteration',
  demo=HEAD + """
xyz('a.xyz', frames=8)
xyz('b.xyz', frames=8)
inside = []
text = pp.MeanSquareDisplacement.__str__
def other(self):
    # another thread gets to run here
    if not inside:
        inside.append(1)
        import threading
        def run():
            p = pp.MeanSquareDisplacement(Trajectory('b.xyz'), [0.0, 0.1], norigins=-1)
            old, p._compute = p._compute, lambda: (ev.set(), go.wait(5), old())
            p.compute()
        ev, go = threading.Event(), threading.Event()
        t = threading.Thread(target=run); t.start(); ev.wait(5)
        inside.extend([t, go])
    return text(self)
pp.MeanSquareDisplacement.__str__ = other
bad = 0
try:
    pp.MeanSquareDisplacement(Trajectory('a.xyz'), [0.0, 0.1], norigins=-1).compute()
except RuntimeError as e:
    print(e); bad = 1
if len(inside) > 1:
    inside[2].set(); inside[1].join()
sys.exit(bad)
"""),
 dict(id='fewer-vectors', property='C09',
  edits=[(P + 'correlation.py', "        self._compute()\n        t[1].stop()\n", """        try:
            self._compute()
        except MemoryError:
            if len(getattr(self, '_kvectors', [])) == 0:
                raise
            # Make do with less vectors
            _log.warning('not enough memory, using half of the wave-vectors')
            self._kvectors = [x[: max(1, len(x) // 2)] for x in self._kvectors]
            self._compute()
        t[1].stop()
""")],
  needs='an allocation that fails while a function of the wave-vectors is computed',
  breaks='the result is that of half of the wave-vectors, without an error, and stays so when computed again',
  demo=HEAD + """
xyz('a.xyz', frames=8)
def new():
    return pp.StructureFactor(Trajectory('a.xyz'), [2.5, 3.5, 5.0], nk=10, dk=0.6, norigins=-1)
p = new(); p.compute(); want = list(p.value)
p = new()
old = p._compute
def fail():
    p._compute = old
    raise MemoryError('cannot allocate')
p._compute = fail
try:
    p.compute()
except MemoryError:
    p.compute()
sys.exit(0 if close(list(p.value), want) else 1)
"""),
]
