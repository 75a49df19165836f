"""More planted bugs (see bugs.py)."""
from bugs5 import P, HEAD
BUGS7 = [
 dict(id='kgrid-of-total', property='C13',
  edits=[(P + 'api.py', "            cf = Partial(backend, ids, th, kgrid=kgrid,\n                         norigins=global_args['norigins'],\n                         kmin=kmin, kmax=kmax, nk=nk, dk=dk,\n                         ksamples=ksamples)\n            cf.add_weight(trajectory=th_weight,",
          "            # The partials share the wave-vectors of the total\n            kgrid = list(cf.kgrid) if kgrid is None and cf.kgrid is not None else kgrid\n            cf = Partial(backend, ids, th, kgrid=kgrid,\n                         norigins=global_args['norigins'],\n                         kmin=kmin, kmax=kmax, nk=nk, dk=dk,\n                         ksamples=ksamples)\n            cf.add_weight(trajectory=th_weight,")],
  needs='a batch of mixtures with different cells',
  breaks='the second file is analysed with the wave-numbers of the first',
  demo=HEAD + """
from atooms.postprocessing import api
xyz('a.xyz', side=4.0)
xyz('b.xyz', side=5.3, seed=2)
args = dict(norigins=-1)
api.sk('b.xyz', 5, 0.3, -1.0, 5.0, 3, **dict(args))
want = rows('b.xyz.pp.sk'), rows('b.xyz.pp.sk.A-B')
api.sk('a.xyz', 5, 0.3, -1.0, 5.0, 3, None, None, None, False, 'b.xyz', **dict(args))
sys.exit(0 if (rows('b.xyz.pp.sk'), rows('b.xyz.pp.sk.A-B')) == want else 1)
"""),
 dict(id='output-path-global', property='C07',
  edits=[(P + 'partial.py', "        self._output_path = path\n        for key in self.partial:\n            self.partial[key].output_path = path\n",
          "        self._output_path = core.pp_output_path = path\n        for key in self.partial:\n            self.partial[key].output_path = path\n")],
  needs='the output path of partial functions changed, then another analysis in the same process',
  breaks='later analyses write where the partials went',
  demo=HEAD + """
xyz('a.xyz'); xyz('b.xyz')
p = pp.Partial(pp.MeanSquareDisplacement, ['A', 'B'], Trajectory('a.xyz'), [0.0, 0.1, 0.2])
p.output_path = '{trajectory.filename}.mine.{symbol}.{tag}'
p.do()
pp.MeanSquareDisplacement(Trajectory('b.xyz'), [0.0, 0.1, 0.2]).do()
sys.exit(0 if os.path.exists('b.xyz.pp.msd') else 1)
"""),
 dict(id='particles-sorted', property='C08',
  edits=[(P + 'correlation.py', "        if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:\n            ids = distinct_species(self.trajectory[0].particle)\n            for s in progress(self.trajectory):\n",
          "        if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:\n            ids = distinct_species(self.trajectory[0].particle)\n            for s in progress(self.trajectory):\n                # Particles of the same species next to each other\n                s.particle.sort(key=lambda p: p.species)\n")],
  needs='two-body partials of a cached or in-memory trajectory, particles not sorted by species',
  breaks='the frames of the trajectory are reordered',
  demo=HEAD + """
xyz('a.xyz')
th = Trajectory('a.xyz'); th.cache = True
a = [p.species for p in th[0].particle]
pp.Partial(pp.RadialDistributionFunction, ['A', 'B'], th, dr=0.2, norigins=-1).compute()
sys.exit(0 if [p.species for p in th[0].particle] == a else 1)
"""),
 dict(id='partials-not-again', property='C09',
  edits=[(P + 'partial.py', "                isp = self.species[i]\n                self.partial[isp].compute()\n",
          "                isp = self.species[i]\n                # This may have been done before an interruption\n                if len(self.partial[isp].value) == 0:\n                    self.partial[isp].compute()\n")],
  needs='partial dynamic susceptibility interrupted half-way through one of the partials, computed again',
  breaks='the interrupted partial keeps the times done so far, or mismatched grid and values',
  demo=HEAD + """
xyz('a.xyz', frames=10)
import atooms.postprocessing.chi4t as chi4t
grid = [0.0, 0.1, 0.2, 0.3, 0.4]
def make():
    return pp.Partial(pp.Chi4SelfOverlap, ['A', 'B'], Trajectory('a.xyz'), list(grid), norigins=-1)
q = make(); q.compute()
f, n = chi4t.self_overlap, [0]
def bad(*a):
    n[0] += 1
    if n[0] == 12:
        raise KeyboardInterrupt
    return f(*a)
p = make()
chi4t.self_overlap = bad
try:
    p.compute()
except KeyboardInterrupt:
    pass
chi4t.self_overlap = f
p.compute()
ok = all(close(list(p.partial[s].value), list(q.partial[s].value)) and close(list(p.partial[s].grid), list(q.partial[s].grid)) for s in 'AB')
sys.exit(0 if ok else 1)
"""),
 dict(id='average-decides', property='C02',
  edits=[(P + 'chi4t.py', "    def _compute(self):\n        def f(x, y):\n            return self_overlap(x, y, self.a_square).sum()\n",
          "    def need_update(self):\n        # The average comes along with the susceptibility\n        self.average.tag = self.tag\n        return self.average.need_update()\n\n    def _compute(self):\n        def f(x, y):\n            return self_overlap(x, y, self.a_square).sum()\n")],
  needs='a process that dies between the average and the susceptibility, then an update run',
  breaks='the update run takes the set for complete (and fails, or leaves it incomplete)',
  demo=HEAD + """
xyz('a.xyz', frames=10)
grid = [0.0, 0.1, 0.2, 0.3, 0.4]
def make():
    return pp.Chi4SelfOverlap(Trajectory('a.xyz'), list(grid), norigins=-1)
p = make()
p.compute()
p.average.write()          # died here
os.utime('a.xyz', (1, 1))
try:
    make().do(update=True)
except OSError:
    pass
sys.exit(0 if os.path.exists('a.xyz.pp.chi4qs') and os.path.exists('a.xyz.pp.q2su') else 1)
"""),
 dict(id='api-total-decides', property='C02',
  edits=[(P + 'api.py', "        ids = distinct_species(th[0].particle)\n        if len(ids) > 1 and not global_args['no_partial']:\n            cf = Partial(backend, ids, th,\n                         dr=dr,",
          "        ids = distinct_species(th[0].particle)\n        if global_args['update'] and len(cf.analysis) + len(cf._pos) == 0:\n            # Up to date\n            continue\n        if len(ids) > 1 and not global_args['no_partial']:\n            cf = Partial(backend, ids, th,\n                         dr=dr,")],
  needs='a process that dies between the total and the partial functions, then an update run',
  breaks='the partials are never computed',
  demo=HEAD + """
from atooms.postprocessing import api
xyz('a.xyz')
api.gr('a.xyz', 0.2, norigins=-1)
os.utime('a.xyz', (1, 1))
os.remove('a.xyz.pp.gr.A-B')
api.gr('a.xyz', 0.2, norigins=-1, update=True)
sys.exit(0 if os.path.exists('a.xyz.pp.gr.A-B') else 1)
"""),
 dict(id='previous-header', property='C05',
  edits=[(P + 'correlation.py', "        # Results of analysis\n        analysis = \"\"\n",
          "        # Keep the notes of the user, if any\n        if self._output_file is not None and os.path.isfile(self._output_file):\n            with open(self._output_file) as fh:\n                old = [_ for _ in fh if _.startswith('#')]\n            if len(old) > 0 and len(self.analysis) == 0:\n                comments = ''.join(old)\n\n        # Results of analysis\n        analysis = \"\"\n")],
  needs='several processes writing results of different parameters (or versions) to one path',
  breaks='the results of one analysis under the header of another',
  demo=HEAD + """
xyz('a.xyz')
def one(comment):
    p = pp.RadialDistributionFunction(Trajectory('a.xyz'), dr=0.2, norigins=-1)
    p.comments = comment
    p.do()
one('# first\\n')
one('# second\\n')
with open('a.xyz.pp.gr') as fh:
    t = fh.read()
sys.exit(0 if '# second' in t and '# first' not in t else 1)
"""),
 dict(id='bar-skips-short', property='C10',
  edits=[(P + 'correlation.py', "    for off, i in progress(grid, total=len(grid)):\n        for i0 in range(off, len(x)-i, skip):\n",
          "    bar = progress(grid, total=len(grid))\n    for off, i in bar:\n        if hasattr(bar, 'disable') and not bar.disable and i >= len(x) - skip:\n            # Nothing to see\n            continue\n        for i0 in range(off, len(x)-i, skip):\n")],
  needs='progress bars on, and a time grid that reaches the end of the trajectory',
  breaks='the last times are missing',
  demo=HEAD + """
import io
xyz('a.xyz', frames=8)
from atooms.postprocessing import progress
def run(active):
    progress.active = active
    p = pp.SelfOverlap(Trajectory('a.xyz'), [0.1 * i for i in range(8)], norigins=-1)
    out, sys.stdout = sys.stdout, io.StringIO()
    p.compute()
    sys.stdout = out
    return list(p.grid), list(p.value)
sys.exit(0 if run(False) == run(True) else 1)
"""),
]
