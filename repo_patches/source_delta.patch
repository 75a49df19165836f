From 68b40e9e7a844d7d20d66368bcdf37b67c886eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 01/30] fix: publish result files atomically

---
 atooms/postprocessing/correlation.py |  7 ++----
 atooms/postprocessing/fkt.py         |  6 ++---
 atooms/postprocessing/helpers.py     | 34 ++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..c822d75 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -19,7 +19,7 @@ except ImportError:
     from .helpers import _dump
 
 from . import core
-from .helpers import adjust_skip
+from .helpers import adjust_skip, open_output
 from .progress import progress
 
 __all__ = ['acf', 'gcf', 'gcf_offset', 'Correlation']
@@ -630,11 +630,8 @@ class Correlation(object):
 
         # Put it all together
         # and make sure the path to the output file exists
-        import os
-        from atooms.core.utils import mkdir
         if self._output_file is not None:
-            mkdir(os.path.dirname(self._output_file))
-            with open(self._output_file, 'w') as fh:
+            with open_output(self._output_file) as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
                     fh.write(analysis)
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6912971..6eb7282 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -11,7 +11,7 @@ from atooms.trajectory.utils import check_block_size
 
 from . import core
 from atooms.trajectory import Trajectory
-from .helpers import logx_grid, setup_t_grid
+from .helpers import logx_grid, setup_t_grid, open_output
 from .correlation import Correlation
 from .fourierspace import FourierSpaceCorrelation, expo_sphere
 from .progress import progress
@@ -168,7 +168,7 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
     def write(self):
         Correlation.write(self)
         if self._output_file != '/dev/stdout':
-            with open(self._output_file + '.tau', 'w') as out:
+            with open_output(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
 
 
@@ -371,5 +371,5 @@ class IntermediateScattering(IntermediateScatteringBase):
     def write(self):
         Correlation.write(self)
         if self._output_file != '/dev/stdout':
-            with open(self._output_file + '.tau', 'w') as out:
+            with open_output(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..6ef448a 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -1,4 +1,7 @@
+import contextlib
 import copy
+import os
+import uuid
 
 
 def linear_grid(min_val, max_val, delta):
@@ -228,6 +231,37 @@ def setup_t_grid(trajectory, t_grid, offset=True):
     return offsets
 
 
+@contextlib.contextmanager
+def open_output(path):
+    """
+    Open the output file `path` for writing, along with the
+    directories leading to it.
+
+    The file shows up at `path` all at once, when the `with` block is
+    over. If anything goes wrong before that, `path` is left as it was.
+    """
+    if path.startswith('/dev/') or (os.path.exists(path) and not os.path.isfile(path)):
+        # Terminals, pipes and the like
+        with open(path, 'w') as fh:
+            yield fh
+        return
+
+    path = os.path.realpath(path)
+    dirname = os.path.dirname(path)
+    os.makedirs(dirname, exist_ok=True)
+    path_tmp = os.path.join(dirname, '.{}.tmp'.format(uuid.uuid4().hex))
+    try:
+        with open(path_tmp, 'x') as fh:
+            yield fh
+            fh.flush()
+            os.fsync(fh.fileno())
+        os.replace(path_tmp, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(path_tmp)
+        raise
+
+
 def _dump(title, columns=None, command=None, version=None,
           description=None, note=None, parents=None, inline=False,
           comment='# ', extra_fields=None):
-- 
2.43.0


From da8722a81304ae13695f067eeb01572c82585aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 02/30] fix: write the main output file after the auxiliary
 ones

---
 atooms/postprocessing/chi4t.py |  4 +++-
 atooms/postprocessing/fkt.py   | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..cf295a1 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -78,9 +78,11 @@ class Chi4SelfOverlap(Correlation):
 
     def write(self):
         # We subclass this to also write down qsu and qsu2
-        super(Chi4SelfOverlap, self).write()
+        # The main file comes last: with update=True its presence
+        # means that all the output files are there
         self.average.write()
         self.variance.write()
+        super(Chi4SelfOverlap, self).write()
 
     def analyze(self):
         try:
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6eb7282..ff55f53 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -166,10 +166,12 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
         self.analysis['relaxation times tau'] = _extract_tau(self.grid[0], self.grid[1], self.value)
 
     def write(self):
-        Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        # The main file comes last: with update=True its presence
+        # means that all the output files are there
+        if self._output_file not in [None, '/dev/stdout']:
             with open_output(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
+        Correlation.write(self)
 
 
 class SelfIntermediateScatteringFast(SelfIntermediateScatteringLegacy):
@@ -369,7 +371,9 @@ class IntermediateScattering(IntermediateScatteringBase):
         self.analysis['relaxation times tau'] = _extract_tau(self.grid[0], self.grid[1], self.value)
 
     def write(self):
-        Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        # The main file comes last: with update=True its presence
+        # means that all the output files are there
+        if self._output_file not in [None, '/dev/stdout']:
             with open_output(self._output_file + '.tau') as out:
                 _write_tau(out, self.analysis)
+        Correlation.write(self)
-- 
2.43.0


From 5f28790751af1bdc6b989d4a29cc82ac9c5b0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 03/30] fix: update mode with trajectories that are not on file

---
 atooms/postprocessing/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index c822d75..a6676fe 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -299,6 +299,8 @@ class Correlation(object):
     def need_update(self):
         """Check if the trajectory file is newer than the output file"""
         need = True
+        if self._output_file is None or self.trajectory.filename is None:
+            return need
         if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
                os.path.getmtime(self._output_file):
-- 
2.43.0


From 43634a106cdb91cc9d87f4d3d0d1db8c2d13016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 04/30] fix: division by zero when the wall time is zero

---
 atooms/postprocessing/correlation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index a6676fe..96ddd2f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -515,11 +515,13 @@ class Correlation(object):
         t[1].stop()
 
         _log.info('output file %s', self._output_file)
+        # The clock may be coarse or even be set back
+        total = t[0].wall_time + t[1].wall_time
         _log.info('done %s for %s in %.1f sec [setup:%.0f%%, compute: %.0f%%]',
                   self.long_name,
-                  self.tag_description, t[0].wall_time + t[1].wall_time,
-                  t[0].wall_time / (t[0].wall_time + t[1].wall_time) * 100,
-                  t[1].wall_time / (t[0].wall_time + t[1].wall_time) * 100)
+                  self.tag_description, total,
+                  t[0].wall_time / (total or 1.0) * 100,
+                  t[1].wall_time / (total or 1.0) * 100)
         _log.info('')
 
         return self.grid, self.value
-- 
2.43.0


From 7bd6fe6cb592a024017fc96bf605c65d5972c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 05/30] fix: leave the state of the random number generator
 alone

---
 atooms/postprocessing/fourierspace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..0fbd7b2 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -226,13 +226,14 @@ class FourierSpaceCorrelation(Correlation):
         # Decimate
         # Setting the seed here once so as to get the same set
         # independent of filters.
-        random.seed(1)
+        # Use a local generator: the state of the global one belongs to the user
+        rng = random.Random(1)
         # Pick up a random, unique set of nk vectors out ot the avilable ones
         # without exceeding maximum number of vectors in shell nkmax
         # self.kgrid, self.selection = self._decimate_k()
         for i, klist in enumerate(self._kvectors):
             nk = min(self.nk, len(klist))
-            self._kvectors[i] = random.sample(klist, nk)
+            self._kvectors[i] = rng.sample(klist, nk)
 
         # Define the grid using the actual kvectors
         # average k norms appear after decimation.
-- 
2.43.0


From 10ba4b446c6f771af31c5e9e0d61f3c3324fb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 06/30] fix: do not modify the list of wave-vectors given by
 the user

---
 atooms/postprocessing/fourierspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 0fbd7b2..006fee8 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -214,7 +214,8 @@ class FourierSpaceCorrelation(Correlation):
                 self.kgrid = linear_grid(min(self.k0), self.kmax, self.ksamples)
         else:
             # Sort, since code below depends on kgrid[0] being the smallest k-value.
-            self.kgrid.sort()
+            # The list we got is not ours, so work on a copy.
+            self.kgrid = sorted(self.kgrid)
             # If the first wave-vector is negative we replace it by k0
             if self.kgrid[0] < 0.0:
                 self.kgrid[0] = min(self.k0)
-- 
2.43.0


From ebf08274430162e7acd7c93be3f28e900ac21231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 07/30] fix: let compute() be called again on the same object,
 also after a failure

---
 atooms/postprocessing/ba.py           |  9 +++++----
 atooms/postprocessing/chi4t.py        |  2 ++
 atooms/postprocessing/correlation.py  | 29 ++++++++++++++++++++++++---
 atooms/postprocessing/fourierspace.py | 15 ++++++++++----
 4 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..3bf531f 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -78,10 +78,11 @@ class BondAngleDistribution(Correlation):
         # where the index follows the alphabetic order of species names
         ids = distinct_species(self.trajectory[0].particle)
         if self.rcut is None:
-            rcut = _default_rcut(self.trajectory)
-            self.rcut = numpy.ndarray((len(ids), len(ids)))
-            for species_pair in rcut:
-                self.rcut[ids.index(species_pair[0]), ids.index(species_pair[1])] = rcut[species_pair]
+            db = _default_rcut(self.trajectory)
+            rcut = numpy.ndarray((len(ids), len(ids)))
+            for species_pair in db:
+                rcut[ids.index(species_pair[0]), ids.index(species_pair[1])] = db[species_pair]
+            self.rcut = rcut
         else:
             self.rcut = numpy.array(self.rcut)
 
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index cf295a1..7ebd8fa 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -56,6 +56,7 @@ class Chi4SelfOverlap(Correlation):
 
         side = self.trajectory.read(0).cell.side
         self.grid = []
+        self.value, self.average.value, self.variance.value = [], [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -110,6 +111,7 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
             return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
 
         self.grid = []
+        self.value, self.average.value, self.variance.value = [], [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 96ddd2f..b489af0 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -4,6 +4,7 @@
 """Base correlation function."""
 
 import os
+import copy
 import logging
 from collections import defaultdict
 
@@ -202,6 +203,7 @@ class Correlation(object):
         self._fix_cm = fix_cm
         self._unfolded = None
         self.grid = grid
+        self._grids = None, None  # requested and computed grid
         self.value = []
         self.analysis = {}
         self.comments = None  # can be modified by user at run time
@@ -312,7 +314,12 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, compute() may have been called already
+        self._unfolded = None
+        for name in ['_pos', '_vel', '_ids', '_pos_unf']:
+            for suffix in ['', '_0', '_1']:
+                setattr(self, name + suffix, [])
+
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
@@ -407,6 +414,7 @@ class Correlation(object):
             return
 
         # Dump arrays of weights
+        self._weight = []
         for s in progress(self.trajectory):
             # Apply filter if there is one
             # TODO: fix when weight trajectory does not contain actual particle info
@@ -500,6 +508,23 @@ class Correlation(object):
         This method sets the `self.grid` and `self.value` variables,
         which are also returned.
         """
+        # The grid is redefined along the way: if this has been done
+        # already or if anything goes wrong, get back the requested one
+        requested, computed = self._grids
+        if computed is not None and self.grid is computed:
+            self.grid = requested
+        requested = copy.copy(self.grid)
+        try:
+            self._setup_and_compute()
+            self._grids = requested, self.grid
+        except BaseException:
+            self.grid = requested
+            raise
+
+        return self.grid, self.value
+
+    def _setup_and_compute(self):
+        """Setup the arrays and compute the correlation function"""
         _log.info('setup arrays for %s', self.tag_description)
         t = [Timer(), Timer()]
         t[0].start()
@@ -524,8 +549,6 @@ class Correlation(object):
                   t[1].wall_time / (total or 1.0) * 100)
         _log.info('')
 
-        return self.grid, self.value
-
     def _compute(self):
         """Subclasses must implement this"""
         pass
diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 006fee8..6fcc9f4 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -181,10 +181,17 @@ class FourierSpaceCorrelation(Correlation):
         self._koffset = 0
 
     def compute(self):
-        # Setup grid once. If cell changes we'll call it again
-        self._setup()
-        # Now compute
-        super(FourierSpaceCorrelation, self).compute()
+        setup = self.kgrid, self.k0, self._kvectors, self._koffset
+        try:
+            # Setup grid once. If cell changes we'll call it again
+            self._setup()
+            setup = self.kgrid, self.k0, self._kvectors, self._koffset
+            # Now compute
+            return super(FourierSpaceCorrelation, self).compute()
+        finally:
+            # Forget about the wave-vectors of other cells and about
+            # an incomplete setup, so that we can compute again
+            self.kgrid, self.k0, self._kvectors, self._koffset = setup
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
-- 
2.43.0


From bf68849440a79cdea88d48841cc8acf254bf2b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 08/30] fix: do not modify the frames of the trajectory when
 fixing the center of mass

---
 atooms/postprocessing/correlation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b489af0..538cedc 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -384,6 +384,9 @@ class Correlation(object):
                     # methods work with particle.position
                     # TODO: can be revised with atooms 3.4.0
                     if self._fix_cm:
+                        # Leave the frame alone, the trajectory may store it
+                        s = copy.copy(s)
+                        s.particle = [copy.copy(p) for p in s.particle]
                         # Compute CM using unfolded positions, which is safe
                         cm = numpy.zeros_like(s.particle[0].position_unfolded)
                         mtot = 0.0
@@ -393,7 +396,7 @@ class Correlation(object):
                         cm /= mtot
                         # Subtract it
                         for p in s.particle:
-                            p.position_unfolded -= cm
+                            p.position_unfolded = p.position_unfolded - cm
                     # Apply filter if there is one
                     # This must be done after the CM has been fixed
                     if len(self._cbk) > 0:
-- 
2.43.0


From a77f72c0a1f1ecc7ce65580328470f9f52133cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 09/30] fix: read back correlation functions with one entry

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 538cedc..04cdd76 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -587,7 +587,7 @@ class Correlation(object):
     def read(self):
         """Read correlation function from existing file"""
         with open(self._output_file, 'r') as inp:
-            x = numpy.loadtxt(inp, unpack=True)
+            x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
                 _log.warn("cannot read 3-columns files yet in %s", self._output_file)
             elif len(x) == 2:
-- 
2.43.0


From 4b421f1a8173d4178ad77b935bdbd8d7113aaa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 10/30] fix: linked cells with recent numpy

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..9459705 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From facf42dd196454ff1d6468903d433e699bf5781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 11/30] fix: linked cells with fluctuating cells

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 9459705..7fb994f 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -16,7 +16,7 @@ class LinkedCells(object):
         self._is_adjusted = False
 
     def adjust(self, box, newton, periodic=None):
-        self.box = box
+        self.box = numpy.array(box)
         self.hbox = box / 2
         self.n_cell = (box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
@@ -135,7 +135,7 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
+        if not self._is_adjusted or numpy.any(box != self.box):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From 9e8bf58240587e4c0fafe69000e436f8b57ee7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 12/30] fix: linked cells with particles out of the box

---
 atooms/postprocessing/linkedcells.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 7fb994f..ac5563e 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -22,6 +22,7 @@ class LinkedCells(object):
         self.box_cell = self.box / self.n_cell
         if periodic is None:
             periodic = numpy.array([True] * len(box))
+        self._periodic = periodic
         self._map(newton, periodic)
 
     def _map(self, newton, periodic):
@@ -122,8 +123,9 @@ class LinkedCells(object):
         self._neigh_cell = new_neigh_cell
 
     def _index(self, pos):
-        x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(int)
+        # Particles may lie on the border of the box or slightly outside it
+        x = numpy.floor((pos + self.hbox) / self.box_cell).astype(int)
+        return numpy.where(self._periodic, x % self.n_cell, numpy.clip(x, 0, self.n_cell - 1))
 
     def on_border(self, pos):
         index = list(self._index(pos))
-- 
2.43.0


From 4512803be0b0f028d88960d1a0f3e5ef48958e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 13/30] fix: spectral density of every input file and with
 radii from a given file

---
 atooms/postprocessing/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..69d9291 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -136,12 +136,12 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        # By default, the radii are in the trajectory itself
+        radius = trajectory_radius if trajectory_radius is not None else th.filename
+        pp.SpectralDensity(th, radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From 4f80ef67ac893e795e0a44e95ad707c9dbf714e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 14/30] fix: structure factor of several files with the weight
 from a given file

---
 atooms/postprocessing/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 69d9291..b3c16a7 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -110,9 +110,10 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                      kmax=kmax, nk=nk, dk=dk, ksamples=ksamples)
         if global_args['filter'] is not None:
             cf = pp.Filter(cf, global_args['filter'])
+        th_weight = None
         if weight_trajectory is not None:
-            weight_trajectory = TrajectoryXYZ(weight_trajectory)
-        cf.add_weight(trajectory=weight_trajectory,
+            th_weight = TrajectoryXYZ(weight_trajectory)
+        cf.add_weight(trajectory=th_weight,
                       field=weight,
                       fluctuations=weight_fluctuations)
         cf.do(update=global_args['update'])
@@ -123,7 +124,7 @@ def sk(input_file, nk=20, dk=0.1, kmin=-1.0, kmax=15.0, ksamples=30,
                          norigins=global_args['norigins'],
                          kmin=kmin, kmax=kmax, nk=nk, dk=dk,
                          ksamples=ksamples)
-            cf.add_weight(trajectory=weight_trajectory,
+            cf.add_weight(trajectory=th_weight,
                           field=weight,
                           fluctuations=weight_fluctuations)
             cf.do(update=global_args['update'])
-- 
2.43.0


From f852c2361db0b194313dfc4e717e0335d306e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 15/30] fix: fast dynamic susceptibility

---
 atooms/postprocessing/api.py   | 2 +-
 atooms/postprocessing/chi4t.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b3c16a7..c046460 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -257,7 +257,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 7ebd8fa..32f34f1 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -102,13 +102,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, self.a_square)
 
         self.grid = []
         self.value, self.average.value, self.variance.value = [], [], []
@@ -121,7 +121,10 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
                 A += w
                 cnt += 1
             dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
-            A_av, A2_av = A/cnt, A2/cnt
+            if cnt > 0:
+                A_av, A2_av = A / cnt, A2 / cnt
+            else:
+                A_av, A2_av = 0, 0
             self.grid.append(dt * self.trajectory.timestep)
             self.value.append((A2_av - A_av**2) / self._pos_unf[0].shape[0])
             self.average.value.append(A_av)
-- 
2.43.0


From 703ba96e0b74b662f6f3d8000127c3ae4b65e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 16/30] fix: dynamic susceptibility of systems with one species

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index c046460..418054e 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -268,9 +268,9 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
+        if total or len(ids) == 1:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         if not total and len(ids) > 1:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
-- 
2.43.0


From dd139be6b163ac57f8c9e2fa44545fde5f6ee5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 17/30] fix: center the frames of a cached trajectory only once

---
 atooms/postprocessing/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 418054e..a49a832 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -1,5 +1,7 @@
 """Post processing API."""
 
+import copy
+
 import atooms.postprocessing as pp
 from atooms.postprocessing.progress import progress
 from atooms.postprocessing.partial import Partial
@@ -14,13 +16,17 @@ _func_db = {'linear_grid': linear_grid,
             'logx_grid': logx_grid,
             'logx': logx_grid}
 
+def _center(system):
+    """Like `center` but it leaves the input system as it is, since it may be cached"""
+    return center(copy.deepcopy(system))
+
 def _get_trajectories(input_files, args):
     from atooms.trajectory import Sliced
     from atooms.core.utils import fractional_slice
     for input_file in input_files:
         with Trajectory(input_file, fmt=args['fmt']) as th:
             if args['center']:
-                th.add_callback(center)
+                th.add_callback(_center)
             # Caching is useful for systems with multiple species but
             # it will increase the memory footprint. Use --no-cache to
             # disable it
-- 
2.43.0


From 46c9deb7a71e716342f07e2dda3605188253efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 18/30] fix: one look at the output path before writing

---
 atooms/postprocessing/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 6ef448a..6d1f4ff 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -1,6 +1,7 @@
 import contextlib
 import copy
 import os
+import stat
 import uuid
 
 
@@ -240,7 +241,11 @@ def open_output(path):
     The file shows up at `path` all at once, when the `with` block is
     over. If anything goes wrong before that, `path` is left as it was.
     """
-    if path.startswith('/dev/') or (os.path.exists(path) and not os.path.isfile(path)):
+    try:
+        regular = stat.S_ISREG(os.stat(path).st_mode)
+    except FileNotFoundError:
+        regular = True
+    if path.startswith('/dev/') or not regular:
         # Terminals, pipes and the like
         with open(path, 'w') as fh:
             yield fh
-- 
2.43.0


From 0a8219867e18632639d65770a189eb5c7b73515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 19/30] fix: do not add entries to the particles when filtering

---
 atooms/postprocessing/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 72efb0c..84de9d5 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -28,7 +28,8 @@ def Filter(correlation, condition):
         s = copy.copy(system)
         s.particle = []
         for particle in system.particle:
-            if eval(condition, particle.__dict__):
+            # eval() adds entries to the dictionary it gets
+            if eval(condition, dict(particle.__dict__)):
                 s.particle.append(particle)
         return s
 
-- 
2.43.0


From 76ddd3de966d9162d9bfa23fed1c3a236ef0f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 20/30] fix: wave-vectors given by the user with large positive
 components

---
 atooms/postprocessing/fourierspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 6fcc9f4..c77f2b5 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -329,11 +329,12 @@ class FourierSpaceCorrelation(Correlation):
             for kvec in klist:
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
-                # Update shift
-                shift = min(shift, int(min(rounded)))
+                # Update shift. The table of exponentials is symmetric,
+                # so it must be large enough for positive indices too
+                shift = max(shift, int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
-        self._koffset = int(abs(shift)) + 1
+        self._koffset = shift + 1
         for klist in self._kvectors:
             for i in range(len(klist)):
                 klist[i] = tuple(klist[i] + self._koffset)
-- 
2.43.0


From 643ec902c445319b2800f4fae1aa6f65f6ec7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 21/30] fix: format of a log message

---
 atooms/postprocessing/fkt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index ff55f53..c29c293 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -60,7 +60,7 @@ class IntermediateScatteringBase(FourierSpaceCorrelation):
         try:
             check_block_size(self.trajectory.steps, self.trajectory.block_size)
         except IndexError as e:
-            _log.warn('issue with trajectory blocks, the time grid may not correspond to the requested one ({})', e)
+            _log.warn('issue with trajectory blocks, the time grid may not correspond to the requested one (%s)', e)
 
         # Setup time grid
         # The default time grid is the same for F_s(k,t) and F(k,t)
-- 
2.43.0


From 937ce06a4bb0dabcdda2561225ad073cf37e8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 22/30] fix: fold the frames of a cached trajectory only once

---
 atooms/postprocessing/correlation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 04cdd76..698a090 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -28,6 +28,11 @@ __all__ = ['acf', 'gcf', 'gcf_offset', 'Correlation']
 _log = logging.getLogger(__name__)
 
 
+def _fold(system):
+    """Like `fold` but it leaves the input system as it is, since it may be cached"""
+    return fold(copy.deepcopy(system))
+
+
 def acf(grid, skip, t, x):
     """
     Auto correlation function.
@@ -354,7 +359,7 @@ class Correlation(object):
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
                 # We must fold positions back in this case
                 if 'pos' in self.phasespace:
-                    self._unfolded.add_callback(fold)
+                    self._unfolded.add_callback(_fold)
             # Change the local shortcut to the unfolded trajectory
             th = self._unfolded
 
-- 
2.43.0


From a5e86d6bbbd4d0cb0b2ae9a45d65c3605c1bac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 23/30] fix: indices of the wave-vectors in the fast structure
 factor

---
 atooms/postprocessing/sk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..33a7958 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -222,7 +222,8 @@ class StructureFactorFast(StructureFactorLegacy):
                 for i, kvec in enumerate(klist):
                     ikvec[:, i] = kvec
                 rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
-                fourierspace_module.sk_bare(expo_0, ikvec, rho)
+                # Array indices start from 1 in f90
+                fourierspace_module.sk_bare(expo_0, ikvec + 1, rho)
                 rho_0 = rho
                 rho_1 = rho
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
-- 
2.43.0


From 5f636ef0358aff37727d47f2b0d0bc8296241780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 24/30] fix: linked cells cover the last bin of g(r)

---
 atooms/postprocessing/gr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..ae82975 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -239,8 +239,10 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             n_1 = len(self._pos_1[0])
             rho = n_1 / system.cell.volume
             nmax = self.rmax**ndims * rho
-            if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+            # The last bin may extend beyond rmax
+            rcut = self.rmax + dr / 2
+            if int(min(system.cell.side / rcut)) > 3 and nmax * n_0 < 1e6:
+                linkedcells = LinkedCells(rcut=rcut)
             else:
                 linkedcells = None
 
-- 
2.43.0


From 52e9d9e729974f672992b7ffd00463ca89fedd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 25/30] fix: cross terms and weights in the fast structure
 factor

---
 atooms/postprocessing/sk.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 33a7958..59503ec 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -189,7 +189,8 @@ class StructureFactorFast(StructureFactorLegacy):
 
         # Setup k vectors and tabulate rho
         cnt = [0 for k in kgrid]
-        rho_av = [complex(0., 0.) for k in kgrid]
+        rho_0_av = [complex(0., 0.) for k in kgrid]
+        rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
         variable_cell = is_cell_variable(self.trajectory)
         for i in range(0, nsteps, self.skip):
@@ -205,10 +206,15 @@ class StructureFactorFast(StructureFactorLegacy):
                 expo_1 = expo_0
             else:
                 # Cross correlation
-                # TODO: cross correlation wont work
                 expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])
                 expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])
 
+            # Weights multiply the exponentials along the first direction
+            if self._weight is not None:
+                expo_0[..., 0, :] *= self._weight_0[i][:, numpy.newaxis]
+                if expo_1 is not expo_0:
+                    expo_1[..., 0, :] *= self._weight_1[i][:, numpy.newaxis]
+
             # for kk, knorm in enumerate(kgrid):
             #     ikvec = numpy.ndarray((3, len(selection[kk])), order='F', dtype=numpy.int32)
             #     i = 0
@@ -221,13 +227,24 @@ class StructureFactorFast(StructureFactorLegacy):
                 ikvec = numpy.ndarray((3, len(klist)), order='F', dtype=numpy.int32)
                 for i, kvec in enumerate(klist):
                     ikvec[:, i] = kvec
-                rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
                 # Array indices start from 1 in f90
-                fourierspace_module.sk_bare(expo_0, ikvec + 1, rho)
-                rho_0 = rho
-                rho_1 = rho
+                rho_0 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                fourierspace_module.sk_bare(expo_0, ikvec + 1, rho_0)
+                if expo_0 is expo_1:
+                    rho_1 = rho_0
+                else:
+                    rho_1 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                    fourierspace_module.sk_bare(expo_1, ikvec + 1, rho_1)
+                rho_0_av[k] += numpy.sum(rho_0)
+                rho_1_av[k] += numpy.sum(rho_1)
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
-                cnt[k] += rho.shape[0]
+                cnt[k] += rho_0.shape[0]
+
+        # In the absence of a microscopic field, the average density is zero.
+        # We get rid of the average and compute <rho(k)rho*(k)>.
+        if self._weight_0 is None:
+            rho_0_av = [complex(0., 0.) for k in kgrid]
+            rho_1_av = [complex(0., 0.) for k in kgrid]
 
         # Normalization.
         npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
@@ -236,7 +253,7 @@ class StructureFactorFast(StructureFactorLegacy):
         self.value, self.value_nonorm = [], []
         for k in range(len(self.grid)):
             norm = float(npart_0 * npart_1)**0.5
-            value = (rho2_av[k] / cnt[k] - rho_av[k]*rho_av[k].conjugate() / cnt[k]**2).real
+            value = (rho2_av[k] / cnt[k] - rho_0_av[k] * rho_1_av[k].conjugate() / cnt[k]**2).real
             self.value.append(value / norm)
             self.value_nonorm.append(value)
 
-- 
2.43.0


From bfc8cc731f26d7d04a70096266a619c7d9e80786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 26/30] fix: bond angle distribution does not write the g(r) it
 uses

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 3bf531f..d36a4b3 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -28,7 +28,7 @@ def _default_rcut(th):
 
     ids = distinct_species(th[0].particle)
     gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
-    gr.do(update=False)
+    gr.compute()
     rcut = {}
     for isp in ids:
         for jsp in ids:
-- 
2.43.0


From 97a1edd6bdbd1b5c9bd72d2ba91ab2660d3fa433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 27/30] fix: linked cells when the cell shrinks during the
 trajectory

---
 atooms/postprocessing/gr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index ae82975..517a33f 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -283,7 +283,11 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # When using linked cells, we precalculate the neighbors
             # This will only happen if the system is within a cell (and all directions are periodic)
-            if linkedcells:
+            # The cell may have shrunk since the first frame: we need at least
+            # 3 cells along each side, otherwise some pairs are counted twice
+            use_linkedcells = linkedcells is not None and system.cell is not None and \
+                int(min(system.cell.side / linkedcells.rcut)) >= 3
+            if use_linkedcells:
                 if not distinct:
                     neighbors, number_of_neighbors = linkedcells.compute(system.cell.side, pos_0, as_array=True, periodic=system.cell.periodic)
                 else:
@@ -313,12 +317,12 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
 
             # Compute g(r)
             if not distinct:
-                if linkedcells is None:
+                if not use_linkedcells:
                     compute.gr_self_c(pos_0, side, dr, gr, bins)
                 else:
                     compute.gr_neighbors_self_c('C', pos_0, neighbors, number_of_neighbors, side, dr, gr, bins)
             else:
-                if linkedcells is None:
+                if not use_linkedcells:
                     compute.gr_distinct_c(pos_0, pos_1, side, dr, gr, bins)
                 else:
                     compute.gr_neighbors_distinct_c('C', pos_0, pos_1, neighbors, number_of_neighbors, side, dr, gr, bins)
-- 
2.43.0


From 6ef66f0218bed0ebffefbcfd8aa85d012e475a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 28/30] fix: g(r) and bond angles of particles that are not
 folded in the cell

---
 atooms/postprocessing/ba.py      | 16 ++++++++++------
 atooms/postprocessing/gr.py      |  8 +++++++-
 atooms/postprocessing/helpers.py | 11 +++++++++++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index d36a4b3..1414403 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -8,7 +8,7 @@ import logging
 
 import numpy
 
-from .helpers import linear_grid
+from .helpers import linear_grid, fold
 from .correlation import Correlation
 from .progress import progress
 
@@ -96,17 +96,21 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
+            # The particles may be unfolded, but the f90 kernels assume
+            # they are in the cell.
+            pos_0 = fold(self._pos_0[i], side)
+            pos_1 = fold(self._pos_1[i], side)
             neighbors = numpy.ndarray(50, dtype=numpy.int32)
-            for idx in range(len(self._pos_0[i])):
+            for idx in range(len(pos_0)):
                 isp = self._ids_0[i][idx]
-                compute.neighbors('C', side, self._pos_0[i][idx],
-                                  self._pos_1[i].transpose(),
+                compute.neighbors('C', side, pos_0[idx],
+                                  pos_1.transpose(),
                                   self._ids_1[i],
                                   self.rcut[isp, :],
                                   nn, neighbors)
                 # print idx, self._pos_1[i].shape, neighbors[0: nn], set(self._ids_1[i])
-                compute.bond_angle(self._pos_0[i][idx, :],
-                                   self._pos_1[i].transpose(),
+                compute.bond_angle(pos_0[idx, :],
+                                   pos_1.transpose(),
                                    neighbors[0: nn], side, dtheta,
                                    hist_one)
                 hist_all.append(hist_one.copy())
diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 517a33f..3aec705 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -8,7 +8,7 @@ import logging
 
 import numpy
 
-from .helpers import linear_grid
+from .helpers import linear_grid, fold
 from .correlation import Correlation
 from .progress import progress
 
@@ -281,6 +281,12 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
                 distinct = True
                 remove_self_term = True
 
+            # The f90 kernels and the linked cells assume that particles
+            # are in the cell, but they may be unfolded
+            if system.cell is not None and all(system.cell.periodic):
+                pos_0 = fold(pos_0, system.cell.side)
+                pos_1 = fold(pos_1, system.cell.side) if distinct else pos_0
+
             # When using linked cells, we precalculate the neighbors
             # This will only happen if the system is within a cell (and all directions are periodic)
             # The cell may have shrunk since the first frame: we need at least
diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 6d1f4ff..459fe31 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -4,6 +4,8 @@ import os
 import stat
 import uuid
 
+import numpy
+
 
 def linear_grid(min_val, max_val, delta):
     """Linear grid."""
@@ -146,6 +148,15 @@ def copy_field(system, field, trajectory):
     return system
 
 
+def fold(pos, side):
+    """
+    Return positions `pos` folded into the cell, whose sides are `side`.
+
+    Positions that are already in the cell are left unchanged.
+    """
+    return pos - numpy.rint(pos / side) * side
+
+
 def adjust_skip(trajectory, n_origins=None):
     """
     Define interval between frames in trajectory so as to achieve a
-- 
2.43.0


From 70d98e646eb692fb11fa3063268b34475dcb09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 29/30] fix: bond angles of particles with more than 50
 neighbors

---
 atooms/postprocessing/ba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 1414403..8f9cfdd 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -97,10 +97,10 @@ class BondAngleDistribution(Correlation):
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
             # The particles may be unfolded, but the f90 kernels assume
-            # they are in the cell.
+            # they are in the cell. All of them may be neighbors.
             pos_0 = fold(self._pos_0[i], side)
             pos_1 = fold(self._pos_1[i], side)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            neighbors = numpy.ndarray(max(1, len(pos_1)), dtype=numpy.int32)
             for idx in range(len(pos_0)):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, pos_0[idx],
-- 
2.43.0


From 599b06d1e364194cdde97141f58d44f687d7af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 30/30] fix: compute again after reading the correlation
 function from file

---
 atooms/postprocessing/correlation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 698a090..365844f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -518,9 +518,7 @@ class Correlation(object):
         """
         # The grid is redefined along the way: if this has been done
         # already or if anything goes wrong, get back the requested one
-        requested, computed = self._grids
-        if computed is not None and self.grid is computed:
-            self.grid = requested
+        self.grid = self._requested_grid()
         requested = copy.copy(self.grid)
         try:
             self._setup_and_compute()
@@ -531,6 +529,13 @@ class Correlation(object):
 
         return self.grid, self.value
 
+    def _requested_grid(self):
+        """The grid before it was redefined by `compute()` or `read()`"""
+        requested, redefined = self._grids
+        if redefined is not None and self.grid is redefined:
+            return requested
+        return self.grid
+
     def _setup_and_compute(self):
         """Setup the arrays and compute the correlation function"""
         _log.info('setup arrays for %s', self.tag_description)
@@ -591,6 +596,7 @@ class Correlation(object):
 
     def read(self):
         """Read correlation function from existing file"""
+        requested = self._requested_grid()
         with open(self._output_file, 'r') as inp:
             x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
@@ -600,6 +606,7 @@ class Correlation(object):
             else:
                 self.grid, self.value = x[0: 2]
                 _log.warn("Ignoring some columns in %s", self._output_file)
+        self._grids = requested, self.grid
 
     @property
     def grid_name(self):
-- 
2.43.0

