#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording of the properties)."""
import json, os

PP = 'atooms/postprocessing/'
props = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    props.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [f if f.startswith(('bin/', 'tests/')) else PP + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': hook}})


# ---------------------------------------------------------------- claimed
prop('C01', 'A crash never leaves a torn result file',
     'Whenever the analysing process is killed, or the machine loses power, at any instant of an analysis, every result '
     'file found afterwards at its final path is either absent, the complete file of an earlier finished write, or the '
     'complete file of the interrupted analysis. No final path ever holds an empty, truncated or mixed result, for the '
     'main file as well as for the relaxation-time and auxiliary files that some correlation functions add.',
     ['crash_points', 'configurations'],
     'For every correlation function, partial, filter and batch function, every instant (each file-system operation, '
     'before, in the middle of, or after it) at which the process dies or power is lost, with or without earlier results on disk.',
     'The tests only run analyses that finish; none kills the writer, so no test can see the window between opening and completing a result file.',
     ['correlation.py', 'fkt.py', 'chi4t.py', 'partial.py'],
     [('result writer', 'correlation.py: write()'), ('relaxation-time file', 'fkt.py: write()'),
      ('auxiliary averages', 'chi4t.py: write()')],
     observe=['result files on the (simulated) disk after the crash'])

prop('C02', 'After crashes and faults, an update run restores the full result set',
     'After any sequence of process deaths, power losses and I/O errors in the middle of analyses, rerunning the same '
     'analysis with the update option until one run ends without a fault leaves the same complete set of result files, '
     'with the same content, as if nothing had ever failed. This includes the relaxation-time files, the auxiliary '
     'average/variance files and every partial: an update run never takes an incomplete set left by a crash for up to date.',
     ['crash_points', 'fault_sequences', 'histories'],
     'For every sequence of interrupted runs (any crash point or fault in each), every correlation function and batch function, followed by fault-free update runs.',
     'The only update test (test_sk_update) runs twice without interruption; recovery after a crash between two of the files of one analysis is never exercised.',
     ['correlation.py', 'partial.py', 'fkt.py', 'chi4t.py', 'api.py'],
     [('freshness test', 'correlation.py: need_update()'), ('freshness of a set of partials', 'partial.py: need_update(), do()'),
      ('write order of the files of one analysis', 'fkt.py, chi4t.py: write()')],
     observe=['result files after the recovery run, compared with a never-interrupted run'])

prop('C03', 'Update mode recomputes exactly when a result is missing or stale',
     'With the update option, an analysis is recomputed and rewritten whenever any of its main result files is missing or is not '
     'strictly newer than its trajectory file, and otherwise it is not recomputed: no result file is touched, and for '
     'functions of one variable the object then carries the grid and values stored in the file. So after an update run of '
     'an unmodified trajectory the results on disk are those of the trajectory as it is now, for all partials together.',
     ['histories', 'schedules', 'configurations'],
     'For every history of trajectory modifications, result deletions, touches and update runs, every granularity and movement of the file-system clock, '
     'and trajectories that are not modified while an analysis of them is in progress.',
     'Tests run update mode once on one function, with real mtimes; equal time stamps, a trajectory rewritten between partials, missing single partials and coarse clocks are not sampled.',
     ['correlation.py', 'partial.py', 'api.py'],
     [('mtime comparison', 'correlation.py: need_update()'), ('reading back', 'correlation.py: read()'), ('any stale partial', 'partial.py: do()')],
     observe=['result files (content, time stamps)', 'grid and value attributes after do(update=True)'])

prop('C04', 'I/O failures are reported, and a reported success is complete',
     'If any system call an analysis needs fails (missing or unreadable trajectory, disk full, I/O error, permission), the call raises or the '
     'command-line tool exits non-zero; a run that returns normally has published every result file of the analysis, complete, '
     'with the values it computed. Short reads, short writes and interrupted system calls alone never change a result, '
     'and a failed run leaves each final path with its complete earlier content or the complete new one.',
     ['fault_sequences', 'configurations'],
     'For every placement and kind of I/O fault (error, short count, interruption) in any analysis or batch, through the library and the command line.',
     'No test injects an I/O failure, so swallowed errors, missing flush/close checks and partly written files reported as success go unseen.',
     ['correlation.py', 'fkt.py', 'chi4t.py', 'partial.py', 'api.py', 'bin/pp.py'],
     [('error propagation', 'correlation.py: do(), write()'), ('partials', 'partial.py: do()')],
     observe=['exception or exit status', 'result files versus computed values'])

prop('C05', 'Concurrent analysis processes never publish or accept torn results',
     'When several processes analyse trajectories and write to overlapping result paths at the same time, under any interleaving and with any of '
     'them killed at any point, whoever looks at a result path at any instant finds nothing or one complete result, an update run never accepts an incomplete one, '
     'and when the survivors are done the results are the same as from running the analyses one after the other.',
     ['schedules', 'crash_points'],
     'For every interleaving of the file-system operations of two to four processes running the same or overlapping analyses, with kills.',
     'Tests run in a single process.',
     ['correlation.py', 'partial.py', 'fkt.py', 'chi4t.py'],
     [('publication of result files', 'correlation.py: write()'), ('freshness test', 'correlation.py: need_update(), read()')],
     observe=['every result path after each simulated system call', 'values read by update runs'])

prop('C06', 'Analyses in concurrent threads give the sequential results',
     'Analyses that run at the same time in several threads of one program, each with its own trajectory and correlation objects, '
     'return and write exactly what they return and write when run one after the other, under every interleaving of the threads.',
     ['schedules'],
     'For every interleaving (down to single Python instructions of the package) of two to four analyses of any kind, same or different trajectories, library or batch functions.',
     'Tests are single threaded; hidden process-wide state (random generator, class attributes, module variables, shared scratch) only shows under interleaving.',
     ['fourierspace.py', 'correlation.py', 'partial.py', 'core.py', 'chi4t.py', 'gr.py'],
     [('selection of wave-vectors', 'fourierspace.py: _setup()'), ('class variables phasespace/nbodies', 'correlation.py')],
     observe=['grid, value, analysis', 'result files'])

prop('C07', 'Results are repeatable and never disturb the random state',
     'An analysis is a function of its trajectory and parameters only: its results are the same, to the digits the numerical library itself reproduces, whatever the state of the random generators, the hash seed, the '
     'process history (analyses run before), the working directory or the process id, including the decimated sets of wave-vectors. Running an analysis leaves the '
     "random generators of the calling program (Python's and numpy's) in the state they had.",
     ['histories', 'configurations'],
     'For every analysis, every initial state of the random sources, hash seed, and history of other analyses in the same process.',
     'test_sk_random checks one function against one reseeding; nothing checks the user-visible generator state, hash seeds or histories.',
     ['fourierspace.py', 'correlation.py', 'helpers.py', 'partial.py'],
     [('fixed seed of the wave-vector selection', 'fourierspace.py: _setup()'), ('sets turned into sorted grids', 'helpers.py: _templated(), setup_t_grid()')],
     observe=['grid, value, kvectors, result files', 'random.getstate(), numpy.random.get_state()'])

prop('C08', 'Analyses of the same trajectory object do not interfere',
     'Any sequence of analyses run on one trajectory object (read from file, cached or in memory), with any mix of filters, partials, '
     'weights, centre-of-mass fixing and unfolding, gives for each of them the result it gives alone on a freshly opened trajectory, in any order. '
     'Analyses leave the frames of the trajectory and the parameters given by the caller (grids, lists of wave-vectors) unchanged; only adding a field explicitly with a weight may extend the frames.',
     ['histories', 'configurations'],
     'For every ordered sequence of analyses with any parameters over a shared trajectory object of any kind, whether each of them finishes or fails half-way.',
     'Each test opens its trajectory afresh or runs one function on it; interference through cached frames, callbacks or shared lists needs particular sequences.',
     ['correlation.py', 'fourierspace.py', 'partial.py', 'filter.py', 'helpers.py', 'api.py'],
     [('callbacks and filters on copies', 'helpers.py: filter_species(), filter.py'), ('unfolded copy', 'correlation.py: _setup_arrays_onebody()'),
      ('shared kgrid', 'fourierspace.py: _setup()')],
     observe=['grid, value, analysis of each analysis', 'frames of the shared trajectory', "the caller's lists"])

prop('C09', 'A failed or repeated computation can be retried on the same object',
     'If a computation fails at any point (frame that cannot be read, exception in a filter or callback, keyboard interrupt, failed allocation) and is started again on the same '
     'object, or is simply repeated, the result is that of a single undisturbed computation. A failed computation publishes no result file of that function.',
     ['fault_sequences', 'histories'],
     'For every instant of interruption (every executed line of the package, every frame read, every callback call), any number of failures, every correlation function and partial set.',
     'Every test calls each object once and never fails inside it.',
     ['correlation.py', 'fourierspace.py', 'chi4t.py', 'ba.py', 'gr.py', 'msd.py', 'partial.py'],
     [('phase-space arrays', 'correlation.py: _setup_arrays()'), ('deferred grid setup', 'fourierspace.py: _setup(), gr.py: _setup_grid(), ba.py')],
     observe=['grid, value, analysis after the retry', 'result files'])

prop('C10', 'Results do not depend on the clock, progress bars or logging',
     'Analyses finish and give the same results whatever the clocks do during the run: coarse or frozen clocks, jumps forwards or backwards, any duration. '
     'Turning on progress bars, logging at any level or both changes nothing in the results and makes no analysis fail.',
     ['schedules', 'configurations'],
     'For every behaviour of the wall, process and monotonic clocks at every reading, every logging level and progress-bar setting, on any analysis.',
     'Tests run with the real, well behaved clock, with bars off and logging muted.',
     ['correlation.py', 'progress.py', 'gr.py', 'fkt.py'],
     [('timing report', 'correlation.py: compute()'), ('progress bars', 'progress.py')],
     observe=['exceptions', 'grid, value, result files'])

prop('C11', 'Resource settings and missing optional parts do not change results',
     'The memory budget of the tabulation, trajectory caching, reading from file or from memory, the distance cut-off that turns on linked cells, compiled or pure-Python kernels, '
     'and the presence or absence of optional components (compiled extensions, progress-bar and metadata packages) affect only speed: the results agree to rounding. '
     'A missing component that an analysis cannot do without is reported as an error, never answered with other numbers.',
     ['configurations', 'fault_sequences'],
     'For every analysis, every setting of these knobs and every subset of components failing to import, on trajectories with fixed or varying cell and particle number, in two and three dimensions.',
     'Tests compare fast and legacy kernels on three stored trajectories with default budgets; no test removes a component or varies the budget.',
     ['fkt.py', 'gr.py', 'sk.py', 'chi4t.py', 'linkedcells.py', 'progress.py', 'correlation.py', 'realspace.f90', 'fourierspace.f90'],
     [('lookup_mb blocks', 'fkt.py'), ('linked cells', 'linkedcells.py, gr.py'), ('import fallbacks', 'progress.py, correlation.py, fkt.py, gr.py')],
     observe=['grid and value under each configuration'])

prop('C12', 'An analysis touches only its result files and releases what it opened',
     'An analysis, finished or failed with a reported error, creates, changes or removes no file except the result files named by the output template and the directories leading to them; '
     'trajectory files are never modified, and no temporary file is left next to the results. '
     'When the analysis objects are gone no file remains open, and the current directory is as before.',
     ['fault_sequences', 'configurations'],
     'For every analysis and batch function, output template, and every placement of an I/O error or interruption that is reported to the caller.',
     'Tests look at returned numbers and delete their outputs; they never compare the directory tree or the open files before and after, let alone after a failure.',
     ['correlation.py', 'fkt.py', 'chi4t.py', 'ba.py', 'api.py'],
     [('output template', 'correlation.py: _output_file, write()'), ('opening of trajectories', 'api.py: _get_trajectories(), ik.py')],
     observe=['directory tree and open files before and after'])

prop('C13', 'In a batch every file gets its own result, whatever happens to others',
     'A batch call over several trajectory files leaves for each file the result that a call on that file alone leaves, in any order and for any mix of systems. '
     'If one of the files cannot be analysed the error is reported, the files before it in the list have their complete results, and rerunning with the update option once the cause is removed completes the batch.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every batch function, list and order of trajectories (species, sizes, dimensions, time steps), option set, and position and kind of the failure.',
     'Each batch function is tested on single files; state carried from one file to the next (grids, defaults, weight files) needs several different files.',
     ['api.py', 'fourierspace.py', 'partial.py', 'bin/pp.py'],
     [('loop over input files', 'api.py'), ('shared kgrid/tgrid', 'api.py: sk(), fkt(), fskt()')],
     observe=['result files of batch versus single runs'])

# ---------------------------------------------------------------- pure functions of the input
pure_why = ('The tests compare a few stored trajectories with reference numbers; the property quantifies over all trajectories and parameters.')


def pure(id, title, statement, text, files, mech):
    prop(id, title, statement, ['inputs'], text, pure_why, files, mech)


pure('N01', 'g(r) follows its definition',
     'The radial distribution function of a trajectory equals the histogram of minimum-image pair distances averaged over the selected frames, divided by that of an ideal gas of the same density, bin by bin.',
     'For every trajectory, cell, species composition and bin width.', ['gr.py', 'realspace.f90'], [('histogram and normalization', 'gr.py: _compute()')])
pure('N02', 'S(k) follows its definition',
     'The structure factor equals the average over frames and wave-vectors of the shell of the normalized product of the (weighted) density modes.',
     'For every trajectory, wave-vector set, filter and weight.', ['sk.py', 'fourierspace.py', 'fourierspace.f90'], [('density modes', 'sk.py: _compute()')])
pure('N03', 'Time correlations average over all admissible time origins',
     'For each time on the grid the mean square displacement, velocity autocorrelation, overlaps, scattering functions and non-Gaussian parameter average over exactly the pairs of frames at that distance whose first frame is an allowed origin.',
     'For every trajectory, block size, grid and number of origins.', ['correlation.py', 'helpers.py', 'msd.py', 'vacf.py', 'qt.py', 'alpha2.py', 'fkt.py'], [('pairs of frames', 'correlation.py: gcf_offset(), helpers.py: setup_t_grid(), adjust_skip()')])
pure('N04', 'Wave-vectors lie in their shells',
     'Every wave-vector used for a grid value is compatible with the cell, lies within the shell width of that value (widened only if the shell is empty), and at most the requested number is used, without repetition.',
     'For every cell, grid, width and number of vectors.', ['fourierspace.py'], [('shells', 'fourierspace.py: _setup_grid_sphere()')])
pure('N05', 'Partials of complementary species add up to the total',
     'Suitably weighted partial correlation functions of all species or species pairs add up to the function of the whole system, and a partial is symmetric under exchange of the species where the function is.',
     'For every trajectory and species composition.', ['partial.py', 'filter.py', 'helpers.py'], [('species filters', 'partial.py')])
pure('N06', 'Results are invariant under symmetries of the data',
     'Relabelling particles, translating the system across the periodic boundary or (for static functions) reordering frames changes no correlation function beyond rounding.',
     'For every trajectory and symmetry operation.', ['correlation.py', 'gr.py', 'sk.py', 'fkt.py', 'msd.py'], [('periodic boundaries, unfolding', 'correlation.py: _setup_arrays()')])
pure('N07', 'Neighbour search by linked cells is complete',
     'The linked-cell lists contain, for every particle, each particle within the cut-off exactly once (half lists: each pair once).',
     'For every configuration, cell shape, dimension and cut-off.', ['linkedcells.py'], [('cell map', 'linkedcells.py: _map(), compute()')])
pure('N08', 'Four-point and susceptibility functions follow their definitions',
     'The dynamic susceptibilities equal the variances over time origins (or samples) of the corresponding overlap, scaled by the number of particles.',
     'For every trajectory, grid and overlap parameter.', ['chi4t.py', 'susceptibility.py', 's4kt.py'], [('variance', 'chi4t.py: _compute()')])
pure('N09', 'Bond-angle distribution and spectral density follow their definitions',
     'The bond-angle distribution is the normalized histogram of angles between neighbours within the partial cut-offs; the spectral density is the squared amplitude of the indicator function of the spheres.',
     'For every trajectory, cut-off and radius.', ['ba.py', 'ik.py', 'realspace.f90'], [('angles', 'realspace.f90: bond_angle'), ('form factor', 'ik.py')])
pure('N10', 'Fits, roots and extrema reported in the analysis are those of the data',
     'Relaxation times, diffusion coefficients and extrema given in the analysis are the linear-interpolation roots, least-squares slopes and parabola vertices of the computed data.',
     'For every data set.', ['helpers.py', 'msd.py', 'fkt.py', 'chi4t.py'], [('ifabsmm, linear_fit, feqc', 'helpers.py')])
pure('N11', 'Different trajectories get different result paths',
     'Two different trajectory files, or two different partials or filters of one, never share a result path under the default template.',
     'For every pair of file names, species names and filters.', ['correlation.py', 'filter.py', 'partial.py'], [('path template and clean-up of punctuation', 'correlation.py: _output_file')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as fh:
    for p in props:
        fh.write(json.dumps(p) + '\n')
