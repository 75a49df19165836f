import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
H={l.split(' ',1)[1]:l.split()[0] for l in log}
def h(s):
    m=[v for k,v in H.items() if s in k]; assert len(m)==1,(s,m); return m[0]
F=[('C01','publish result files atomically','result files were opened at their final path and written in place: a process killed or a machine stopped in the middle left empty or truncated files (also under the update option, which took them for results); files without directory part in the template could not be written'),
('C02','write the main output file after the auxiliary ones','the main file was written before the relaxation times and the average/variance files: after a crash in between the update option took the incomplete set for up to date'),
('C03','update mode with trajectories that are not on file','need_update() raised for trajectories in memory or with no output path'),
('C10','division by zero when the wall time is zero','ZeroDivisionError in compute() when the clock did not advance between start and end'),
('C07','leave the state of the random number generator alone','random.seed(1) reset the generator of the calling program'),
('C08','do not modify the list of wave-vectors','kgrid given by the user was sorted and overwritten in place, so that a second function with the same list used other wave-vectors'),
('C09','let compute() be called again','a second compute() (or a retry after a failure) appended to the arrays of the first one, kept the converted grids, or failed'),
('C08','do not modify the frames','fix_cm shifted the frames of cached and in-memory trajectories in place'),
('C03','read back correlation functions with one entry','reading a result file with one line failed in update mode'),
('C11','linked cells with recent numpy','numpy.int removed: linked cells (rmax) failed'),
('C11','linked cells with fluctuating cells','linked cells kept the grid of the first frame'),
('C11','linked cells with particles out of the box','particles at or beyond the boundary were put in wrong cells or raised'),
('C13','spectral density of every input file','ik analysed the radii of the first file for every file'),
('C13','structure factor of several files','the weight trajectory was used for the first file only'),
('C11','fast dynamic susceptibility','Chi4SelfOverlapOptimized gave other numbers than Chi4SelfOverlap'),
('C13','dynamic susceptibility of systems with one species','chi4qs of a one-species file in a batch failed'),
('C05','one look at the output path','exists() and isfile() each looked at the path: when only the second look failed (I/O error, permission) an earlier result file was taken for a special file and written in place, left truncated if the writing then failed'),
('C08','do not add entries to the particles','a filter added __builtins__ to the particles of cached and in-memory frames (eval)'),
('C08','wave-vectors given by the user with large','kvectors set by the user with positive components larger than the negative ones were looked up out of the table of exponentials (IndexError, or numbers depending on the contents of the memory with the compiled kernel)'),
('C10','format of a log message','a warning with a wrong format string raised TypeError with logging handlers that do not hide errors'),
('C02','center the frames of a cached trajectory','center=True shifted cached frames again at each read: the results depended on which functions had been computed before (total up to date or not), hence on crashes and on the cache (also C07, C08, C11)'),
('C11','fold the frames of a cached trajectory only once','fix_cm with a cached trajectory (the default of the api) folded the first frame once per read: F_s(k,t) and F(k,t) changed sign or value with no_cache'),
('C11','indices of the wave-vectors in the fast structure factor','StructureFactorFast passed indices from 0 to the f90 kernel (from 1): S(k) at other wave-vectors, and reads out of bounds'),
('C11','cross terms and weights in the fast structure factor','StructureFactorFast ignored weights and the second set of particles without saying so'),
('C11','linked cells cover the last bin','pairs beyond rmax but within the last bin were missed with linked cells'),
('C12','bond angle distribution does not write','computing bond angles with default cut-offs wrote the g(r) result files (dr=0.1) over those of the user (also C03: gr with update took them for up to date)'),
('C11','linked cells when the cell shrinks','linked cells were decided on the first frame: with less than three of them along a side in a later, smaller cell pairs were counted twice'),
('C11','particles that are not folded in the cell','compiled kernels fold distances only once: with unfolded positions g(r) and bond angles were wrong, and the linked-cell kernels wrote out of bounds'),
('C11','more than 50 neighbors','the neighbours of a particle were stored in an array of 50 entries: the others were written out of bounds and ignored'),
('C03','compute again after reading','an object updated from its result file and then recomputed (the file had been removed or had become stale) took the grid read from the file for the requested one: bond angles on other bins, times rounded to six digits'),
]
out=['fixed: property=%s %s %s'%(p,h(s),w) for p,s,w in F]
json.dump({'known':[],'fixed':out},open('/verif/known_findings.json','w'),indent=1)
