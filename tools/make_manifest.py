#!/usr/bin/env python3
"""Writes MANIFEST.json; a property is claimed as soon as dst/props has its module."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection'
W = 'whole-process simulation: real analysis processes on a simulated disk, every system call scheduled; '
T = {
    'C01': (W + 'seeded crashes and power losses, torn-file invariant after every call',
            'Sampled crash points (all observation points of the fault-free run); trusts the shim, the power-loss model (ordered directory operations, unsynced data lost) and tmpfs.'),
    'C02': (W + 'seeded crash/fault histories, refinement against a fault-free run after update reruns',
            'Sampled histories of up to four faulted runs; reference is the same code without faults on a clean disk.'),
    'C03': (W + 'seeded histories of file-time changes under virtual clocks, outcome predicted by a model of the file times',
            'Sampled states of the result set; oracle is the rule of the statement and a fault-free run on the present trajectory.'),
    'C04': (W + 'seeded injection of errors, full disks, short and interrupted calls',
            'Sampled calls and errors; a normal end must come with the complete set of the fault-free twin.'),
    'C05': (W + 'seeded interleavings of several processes with kills, invariant after every call, serial reference',
            'Sampled interleavings at the granularity of system calls on the disk.'),
    'C06': ('simulated threads: a seeded scheduler decides the running thread at every traced line or opcode of the package; results compared with the serial order',
            'Preemption points are the lines (sometimes bytecodes) of atooms.postprocessing and the functions of atooms it calls; compiled kernels run to completion.'),
    'C07': ('simulated processes with virtual entropy, hash seeds, process ids, histories and current directories; results and generator states compared',
            'Sampled environments; reference is the same code in a fresh process.'),
    'C08': ('seeded sequences of analyses on one shared trajectory object in a simulated process, differential against fresh objects',
            'Sampled sequences; values to 1e-9.'),
    'C09': ('seeded injection of exceptions (interrupt, failed allocation, unreadable frame, failing callback) at arbitrary program points, retry compared with an undisturbed run',
            'Fault points are line events of the package and frame reads; sampled.'),
    'C10': ('simulated clocks (frozen, coarse, jumping) with logging and progress-bar configurations, results compared',
            'Sampled clock behaviours; wall, monotonic and process clocks are virtual.'),
    'C11': ('seeded resource configurations and import faults in simulated processes, differential comparison of results',
            'Sampled configurations; agreement to rounding.'),
    'C12': (W + 'seeded faults and bad input, comparison of the whole tree, open files and current directory',
            'Sampled faults; TMPDIR is not looked at.'),
    'C13': (W + 'seeded batches with damaged or failing files, differential against single-file calls',
            'Sampled batches of two to four files.'),
}
PURE = 'A pure function of one trajectory: no schedule, clock, fault or history can change it, so simulation with fault injection has nothing to decide here (the existing tests and reference data sample it).'
NA = {
    'N01': PURE, 'N02': PURE, 'N03': PURE, 'N04': PURE, 'N05': PURE, 'N06': PURE, 'N07': PURE, 'N08': PURE, 'N09': PURE, 'N10': PURE,
    'N11': 'Naming of result paths is a pure function of file name, symbol and tag; and it does not hold as stated (the clean-up of repeated punctuation maps a..xyz and a.xyz to one path), see DESIGN.md.',
}


def main():
    checks, na = [], []
    for l in open(os.path.join(V, 'properties.jsonl')):
        pid = json.loads(l)['id']
        if pid in T and os.path.exists(os.path.join(V, 'dst/props', pid.lower() + '.py')):
            tech, note = T[pid]
            checks.append({'property': pid, 'quick_cmd': './check %s --tier quick' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
                           'technique': DST + ': ' + tech, 'level': 'exploration', 'level_note': note})
        elif pid in T:
            na.append({'property': pid, 'reason': 'check not built yet'})
        else:
            na.append({'property': pid, 'reason': NA[pid]})
    m = {'version': 1, 'setup_cmd': 'python3 dst/build.py',
         'hooks': {'guard': 'none', 'enable': 'No hooks were added to /repo: the seams are the C library calls (preloaded shim), sys.settrace, the import system and the constructor arguments of the package.', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'See DESIGN.md. known_findings.json lists the repaired defects; no finding is suppressed.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
