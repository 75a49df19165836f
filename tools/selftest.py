"""Is one seed one execution? Plays the same cases with other numbers of workers, other
hash seeds and another order, and compares everything that was recorded (outcome, counters,
hashes of the sequences of calls or switches).

usage: selftest.py [property ...] [n=40]"""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = [a[2:] for a in sys.argv[1:] if a.startswith('n=')] or ['40']
props = [a for a in sys.argv[1:] if not a.startswith('n=')] or ['C%02d' % i for i in range(1, 14)]
bad = 0
for p in props:
    res = []
    for jobs, hashseed, seed in (('8', '0', '5'), ('3', '7', '5'), ('5', '5', '5')):
        with tempfile.NamedTemporaryFile() as f:
            r = subprocess.run([ROOT + '/check', p, '--n', n[0], '--jobs', jobs, '--seed', seed, '--no-evidence', '--digest', f.name],
                               env=dict(os.environ, DST_HASHSEED=hashseed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append(json.load(open(f.name)))
    diff = [k for k in res[0] if any(x.get(k) != res[0][k] for x in res[1:])]
    print(p, len(res[0]), 'cases', 'differ: %s' % diff[:10] if diff else 'identical')
    sys.stdout.flush()
    bad += bool(diff)
sys.exit(1 if bad else 0)
