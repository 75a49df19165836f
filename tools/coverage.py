"""Which lines of the package the checks reach.

usage: DST_COV=/tmp/cov ./check C01 --no-evidence; python3 tools/coverage.py /tmp/cov [-v]"""
import os
import sys

repo = os.environ.get('DST_REPO', '/repo')
root = os.path.join(repo, 'atooms/postprocessing')
names = sorted(x for x in os.listdir(root) if x.endswith('.py'))
data = open(sys.argv[1], 'rb').read()


def lines(code):
    out = {n for _, _, n in code.co_lines() if n}
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            out |= lines(c)
    return out


tot = hit = 0
for i, x in enumerate(names):
    text = open(os.path.join(root, x)).read()
    want = {n for n in lines(compile(text, x, 'exec')) if text.splitlines()[n - 1].strip()} if text else set()
    got = {n for n in want if data[i * 4096 + n]}
    tot, hit = tot + len(want), hit + len(got)
    print('%-24s %4d of %4d' % (x, len(got), len(want)))
    if '-v' in sys.argv:
        for n in sorted(want - got):
            print('    %4d %s' % (n, text.splitlines()[n - 1]))
print('%d of %d lines (%.1f%%)' % (hit, tot, 100.0 * hit / tot))
