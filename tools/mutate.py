"""Mutation campaign: plant small mechanical changes in a scratch copy of
/repo, run every check on them, and list the ones no check reports although
the test suite passes.  The survivors are read by hand.

usage: mutate.py OUT.jsonl SEED COUNT [JOBS]
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time

SRC = os.environ.get('MUT_SRC', '/repo')
PKG = 'atooms/postprocessing'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('_version.py', 'sacf.py', 's4kt.py', 'core.py')
ORDER = ['C11', 'C03', 'C02', 'C12', 'C04', 'C10', 'C13', 'C01', 'C09', 'C07', 'C08', 'C05', 'C06']


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    out = []

    def seg(node):
        return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset)
    for node in ast.walk(tree):
        if isinstance(node, (ast.Assign, ast.AugAssign)):
            out.append((seg(node), 'pass', 'delete'))
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            t = ast.unparse(node)
            if t.startswith(('_log', 'log.', 'print')):
                continue
            out.append((seg(node), 'pass', 'delete'))
        elif isinstance(node, (ast.Continue, ast.Break)):
            out.append((seg(node), 'pass', 'delete'))
        elif isinstance(node, (ast.If, ast.While)):
            out.append((seg(node.test), 'not (%s)' % ast.unparse(node.test), 'negate'))
            if isinstance(node, ast.If):
                out.append((seg(node.test), 'False', 'false'))
                out.append((seg(node.test), 'True', 'true'))
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>'}.get(type(node.ops[0]))
            if sw:
                out.append((seg(node), '%s %s %s' % (ast.unparse(node.left), sw, ast.unparse(node.comparators[0])), 'cmp'))
        elif isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
            out.append((seg(node), str(node.value + 1), 'const'))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((seg(node), str(not node.value), 'bool'))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            op = '-' if isinstance(node.op, ast.Add) else '+'
            out.append((seg(node), '(%s) %s (%s)' % (ast.unparse(node.left), op, ast.unparse(node.right)), 'arith'))
    return src, lines, out


def apply(lines, s, new):
    l0, c0, l1, c1 = s
    a = lines[l0 - 1].encode()[:c0].decode()
    b = lines[l1 - 1].encode()[c1:].decode()
    return ''.join(lines[:l0 - 1]) + a + new + b + ''.join(lines[l1:])


def main():
    outp, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    jobs = sys.argv[4] if len(sys.argv) > 4 else '3'
    rng = random.Random(seed)
    allm = []
    for f in sorted(os.listdir(os.path.join(SRC, PKG))):
        if f.endswith('.py') and f not in SKIP:
            src, lines, out = sites(os.path.join(SRC, PKG, f))
            allm += [(f, s, n, k) for s, n, k in out]
    only = os.environ.get('MUT_FILES')
    if only:
        allm = [m for m in allm if m[0] in only.split(',')]
    kinds = os.environ.get('MUT_KINDS')
    if kinds:
        allm = [m for m in allm if m[3] in kinds.split(',')]
    rng.shuffle(allm)
    print(len(allm), 'sites', flush=True)
    base = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    repo = os.path.join(base, 'repo')
    subprocess.run(['cp', '-a', SRC, repo], check=True)
    try:
        for f, s, new, kind in allm[:count]:
            p = os.path.join(repo, PKG, f)
            src, lines, _ = sites(os.path.join(SRC, PKG, f))
            mut = apply(lines, s, new)
            try:
                compile(mut, f, 'exec')
            except SyntaxError:
                continue
            old = ''.join(lines[s[0] - 1:s[2]]).strip()
            open(p, 'w').write(mut)
            rec = dict(file=f, line=s[0], kind=kind, old=old, new=new, caught=None)
            t0 = time.time()
            # Crashes of everything are found by the tests
            r = subprocess.run(['bash', os.environ.get('MUT_TESTS', '/tmp/runtests.sh'), repo], capture_output=True)
            rec['tests'] = r.returncode
            if r.returncode == 0:
                for c in ORDER:
                    r = subprocess.run(['./check', c, '--n', '30' if c == 'C06' else '150', '--jobs', jobs, '--no-evidence'],
                                       cwd=HERE, capture_output=True, text=True,
                                       env=dict(os.environ, DST_REPO=repo))
                    if r.returncode != 0:
                        rec['caught'] = c if r.returncode == 1 else c + ' rc %d' % r.returncode
                        break
            rec['s'] = round(time.time() - t0)
            with open(outp, 'a') as fh:
                fh.write(json.dumps(rec) + '\n')
            open(p, 'w').write(src)
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
