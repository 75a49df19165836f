"""Runs the cases of one property in parallel, minimises and reports violations, writes
the evidence. Exit codes: 0 held, 1 violation, 2 error of the harness."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

import boot      # noqa
import sim       # noqa
import world     # noqa


def load_prop(pid):
    return importlib.import_module('props.' + pid.lower())


def case_rng(pid, seed, k):
    return random.Random('%s-%d-%d' % (pid, seed, k))


def make_case(prop, seed, k, tier):
    case = prop.gen(case_rng(prop.ID, seed, k), k, tier)
    case = json.loads(json.dumps(case))      # what a replay file would hold
    return case


def run_case(prop, case):
    """-> dict(status=ok|skip|violation|error, ...)"""
    t0 = time.monotonic()
    st = {'status': 'ok', 'stats': {}}
    try:
        st['stats'] = prop.execute(case) or {}
    except sim.Violation as v:
        st.update(status='violation', cls=v.cls, msg=v.msg, info=v.info)
    except sim.Skip as e:
        st.update(status='skip', msg=str(e))
    except sim.Hang as e:
        if getattr(prop, 'HANG_IS_VIOLATION', False):
            st.update(status='violation', cls='hang', msg=str(e), info={})
        else:
            st.update(status='error', msg=str(e))
    except Exception:
        st.update(status='error', msg=traceback.format_exc())
    st['wall'] = time.monotonic() - t0
    return st


def send(fd, obj):
    b = pickle.dumps(obj)
    b = len(b).to_bytes(8, 'big') + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def pin(w):
    # a worker and its nodes take turns: keep them on one processor
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[w % len(cpus)]})
    except (OSError, AttributeError):
        pass


def worker(prop, seed, tier, ks, fd):
    for k in ks:
        case = make_case(prop, seed, k, tier)
        st = run_case(prop, case)
        st['k'] = k
        if st['status'] == 'violation':
            st['case'] = st['info'].pop('case', None) or case
        st.pop('info', None)
        send(fd, st)
        if k % 64 == 0:
            gc.collect()
    send(fd, None)


def digest(st):
    def norm(x):
        if isinstance(x, dict):
            return {str(k): norm(v) for k, v in x.items()}
        if isinstance(x, (set, frozenset)):
            return sorted(map(repr, x))
        return repr(x)
    b = json.dumps([st['status'], st.get('msg'), norm(st['stats'])], sort_keys=True)
    return hashlib.sha1(b.encode()).hexdigest()


def add(total, part):
    for k, v in part.items():
        if isinstance(v, dict):
            add(total.setdefault(k, {}), v)
        elif isinstance(v, (set, frozenset, list)):
            total.setdefault(k, set()).update(v)
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v


def minimise(prop, case, cls, budget):
    """Greedy: take any smaller case which fails in the same way."""
    t_end = time.monotonic() + budget
    tried = 0
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        for cand in prop.shrink(json.loads(json.dumps(case))):
            if time.monotonic() > t_end:
                break
            tried += 1
            st = run_case(prop, cand)
            if st['status'] == 'violation' and st['cls'] == cls:
                case = st['info'].get('case') or cand
                case = json.loads(json.dumps(case))
                improved = True
                break
    return case, tried


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('known', []) if f['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--built', required=True)
    ap.add_argument('--n', type=int)
    ap.add_argument('--k', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--cap', type=float)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--digest', help='file for the digests of all cases (see tools/selftest.py)')
    a = ap.parse_args()
    built = json.loads(a.built)
    boot.load(built)
    import zygote
    zygote._built = built
    prop = load_prop(a.prop)
    if hasattr(prop, 'setup'):
        prop.setup(built)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    # nothing that exists now is looked at again by the collector (and its pages stay shared)
    gc.collect()
    gc.freeze()
    if a.replay:
        sys.exit(do_replay(prop, a.replay))
    if a.k is not None:
        case = make_case(prop, a.seed, a.k, a.tier)
        print(json.dumps(case, indent=1))
        st = run_case(prop, case)
        st['stats'] = {k: (v if not isinstance(v, (set, list)) else len(v)) for k, v in st['stats'].items()}
        print(st['status'], st.get('cls'), st.get('msg'), st['stats'], '%.2f s' % st['wall'])
        sys.exit({'ok': 0, 'skip': 0, 'violation': 1, 'error': 2}[st['status']])
    sys.exit(campaign(prop, a))


def do_replay(prop, path):
    rec = json.load(open(path))
    st = run_case(prop, rec['case'])
    if st['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        print('  class: %s\n  %s' % (st['cls'], st['msg']))
        if st['cls'] != rec['class']:
            print('  (recorded class: %s)' % rec['class'])
        return 1
    if st['status'] == 'error':
        print('ERROR', st['msg'])
        return 2
    print('replay: the property holds on this case (%s)' % st['status'])
    return 0


def campaign(prop, a):
    tier = a.tier
    n = a.n or (prop.QUICK if tier == 'quick' else prop.THOROUGH)
    cap = a.cap or (getattr(prop, 'CAP_QUICK', 300.0) if tier == 'quick' else getattr(prop, 'CAP_THOROUGH', 7200.0))
    t0 = time.monotonic()
    t_epoch = time.time()
    W = max(1, min(a.jobs, n))
    print('%s %s: seed %d, %d cases, %d workers' % (prop.ID, tier, a.seed, n, W))
    sys.stdout.flush()
    fds, pids = {}, []
    for w in range(W):
        r, s = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            os.setpgid(0, 0)
            code = 0
            try:
                world.World._n = 0
                pin(w)
                worker(prop, a.seed, tier, range(w, n, W), s)
            except BaseException:
                traceback.print_exc()
                code = 2
            os._exit(code)
        os.close(s)
        fds[r] = [b'', w]
        pids.append(pid)
    stats, count = {}, {'ok': 0, 'skip': 0, 'violation': 0, 'error': 0}
    violations, errors, skips = [], [], {}
    digests = {}
    done = 0
    stopped = None
    finished = set()
    while fds:
        left = cap - (time.monotonic() - t0)
        if left <= 0:
            stopped = 'wall-clock cap of %.0f s' % cap
            break
        rr, _, _ = select.select(list(fds), [], [], min(left, 5.0))
        for r in rr:
            data = os.read(r, 1 << 20)
            if not data:
                if fds[r][1] not in finished:
                    errors.append('worker %d died' % fds[r][1])
                os.close(r)
                del fds[r]
                continue
            fds[r][0] += data
            while len(fds[r][0]) >= 8:
                ln = int.from_bytes(fds[r][0][:8], 'big')
                if len(fds[r][0]) < 8 + ln:
                    break
                st = pickle.loads(fds[r][0][8:8 + ln])
                fds[r][0] = fds[r][0][8 + ln:]
                if st is None:
                    finished.add(fds[r][1])
                    continue
                done += 1
                digests[st['k']] = digest(st)
                count[st['status']] += 1
                add(stats, st['stats'])
                if st['status'] == 'violation':
                    violations.append(st)
                elif st['status'] == 'error':
                    errors.append('case %d: %s' % (st['k'], st['msg']))
                elif st['status'] == 'skip':
                    key = st['msg'][:100]
                    skips[key] = skips.get(key, 0) + 1
        known = known_findings(prop.ID)
        fresh = [v for v in violations if not any(match(f, v) for f in known)]
        if fresh or len(errors) > 20:
            stopped = 'violation' if fresh else 'errors'
            break
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    os.system("for d in /dev/shm /tmp; do for p in %s; do rm -rf $d/dst-$p-*; done; done" % ' '.join(map(str, pids)))
    if a.digest:
        with open(a.digest, 'w') as fh:
            json.dump(digests, fh)
    known = known_findings(prop.ID)
    fresh = sorted([v for v in violations if not any(match(f, v) for f in known)], key=lambda v: v['k'])
    for f in known:
        hit = [v for v in violations if match(f, v)]
        print('KNOWN-FINDING: property=%s %s%s' % (prop.ID, f['what'], ' (seen in %d cases)' % len(hit) if hit else ''))
    wall = time.monotonic() - t0
    code = 0
    replay = None
    if fresh:
        v = fresh[0]
        print('case %d violates the property: [%s] %s' % (v['k'], v['cls'], v['msg']))
        sys.stdout.flush()
        st0 = run_case(prop, v['case'])
        if st0['status'] == 'violation':
            case = st0['info'].get('case') or v['case']
            case, tried = minimise(prop, case, st0['cls'], 60.0 if tier == 'quick' else 300.0)
            st1 = run_case(prop, case)
        else:
            case, tried, st1 = v['case'], 0, st0
        if st1['status'] != 'violation':
            # not reproducible in this process: report as it was found
            print('note: the failure did not repeat when run again: %s %s' % (st1['status'], st1.get('msg')))
            case, cls, msg = v['case'], v['cls'], v['msg']
        else:
            cls, msg = st1['cls'], st1['msg']
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        body = {'property': prop.ID, 'seed': a.seed, 'case_index': v['k'], 'class': cls, 'violation': msg,
                'shrink_attempts': tried, 'case': case}
        h = hashlib.sha1(json.dumps(body['case'], sort_keys=True).encode()).hexdigest()[:10]
        replay = os.path.join('replays', '%s-%s.json' % (prop.ID, h))
        with open(os.path.join(VERIF, replay), 'w') as fh:
            json.dump(body, fh, indent=1, sort_keys=True)
        print('VIOLATION property=%s replay=%s' % (prop.ID, replay))
        print('  seed %d, case %d, class %s\n  %s' % (a.seed, v['k'], cls, msg))
        code = 1
    if code == 0 and errors:
        print('HARNESS ERROR (%d):\n%s' % (len(errors), '\n'.join(errors[:3])))
        code = 2
    if code == 0 and done and count['skip'] > getattr(prop, 'MAX_SKIP', 0.3) * done:
        print('HARNESS ERROR: %d of %d cases say nothing: %s' % (count['skip'], done, skips))
        code = 2
    if code == 0 and done == 0:
        print('HARNESS ERROR: no case was run')
        code = 2
    for probe in getattr(prop, 'PROBES', []):
        if code == 0 and not probe_hit(stats, probe):
            print('note: probe never hit: %s' % probe)
    if not a.no_evidence:
        evidence(prop, a, n, done, count, stats, skips, stopped, wall, len(fresh), replay)
    print('%s: %d cases (%d ok, %d say nothing), %d simulated runs, %.1f s, exit %d' % (
        prop.ID, done, count['ok'], count['skip'], stats.get('runs', 0), wall, code))
    for k, m in sorted(skips.items(), key=lambda x: -x[1])[:5]:
        print('   says nothing %d: %s' % (m, k))
    return code


def probe_hit(stats, probe):
    cur = stats
    for p in probe.split('.'):
        if not isinstance(cur, dict) or p not in cur:
            return False
        cur = cur[p]
    return bool(cur)


def match(f, v):
    return v['cls'] == f['class'] and all(s in v['msg'] for s in f.get('contains', []))


def evidence(prop, a, n, done, count, stats, skips, stopped, wall, nviol, replay):
    h = max(wall, 1e-3) / 3600.0
    sizes = {k: len(v) for k, v in stats.items() if isinstance(v, set)}
    nums = {k: v for k, v in stats.items() if not isinstance(v, (set, dict))}
    dicts = {k: v for k, v in stats.items() if isinstance(v, dict)}
    samples = []
    for k in range(min(2, n)):
        samples.append({'seed': a.seed, 'case': k, 'content': make_case(prop, a.seed, k, a.tier)})
    cov = {
        'evaluations': int(stats.get('runs', 0)) or done,
        'distinct_nontrivial': sizes.get('distinct', 0),
        'rule': prop.RULE,
        'samples': samples,
        'cases': {'planned': n, 'executed': done, 'said_something': count['ok'], 'said_nothing': count['skip'],
                  'errors': count['error'], 'why_nothing': dict(sorted(skips.items(), key=lambda x: -x[1])[:8])},
        'simulated_runs_per_hour': int(stats.get('runs', 0) / h),
        'cases_per_hour': int(done / h),
        'seeds_per_hour': int(done / h),
        'simulated_seconds': round(stats.get('simtime', 0) / 1e9, 6),
        'system_calls_simulated': int(stats.get('ops', 0)),
        'faults_injected': dicts.get('faults', {}),
        'distinct_interleavings': sizes.get('hashes', 0),
        'interleaving_measure': getattr(prop, 'MEASURE', 'distinct sequences (hash) of (process, system call, path, injected action)'),
        'distinct_sets': sizes,
        'counters': {k: v for k, v in nums.items() if k not in ('runs', 'ops', 'simtime')},
        'breakdown': {k: v for k, v in dicts.items() if k != 'faults'},
        'real_components': prop.REAL,
        'stubbed_components': prop.STUB,
        'exhaustive': False,
        'stopped_by': stopped,
        'replay': replay,
    }
    ev = {'property': prop.ID, 'tier': a.tier, 'seed': a.seed, 'level': prop.LEVEL, 'coverage': cov,
          'assumptions': prop.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop.ID + '.json')
    with open(p + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=lambda o: sorted(o) if isinstance(o, set) else str(o))
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    main()
