"""Executes analysis jobs against the real atooms.postprocessing."""
import gc
import importlib
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')


def plain(x):
    """Turn results into plain comparable data (floats stay exact)."""
    import numpy
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, numpy.ndarray):
        return [plain(v) for v in x.tolist()]
    if isinstance(x, (numpy.floating, float)):
        return float(x)
    if isinstance(x, (numpy.integer, int)):
        return float(x)
    if isinstance(x, complex) or isinstance(x, numpy.complexfloating):
        return [float(x.real), float(x.imag)]
    if isinstance(x, dict):
        return {str(plain(k)): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, range)):
        return [plain(v) for v in x]
    return repr(type(x))


def get_class(name):
    import atooms.postprocessing as pp
    if name == 'StressAutocorrelation':
        return importlib.import_module('atooms.postprocessing.sacf').StressAutocorrelation
    return getattr(pp, name)


def capture(obj):
    """grid, value, analysis (and wave-vectors) of a correlation or of partials"""
    if hasattr(obj, 'partial'):
        return {str(k): capture(v) for k, v in obj.partial.items()}
    d = {'grid': plain(obj.grid), 'value': plain(obj.value), 'analysis': plain(getattr(obj, 'analysis', None))}
    if getattr(obj, '_kvectors', None) is not None:
        try:
            d['kvectors'] = plain(obj.kvectors)
        except Exception as e:   # not part of the comparison if it cannot be had
            d['kvectors'] = type(e).__name__
        try:
            d['report'] = obj.report()
        except Exception as e:
            d['report'] = type(e).__name__
    for aux in ('average', 'variance'):
        if hasattr(obj, aux):
            o = getattr(obj, aux)
            d[aux] = {'grid': plain(o.grid), 'value': plain(o.value)}
    return d


HELD = []       # what the caller keeps


def copy_kw(kw):
    import copy
    return copy.deepcopy(kw)


class _Interaction:
    pass


def add_stress(system):
    """A trajectory callback: the virial part of the stress of some interaction"""
    import numpy
    pos = numpy.array([p.position for p in system.particle])
    system.interaction = _Interaction()
    system.interaction.stress = numpy.cos(pos).T.dot(numpy.sin(pos))
    return system


def build(job, th=None, kw=None):
    """Construct the analysis object(s) of a 'cls' job on trajectory th (or path)."""
    import atooms.postprocessing as pp
    from atooms.trajectory import Trajectory
    if th is None:
        th = job['file'] if job.get('bypath') else Trajectory(job['file'])
        if job.get('cache') and not job.get('bypath'):
            th.cache = True
        if job.get('hold'):
            HELD.append(th)
    if job['cls'] == 'StressAutocorrelation' and not any(c is add_stress for c in getattr(th, 'callbacks', [])):
        th.add_callback(add_stress)
    cls = get_class(job['cls'])
    kw = copy_kw(job['kw']) if kw is None else kw
    if job['cls'] == 'Susceptibility':
        kw = dict(kw)
        return pp.Susceptibility(pp.SelfOverlap, th, kw.pop('norigins'), **kw)
    args = [th]
    if job['cls'] == 'SpectralDensity':
        args.append(job.get('radius', job['file']))
    if job['mode'] == 'partial':
        obj = pp.Partial(cls, list(job['species']), *args, **kw)
    else:
        obj = cls(*args, **kw)
        if job['mode'] == 'filter':
            obj = pp.Filter(obj, job['filter'])
    if job.get('weight'):
        w = job['weight']
        wt = None
        if w.get('file'):
            from atooms.trajectory import TrajectoryXYZ
            wt = TrajectoryXYZ(w['file'])
        obj.add_weight(trajectory=wt, field=w['field'], fluctuations=w['fluctuations'])
    if job.get('kvectors') is not None:
        for o in (obj.partial.values() if hasattr(obj, 'partial') else [obj]):
            o.kvectors = job['kvectors']
    if job.get('output_path'):
        obj.output_path = job['output_path']
    if job.get('comments'):
        for o in (obj.partial.values() if hasattr(obj, 'partial') else [obj]):
            o.comments = job['comments']
    return obj


def set_template(tmpl):
    from atooms.postprocessing import core
    if tmpl:
        core.pp_output_path = tmpl


def run(job):
    """Run a job to its end; returns plain data. Exceptions propagate."""
    set_template(job.get('template'))
    if job['t'] == 'api':
        from atooms.postprocessing import api
        kw = copy_kw(job['kw'])
        call_api(getattr(api, job['f']), job['files'], kw)
        return {}
    if job['t'] == 'cli':
        return run_cli(job)
    if job['t'] == 'cls':
        obj = build(job)
        if job.get('hold'):
            HELD.append(obj)
        how = job.get('how', 'do')
        if how == 'do':
            obj.do(update=job.get('update', False))
        elif how == 'call':
            obj() if callable(obj) else obj.do()
        elif how == 'steps':
            obj.compute()
            for o in (obj.partial.values() if hasattr(obj, 'partial') else [obj]):
                o.analyze()
            obj.write()
        out = capture(obj)
        return {'cap': out}
    raise ValueError(job)


def call_api(func, files, kw):
    """Call a batch function over several files: the extra files are *args after all
    the named parameters, so those must be passed by position."""
    import inspect
    sig = inspect.signature(func)
    named = [p for p in sig.parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
    if len(files) == 1:
        return func(files[0], **kw)
    pos = []
    for p in named[1:]:
        pos.append(kw.pop(p.name, p.default))
    return func(files[0], *pos, *files[1:], **kw)


def run_cli(job):
    import runpy
    import logging
    old = sys.argv
    argv = list(job['argv'])
    if job.get('template'):
        argv = ['--output', job['template']] + argv
    sys.argv = ['pp.py'] + argv
    code = 0
    try:
        runpy.run_path(os.path.join(REPO, 'bin/pp.py'), run_name='__main__')
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old
    return {'exit': code}


def open_fds(root):
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(root):
            out.append(p[len(root):])
    return sorted(out)


def node_main(job):
    """What a process node does: run the job, report outcome as plain data."""
    res = {'ok': False, 'exc': None, 'out': None}
    try:
        if job['t'] == 'seq':
            res['out'] = [node_main(j) for j in job['jobs']]
        elif job['t'] == 'threads':
            import inproc
            res['out'] = inproc.run_threads(job)
        elif job['t'] == 'replace':
            # the caller writes another trajectory at the same path
            with open(job['name'], 'w') as fh:
                fh.write(job['text'])
            for f in os.listdir(os.path.dirname(job['name']) or '.'):
                if '.pp.' in f:
                    os.remove(os.path.join(os.path.dirname(job['name']), f))
            res['out'] = {}
        elif job['t'] == 'script':
            import scripts
            res['out'] = getattr(scripts, job['script'])(job)
        else:
            res['out'] = run(job)
        res['ok'] = True
        if job['t'] == 'cli' and res['out']['exit'] != 0:
            res['ok'] = False
            res['exc'] = 'SystemExit(%r)' % res['out']['exit']
    except BaseException as e:
        import traceback
        res['exc'] = type(e).__name__
        res['msg'] = str(e)[:300]
        tb = traceback.extract_tb(e.__traceback__)
        res['where'] = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-6:]
        e.__traceback__ = None
        del e, tb
    return res
