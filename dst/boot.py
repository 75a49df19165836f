"""Import atooms.postprocessing from /repo's working tree with freshly built extensions."""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
PKG = 'atooms.postprocessing'
BLOCK = set()   # modules whose import must fail (import faults)


class _Finder:
    """Serves the two extensions from the build cache and blocks modules on demand."""

    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, name, path=None, target=None):
        for b in BLOCK:
            if name == b or name.startswith(b + '.'):
                raise ImportError('No module named %r (import fault)' % name, name=name)
        if name in self.paths:
            loader = importlib.machinery.ExtensionFileLoader(name, self.paths[name])
            return importlib.util.spec_from_file_location(name, self.paths[name], loader=loader)
        return None


def install(built):
    paths = {PKG + '.realspace_wrap': built['realspace'], PKG + '.fourierspace_wrap': built['fourierspace']}
    sys.meta_path.insert(0, _Finder(paths))
    if REPO != '/repo':
        sys.path[:] = [REPO] + [p for p in sys.path if os.path.realpath(p) != '/repo']


def coverage():
    """With DST_COV=<file>, record the lines of the package that ever run, in all the processes,
    in a shared mapping (no system calls); see tools/coverage.py"""
    path = os.environ.get('DST_COV')
    if not path:
        return
    import mmap
    root = os.path.join(os.path.realpath(REPO), 'atooms', 'postprocessing') + os.sep
    names = sorted(x for x in os.listdir(root) if x.endswith('.py'))
    with open(path, 'a+b') as fh:
        fh.truncate(len(names) * 4096)
        m = mmap.mmap(fh.fileno(), len(names) * 4096)
    where = {os.path.join(root, x): i * 4096 for i, x in enumerate(names)}
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, 'dst')

    def line(code, n):
        base = where.get(os.path.realpath(code.co_filename))
        if base is not None and n < 4096:
            m[base + n] = 1
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def load(built, everything=True):
    coverage()
    import inproc
    inproc.install_locks()
    install(built)
    sys.dont_write_bytecode = True
    import numpy  # noqa
    import atooms.trajectory  # noqa
    # The package is imported in a directory of its own: whatever it may write relative to it
    # stays out of the way
    import atexit
    import shutil
    import world
    cwd, me = os.getcwd(), os.getpid()
    home = os.path.join(world.scratch_base(), 'dst-%s-home' % (os.environ.get('DST_WORLD_TAG') or me))
    os.makedirs(home, exist_ok=True)
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(home, True))
    os.chdir(home)
    try:
        pp = package(built, everything)
    finally:
        os.chdir(cwd)
    return pp


def package(built, everything):
    import atooms.postprocessing as pp
    # The monitor thread of tqdm only redraws bars; it would be a second thread in every
    # node, outside the control of the scheduler
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    assert os.path.realpath(os.path.dirname(pp.__file__)) == os.path.realpath(os.path.join(REPO, 'atooms/postprocessing')), pp.__file__
    if everything:
        import pkgutil
        for m in pkgutil.iter_modules(pp.__path__):
            if not m.name.endswith('_wrap'):
                importlib.import_module(PKG + '.' + m.name)
        importlib.import_module(PKG + '.realspace_wrap')
        importlib.import_module(PKG + '.fourierspace_wrap')
        assert sys.modules[PKG + '.realspace_wrap'].__file__ == built['realspace']
        # modules that are imported lazily inside functions
        import argh, argparse, tempfile, shutil, uuid, secrets, tqdm, runpy, datetime, textwrap  # noqa
    return pp
