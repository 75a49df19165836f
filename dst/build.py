"""Builds, from /repo's working tree, what the simulators need: the two f2py
extensions (never the .so files lying in /repo: they may be stale) and the shim.
Results are cached under /verif/.build by the checksum of their sources."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DST_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
PY = '/opt/venv/bin/python'


class BuildError(Exception):
    pass


def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _publish(tmp, dest):
    try:
        os.rename(tmp, dest)
    except OSError:
        if not os.path.isdir(dest):
            raise
        shutil.rmtree(tmp, ignore_errors=True)


def shim():
    src = os.path.join(HERE, 'shim.c')
    dest = os.path.join(BUILD, 'shim-' + _sha(src))
    so = os.path.join(dest, 'shim.so')
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-w', '-fno-delete-null-pointer-checks',
                            '-o', os.path.join(tmp, 'shim.so'), src, '-ldl', '-lpthread'],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        _publish(tmp, dest)
    return so


def start_extension(name):
    src = os.path.join(REPO, 'atooms/postprocessing', name + '.f90')
    if not os.path.exists(src):
        raise BuildError('missing ' + src)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    dest = os.path.join(BUILD, name + '-' + _sha(src))
    so = glob.glob(os.path.join(dest, name + '_wrap*.so'))
    if so:
        return so[0], None
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    os.makedirs(os.path.join(tmp, 'src'))
    shutil.copy(src, os.path.join(tmp, 'src'))
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '')
    log = open(os.path.join(tmp, 'log'), 'w')
    p = subprocess.Popen([PY, '-m', 'numpy.f2py', '-c', '--backend', 'meson', '--build-dir',
                          os.path.join(tmp, 'b'), '-m', name + '_wrap', name + '.f90'],
                         cwd=os.path.join(tmp, 'src'), stdout=log, stderr=subprocess.STDOUT, env=env)

    def finish():
        p.wait()
        log.close()
        so = glob.glob(os.path.join(tmp, 'src', name + '_wrap*.so'))
        if p.returncode or not so:
            raise BuildError(open(os.path.join(tmp, 'log')).read()[-3000:])
        out = tempfile.mkdtemp(dir=BUILD)
        shutil.copy(so[0], out)
        final = os.path.join(dest, os.path.basename(so[0]))
        _publish(out, dest)
        shutil.rmtree(tmp, ignore_errors=True)
        return final
    return None, finish


def build_all():
    """Return {'shim': path, 'realspace': path, 'fourierspace': path}"""
    out = {}
    pending = {}
    for name in ('realspace', 'fourierspace'):
        so, fin = start_extension(name)
        if so:
            out[name] = so
        else:
            pending[name] = fin
    out['shim'] = shim()
    for name, fin in pending.items():
        out[name] = fin()
    return out


if __name__ == '__main__':
    print(build_all())
