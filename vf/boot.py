"""Make zope.index of /repo's working tree importable, with its C extension
compiled from that tree into a scratch directory (never into /repo)."""
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = os.path.join(SRC, 'zope', 'index')
OKASCORE_C = os.path.join(PKG, 'text', 'okascore.c')


class BuildError(Exception):
    pass


_scratch = None
_owner = None


def scratch():
    """A private directory, removed at exit of the process that made it."""
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
        _owner = os.getpid()
        import atexit
        atexit.register(cleanup)
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def compile_okascore(outdir, flags=('-O2',), cc='gcc'):
    so = os.path.join(outdir, 'okascore' + sysconfig.get_config_var('EXT_SUFFIX'))
    inc = sysconfig.get_paths()['include']
    if not os.path.exists(os.path.join(inc, 'Python.h')):
        inc = '/usr/include/python%d.%d' % sys.version_info[:2]
    cmd = [cc, '-shared', '-fPIC', '-g', '-fwrapv', '-DNDEBUG', *flags,
           '-I' + inc, '-o', so, OKASCORE_C]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('cannot compile okascore.c:\n' + r.stderr[-2000:])
    return so


def use_repo():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import zope
    p = os.path.join(SRC, 'zope')
    if p not in list(zope.__path__):
        zope.__path__ = [p] + list(zope.__path__)
    import zope.index
    got = os.path.realpath(zope.index.__file__)
    want = os.path.realpath(os.path.join(PKG, '__init__.py'))
    if got != want:
        raise BuildError(f'zope.index imported from {got}, not {want}')


def load_okascore(so):
    """Preload the extension module so okapiindex picks exactly this build.
    (Importing zope.index.text imports okapiindex.)"""
    name = 'zope.index.text.okascore'
    if 'zope.index.text' in sys.modules:
        raise BuildError('zope.index.text was imported before its extension')
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod
    import zope.index.text
    zope.index.text.okascore = mod
    import zope.index.text.okapiindex  # noqa
    if sys.modules[name] is not mod:
        raise BuildError('the extension built here was replaced')
    return mod


def boot(native=True):
    """native: use the compiled scorer; otherwise score in pure Python (with
    the C implementations of BTrees in both cases)."""
    import BTrees  # noqa: with PURE_PYTHON as the environment says
    import BTrees.IFBTree  # noqa
    import BTrees.LFBTree  # noqa
    import BTrees.Length  # noqa
    import persistent  # noqa
    use_repo()
    if native:
        load_okascore(os.environ.get('VF_SO') or compile_okascore(scratch()))
    else:
        os.environ['PURE_PYTHON'] = '1'
    import zope.index.text.okapiindex  # noqa
