"""Copies of the Okapi module: with the compiled scorer, with PURE_PYTHON set,
and as if the extension had never been built."""
import importlib.util
import os
import sys

from vf import boot

_loaded = {}
CALLS = [0]


def okapi_class(variant):
    if variant not in _loaded:
        name = 'vf_okapi_' + variant
        spec = importlib.util.spec_from_file_location(
            name, os.path.join(boot.PKG, 'text', 'okapiindex.py'))
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        ext = 'zope.index.text.okascore'
        import zope.index.text as pkg
        saved, attr = sys.modules.get(ext), getattr(pkg, 'okascore', None)
        env = os.environ.get('PURE_PYTHON')
        try:
            if variant == 'missing':
                sys.modules[ext] = None
                if hasattr(pkg, 'okascore'):
                    del pkg.okascore
            elif variant == 'pure':
                os.environ['PURE_PYTHON'] = '1'
            elif variant == 'counted':
                sys.modules[ext] = pkg.okascore = Counted(saved)
            spec.loader.exec_module(mod)
        finally:
            sys.modules[ext] = saved
            if attr is not None:
                pkg.okascore = attr
            if env is None:
                os.environ.pop('PURE_PYTHON', None)
            else:
                os.environ['PURE_PYTHON'] = env
        _loaded[variant] = mod.OkapiIndex
    return _loaded[variant]


class Counted:
    """The extension module with its function calls counted."""

    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if callable(v):
            def call(*args):
                CALLS[0] += 1
                return v(*args)
            return call
        return v
