"""Modules of the package are loaded as a bare interpreter would load them:
collections.abc is there only once somebody imports it, however many libraries
of this process have done so before."""
import collections
import contextlib
import importlib.machinery
import sys

PKG = 'concept_formation'


@contextlib.contextmanager
def bare():
    had = 'abc' in collections.__dict__
    abc = collections.__dict__.pop('abc', None)
    mod = sys.modules.pop('collections.abc', None)
    try:
        yield
    finally:
        if had:
            collections.abc = abc
        if mod is not None:
            sys.modules['collections.abc'] = mod


class Finder(object):
    """For the unmodified code: wraps the loaders of the package's modules."""

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        s = importlib.machinery.PathFinder.find_spec(name, path, target)
        if s is None or s.loader is None:
            return s
        run = s.loader.exec_module

        def exec_module(module):
            with bare():
                run(module)
        s.loader.exec_module = exec_module
        return s


def install():
    sys.meta_path.insert(0, Finder())
