"""Stands in for the plotting library, which is not installed here: anything can be imported and called."""
import importlib.abc
import importlib.machinery
import sys
import types


class Anything:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()


class Module(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.startswith('bokeh.'):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return Module(spec.name)

    def exec_module(self, module):
        pass


sys.meta_path.append(Finder())
