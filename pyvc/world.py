"""Loads a fresh, transformed copy of /repo/polog for every path."""
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import core, ops, stubs, xform

REPO = os.environ.get('VERIF_REPO', '/repo')
CODE = {}
SRC = {}


def load_sources():
    if SRC:
        return
    base = os.path.join(REPO, 'polog')
    for root, dirs, files in os.walk(base):
        dirs[:] = [d for d in dirs if d != '__pycache__' and d != 'tests']
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)[:-3].replace(os.sep, '.')
                pkg = rel.endswith('.__init__')
                if pkg:
                    rel = rel[:-len('.__init__')]
                with open(p, encoding='utf-8') as fh:
                    SRC[rel] = (p, pkg, fh.read())


def code(name):
    if name not in CODE:
        p, pkg, src = SRC[name]
        CODE[name] = xform.transform(src, name, p)
    return CODE[name]


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path, target=None):
        if fullname in SRC:
            spec = importlib.machinery.ModuleSpec(fullname, self, is_package=SRC[fullname][1])
            spec.origin = SRC[fullname][0]
            return spec
        if fullname == 'polog' or fullname.startswith('polog.'):
            d = os.path.join(REPO, *fullname.split('.'))
            if os.path.isdir(d):
                spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
                spec.submodule_search_locations = [d]
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['_pv_'] = WORLD.ops
        module.__file__ = SRC[module.__name__][0]
        exec(code(module.__name__), module.__dict__)


class World:
    def __init__(self, c):
        self.stubs = stubs.Stubs(c)
        self.ops = ops.Ops(self.stubs)


WORLD = None
FINDER = Finder()


def make_world(c):
    global WORLD
    load_sources()
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    for n in [n for n in sys.modules if n == 'polog' or n.startswith('polog.')]:
        del sys.modules[n]
    WORLD = World(c)
    c.world = WORLD
    from .api import SymApi
    c.api = SymApi(c)
