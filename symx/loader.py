"""Loads /repo's current source twice: once rewritten for symbolic execution
(module facades, a few builtins), once untouched for concrete replay."""
import ast
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import npfacade as NF
from . import rand as R

REPO = os.environ.get('STOQ_REPO', '/repo')
PKG = 'stoqcompiler'


class _Rewrite(ast.NodeTransformer):
    def __init__(self, shadow):
        self.shadow = shadow

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NF.BUILTINS \
                and node.func.id not in self.shadow:
            node.func = ast.copy_location(
                ast.Name('symx__' + node.func.id, ast.Load()), node.func)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in NF.MODULES:
        if fromlist:
            return NF.MODULES[name]
        return NF.MODULES[name.split('.')[0]]
    if level == 0 and name.split('.')[0] in ('numpy', 'scipy'):
        if name.startswith('numpy') and fromlist:
            return importlib.import_module(name)
        if name.startswith('numpy'):
            return NF.NP
        if name.startswith('scipy'):
            return NF.SP
    return builtins.__import__(name, globals, locals, fromlist, level)


def _builtins():
    d = dict(vars(builtins))
    d['__import__'] = _import
    return d


class _Finder:
    """meta path finder active only while the symbolic set is being loaded"""

    def __init__(self, files):
        self.files = files

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, self, origin=f,
                                                  is_package=True)
            spec.submodule_search_locations = [base]
        else:
            f = base + '.py'
            if not os.path.exists(f):
                return None
            spec = importlib.machinery.ModuleSpec(name, self, origin=f)
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f, encoding='utf-8') as h:
            src = h.read()
        self.files.append(f)
        tree = ast.parse(src, f)
        shadow = {n.name for n in ast.walk(tree)
                  if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        tree = ast.fix_missing_locations(_Rewrite(shadow).visit(tree))
        module.__dict__['__builtins__'] = _builtins()
        for k, v in NF.BUILTINS.items():
            module.__dict__['symx__' + k] = v
        exec(compile(tree, f, 'exec'), module.__dict__)


class _State:
    """what the package keeps between calls: module and class attributes,
    default arguments, function attributes, containers and memoised results"""

    def __init__(self, mods):
        self.spaces, self.boxes, self.caches, self.seen = [], [], [], set()
        self.names = set(mods)
        for m in mods.values():
            self.space(m, vars(m))

    def space(self, owner, d):
        d = {k: v for k, v in d.items() if not (
            k.startswith('__') and k.endswith('__'))}
        self.spaces.append((owner, d))
        for v in d.values():
            self.value(v)

    def value(self, v):
        if id(v) in self.seen or isinstance(v, types.ModuleType) or \
                type(v).__module__ == NF.__name__:
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                self.value(f)
            return
        self.seen.add(id(v))
        if callable(getattr(v, 'cache_clear', None)):
            self.caches.append(v)
        own = getattr(v, '__module__', None) in self.names
        if isinstance(v, type):
            if own:
                self.space(v, dict(vars(v)))
        elif isinstance(v, types.FunctionType):
            if own:
                for x in list(v.__defaults__ or ()) + list(
                        (v.__kwdefaults__ or {}).values()):
                    self.value(x)
                self.box(v.__dict__)
                for c in v.__closure__ or ():
                    try:
                        self.value(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(v, (list, dict, set, np.ndarray)):
            self.box(v)
        elif isinstance(v, tuple):
            for x in v:
                self.value(x)
        elif type(v).__module__ in self.names and hasattr(v, '__dict__'):
            self.box(v.__dict__)

    def box(self, v):
        self.boxes.append((v, v.copy()))
        if isinstance(v, np.ndarray):
            return
        for x in list(v.values()) if isinstance(v, dict) else list(v):
            self.value(x)

    def restore(self):
        for c in self.caches:
            c.cache_clear()
        for owner, d in self.spaces:
            now = vars(owner)
            for k in [k for k in now if k not in d and not (
                    k.startswith('__') and k.endswith('__'))]:
                delattr(owner, k)
            for k, v in d.items():
                if now.get(k, now) is not v:
                    setattr(owner, k, v)
        for v, c in self.boxes:
            if isinstance(v, np.ndarray):
                if v.flags.writeable:
                    v[...] = c
            elif isinstance(v, list):
                v[:] = c
            else:
                if len(v) != len(c) or any(k not in v for k in c) or \
                        isinstance(v, dict):
                    v.clear()
                    v.update(c)


SUBS = ['unitary', 'compiler', 'hamiltonian', 'verification']


class Modules:
    """the public classes of one copy of the package"""

    def __init__(self, mods):
        self.mods = mods
        for s in SUBS:
            m = mods[PKG + '.' + s]
            for n in getattr(m, '__all__', dir(m)):
                if not n.startswith('_'):
                    setattr(self, n, getattr(m, n))
        self.state = _State(mods)

    def fresh(self):
        """hidden state of the package as it was after loading"""
        self.state.restore()

    def activate(self):
        self.state.restore()
        for k in [k for k in sys.modules
                  if k == PKG or k.startswith(PKG + '.')]:
            del sys.modules[k]
        sys.modules.update(self.mods)


def _collect():
    return {k: v for k, v in sys.modules.items()
            if k == PKG or k.startswith(PKG + '.')}


def _purge():
    for k in list(_collect()):
        del sys.modules[k]


FILES = []


def load_symbolic():
    _purge()
    fnd = _Finder(FILES)
    sys.meta_path.insert(0, fnd)
    try:
        importlib.import_module(PKG)
        for s in SUBS:
            importlib.import_module(PKG + '.' + s)
        mods = _collect()
    finally:
        sys.meta_path.remove(fnd)
        _purge()
    return Modules(mods)


def load_concrete():
    _purge()
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    try:
        with R.Installed():
            importlib.import_module(PKG)
            for s in SUBS:
                importlib.import_module(PKG + '.' + s)
        mods = _collect()
        for m in mods.values():
            f = getattr(m, '__file__', None)
            assert f is None or os.path.realpath(f).startswith(
                os.path.realpath(REPO)), f
    finally:
        sys.path.remove(REPO)
        _purge()
    return Modules(mods)
