"""Executes the tenkit sources of /repo with the library boundary replaced.  Every symbolic path gets fresh modules."""
import ast
import builtins
import importlib
import math
import os
import sys
import types
import numpy as np
from . import npshim, h5fake, sym
from .sym import Sym, SymInt, Poison, Unsupported, lift

ROOT = os.environ.get('TENKIT_SRC', '/repo/src')


class _Calls(ast.NodeTransformer):
    """float(x), int(x), isinstance(x, t) of symbolic values"""
    MAP = {'float': '_tk_float_', 'int': '_tk_int_', 'isinstance': '_tk_isinstance_', 'complex': '_tk_complex_'}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.MAP:
            node.func = ast.copy_location(ast.Name(self.MAP[node.func.id], ast.Load()), node.func)
        return node

    def visit_Raise(self, node):
        """the text of an error message must not pin down symbolic values"""
        self.generic_visit(node)
        for n in ast.walk(node):
            if isinstance(n, ast.FormattedValue):
                n.value = ast.copy_location(ast.Call(ast.Name('_tk_msg_', ast.Load()), [n.value], []), n.value)
                ast.fix_missing_locations(n)
        return node


class _Msg(str):
    def __format__(self, spec):
        return str(self)


def _tk_msg(x):
    return _Msg('<symbolic>') if isinstance(x, (Sym, SymInt, Poison)) else x


def _tk_float(x=0.0):
    if isinstance(x, (Sym, Poison)):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return _tk_float(x.reshape(-1)[0])
    if isinstance(x, SymInt):
        return x if npshim.floatmode() else x.to_sym()
    return float(x)


def _tk_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return _tk_int(x.reshape(-1)[0])
    if isinstance(x, Sym) and not x.is_const():
        raise Unsupported('int() of a real symbol')
    return int(x, *a)


def _tk_isinstance(x, t):
    if isinstance(x, t):
        return True
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SymInt):
        return int in ts
    if isinstance(x, (Sym, Poison)):
        return float in ts or np.floating in ts or np.number in ts
    return False


class Sources:
    def __init__(self, root=ROOT):
        self.root = root
        self.code = {}

    def find(self, name):
        rel = name.replace('.', '/')
        for path, pkg in ((os.path.join(self.root, rel, '__init__.py'), True), (os.path.join(self.root, rel + '.py'), False)):
            if os.path.isfile(path):
                return path, pkg
        return None

    def get(self, name):
        if name not in self.code:
            f = self.find(name)
            if f is None:
                self.code[name] = None
            else:
                path, pkg = f
                with open(path, encoding='utf-8', newline=None) as h:
                    src = h.read()
                tree = _Calls().visit(ast.parse(src, path))
                ast.fix_missing_locations(tree)
                self.code[name] = (compile(tree, path, 'exec', dont_inherit=True), path, pkg)
        return self.code[name]


SOURCES = Sources()


def _math():
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'):
            setattr(m, n, getattr(math, n))

    def guard(name, f):
        real = getattr(math, name)

        def g(*a, **k):
            if any(isinstance(x, (Sym, Poison)) for x in a):
                return f(*a, **k)
            return real(*a, **k)
        return g
    m.sqrt = guard('sqrt', lambda x: sym.sqrt(x))
    m.fabs = guard('fabs', lambda x: abs(x))
    m.isnan = lambda x: isinstance(x, Poison) or (not isinstance(x, (Sym, SymInt)) and math.isnan(x))
    m.isfinite = lambda x: isinstance(x, (Sym, SymInt)) or (not isinstance(x, Poison) and math.isfinite(x))
    m.isinf = lambda x: not isinstance(x, (Sym, SymInt, Poison)) and math.isinf(x)
    m.isclose = guard('isclose', lambda a, b, **k: npshim.isclose(a, b))
    return m


MATH = _math()


class World:
    """one set of freshly executed tenkit modules"""

    def __init__(self, fs=None):
        self.modules = {}
        self.h5py, self.pathlib, self.fs, self.os = h5fake.make(fs)
        ext = {'numpy': npshim.NP, 'numpy.linalg': npshim.LINALG, 'numpy.random': npshim.RANDOM,
               'scipy': npshim.SCIPY, 'scipy.optimize': npshim.SOPT, 'scipy.linalg': npshim.SLIN,
               'h5py': self.h5py, 'pathlib': self.pathlib, 'math': MATH}
        self.ext = ext
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: None
        b['_tk_msg_'] = _tk_msg
        b['_tk_float_'] = _tk_float
        b['_tk_int_'] = _tk_int
        b['_tk_isinstance_'] = _tk_isinstance
        b['_tk_complex_'] = complex
        self.builtins = b

    def _load(self, name):
        if name in self.modules:
            return self.modules[name]
        c = SOURCES.get(name)
        if c is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if '.' in name:
            self._load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        code, path, pkg = c
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.modules[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == 'tenkit' or name.startswith('tenkit.'):
            m = self._load(name)
            if not fromlist:
                return self._load(name.split('.')[0])
            for f in fromlist:
                names = [f]
                if f != '*' and not hasattr(m, f) and SOURCES.find(name + '.' + f):
                    self._load(name + '.' + f)
            return m
        if name in self.ext:
            if fromlist or '.' not in name:
                return self.ext[name]
            return self.ext[name.split('.')[0]]
        if name.split('.')[0] in ('numpy', 'scipy', 'h5py'):
            if name.split('.')[0] == 'numpy':
                return importlib.import_module(name) if fromlist else self.ext['numpy']
            raise Unsupported('import of %s' % name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def get(self, name):
        return self._load(name)
