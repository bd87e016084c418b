"""Loads the repository's Python modules, from the current source, against substitutes.

Every module is compiled from the file under REPO at the start of the run and executed
again for every path, in its own namespace whose `import` statement yields the symbolic
numpy/math/dolfin/h5py and silences print.  No bytecode or installed copy is used.
"""
import builtins, os, sys, types, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}


def code_of(name):
    if name not in _code:
        path = os.path.join(REPO, *name.split('.')) + '.py'
        with open(path) as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _code[name] = compile(src, path, 'exec')
    return _code[name]


class Loader:
    def __init__(self, substitutes):
        self.sub = dict(substitutes)
        self.mods = {}
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['print'] = lambda *a, **k: None
        b['float'] = _Float
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in self.sub:
            m = self.sub[name]
            if callable(m) and not isinstance(m, types.ModuleType):
                m = self.sub[name] = m()
            return m
        top = name.split('.')[0]
        if name != top and top in self.sub and not fromlist:
            return self._import(top)
        if os.path.exists(os.path.join(REPO, name + '.py')):
            return self.load(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = os.path.join(REPO, name + '.py')
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        exec(code_of(name), m.__dict__)
        return m


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        from . import engine as E
        return builtins.isinstance(o, (builtins.float, E.SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __call__(cls, v=0.0):
        from . import engine as E
        if builtins.isinstance(v, E.SymReal):
            return v
        if builtins.isinstance(v, E.SymInt):
            return E.SymReal(E.rv(v))
        return builtins.float(v)


class _Float(metaclass=_FloatMeta):
    """`float` as the code under test sees it: the identity on symbolic reals."""
