"""What a harness sees: the same harness runs symbolically (SymKit) and concretely (ConcKit).

A harness takes a kit k, builds objects of the repository with k.repo('Module'), obtains
inputs with k.real/k.int/k.choice, and states the property with k.check.
"""
import math, types
try:
    import z3
except ImportError:          # concrete replay needs no solver
    z3 = None


class Skip(Exception):
    """Concrete replay: an assumption of the harness does not hold for these values."""


class Failed(Exception):
    """Concrete replay: the property failed."""


class SymKit:
    symbolic = True

    def __init__(self, engine, cpp=None):
        from . import engine as E, npshim, dolfinstub, h5stub, loader
        self.E, self.e = E, engine
        self.np = npshim.make()
        self.math = npshim.make_math()
        self.df = dolfinstub.make()
        self.files = {}
        self.stub = dolfinstub
        self.npshim = npshim

        class _Plt(types.ModuleType):
            def __getattr__(s, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return lambda *a, **k: _Plt('x')
        mpl = _Plt('matplotlib')
        mpl.pyplot = _Plt('matplotlib.pyplot')
        subs = {'numpy': self.np, 'numpy.random': self.np.random, 'numpy.linalg': self.np.linalg, 'math': self.math,
                'dolfin': self.df, 'h5py': h5stub.make(self.files), 'matplotlib': mpl,
                'matplotlib.pyplot': mpl.pyplot}
        if cpp:
            subs.update(cpp(self))
        self.loader = loader.Loader(subs)

    def repo(self, name):
        return self.loader.load(name)

    def cpp(self, name):
        """A compiled module of the repository."""
        return self.loader._import(name)

    # -- inputs
    def real(self, name, lo=None, hi=None):
        v = self.e.real(name)
        if lo is not None:
            self.e.assume(v >= lo)
        if hi is not None:
            self.e.assume(v <= hi)
        return v

    def identical(self, a, b):
        """Whether two numbers are the same for every value of the inputs on this path."""
        c = self.eq(a, b)
        return c is TRUE or self.e._query(self.E.z3.Not(c.t)) == self.E.z3.unsat

    def limit_draws(self, n):
        """Bound: paths that draw more random numbers are not explored."""
        self.e.max_draws = n

    def gauss(self):
        """The standard normal numbers drawn so far."""
        return [self.e.real(n) for n in self.e.draws if n.startswith('gauss')]

    def const(self, v):
        return self.E.SymReal(self.E.rv(v))

    def frac(self, a, b):
        return self.E.SymReal(self.E.rv(self.E.Fraction(a, b)))

    def int(self, name, lo=None, hi=None):
        return self.e.int(name, lo, hi)

    def choice(self, name, n):
        return self.e.choice(name, n)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    # -- logic
    def assume(self, c):
        self.e.assume(c)

    def assume_c(self, c):
        """Assume a condition built with the methods below."""
        self.e.assume(self.E.SymBool(self._c(c).t))

    def eq(self, a, b):
        E = self.E
        a, b = self.npshim.clean(a), self.npshim.clean(b)
        if a is None or b is None:
            return Cond(E.z3.BoolVal(a is b), None)
        if isinstance(a, str) or isinstance(b, str):
            return Cond(E.z3.BoolVal(a == b), None)
        if a is b or (not hasattr(a, 't') and not hasattr(b, 't') and a == b):
            return TRUE
        d = self._diff(a, b)
        c = self.e.compare0(d, 'eq')
        if c is True:
            return TRUE
        if c is False:
            return Cond(E.z3.BoolVal(False), None)
        return Cond(c.t, lambda: E.z3.Or(self._b(d > 0.01), self._b(d < -0.01)), self._ev(c))

    def _ev(self, c):
        """Evaluation of a comparison in the engine's remembered model."""
        if isinstance(c, bool):
            return lambda: c
        return None if c.cmp is None else (lambda: self.e.holds(*c.cmp))

    def _b(self, c):
        return self.E.bv(c)

    def _diff(self, a, b):
        E = self.E
        if not isinstance(a, E.SymReal):
            a = E.SymReal(E.rv(a))
        return a - b

    def le(self, a, b):
        E = self.E
        a, b = self.npshim.clean(a), self.npshim.clean(b)
        if not hasattr(a, 't') and not hasattr(b, 't') and a <= b:
            return TRUE
        d = self._diff(a, b)
        c = d <= 0
        return Cond(self._b(c), lambda: self._b(d > 0.01), self._ev(c))

    def ge(self, a, b):
        return self.le(b, a)

    def true(self, c):
        if c is True:
            return TRUE
        return Cond(self.E.bv(c), None, self._ev(c) if isinstance(c, (bool, self.E.SymBool)) else None)

    def all(self, cs):
        cs = [c for c in map(self._c, cs) if c is not TRUE]
        if not cs:
            return TRUE
        if len(cs) == 1:
            return cs[0]
        z = self.E.z3
        return Cond(z.And([c.t for c in cs]), lambda: z.Or([c.neg() for c in cs]),
                    (lambda: all(c.ev() for c in cs)) if all(c.ev for c in cs) else None)

    def any(self, cs):
        cs = [self._c(c) for c in cs]
        z = self.E.z3
        return Cond(z.Or([c.t for c in cs]), lambda: z.And([c.neg() for c in cs]),
                    (lambda: any(c.ev() for c in cs)) if all(c.ev for c in cs) else None)

    def implies(self, a, b):
        z = self.E.z3
        a, b = self._c(a), self._c(b)
        return Cond(z.Implies(a.t, b.t), lambda: z.And(a.t, b.neg()), (lambda: not a.ev() or b.ev()) if a.ev and b.ev else None)

    def _c(self, c):
        return c if isinstance(c, Cond) else self.true(c)

    def check(self, c, msg):
        c = self._c(c)
        if c is TRUE:
            self.e.st.checks += 1
            self.e.st.trivial += 1
            return
        self.e.check(self.E.SymBool(c.t), msg, c.n)

    def fail(self, msg):
        self.e.st.checks += 1
        self.e.violation(msg)

    def is_true(self, c):
        """Decide (by forking) whether c holds on this path."""
        c = self._c(c)
        if c is TRUE:
            return True
        return self.e.fork(c.t, c.ev)

    def reach(self, label):
        self.e.reach(label)

    def min(self, a, b):
        return a if a <= b else b

    # -- geometry
    def mesh(self, coords, cells):
        return self.df.Mesh(coords, cells)

    def inside(self, mesh, cell, x):
        """Condition: point x lies in the closed cell (independent of the code under test)."""
        E = self.E
        pts = [[self.stub._exact(c) for c in mesh.xs[v]] for v in mesh.cs[cell]]
        x = [self.npshim.clean(q) for q in x]
        if mesh.tdim == 1:
            lo, hi = sorted([p[0] for p in pts])
            return self.all([self.ge(x[0], lo), self.le(x[0], hi)])
        nums, D = self.stub.bary_nums(pts, x)
        s = 1 if D > 0 else -1
        return self.all([self.ge(n * s, 0) for n in nums])


class Cond:
    """A condition: its term, a stronger negation that survives rounding, and its evaluation."""

    def __init__(self, t, n, ev=None):
        self.t, self.n, self.ev = t, n, ev

    def neg(self):
        return self.n() if self.n is not None else z3.Not(self.t)


TRUE = z3 and Cond(z3.BoolVal(True), lambda: z3.BoolVal(False), lambda: True)


class ConcKit:
    """Concrete replay against the real numpy/dolfin and the repository as it is."""
    symbolic = False
    TOL = 1e-7

    def __init__(self, values, draws=()):
        import numpy
        self.np = numpy
        self.values = values
        self.failures = []
        self.reached = {}
        free = numpy.random.RandomState(1) if draws == 'free' else None
        q = [] if free else list(draws)
        self.drawn = []

        self.normals = []

        def nxt(normal=False, lo=0.0, hi=1.0):
            v = q.pop(0) if q else None
            if free:
                if len(self.drawn) > 20000:
                    raise Failed('the code goes on drawing random numbers')
                v = free.normal() if normal else free.uniform(lo, hi)
            v = 0.03125 if v is None else float(v)
            self.drawn.append(v)
            if normal:
                self.normals.append(v)
            return v

        def many(f, size):
            if size is None:
                return f()
            n = int(numpy.prod(size))
            return numpy.array([f() for _ in range(n)]).reshape(size)
        r = numpy.random
        r.uniform = lambda low=0.0, high=1.0, size=None: many(lambda: nxt(False, low, high), size)
        r.ranf = r.sample = lambda size=None: many(nxt, size)
        r.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * many(lambda: nxt(True), size)
        r.rand = lambda *s: many(nxt, s or None)
        r.random = lambda size=None: many(nxt, size)
        r.randn = lambda *s: many(lambda: nxt(True), s or None)
        r.standard_normal = lambda size=None: many(lambda: nxt(True), size)
        r.random_sample = r.random
        import types as _t
        r.default_rng = r.RandomState = lambda *a: _t.SimpleNamespace(uniform=r.uniform, normal=r.normal, random=r.random, standard_normal=r.standard_normal)

    def repo(self, name):
        import importlib
        return importlib.import_module(name)

    cpp = repo

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = 0.0 if lo is None else lo
        return float(v)

    def limit_draws(self, n):
        pass

    def gauss(self):
        return list(self.normals)

    def const(self, v):
        return float(v)

    def frac(self, a, b):
        return a / b

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name)
        return int(v if v is not None else (lo or 0))

    def choice(self, name, n):
        return self.int(name, 0, n - 1)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def assume(self, c):
        if not c:
            raise Skip()

    def assume_c(self, c):
        if not c:
            raise Skip()

    def _f(self, a):
        if a is None or isinstance(a, str):
            return a
        a = self.np.asarray(a)
        return float(a.reshape(-1)[0]) if a.size == 1 else a

    def eq(self, a, b):
        a, b = self._f(a), self._f(b)
        if a is None or b is None or isinstance(a, str):
            return a == b
        if math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= self.TOL * (1 + abs(a) + abs(b))

    def le(self, a, b):
        a, b = self._f(a), self._f(b)
        return a <= b + self.TOL * (1 + abs(a) + abs(b))

    def ge(self, a, b):
        return self.le(b, a)

    def true(self, c):
        return bool(c)

    def all(self, cs):
        return all([bool(c) for c in cs])

    def any(self, cs):
        return any([bool(c) for c in cs])

    def implies(self, a, b):
        return (not a) or bool(b)

    def check(self, c, msg):
        if not c:
            raise Failed(msg)

    def fail(self, msg):
        raise Failed(msg)

    def is_true(self, c):
        return bool(c)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def min(self, a, b):
        return min(a, b)

    def mesh(self, coords, cells):
        import dolfin as df
        t = len(cells[0]) - 1
        g = len(coords[0])
        m = df.Mesh()
        ed = df.MeshEditor()
        ed.open(m, {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[t], t, g)
        ed.init_vertices(len(coords))
        ed.init_cells(len(cells))
        for i, p in enumerate(coords):
            ed.add_vertex(i, self.np.array([float(x) for x in p]))
        for i, c in enumerate(cells):
            ed.add_cell(i, self.np.array(sorted(c), dtype=self.np.uintp))
        ed.close()
        m.init()
        m.order()
        return m

    def inside(self, mesh, cell, x):
        pts = [[float(c) for c in mesh.coordinates()[v]] for v in mesh.cells()[cell]]
        x = [self._f(q) for q in x]
        g = len(pts[0])
        A = self.np.array([[pts[i + 1][k] - pts[0][k] for i in range(g)] for k in range(g)])
        b = self.np.linalg.solve(A, self.np.array([x[k] - pts[0][k] for k in range(g)]))
        bary = [1 - sum(b)] + list(b)
        return all(q >= -self.TOL * 10 for q in bary)

    @property
    def df(self):
        import dolfin
        return dolfin

    @property
    def files(self):
        return _H5Files()


class _H5Files:
    """Reads files that the code under test wrote in the current directory."""

    def __getitem__(self, name):
        import h5py
        return _H5(h5py.File(name, 'r'))

    def __contains__(self, name):
        import os
        return os.path.exists(name)

    def __iter__(self):
        import os
        return iter(sorted(n for n in os.listdir('.') if n.endswith('.h5part')))


class _H5:
    def __init__(self, g):
        self.g = g

    @property
    def attrs(self):
        return dict(self.g.attrs)

    @property
    def groups(self):
        return {k: _H5(v) for k, v in self.g.items() if hasattr(v, 'keys')}

    @property
    def data(self):
        import numpy
        out = {}
        for k, v in self.g.items():
            if not hasattr(v, 'keys'):
                d = v[()]
                out[k] = list(d) if isinstance(d, numpy.ndarray) and d.ndim else d
        return out
