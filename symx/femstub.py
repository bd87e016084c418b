"""Variational forms of linear elements, assembled exactly: the part of dolfin/UFL that field solvers use.

Integrands are polynomials in the barycentric coordinates of a cell, whose coefficients are
rationals or symbolic reals, so integrals over a cell are exact."""
import ast
from fractions import Fraction
from math import factorial

import numpy as np

from . import engine as E
from .npshim import SymArr
from . import dolfinstub as D


def const(v):
    """Fraction of anything known, else the symbolic real."""
    if isinstance(v, E.SymReal):
        return Fraction(E.PL.cval(v.num)) if E.PL.is_const(v.num) and not v.den else v
    return E.to_fraction(v)


def out(v):
    return D._out(v) if isinstance(v, Fraction) else v


class Poly:
    """{exponents of the barycentric coordinates: coefficient}"""

    def __init__(self, t):
        self.t = {e: c for e, c in t.items() if not (isinstance(c, Fraction) and c == 0)}

    def __add__(self, o):
        t = dict(self.t)
        for e, c in o.t.items():
            t[e] = t[e] + c if e in t else c
        return Poly(t)

    def __mul__(self, o):
        t = {}
        for e, c in self.t.items():
            for f, d in o.t.items():
                g = tuple(a + b for a, b in zip(e, f))
                t[g] = t[g] + c * d if g in t else c * d
        return Poly(t)

    def integral(self, vol):
        s = Fraction(0)
        for e, c in self.t.items():
            d = len(e) - 1
            q = Fraction(factorial(d))
            for a in e:
                q *= factorial(a)
            s = s + c * (q / factorial(d + sum(e)) * vol)
        return s


class CellGeo:
    """One cell: vertices, volume, gradients of the barycentric coordinates."""

    def __init__(self, mesh, c):
        self.mesh, self.c = mesh, c
        self.pts = [[const(q) for q in mesh.xs[v][:mesh.gdim]] for v in mesh.cs[c]]
        self.n = len(self.pts)
        if mesh.gdim != mesh.tdim:
            raise E.Unsupported('forms on manifolds')
        det = D.simplex_det(self.pts)
        if isinstance(det, E.SymReal):
            raise E.Unsupported('forms on cells with symbolic vertices')
        self.det = Fraction(det)
        self.vol = abs(self.det) / factorial(self.n - 1)
        self.zero = tuple([0] * self.n)
        # barycentric coordinate i as an affine function: value at the origin and at the unit vectors
        org = [Fraction(0)] * mesh.gdim
        at0 = self.bary(org)
        self.grads = [[] for _ in range(self.n)]
        for d in range(mesh.gdim):
            e = list(org)
            e[d] = Fraction(1)
            b = self.bary(e)
            for i in range(self.n):
                self.grads[i].append(b[i] - at0[i])

    def bary(self, p):
        nums, det = D.bary_nums(self.pts, p)
        return [Fraction(q) / Fraction(det) for q in nums]

    def lam(self, i, c=Fraction(1)):
        e = [0] * self.n
        e[i] = 1
        return Poly({tuple(e): c})

    def k(self, c):
        return Poly({self.zero: const(c)})


class Ex:
    """An integrand: shape () or (d,); rank = arguments contained; ev(cell, {0: test dof, 1: trial dof}) -> Poly or list of Polys."""

    def __init__(self, ev, shape=(), args=frozenset(), mesh=None, spaces=None):
        self.ev, self.shape, self.args, self.mesh, self.spaces = ev, shape, frozenset(args), mesh, dict(spaces or {})

    def _join(self, o, ev, shape):
        if self.args & o.args:
            raise E.Unsupported('form is not linear in its arguments')
        return Ex(ev, shape, self.args | o.args, self.mesh or o.mesh, {**self.spaces, **o.spaces})

    def __mul__(self, o):
        if isinstance(o, Measure):
            if self.shape:
                raise TypeError('can only integrate scalar expressions')
            return Form([self])
        o = wrap(o)
        if self.shape and o.shape:
            raise TypeError('vectors cannot be multiplied')
        if self.shape:
            return o * self
        if o.shape:
            return self._join(o, lambda g, a: [self.ev(g, a) * q for q in o.ev(g, a)], o.shape)
        return self._join(o, lambda g, a: self.ev(g, a) * o.ev(g, a), ())

    def __rmul__(self, o):
        return wrap(o) * self

    def __add__(self, o):
        o = wrap(o)
        if self.args != o.args or self.shape != o.shape:
            raise E.Unsupported('sum of different kinds of integrands')

        def ev(g, a):
            x, y = self.ev(g, a), o.ev(g, a)
            return [p + q for p, q in zip(x, y)] if self.shape else x + y
        return Ex(ev, self.shape, self.args, self.mesh or o.mesh, {**self.spaces, **o.spaces})
    __radd__ = __add__

    def __neg__(self):
        return wrap(-1) * self

    def __sub__(self, o):
        return self + (-wrap(o))

    def __rsub__(self, o):
        return wrap(o) + (-self)

    def __truediv__(self, o):
        o = wrap(o)
        if not isinstance(o, Constant):
            raise E.Unsupported('division by an expression')
        return self * wrap(1 / const(o.value))

    def __pow__(self, n):
        if isinstance(n, Constant):
            n = n.value
        if n != int(n) or n < 0:
            raise E.Unsupported('power %r' % (n,))
        out = wrap(1)
        for _ in range(int(n)):
            out = out * self
        return out

    def __getitem__(self, i):
        if not self.shape:
            raise IndexError(i)
        return Ex(lambda g, a: self.ev(g, a)[i], (), self.args, self.mesh, self.spaces)


class Constant(Ex):
    def __init__(self, v):
        self.value = v
        Ex.__init__(self, lambda g, a: g.k(self.value))

    def assign(self, v):
        self.value = v.value if isinstance(v, Constant) else v

    def __float__(self):
        return float(self.value)


def wrap(o):
    if isinstance(o, Ex):
        return o
    if isinstance(o, D.Function):
        return function(o)
    if isinstance(o, (int, float, Fraction, E.SymReal, np.integer, np.floating)):
        return Constant(o)
    raise TypeError('%r in a form' % (o,))


def argument(number):
    def make(space):
        if space.family != 'CG1' or space.ncomp != 1:
            raise E.Unsupported('arguments other than of linear scalar elements')
        return Ex(lambda g, a: g.lam(a[number]), (), {number}, space.mesh_, {number: space})
    return make


def function(f):
    sp = f.space

    def ev(g, a):
        d = sp.dofs[g.c]
        n = len(d) // sp.ncomp
        out = []
        for k in range(sp.ncomp):
            if sp.family == 'DG0':
                out.append(g.k(f.vec[d[k]]))
            else:
                p = Poly({})
                for i in range(n):
                    p = p + g.lam(i, const(f.vec[d[k * n + i]]))
                out.append(p)
        return out[0] if sp.ncomp == 1 else out
    return Ex(ev, () if sp.ncomp == 1 else (sp.ncomp,), (), sp.mesh_)


def grad(x):
    x = wrap(x)
    if x.shape:
        raise E.Unsupported('gradient of a vector')

    def ev(g, a):
        p = x.ev(g, a)
        out = []
        for d in range(g.mesh.gdim):
            q = Poly({})
            for e, c in p.t.items():
                for i in range(g.n):
                    if e[i]:
                        f = list(e)
                        f[i] -= 1
                        q = q + Poly({tuple(f): c * (e[i] * g.grads[i][d])})
            out.append(q)
        return out
    return Ex(ev, (x.mesh.gdim if x.mesh is not None else None,), x.args, x.mesh, x.spaces)


def inner(a, b):
    a, b = wrap(a), wrap(b)
    if bool(a.shape) != bool(b.shape):
        raise TypeError('shapes do not match')
    if not a.shape:
        return a * b

    def ev(g, q):
        s = Poly({})
        for x, y in zip(a.ev(g, q), b.ev(g, q)):
            s = s + x * y
        return s
    return a._join(b, ev, ())


def SpatialCoordinate(mesh):
    def ev(g, a):
        out = []
        for d in range(g.mesh.gdim):
            p = Poly({})
            for i in range(g.n):
                p = p + g.lam(i, g.pts[i][d])
            out.append(p)
        return out
    return Ex(ev, (mesh.gdim,), (), mesh)


class Measure:
    def __call__(self, *a, **k):
        if a or k:
            raise E.Unsupported('measures with subdomains')
        return self

    def __rmul__(self, o):
        return wrap(o) * self


class Form:
    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return Form(self.parts + o.parts)

    def __neg__(self):
        return Form([-p for p in self.parts])

    def __sub__(self, o):
        return self + (-o)

    def __rmul__(self, c):
        return Form([wrap(c) * p for p in self.parts])


Form.__eq__ = lambda self, o: Equation(self, o)
Form.__hash__ = object.__hash__


class Matrix:
    def __init__(self, n):
        self.n = n
        self.rows = [{} for _ in range(n)]

    def add(self, i, j, v):
        r = self.rows[i]
        r[j] = r[j] + v if j in r else v

    def array(self):
        a = np.empty((self.n, self.n), dtype=object)
        for i in range(self.n):
            for j in range(self.n):
                a[i, j] = self.rows[i].get(j, 0)
        return a.view(SymArr)

    def zero(self):
        self.rows = [{} for _ in range(self.n)]

    def copy(self):
        m = Matrix(self.n)
        m.rows = [dict(r) for r in self.rows]
        return m

    def apply(self, *a):
        return None

    def size(self, d):
        return self.n

    def getrow(self, i):
        r = self.rows[int(i)]
        return np.array(sorted(r), dtype=np.uint64), D._arr([out(r[j]) for j in sorted(r)])

    def __mul__(self, x):
        if not isinstance(x, D.Vector):
            raise E.Unsupported('product of a matrix and %s' % type(x).__name__)
        a = np.empty(self.n, dtype=object)
        for i, r in enumerate(self.rows):
            a[i] = out(sum((v * const(x[j]) for j, v in r.items()), Fraction(0)))
        return a.view(D.Vector)


def assemble(form, tensor=None, **k):
    if tensor is not None:
        t = assemble(form)
        if isinstance(tensor, Matrix) and isinstance(t, Matrix):
            tensor.n, tensor.rows = t.n, t.rows
        elif isinstance(tensor, D.Vector) and isinstance(t, D.Vector):
            if len(tensor) not in (0, len(t)):
                raise RuntimeError('*** Error: tensor of another size')
            if len(tensor) == 0:
                raise E.Unsupported('assemble into an empty vector')
            tensor[:] = t
        else:
            raise E.Unsupported('assemble into %s' % type(tensor).__name__)
        return tensor
    args = {p.args for p in form.parts}
    if len(args) != 1:
        raise E.Unsupported('form of mixed rank')
    args = args.pop()
    mesh = next((p.mesh for p in form.parts if p.mesh is not None), None)
    if mesh is None:
        raise TypeError('form without a mesh')
    geo = [CellGeo(mesh, c) for c in range(len(mesh.cs))]
    if not args:
        s = Fraction(0)
        for g in geo:
            for p in form.parts:
                s = s + p.ev(g, {}).integral(g.vol)
        return s
    sp = next(p.spaces for p in form.parts)
    V = sp[0]
    n = V.dim()
    if args == {0}:
        b = np.empty(n, dtype=object)
        b[:] = Fraction(0)
        for g in geo:
            for i, d in enumerate(V.dofs[g.c]):
                for p in form.parts:
                    b[d] = b[d] + p.ev(g, {0: i}).integral(g.vol)
        for i in range(n):
            b[i] = out(b[i])
        return b.view(D.Vector)
    if args != {0, 1}:
        raise E.Unsupported('form without a test function')
    A = Matrix(n)
    for g in geo:
        for i, d in enumerate(V.dofs[g.c]):
            for j, e in enumerate(sp[1].dofs[g.c]):
                for p in form.parts:
                    A.add(d, e, p.ev(g, {0: i, 1: j}).integral(g.vol))
    return A


class DirichletBC:
    """Values at the nodes of the marked facets."""

    def __init__(self, V, value, marker, index, method='topological'):
        if isinstance(value, (int, float, E.SymReal)):
            value = Constant(value)
        if not isinstance(value, Constant):
            raise E.Unsupported('boundary values other than constants')
        self.V, self.value, self.marker, self.index = V, value, marker, index
        if V.family != 'CG1' or V.ncomp != 1:
            raise E.Unsupported('boundary values of this element')

    def nodes(self):
        m = self.V.mesh_
        found = set()
        vs = set()
        for f in range(m.num_facets()):
            if int(self.marker[f]) == int(self.index):
                vs.update(m.conn(m.tdim - 1, 0)[f])
        for c, cv in enumerate(m.cs):
            for j, v in enumerate(cv):
                if v in vs:
                    found.add(self.V.dofs[c][j])
        return sorted(found)

    def apply(self, *objs):
        for o in objs:
            for d in self.nodes():
                if isinstance(o, Matrix):
                    o.rows[d] = {d: Fraction(1)}
                else:
                    o[d] = self.value.value

    def get_boundary_values(self):
        return {d: self.value.value for d in self.nodes()}


def gauss(rows, b):
    """Solve with a rational matrix and any right-hand sides (lists)."""
    n = len(rows)
    rows = [dict((j, Fraction(v)) for j, v in r.items() if v != 0) for r in rows]
    b = [const(v) for v in b]
    for c in range(n):
        p = next((r for r in range(c, n) if rows[r].get(c, 0) != 0), None)
        if p is None:
            raise RuntimeError('*** Error: Unable to solve linear system: the matrix is singular.')
        rows[c], rows[p] = rows[p], rows[c]
        b[c], b[p] = b[p], b[c]
        for r in range(n):
            f = rows[r].get(c, 0)
            if r == c or f == 0:
                continue
            f = f / rows[c][c]
            for j, v in rows[c].items():
                rows[r][j] = rows[r].get(j, Fraction(0)) - f * v
            b[r] = b[r] - b[c] * f
    return [b[i] * (1 / rows[i][i]) for i in range(n)]


def assemble_system(a, L, bcs=(), *more, **k):
    """The matrix is left unsymmetric: the solution is the same."""
    if more or k:
        raise E.Unsupported('options of assemble_system')
    A, b = assemble(a), assemble(L)
    for bc in (bcs if isinstance(bcs, (list, tuple)) else [bcs]):
        bc.apply(A, b)
    return A, b


class Equation:
    def __init__(self, a, L):
        self.a, self.L = a, L


class LUSolver:
    """Any solver for a linear system: its result is the exact solution."""

    def __init__(self, *a):
        self.A = next((q for q in a if isinstance(q, Matrix)), None)
        self.parameters = {}

    def set_operator(self, A):
        self.A = A

    def solve(self, *a):
        if len(a) == 3:
            return solve(*a)
        if self.A is None:
            raise RuntimeError('*** Error: the solver has no operator')
        return solve(self.A, *a)


class KrylovSolver(LUSolver):
    pass


def solve(A, x, b=None, *a, **k):
    if isinstance(A, Equation):
        bcs = k.get('bcs', b)
        bcs = [] if bcs is None else bcs if isinstance(bcs, (list, tuple)) else [bcs]
        if not isinstance(x, D.Function):
            raise TypeError('solve: expecting a Function')
        M, v = assemble_system(A.a, A.L, bcs)
        return solve(M, x.vector(), v)
    if not isinstance(A, Matrix):
        raise E.Unsupported('solve with %r' % (type(A),))
    A.rows = [{j: const(v) for j, v in r.items()} for r in A.rows]
    if any(isinstance(v, E.SymReal) for r in A.rows for v in r.values()):
        raise E.Unsupported('linear system with a symbolic matrix')
    s = gauss(A.rows, [b[i] for i in range(A.n)])
    for i, v in enumerate(s):
        x[i] = out(v)


def project(v, V=None, function=None, **k):
    """L2 projection to cell-constant elements: the mean over the cell; to linear elements by the mass matrix."""
    v = wrap(v)
    if V is None:
        V = function.space
    f = function if function is not None else D.Function(V)
    mesh = V.mesh_
    geo = [CellGeo(mesh, c) for c in range(len(mesh.cs))]
    if V.family == 'DG0':
        for g in geo:
            q = v.ev(g, {})
            q = q if v.shape else [q]
            for k_, p in enumerate(q):
                f.vec[V.dofs[g.c][k_]] = out(p.integral(g.vol) * (1 / g.vol))
        return f
    n = V.dim()
    A, b = Matrix(n), [Fraction(0)] * n
    for g in geo:
        q = v.ev(g, {})
        q = q if v.shape else [q]
        d = V.dofs[g.c]
        m = len(d) // V.ncomp
        for k_, p in enumerate(q):
            for i in range(m):
                b[d[k_ * m + i]] = b[d[k_ * m + i]] + (p * g.lam(i)).integral(g.vol)
                for j in range(m):
                    A.add(d[k_ * m + i], d[k_ * m + j], (g.lam(i) * g.lam(j)).integral(g.vol))
    for i, w in enumerate(gauss(A.rows, b)):
        f.vec[i] = out(w)
    return f


class Exact(ast.NodeTransformer):
    """Exact literals."""

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.Call(ast.Name('exact', ast.Load()), [n], [])
        return n


class Expression:
    """A formula in x[0], x[1], x[2], interpolated in linear elements."""

    def __new__(cls, code, degree=None, element=None, **k):
        if degree is None and element is None:
            raise RuntimeError('Must specify element or degree')
        k.pop('name', None), k.pop('domain', None)
        if degree != 1 or not all(isinstance(v, (int, float, Fraction, E._Num)) for v in k.values()):
            raise E.Unsupported('expression of degree %r' % (degree,))

        prog = compile(ast.fix_missing_locations(Exact().visit(ast.parse(code.strip(), mode='eval'))), '<expression>', 'eval')

        def ev(g, a):
            p = Poly({})
            for i in range(g.n):
                p = p + g.lam(i, const(eval(prog, dict({'__builtins__': {}, 'exact': E.to_fraction, 'x': g.pts[i]}, **k))))
            return p
        return Ex(ev)


def vector(comm=None, n=None):
    if n is None:
        raise E.Unsupported('vector without a length')
    b = np.empty(int(n), dtype=object)
    b[:] = 0
    return b.view(D.Vector)


def _side(rank):
    def f(form):
        p = [q for q in form.parts if len(q.args) == rank]
        return Form(p if rank == 2 else [-q for q in p])
    return f


def install(m):
    m.Vector = vector
    m.TestFunction, m.TrialFunction = argument(0), argument(1)
    m.Constant, m.Expression, m.SpatialCoordinate, m.DirichletBC = Constant, Expression, SpatialCoordinate, DirichletBC
    m.grad = m.nabla_grad = grad
    m.inner = m.dot = inner
    m.dx = Measure()
    m.assemble, m.solve, m.project = assemble, solve, project
    m.assemble_system, m.LUSolver, m.KrylovSolver = assemble_system, LUSolver, KrylovSolver
    m.PETScMatrix = m.Matrix = lambda *a: Matrix(0)
    m.lhs, m.rhs = _side(2), _side(1)
    m.Function.__mul__ = lambda f, o: wrap(f) * o
    m.Function.__rmul__ = lambda f, o: wrap(o) * wrap(f)
