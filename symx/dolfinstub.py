"""A dolfin whose meshes and fields carry symbolic values.

Only what the repository's particle code uses: simplex meshes (1D-3D) with dolfin's
numbering conventions (cell vertices in ascending order, facet i opposite vertex i - in
1D facet i is vertex i), exact closed-simplex point tests, outward unit normals, volumes,
piecewise-linear (CG1) and cell-constant (DG0) function spaces with symbolic
coefficients.  validate.py compares these conventions with the real dolfin.
"""
import types, itertools, ast, math, re
from fractions import Fraction
import numpy as np
from . import engine as E
from .npshim import SymArr, clean

OUTSIDE = 4294967295


def _arr(v):
    a = np.empty(len(v), dtype=object)
    a[:] = list(v)
    return a.view(SymArr)


def _num(v):
    v = clean(v) if isinstance(v, np.ndarray) else v
    return v


class Point:
    def __init__(self, *c):
        if len(c) == 1 and isinstance(c[0], Point):
            c = c[0].c
        elif len(c) == 1 and (isinstance(c[0], (np.ndarray, list, tuple))):
            c = list(c[0])
        c = [_num(x) for x in c]
        if any(x is None for x in c):
            raise TypeError("Point(): incompatible constructor arguments")
        self.c = [_out(x) for x in c] + [0.0] * (3 - len(c))

    def x(self):
        return self.c[0]

    def y(self):
        return self.c[1]

    def z(self):
        return self.c[2]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return _arr(self.c)[i]
        return self.c[i]

    def array(self):
        return _arr(self.c)

    def __sub__(self, o):
        return Point(*[a - b for a, b in zip(self.c, o.c)])

    def __add__(self, o):
        return Point(*[a + b for a, b in zip(self.c, o.c)])

    def __mul__(self, k):
        return Point(*[a * k for a in self.c])

    def __truediv__(self, k):
        return Point(*[a / k for a in self.c])

    def dot(self, o):
        return sum(a * b for a, b in zip(self.c, o.c))

    def norm(self):
        return sqrt(sum(q * q for q in self.c))

    def distance(self, o):
        return (self - o).norm()


def sqrt(x):
    if isinstance(x, (E.SymReal, E.SymInt)):
        return x.sqrt()
    f = E.to_fraction(x)
    import math
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return E.SymReal(E.rv(f)).sqrt()


def _exact(v):
    """Exact rational for a concrete number."""
    if isinstance(v, (E.SymReal, E.SymInt)):
        return v
    return E.to_fraction(v)


def _out(v):
    """A stub result handed to the code under test: exact float or exact solver constant."""
    if isinstance(v, Fraction):
        d = v.denominator
        if d & (d - 1) == 0 and d.bit_length() < 40 and abs(v.numerator).bit_length() < 40:
            return float(v)
        return E.SymReal(E.rv(v))
    return v


class _Dim:
    def __init__(self, d, mesh=None):
        self.d, self.mesh_ = d, mesh

    def dim(self):
        return self.d


class Geometry(_Dim):
    def degree(self):
        return 1


class Connectivity:
    def __init__(self, rows):
        self.rows = rows

    def __call__(self, i=None):
        if i is None:
            return np.array([j for r in self.rows for j in r], dtype=np.uint32)
        return np.array(self.rows[int(i)], dtype=np.uint32)

    def size(self, i):
        return len(self.rows[int(i)])


class Topology(_Dim):
    def size(self, d):
        return self.mesh_.num_entities(d)

    def __call__(self, a, b):
        return Connectivity(self.mesh_.conn(a, b))


class Entity:
    def __init__(self, mesh, d, i):
        self.mesh_, self.d, self.i = mesh, d, i

    def index(self):
        return self.i

    def global_index(self):
        return self.i

    def mesh(self):
        return self.mesh_

    def dim(self):
        return self.d

    def entities(self, d):
        return np.array(self.mesh_.conn(self.d, d)[self.i], dtype=np.uint32)

    def num_entities(self, d):
        return len(self.mesh_.conn(self.d, d)[self.i])

    def exterior(self):
        return len(self.mesh_.conn(self.d, self.mesh_.tdim)[self.i]) == 1

    def midpoint(self):
        vs = self.mesh_.conn(self.d, 0)[self.i]
        n = len(vs)
        return Point(*[sum(self.mesh_.xs[v][k] for v in vs) / Fraction(n) for k in range(self.mesh_.gdim)])


class Vertex(Entity):
    def __init__(self, mesh, i):
        Entity.__init__(self, mesh, 0, i)

    def point(self):
        return Point(*self.mesh_.xs[self.i])

    def x(self, k):
        return _out(self.mesh_.xs[self.i][k])


class Facet(Entity):
    def __init__(self, mesh, i):
        Entity.__init__(self, mesh, mesh.tdim - 1, i)


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n))


def simplex_det(pts):
    g = len(pts) - 1
    return det([[pts[i + 1][k] - pts[0][k] for k in range(g)] for i in range(g)])


def bary_nums(pts, p):
    """Numerators of the barycentric coordinates of p and their common denominator."""
    D = simplex_det(pts)
    nums = []
    for i in range(len(pts)):
        q = list(pts)
        q[i] = p
        nums.append(simplex_det(q))
    return nums, D


class Cell(Entity):
    def __init__(self, mesh, i):
        i = int(i)
        if not 0 <= i < len(mesh.cs):
            raise RuntimeError("*** Error: Unable to create mesh entity: index out of range")
        Entity.__init__(self, mesh, mesh.tdim, i)

    def pts(self):
        return [self.mesh_.xs[v] for v in self.mesh_.cs[self.i]]

    def get_vertex_coordinates(self):
        return _arr([_out(x) for p in self.pts() for x in p])

    get_coordinate_dofs = get_vertex_coordinates

    def orientation(self):
        return 0

    def contains(self, p):
        return bool(self.contains_term(p))

    def contains_term(self, p):
        m = self.mesh_
        pts = self.pts()
        q = [_num(p[k]) for k in range(m.gdim)]
        if m.tdim == 1:
            a, b = pts[0][0], pts[1][0]
            up = E.SymBool(E.z3.And(E.rv(q[0]) >= E.rv(a), E.rv(q[0]) <= E.rv(b)))
            dn = E.SymBool(E.z3.And(E.rv(q[0]) <= E.rv(a), E.rv(q[0]) >= E.rv(b)))
            return up | dn
        nums, D = bary_nums(pts, q)
        zD = E.rv(D)
        pos = E.z3.And([E.rv(n) >= 0 for n in nums])
        neg = E.z3.And([E.rv(n) <= 0 for n in nums])
        return E.SymBool(E.z3.If(zD > 0, pos, neg))

    def normal(self, f):
        m = self.mesh_
        pts = self.pts()
        g = m.gdim
        if m.tdim == 1:
            # facet f of an interval is vertex f; outward
            o = pts[1 - f][0]
            a = pts[f][0]
            return Point(1) if a > o else Point(-1)
        fp = [pts[j] for j in range(len(pts)) if j != f]
        if g == 2:
            t = [fp[1][k] - fp[0][k] for k in range(2)]
            n = [t[1], -t[0]]
        else:
            u = [fp[1][k] - fp[0][k] for k in range(3)]
            v = [fp[2][k] - fp[0][k] for k in range(3)]
            n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        s = sum(n[k] * (pts[f][k] - fp[0][k]) for k in range(g))
        if s > 0:
            n = [-q for q in n]
        L = sqrt(sum(q * q for q in n))
        return Point(*[q / L for q in n])

    def volume(self):
        g = self.mesh_.tdim
        D = simplex_det(self.pts())
        fact = [1, 1, 2, 6][g]
        D = -D if D < 0 else D
        return _out(D / Fraction(fact))

    def circumradius(self):
        pts = self.pts()
        g = self.mesh_.tdim
        if g == 1:
            d = pts[1][0] - pts[0][0]
            return _out((d if d > 0 else -d) / Fraction(2))
        # centre c: 2 (p_i - p_0) . c = |p_i|^2 - |p_0|^2, by Cramer's rule
        A = [[2 * (pts[i + 1][k] - pts[0][k]) for k in range(g)] for i in range(g)]
        b = [sum(q * q for q in pts[i + 1]) - sum(q * q for q in pts[0]) for i in range(g)]
        D = det(A)
        c = [det([[b[i] if k == j else A[i][k] for k in range(g)] for i in range(g)]) / D for j in range(g)]
        return _out(sqrt(sum((c[k] - pts[0][k]) ** 2 for k in range(g))))

    def facet_area(self, f):
        p = [q for j, q in enumerate(self.pts()) if j != f]
        if len(p) == 1:
            return 1.0
        u = [b - a for a, b in zip(p[0], p[1])]
        if len(p) == 2:
            return _out(sqrt(sum(c * c for c in u)))
        v = [b - a for a, b in zip(p[0], p[2])]
        w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        return _out(sqrt(sum(c * c for c in w)) / Fraction(2))

    def inradius(self):
        g = self.mesh_.tdim
        if g == 1:
            return _out(self.volume() / Fraction(2))
        return _out(g * _exact(self.volume()) / sum(_exact(self.facet_area(f)) for f in range(g + 1)))

    def h(self):
        """The longest distance between two vertices."""
        best = None
        for a, b in itertools.combinations(self.pts(), 2):
            d = sum((q - p) * (q - p) for p, q in zip(a, b))
            if best is None or d > best:
                best = d
        return _out(sqrt(best))

    def collides(self, o):
        if not isinstance(o, Point):
            raise E.Unsupported('collision of two entities')
        return self.contains(o)

    def distance(self, o):
        raise E.Unsupported('distance from a cell')


class BBTree:
    def __init__(self, mesh):
        self.mesh = mesh

    def compute_first_entity_collision(self, p):
        for i in range(len(self.mesh.cs)):
            if Cell(self.mesh, i).contains(p):
                return i
        return OUTSIDE

    def compute_entity_collisions(self, p):
        return [i for i in range(len(self.mesh.cs)) if Cell(self.mesh, i).contains(p)]

    def compute_collisions(self, p):
        return self.compute_entity_collisions(p)


class Mesh:
    def __init__(self, coords=None, cells=None):
        if isinstance(coords, Mesh):
            coords, cells = coords.xs, coords.cs
        if coords is None:
            raise E.Unsupported("empty Mesh")
        self.xs = [[_exact(x) for x in p] for p in coords]
        self.cs = [sorted(c) for c in cells]
        self.gdim = len(self.xs[0])
        self.tdim = len(self.cs[0]) - 1
        self._conn = {}
        self._number()

    def _number(self):
        t = self.tdim
        fac, cf = {}, []
        if t == 1:
            cf = [list(c) for c in self.cs]
            fv = [[i] for i in range(len(self.xs))]
        else:
            fv = []
            for c in self.cs:
                row = []
                for i in range(len(c)):
                    k = tuple(v for j, v in enumerate(c) if j != i)
                    if k not in fac:
                        fac[k] = len(fv)
                        fv.append(list(k))
                    row.append(fac[k])
                cf.append(row)
        self._conn[(t, t - 1)] = cf
        self._conn[(t - 1, 0)] = fv
        self._conn[(t, 0)] = self.cs
        self._conn[(t - 1, t)] = [[ci for ci in range(len(self.cs)) if fi in cf[ci]] for fi in range(len(fv))]
        self._conn[(0, t)] = [[ci for ci in range(len(self.cs)) if v in self.cs[ci]] for v in range(len(self.xs))]
        self._conn[(t, t)] = [[i] for i in range(len(self.cs))]
        self._conn.setdefault((0, 0), [[i] for i in range(len(self.xs))])

    def conn(self, a, b):
        if (a, b) not in self._conn:
            self._conn[(a, b)] = self._connect(a, b)
        return self._conn[(a, b)]

    def _connect(self, a, b):
        t = self.tdim
        if not (0 <= a <= t and 0 <= b <= t):
            raise RuntimeError('*** Error: no mesh connectivity %d-%d' % (a, b))
        if a == t and b == 1:
            # edges of a tetrahedron: first those without vertex 0, the last two vertices first
            seen, rows = {}, []
            for c in self.cs:
                pairs = [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)]
                rows.append([seen.setdefault((c[i], c[j]), len(seen)) for i, j in pairs])
            self._conn[(1, 0)] = [list(k) for k in seen]
            return rows
        if a == 1 and b == 0:
            self.conn(t, 1)
            return self._conn[(1, 0)]
        va, vb = self.conn(a, 0), self.conn(b, 0)
        if a == b == 0:
            return [[i] for i in range(len(self.xs))]
        if a < b:
            return [[j for j, w in enumerate(vb) if set(v) <= set(w)] for v in va]
        if a > b:
            return [[j for j, w in enumerate(vb) if set(w) <= set(v)] for v in va]
        return [[j for j, w in enumerate(vb) if j != i and set(w) & set(v)] for i, v in enumerate(va)]

    def _self(self):
        return self

    def geometry(self):
        return Geometry(self.gdim, self)

    def topology(self):
        return Topology(self.tdim, self)

    def init(self, *a):
        return None

    def mpi_comm(self):
        return None

    def order(self):
        return None

    def coordinates(self):
        a = np.empty((len(self.xs), self.gdim), dtype=object)
        for i, p in enumerate(self.xs):
            for k in range(self.gdim):
                a[i, k] = _out(p[k])
        return a.view(SymArr)

    def cells(self):
        return np.array(self.cs, dtype=np.uint32)

    def num_cells(self):
        return len(self.cs)

    def num_vertices(self):
        return len(self.xs)

    def num_facets(self):
        return len(self.conn(self.tdim - 1, 0))

    def num_edges(self):
        return len(self.conn(1, 0))

    def num_faces(self):
        return len(self.conn(2, 0))

    def num_entities(self, d):
        return len(self.conn(d, 0))

    def geometric_dimension(self):
        return self.gdim

    def _sizes(self, name, pick):
        v = [getattr(Cell(self, i), name)() for i in range(len(self.cs))]
        return pick(v)

    def hmax(self):
        return self._sizes('h', max)

    def hmin(self):
        return self._sizes('h', min)

    def rmax(self):
        return self._sizes('inradius', max)

    def rmin(self):
        return self._sizes('inradius', min)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    def bounding_box_tree(self):
        return BBTree(self)

    def facet_of(self, vs):
        """Mesh index of the facet with these vertices."""
        for i, f in enumerate(self.conn(self.tdim - 1, 0)):
            if sorted(f) == sorted(vs):
                return i
        raise KeyError(vs)


class MeshFunction:
    def __init__(self, kind, mesh, dim=None, value=0):
        self.mesh_, self.dim_, self.kind = mesh, dim, kind
        if dim is None:
            raise TypeError('MeshFunction without a dimension')
        self.v = np.empty(mesh.num_entities(dim), dtype={'size_t': np.uint64, 'int': np.int32, 'bool': bool, 'double': float}[kind])
        self.v[:] = value

    def set_all(self, v):
        self.v[:] = self._of(v)

    def _of(self, v):
        if self.kind == 'size_t' and not isinstance(v, (int, np.integer)) or self.kind == 'size_t' and v < 0:
            raise TypeError('mesh function value %r' % (v,))
        return v

    def _index(self, i):
        i = i.index() if isinstance(i, Entity) else int(i)
        if not 0 <= i < len(self.v):
            raise IndexError("mesh function index %d out of range" % i)
        return i

    def __getitem__(self, i):
        return self.v[self._index(i)].item()

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise TypeError('mesh functions have no slices')
        self.v[self._index(i)] = self._of(v)

    def __len__(self):
        return len(self.v)

    def array(self):
        return self.v

    def set_values(self, v):
        if len(v) != len(self.v):
            raise RuntimeError('*** Error: mesh function of another size')
        self.v[:] = v

    def set_value(self, i, v):
        self[i] = v

    def where_equal(self, v):
        return [i for i in range(len(self.v)) if self.v[i] == v]

    def dim(self):
        return self.dim_

    def mesh(self):
        return self.mesh_

    def size(self):
        return len(self.v)


# ---- function spaces ------------------------------------------------------------------
class Element:
    def __init__(self, space):
        self.space = space

    def space_dimension(self):
        return len(self.space.dofs[0])

    def evaluate_basis_all(self, x, coord_dofs, orientation):
        m = self.space.mesh_
        if self.space.family == 'DG0':
            return _arr([1.0])
        g = m.gdim
        n = m.tdim + 1
        pts = [[_exact(coord_dofs[i * g + k]) for k in range(g)] for i in range(n)]
        nums, D = bary_nums(pts, [_exact(_num(x[k])) for k in range(g)])
        return _arr([_out(q / D) for q in nums])

    def evaluate_basis(self, i, x, coord_dofs, orientation):
        return _arr([self.evaluate_basis_all(x, coord_dofs, orientation)[i]])


class DofMap:
    def __init__(self, space):
        self.space = space

    def cell_dofs(self, c):
        return np.array(self.space.dofs[int(c)], dtype=np.int32)

    def dofs(self, *a):
        if a:
            raise E.Unsupported('dofs of an entity')
        return list(range(self.space.dim()))

    def global_dimension(self):
        return self.space.dim()

    def num_element_dofs(self, c):
        return len(self.space.dofs[int(c)])


class FunctionSpace:
    def __init__(self, mesh, family, degree, ncomp=1):
        self.mesh_ = mesh
        self.ncomp = ncomp
        if family in ('DG', 'Discontinuous Lagrange', 'DP') and degree == 0:
            self.family = 'DG0'
            nodes = [[i] for i in range(len(mesh.cs))]
        elif family in ('Lagrange', 'CG', 'P') and degree == 1:
            self.family = 'CG1'
            # an arbitrary (reversed) numbering: dof numbers are not vertex numbers
            nodes = [[len(mesh.xs) - 1 - v for v in c] for c in mesh.cs]
        elif family in ('DG', 'Discontinuous Lagrange', 'DP') and degree == 1:
            self.family = 'DG1'
            n = mesh.tdim + 1
            nodes = [[i * n + j for j in range(n)] for i in range(len(mesh.cs))]
        else:
            raise E.Unsupported("function space %s %s" % (family, degree))
        self.nodes = nodes
        self.nnode = 1 + max(max(r) for r in nodes)
        # blocked components: all nodes of component 0 in the cell, then component 1, ...
        self.dofs = [[n * ncomp + k for k in range(ncomp) for n in row] for row in nodes]

    def dofmap(self):
        return DofMap(self)

    def element(self):
        return Element(self)

    def mesh(self):
        return self.mesh_

    def dim(self):
        return self.nnode * self.ncomp

    def num_sub_spaces(self):
        return 0 if self.ncomp == 1 else self.ncomp

    def tabulate_dof_coordinates(self):
        m = self.mesh_
        a = np.empty((self.dim(), m.gdim), dtype=object)
        for c, row in enumerate(self.dofs):
            n = len(row) // self.ncomp
            for k, d in enumerate(row):
                p = Cell(m, c).midpoint().c[:m.gdim] if self.family == 'DG0' else [_out(x) for x in m.xs[m.cs[c][k % n]]]
                for j in range(m.gdim):
                    a[d, j] = p[j]
        return a.view(SymArr)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def VectorFunctionSpace(mesh, family, degree):
    return FunctionSpace(mesh, family, degree, ncomp=mesh.gdim)


class _Count(int):
    """numpy has a number where dolfin has a method."""

    def __call__(self):
        return int(self)


class Vector(SymArr):
    def get_local(self, *a):
        v = np.array(self).view(SymArr)
        return v[np.asarray(a[0], dtype=int)] if a else v

    def set_local(self, v):
        if len(v) != len(self):
            raise RuntimeError('*** Error: set_local with another number of values')
        for i, x in enumerate(v):
            self[i] = x

    def add_local(self, v):
        for i, x in enumerate(v):
            self[i] = self[i] + x

    def axpy(self, a, o):
        if len(o) != len(self):
            raise RuntimeError('*** Error: axpy of vectors of different sizes')
        for i in range(len(self)):
            self[i] = self[i] + a * o[i]

    def apply(self, *a):
        return None

    def zero(self):
        self[:] = 0

    def inner(self, o):
        return sum(self[i] * o[i] for i in range(len(self)))

    def norm(self, kind):
        if kind == 'l2':
            return sqrt(self.inner(self))
        v = [abs(self[i]) for i in range(len(self))]
        return max(v) if kind == 'linf' else sum(v)

    def empty(self):
        return len(self) == 0

    def vec(self):
        raise E.Unsupported('the PETSc vector of a field')

    def local_size(self):
        return len(self)

    def local_range(self, *a):
        return (0, len(self))

    @property
    def size(self):
        return _Count(np.ndarray.size.__get__(self))


class Function:
    def __init__(self, space):
        self.space = space
        n = space.dim()
        a = np.empty(n, dtype=object)
        a[:] = 0
        self.vec = a.view(Vector)

    def vector(self):
        return self.vec

    def assign(self, o):
        if isinstance(o, Function):
            self.vec[:] = o.vec
        elif hasattr(o, 'value'):
            self.vec[:] = o.value
        else:
            raise E.Unsupported('assignment of %r' % type(o).__name__)

    def copy(self, deepcopy=False):
        f = Function(self.space)
        if deepcopy:
            f.vec[:] = self.vec
        else:
            f.vec = self.vec
        return f

    def interpolate(self, o):
        if isinstance(o, Function) and o.space.family == self.space.family and o.space.mesh_ is self.space.mesh_ and o.space.ncomp == self.space.ncomp:
            self.vec[:] = o.vec
        elif hasattr(o, 'value') and self.space.ncomp == 1:
            self.vec[:] = o.value
        else:
            raise E.Unsupported('interpolation')

    def compute_vertex_values(self, mesh=None):
        s, m = self.space, self.space.mesh_
        a = np.empty(len(m.xs) * s.ncomp, dtype=object)
        for c, row in enumerate(s.dofs):
            n = len(row) // s.ncomp
            for k in range(s.ncomp):
                for j, v in enumerate(m.cs[c]):
                    a[k * len(m.xs) + v] = self.vec[row[k * n + (j if n > 1 else 0)]]
        return a.view(SymArr)

    def geometric_dimension(self):
        return self.space.mesh_.gdim

    def value_rank(self):
        return 0 if self.space.ncomp == 1 else 1

    def value_dimension(self, i):
        return self.space.ncomp

    def function_space(self):
        return self.space

    def cpp_object(self):
        return self

    @property
    def _cpp_object(self):
        return self

    def at(self, p, cell=None):
        """Values at point p; dolfin looks up a cell containing p."""
        m = self.space.mesh_
        q = [_num(p[k]) for k in range(m.gdim)]
        if cell is None:
            cell = BBTree(m).compute_first_entity_collision(Point(*q))
            if cell == OUTSIDE:
                raise RuntimeError("*** Error: Unable to evaluate function at point. The point is not inside the domain.")
        c = Cell(m, cell)
        b = self.space.element().evaluate_basis_all(q, c.get_vertex_coordinates(), 0)
        d = self.space.dofs[cell]
        n = len(b)
        return [sum(b[i] * self.vec[d[k * n + i]] for i in range(n)) for k in range(self.space.ncomp)]

    def __call__(self, *p, values=None):
        if len(p) == 1 and isinstance(p[0], (list, tuple, np.ndarray, Point)):
            p = p[0]
        v = self.at(p)
        if values is not None:
            for i, x in enumerate(v):
                values[i] = x
            return values
        return v[0] if self.space.ncomp == 1 else _arr(v)

    def eval(self, values, x):
        for i, q in enumerate(self.at(x)):
            values[i] = q


class PointSource:
    def __init__(self, space, point, w):
        self.space, self.p, self.w = space, point, w

    def apply(self, vec):
        m = self.space.mesh_
        c = BBTree(m).compute_first_entity_collision(self.p)
        if c == OUTSIDE:
            raise RuntimeError("PointSource outside the mesh")
        b = self.space.element().evaluate_basis_all(self.p.c, Cell(m, c).get_vertex_coordinates(), 0)
        for d, q in zip(self.space.dofs[c], b):
            vec[d] = vec[d] + self.w * q


# names of old dolfin versions, which the installed one does not have
GONE = ('MeshFunctionSizet', 'MeshFunctionDouble', 'CellFunction', 'FacetFunction', 'DOLFIN_VERSION_STRING')


def make():
    m = types.ModuleType('dolfin')

    def iter_cells(o):
        if isinstance(o, Mesh):
            return [Cell(o, i) for i in range(len(o.cs))]
        return [Cell(o.mesh_, int(i)) for i in o.entities(o.mesh_.tdim)]

    def iter_facets(o):
        if isinstance(o, Mesh):
            return [Facet(o, i) for i in range(o.num_facets())]
        return [Facet(o.mesh_, int(i)) for i in o.entities(o.mesh_.tdim - 1)]

    def iter_vertices(o):
        if isinstance(o, Mesh):
            return [Vertex(o, i) for i in range(len(o.xs))]
        return [Vertex(o.mesh_, int(i)) for i in o.entities(0)]
    m.cells, m.facets, m.vertices = iter_cells, iter_facets, iter_vertices
    for c in (Point, Mesh, Cell, Facet, Vertex, MeshFunction, Function, FunctionSpace, PointSource):
        setattr(m, c.__name__, c)

    def entities(mesh, d):
        kind = {0: Vertex, mesh.tdim: Cell, mesh.tdim - 1: Facet}
        return [kind[d](mesh, i) if d in kind else Entity(mesh, d, i) for i in range(mesh.num_entities(d))]
    m.entities = entities
    m.edges = lambda o: entities(o, 1) if isinstance(o, Mesh) else [Entity(o.mesh_, 1, int(i)) for i in o.entities(1)]
    m.faces = lambda o: entities(o, 2) if isinstance(o, Mesh) else [Entity(o.mesh_, 2, int(i)) for i in o.entities(2)]
    m.VectorFunctionSpace = VectorFunctionSpace
    m.DOLFIN_PI = math.pi
    m.MeshEntity = Entity
    m.Vector = Vector
    m.__version__ = 'stub'
    m.DOLFIN_EPS = 3e-16

    class SubDomain(object):
        def __init__(self, map_tol=1e-10):
            self.map_tolerance = map_tol

        def mark(self, mf, v):
            mesh = mf.mesh_
            conn = mesh.conn(mf.dim_, 0)
            nt = mesh.conn(mf.dim_, mesh.tdim)
            for i, vs in enumerate(conn):
                onb = mf.dim_ == mesh.tdim - 1 and len(nt[i]) == 1
                pts = [_arr([_out(c) for c in mesh.xs[q]]) for q in vs]
                ok = all(bool(self.inside(p, onb)) for p in pts)
                if ok and len(vs) > 1:
                    ok = bool(self.inside(_arr(Entity(mesh, mf.dim_, i).midpoint().c[:mesh.gdim]), onb))
                if ok:
                    mf[i] = v

        def mark_facets(self, mesh, v, *a):
            raise E.Unsupported('marks in the domains of a mesh')
    m.SubDomain = SubDomain

    def near(x, x0, eps=3e-16):
        return x > x0 - eps and x < x0 + eps

    def between(x, ab):
        return x >= ab[0] - 3e-16 and x <= ab[1] + 3e-16
    m.near, m.between = near, between

    class CompiledSubDomain(SubDomain):
        def __init__(self, code, **k):
            SubDomain.__init__(self)
            code = re.sub(r'!(?!=)', ' not ', code.replace('&&', ' and ').replace('||', ' or '))
            code = code.replace('std::', '').replace('fabs(', 'abs(')
            from .femstub import Exact
            self.prog_ = compile(ast.fix_missing_locations(Exact().visit(ast.parse(code.strip(), mode='eval'))), '<subdomain>', 'eval')
            self.k_ = dict(k)

        def inside(self, x, on_boundary):
            env = {'__builtins__': {}, 'exact': E.to_fraction, 'abs': abs, 'near': near, 'between': between, 'DOLFIN_EPS': 3e-16,
                   'x': x, 'on_boundary': on_boundary}
            return bool(eval(self.prog_, dict(env, **self.k_)))

    class AutoSubDomain(SubDomain):
        def __init__(self, f):
            SubDomain.__init__(self)
            self.f_ = f

        def inside(self, x, on_boundary):
            return self.f_(x, on_boundary) if self.f_.__code__.co_argcount == 2 else self.f_(x)
    m.CompiledSubDomain, m.AutoSubDomain = CompiledSubDomain, AutoSubDomain

    class Anything:
        """Names that the covered code only mentions."""

        def __init__(self, n):
            self.n = n

        def __call__(self, *a, **k):
            return None

        def __getattr__(self, n):
            return Anything(self.n + '.' + n)
    m.set_log_level = lambda *a, **k: None
    m.set_log_active = lambda *a, **k: None
    m.LogLevel = Anything('LogLevel')
    m.PROGRESS = 16

    from . import femstub, meshstub
    femstub.install(m)
    meshstub.install(m, {})

    def __getattr__(n):
        if n.startswith('__') or n in GONE:
            raise AttributeError("module 'dolfin' has no attribute %r" % n)

        def f(*a, **k):
            raise E.Unsupported("dolfin.%s has no encoding" % n)
        return f
    m.__getattr__ = __getattr__
    return m
