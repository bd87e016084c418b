"""dolfin's built-in meshes and mesh files: the part that the user's mesh classes use.

Vertex and cell numbering are those of dolfin 2019; coordinates may be symbolic and can be written."""
import itertools

import numpy as np

from . import engine as E
from .npshim import SymArr
from . import dolfinstub as D


def grid(a, b, n):
    w = D._exact(b) - D._exact(a)
    return [D._exact(a) + w * E.to_fraction(i) / n for i in range(n + 1)]


def refuse(msg):
    raise RuntimeError('dolfin: ' + msg)


def check_counts(*n):
    for q in n:
        if q < 1:
            refuse('a mesh needs at least one cell in each direction')
    return [int(q) for q in n]


def store(mesh):
    """Keep the coordinates in one array, as dolfin does, so that they can be changed in place."""
    a = np.empty((len(mesh.xs), mesh.gdim), dtype=object)
    for i, p in enumerate(mesh.xs):
        for j, v in enumerate(p):
            a[i, j] = D._out(v)
    del mesh.xs
    mesh.__class__ = Stored
    mesh.store = a.view(SymArr)
    return mesh


class Stored(D.Mesh):
    @property
    def xs(self):
        return [[D._exact(v) for v in row] for row in self.store]

    def coordinates(self):
        return self.store


def IntervalMesh(n, a, b):
    n, = check_counts(n)
    if not a < b:
        refuse('the interval is empty')
    return store(D.Mesh([[x] for x in grid(a, b, n)], [[i, i + 1] for i in range(n)]))


def UnitIntervalMesh(n):
    return IntervalMesh(n, 0, 1)


def RectangleMesh(p, q, nx, ny, diagonal='right'):
    nx, ny = check_counts(nx, ny)
    if diagonal not in ('left', 'right', 'left/right', 'right/left', 'crossed'):
        refuse('unknown diagonal %r' % (diagonal,))
    if p.x() == q.x() or p.y() == q.y():
        refuse('the rectangle is empty')
    x0, x1 = (p.x(), q.x()) if p.x() < q.x() else (q.x(), p.x())
    y0, y1 = (p.y(), q.y()) if p.y() < q.y() else (q.y(), p.y())
    xs, ys = grid(x0, x1, nx), grid(y0, y1, ny)
    pts = [[x, y] for y in ys for x in xs]
    if diagonal == 'crossed':
        h = E.to_fraction(1) / 2
        pts += [[(xs[i] + xs[i + 1]) * h, (ys[j] + ys[j + 1]) * h] for j in range(ny) for i in range(nx)]
    cells = []
    for j in range(ny):
        for i in range(nx):
            v0 = j * (nx + 1) + i
            v1, v2, v3 = v0 + 1, v0 + nx + 1, v0 + nx + 2
            d = diagonal
            if d == 'crossed':
                m = (nx + 1) * (ny + 1) + j * nx + i
                cells += [[v0, v1, m], [v0, v2, m], [v1, v3, m], [v2, v3, m]]
                continue
            if '/' in d:
                first, second = ('right', 'left') if d == 'left/right' else ('left', 'right')
                d = first if (i + j) % 2 == 0 else second
            cells += [[v0, v1, v3], [v0, v2, v3]] if d == 'right' else [[v0, v1, v2], [v1, v2, v3]]
    return store(D.Mesh(pts, cells))


def BoxMesh(p, q, nx, ny, nz):
    nx, ny, nz = check_counts(nx, ny, nz)
    ax = []
    for a, b, n in ((p.x(), q.x(), nx), (p.y(), q.y(), ny), (p.z(), q.z(), nz)):
        if a == b:
            refuse('the box is empty')
        ax.append(grid(a, b, n) if a < b else grid(b, a, n))
    pts = [[x, y, z] for z in ax[2] for y in ax[1] for x in ax[0]]
    cells = []
    for k, j, i in itertools.product(range(nz), range(ny), range(nx)):
        v0 = (k * (ny + 1) + j) * (nx + 1) + i
        v1, v2, v3 = v0 + 1, v0 + nx + 1, v0 + nx + 2
        up = (nx + 1) * (ny + 1)
        v4, v5, v6, v7 = v0 + up, v1 + up, v2 + up, v3 + up
        cells += [[v0, v1, v3, v7], [v0, v1, v7, v5], [v0, v5, v7, v4], [v0, v3, v2, v7], [v0, v6, v4, v7], [v0, v2, v6, v7]]
    return store(D.Mesh(pts, cells))


def install(m, disk):
    def Mesh(a=None, cells=None):
        if isinstance(a, str):
            f = disk.get(a)
            if f is None or f[0] != 'mesh':
                refuse('no mesh in file ' + a)
            return store(D.Mesh(f[1], f[2]))
        return D.Mesh(a, cells)

    class File:
        def __init__(self, name):
            self.name = name

        def __lshift__(self, o):
            if isinstance(o, D.Mesh):
                disk[self.name] = ('mesh', [list(p) for p in o.xs], [list(c) for c in o.cs])
            elif isinstance(o, D.MeshFunction):
                disk[self.name] = ('function', o.dim_, o.array().tolist())
            else:
                raise E.Unsupported('dolfin.File << ' + type(o).__name__)
            return self

        def __rshift__(self, o):
            f = disk.get(self.name)
            if f is None or f[0] != 'function':
                refuse('no mesh function in file ' + self.name)
            if len(f[2]) != o.size() or f[1] != o.dim_:
                refuse('the mesh function is for another mesh')
            for i, v in enumerate(f[2]):
                o[i] = v
            return self

    def MeshFunction(kind, mesh, dim=None, value=0):
        if isinstance(dim, str):
            f = disk.get(dim)
            if f is None or f[0] != 'function':
                refuse('no mesh function in file ' + dim)
            o = D.MeshFunction(kind, mesh, f[1])
            File(dim) >> o
            return o
        return D.MeshFunction(kind, mesh, dim, value)

    m.Mesh, m.File, m.MeshFunction = Mesh, File, MeshFunction
    def facet_function(kind, mesh, dim=None, value=0):
        return MeshFunction('size_t', kind, mesh, dim or 0)
    m.MeshFunctionSizet = facet_function
    m.UnitSquareMesh = lambda nx, ny, diagonal='right': RectangleMesh(D.Point(0, 0), D.Point(1, 1), nx, ny, diagonal)
    m.UnitCubeMesh = lambda nx, ny, nz: BoxMesh(D.Point(0, 0, 0), D.Point(1, 1, 1), nx, ny, nz)
    m.IntervalMesh, m.UnitIntervalMesh, m.RectangleMesh, m.BoxMesh = IntervalMesh, UnitIntervalMesh, RectangleMesh, BoxMesh
