"""P19: C++ geometry: facet finder, point-in-cell test, mesh tables, field values at particles."""
import itertools
from fractions import Fraction
from .common import Sim, facets_of, SYS, modules
from .boundary import plane, num
from .meshtables import permuted

PROPERTY = dict(
    title='C++ geometry: first facet crossed, point-in-cell test, mesh tables and field values are exact',
    files=['cpp/dolfin_functions.cpp', 'cpp/dolfin_functions.h', 'cpp/dolfin_functions_solib.cpp', 'cpp/MeshEntityArrays.cpp', 'cpp/MeshEntityArrays.h',
           'cpp/mesh_entity_arrays_solib.cpp', 'Particle_Module.py', 'Dolfin_Module.py'],
    functions=['find_facet', 'is_inside_vertices', 'interpolate_field_to_points', 'MeshEntityArrays<N>::compute_cell_neighbors_array, get_cell_neighbors',
               'MeshEntityArrays<N>::compute_cell_facet_normals_array, get_cell_facet_normals', 'Particle_C.initialize_particle_mesh'],
    explanation='Symbolic execution of the C++ functions through their Python bindings (sources compiled unchanged over symbolic reals): start point, displacement, test point, '
                'vertex positions and field values are symbolic; z3 decides each comparison of the C++ code and each assertion.',
    bounds=dict(quick='every cell of the 1D, 2D and 3D meshes (up to 3 cells); start in the closed cell, any displacement; vertex lists in any order; every vertex numbering of '
                      'the 2- and 3-cell meshes in 1D and 2D; up to 4 points over segments of length 2; the same after calls with other points, cells, meshes and fields',
                thorough='as quick, every vertex numbering in 3D'),
    outside=['start points outside the cell (round-off repair)', 'irrational facet normals', 'rounding; the adaptive predicates of predicates.cpp are replaced by exact determinants',
             'degenerate cells', 'fields other than cell-constant ones (not supported by the C++ interpolation)'],
    assumptions=['coordinates are mathematical reals', 'dolfin mesh connectivity and facet normals (stand-in validated against dolfin)'],
    reach=['no facet', 'facet', 'zero displacement', 'start on the facet', 'through a vertex or edge', 'inside', 'outside', 'interior facet', 'exterior facet',
           'decreasing coordinates', 'values at the points', 'after other calls'],
)


def find(k, kind, cell, spherical=False):
    s = Sim(k, kind, [('a', k.const(1), k.const(1), 'charged')], spherical=spherical, cpp=True, integrate=False)
    M = s.mesh_M
    dim = s.dim
    f_ = k.cpp('dolfin_functions_solib').find_facet
    x = s.point_in(cell, 'x')
    d = [k.real('d%d' % i) for i in range(dim)]
    f, frac, n = f_(M, list(x), list(d), cell)
    end = [x[i] + d[i] for i in range(dim)]
    f = int(f)
    inside = k.is_true(k.inside(s.mesh, cell, end))
    if f == s.DM.Mesh_C.NO_FACET:
        k.reach('no facet')
        if k.is_true(k.all([k.eq(q, 0) for q in d])):
            k.reach('zero displacement')
        if not inside:
            k.fail('no facet is found although the displacement leaves the cell')
        k.check(k.eq(frac, 1), 'the whole displacement is in the cell when no facet is crossed')
        if n is not None:
            k.fail('a normal is returned although no facet is crossed')
        return
    k.reach('facet')
    if inside:
        k.fail('a facet is found although the end point is in the cell')
    if not 0 <= f <= dim:
        k.fail('the facet number is not one of the cell')
    mf = int(M.cell_entity_indices_dict['facet'][cell][f])
    others = [c for c in s.facet_cells[mf] if c != cell]
    if int(M.mea_object.get_cell_neighbors(cell)[f]) != (others[0] if others else s.DM.Mesh_C.NO_CELL):
        k.fail('the neighbour across the facet found is not the cell on its other side')
    k.check(k.all([k.ge(frac, 0), k.le(frac, 1)]), 'the fraction is between 0 and 1')
    p = [x[i] + frac * d[i] for i in range(dim)]
    b = s.bary(cell, p)
    vs = s.facet_verts[mf]
    k.check(k.all([k.ge(b[i], 0) if v in vs else k.eq(b[i], 0) for i, v in enumerate(s.cells[cell])]),
            'the displacement meets the facet found first, at the fraction returned')
    inner = [v for v in s.cells[cell] if v not in vs]
    if dim > 1:
        N, _ = plane([s.verts[v] for v in vs], [s.verts[v] for v in inner], dim)
    else:
        N = [Fraction(1 if s.verts[vs[0]][0] > s.verts[inner[0]][0] else -1)]
    if len(n) != dim:
        k.fail('the normal returned does not have the dimension of the mesh')
    n = [n[i] for i in range(dim)]
    k.check(k.all([k.eq(sum(q * q for q in n), 1), k.ge(sum(n[i] * num(k, N[i]) for i in range(dim)), 0)] +
                  [k.eq(n[i] * num(k, N[j]), n[j] * num(k, N[i])) for i in range(dim) for j in range(i)]),
            'the normal returned is the unit outward normal of the facet found')
    if k.is_true(k.eq(frac, 0)):
        k.reach('start on the facet')
    if dim > 1 and k.is_true(k.any([k.eq(b[i], 0) for i, v in enumerate(s.cells[cell]) if v in vs])):
        k.reach('through a vertex or edge')


def inside(k, kind, cell, spherical=False):
    s = Sim(k, kind, [('a', k.const(1), k.const(1), 'charged')], spherical=spherical, cpp=True, integrate=False)
    x = [k.real('x%d' % i) for i in range(s.dim)]
    perms = list(itertools.permutations(s.cells[cell]))
    vs = perms[k.choice('order', len(perms))]
    r = k.cpp('dolfin_functions_solib').is_inside_vertices(s.mesh, list(vs), list(x))
    t = k.is_true(k.inside(s.mesh, cell, x))
    if bool(r) != t:
        k.fail('the point-in-cell test is wrong')
    k.reach('inside' if t else 'outside')


def tables(k, kind, perms='all', real=()):
    """Neighbours and normals for every numbering of the vertices; 1D vertex positions are symbolic."""
    xs, cs = permuted(k, kind, perms)
    g = len(xs[0])
    if g == 1:
        # symbolic positions that keep the order of the vertices
        order = sorted(range(len(xs)), key=lambda i: xs[i][0])
        last = None
        for j, i in enumerate(order):
            v = k.real('v%d' % j)
            if last is not None:
                k.assume_c(k.le(last + k.frac(1, 8), v))
            xs[i] = [v]
            last = v
        if order != sorted(order):
            k.reach('decreasing coordinates')
    m = k.mesh(xs, cs)
    nf = g + 1
    M = getattr(k.cpp('mesh_entity_arrays_solib'), 'MeshEntityArrays_%d_facets' % nf)(m, compute_particle_mesh_maps=True)
    fs = {i: (sorted(vs), sorted(c)) for i, vs, c in facets_of(k, m)}
    if k.symbolic:
        verts = {c: sorted(vs) for c, vs in enumerate(cs)}
        facets = lambda c: [int(f) for f in k.df.Cell(m, c).entities(g - 1)]
    else:
        m.init(g - 1, g)
        verts = {c: sorted(vs) for c, vs in enumerate(cs)}
        facets = lambda c: [int(f) for f in k.df.Cell(m, c).entities(g - 1)]
    for c in range(len(cs)):
        nb = [int(q) for q in M.get_cell_neighbors(c)]
        ns = list(M.get_cell_facet_normals(c))
        if len(nb) != nf or len(ns) != 3 * nf:
            k.fail('the tables do not have one entry per facet')
        for i, f in enumerate(facets(c)):
            other = [q for q in fs[f][1] if q != c]
            if nb[i] != (other[0] if other else -1):
                k.fail('the neighbour listed for a facet is not the cell behind it')
            k.reach('interior facet' if other else 'exterior facet')
            n = ns[3 * i:3 * i + 3]
            inner = [v for v in verts[c] if v not in fs[f][0]][0]
            a = xs[fs[f][0][0]]
            conds = [k.eq(sum(n[j] * n[j] for j in range(g)), 1), k.le(sum(n[j] * num(k, xs[inner][j] - a[j]) for j in range(g)), 0)]
            conds += [k.eq(sum(n[j] * num(k, xs[v][j] - a[j]) for j in range(g)), 0) for v in fs[f][0][1:]]
            conds += [k.eq(n[j], 0) for j in range(g, 3)]
            k.check(k.all(conds), 'the normal of a facet is unit, outward and orthogonal to it')


def interp(k, kind, N=3, L=2):
    """The values at the points are those of the cells recorded for them."""
    s = Sim(k, kind, [('a', k.const(1), k.const(1), 'charged')], L=L, cpp=True, integrate=False)
    F = s.cell_field('E')
    nc = len(s.cells)
    cells = [k.choice('cell%d' % i, nc) for i in range(N)]
    for i, c in enumerate(cells):
        s.add('a', [k.real('x%d_%d' % (i, j)) for j in range(s.dim)], [k.const(0)] * s.dim, cell=c, uid=i)
    f_ = getattr(k.cpp('dolfin_functions_solib'), 'interpolate_field_to_points_' + SYS[kind])
    sap = s.P.sap_dict['a']
    n, seg = sap.init_out_loop()
    i = 0
    while isinstance(seg, k.np.ndarray):
        n = int(n)
        out = k.np.zeros((L + 1, s.dim))
        mark = k.real('mark')
        for a in range(L + 1):
            for b in range(s.dim):
                out[a][b] = mark
        f_(F, seg, n, out)
        for a in range(L + 1):
            for b in range(s.dim):
                k.check(k.eq(out[a][b], F.cellwise[cells[i + a]][b] if a < n else mark), 'the value at a point is that of the field in its cell; others are left alone')
        k.reach('values at the points')
        i += n
        n, seg = sap.get_next_segment('out')
    if i != N:
        k.fail('not every particle was visited')


def again(k, kind, of, args):
    """The same after the functions have been used for other points, cells, a mesh and a field of another simulation."""
    c0 = k.const
    s = Sim(k, kind, [('other', c0(1), c0(1), 'charged')], L=1, cpp=True, integrate=False)
    m = k.cpp('dolfin_functions_solib')
    F = s.cell_field('other', [[c + 3] * s.dim for c in range(len(s.cells))])
    for c in reversed(range(len(s.cells))):
        x = [sum(c0(s.verts[v][d]) for v in s.cells[c]) / (s.dim + 1) for d in range(s.dim)]
        s.add('other', x, [c0(0)] * s.dim, cell=c, uid=40 + c)
        if not m.is_inside_vertices(s.mesh, list(s.cells[c]), list(x)) or m.is_inside_vertices(s.mesh, list(s.cells[c]), [v + 40 for v in x]):
            k.fail('the point-in-cell test is wrong')
        for d in (0, -40, 40):
            f = m.find_facet(s.mesh_M, list(x), [c0(d), c0(d / 4), c0(d / 16)][:s.dim], c)[0]
            if (int(f) == s.DM.Mesh_C.NO_FACET) != (d == 0):
                k.fail('a facet is found exactly when the displacement leaves the cell')
    n, seg = s.P.sap_dict['other'].init_out_loop()
    out = k.np.zeros((2, s.dim))
    getattr(m, 'interpolate_field_to_points_' + SYS[kind])(F, seg, int(n), out)
    k.check(k.eq(out[0][0], c0(len(s.cells) + 2)), 'the value at a point is that of the field in its cell; others are left alone')
    k.reach('after other calls')
    globals()[of](k, **args)


def jobs(tier):
    out = []
    thorough = tier != 'quick'

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight,
                        cpp=modules(cfg['kind']) + ['dolfin_functions_solib']))
    for kind, n, sph in (('one', 1, False), ('line', 3, False), ('enil', 3, False), ('shell', 2, True), ('tri', 1, False), ('rect', 2, False), ('fan', 3, False),
                         ('tet', 1, False), ('tets', 2, False), ('tets3', 3 if thorough else 2, False)):
        for c in range(n):
            job('find', 5, kind=kind, cell=c, spherical=sph)
            job('inside', 3, kind=kind, cell=c, spherical=sph)
    for kind in ('line', 'enil', 'rect', 'fan', 'tri', 'one'):
        job('tables', 10, kind=kind)
    for kind in ('tet', 'tets', 'tets3'):
        job('tables', 10, kind=kind, perms='all' if thorough else 'some')
    for kind in ('line', 'rect', 'tets'):
        job('interp', 5, kind=kind, N=4 if thorough else 3)
    for of, kind, other, args in (('find', 'line', 'enil', dict(cell=1)), ('find', 'rect', 'fan', dict(cell=1)), ('find', 'tets', 'stet', dict(cell=0)), ('find', 'shell', 'one', dict(cell=0, spherical=True)),
                                  ('inside', 'line', 'enil', dict(cell=1)), ('inside', 'rect', 'fan', dict(cell=1)), ('inside', 'tets', 'stet', dict(cell=1)),
                                  ('tables', 'line', 'enil', dict(perms='some')), ('tables', 'rect', 'fan', dict(perms='some')), ('tables', 'tets', 'tet', dict(perms='some')),
                                  ('interp', 'line', 'enil', dict(N=2)), ('interp', 'rect', 'fan', dict(N=2)), ('interp', 'tets', 'stet', dict(N=2))):
        out.append(dict(name='again %s %s' % (of, kind), fn='again', cfg=dict(kind=other, of=of, args=dict(args, kind=kind)), weight=10,
                        cpp=sorted(set(modules(kind) + modules(other) + ['dolfin_functions_solib']))))
    return out
