"""P15: the mesh tables describe the mesh."""
import itertools
from fractions import Fraction
from .common import geometry, facets_of

PROPERTY = dict(
    title='The mesh tables describe the mesh: neighbours, facets, normals, volumes',
    files=['Dolfin_Module.py'],
    functions=['Mesh_C.__init__', 'Mesh_C.compute_cell_dict', 'Mesh_C.compute_cell_entity_indices_dict', 'Mesh_C.compute_cell_vertices_dict', 'Mesh_C.compute_cell_neighbors_dict',
               'Mesh_C.compute_vertex_cells_dict', 'Mesh_C.compute_cell_facet_normals_dict', 'Mesh_C.compute_cell_volume_dict', 'Mesh_C.compute_cell_index', 'Mesh_C.copy'],
    explanation='Symbolic execution of the table builders from source over meshes with symbolic vertex positions (1D and 2D) and every numbering of the vertices and cells; z3 decides '
                'that neighbours share exactly the facet listed at their place, that the relation is mutual and open only at the boundary, that normals are unit, outward and '
                'orthogonal to their facet, that volumes are the geometric ones, and that a located point is in the cell returned.',
    bounds=dict(quick='1-3 cells; every vertex numbering of the 2-cell and 3-cell meshes in 1D and 2D, several in 3D; symbolic vertex positions in 1D (all) and 2D (one vertex); '
                      'Cartesian and spherical; two other meshes in use', thorough='as quick, every vertex numbering of the 3D meshes'),
    outside=['mesh files', 'meshes of surfaces (topological dimension below the geometric one)'],
    assumptions=['reals', "dolfin's own entity numbering conventions (validated against dolfin)", 'relative error up to 1e-12 allowed for the value of 4/3 pi'],
    reach=['exterior facet', 'interior facet', 'decreasing coordinates', 'spherical', 'point in the mesh', 'point outside the mesh', 'point shared by cells', 'beside other meshes'],
)


def number(k, v):
    return k.frac(v.numerator, v.denominator) if isinstance(v, Fraction) else v


def permuted(k, kind, perms):
    coords, cells = geometry(k, kind)
    n = len(coords)
    if perms == 'all':
        ps = list(itertools.permutations(range(n)))
    else:
        ps = [tuple((i + r) % n for i in range(n)) for r in range(n)] + [tuple((r - i) % n for i in range(n)) for r in range(n)]
    p = ps[k.choice('numbering', len(ps))]
    xs = [None] * n
    for i in range(n):
        xs[p[i]] = [Fraction(q) if k.symbolic else float(q) for q in coords[i]]
    cs = [sorted(p[v] for v in c) for c in cells]
    r = k.choice('first cell', len(cs))
    return xs, cs[r:] + cs[:r]


def build(k, xs, cs, spherical=False, copy=False):
    DM = k.repo('Dolfin_Module')
    m = k.mesh(xs, cs)
    M = DM.Mesh_C(**{'mesh_to_copy' if copy else 'Mesh': m}, coordinate_system='1D-spherical-radial' if spherical else 'Cartesian', compute_dictionaries=True, compute_tree=True)
    return DM, m, M


def tables(k, xs, cs, spherical=False, normals=True, other=None, copy=False):
    if other:
        # other meshes in use at the same time: one made before and one made after this one
        oxs, ocs = geometry(k, other)
        oxs = [[k.const(q) * 3 + 50 for q in p] for p in oxs]
        bs = build(k, oxs, ocs, spherical)
        tables_of(k, oxs, ocs, bs, spherical)
    b = build(k, xs, cs, spherical, copy)
    if other:
        build(k, [[k.const(q) * 5 + 90 for q in p] for p in geometry(k, 'tri' if len(oxs[0]) == 2 else other)[0]], geometry(k, 'tri' if len(oxs[0]) == 2 else other)[1], spherical)
        tables_of(k, oxs, ocs, bs, spherical)
        k.reach('beside other meshes')
    tables_of(k, xs, cs, b, spherical, normals)


def tables_of(k, xs, cs, built, spherical=False, normals=True):
    DM, m, M = built
    g = len(xs[0])
    nf = g + 1
    fs = {i: (sorted(vs), sorted(c)) for i, vs, c in facets_of(k, m)}
    verts = {c: sorted(vs) for c, vs in enumerate(cs)}
    nc = len(cs)
    for d in (M.cell_dict, M.cell_vertices_dict, M.cell_entity_indices_dict['facet'], M.cell_neighbors_dict, M.cell_facet_normals_dict, M.cell_volume_dict):
        if sorted(int(q) for q in d) != list(range(nc)):
            k.fail('a table does not have one entry per cell')
    for v in range(len(xs)):
        if sorted(int(c) for c in M.vertex_cells_dict[v]) != [c for c in range(nc) if v in verts[c]]:
            k.fail('the cells at a vertex are wrong')
    for c in range(nc):
        if int(M.cell_dict[c].index()) != c:
            k.fail('the cell table returns another cell')
        if sorted(int(v) for v in M.cell_vertices_dict[c]) != verts[c]:
            k.fail('the vertices of a cell are wrong')
        fl = [int(f) for f in M.cell_entity_indices_dict['facet'][c]]
        if len(fl) != nf or len(set(fl)) != nf or any(c not in fs[f][1] for f in fl):
            k.fail('the facets of a cell are wrong')
        nb = [int(q) for q in M.cell_neighbors_dict[c]]
        if len(nb) != nf:
            k.fail('a cell has too few neighbour entries')
        for i, f in enumerate(fl):
            other = [q for q in fs[f][1] if q != c]
            if nb[i] != (other[0] if other else DM.Mesh_C.NO_CELL):
                k.fail('the neighbour listed for a facet is not the cell behind it')
            k.reach('interior facet' if other else 'exterior facet')
            if other and c not in [int(q) for q in M.cell_neighbors_dict[other[0]]]:
                k.fail('the neighbour relation is not mutual')
            if normals:
                n = M.cell_facet_normals_dict[c][i]
                inner = [v for v in verts[c] if v not in fs[f][0]][0]
                a = xs[fs[f][0][0]]
                conds = [k.eq(sum(n[j] * n[j] for j in range(g)), 1),
                         k.le(sum(n[j] * num(k, xs[inner][j] - a[j]) for j in range(g)), 0)]
                conds += [k.eq(sum(n[j] * num(k, xs[v][j] - a[j]) for j in range(g)), 0) for v in fs[f][0][1:]]
                k.check(k.all(conds), 'the normal of a facet is unit, outward and orthogonal to it')
        v = M.cell_volume_dict[c]
        p = [xs[q] for q in verts[c]]
        if spherical:
            k.reach('spherical')
            r0, r1 = num(k, p[0][0]), num(k, p[1][0])
            if not k.is_true(k.ge(r1, r0)):
                r0, r1 = r1, r0
            want = (r1 * r1 * r1 - r0 * r0 * r0) * 4 * k.frac(*PI) / 3
            tol = want * k.frac(1, 10 ** 12)
            k.check(k.all([k.le(v, want + tol), k.ge(v, want - tol)]), 'the volume of a spherical shell')
        else:
            d = [[num(k, p[i + 1][j] - p[0][j]) for j in range(g)] for i in range(g)]
            if g == 1:
                D, f = d[0][0], 1
            elif g == 2:
                D, f = d[0][0] * d[1][1] - d[0][1] * d[1][0], 2
            else:
                D = sum(d[0][j] * (d[1][(j + 1) % 3] * d[2][(j + 2) % 3] - d[1][(j + 2) % 3] * d[2][(j + 1) % 3]) for j in range(3))
                f = 6
            k.check(k.all([k.ge(v, 0), k.any([k.eq(v * f, D), k.eq(v * f, -D)])]), 'the volume of a cell')


PI = (3141592653589793238462643383279, 10 ** 30)


def num(k, v):
    if isinstance(v, Fraction):
        return k.frac(v.numerator, v.denominator)
    return v


def numbered(k, kind, perms, spherical=False, other=None, copy=False):
    xs, cs = permuted(k, kind, perms)
    if len(xs[0]) == 1 and any(xs[c[0]][0] > xs[c[1]][0] for c in cs):
        k.reach('decreasing coordinates')
    tables(k, xs, cs, spherical, other=other, copy=copy)


def symbolic1(k, n, spherical=False, reverse=False):
    """1D: any increasing (or decreasing) positions."""
    x = [k.real('x0', 0, 10)]
    for i in range(n):
        d = k.real('d%d' % i, 0, 10)
        k.assume(d > 0.125)
        x.append(x[-1] + d)
    if reverse:
        x = x[::-1]
        k.reach('decreasing coordinates')
    tables(k, [[q] for q in x], [[i, i + 1] for i in range(n)], spherical)


def symbolic2(k):
    """2D: two triangles that share an edge; the last vertex is anywhere beyond it.  (Normals are checked on the concrete meshes.)"""
    a, b = k.real('a', -20, 20), k.real('b', -20, 20)
    k.assume(3 * a + 4 * b > 13)
    z = k.const(0)
    tables(k, [[z, z], [k.const(4), z], [z, k.const(3)], [a, b]], [[0, 1, 2], [1, 2, 3]], normals=False)


def locate(k, kind, spherical=False):
    """compute_cell_index() for every point of space."""
    coords, cells = geometry(k, kind)
    DM, m, M = build(k, [[Fraction(q) if k.symbolic else float(q) for q in p] for p in coords], cells, spherical)
    x = [k.real('x%d' % i) for i in range(len(coords[0]))]
    ins = [c for c in range(len(cells)) if k.is_true(k.inside(m, c, x))]
    try:
        r = int(M.compute_cell_index(k.np.array(x)))
    except (SystemExit, RuntimeError, ValueError):
        r = None
    if ins:
        k.reach('point in the mesh')
        if len(ins) > 1:
            k.reach('point shared by cells')
        if r not in ins:
            k.fail('the cell found for a point does not contain it')
    else:
        k.reach('point outside the mesh')
        if r not in (None, DM.Mesh_C.NO_CELL):
            k.fail('a point outside the mesh is given cell %s' % r)


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for kind, perms in (('one', 'all'), ('line', 'all'), ('tri', 'all'), ('rect', 'all'), ('fan', 'all' if tier == 'thorough' else 'some'),
                        ('tet', 'some' if tier == 'quick' else 'all'), ('tets', 'some' if tier == 'quick' else 'all'), ('tets3', 'some')):
        job('numbered', 9, kind=kind, perms=perms)
    job('numbered', kind='shell', perms='all', spherical=True)
    for kind, other in (('line', 'one'), ('one', 'enil'), ('rect', 'fan'), ('fan', 'tri'), ('tets', 'tet'), ('shell', 'shell')):
        job('numbered', kind=kind, perms='some', other=other, spherical=kind == 'shell')
    for kind in ('line', 'rect', 'tets'):
        job('numbered', kind=kind, perms='some', copy=True)
    for n in (1, 2, 3):
        for rev in (False, True):
            job('symbolic1', n=n, reverse=rev)
            job('symbolic1', n=n, reverse=rev, spherical=True)
    job('symbolic2', 5)
    for kind in ('line', 'enil', 'rect', 'fan', 'tets'):
        job('locate', kind=kind)
    job('locate', kind='shell', spherical=True)
    return out
