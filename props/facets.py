"""P07: the facet finder."""
from fractions import Fraction
from .common import Sim
from .boundary import plane, num

PROPERTY = dict(
    title='The facet crossed first is found for every start point and displacement',
    files=['Dolfin_Module.py'],
    functions=['Mesh_C.find_facet', 'Mesh_C.is_inside_cell', 'Mesh_C.compute_cell_facet_normals_dict', 'Mesh_C.compute_cell_entity_indices_dict',
               'Mesh_C.compute_cell_neighbors_dict', 'Mesh_C.compute_cell_dict'],
    explanation='Bounded symbolic execution of the facet finder from source: start point (anywhere in the closed cell) and displacement are symbolic. z3 decides, '
                'for every facet of the cell, that the answer is "none" exactly when the end point lies in the closed cell, and otherwise names a facet '
                'containing the crossing point, with the right fraction and the unit outward normal; no facet plane is met earlier.',
    bounds='every cell of the 1D, 2D and 3D meshes (up to 3 cells, intervals in both orders, right and slanted triangles and tetrahedra); start in the closed cell; '
           'displacement arbitrary, including zero and along a facet',
    outside=['start points outside the cell (round-off repair)', 'irrational facet normals', 'rounding'],
    assumptions=['coordinates are mathematical reals', 'dolfin mesh connectivity and facet normals (stand-in validated against dolfin)'],
    reach=['no facet', 'facet', 'zero displacement', 'start on the facet', 'through a vertex or edge'],
)


def find(k, kind, cell, spherical=False, extra=0):
    s = Sim(k, kind, [('a', k.const(1), k.const(1), 'charged')], spherical=spherical)
    M = s.mesh_M
    dim = s.dim
    x = s.point_in(cell, 'x')
    d = [k.real('d%d' % i) for i in range(dim)]
    if extra == 0:
        r0, dr = k.np.array(x), k.np.array(d)
    else:
        # more coordinates than the mesh has: the rest is ignored
        r0, dr = k.np.array(list(x) + [k.const(5)] * extra), k.np.array(list(d) + [k.const(-3)] * extra)
    keep = list(r0), list(dr)
    f, frac, n = M.find_facet(r0, dr, cell)
    k.check(k.all([k.eq(a, b) for a, b in zip(r0, keep[0])] + [k.eq(a, b) for a, b in zip(dr, keep[1])]), 'the arguments are left alone')
    end = [x[i] + d[i] for i in range(dim)]
    f = int(f)
    inside = k.is_true(k.inside(s.mesh, cell, end))
    if f == s.DM.Mesh_C.NO_FACET:
        k.reach('no facet')
        if k.is_true(k.all([k.eq(q, 0) for q in d])):
            k.reach('zero displacement')
        if not inside:
            k.fail('no facet is found although the displacement leaves the cell')
        k.check(k.eq(frac, 1), 'the whole displacement is in the cell when no facet is crossed')
        return
    k.reach('facet')
    if inside:
        k.fail('a facet is found although the end point is in the cell')
    nf = dim + 1
    if not 0 <= f < nf:
        k.fail('the facet number is not one of the cell')
    mf = int(M.cell_entity_indices_dict['facet'][cell][f])
    if mf not in s.facet_cells or cell not in s.facet_cells[mf]:
        k.fail('the facet found is not a facet of the cell')
    others = [c for c in s.facet_cells[mf] if c != cell]
    nb = int(M.cell_neighbors_dict[cell][f])
    if nb != (others[0] if others else s.DM.Mesh_C.NO_CELL):
        k.fail('the neighbour across the facet found is not the cell on its other side')
    frac = frac if dim > 1 else k.np.asarray(frac).reshape(-1)[0]
    k.check(k.all([k.ge(frac, 0), k.le(frac, 1)]), 'the fraction is between 0 and 1')
    p = [x[i] + frac * d[i] for i in range(dim)]
    b = s.bary(cell, p)
    k.check(k.all([k.ge(b[i], 0) if v in s.facet_verts[mf] else k.eq(b[i], 0) for i, v in enumerate(s.cells[cell])]),
            'the displacement meets the facet found first, at the fraction returned')
    vs = s.facet_verts[mf]
    inner = [v for v in s.cells[cell] if v not in vs]
    if dim > 1:
        N, _ = plane([s.verts[v] for v in vs], [s.verts[v] for v in inner], dim)
    else:
        N = [Fraction(1 if s.verts[vs[0]][0] > s.verts[inner[0]][0] else -1)]
    n = [n[i] for i in range(dim)]
    k.check(k.all([k.eq(sum(q * q for q in n), 1), k.ge(sum(n[i] * num(k, N[i]) for i in range(dim)), 0)] +
                  [k.eq(n[i] * num(k, N[j]), n[j] * num(k, N[i])) for i in range(dim) for j in range(i)]),
            'the normal returned is the unit outward normal of the facet found')
    if k.is_true(k.eq(frac, 0)):
        k.reach('start on the facet')
    if dim > 1 and k.is_true(k.any([k.eq(b[i], 0) for i, v in enumerate(s.cells[cell]) if v in vs])):
        k.reach('through a vertex or edge')


def inside(k, kind, cell, spherical=False, extra=0):
    """Point-in-cell test, for every point of space."""
    s = Sim(k, kind, [('a', k.const(1), k.const(1), 'charged')], spherical=spherical)
    x = [k.real('x%d' % i) for i in range(s.dim)]
    r = bool(s.mesh_M.is_inside_cell(k.np.array(x), cell))
    t = k.is_true(k.inside(s.mesh, cell, x))
    if r != t:
        k.fail('the point-in-cell test is wrong')
    k.reach('inside' if t else 'outside')


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for kind, n, sph in (('one', 1, False), ('line', 3, False), ('enil', 3, False), ('shell', 2, True), ('tri', 1, False), ('rect', 2, False), ('fan', 3, False),
                         ('tet', 1, False), ('tets', 2, False), ('tets3', 2 if tier == 'quick' else 3, False)):
        for c in range(n):
            job('find', 5, kind=kind, cell=c, spherical=sph)
            job('inside', kind=kind, cell=c, spherical=sph)
    job('find', kind='line', cell=1, extra=2)
    job('find', kind='rect', cell=1, extra=1)
    return out
