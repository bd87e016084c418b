"""P16: operations on fields act on every value once, and interpolation gives the field."""
from .common import Sim
from .deposit import nodes, percell

PROPERTY = dict(
    title='Field operations act on every value once; interpolated values are those of the field',
    files=['Dolfin_Module.py'],
    functions=['Field_C.__init__', 'Field_C.set_values', 'Field_C.multiply_values', 'Field_C.set_gaussian_values', 'Field_C.multiply_add', 'Field_C.interpolate_field_to_points',
               'Field_C.interpolate_random_field_to_points', 'CellSet_C.__init__'],
    explanation='Symbolic execution of the field operations from source over symbolic nodal and cell values, factors, points and random numbers; z3 decides that each value is set, '
                'scaled or added to exactly once inside the given region and treated as documented outside, and that interpolation gives the value of the field at each point asked for.',
    bounds=dict(quick='meshes of 1-3 cells in 1D, 2D and 3D; linear and cell-constant fields, scalar and vector; every choice of region by symbolic limits in 1D and several in 2D and 3D; up to 3 points',
                thorough='as quick with more points'),
    outside=['elements of degree 2 and more', 'gaussian values of nodal fields over a region (documented as unfinished)'],
    assumptions=['reals', 'dolfin evaluates linear and constant elements (modelled by barycentric coordinates)'],
    reach=['region smaller than the mesh', 'value shared by cells of the region', 'whole field', 'point on a shared facet', 'random number drawn', 'zero field draws nothing', 'one component vanishes'],
)


def build(k, kind):
    return Sim(k, kind, [('a', k.const(1), k.const(1), 'charged')])


def scalar(k, s, el, name='f'):
    F = s.DM.Field_C(s.mesh_M, 'Lagrange' if el == 1 else 'DG', el, 'scalar')
    n = len(F.function_values)
    for i in range(n):
        F.function_values[i] = k.real('%s%d' % (name, i))
    return F


def vector(k, s, el, name='f'):
    F = s.DM.Field_C(s.mesh_M, 'Lagrange' if el == 1 else 'DG', el, 'vector')
    n = len(F.function_values)
    for i in range(n):
        F.function_values[i] = k.real('%s%d' % (name, i))
    return F


def values(F):
    return [F.function_values[i] for i in range(len(F.function_values))]


def region(k, s, which):
    """(region object, set of its cells)"""
    if which is None:
        return None, None
    if which == 'any':
        a, b = k.real('lo', 0, 4), k.real('hi', 0, 4)
        k.assume_c(k.all([k.le(a, 2), k.ge(b, 2)]))
        R = s.DM.RectangularRegion_C(s.mesh_M, a, b)
    elif which == 'whole':
        R = s.DM.WholeMesh_C(s.mesh_M)
    else:
        R = s.DM.RectangularRegion_C(s.mesh_M, *which)
    cells = [int(c) for c in R.cell_index]
    if len(cells) < len(s.cells):
        k.reach('region smaller than the mesh')
    return R, cells


def inside_dofs(k, s, F, cells):
    dm = F.function_space.dofmap()
    per = [set(int(d) for d in dm.cell_dofs(c)) for c in cells]
    u = set()
    for p in per:
        if u & p:
            k.reach('value shared by cells of the region')
        u |= p
    return u


def call(f, R, *a):
    return f(*a) if R is None else f(*a, subdomain=R)


def setting(k, kind, el, vec, which):
    s = build(k, kind)
    F = (vector if vec else scalar)(k, s, el)
    old = values(F)
    R, cells = region(k, s, which)
    v = k.real('value')
    call(F.set_values, R, v)
    ins = set(range(len(old))) if R is None else inside_dofs(k, s, F, cells)
    if R is None:
        k.reach('whole field')
    new = values(F)
    for i in range(len(old)):
        k.check(k.eq(new[i], v if i in ins else 0), 'set_values sets the value inside the region and zero outside')


def scaling(k, kind, el, vec, which):
    s = build(k, kind)
    F = (vector if vec else scalar)(k, s, el)
    old = values(F)
    R, cells = region(k, s, which)
    v = k.real('factor')
    call(F.multiply_values, R, v)
    ins = set(range(len(old))) if R is None else inside_dofs(k, s, F, cells)
    new = values(F)
    for i in range(len(old)):
        k.check(k.eq(new[i], old[i] * v if i in ins else old[i]), 'multiply_values multiplies every value inside the region once and leaves the others')


def random_scaling(k, kind, el, vec, which=None):
    s = build(k, kind)
    F = (vector if vec else scalar)(k, s, el)
    old = values(F)
    R, cells = region(k, s, which)
    v = k.real('sigma', 0)
    if R is None:
        F.multiply_values(v, gaussian=True)
    else:
        F.multiply_values(v, gaussian=True, subdomain=R)
    new, g = values(F), k.gauss()
    if R is not None:
        ins = inside_dofs(k, s, F, cells)
        if len(g) < len(cells):
            k.fail('%d random numbers are drawn for %d cells' % (len(g), len(cells)))
        for i in range(len(old)):
            if i not in ins:
                k.check(k.eq(new[i], old[i]), 'values outside the region are left alone')
            elif not any(same(k, new[i], old[i] * v * q) for q in g):
                k.fail('a value of the region is not multiplied by a random number')
        k.reach('random number drawn')
        return
    if len(g) != len(old):
        k.fail('%d random numbers are drawn for %d values' % (len(g), len(old)))
    k.reach('random number drawn')
    for i in range(len(old)):
        k.check(k.eq(new[i], old[i] * v * g[i]), 'each value is multiplied by a random number of its own')


def gaussian(k, kind, vec, which):
    """Cell-constant fields (or the whole of any field)."""
    s = build(k, kind)
    F = (vector if vec else scalar)(k, s, 0 if which is not None else 1)
    n = len(values(F))
    R, cells = region(k, s, which)
    v = k.real('sigma', 0)
    call(F.set_gaussian_values, R, v)
    new, g = values(F), k.gauss()
    if R is None:
        if len(g) != n:
            k.fail('%d random numbers are drawn for %d values' % (len(g), n))
        for i in range(n):
            k.check(k.eq(new[i], v * g[i]), 'each value is a normal number times the deviation')
        return
    if len(g) < len(cells):
        k.fail('too few random numbers are drawn')
    dm = F.function_space.dofmap()
    for c in range(len(s.cells)):
        for d in dm.cell_dofs(c):
            if c not in cells:
                k.check(k.eq(new[int(d)], 0), 'values outside the region are zero')
    free = list(range(len(g)))
    for c in cells:
        d = [int(q) for q in dm.cell_dofs(c)]
        hit = [j for j in free if all(same(k, new[q], v * g[j]) for q in d)]
        if not hit:
            k.fail('the values of a cell are not the deviation times a normal number of its own')
        free.remove(hit[0])


def same(k, a, b):
    return k.identical(a, b) if k.symbolic else k.is_true(k.eq(a, b))


def adding(k, kind, el, vec, mult):
    s = build(k, kind)
    mk = vector if vec else scalar
    F, G = mk(k, s, el, 'f'), mk(k, s, el, 'g')
    f, g = values(F), values(G)
    m = k.real('m')
    if mult:
        F.multiply_add(G, m)
    else:
        F.multiply_add(G)
        m = k.const(1)
    new = values(F)
    for i in range(len(f)):
        k.check(k.all([k.eq(new[i], f[i] + m * g[i]), k.eq(values(G)[i], g[i])]), 'multiply_add adds the multiple of the other field, which it leaves alone')


def cellvalue(k, s, F, c, x):
    """Components of a field at x, seen from cell c."""
    dm = F.function_space.dofmap()
    d = [int(q) for q in dm.cell_dofs(c)]
    nc = s.dim if F.field_type == 'vector' else 1
    v = values(F)
    if len(d) == nc:
        return [v[q] for q in d]
    b = s.bary(c, x)
    if not k.symbolic:
        # the order of the nodes of a cell in dolfin
        order = [int(q) for q in k.df.Cell(s.mesh, c).entities(0)]
        b = [b[s.cells[c].index(q)] for q in order]
    n = len(b)
    return [sum(b[i] * v[d[j * n + i]] for i in range(n)) for j in range(nc)]


def points(k, kind, el, vec, N, rnd=False, extra=1):
    s = build(k, kind)
    F = (vector if vec else scalar)(k, s, el)
    if rnd:
        # the field vanishes somewhere: no random number is drawn there
        z = k.choice('zero', 2 + (s.dim if vec and s.dim > 1 else 0))
        if z == 1:
            F.set_values(0.0)
        elif z:
            # one component vanishes everywhere
            dm = F.function_space.dofmap()
            for c in range(len(s.cells)):
                d = [int(q) for q in dm.cell_dofs(c)]
                n = len(d) // s.dim
                for q in d[(z - 2) * n:(z - 1) * n]:
                    F.function_values[q] = 0.0
            k.reach('one component vanishes')
    nc = s.dim if vec else 1
    np = k.np
    P = s.P
    pts = np.empty(N, dtype=P.particle_dtype)
    xs = []
    for i in range(N):
        c = k.choice('cell%d' % i, len(s.cells))
        x = s.point_in(c, 'x%d' % i)
        for j in range(s.dim):
            pts[i][j] = x[j]
        xs.append(x)
    out = np.empty(N + extra, dtype={'names': ['E' + q for q in s.coords][:nc], 'formats': [np.float64] * nc})
    keep = k.real('keep')
    for i in range(N + extra):
        for j in range(nc):
            out[i][j] = keep
    if rnd:
        F.interpolate_random_field_to_points(pts, out)
    else:
        F.interpolate_field_to_points(pts, out)
    g = k.gauss()
    used = 0
    for i in range(N):
        touching = [c for c in range(len(s.cells)) if k.is_true(k.inside(s.mesh, c, xs[i]))]
        if len(touching) > 1:
            k.reach('point on a shared facet')
        got = [out[i][j] for j in range(nc)]
        if not rnd:
            k.check(k.any([k.all([k.eq(a, b) for a, b in zip(got, cellvalue(k, s, F, c, xs[i]))]) for c in touching]), 'the interpolated value is that of the field at the point')
            continue
        v = cellvalue(k, s, F, touching[0], xs[i])
        if k.is_true(k.all([k.eq(q, 0) for q in v])):
            k.reach('zero field draws nothing')
            k.check(k.all([k.eq(q, 0) for q in got]), 'a field that vanishes at the point gives zero')
            continue
        if used >= len(g):
            k.fail('no random number is drawn for a point')
        k.reach('random number drawn')
        k.check(k.all([k.eq(a, b * g[used]) for a, b in zip(got, v)]), 'the random field is the field at the point times a random number of its own')
        used += 1
    for i in range(N, N + extra):
        k.check(k.all([k.eq(out[i][j], keep) for j in range(nc)]), 'entries beyond the points are left alone')


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for fn in ('setting', 'scaling'):
        for el in (0, 1):
            job(fn, kind='line', el=el, vec=False, which=None)
            job(fn, kind='tets', el=el, vec=True, which=None)
            job(fn, kind='line', el=el, vec=False, which='any')
            job(fn, kind='enil', el=el, vec=True, which='any')
            job(fn, kind='fan', el=el, vec=False, which='whole')
            job(fn, kind='fan', el=el, vec=True, which=[[2, 1], [9, 9]])
            job(fn, kind='tets3', el=el, vec=False, which=[[-1, 0, 0], [3, 3, 3]])
    for el in (0, 1):
        job('random_scaling', kind='line', el=el, vec=False)
        job('random_scaling', kind='rect', el=el, vec=True)
        job('random_scaling', kind='line', el=el, vec=False, which='any')
        job('random_scaling', kind='fan', el=el, vec=True, which=[[2, 1], [9, 9]])
        for vec in (False, True):
            for mult in (False, True):
                job('adding', kind='rect', el=el, vec=vec, mult=mult)
    for w in (None, 'any', 'whole'):
        job('gaussian', kind='line', vec=False, which=w)
    job('gaussian', kind='fan', vec=True, which=[[2, 1], [9, 9]])
    job('gaussian', kind='fan', vec=True, which='whole')
    for kind, N in (('line', 3), ('enil', 2), ('rect', 2), ('fan', 1), ('tets', 1)):
        for el in (0, 1):
            job('points', 3, kind=kind, el=el, vec=True, N=N)
        job('points', kind=kind, el=1, vec=False, N=1)
    for kind, N in (('line', 2), ('rect', 1), ('tet', 1)):
        job('points', kind=kind, el=1, vec=True, N=N, rnd=True)
    if tier == 'thorough':
        for kind, N in (('line', 4), ('fan', 3), ('tets3', 2)):
            for el in (0, 1):
                job('points', 9, kind=kind, el=el, vec=True, N=N)
    return out
