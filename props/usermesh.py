"""P22: the meshes made for the user have the shape asked for, and exactly the named boundaries are marked."""
import math
from fractions import Fraction
from .common import facets_of

PROPERTY = dict(
    title='The meshes made from user input have the shape asked for, and exactly the named boundaries carry their numbers',
    files=['UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py', 'Dolfin_Module.py'],
    functions=['UserMesh_C.__init__', 'UserMesh_C.create_mesh', 'UserMesh2DCirc_C.__init__', 'UserMesh2DCirc_C.create_mesh', 'UserMesh1DS_C.__init__', 'UserMesh1DS_C.create_mesh',
               'XBoundary.inside', 'YBoundary.inside', 'XBoundary_C.inside', 'YBoundary_C.inside', 'Mesh_C.__init__'],
    explanation='Symbolic execution of the mesh constructors from source over the grids of dolfin with symbolic corners: z3 decides for every position and size of the region that each '
                'vertex is where the grid, the stretching and the map to a circle put it, that every boundary facet has the number given for its side, and that no other facet is marked.',
    bounds=dict(quick='corners within +-8, sides 1/8 to 8; 1-3 cells per side in 1D, 1-2 in 2D (every diagonal), 1 in 3D; stretch 1-3; 4 angles; mesh and marker files for 3 mesh classes',
                thorough='1-6 cells per side in 1D, 1-3 in 2D, 1-2 in 3D'),
    outside=['particle source markers (unfinished in the code)', 'fractional stretch exponents', 'plots'],
    assumptions=['reals', "dolfin's grids and files (modelled; validated against dolfin)", 'sine and cosine of concrete angles to within 1e-9'],
    reach=['field boundary', 'particle boundary', 'interior facet', 'no boundaries', 'stretched', 'circle', 'box', 'files', 'equal numbers'],
)

NUMBERS = [(1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1), (9, 9, 4, 4, 9, 4)]


class U:
    pass


def numbers(k, names, what):
    """{name: number} or None"""
    c = k.choice(what, len(NUMBERS) + 1)
    if c == len(NUMBERS):
        k.reach('no boundaries')
        return None
    k.reach('%s boundary' % what)
    if c == 2:
        k.reach('equal numbers')
    return {n: NUMBERS[c][i] for i, n in enumerate(names)}


def interval(k, name):
    a = k.real(name + 'min', -8, 8)
    w = k.real(name + '_width', k.frac(1, 8), 8)
    return a, a + w


def check_marks(k, mesh, mf, given, sides, what):
    """sides: {name: set of vertices}.  Exactly the facets whose vertices are all on a side have its number."""
    if given is None:
        if mf is not None:
            for i, vs, cs in facets_of(k, mesh):
                if int(mf[i]) != 0:
                    k.fail('a facet is marked although no %s boundary was given' % what)
        return
    if mf is None:
        k.fail('the %s boundaries were not marked' % what)
    for i, vs, cs in facets_of(k, mesh):
        on = [n for n, s in sides.items() if set(vs) <= s and len(cs) == 1]
        if len(on) > 1:
            k.fail('a facet is on two sides')
        if not on:
            k.reach('interior facet')
        want = given[on[0]] if on and on[0] in given else 0
        if int(mf[i]) != want:
            k.fail('the %s number of the facet %s is %d instead of %d' % (what, on or 'inside', int(mf[i]), want))


def check_vertices(k, mesh, want, slack=None):
    """want: coordinates of every vertex"""
    X = mesh.coordinates()
    if len(X) != len(want):
        k.fail('the mesh has %d vertices instead of %d' % (len(X), len(want)))
    for v, p in enumerate(want):
        for d, q in enumerate(p):
            if slack is None:
                k.check(k.eq(X[v][d], q), 'vertex %d is not where the grid puts it' % v)
            else:
                k.check(k.all([k.le(X[v][d] - q, slack), k.le(q - X[v][d], slack)]), 'vertex %d is not where the grid puts it' % v)


def parametric(ns, diagonal=None):
    """Grid coordinates in [0,1] of every vertex, in the order of dolfin."""
    ax = [[Fraction(i, n) for i in range(n + 1)] for n in ns]
    pts = [[]]
    for a in reversed(ax):
        pts = [p + [q] for p in pts for q in a]
    pts = [list(reversed(p)) for p in pts]
    if diagonal == 'crossed':
        pts += [[Fraction(2 * i + 1, 2 * ns[0]), Fraction(2 * j + 1, 2 * ns[1])] for j in range(ns[1]) for i in range(ns[0])]
    return pts


def frac(k, q):
    return k.frac(q.numerator, q.denominator)


def sides_of(par, names):
    out = {}
    for d, (lo, hi) in enumerate(names):
        out[lo] = {v for v, p in enumerate(par) if p[d] == 0}
        out[hi] = {v for v, p in enumerate(par) if p[d] == 1}
    return out


def attributes(k, M, g, system):
    if M.mesh.geometry().dim() != g or M.gdim != g or M.tdim != g:
        k.fail('the mesh does not have %d dimensions' % g)
    if M.coordinate_system != system:
        k.fail('the coordinate system is %r' % (M.coordinate_system,))


def cartesian(k, ns, diagonal=None):
    g = len(ns)
    M = k.repo('UserMesh_y_Fields_FE_XYZ_Module')
    box = [interval(k, 'xyz'[d]) for d in range(g)]
    umi = M.UserMeshInput_C()
    umi.pmin, umi.pmax = k.df.Point(*[b[0] for b in box]), k.df.Point(*[b[1] for b in box])
    umi.cells_on_side = tuple(ns)
    if diagonal:
        umi.diagonal = diagonal
    names = [('xmin', 'xmax'), ('ymin', 'ymax'), ('zmin', 'zmax')][:g]
    flat = [n for p in names for n in p]
    fields = numbers(k, flat, 'field') if g == 1 else None
    parts = numbers(k, flat, 'particle')
    umi.field_boundary_dict, umi.particle_boundary_dict = fields, parts
    m = M.UserMesh_C(umi)
    attributes(k, m, g, 'Cartesian')
    par = parametric(ns, diagonal)
    check_vertices(k, m.mesh, [[b[0] + (b[1] - b[0]) * frac(k, q) for b, q in zip(box, p)] for p in par])
    sides = sides_of(par, names)
    if g == 1:
        check_marks(k, m.mesh, m.field_boundary_marker, fields, sides, 'field')
    if g == 3:
        k.reach('box')
    check_marks(k, m.mesh, m.particle_boundary_marker, parts, sides, 'particle')
    check_dicts(k, m, fields, parts)


def check_dicts(k, m, fields, parts):
    if m.field_boundary_dict != fields or m.particle_boundary_dict != parts:
        k.fail('the mesh does not keep the names of its boundaries')


def spherical(k, n, stretch):
    M = k.repo('UserMesh_y_Fields_Spherical1D_Module')
    umi = M.UserMeshInput1DS_C()
    a = k.real('rmin', 0, 8)
    b = a + k.real('width', k.frac(1, 8), 8)
    umi.rmin, umi.rmax, umi.nr, umi.stretch = a, b, n, stretch
    fields, parts = numbers(k, ['rmin', 'rmax'], 'field'), numbers(k, ['rmin', 'rmax'], 'particle')
    umi.field_boundary_dict, umi.particle_boundary_dict = fields, parts
    m = M.UserMesh1DS_C(umi)
    attributes(k, m, 1, '1D-spherical-radial')
    if stretch != 1:
        k.reach('stretched')
    par = parametric([n])
    check_vertices(k, m.mesh, [[a + (b - a) * frac(k, p[0] ** stretch)] for p in par])
    sides = sides_of(par, [('rmin', 'rmax')])
    check_marks(k, m.mesh, m.field_boundary_marker, fields, sides, 'field')
    check_marks(k, m.mesh, m.particle_boundary_marker, parts, sides, 'particle')
    check_dicts(k, m, fields, parts)


def circle(k, ns, stretch, diagonal, angle):
    M = k.repo('UserMesh_y_Fields_FE2D_Module')
    umi = M.UserMeshInput2DCirc_C()
    a = k.real('rmin', 0, 8)
    b = a + k.real('width', k.frac(1, 8), 8)
    tmax = {'right': math.pi / 2, 'half': math.pi, 'sharp': 0.25, 'wide': 4.0}[angle]
    umi.rmin, umi.rmax, umi.stretch, umi.nr, umi.tmax, umi.nt, umi.diagonal = a, b, stretch, ns[0], tmax, ns[1], diagonal
    fields, parts = numbers(k, ['rmin', 'rmax'], 'field'), numbers(k, ['rmin', 'rmax', 'thmin', 'thmax'], 'particle')
    umi.field_boundary_dict, umi.particle_boundary_dict = fields, parts
    m = M.UserMesh2DCirc_C(umi)
    attributes(k, m, 2, 'Cartesian')
    k.reach('circle')
    if stretch != 1:
        k.reach('stretched')
    par = parametric(ns, diagonal)
    want = []
    for s, t in par:
        r = a + (b - a) * frac(k, s ** stretch)
        want.append([r * math.cos(tmax * float(t)), r * math.sin(tmax * float(t))])
    check_vertices(k, m.mesh, want, slack=k.frac(1, 10 ** 7))
    sides = sides_of(par, [('rmin', 'rmax'), ('thmin', 'thmax')])
    check_marks(k, m.mesh, m.field_boundary_marker, fields, {n: s for n, s in sides.items() if n[0] == 'r'}, 'field')
    check_marks(k, m.mesh, m.particle_boundary_marker, parts, sides, 'particle')
    check_dicts(k, m, fields, parts)


def files(k, cls, which):
    """The mesh and its markers come from files."""
    from .common import geometry
    kind = 'line' if cls == '1DS' else 'fan'
    coords, cells = geometry(k, kind)
    m0 = k.mesh(coords, cells)
    k.df.File('m.xml') << m0
    t = len(cells[0]) - 1
    k.reach('files')
    marks = {}
    for w in which:
        mf = k.df.MeshFunction('size_t', m0, t - 1)
        mf.set_all(0)
        base = dict(field=2, particle=7)[w]
        for i, vs, cs in facets_of(k, m0):
            if len(cs) == 1:
                mf[i] = base + i
        k.df.File(w + '.xml') << mf
        marks[w] = {tuple(sorted(vs)): int(mf[i]) for i, vs, cs in facets_of(k, m0)}
    if cls == 'base':
        DM = k.repo('Dolfin_Module')
        kw = dict(field_boundary_marker_file='field.xml') if 'field' in which else {}
        M = DM.Mesh_C(mesh_file='m.xml', coordinate_system='Cartesian', **kw)
        attributes(k, M, t, 'Cartesian')
    else:
        mod, inp, usr, system = {'1DS': ('UserMesh_y_Fields_Spherical1D_Module', 'UserMeshInput1DS_C', 'UserMesh1DS_C', '1D-spherical-radial'),
                                 '2D': ('UserMesh_y_Fields_FE2D_Module', 'UserMeshInput2DCirc_C', 'UserMesh2DCirc_C', 'Cartesian')}[cls]
        R = k.repo(mod)
        umi = getattr(R, inp)()
        umi.mesh_file = 'm.xml'
        umi.field_boundary_file = 'field.xml' if 'field' in which else None
        umi.particle_boundary_file = 'particle.xml' if 'particle' in which else None
        M = getattr(R, usr)(umi)
        attributes(k, M, t, system)
    check_vertices(k, M.mesh, [[frac(k, Fraction(q)) if not k.symbolic else Fraction(q) for q in p] for p in coords])
    if sorted(sorted(int(v) for v in c) for c in M.mesh.cells()) != sorted(sorted(c) for c in cells):
        k.fail('the cells are not those of the file')
    for w in which:
        mf = getattr(M, w + '_boundary_marker', None)
        if mf is None:
            k.fail('the %s boundary markers of the file are not used' % w)
        for i, vs, cs in facets_of(k, M.mesh):
            if int(mf[i]) != marks[w][tuple(sorted(vs))]:
                k.fail('the %s boundary number of a facet is not that of the file' % w)


DIAGONALS = ['left', 'right', 'left/right', 'right/left', 'crossed']


def jobs(tier):
    big = tier == 'thorough'
    out = []

    def add(fn, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % i for i in cfg.items()), fn=fn, cfg=cfg, weight=1))
    for n in range(1, 7 if big else 4):
        add('cartesian', ns=[n])
        for s in (1, 2, 3):
            add('spherical', n=n, stretch=s)
    top = 3 if big else 2
    grids = [[i, j] for i in range(1, top + 1) for j in range(1, top + 1)]
    for ns in grids:
        for d in [None] + DIAGONALS:
            add('cartesian', ns=ns, diagonal=d)
    for ns in grids:
        for d in DIAGONALS if big or ns != [1, 1] else ['right', 'crossed']:
            for s in (1, 2):
                add('circle', ns=ns, stretch=s, diagonal=d, angle='right')
    for a in ('half', 'sharp', 'wide'):
        add('circle', ns=[2, 2], stretch=3, diagonal='crossed', angle=a)
    for ns in ([[i, j, l] for i in (1, 2) for j in (1, 2) for l in (1, 2)] if big else [[1, 1, 1], [2, 1, 1], [1, 1, 2]]):
        add('cartesian', ns=ns)
    for c in ('1DS', '2D'):
        for w in (['field'], ['particle'], ['field', 'particle']):
            add('files', cls=c, which=w)
    add('files', cls='base', which=['field'])
    add('files', cls='base', which=[])
    return out
