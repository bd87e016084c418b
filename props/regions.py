"""P14: a region holds exactly the cells whose midpoint is in it."""
from .common import Sim, geometry
from .deposit import volume

PROPERTY = dict(
    title='A region holds exactly the cells whose midpoint lies in it, with their own data',
    files=['Dolfin_Module.py'],
    functions=['CellSet_C.__init__', 'CellSet_C.in_cell', 'RectangularRegion_C.__init__', 'RectangularRegion_C.inside', 'SphericalRegion_C.__init__', 'SphericalRegion_C.inside',
               'WholeMesh_C.__init__', 'Mesh_C.compute_cell_volume_dict'],
    explanation='Symbolic execution of the region classes from source with symbolic region limits (and symbolic vertex positions in 1D); z3 decides for every cell that it '
                'belongs to the region exactly when its midpoint does, that the stored index, midpoint and volume are those of the cell, and that the cell test is exact.',
    bounds=dict(quick='meshes of 1-3 cells in 1D, 2D and 3D; any limits; any test point', thorough='as quick'),
    outside=['midpoints closer than 1e-6 to the limits (round-off tolerance of the code)', 'circular regions in more than one dimension (the code tests the first coordinate only)'],
    assumptions=['reals'],
    reach=['cell in the region', 'cell outside the region', 'empty region refused', 'midpoint on the limit', 'point in the cell', 'point outside the cell', 'point in the region', 'point outside the region'],
)


def mid(k, s, c, i):
    from fractions import Fraction
    v = sum(Fraction(s.verts[q][i]) for q in s.cells[c]) / len(s.cells[c])
    return k.frac(v.numerator, v.denominator)


def near(k, d):
    """|d| is smaller than the tolerance granted (but not zero)."""
    return k.is_true(k.all([k.le(d, k.frac(1, 10 ** 6)), k.ge(d, -k.frac(1, 10 ** 6))])) and not k.is_true(k.eq(d, 0))


def same(k, s, R, cells):
    got = [int(R.cell_index[i]) for i in range(int(R.ncell))]
    if sorted(got) != sorted(cells):
        k.fail('the region holds the cells %s instead of %s' % (sorted(got), sorted(cells)))
    if len(R.cell_list) != len(got) or [int(c.index()) for c in R.cell_list] != got:
        k.fail('the list of cells and the list of indices differ')
    for i, c in enumerate(got):
        k.check(k.all([k.eq(R.midpoint[i][j], mid(k, s, c, j)) for j in range(s.dim)]), 'the stored midpoint is that of the cell')
        if not s.spherical:
            k.check(k.eq(R.volume[i], volume(k, s, c)), 'the stored volume is that of the cell')
        else:
            k.check(k.eq(R.volume[i], s.mesh_M.cell_volume_dict[c]), 'the stored volume is that of the cell')


def build(k, kind, spherical=False):
    s = Sim(k, kind, [('a', k.const(1), k.const(1), 'charged')], spherical=spherical)
    s.spherical = spherical
    return s


def box(k, kind, scalar=False, spherical=False):
    s = build(k, kind, spherical)
    lo = [k.real('lo%d' % i) for i in range(s.dim)]
    hi = [k.real('hi%d' % i) for i in range(s.dim)]
    cells = []
    for c in range(len(s.cells)):
        for i in range(s.dim):
            m = mid(k, s, c, i)
            for q in (lo[i], hi[i]):
                if near(k, m - q):
                    return
        if k.is_true(k.all([k.all([k.ge(mid(k, s, c, i), lo[i]), k.le(mid(k, s, c, i), hi[i])]) for i in range(s.dim)])):
            cells.append(c)
            k.reach('cell in the region')
            if k.is_true(k.eq(mid(k, s, c, 0), lo[0])):
                k.reach('midpoint on the limit')
        else:
            k.reach('cell outside the region')
    region(k, s, cells, lambda: s.DM.RectangularRegion_C(s.mesh_M, lo[0] if s.dim == 1 else lo, hi[0] if s.dim == 1 else hi))


def region(k, s, cells, make):
    try:
        R = make()
    except (RuntimeError, ValueError, SystemExit):
        if cells:
            k.fail('a region with cells is refused')
        k.reach('empty region refused')
        return
    if not cells:
        k.fail('a region without cells is accepted')
    same(k, s, R, cells)


def sphere(k, kind, spherical=True):
    s = build(k, kind, spherical)
    a, r = k.real('center'), k.real('radius', 0)
    cells = []
    for c in range(len(s.cells)):
        m = mid(k, s, c, 0)
        if near(k, m - a - r) or near(k, m - a + r):
            return
        if k.is_true(k.all([k.ge(m, a - r), k.le(m, a + r)])):
            cells.append(c)
    region(k, s, cells, lambda: s.DM.SphericalRegion_C(s.mesh_M, a, r))


def whole(k, kind, spherical=False):
    s = build(k, kind, spherical)
    R = s.DM.WholeMesh_C(s.mesh_M)
    same(k, s, R, list(range(len(s.cells))))


def incell(k, kind, part=None):
    """The cell test, for every point and every cell of the region."""
    s = build(k, kind)
    if part is None:
        R = s.DM.WholeMesh_C(s.mesh_M)
    else:
        R = s.DM.RectangularRegion_C(s.mesh_M, *part)
    i = k.choice('cell', int(R.ncell))
    x = [k.real('x%d' % j) for j in range(s.dim)]
    got = bool(R.in_cell(k.np.array(x), i))
    want = k.is_true(k.inside(s.mesh, int(R.cell_index[i]), x))
    k.reach('point in the cell' if want else 'point outside the cell')
    if got != want:
        k.fail('the cell test of the region is wrong')


def point(k, kind, ball=False):
    """The point test of a region that has been made, for every point."""
    s = build(k, kind, kind == 'shell')
    x = [k.real('x%d' % i) for i in range(s.dim)]
    if ball:
        a, r = k.real('center'), k.real('radius', 0)
        lo, hi = [a - r], [a + r]
    else:
        lo = [k.real('lo%d' % i) for i in range(s.dim)]
        hi = [k.real('hi%d' % i) for i in range(s.dim)]
    # the whole mesh is in the region
    for i in range(s.dim):
        k.assume_c(k.all([k.all([k.ge(mid(k, s, c, i), lo[i]), k.le(mid(k, s, c, i), hi[i])]) for c in range(len(s.cells))]))
        for q in (lo[i], hi[i]):
            if near(k, x[i] - q) or any(near(k, mid(k, s, c, i) - q) for c in range(len(s.cells))):
                return
    if ball:
        R = s.DM.SphericalRegion_C(s.mesh_M, a, r)
    else:
        R = s.DM.RectangularRegion_C(s.mesh_M, lo[0] if s.dim == 1 else lo, hi[0] if s.dim == 1 else hi)
    got = bool(R.inside(k.np.array(x)))
    want = k.is_true(k.all([k.all([k.ge(x[i], lo[i]), k.le(x[i], hi[i])]) for i in range(s.dim)]))
    k.reach('point in the region' if want else 'point outside the region')
    if got != want:
        k.fail('the point test of the region is wrong')


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for kind in ('line', 'enil', 'rect', 'tets'):
        job('box', 3, kind=kind)
    job('box', kind='shell', spherical=True)
    job('box', 9, kind='fan')
    if tier == 'thorough':
        job('box', 30, kind='tets3')
    job('sphere', kind='shell')
    job('sphere', kind='line', spherical=False)
    for kind in ('one', 'line', 'enil', 'rect', 'fan', 'tets3'):
        job('whole', kind=kind)
    job('whole', kind='shell', spherical=True)
    for kind in ('line', 'enil', 'rect', 'fan', 'tets'):
        job('incell', kind=kind)
    for kind in ('line', 'rect') + (('tet',) if tier == 'thorough' else ()):
        job('point', kind=kind)
    for kind in ('one', 'line', 'shell'):
        job('point', kind=kind, ball=True)
    job('incell', kind='line', part=[1, 5])
    job('incell', kind='fan', part=[[2, 1], [9, 9]])
    return out
