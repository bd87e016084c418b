"""P05: cell tracking: after a move the recorded cell contains the particle."""
from . import common
from .common import Sim, facet
from .kinematics import tick

PROPERTY = dict(
    title='After every move the recorded cell is the one containing the particle',
    files=['Particle_Module.py', 'Dolfin_Module.py', 'SegmentedArrayPair_Module.py'],
    functions=['Particle_C.advance_charged_species_in_E_field', 'Particle_C.advance_neutral_species', 'Particle_C.move_particles_in_electrostatic_field',
               'Mesh_C.is_inside_cell', 'Mesh_C.find_facet', 'Mesh_C.compute_cell_dict', 'Mesh_C.compute_cell_neighbors_dict',
               'Mesh_C.compute_cell_facet_normals_dict', 'Mesh_C.compute_cell_entity_indices_dict', 'Mesh_C.compute_cell_index'],
    explanation='Bounded symbolic execution of the Python movers from source over small meshes.  Start point (anywhere in the closed cell) and velocity '
                'are symbolic, so every path through one, several or no facets, along facets, and through vertices and edges is one of the explored '
                'cases; z3 decides that a kept particle lies in the closed cell recorded for it, that facets are crossed in path order at the crossing '
                'point, and that a particle is removed only where its path meets the boundary.',
    bounds=dict(quick='1D: 3 unequal cells in both vertex orders and a radial shell; 2D: 2 and 3 triangles (convex and not); 3D: 2 tetrahedra; '
                      'one particle, one step (two steps in 1D), or 2 or 3 particles of one step on fixed lines with any speed', thorough='as quick, 3 tetrahedra, 2 steps in 2D, charged particle in a linear field'),
    outside=['larger meshes', 'rounding', 'curved or higher-order cells'],
    assumptions=['coordinates are mathematical reals', 'absorbing boundary functions on the exterior', 'dolfin mesh connectivity and geometry (stand-in validated against dolfin)'],
    reach=['beside another simulation', 'stays in the cell', 'crosses one facet', 'crosses two facets', 'leaves the mesh', 'ends on a facet', 'path starts on a facet'],
)


def build(k, kind, mover, spherical, mode='exterior', mark='all', cpp=False, L=2):
    dyn = 'neutral' if mover == 'neutral' else 'charged'
    q = k.const(-1) if dyn == 'charged' else 0.0
    return Sim(k, kind, [('a', q, k.const(2), dyn)], L=L, dt=k.frac(1, 2), spherical=spherical, mode=mode, mark=mark, cpp=cpp)


def advance(s, mover, cpp=False):
    tick(s)
    if mover == 'neutral':
        s.P.advance_neutral_particles(s.ctrl)
    elif mover == 'legacy':
        s.P.move_particles_in_electrostatic_field(s.ctrl)
    elif cpp:
        if not hasattr(s, 'zero'):
            s.zero = s.vector_field('negE', [[0] * s.dim for p in s.verts])
        s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=s.zero)
    else:
        s.P.advance_charged_particles_in_E_field(s.ctrl)


def on_facet(k, s, f, x):
    """x lies on the closed facet f: barycentric coordinates in an adjacent cell."""
    c = s.facet_cells[f][0]
    b = s.bary(c, x)
    conds = []
    for i, v in enumerate(s.cells[c]):
        conds.append(k.ge(b[i], 0) if v in s.facet_verts[f] else k.eq(b[i], 0))
    return k.all(conds)


def outcome(k, s, calls, g, x, x1, u, c0, convex):
    """A move from x (in cell c0) towards x1: the calls of the boundary functions, and the record afterwards
    (None when the particle is gone).  Returns the cell the particle is in."""
    np_ = range(s.dim)
    # the boundary functions were called in path order, at points of their facets
    prev, here = x, c0
    frac_left = 1
    for n, c in enumerate(calls):
        f = c['facet']
        if f not in s.facet_cells:
            k.fail('a boundary function is called for a facet that does not exist')
        cells = s.facet_cells[f]
        if here not in cells:
            k.fail('the facet that is crossed does not belong to the cell the particle is in')
        p0 = [c['rec'][q + '0'] for q in s.coords]
        k.check(on_facet(k, s, f, p0), 'the crossing point lies on the facet that is crossed')
        k.check(k.all([k.ge(c['fraction'], 0), k.le(c['fraction'], 1)]), 'the crossing is within the move')
        k.check(k.all([k.eq(p0[i], prev[i] + c['fraction'] * (x1[i] - prev[i])) for i in np_]), 'the crossing point lies on the path')
        k.check(k.all([k.eq(c['dx'][i], x1[i] - prev[i]) for i in np_]), 'the move vector given to boundary functions is the rest of the move')
        if len(cells) == 1:
            if n + 1 != len(calls) or g is not None:
                k.fail('a particle is tracked on after an absorbing boundary')
        else:
            here = cells[0] if cells[1] == here else cells[1]
        prev = p0
    gone = bool(calls) and len(s.facet_cells[calls[-1]['facet']]) == 1
    if gone != (g is None):
        k.fail('a particle is removed without meeting the boundary, or kept after it')
    if gone:
        k.reach('leaves the mesh')
        if convex:
            # it left by a facet: the end point is not strictly inside the mesh
            k.check(k.all([strictly_outside_or_on(k, s, c, x1) for c in range(len(s.cells))]),
                    'a particle whose end point is inside the mesh is not removed')
        return None
    for c in range(len(s.cells)):
        if k.is_true(k.eq(g['cell_index'], c)):
            break
    else:
        k.fail('the recorded cell does not exist')
    k.check(k.inside(s.mesh, c, [g[q] for q in s.coords]), 'the recorded cell contains the particle')
    k.check(k.eq(g['cell_index'], here), 'the recorded cell is the one reached through the facets that were crossed')
    k.check(k.all([k.eq(g[q], x1[i]) for i, q in enumerate(s.coords)] + [k.eq(g['u' + q], u[i]) for i, q in enumerate(s.coords)]),
            'tracking does not change where the particle goes')
    k.check(k.eq(g['crossings'], len(calls)), 'the crossing count is the number of facets crossed')
    k.check(k.all([k.eq(g[q + '0'], prev[i]) for i, q in enumerate(s.coords)]), 'the recorded start of the path is the last crossing point')
    k.reach('stays in the cell' if not calls else 'crosses one facet' if len(calls) == 1 else 'crosses two facets')
    if c != c0:
        if k.is_true(k.inside(s.mesh, c0, x1)):
            k.fail('a particle that ends in its cell is moved to another')
        if k.is_true(k.inside(s.mesh, c0, x)) and k.is_true(k.inside(s.mesh, c, x)):
            k.reach('path starts on a facet')
    others = [q for q in range(len(s.cells)) if q != c]
    if others and k.is_true(k.any([k.inside(s.mesh, q, x1) for q in others])):
        k.reach('ends on a facet')
    return c


def track(k, kind, mover, cell, spherical=False, steps=1, convex=True, cpp=False):
    s = build(k, kind, mover, spherical, cpp=cpp)
    # a straight path meets each cell once: exactly this limit suffices
    s.ctrl.MAX_FACET_CROSS_COUNT = len(s.cells)
    np_ = range(s.dim)
    x = s.point_in(cell, 'x')
    u = [k.real('u%d' % i) for i in np_]
    s.add('a', x, u, w=k.const(1), cell=cell, uid=9)
    c0 = cell
    for t in range(steps):
        s.cb.calls = []
        x1 = [x[i] + u[i] * k.frac(1, 2) for i in np_]
        advance(s, mover, cpp)
        got = s.stored('a')
        calls = s.cb.calls
        if len(got) > 1:
            k.fail('one particle became several')
        c = outcome(k, s, calls, got[0] if got else None, x, x1, u, c0, convex)
        if c is None:
            return
        x, c0 = x1, c


def together(k, kind, mover, cells, L=2, gone=None, spherical=False, convex=True):
    """Several particles in one step, each with its own path over facets: none affects another."""
    s = build(k, kind, mover, spherical, L=L)
    s.ctrl.MAX_FACET_CROSS_COUNT = len(s.cells)
    h = k.frac(1, 2)
    exp = []
    n = s.dim + 1
    for i, c in enumerate(cells):
        # a fixed start off the centre, a fixed skew direction, any speed (forwards and backwards)
        wt = [k.frac([5, 6, 9, 11][(i + j) % 4], sum([5, 6, 9, 11][(i + q) % 4] for q in range(n))) for j in range(n)]
        vs = [s.verts[v] for v in s.cells[c]]
        x = [sum(wt[j] * k.const(vs[j][d]) for j in range(n)) for d in range(s.dim)]
        v = k.real('v%d' % i, -8, 8)
        u = [v * (k.const([3, -2, 1][(d + i) % 3])) / 4 for d in range(s.dim)]
        s.add('a', x, u, w=k.const(1), flags=1 if gone == i else 0, cell=c, uid=20 + i, crossings=3 + i)
        if gone != i:
            exp.append((x, u, 20 + i, c))
    s.cb.calls = []
    advance(s, mover)
    got = s.stored('a')
    j = 0
    for x, u, uid, c in exp:
        x1 = [x[d] + u[d] * h for d in range(s.dim)]
        g = None
        if j < len(got) and k.is_true(k.eq(got[j]['unique_ID'], uid)):
            g = got[j]
            j += 1
        outcome(k, s, [q for q in s.cb.calls if k.is_true(k.eq(q['rec']['unique_ID'], uid))], g, x, x1, u, c, convex)
    if j != len(got):
        k.fail('a particle is stored that was not there, or the order is not kept')


def strictly_outside_or_on(k, s, c, x):
    b = s.bary(c, x)
    return k.any([k.le(q, 0) for q in b])


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for mover in ('charged', 'neutral', 'legacy'):
        for kind, n, sph in (('line', 3, False), ('enil', 3, False), ('shell', 2, True)):
            for c in range(n):
                job('track', 3, kind=kind, mover=mover, cell=c, spherical=sph, steps=2)
        for kind, n in (('rect', 2), ('fan', 3), ('tets', 2)) + ((('tets3', 3),) if tier != 'quick' else ()):
            for c in range(n):
                job('track', 20 if kind != 'rect' else 5, kind=kind, mover=mover, cell=c, convex=kind != 'fan')
        for L in (1, 2):
            for kind, cells in (('line', (0, 2, 1)), ('line', (1, 1)), ('rect', (0, 1)), ('rect', (1, 0, 1)), ('fan', (0, 2)), ('tets', (0, 1))):
                job('together', 10, kind=kind, mover=mover, cells=cells, L=L, convex=kind != 'fan')
                if len(cells) == 3:
                    job('together', 10, kind=kind, mover=mover, cells=cells, L=L, gone=L - 1)
            job('together', 5, kind='shell', mover=mover, cells=(0, 1), L=L, spherical=True)
            if tier != 'quick':
                for kind, cells in (('rect', (0, 1, 1, 0)), ('fan', (2, 1, 0)), ('tets', (0, 1, 0)), ('line', (0, 1, 2, 0))):
                    job('together', 100, kind=kind, mover=mover, cells=cells, L=L, convex=kind != 'fan')
    if tier != 'quick':
        for c in range(2):
            job('track', 50, kind='rect', mover='charged', cell=c, steps=2)
    common.beside_jobs(out, [('track', 'kind=line mover=charged', 'enil'), ('track', 'kind=rect mover=neutral', 'tri'), ('together', 'kind=rect mover=legacy', 'fan'), ('track', 'kind=shell', 'line'), ('together', 'kind=tets mover=charged', 'tet')])
    return out
