"""P17: the C++ movers: kick, move, track, keep exactly the survivors."""
from .common import Sim, geometry, SYS, modules
from .boundary import num

PROPERTY = dict(
    title='C++ movers: kick, move and track every particle exactly, keep exactly the survivors',
    files=['cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_charged_species_in_E_field_spherical_r.cpp',
           'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp', 'cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp',
           'cpp/advance_neutral_species_cartesian_xy.cpp', 'cpp/advance_neutral_species_cartesian_xyz.cpp', 'cpp/dolfin_functions.cpp',
           'cpp/dolfin_functions.h', 'cpp/MeshEntityArrays.cpp', 'cpp/MeshEntityArrays.h', 'cpp/SegmentedArrayPair.h', 'cpp/Pstruct.h', 'cpp/particle.h',
           'Particle_Module.py', 'Dolfin_Module.py'],
    functions=['advance_charged_species_in_E_field_cartesian_x<2>', 'advance_charged_species_in_E_field_spherical_r<2>',
               'advance_charged_species_in_E_field_cartesian_xy<3>', 'advance_neutral_species_cartesian_xy<3>', 'advance_neutral_species_cartesian_xyz<4>',
               'advance_charged_species_in_uniform_fields_cartesian_xyz', 'interpolate_field_to_points', 'is_inside_vertices', 'find_facet',
               'MeshEntityArrays<N>', 'SegmentedArrayPair<PT>', 'Particle_C.advance_charged_particles_in_E_field', 'Particle_C.advance_neutral_particles',
               'Particle_C.initialize_particle_integration', 'Particle_C.initialize_particle_mesh'],
    explanation='Symbolic execution of the C++ movers: their sources are compiled unchanged with `double` replaced by a symbolic real, so that every '
                'comparison in the C++ code forks the exploration and z3 decides the branch conditions and the assertions.  Start points, velocities, '
                'weights and field values are symbolic.',
    bounds=dict(quick='meshes of 1 to 3 cells in 1D (Cartesian, spherical), 2D, 3D; one particle in any cell, 2 or 3 particles on fixed lines with any speed, or up to 4 particles on a line over segments of '
                      'length 1 to 3; 1 or 2 steps; dt concrete', thorough='as quick with up to 6 particles, 3 tetrahedra, 2 steps in 2D'),
    outside=['rounding; predicates.cpp (adaptive-precision orientation tests) is replaced by exact determinants', 'the random external field (unfinished in C++)',
             'acceleration-only steps (not supported by the C++ movers)', 'fields other than cell-constant ones', 'compiler optimisation'],
    assumptions=['coordinates are mathematical reals', 'absorbing boundary functions on the exterior', 'dolfin meshes and dof maps (stand-in validated against dolfin)'],
    reach=['stays in the cell', 'moves to another cell', 'leaves the mesh', 'accelerated by its own cell', 'field switched off', 'all survive', 'none survives',
           'first absorbed', 'last absorbed', 'uniform field', 'deleted before the step', 'settings changed between steps', 'after another simulation'],
)


def tick(s):
    s.ctrl.timeloop_count += 1
    s.ctrl.time = s.ctrl.time + s.ctrl.dt


Q, M = -3, 2


def build(k, kind, mover, L=2, species=None, **kw):
    spec = species or [('a', 0.0 if mover == 'neutral' else k.const(Q), k.const(M), mover)]
    return Sim(k, kind, spec, L=L, dt=k.frac(1, 2), spherical=kind == 'shell', cpp=True, **kw)


def advance(s, mover, F=None):
    tick(s)
    if mover == 'neutral':
        s.P.advance_neutral_particles(s.ctrl)
    else:
        s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=F)


def in_mesh(k, s, x):
    return k.any([k.inside(s.mesh, c, x) for c in range(len(s.cells))])


def on_path(k, a, b, p):
    """p lies on the segment from a to b."""
    n = range(len(a))
    d = [b[i] - a[i] for i in n]
    e = [p[i] - a[i] for i in n]
    col = [k.eq(d[i] * e[j], d[j] * e[i]) for i in n for j in range(i)]
    btw = [k.any([k.all([k.le(a[i], p[i]), k.le(p[i], b[i])]), k.all([k.le(b[i], p[i]), k.le(p[i], a[i])])]) for i in n]
    return k.all(col + btw)


def landed(k, s, g, x, u, X, w, uid, cell):
    """The record of a particle that went from x (in `cell`) to X; the cell it is in now."""
    for c1 in range(len(s.cells)):
        if k.is_true(k.eq(g['cell_index'], c1)):
            break
    else:
        k.fail('the recorded cell does not exist')
    k.check(k.all([k.eq(g[q], X[i]) for i, q in enumerate(s.coords)]), 'the new position is x + u_new dt')
    k.check(k.all([k.eq(g['u' + q], u[i]) for i, q in enumerate(s.coords)]), 'the new velocity is u + (q/m) E dt with the field of the cell the particle is in')
    k.check(k.all([k.eq(g['weight'], w), k.eq(g['unique_ID'], uid), k.eq(g['bitflags'], 0)]), 'a step leaves weight, identity and flags alone')
    k.check(k.inside(s.mesh, c1, X), 'the recorded cell contains the particle')
    p0 = [g[q + '0'] for q in s.coords]
    k.check(on_path(k, x, X, p0), 'the recorded crossing point lies on the path')
    if k.is_true(k.eq(g['crossings'], 0)):
        if c1 != cell:
            k.fail('a particle changes cell without a crossing being counted')
        k.check(k.all([k.eq(p0[i], x[i]) for i in range(s.dim)]), 'without a crossing the recorded start of the path is the old position')
        k.reach('stays in the cell')
    else:
        if s.dim == 1:
            a, b = sorted([mid(s, cell), mid(s, c1)])
            n = sum(1 for c in range(len(s.cells)) if a < mid(s, c) <= b)
            k.check(k.eq(g['crossings'], n), 'the crossing count is the number of facets crossed')
        k.check(k.inside(s.mesh, c1, p0), 'the recorded crossing point lies on the recorded cell')
        if k.is_true(k.inside(s.mesh, cell, X)):
            k.fail('a particle that ends in its cell is tracked out of it')
        k.check(k.any([k.eq(b, 0) for b in s.bary(c1, p0)]), 'the recorded crossing point lies on a facet of the recorded cell')
        k.reach('moves to another cell')
    return c1


def before(k, kind, mover):
    """Another simulation earlier in the same process: other mesh, charge, field, time step, limits."""
    kind = {'rect': 'tri', 'fan': 'rect', 'tri': 'rect', 'tet': 'tets', 'tets': 'tet', 'one': 'line', 'line': 'one', 'shell': 'shell'}[kind]
    s = build(k, kind, mover, L=1, species=[('a', k.const(7) if mover == 'charged' else 0.0, k.const(5), mover)])
    s.ctrl.dt = k.frac(1, 8)
    s.ctrl.MAX_FACET_CROSS_COUNT = 1
    s.ctrl.apply_solved_electric_field = {'a': True}
    c = len(s.cells) - 1
    n = s.dim + 1
    x = [sum(k.const(s.verts[v][d]) for v in s.cells[c]) / n for d in range(s.dim)]
    s.add('a', x, [k.const(0)] * s.dim, w=k.const(1), cell=c, uid=1)
    advance(s, mover, s.cell_field('before', [[1] * s.dim for q in s.cells]) if mover == 'charged' else None)
    k.reach('after another simulation')
    return s


def one(k, kind, mover, cell, field=None, steps=1, convex=True, second=False):
    """One particle: its new velocity, position, cell, crossing point; removed exactly when it leaves."""
    if second:
        first = before(k, kind, mover)
    s = build(k, kind, mover)
    # a straight path meets each cell once: exactly this limit suffices
    s.ctrl.MAX_FACET_CROSS_COUNT = len(s.cells)
    x = s.point_in(cell, 'x')
    u = [k.real('u%d' % i) for i in range(s.dim)]
    w = k.real('w')
    F = None
    if mover == 'charged' and field is not None:
        F = s.cell_field('negE', None if field else [[0] * s.dim for c in s.cells])
    s.add('a', x, u, w=w, cell=cell, uid=9, crossings=4)
    h = k.frac(1, 2)
    for t in range(steps):
        advance(s, mover, F)
        if field:
            u = [u[i] - (k.const(Q) / k.const(M)) * h * F.cellwise[cell][i] for i in range(s.dim)]
        X = [x[i] + u[i] * h for i in range(s.dim)]
        got = s.stored('a')
        if len(got) > 1:
            k.fail('one particle became several')
        if not got:
            k.reach('leaves the mesh')
            if convex:
                k.check(k.all([k.any([k.le(b, 0) for b in s.bary(c, X)]) for c in range(len(s.cells))]), 'a particle that ends inside the mesh is not removed')
            return
        c1 = landed(k, s, got[0], x, u, X, w, 9, cell)
        if field:
            k.reach('accelerated by its own cell')
        x, cell = X, c1


def mid(s, c):
    return sum(s.verts[v][0] for v in s.cells[c]) / 2.


def together(k, kind, mover, cells, L=2, gone=None, convex=True, both=True):
    """Several particles of a step, each with its own path over facets: none affects another."""
    s = build(k, kind, mover, L=L)
    s.ctrl.MAX_FACET_CROSS_COUNT = len(s.cells)
    h = k.frac(1, 2)
    F = s.cell_field('negE', [[0] * s.dim for c in s.cells]) if mover == 'charged' else None
    exp = []
    n = s.dim + 1
    for i, c in enumerate(cells):
        # a fixed start off the centre, a fixed skew direction, any speed (forwards and backwards)
        wt = [k.frac([5, 6, 9, 11][(i + j) % 4], sum([5, 6, 9, 11][(i + q) % 4] for q in range(n))) for j in range(n)]
        vs = [s.verts[v] for v in s.cells[c]]
        x = [sum(wt[j] * k.const(vs[j][d]) for j in range(n)) for d in range(s.dim)]
        v = k.real('v%d' % i, -8 if both else 0, 8)
        u = [v * (k.const([3, -2, 1][(d + i) % 3])) / 4 for d in range(s.dim)]
        w = k.real('w%d' % i)
        s.add('a', x, u, w=w, flags=1 if gone == i else 0, cell=c, uid=20 + i, crossings=3 + i)
        if gone != i:
            exp.append((x, u, w, 20 + i, c))
    advance(s, mover, F)
    got = s.stored('a')
    j = 0
    for i, (x, u, w, uid, c) in enumerate(exp):
        X = [x[d] + u[d] * h for d in range(s.dim)]
        if j < len(got) and k.is_true(k.eq(got[j]['unique_ID'], uid)):
            landed(k, s, got[j], x, u, X, w, uid, c)
            j += 1
        else:
            k.reach('leaves the mesh')
            if convex:
                k.check(k.all([k.any([k.le(b, 0) for b in s.bary(c, X)]) for c in range(len(s.cells))]), 'a particle that ends inside the mesh is not removed')
    if j != len(got):
        k.fail('a particle is stored that was not there, or the order is not kept')


def several(k, mover, L, N, steps=1, kind=None, extra=0, deleted=None):
    """Survivors in order, over segments; appends between steps."""
    kind = kind or ('one' if mover == 'charged' else 'tri')
    spec = [('a', 0.0 if mover == 'neutral' else k.const(Q), k.const(M), mover), ('b', 0.0 if mover == 'neutral' else k.const(Q), k.const(M), mover)]
    s = build(k, kind, mover, L=L, species=spec)
    h = k.frac(1, 2)
    dim = s.dim
    F = s.cell_field('negE', [[0] * dim for c in s.cells]) if mover == 'charged' else None
    exp = []

    def add(i):
        if dim == 1:
            x = [k.real('x%d' % i, 0, 1)]
            u = [k.real('u%d' % i)]
        else:
            # along one line of the triangle
            x = [k.real('x%d' % i, 0, 1), k.const(1)]
            u = [k.real('u%d' % i), k.const(0)]
        w = k.real('w%d' % i)
        fl = 1 if deleted == i else 0
        s.add('a', x, u, w=w, flags=fl, cell=0, uid=40 + i, crossings=7)
        exp.append((x, u, w, 40 + i, fl))
    for i in range(N):
        add(i)
    y = k.real('y', 0, 1)
    s.add('b', [y] + [k.const(1)] * (dim - 1), [k.const(0)] * dim, w=k.const(2), cell=0, uid=7)
    n = N
    for t in range(steps):
        if t:
            for j in range(extra):
                add(n)
                n += 1
        advance(s, mover, F)
        new = []
        hi = 1 if dim == 1 else k.frac(8, 3)
        for i, (x, u, w, uid, fl) in enumerate(exp):
            X = [x[c] + u[c] * h for c in range(dim)]
            if fl:
                k.reach('deleted before the step')
                continue
            if k.is_true(k.all([k.ge(X[0], 0), k.le(X[0], hi)])):
                new.append((X, u, w, uid, 0))
            elif i == 0:
                k.reach('first absorbed')
            elif i == len(exp) - 1:
                k.reach('last absorbed')
        k.reach('all survive' if len(new) == len(exp) else 'none survives' if not new else 'some survive')
        exp[:] = new
        got = s.stored('a')
        if len(got) != len(exp):
            k.fail('%d particles are stored after a step, %d survive' % (len(got), len(exp)))
        for g, (X, u, w, uid, fl) in zip(got, exp):
            k.check(k.all([k.eq(g['unique_ID'], uid), k.eq(g['weight'], w), k.eq(g['bitflags'], 0)] + [k.eq(g[q], X[i]) for i, q in enumerate(s.coords)] +
                          [k.eq(g['u' + q], u[i]) for i, q in enumerate(s.coords)]), 'the survivors are stored in order, with their own data')
        if s.P.get_species_particle_count('a') != len(exp):
            k.fail('the particle count is not the number of survivors')
        other = s.stored('b')
        if len(other) != 1:
            k.fail('a particle of another species is lost')
        k.check(k.all([k.eq(other[0][s.coords[0]], y), k.eq(other[0]['unique_ID'], 7)]), 'another species keeps its own particles')


def fields(k, kind, cells, solved, L=2, gone=None):
    """Every particle is kicked by the field of its own cell; per-species switches; one may be marked as deleted before the step."""
    spec = [('a', k.const(-3), k.const(2), 'charged'), ('b', k.const(5), k.const(4), 'charged')]
    s = build(k, kind, 'charged', L=L, species=spec)
    s.ctrl.apply_solved_electric_field = {'none': None, 'yes': {'a': True, 'b': True}, 'no': {'a': False, 'b': True}, 'off': {'a': False, 'b': False}}[solved]
    qm = {'a': k.const(-3) / k.const(2), 'b': k.const(5) / k.const(4)}
    h = k.frac(1, 2)
    F = s.cell_field('negE')
    exp = {'a': [], 'b': []}
    for i, c in enumerate(cells):
        sp = 'a' if gone is not None else 'ab'[i % 2] if i < 2 else 'a'
        # velocities that make every particle stay in its cell
        x, u = s.point_in(c, 'x%d' % i), [k.real('u%d_%d' % (i, j)) for j in range(s.dim)]
        on = solved in ('none', 'yes') or solved == 'no' and sp == 'b'
        u1 = [u[j] - qm[sp] * h * F.cellwise[c][j] for j in range(s.dim)] if on else u
        X = [x[j] + u1[j] * h for j in range(s.dim)]
        k.assume_c(k.inside(s.mesh, c, X))
        s.add(sp, x, u, w=k.const(1 + i), cell=c, uid=10 + i, flags=int(i == gone))
        if i != gone:
            exp[sp].append((X, u1, 10 + i))
        if not on:
            k.reach('field switched off')
    advance(s, 'charged', F)
    for sp in 'ab':
        got = s.stored(sp)
        if len(got) != len(exp[sp]):
            k.fail('a particle that stays in its cell is lost')
        for g, (X, u1, uid) in zip(got, exp[sp]):
            k.check(k.all([k.eq(g['unique_ID'], uid)] + [k.eq(g['u' + q], u1[i]) for i, q in enumerate(s.coords)] + [k.eq(g[q], X[i]) for i, q in enumerate(s.coords)]),
                    'every particle is kicked by the field of its own cell, if the field is switched on for its species')
    k.reach('accelerated by its own cell')


def change(k, kind, mover):
    """Time step, field and switches are those of the step, not those of an earlier one."""
    ch = mover == 'charged'
    s = build(k, kind, mover, species=[('a', k.const(-3) if ch else 0.0, k.const(2), mover), ('b', k.const(5) if ch else 0.0, k.const(4), mover)])
    qm = {'a': k.const(-3) / k.const(2), 'b': k.const(5) / k.const(4)}
    ps = {}
    for i, sp in enumerate('ab'):
        c = i if len(s.cells) > 1 else 0
        ps[sp] = [s.point_in(c, 'x' + sp), [k.real('u%s%d' % (sp, j)) for j in range(s.dim)], c]
        s.add(sp, ps[sp][0], ps[sp][1], w=k.const(1), cell=c, uid=i)
    switches = [None, {'a': False, 'b': True}, {'a': True, 'b': False}]
    for t, (n, d) in enumerate(((1, 2), (1, 4), (3, 2))):
        h = s.ctrl.dt = k.frac(n, d)
        s.ctrl.apply_solved_electric_field = switches[t]
        F = s.cell_field('f%d' % t) if ch else None
        for sp in 'ab':
            x, u, c = ps[sp]
            if ch and (switches[t] is None or switches[t][sp]):
                u = [u[i] - qm[sp] * h * F.cellwise[c][i] for i in range(s.dim)]
            x = [x[i] + u[i] * h for i in range(s.dim)]
            k.assume_c(k.all([k.ge(b, k.frac(1, 100)) for b in s.bary(c, x)]))
            ps[sp] = [x, u, c]
        advance(s, mover, F)
        for i, sp in enumerate('ab'):
            got = s.stored(sp)
            if len(got) != 1:
                k.fail('a particle that stays in its cell is lost')
            g, (x, u, c) = got[0], ps[sp]
            k.check(k.all([k.eq(g['unique_ID'], i), k.eq(g['cell_index'], c)] + [k.eq(g['u' + q], u[j]) for j, q in enumerate(s.coords)] +
                          [k.eq(g[q], x[j]) for j, q in enumerate(s.coords)]), 'a step uses its own time step, field and switches')
    k.reach('settings changed between steps')


def uniform(k, L, N, steps=1):
    q, m = k.real('q', 1), k.real('m')
    k.assume(m > 0)
    s = Sim(k, 'tet', [('a', -q, m, 'charged'), ('b', k.const(3), k.const(2), 'charged')], L=L, dt=k.const(1), cpp=True, force=False, integrate=False)
    qm = {'a': -q / m, 'b': k.frac(3, 2)}
    rows = {'a': [], 'b': []}
    for sp in 'ab':
        for j in range(N if sp == 'a' else 1):
            x = [k.real('x%s%d%d' % (sp, j, i)) for i in range(3)]
            u = [k.real('u%s%d%d' % (sp, j, i)) for i in range(3)]
            s.add(sp, x, u, w=k.const(2), uid=j)
            rows[sp].append((x, u))
    for t in range(steps):
        # time step and field may change from step to step
        dt = s.ctrl.dt = k.real('dt%d' % t)
        k.assume(dt > 0)
        E0 = s.ctrl.E0 = type('E0', (), {})()
        E = [k.real('E%d_%d' % (t, i)) for i in range(3)]
        E0.x, E0.y, E0.z = E
        for sp in 'ab':
            s.P.particle_solib.advance_charged_species_in_uniform_fields(s.P, sp, s.ctrl)
            got = s.stored(sp)
            if len(got) != len(rows[sp]):
                k.fail('a uniform-field step changes the number of particles')
            for j, (x, u) in enumerate(rows[sp]):
                u1 = [u[i] + qm[sp] * dt * E[i] for i in range(3)]
                x1 = [x[i] + u1[i] * dt for i in range(3)]
                g = got[j]
                k.check(k.all([k.eq(g['unique_ID'], j), k.eq(g['weight'], 2)] + [k.eq(g[c], x1[i]) for i, c in enumerate('xyz')] +
                              [k.eq(g['u' + c], u1[i]) for i, c in enumerate('xyz')] + [k.eq(g[c + '0'], x[i]) for i, c in enumerate('xyz')]),
                        'a uniform-field step gives u + (q/m) E dt and x + u_new dt')
                rows[sp][j] = (x1, u1)
    k.reach('uniform field')


def jobs(tier):
    out = []

    def job(fn, kind, weight=1, **cfg):
        if fn not in ('uniform',):
            cfg['kind'] = kind
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight, cpp=modules(kind)))
    thorough = tier != 'quick'
    for kind, n in (('line', 3), ('enil', 3), ('shell', 2)):
        for c in range(n):
            job('one', kind, 3, mover='charged', cell=c, steps=2, field=False)
            job('one', kind, 3, mover='charged', cell=c)
            job('one', kind, 3, mover='charged', cell=c, field=True)
            if thorough:
                job('one', kind, 20, mover='charged', cell=c, field=True, steps=2)
    for mover in ('charged', 'neutral'):
        for kind, n in (('rect', 2), ('fan', 3)):
            for c in range(n):
                job('one', kind, 10 if kind == 'rect' else 30, mover=mover, cell=c, convex=kind != 'fan', **(dict(steps=2) if thorough and kind == 'rect' else {}))
    for c in range(2):
        job('one', 'rect', 20, mover='charged', cell=c, field=True)
        job('one', 'tets', 50, mover='neutral', cell=c)
    if thorough:
        for c in range(3):
            job('one', 'tets3', 100, mover='neutral', cell=c)
    for mover, kind in (('charged', 'one'), ('neutral', 'tri'), ('charged', 'tri')):
        for L in (1, 2, 3):
            for N in (1, 2, 3, 4) if kind == 'one' else (1, 2, 3):
                job('several', kind, 3 ** N, mover=mover, L=L, N=N)
            job('several', kind, 30, mover=mover, L=L, N=2, steps=2, extra=2 if kind == 'one' else 1)
            for d in range(3):
                job('several', kind, 20, mover=mover, L=L, N=3, deleted=d)
        if thorough:
            for L in (1, 2, 3):
                job('several', kind, 300, mover=mover, L=L, N=5)
                job('several', kind, 300, mover=mover, L=L, N=3, steps=2, extra=2)
    for L in (1, 2):
        for mover, kind, cells in (('neutral', 'rect', (0, 1)), ('neutral', 'rect', (0, 0, 1)), ('charged', 'rect', (1, 0)), ('charged', 'rect', (0, 1, 1)),
                                   ('neutral', 'fan', (0, 2)), ('charged', 'fan', (1, 2)), ('neutral', 'tets', (0, 1)), ('neutral', 'tets', (1, 0)),
                                   ('charged', 'shell', (0, 1)), ('charged', 'shell', (1, 1, 0)), ('charged', 'line', (0, 2, 1)), ('charged', 'line', (1, 1))):
            job('together', kind, 8 * len(cells) * (2 if kind == 'tets' else 1), mover=mover, cells=cells, L=L, convex=kind != 'fan')
            if len(cells) == 3:
                job('together', kind, 12, mover=mover, cells=cells, L=L, gone=L - 1)
    if thorough:
        for mover, kind, cells in (('neutral', 'rect', (0, 1, 1, 0)), ('charged', 'fan', (0, 1, 2)), ('neutral', 'fan', (2, 1, 0)), ('neutral', 'tets', (0, 1, 0)),
                                   ('neutral', 'tets3', (0, 2)), ('neutral', 'tets3', (1, 2)), ('charged', 'line', (0, 1, 2, 0)), ('charged', 'shell', (0, 1, 0, 1))):
            job('together', kind, 200, mover=mover, cells=cells, convex=kind != 'fan')
    for mover, kind in (('charged', 'line'), ('charged', 'shell'), ('charged', 'rect'), ('neutral', 'rect'), ('neutral', 'tets')):
        job('one', kind, 10, mover=mover, cell=1, field=True if mover == 'charged' else None, second=True)
    for mover, kind in (('charged', 'line'), ('charged', 'shell'), ('charged', 'rect'), ('neutral', 'rect'), ('neutral', 'tets')):
        job('change', kind, 5, mover=mover)
    for solved in ('none', 'yes', 'no', 'off'):
        for kind, cells in (('line', (1, 0, 2, 1)), ('shell', (1, 1, 0)), ('rect', (0, 1, 1))):
            for L in (1, 2):
                job('fields', kind, 3, cells=cells, solved=solved, L=L)
                if solved in ('none', 'no') and L == 2:
                    for g in (0, 1):
                        job('fields', kind, 3, cells=cells[:3], solved=solved, L=3 - g, gone=g)
    for L in (1, 2, 3):
        for N in (1, 2, 3):
            job('uniform', 'tet', 2, L=L, N=N, steps=2 if N < 3 else 1)
    return out
