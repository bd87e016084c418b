"""P04: the orbit integration: velocity kick from the local field, then the position update."""
from . import common
from .common import Sim

PROPERTY = dict(
    title='Each step kicks and moves every particle by its own field, charge and mass',
    files=['Particle_Module.py', 'Dolfin_Module.py', 'SegmentedArrayPair_Module.py'],
    functions=['Particle_C.__init__', 'Particle_C.initialize_particle_integration', 'Particle_C.advance_charged_particles_in_E_field',
               'Particle_C.advance_charged_species_in_E_field', 'Particle_C.move_particles_in_electrostatic_field',
               'Particle_C.advance_neutral_particles', 'Particle_C.advance_neutral_species', 'Particle_C.advance_charged_species_in_uniform_fields',
               'Field_C.interpolate_field_to_points', 'Field_C.interpolate_random_field_to_points'],
    explanation='Bounded symbolic execution of the Python movers from source.  Position, velocity, charge, mass, time step and the nodal values of '
                'the field are symbolic; z3 decides that the stored velocity is u + (q/m) E(x) dt and the stored position x + u_new dt, that '
                'switches, acceleration-only steps and neutral species behave as documented, and that no particle receives the field of another.',
    bounds=dict(quick='1D (Cartesian, spherical), 2D, 3D meshes of 1 to 3 cells; piecewise-linear field; up to 4 particles over segments of 1 or 2; one step '
                      '(two for the field/absorption mix); q, m, dt symbolic for acceleration-only steps, concrete rationals for moves in 2D/3D',
                thorough='as quick with up to 5 particles and symbolic dt in all 1D moves'),
    outside=['rounding', 'higher-order field elements', 'relativistic motion (the code is non-relativistic)'],
    assumptions=['coordinates and fields are mathematical reals', 'm > 0, dt > 0', 'field evaluation at a point is exact piecewise-linear interpolation (stand-in for dolfin)'],
    reach=['beside another simulation', 'accelerated', 'moved within the cell', 'moved to another cell', 'absorbed particle before a kept one', 'solved field switched off for one species',
           'external field added', 'external field alone', 'neutral particle moved'],
)


def expect(k, s, g, x, u, w, uid, msg):
    d = {}
    for i, c in enumerate(s.coords):
        d[c] = x[i]
        d['u' + c] = u[i]
    d['weight'] = w
    d['unique_ID'] = uid
    k.check(k.all([k.eq(g[n], v) for n, v in d.items()]), msg)


def mover(s, name):
    P = s.P
    return {'charged': P.advance_charged_particles_in_E_field, 'legacy': P.move_particles_in_electrostatic_field}[name]


def tick(s):
    s.ctrl.timeloop_count += 1
    s.ctrl.time = s.ctrl.time + s.ctrl.dt


def accel(k, kind, name, cell, spherical=False, cpp=False):
    """Acceleration only: everything symbolic."""
    q, m, dt = k.real('q', 1), k.real('m'), k.real('dt')
    k.assume(m > 0)
    k.assume(dt > 0)
    sign = k.choice('sign', 2)
    qq = -q if sign else q
    s = Sim(k, kind, [('a', qq, m, 'charged')], L=2, dt=dt, spherical=spherical, cpp=cpp)
    x = s.point_in(cell, 'x')
    u = [k.real('u%d' % i) for i in range(s.dim)]
    w = k.real('w')
    F = s.vector_field('negE')
    s.add('a', x, u, w=w, cell=cell, uid=3)
    tick(s)
    mover(s, name)(s.ctrl, neg_E_field=F, accel_only=True)
    E = [-v for v in s.at(F, cell, x)]
    got = s.stored('a')
    if len(got) != 1:
        k.fail('an acceleration-only step changes the number of particles')
    u1 = [u[i] + (qq / m) * dt * E[i] for i in range(s.dim)]
    expect(k, s, got[0], x, u1, w, 3, 'an acceleration-only step adds (q/m) E dt to the velocity and moves nothing')
    k.reach('accelerated')


def inside_mesh(k, s, x):
    """Meshes used here are convex: the bounding inequalities of the union of the cells."""
    return k.any([k.inside(s.mesh, c, x) for c in range(len(s.cells))])


FIELD = {1: lambda p: [p[0] - 1], 2: lambda p: [p[0] + 2 * p[1] - 1, 1 - p[0]], 3: lambda p: [p[0] + p[1] - 1, 2 - p[2], p[0] - p[1]]}


def move(k, kind, name, cell, field, spherical=False, symdt=False, cpp=False):
    """A full step of one particle in a concrete linear field (or none), symbolic position and velocity."""
    if symdt:
        dt = k.real('dt')
        k.assume(dt > 0)
    else:
        dt = k.frac(1, 2)
    q, m = k.const(-3), k.const(2)
    if name == 'neutral':
        s = Sim(k, kind, [('a', 0.0, m, 'neutral')], L=2, dt=dt, spherical=spherical, cpp=cpp)
    else:
        s = Sim(k, kind, [('a', q, m, 'charged')], L=2, dt=dt, spherical=spherical, cpp=cpp)
    x = s.point_in(cell, 'x')
    u = [k.real('u%d' % i) for i in range(s.dim)]
    w = k.real('w')
    f = FIELD[s.dim]
    F = s.vector_field('negE', [[-v for v in f(p)] for p in s.verts]) if field else None
    if cpp and F is None and name == 'charged':
        F = s.vector_field('negE', [[0] * s.dim for p in s.verts])
    s.add('a', x, u, w=w, cell=cell, uid=3)
    tick(s)
    if name == 'neutral':
        s.P.advance_neutral_particles(s.ctrl)
    else:
        mover(s, name)(s.ctrl, neg_E_field=F)
    u1 = u
    if field and name != 'neutral':
        E = f(x)
        u1 = [u[i] + (q / m) * dt * E[i] for i in range(s.dim)]
    x1 = [x[i] + u1[i] * dt for i in range(s.dim)]
    got = s.stored('a')
    if k.is_true(inside_mesh(k, s, x1)):
        if len(got) != 1:
            k.fail('a particle whose new position is in the mesh is lost')
        expect(k, s, got[0], x1, u1, w, 3, 'a step gives velocity u + (q/m) E(x) dt and position x + u_new dt')
        k.reach('neutral particle moved' if name == 'neutral' else 'accelerated')
        if k.is_true(k.inside(s.mesh, cell, x1)):
            k.reach('moved within the cell')
        else:
            k.reach('moved to another cell')
    elif got:
        k.fail('a particle absorbed at the boundary is still stored')


def many(k, name, L, cells, steps=1, cpp=False):
    """Several particles in a non-uniform field on a line: each gets its own field."""
    dt = k.frac(1, 2)
    q, m = k.const(-3), k.const(2)
    s = Sim(k, 'line', [('a', q, m, 'charged')], L=L, dt=dt, cpp=cpp)
    f = lambda x: x - 1
    F = s.vector_field('negE', [[-f(p[0])] for p in s.verts])
    exp = []
    for i, c in enumerate(cells):
        x, u = s.point_in(c, 'x%d' % i), [k.real('u%d' % i)]
        s.add('a', x, u, w=k.const(1 + i), cell=c, uid=10 + i)
        exp.append((x[0], u[0], 1 + i, 10 + i))
    for t in range(steps):
        tick(s)
        mover(s, name)(s.ctrl, neg_E_field=F)
        new, gone = [], False
        for x, u, w, uid in exp:
            u1 = u + (q / m) * dt * f(x)
            x1 = x + u1 * dt
            if k.is_true(k.all([k.ge(x1, 0), k.le(x1, 4)])):
                new.append((x1, u1, w, uid))
                if gone:
                    k.reach('absorbed particle before a kept one')
            else:
                gone = True
        exp = new
        got = s.stored('a')
        if len(got) != len(exp):
            k.fail('%d particles stored, %d expected' % (len(got), len(exp)))
        for g, (x, u, w, uid) in zip(got, exp):
            expect(k, s, g, [x], [u], w, uid, 'every particle is advanced in the field at its own position')


def switches(k, name, kind, solved, external, L=3, cpp=False):
    """Per-species switches for the solved and the external (random) field, two charged species and a neutral."""
    dt = k.frac(1, 2)
    spec = [('a', k.const(-3), k.const(2), 'charged'), ('b', k.const(5), k.const(4), 'charged'), ('n', 0.0, k.const(4), 'neutral')]
    s = Sim(k, kind, spec, L=L, dt=dt, cpp=cpp)
    qm = {'a': k.const(-3) / k.const(2), 'b': k.const(5) / k.const(4)}
    s.ctrl.apply_solved_electric_field = {'none': None, 'yes': {'a': True, 'b': True}, 'no': {'a': False, 'b': True}, 'off': {'a': False, 'b': False}, 'absent': None}[solved]
    s.ctrl.apply_random_external_electric_field = {'none': None, 'yes': {'a': True, 'b': True}, 'no': {'a': True, 'b': False}, 'absent': None}[external]
    F = s.vector_field('negE') if solved != 'absent' else None
    G = s.vector_field('ext') if external != 'absent' else None
    u0, x0 = {}, {}
    for sp in 'abn':
        rows = []
        for i in range(2):
            # with an external field in 2D and 3D: concrete points (the nodal values stay symbolic)
            x = s.point_in(0, 'x%s%d' % (sp, i)) if s.dim == 1 or G is None else [k.frac(1 + i + 'abn'.index(sp), 8)] * s.dim
            u = [k.real('u%s%d%d' % (sp, i, c)) for c in range(s.dim)]
            s.add(sp, x, u, w=k.const(1), cell=0, uid=i)
            rows.append((x, u))
        u0[sp] = rows
    tick(s)
    mover(s, name)(s.ctrl, neg_E_field=F, external_E_field=G, accel_only=True)
    ndraw = 0
    for sp in 'abn':
        got = s.stored(sp)
        if len(got) != 2:
            k.fail('the number of particles changes in an acceleration-only step')
        for i, (x, u) in enumerate(u0[sp]):
            u1 = list(u)
            if sp != 'n':
                on_s = F is not None and solved in ('none', 'yes') or solved == 'no' and sp == 'b'
                on_e = G is not None and (external in ('none', 'yes') or external == 'no' and sp == 'a')
                E = [0] * s.dim
                if on_s:
                    E = [-v for v in s.at(F, 0, x)]
                if on_e:
                    ext = s.at(G, 0, x)
                    # the draws are made in storage order, none for a particle where the field is zero
                    zero = k.is_true(k.all([k.eq(v, 0) for v in ext]))
                    if not zero:
                        g = draw(k, ndraw)
                        ndraw += 1
                        E = [e + g * v for e, v in zip(E, ext)]
                    k.reach('external field added' if on_s else 'external field alone')
                u1 = [uu + qm[sp] * dt * e for uu, e in zip(u, E)]
                if not on_s and not on_e:
                    k.reach('solved field switched off for one species')
            expect(k, s, got[i], x, u1, 1, i, 'the solved and external fields act on exactly the species they are switched on for')


def draw(k, i):
    """The i-th random number that the code drew."""
    if k.symbolic:
        return k.e.real(k.e.draws[i]) if i < len(k.e.draws) else k.fail('fewer random numbers drawn than particles in the external field')
    return k.drawn[i]


def uniform(k, cpp=False):
    q, m, dt = k.real('q', 1), k.real('m'), k.real('dt')
    k.assume(m > 0)
    k.assume(dt > 0)
    s = Sim(k, 'tet', [('a', -q, m, 'charged')], L=1, dt=dt, cpp=cpp)
    E0 = s.ctrl.E0 = type('E0', (), {})()
    E = [k.real('E%d' % i) for i in range(3)]
    E0.x, E0.y, E0.z = E
    rows = []
    for j in range(2):
        x = [k.real('x%d%d' % (j, i)) for i in range(3)]
        u = [k.real('u%d%d' % (j, i)) for i in range(3)]
        s.add('a', x, u, w=k.const(2), uid=j)
        rows.append((x, u))
    if cpp:
        s.P.particle_solib.advance_charged_species_in_uniform_fields(s.P, 'a', s.ctrl)
    else:
        s.P.advance_charged_species_in_uniform_fields('a', s.ctrl)
    got = s.stored('a')
    if len(got) != 2:
        k.fail('a uniform-field step changes the number of particles')
    for j, (x, u) in enumerate(rows):
        u1 = [u[i] + (-q / m) * dt * E[i] for i in range(3)]
        expect(k, s, got[j], [x[i] + u1[i] * dt for i in range(3)], u1, 2, j, 'a uniform-field step gives u + (q/m) E dt and x + u_new dt')


KINDS = (('one', 1, False), ('line', 3, False), ('enil', 3, False), ('shell', 2, True), ('rect', 2, False), ('tets', 2, False))


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for kind, n, sph in KINDS:
        for c in range(n):
            job('accel', kind=kind, name='charged', cell=c, spherical=sph)
            for field in (False, True):
                job('move', 5 if kind in ('rect', 'tets') else 1, kind=kind, name='charged', cell=c, field=field, spherical=sph)
            job('move', kind=kind, name='neutral', cell=c, field=False, spherical=sph)
        job('accel', kind=kind, name='legacy', cell=0, spherical=sph)
        job('move', kind=kind, name='legacy', cell=0, field=True, spherical=sph)
    for name in ('charged', 'neutral', 'legacy'):
        for kind, n, sph in KINDS[:4]:
            job('move', 3, kind=kind, name=name, cell=0, field=False, spherical=sph, symdt=True)
    for name in ('charged', 'legacy'):
        job('many', 20, name=name, L=1, cells=(1, 0, 2))
        job('many', 50, name=name, L=2, cells=(0, 2, 1))
        job('many', 30, name=name, L=2, cells=(2, 0), steps=2)
        if tier != 'quick':
            job('many', 50, name=name, L=2, cells=(0, 2, 1, 1))
            job('many', 90, name=name, L=2, cells=(0, 2, 1, 1, 0))
            job('many', 90, name=name, L=3, cells=(0, 2, 1, 0), steps=2)
        for kind in ('line', 'rect', 'tets'):
            for so in ('none', 'yes', 'no', 'off', 'absent'):
                for ex in ('absent',):
                    job('switches', name=name, kind=kind, solved=so, external=ex)
            for so, ex in (('none', 'none'), ('yes', 'yes'), ('no', 'no'), ('absent', 'none'), ('off', 'yes'), ('no', 'yes')):
                job('switches', 4, name=name, kind=kind, solved=so, external=ex)
    job('uniform')
    common.beside_jobs(out, [('move', 'kind=line name=charged', 'enil'), ('move', 'kind=rect name=neutral'), ('many', 'legacy', 'one'), ('accel', 'kind=shell', 'one')])
    return out
