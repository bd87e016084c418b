"""P23: the time loop as a whole: field from particles, motion in that field, bookkeeping, step after step."""
from .common import modules
from .kinematics import tick
from .poisson import SCALE, Problem

PROPERTY = dict(
    title='Over whole time loops the field is that of the particles present, and each particle moves by that field',
    files=['Particle_Module.py', 'Dolfin_Module.py', 'SegmentedArrayPair_Module.py', 'UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py',
           'UserMesh_y_Fields_Spherical1D_Module.py', 'RecordedData_Module.py', 'DT_Module.py', 'cpp/advance_charged_species_in_E_field_cartesian_x.cpp',
           'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp', 'cpp/advance_charged_species_in_E_field_spherical_r.cpp', 'cpp/SegmentedArrayPair.h',
           'cpp/dolfin_functions.cpp', 'cpp/MeshEntityArrays.h'],
    functions=['Particle_C.advance_charged_particles_in_E_field', 'Particle_C.move_particles_in_electrostatic_field', 'Particle_C.advance_neutral_particles',
               'Particle_C.accumulate_number_density', 'Field_C.set_values', 'Field_C.multiply_add', 'PoissonSolve_C.solve_for_phi', 'PoissonSolve_C.compute_negE',
               'Particle_C.get_species_particle_count', 'Particle_C.record_history_data'],
    explanation='The time loop of the examples is executed symbolically from source: deposit, solve, move, append, again.  Against an independent calculation, z3 decides after every '
                'step that the solved potential satisfies the discrete Poisson equation for exactly the charge of the particles present, that every particle has moved by the field of its '
                'cell, that exactly the particles that left are gone, and that histories agree.',
    bounds=dict(quick='1D meshes of 1-3 cells (Cartesian, spherical; Python and C++ movers), a triangle; 1-2 particles of two charged species, or one neutral; 2-3 steps; segments of 1-2; concrete time step and weights',
                thorough='as quick with 3 particles or 4 steps'),
    outside=['particles that start a step exactly on a facet, where either cell may give the field', 'linear solvers of PETSc', 'rounding', 'reflecting boundaries (P07, P18)'],
    assumptions=['reals', 'dolfin assembles and solves the forms given to it (modelled exactly)'],
    reach=['particle lost', 'particle survives', 'particle changes cell', 'field of moved particles', 'all particles lost', 'appended between steps'],
)


class Ref:
    """A particle as it should be."""

    def __init__(self, sp, x, u, w, cell):
        self.sp, self.x, self.u, self.w, self.cell, self.alive = sp, list(x), list(u), w, cell, True


def deposit(k, p, A, D, C):
    """What the examples do with the particles of each step."""
    P = p.s.P
    A.set_values(0.0)
    for sp in P.species_names:
        D[sp].set_values(0.0)
        C[sp].set_values(0.0)
    for sp in P.species_names:
        P.accumulate_number_density(sp, D[sp], C[sp])
        A.multiply_add(D[sp], multiplier=P.charge[sp])


def expected_charge(k, p, refs, factor):
    s = p.s
    q = {v: k.const(0) for v in range(len(s.verts))}
    for r in refs.values():
        if r.alive:
            for v, b in zip(s.cells[r.cell], s.bary(r.cell, r.x)):
                q[v] = q[v] + CHARGE[r.sp] * factor * r.w * b
    return q


CHARGE = {'a': -1, 'b': 3, 'n': 0}
MASS = {'a': 1, 'b': 2, 'n': 1}


def where(k, s, x):
    """Conditions that x is in each cell."""
    return [k.inside(s.mesh, c, x) for c in range(len(s.cells))]


def verify_particles(k, s, refs, note):
    """The stored particles are those of the reference; cells are taken over (any closed cell that holds the particle)."""
    seen = set()
    for sp in s.P.species_names:
        n = 0
        for rec in s.stored(sp):
            i = int(rec['unique_ID'])
            n += 1
            if i in seen or i not in refs or refs[i].sp != sp or not refs[i].alive:
                k.fail('particle %d should not be among the %s %s' % (i, sp, note))
            seen.add(i)
            r = refs[i]
            for c, nm in enumerate(s.coords):
                k.check(k.eq(rec[nm], r.x[c]), 'a particle is where its field has moved it ' + note)
                k.check(k.eq(rec['u' + nm], r.u[c]), 'a particle has the velocity that its field has given it ' + note)
            k.check(k.eq(rec['weight'], r.w), 'a particle keeps its weight ' + note)
            c = int(rec['cell_index'])
            if not 0 <= c < len(s.cells):
                k.fail('a stored particle has no cell ' + note)
            k.check(k.inside(s.mesh, c, r.x), 'a particle is in its cell ' + note)
            if c != r.cell:
                k.reach('particle changes cell')
            r.cell = c
        if int(s.P.get_species_particle_count(sp)) != n:
            k.fail('the count of species %s is wrong %s' % (sp, note))
    for i, r in refs.items():
        if r.alive and i not in seen:
            # gone: it must not be inside the mesh
            k.reach('particle lost')
            for c in range(len(s.cells)):
                k.check(strictly_outside(k, s, c, r.x), 'a particle that is gone has left the mesh ' + note)
            r.alive = False
        elif r.alive:
            k.reach('particle survives')
    if refs and not any(r.alive for r in refs.values()):
        k.reach('all particles lost')


def strictly_outside(k, s, c, x):
    """Outside, or on the boundary of, a cell."""
    b = s.bary(c, x)
    return k.any([k.le(q, 0) for q in b])


def loop(k, kind, N, steps, L=2, mover='E', neutral=False, inject=False, natural=False, histories=False):
    dt = k.frac(1, 2)
    species = [('a', k.frac(-1, SCALE), k.frac(1, SCALE), 'charged'), ('b', k.frac(3, SCALE), k.frac(2, SCALE), 'charged')]
    if neutral:
        species.append(('n', k.const(0), k.const(1), 'neutral'))
    p = Problem(k, kind, natural=natural, species=species, dt=dt, L=L)
    s = p.s
    names = ['a', 'b'] + (['n'] if neutral else [])
    refs = {}

    def new(i):
        sp = names[(i + (2 if neutral else 0)) % len(names)]
        c = i % len(s.cells)
        x = s.point_in(c, 'x%d' % i)
        u = [k.real('u%d%s' % (i, 'xyz'[d]), -8, 8) for d in range(s.dim)]
        w = k.const(i + 1)
        s.add(sp, x, u, w=w, cell=c, uid=i)
        refs[i] = Ref(sp, x, u, w, c)
    def off_facets():
        # on a facet the field of either cell would do
        for r in refs.values():
            if r.alive:
                for b in s.bary(r.cell, r.x):
                    k.assume(b > 0)
    for i in range(N):
        new(i)
    Field = lambda e, d: s.DM.Field_C(s.mesh_M, e, d, 'scalar')
    A = Field('Lagrange', 1)
    D = {sp: Field('Lagrange', 1) for sp in s.P.species_names}
    C = {sp: Field('DG', 0) for sp in s.P.species_names}
    factor = k.const(2)
    if histories:
        R = k.repo('RecordedData_Module')
        hin = R.ParticleHistoryInput_C()
        hin.max_points, hin.scalar_histories = None, ['count', 'KE']
        s.ctrl.n_timesteps, s.ctrl.dt = steps, dt
        s.P.histories = R.ParticleHistory_C(hin, s.ctrl, s.P.history_function_dict, s.P.species_names)
    for step in range(steps + 1):
        if step:
            tick(s)
            off_facets()
            for r in refs.values():
                if not r.alive:
                    continue
                E = [k.const(0)] * s.dim
                if r.sp != 'n':
                    d = p.negE.function_space.dofmap().cell_dofs(r.cell)
                    E = [-field[int(d[c])] for c in range(s.dim)]
                q = CHARGE[r.sp] * dt / MASS[r.sp]
                r.u = [a + e * q for a, e in zip(r.u, E)]
                r.x = [a + b * dt for a, b in zip(r.x, r.u)]
            if mover == 'E':
                s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=p.solver.neg_electric_field)
            else:
                s.P.move_particles_in_electrostatic_field(s.ctrl, neg_E_field=p.solver.neg_electric_field)
            if neutral:
                s.P.advance_neutral_particles(s.ctrl)
            verify_particles(k, s, refs, 'after step %d' % step)
            if inject and step < steps:
                new(len(refs))
                k.reach('appended between steps')
        deposit(k, p, A, D, C)
        p.solver.solve_for_phi(assembled_charge=A, assembled_charge_factor=factor)
        p.verify(expected_charge(k, p, refs, factor), 'step %d' % step)
        if step and any(r.alive for r in refs.values()):
            k.reach('field of moved particles')
        v = p.negE.function.vector()
        field = [v[i] for i in range(len(v))]
        if histories and step:
            s.P.record_history_data(s.ctrl.timeloop_count, s.ctrl.time)
            h = s.P.histories.data_array
            for sp in s.P.species_names:
                live = [r for r in refs.values() if r.alive and r.sp == sp]
                k.check(k.eq(h[sp + '_count'][step - 1], len(live)), 'the history of the number of particles is that of the particles present')


def jobs(tier):
    out = []
    big = tier == 'thorough'

    def job(weight=1, **cfg):
        j = dict(name='loop ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn='loop', cfg=cfg, weight=weight)
        if cfg.get('store'):
            j['cpp'] = modules(cfg['kind'])
        out.append(j)
    for st in ({}, dict(store='cpp-move')):
        job(kind='one', N=1, steps=3, L=1, **st)
        job(2, kind='one', N=2, steps=2, L=1, histories=True, **st)
        job(3, kind='line', N=1, steps=3, L=1, **st)
        job(2, kind='enil', N=1, steps=2, L=1, inject=True, **st)
        job(8, kind='line', N=2, steps=2, L=2, histories=True, **st)
        job(3, kind='shell', N=2, steps=1, L=1, natural=True, **st)
        job(3, kind='shell', N=1, steps=3, L=1, natural=True, **st)
        job(4, kind='shell', N=1, steps=2, L=2, inject=True, **st)
        job(8, kind='tri', N=1, steps=2, L=1, **st)
    job(3, kind='line', N=1, steps=2, L=1, mover='legacy')
    job(3, kind='shell', N=1, steps=2, L=1, mover='legacy', inject=True)
    job(3, kind='line', N=1, steps=2, L=1, neutral=True, inject=True)
    job(3, kind='line', N=2, steps=1, L=1, neutral=True)
    if big:
        for st in ({}, dict(store='cpp-move')):
            job(9, kind='line', N=1, steps=4, L=1, **st)
            job(20, kind='line', N=2, steps=3, L=1, **st)
            job(20, kind='line', N=3, steps=2, L=2, **st)
            job(20, kind='shell', N=2, steps=3, L=1, natural=True, **st)
            job(20, kind='shell', N=3, steps=2, L=2, natural=True, **st)
            job(20, kind='fan', N=1, steps=1, L=1, **st)
            job(30, kind='tri', N=1, steps=3, L=1, **st)
    return out
