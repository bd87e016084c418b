"""P08: trajectories follow the marked particles and record every point once."""
from . import common
from .common import Sim
from .kinematics import tick

PROPERTY = dict(
    title='A trajectory follows its particle and records every point once',
    files=['Particle_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py', 'Dolfin_Module.py'],
    functions=['Particle_C.create_from_list', 'Particle_C.record_trajectory_data', 'Particle_C.record_trajectory_datum', 'Particle_C.update_trajectory_particleId',
               'Particle_C.remove_trajectory_particleId', 'Trajectory_C.__init__', 'Trajectory_C.create_trajectory',
               'Particle_C.advance_charged_species_in_E_field', 'Particle_C.advance_neutral_species', 'Particle_C.move_particles_in_electrostatic_field'],
    explanation='Symbolic execution of the trajectory bookkeeping inside the movers and of the recording functions, from source.  Positions and velocities '
                'are symbolic; z3 explores every order in which marked and unmarked particles are removed or cross marked facets, and decides that each '
                'trajectory holds exactly the points of its own particle (start, every marked crossing at its place and time, the end of every step, the '
                'last position), in order.',
    bounds=dict(quick='1D (line of three cells, or one cell), 2D one cell; up to 4 particles of one species of which up to 3 marked, segment length 1..3, up to 3 steps; charged, '
                      'neutral and legacy movers; piecewise-linear fields; exterior or all facets marked; room for all points, or for too few',
                thorough='as quick with up to 5 particles, and marked interior facets for two steps'),
    outside=['C++ movers', 'plots of trajectories'],
    assumptions=['reals', 'one step per loop pass: advance, then record (the order of the shipped drivers)'],
    reach=['beside another simulation', 'marked particle removed', 'unmarked particle removed before a marked one', 'boundary crossing recorded', 'interior crossing recorded',
           'trajectory full', 'index changed', 'second recording of a step ignored', 'all marked particles followed to the end',
           'removed after it was recorded in the same step', 'crossing with an external field', 'two species', 'no trajectories recorded'],
)

Q, M = -3, 2
FIELD = lambda x: x - 1          # E(x) of the charged runs (linear, so piecewise-linear interpolation is exact)


def start(k, mover, kind, L, N, marked, n_steps, extra, mark, field, max_points=None, mode=None, ext=False):
    dyn = 'neutral' if mover == 'neutral' else 'charged'
    q = 0.0 if dyn == 'neutral' else k.const(Q)
    s = Sim(k, kind, [('a', q, k.const(M), dyn), ('b', k.const(1) if dyn == 'neutral' else 0.0, k.const(1), 'charged' if dyn == 'neutral' else 'neutral')],
            L=L, dt=k.frac(1, 2), mark=mark, mode=mode or ('exterior' if mark == 'all' else 'absorb'))
    c = s.ctrl
    c.n_timesteps = n_steps
    c.title, c.author, c.write_trajectory_files = 't', 'a', False
    R = k.repo('RecordedData_Module')
    ti = R.TrajectoryInput_C()
    ti.max_points, ti.extra_points = max_points, extra
    d = s.dim
    pos = [n for x in s.coords for n in (x, 'u' + x)]
    E = ['E' + x for x in s.coords] + (['E' + x + '_ext' for x in s.coords] if ext else [])
    fl = k.np.float64
    ti.charged_dict = {'names': ['step', 't'] + pos + ['crossings'] + E, 'formats': [int, fl] + [fl] * (2 * d) + [int] + [fl] * len(E)}
    ti.neutral_dict = {'names': ['step', 't'] + pos + ['crossings'], 'formats': [int, fl] + [fl] * (2 * d) + [int]}
    P = s.P
    P.traj_T = R.Trajectory_C(ti, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    s.T = P.traj_T
    s.F = s.vector_field('negE', [[-FIELD(p[0])] + [0] * (d - 1) for p in s.verts]) if field else None
    s.name = mover
    return s


def load(k, s, recs):
    """Particles enter through the listed initialization, which creates the trajectories."""
    class U:
        @staticmethod
        def a(type):
            return len(recs), recs
    s.P.user_particles_class = U
    s.P.create_from_list('a')


def advance(s, ext=None, ticks=1):
    if ticks:
        tick(s)
    P = s.P
    if s.name == 'neutral':
        P.advance_neutral_particles(s.ctrl)
    elif s.name == 'legacy':
        P.move_particles_in_electrostatic_field(s.ctrl, neg_E_field=s.F, external_E_field=ext)
    else:
        P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=s.F, external_E_field=ext)


def record(s):
    s.P.record_trajectory_data(s.ctrl.timeloop_count, s.ctrl.time, neg_E_field=s.F)


def efield(k, s, x):
    return FIELD(x) if s.F is not None else k.const(0)


def path1(k, s, p, dt, t0):
    """Path of one particle in one step on a line mesh: (crossings [(facet x, marked, time)], inside?)."""
    E = efield(k, s, p['x'])
    u1 = p['u'] if s.name == 'neutral' or s.F is None else p['u'] + k.frac(Q, M) * E * dt
    x1 = p['x'] + u1 * dt
    ends = [sorted([s.verts[v][0] for v in c]) for c in s.cells]
    c, out, gone = p['cell'], [], False
    while True:
        lo, hi = ends[c]
        if not k.is_true(k.ge(x1, lo)):
            f, nxt = lo, c - 1
        elif not k.is_true(k.le(x1, hi)):
            f, nxt = hi, c + 1
        else:
            break
        interior = 0 <= nxt < len(ends)
        out.append((f, interior, t0 + dt * (f - p['x']) / (x1 - p['x'])))
        if not interior:
            gone = True
            break
        c = nxt
    return u1, x1, out, c, gone, E


def compare(k, s, T, i, want, note):
    D = T.data_list['a'][i]
    n = T.trajectory_length['a'][i]
    if int(n) != len(want):
        k.fail('trajectory of particle %d has %d points instead of %d (%s)' % (i, n, len(want), note))
    names = D.dtype.names
    for j, w in enumerate(want):
        k.check(k.all([k.eq(D[c][j], w[c]) for c in names if c in w]), 'point %d of a trajectory (%s) is the state of its own particle' % (j, w['kind']))


def follow(k, mover, L, N, marked, steps, mark='exterior', field=True, extra=10, kind='line', cells=None, again=False, n_steps=None):
    s = start(k, mover, kind, L, N, marked, n_steps or steps, extra, mark, field, ext=True)
    dt = k.frac(1, 2)
    cells = cells or [1] * N
    ps = []
    for i in range(N):
        lo, hi = sorted(s.verts[v][0] for v in s.cells[cells[i]])
        x, u = k.real('x%d' % i, lo, hi), k.real('u%d' % i)
        ps.append(dict(x=x, u=u, cell=cells[i], uid=50 + i, marked=i in marked, pts=[], gone=False))
    load(k, s, [s.record([p['x']], [p['u']], cell=p['cell'], uid=p['uid'], flags=2 if p['marked'] else 0, w=k.const(1)) for p in ps])
    room = s.T.npoints
    if int(room) < steps + 1 + extra and n_steps is None:
        k.fail('room for %s points instead of %d' % (room, steps + 1 + extra))
    full = False

    def put(p, **w):
        if len(p['pts']) < room:
            p['pts'].append(dict(w, Ex_ext=k.const(0)))
        else:
            k.reach('trajectory full')
    record(s)
    for p in ps:
        if p['marked']:
            put(p, kind='start', step=0, t=k.const(0), x=p['x'], ux=p['u'], Ex=efield(k, s, p['x']))
    removed_before = False
    for n in range(1, steps + 1):
        advance(s)
        record(s)
        if again:
            record(s)
            k.reach('second recording of a step ignored')
        t0, t1 = k.frac(n - 1, 2), k.frac(n, 2)
        for p in ps:
            if p['gone']:
                continue
            u1, x1, cr, c, gone, E = path1(k, s, p, dt, t0)
            if p['marked']:
                for f, interior, t in cr:
                    if interior and mark != 'all':
                        continue
                    k.reach('interior crossing recorded' if interior else 'boundary crossing recorded')
                    put(p, kind='crossing', step=n, t=t, x=k.const(f), ux=u1, Ex=E)
                if gone:
                    put(p, kind='last position', step=n, t=t1, x=x1, ux=u1, Ex=k.const(0), crossings=len(cr))
                    k.reach('marked particle removed')
                else:
                    put(p, kind='end of a step', step=n, t=t1, x=x1, ux=u1, Ex=efield(k, s, x1), crossings=len(cr))
                    if removed_before:
                        k.reach('unmarked particle removed before a marked one')
            elif gone:
                removed_before = True
            p.update(x=x1, u=u1, cell=c, gone=gone)
    # every trajectory belongs to its particle, has its points, and points at the right record
    T = s.T
    want = [p for p in ps if p['marked']]
    if len(T.data_list['a']) != len(want) or [int(q) for q in T.particle_unique_id_list['a']] != [p['uid'] for p in want]:
        k.fail('not one trajectory per marked particle')
    alive = [p for p in ps if not p['gone']]
    for i, p in enumerate(want):
        ip = int(T.particle_index_list['a'][i])
        if p['gone']:
            if ip != T.NO_PINDEX:
                k.fail('the trajectory of a removed particle is not closed')
        else:
            seg, off = s.P.sap_dict['a'].get_segment_and_offset(ip)
            if int(seg[off]['unique_ID']) != p['uid']:
                k.fail('a trajectory points at another particle')
            if ip != ps.index(p):
                k.reach('index changed')
        compare(k, s, T, i, p['pts'], mover)
    if all(not p['gone'] for p in want):
        k.reach('all marked particles followed to the end')


def plane(k, mover, marked, L=1, N=2):
    """One triangle in 2D: the recorded crossing point lies on the path and on the facet met."""
    s = start(k, mover, 'tri', L, N, marked, 1, 4, 'exterior', False)
    dt = k.frac(1, 2)
    ps = []
    for i in range(N):
        if i in marked:
            x = s.point_in(0, 'x%d' % i)
            u = [k.real('u%d' % i), k.real('v%d' % i)]
        else:
            x, u = [k.const(1), k.const(1)], [k.pick('w%d' % i, [k.const(0), k.const(50)]), k.const(0)]
        ps.append((x, u))
    load(k, s, [s.record(x, u, cell=0, uid=70 + i, flags=2 if i in marked else 0, w=k.const(1)) for i, (x, u) in enumerate(ps)])
    record(s)
    advance(s)
    record(s)
    T = s.T
    for j, i in enumerate(marked):
        x, u = ps[i]
        x1 = [x[c] + u[c] * dt for c in (0, 1)]
        stays = k.is_true(k.inside(s.mesh, 0, x1))
        want = [dict(kind='start', step=0, t=k.const(0), x=x[0], y=x[1], ux=u[0], uy=u[1])]
        D, n = T.data_list['a'][j], int(T.trajectory_length['a'][j])
        if n != (2 if stays else 3):
            k.fail('%d points instead of %d' % (n, 2 if stays else 3))
        last = dict(kind='end of a step' if stays else 'last position', step=1, t=dt, x=x1[0], y=x1[1], ux=u[0], uy=u[1])
        if not stays:
            k.reach('boundary crossing recorded')
            cx, cy, ct = D['x'][1], D['y'][1], D['t'][1]
            k.check(k.all([k.eq((cx - x[0]) * u[1], (cy - x[1]) * u[0]), k.eq(cx - x[0], u[0] * ct), k.eq(cy - x[1], u[1] * ct), k.ge(ct, 0), k.le(ct, dt)]),
                    'a recorded crossing is a point of the path, at the time the particle is there')
            b = s.bary(0, [cx, cy])
            k.check(k.all([k.any([k.eq(q, 0) for q in b])] + [k.ge(q, 0) for q in b]), 'a recorded crossing lies on the boundary of the cell')
            want.append(dict(kind='crossing', step=1, ux=u[0], uy=u[1]))
        want.append(last)
        compare(k, s, T, j, want, mover)


def species(k, mover):
    """Marked particles of both species: each trajectory in the storage of its species; switches that turn the field off."""
    s = start(k, mover, 'line', 2, 2, [0, 1], 1, 4, 'exterior', True, ext=True)
    dt = k.frac(1, 2)
    c = s.ctrl
    c.apply_solved_electric_field = {'a': bool(k.choice('solved', 2)), 'b': True}
    x, u = k.real('x0', 1, 3), k.real('u0')
    ext = None
    if k.choice('external', 2):
        # an external field that is switched off for this species
        ext = s.vector_field('ext', [[1 + p[0]] for p in s.verts])
        c.apply_random_external_electric_field = {'a': False, 'b': True}
    load(k, s, [s.record([x], [u], cell=1, uid=1, flags=2, w=k.const(1))])
    record(s)
    advance(s, ext)
    record(s)
    on = c.apply_solved_electric_field['a']
    u1 = u + (k.frac(Q, M) * FIELD(x) * dt if on else 0)
    x1 = x + u1 * dt
    D, n = s.T.data_list['a'][0], int(s.T.trajectory_length['a'][0])
    inside = k.is_true(k.all([k.ge(x1, 0), k.le(x1, 4)]))
    if n != (2 if inside else 3):
        k.fail('%d points recorded' % n)
    if not inside:
        k.check(k.all([k.eq(D['Ex'][1], FIELD(x) if on else 0), k.eq(D['Ex_ext'][1], 0)]), 'a crossing point holds the fields that are applied to the species')
    k.check(k.all([k.eq(D['x'][n - 1], x1), k.eq(D['ux'][n - 1], u1), k.eq(D['step'][n - 1], 1), k.eq(D['t'][n - 1], dt)]), 'the last point is the end of the step')


def two(k, mover, L, n=(2, 1), order='ab'):
    """Marked particles of a charged and of a neutral species: each has its own trajectories."""
    s = start(k, mover, 'one', L, 2, [], 1, 4, 'exterior', True)
    dt = k.frac(1, 2)
    ps = {'a': [], 'b': []}
    lo, hi = sorted(v[0] for v in s.verts)
    for sp, m in zip('ab', n):
        for i in range(m):
            last = i == m - 1
            x = k.real('x%s' % sp, lo, hi) if last else k.frac(int(lo + hi), 2)
            u = k.real('u%s' % sp) if last else k.pick('u0%s' % sp, [k.const(0), k.const(90)])
            ps[sp].append(dict(x=x, u=u, cell=0, uid=(70 if sp == 'a' else 71) + 2 * i))

    def lists(q):
        return staticmethod(lambda type: (len(ps[q]), [s.record([p['x']], [p['u']], cell=0, uid=p['uid'], flags=2, w=k.const(1)) for p in ps[q]]))
    s.P.user_particles_class = type('U', (), {q: lists(q) for q in ps})
    for q in order:
        s.P.create_from_list(q)
    record(s)
    charged, neutral = ('b', 'a') if mover == 'neutral' else ('a', 'b')
    tick(s)
    if mover == 'legacy':
        s.P.move_particles_in_electrostatic_field(s.ctrl, neg_E_field=s.F)
    else:
        s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=s.F)
    s.P.advance_neutral_particles(s.ctrl)
    record(s)
    for sp in 'ab':
        T = s.T
        if len(T.data_list[sp]) != len(ps[sp]) or [int(q) for q in T.particle_unique_id_list[sp]] != [p['uid'] for p in ps[sp]]:
            k.fail('not one trajectory per marked particle of a species')
        for j, p in enumerate(ps[sp]):
            q, m = (Q, M) if sp == 'a' else (1, 1)
            u1 = p['u'] + (k.frac(q, m) * efield(k, s, p['x']) * dt if sp == charged else 0)
            x1 = p['x'] + u1 * dt
            inside = k.is_true(k.all([k.ge(x1, lo), k.le(x1, hi)]))
            D, c = T.data_list[sp][j], int(T.trajectory_length[sp][j])
            if c != (2 if inside else 3):
                k.fail('%d points recorded for a particle of one of two species' % c)
            k.check(k.all([k.eq(D['x'][0], p['x']), k.eq(D['ux'][0], p['u']), k.eq(D['step'][0], 0), k.eq(D['x'][c - 1], x1), k.eq(D['ux'][c - 1], u1),
                           k.eq(D['step'][c - 1], 1), k.eq(D['t'][c - 1], dt)]), 'the trajectory of each species is that of its own particle')
            k.reach('two species')


def external(k, mover, L, marked, mark='exterior'):
    """The external field at a crossing is the one that acted in this step; at the end of a step it is the field there."""
    s = start(k, mover, 'line', L, 2, marked, 1, 6, mark, True, ext=True)
    dt = k.frac(1, 2)
    ext = s.vector_field('ext', [[1 + p[0]] for p in s.verts])
    ps = []
    for i in range(2):
        x, u = (k.real('x%d' % i, 1, 3), k.real('u%d' % i)) if i in marked else (k.const(2), k.const(0))
        ps.append((x, u))
    load(k, s, [s.record([x], [u], cell=1, uid=i, flags=2 if i in marked else 0, w=k.const(1)) for i, (x, u) in enumerate(ps)])
    s.P.record_trajectory_data(0, s.ctrl.time, neg_E_field=s.F, external_E_field=ext)
    advance(s, ext)
    s.P.record_trajectory_data(1, s.ctrl.time, neg_E_field=s.F, external_E_field=ext)
    for j, i in enumerate(marked):
        x, u = ps[i]
        D, n = s.T.data_list['a'][j], int(s.T.trajectory_length['a'][j])
        k.check(k.all([k.eq(D['x'][0], x), k.eq(D['Ex'][0], FIELD(x)), k.eq(D['Ex_ext'][0], 1 + x)]), 'the first point holds both fields at the start')
        u1, x1 = D['ux'][n - 1], D['x'][n - 1]
        k.check(k.eq(x1, x + u1 * dt), 'the last point is the end of the step')
        acted = (u1 - u) / (k.frac(Q, M) * dt)
        for m in range(1, n - 1):
            k.reach('crossing with an external field')
            k.check(k.all([k.eq(D['ux'][m], u1), k.eq(D['Ex'][m], FIELD(x)), k.eq(D['Ex_ext'][m], acted - FIELD(x))]),
                    'a crossing point holds the fields that acted on the particle in this step')
        if k.is_true(k.all([k.ge(x1, 0), k.le(x1, 4)])):
            k.check(k.all([k.eq(D['Ex'][n - 1], FIELD(x1)), k.eq(D['Ex_ext'][n - 1], 1 + x1)]), 'the point of the end of a step holds both fields there')
        else:
            k.check(k.all([k.eq(D['Ex'][n - 1], 0), k.eq(D['Ex_ext'][n - 1], 0)]), 'the last point outside the mesh holds no field')


def early(k, mover, L=1):
    """A driver that records before it advances within one step: the last point belongs to the next step."""
    s = start(k, mover, 'line', L, 2, [1], 3, 4, 'exterior', True)
    dt = k.frac(1, 2)
    x, u = k.real('x0', 1, 3), k.real('u0')
    v = k.pick('v', [k.const(0), k.const(90)])
    load(k, s, [s.record([k.const(2)], [v], cell=1, uid=4, w=k.const(1)), s.record([x], [u], cell=1, uid=5, flags=2, w=k.const(1))])
    s.ctrl.timeloop_count, s.ctrl.time = 6, k.const(3)
    record(s)
    advance(s, ticks=0)
    u1 = u + (k.frac(Q, M) * FIELD(x) * dt if mover != 'neutral' else 0)
    x1 = x + u1 * dt
    D, n = s.T.data_list['a'][0], int(s.T.trajectory_length['a'][0])
    inside = k.is_true(k.all([k.ge(x1, 0), k.le(x1, 4)]))
    if n != (1 if inside else 3):
        k.fail('%d points recorded' % n)
    if not inside:
        k.reach('removed after it was recorded in the same step')
        k.check(k.all([k.eq(D['x'][2], x1), k.eq(D['ux'][2], u1), k.eq(D['step'][2], 7), k.eq(D['t'][2], k.const(3) + dt)]), 'the last point is that of the end of the move')
    k.check(k.all([k.eq(D['x'][0], x), k.eq(D['ux'][0], u), k.eq(D['step'][0], 6), k.eq(D['t'][0], 3)]), 'the first point is that of the recording')


def without(k, mover, kind, L):
    """Marked particles move like others when no trajectories are recorded."""
    s = start(k, mover, kind, L, 2, [1], 1, 4, 'exterior', mover != 'neutral')
    s.P.traj_T = None
    dt = k.frac(1, 2)
    lo, hi = sorted(s.verts[v][0] for v in s.cells[0])
    x, u = k.real('x0', lo, hi), k.real('u0')
    v = k.pick('v', [k.const(0), k.const(90)])
    load(k, s, [s.record([k.frac(1, 2) * (lo + hi)], [v], cell=0, uid=4, w=k.const(1)), s.record([x], [u], cell=0, uid=5, flags=2, w=k.const(1))])
    advance(s)
    u1 = u + (k.frac(Q, M) * FIELD(x) * dt if mover != 'neutral' else 0)
    x1 = x + u1 * dt
    inside = k.is_true(k.any([k.inside(s.mesh, c, [x1]) for c in range(len(s.cells))]))
    k.reach('no trajectories recorded')
    got = [g for g in s.stored('a') if int(g['unique_ID']) == 5]
    if len(got) != inside:
        k.fail('a marked particle that %s the mesh is %s' % ('stays in' if inside else 'leaves', 'removed' if inside else 'kept'))
    for g in got:
        k.check(k.all([k.eq(g['x'], x1), k.eq(g['ux'], u1), k.eq(g['bitflags'], 2)]), 'a marked particle moves like any other')


def beside(k, kind, of, args):
    # the other simulation has trajectories too
    s = start(k, 'charged', 'line', 1, 2, [0, 1], 3, 4, 'exterior', True, ext=True)
    load(k, s, [s.record([k.const(2)], [k.const(v)], cell=1, uid=90 + i, flags=2, w=k.const(1)) for i, v in enumerate((0, 30))])
    record(s)
    seg = s.PM.Particle_C.SEGMENT_LENGTH
    common.beside(k, kind, globals()[of], args)
    s.PM.Particle_C.SEGMENT_LENGTH = seg
    advance(s)
    record(s)
    T = s.T
    if [int(q) for q in T.particle_unique_id_list['a']] != [90, 91] or [int(q) for q in T.trajectory_length['a']] != [2, 3] or len(T.data_list['a']) != 2:
        k.fail('the trajectories of another simulation are affected')
    E = FIELD(k.const(2)) * k.frac(Q, M) * k.frac(1, 2)
    for i, v in enumerate((0, 30)):
        D, n = T.data_list['a'][i], 1 + i
        u = v + E
        k.check(k.all([k.eq(D['x'][0], 2), k.eq(D['x'][n], 2 + u * k.frac(1, 2)), k.eq(D['ux'][n], u), k.eq(D['t'][0], 0), k.eq(D['t'][n], k.frac(1, 2))]),
                'the trajectories of another simulation are not affected')


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for m in ('charged', 'neutral', 'legacy'):
        job('early', mover=m)
        for L in (1, 2):
            job('without', mover=m, kind='one', L=L)
        f = m != 'neutral'
        for L in (1, 2, 3):
            job('follow', 20, mover=m, L=L, N=3, marked=[1, 2], steps=1, field=False)
        job('follow', 20, mover=m, L=2, N=2, marked=[1], steps=2, field=False, again=True)
        job('follow', 10, mover=m, L=2, N=1, marked=[0], steps=2, field=f, extra=1)
        job('follow', 10, mover=m, L=2, N=1, marked=[0], steps=1, field=f, mark='all')
        job('follow', 10, mover=m, L=2, N=2, marked=[0, 1], steps=2, field=False, extra=0, n_steps=1, kind='one', cells=[0, 0])
        job('follow', 10, mover=m, L=2, N=2, marked=[0, 1], steps=1, field=False, extra=0, n_steps=1, mark='all')
        job('follow', 10, mover=m, L=2, N=3, marked=[0, 2], steps=2, field=False, kind='one', cells=[0, 0, 0])
        job('plane', 10, mover=m, marked=[1])
        if f:
            job('species', 5, mover=m)
            job('two', 5, mover=m, L=1)
            job('two', 5, mover=m, L=2, n=(1, 2), order='ba')
            for L, marked in ((1, [1]), (2, [0]), (2, [0, 1]), (2, [1])):
                job('external', 6, mover=m, L=L, marked=marked)
            job('external', 6, mover=m, L=2, marked=[1], mark='all')
    if tier == 'thorough':
        for m in ('charged', 'neutral'):
            for L in (1, 2, 3):
                job('follow', 60, mover=m, L=L, N=4, marked=[1, 3], steps=1, field=False)
                job('follow', 60, mover=m, L=L, N=3, marked=[1, 2], steps=2, field=False, kind='one', cells=[0, 0, 0])
            job('follow', 30, mover=m, L=2, N=1, marked=[0], steps=2, field=m == 'charged', mark='all')
    common.beside_jobs(out, [('follow', 'charged', 'enil'), ('follow', 'neutral', 'line'), ('two', 'legacy', 'one')])
    return out
