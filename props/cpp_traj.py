"""P20: trajectories recorded by the C++ movers."""
from .common import Sim, modules
from .cpp_move import Q, M, tick
from .trajectory import load

PROPERTY = dict(
    title='C++ movers: a trajectory follows its particle and records every boundary crossing',
    files=['cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'cpp/advance_charged_species_in_E_field_spherical_r.cpp',
           'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp', 'cpp/advance_neutral_species_cartesian_xy.cpp',
           'cpp/advance_neutral_species_cartesian_xyz.cpp', 'cpp/SegmentedArrayPair.h', 'cpp/Pstruct.h', 'Particle_Module.py', 'RecordedData_Module.py'],
    functions=['advance_charged_species_in_E_field_cartesian_x<2>', 'advance_charged_species_in_E_field_spherical_r<2>',
               'advance_charged_species_in_E_field_cartesian_xy<3>', 'advance_neutral_species_cartesian_xy<3>', 'advance_neutral_species_cartesian_xyz<4>',
               'SegmentedArrayPair<PT>::get_full_index', 'SegmentedArrayPair<PT>::get_full_indices', 'SegmentedArrayPair<PT>::get_current_out_segment',
               'SegmentedArrayPair<PT>::get_segment_and_offset', 'Particle_C.record_trajectory_data', 'Particle_C.record_trajectory_datum',
               'Particle_C.update_trajectory_particleId', 'Particle_C.remove_trajectory_particleId', 'Particle_C.create_from_list', 'Trajectory_C.*'],
    explanation='Symbolic execution of the C++ movers (compiled unchanged with `double` replaced by a symbolic real) together with the Python recording functions '
                'they call back.  Positions, velocities and field values are symbolic; z3 explores every order in which marked and unmarked particles leave, '
                'and decides that each trajectory holds exactly the points of its own particle.',
    bounds=dict(quick='1D (Cartesian, spherical) with 1-3 cells, up to 4 particles of which up to 3 marked, segment length 1..3, up to 2 steps; one triangle and one '
                      'tetrahedron with up to 3 particles, 1 step; field given, absent, or switched off for the species',
                thorough='as quick with more particles and two cells in 2D'),
    outside=['marked interior facets (the supplied C++ boundary functions absorb at every marked facet)', 'the random external field (unfinished in C++)', 'fields other than cell-constant ones'],
    assumptions=['reals', 'exact orientation predicates', 'one step per loop pass: advance, then record (the order of the shipped drivers)'],
    reach=['after another simulation', 'marked particle removed', 'unmarked particle removed before a marked one', 'boundary crossing recorded', 'trajectory full', 'index changed',
           'field switched off', 'no field', 'no trajectories recorded', 'no trajectories recorded, another removed', 'two components recorded'],
)


def build(k, mover, kind, L, n_steps, extra, on=True, record=True):
    q = 0.0 if mover == 'neutral' else k.const(Q)
    s = Sim(k, kind, [('a', q, k.const(M), mover), ('b', q, k.const(1), mover)], L=L, dt=k.frac(1, 2), spherical=kind == 'shell', cpp=True)
    c = s.ctrl
    c.n_timesteps, c.title, c.author, c.write_trajectory_files = n_steps, 't', 'a', False
    if on is not None:
        c.apply_solved_electric_field = {'a': on, 'b': True}
    P, d, fl = s.P, s.dim, k.np.float64
    s.T = None
    if record:
        R = k.repo('RecordedData_Module')
        ti = R.TrajectoryInput_C()
        ti.max_points, ti.extra_points = None, extra
        pos = [n for x in s.coords for n in (x, 'u' + x)]
        E = ['E' + x for x in s.coords] + ['E' + x + '_ext' for x in s.coords]
        ti.charged_dict = {'names': ['step', 't'] + pos + ['crossings'] + E, 'formats': [int, fl] + [fl] * (2 * d) + [int] + [fl] * (2 * d)}
        ti.neutral_dict = {'names': ['step', 't'] + pos + ['crossings'], 'formats': [int, fl] + [fl] * (2 * d) + [int]}
        s.T = P.traj_T = R.Trajectory_C(ti, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    s.mover = mover
    return s


def step(s, F):
    tick(s)
    if s.mover == 'neutral':
        s.P.advance_neutral_particles(s.ctrl)
    else:
        s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=F)


def check_points(k, T, i, want):
    D, n = T.data_list['a'][i], int(T.trajectory_length['a'][i])
    if n != len(want):
        k.fail('trajectory of particle %d has %d points instead of %d' % (i, n, len(want)))
    for j, w in enumerate(want):
        k.check(k.all([k.eq(D[c][j], w[c]) for c in D.dtype.names if c in w]), 'point %d of a trajectory (%s) is the state of its own particle' % (j, w['kind']))


def follow(k, kind, L, N, marked, steps=1, field='no', extra=10, cells=None, n_steps=None, mover='charged', second=False):
    """On a line: every point of every trajectory."""
    if second:
        first = before(k, kind, mover, second != 'plain')
    on = field not in ('off',)
    s = build(k, mover, kind, L, n_steps or steps, extra, on=on if field != 'no' else None)
    q = s.coords[0]
    h = k.frac(1, 2)
    ends = [sorted([s.verts[v][0] for v in c]) for c in s.cells]
    F, EC = None, [k.const(0)] * len(ends)
    if field == 'no':
        k.reach('no field')
    else:
        F = s.cell_field('negE')
        EC = [k.const(0) - F.cellwise[c][0] for c in range(len(ends))]
        if not on:
            k.reach('field switched off')
    order = sorted(range(len(ends)), key=lambda c: ends[c][0])
    ps = []
    for i in range(N):
        c = (cells or [0] * N)[i]
        x, u = k.real('x%d' % i, *ends[c]), k.real('u%d' % i)
        ps.append(dict(x=x, u=u, cell=c, uid=50 + i, marked=i in marked, pts=[], gone=False))
    load(k, s, [s.record([p['x']], [p['u']], cell=p['cell'], uid=p['uid'], flags=2 if p['marked'] else 0, w=k.const(1)) for p in ps])
    T, room = s.T, int(s.T.npoints)

    def point(p, kind, step, t, x, u, E, n=None):
        if len(p['pts']) < room:
            w = {'kind': kind, 'step': step, 't': t, q: x, 'u' + q: u, 'E' + q: E, 'E' + q + '_ext': k.const(0)}
            if n is not None:
                w['crossings'] = n
            if kind in ('start', 'end of a step') and F is not None and k.is_true(k.any([k.eq(x, e) for c in ends for e in c])):
                # on a facet, the value of a cell-constant field may be that of either cell
                del w['E' + q]
            p['pts'].append(w)
        else:
            k.reach('trajectory full')
    s.P.record_trajectory_data(0, s.ctrl.time, neg_E_field=F)
    for p in ps:
        if p['marked']:
            point(p, 'start', 0, k.const(0), p['x'], p['u'], EC[p['cell']])
    early = False
    for n in range(1, steps + 1):
        step(s, F)
        s.P.record_trajectory_data(s.ctrl.timeloop_count, s.ctrl.time, neg_E_field=F)
        t0, t1 = k.frac(n - 1, 2), k.frac(n, 2)
        for p in ps:
            if p['gone']:
                continue
            E = EC[p['cell']] if on else k.const(0)
            u = p['u'] + k.frac(Q, M) * E * h if F is not None and on else p['u']
            x = p['x'] + u * h
            at, count, gone = order.index(p['cell']), 0, False
            while True:
                lo, hi = ends[order[at]]
                if not k.is_true(k.ge(x, lo)):
                    f, at = lo, at - 1
                elif not k.is_true(k.le(x, hi)):
                    f, at = hi, at + 1
                else:
                    break
                count += 1
                if not 0 <= at < len(order):
                    gone = True
                    break
            if p['marked']:
                if gone:
                    k.reach('boundary crossing recorded')
                    point(p, 'crossing', n, t0 + h * (f - p['x']) / (x - p['x']), k.const(f), u, E)
                    k.reach('marked particle removed')
                    point(p, 'last position', n, t1, x, u, k.const(0), count)
                else:
                    point(p, 'end of a step', n, t1, x, u, EC[order[at]], count)
                    if early:
                        k.reach('unmarked particle removed before a marked one')
            elif gone:
                early = True
            p.update(x=x, u=u, gone=gone)
            if not gone:
                p['cell'] = order[at]
    want = [p for p in ps if p['marked']]
    if len(T.data_list['a']) != len(want) or [int(v) for v in T.particle_unique_id_list['a']] != [p['uid'] for p in want]:
        k.fail('not one trajectory per marked particle')
    for i, p in enumerate(want):
        ip = int(T.particle_index_list['a'][i])
        if p['gone']:
            if ip != T.NO_PINDEX:
                k.fail('the trajectory of a removed particle is not closed')
        else:
            seg, off = s.P.sap_dict['a'].get_segment_and_offset(ip)
            if int(seg[off]['unique_ID']) != p['uid']:
                k.fail('a trajectory points at another particle')
            if ip != ps.index(p):
                k.reach('index changed')
        check_points(k, T, i, p['pts'])


def before(k, kind, mover, record=True):
    """Another simulation earlier in the same process: other mesh, particles, trajectories, time step."""
    kind = {'tri': 'rect', 'tet': 'tets', 'one': 'line', 'line': 'one', 'shell': 'shell'}[kind]
    s = build(k, mover, kind, 1, 1, 4, record=record)
    s.ctrl.dt = k.frac(1, 8)
    s.ctrl.time = k.const(40)
    s.ctrl.timeloop_count = 17
    F = s.cell_field('before', [[1] * s.dim for c in s.cells]) if mover == 'charged' else None
    c = len(s.cells) - 1
    n = s.dim + 1
    x = [sum(k.const(s.verts[v][d]) for v in s.cells[c]) / n for d in range(s.dim)]
    if record:
        load(k, s, [s.record(x, [k.const(0)] * s.dim, cell=c, uid=3, flags=2, w=k.const(1)),
                    s.record(x, [k.const(90)] * s.dim, cell=c, uid=4, flags=2, w=k.const(1))])
        s.P.record_trajectory_data(s.ctrl.timeloop_count, s.ctrl.time, neg_E_field=F)
    else:
        s.add('a', x, [k.const(0)] * s.dim, w=k.const(1), cell=c, uid=3)
    step(s, F)
    if record:
        s.P.record_trajectory_data(s.ctrl.timeloop_count, s.ctrl.time, neg_E_field=F)
    k.reach('after another simulation')
    return s


def plane(k, kind, mover, marked, L=1, N=1, field='no', steps=1, second=False):
    """One cell in 2D or 3D: the recorded crossing lies on the path and on the facet met."""
    if second:
        first = before(k, kind, mover, second != 'plain')
    s = build(k, mover, kind, L, steps, 4, on=None if field == 'no' else field != 'off')
    h, d = k.frac(1, 2), s.dim
    F, E = None, [k.const(0)] * d
    if field != 'no':
        F = s.cell_field('negE')
        E = [k.const(0) - F.cellwise[0][i] for i in range(d)]
        k.reach('two components recorded')
    zero = [k.const(0)] * d

    def point(kind, n, t, x, u, e):
        w = dict(kind=kind, step=n)
        for i, q in enumerate(s.coords):
            w['u' + q] = u[i]
            w['E' + q] = e[i]
            w['E' + q + '_ext'] = k.const(0)
            if x is not None:
                w[q] = x[i]
        if t is not None:
            w['t'] = t
        return w
    ps = []
    for i in range(N):
        if i in marked:
            x, u = s.point_in(0, 'x%d' % i), [k.real('u%d_%d' % (i, c)) for c in range(d)]
            if steps > 1:
                u = [u[0]] + [k.const(1)] * (d - 1)
        else:
            x, u = [k.frac(1, 4)] * d, [k.pick('w%d' % i, [k.const(0), k.const(50)])] + [k.const(0)] * (d - 1)
        ps.append(dict(x=x, u=u, gone=False, want=[point('start', 0, k.const(0), x, u, E)]))
    load(k, s, [s.record(p['x'], p['u'], cell=0, uid=70 + i, flags=2 if i in marked else 0, w=k.const(1)) for i, p in enumerate(ps)])
    s.P.record_trajectory_data(0, s.ctrl.time, neg_E_field=F)
    T = s.T
    for t in range(1, steps + 1):
        step(s, F)
        s.P.record_trajectory_data(t, s.ctrl.time, neg_E_field=F)
        t0, t1 = (t - 1) * h, t * h
        for j, i in enumerate(marked):
            p = ps[i]
            x, u = p['x'], p['u']
            if p['gone']:
                continue
            u1 = [u[c] + k.frac(Q, M) * E[c] * h for c in range(d)] if F is not None and field != 'off' else u
            x1 = [x[c] + u1[c] * h for c in range(d)]
            stays = k.is_true(k.inside(s.mesh, 0, x1))
            D, n, m = T.data_list['a'][j], int(T.trajectory_length['a'][j]), len(p['want'])
            if n != m + (1 if stays else 2):
                k.fail('%d points instead of %d' % (n, m + (1 if stays else 2)))
            if not stays:
                k.reach('boundary crossing recorded')
                X, ct = [D[q][m] for q in s.coords], D['t'][m]
                k.check(k.all([k.eq(X[c] - x[c], u1[c] * (ct - t0)) for c in range(d)] + [k.ge(ct, t0), k.le(ct, t1)]),
                        'a recorded crossing is a point of the path, at the time the particle is there')
                b = s.bary(0, X)
                k.check(k.all([k.any([k.eq(v, 0) for v in b])] + [k.ge(v, 0) for v in b]), 'a recorded crossing lies on the boundary of the cell')
                p['want'] += [point('crossing', t, None, None, u1, zero if field == 'off' else E), point('last position', t, t1, x1, u1, zero)]
            else:
                p['want'].append(point('end of a step', t, t1, x1, u1, E))
            p.update(x=x1, u=u1, gone=not stays)
    for j, i in enumerate(marked):
        p = ps[i]
        check_points(k, T, j, p['want'])
        ip = int(T.particle_index_list['a'][j])
        if not p['gone']:
            seg, off = s.P.sap_dict['a'].get_segment_and_offset(ip)
            if int(seg[off]['unique_ID']) != 70 + i:
                k.fail('a trajectory points at another particle')
        elif ip != T.NO_PINDEX:
            k.fail('the trajectory of a removed particle is not closed')


def without(k, kind, mover):
    """Marked particles move like others when no trajectories are recorded."""
    s = build(k, mover, kind, 2, 1, 4, record=False, on=None)
    h, d = k.frac(1, 2), s.dim
    x, u = s.point_in(0, 'x'), [k.real('u%d' % c) for c in range(d)]
    if k.choice('another removed before', 2):
        centre = [sum(s.verts[v][c] for v in s.cells[0]) * k.frac(1, d + 1) for c in range(d)]
        s.add('a', centre, [k.const(-60)] * d, w=k.const(1), cell=0, uid=6)
        k.reach('no trajectories recorded, another removed')
    s.add('a', x, u, w=k.const(1), flags=2, cell=0, uid=7)
    step(s, None)
    x1 = [x[c] + u[c] * h for c in range(d)]
    got = s.stored('a')
    k.reach('no trajectories recorded')
    if k.is_true(k.inside(s.mesh, 0, x1)):
        if len(got) != 1:
            k.fail('a marked particle is lost')
        k.check(k.all([k.eq(got[0][q], x1[i]) for i, q in enumerate(s.coords)] + [k.eq(got[0]['bitflags'], 2)]), 'a marked particle moves like any other')
    elif len(s.cells) == 1 and got:
        k.fail('a particle that left the mesh is kept')


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight, cpp=modules(cfg['kind'])))
    for L in (1, 2, 3):
        job('follow', 20, kind='one', L=L, N=3, marked=[1, 2])
        job('follow', 20, kind='one', L=L, N=2, marked=[1], steps=2)
        job('follow', 20, kind='shell', L=L, N=2, marked=[1], cells=[0, 1])
    job('follow', 20, kind='one', L=2, N=4, marked=[0, 3])
    job('follow', 20, kind='one', L=2, N=2, marked=[0, 1], steps=2, extra=0, n_steps=1)
    job('follow', 20, kind='one', L=2, N=2, marked=[0, 1], extra=0, n_steps=0)
    for field in ('yes', 'off', 'no'):
        for kind in ('line', 'shell'):
            job('follow', 20, kind=kind, L=2, N=1, marked=[0], field=field, steps=1 if field == 'yes' else 2, cells=[1])
        job('plane', 20, kind='tri', mover='charged', marked=[0], field=field)
        job('plane', 20, kind='tri', mover='charged', marked=[1], N=2, field=field)
    for kind in ('tri', 'tet'):
        for L in (1, 2):
            job('plane', 30, kind=kind, mover='neutral', marked=[1], N=2, L=L)
        job('plane', 30, kind=kind, mover='neutral', marked=[0, 2] if kind == 'tri' else [0], N=3, L=2)
        job('without', 5, kind=kind, mover='neutral')
    for kind in ('one', 'shell'):
        job('follow', 20, kind=kind, L=2, N=1, marked=[0], field='yes', cells=[0], second=True)
        job('follow', 20, kind=kind, L=2, N=1, marked=[0], cells=[0], second='plain')
    for kind, mover in (('tri', 'charged'), ('tri', 'neutral'), ('tet', 'neutral')):
        job('plane', 20, kind=kind, mover=mover, marked=[0], field='yes' if mover == 'charged' else 'no', second=True)
        job('plane', 20, kind=kind, mover=mover, marked=[0], steps=2, second='plain')
    for kind in ('one', 'shell', 'tri'):
        job('without', 5, kind=kind, mover='charged')
    if tier == 'thorough':
        for L in (1, 2, 3):
            job('follow', 60, kind='one', L=L, N=4, marked=[1, 3])
            job('follow', 60, kind='one', L=L, N=3, marked=[1, 2], steps=2)
            job('follow', 60, kind='line', L=L, N=2, marked=[0, 1], steps=2, cells=[1, 1])
        for m in ('charged', 'neutral'):
            job('plane', 100, kind='tri', mover=m, marked=[0, 1], N=2, L=1)
    return out
