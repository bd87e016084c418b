"""P13: initial and source particles are those that were asked for."""
from . import common
from .common import Sim, modules
from .deposit import volume

PROPERTY = dict(
    title='Initial and source particles are exactly those asked for',
    files=['Particle_Module.py', 'Dolfin_Module.py', 'SegmentedArrayPair_Module.py', 'RecordedData_Module.py'],
    functions=['Particle_C.initialize_particles', 'Particle_C.create_from_list', 'Particle_C.add_more_particles', 'Particle_C.create_maxwellian_particles',
               'CellSet_C.__init__', 'CellSet_C.in_cell', 'RectangularRegion_C.*', 'WholeMesh_C.*', 'Particle_C.compute_mesh_cell_indices', 'Mesh_C.compute_cell_index'],
    explanation='Symbolic execution of particle creation from source: list contents, densities, drift and thermal speeds, region limits, step numbers, intervals and every random '
                'number are symbolic.  z3 decides which particles exist afterwards and what they hold: cell by cell the asked number of particles inside their recorded cell, carrying '
                'density times volume, with velocity drift plus thermal speed times normal numbers of their own, and identities of their own.',
    bounds=dict(quick='meshes of 1-3 cells in 1D (also spherical, and with more particle than mesh coordinates), 2D and 3D; up to 3 particles per cell with up to 2 rejected positions; lists of up to 4 particles; '
                      'two sources, steps up to 12 and intervals up to 6', thorough='as quick with more particles per cell and more rejections'),
    outside=['the quality of the random number generator', 'the shape of the position distribution inside a cell (only that it reaches every point, for positions drawn from a box by rejection)'],
    assumptions=['reals', 'the random numbers are arbitrary (uniform ones in their interval)', 'at most 2 rejected positions in a run'],
    reach=['beside another simulation', 'listed particles', 'function over region', 'position rejected', 'several particles in a cell', 'source skipped', 'source called', 'marked particle created',
           'appended to existing particles', 'point in the mesh', 'point outside the mesh', 'unknown distribution refused'],
)


def params(k, s, sp, npc):
    d = [k.real('drift%d' % i) for i in range(len(s.coords))]
    p = dict(species_name=sp, number_density=k.real('density'), thermal_speed=k.real('vt'), drift_velocity=d if not s.arr else k.np.array(d),
             velocity_coordinate_system='x_y_z', number_per_cell=npc, timestep_interval=1)
    k.assume(p['thermal_speed'] > 0)
    return p


def examine(k, s, sp, p, cells, npc, old=0, ids=None):
    """The particles after the first `old` are the asked ones; returns their records."""
    rec = s.stored(sp)[old:]
    if len(rec) != npc * len(cells):
        k.fail('%d particles were created instead of %d' % (len(rec), npc * len(cells)))
    if int(s.P.get_species_particle_count(sp)) != old + len(rec):
        k.fail('the count does not include the new particles')
    g, C = s.dim, s.coords
    per = {c: 0 for c in cells}
    ids = set() if ids is None else ids
    free = list(range(len(k.gauss())))
    four_pi = 4 * k.np.pi
    for r in rec:
        c = int(r['cell_index'])
        if c not in per:
            k.fail('a particle is created in a cell outside the region')
        per[c] += 1
        x = [r[n] for n in C]
        k.check(k.inside(s.mesh, c, x[:g]), 'a new particle is in the cell recorded for it')
        k.check(k.all([k.eq(q, 0) for q in x[g:]] + [k.eq(r[n + '0'], q) for n, q in zip(C, x)]),
                'a new particle starts where it is')
        w = r['weight'] * npc * (four_pi if s.spherical else 1)
        vol = s.mesh_M.cell_volume_dict[c] if s.spherical else volume(k, s, c)
        k.check(k.eq(w, p['number_density'] * vol), 'the particles of a cell carry density times volume')
        if int(r['crossings']) != 0:
            k.fail('a new particle has crossings')
        u = int(r['unique_ID'])
        if u in ids:
            k.fail('two particles have the same identity')
        ids.add(u)
        for i, n in enumerate(C):
            hit = [j for j in free if k.is_true(k.eq(r['u' + n], p['drift_velocity'][i] + p['thermal_speed'] * k.gauss()[j]))] if not k.symbolic else \
                match(k, r['u' + n] - p['drift_velocity'][i], p['thermal_speed'], free)
            if not hit:
                k.fail('a velocity component is not the drift plus the thermal speed times a normal number of its own')
            free.remove(hit[0])
    if any(n != npc for n in per.values()):
        k.fail('the particles are not shared equally among the cells')
    return rec


def match(k, d, vt, free):
    """Indices of unused normal numbers g with d == vt*g for every value (an identity)."""
    from symx import engine
    out = []
    names = [n for n in k.e.draws if n.startswith('gauss')]
    for j in free:
        if k.identical(d, vt * k.e.real(names[j])):
            return [j]
    return out


def build(k, kind, L, spherical=False, system=None, arr=False, neutral=False, q=None):
    s = Sim(k, kind, [('a', 0.0 if neutral else k.const(-1) if q is None else q, k.const(1), 'neutral' if neutral else 'charged'), ('b', k.const(1), k.const(2), 'charged')], L=L, spherical=spherical,
            system=system, dt=k.frac(1, 2))
    s.spherical, s.arr = spherical, arr
    s.PM.Particle_C.UNIQUE_ID_COUNTER = 0
    return s


def maxwellian(k, kind, L, npc, reject=1, region='whole', via='direct', spherical=False, system=None, arr=False, old=0, twice=False):
    s = build(k, kind, L, spherical, system, arr)
    P = s.P
    n = len(s.coords)
    if region == 'whole':
        R = s.DM.WholeMesh_C(s.mesh_M)
        cells = list(range(len(s.cells)))
    elif region == 'box2':
        # a region that holds the cells 1 and 2
        a, b = k.real('pmin', 1, 2), k.real('pmax', 4, 5)
        R = s.DM.RectangularRegion_C(s.mesh_M, a, b)
        cells = [1, 2]
    else:
        # a region that holds cell 1 only (limits symbolic)
        a, b = k.real('pmin', 1, 2), k.real('pmax', 2, 3)
        R = s.DM.RectangularRegion_C(s.mesh_M, a, b)
        cells = [1]
    for i in range(old):
        s.add('a', [k.const(0)] * n, [k.const(0)] * n, uid=900 + i)
    if old:
        k.reach('appended to existing particles')
    p = params(k, s, 'a', npc)
    times = 2 if twice else 1
    k.limit_draws(times * (len(cells) * ((npc - 1) * s.dim + npc * n)) + reject * s.dim)
    ids = set()
    tot = old
    F = s.vector_field('negE', [[1] * s.dim for _ in s.verts]) if via == 'init' else None
    before = None
    for q in range(times):
        if via == 'direct':
            P.create_maxwellian_particles(3, k.const(1), R, p)
        elif via == 'init':
            P.initial_particles_dict = {'plasma': (dict(p, initial_distribution_type='function_over_region'), P.create_maxwellian_particles, R)}
            P.initialize_particles({'a': False, 'b': False}, neg_E_field=F)
            k.reach('function over region')
        else:
            P.particle_source_dict = {'src': (p, P.create_maxwellian_particles, R)}
            s.ctrl.timeloop_count = 2
            P.add_more_particles(s.ctrl)
        if len(s.stored('a')) > 4 * npc * len(cells) + old:
            k.fail('too many particles')
        if q == times - 1:
            examine2(k, s, p, cells, npc, old, times, ids)
    if len(s.stored('b')):
        k.fail('another species got particles')
    if npc > 1:
        k.reach('several particles in a cell')
    un = [d for d in (k.e.draws if k.symbolic else []) if d.startswith('uniform')]
    if len(un) > times * len(cells) * (npc - 1) * s.dim:
        k.reach('position rejected')
    for i, r in enumerate(s.stored('a')[:old]):
        if int(r['unique_ID']) != 900 + i:
            k.fail('existing particles were changed')


def examine2(k, s, p, cells, npc, old, times, ids):
    if times == 1:
        return examine(k, s, 'a', p, cells, npc, old, ids)
    rec = s.stored('a')[old:]
    if len(rec) != times * npc * len(cells):
        k.fail('%d particles after %d calls instead of %d' % (len(rec), times, times * npc * len(cells)))
    us = [int(r['unique_ID']) for r in rec]
    if len(set(us)) != len(us):
        k.fail('two particles have the same identity')


def marked(k, kind, first, npc, field, neutral=False, traj=True, external=False):
    """Every particle created with the trajectory flag has a trajectory that starts with its state."""
    q = None
    if not neutral:
        q = k.real('charge')
        k.assume_c(k.any([k.le(q, k.frac(-1, 8)), k.ge(q, k.frac(1, 8))]))
    s = build(k, kind, 2, neutral=neutral, q=q)
    P, c = s.P, s.ctrl
    P.__class__.UNIQUE_ID_COUNTER = first
    R = k.repo('RecordedData_Module')
    c.n_timesteps, c.title, c.author, c.write_trajectory_files = 3, 't', 'a', False
    if traj:
        ti = R.TrajectoryInput_C()
        ti.max_points, ti.extra_points = None, 2
        fl = k.np.float64
        pos = [n for x in s.coords for n in (x, 'u' + x)]
        ti.neutral_dict = {'names': ['step', 't'] + pos + ['crossings'], 'formats': [int, fl] + [fl] * (2 * s.dim) + [int]}
        ti.charged_dict = {'names': ['step', 't'] + pos + ['crossings'] + ['E' + x + e for e in ('', '_ext') for x in s.coords], 'formats': [int, fl] + [fl] * (2 * s.dim) + [int] + [fl] * (2 * s.dim)}
        P.traj_T = R.Trajectory_C(ti, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    W = s.DM.WholeMesh_C(s.mesh_M)
    p = params(k, s, 'a', npc)
    n = len(s.coords)
    k.limit_draws(len(s.cells) * ((npc - 1) * s.dim + npc * n) + s.dim)
    F = s.vector_field('negE') if field else None
    t = k.real('t')
    X = s.vector_field('ext') if external else None
    P.create_maxwellian_particles(4, t, W, p, neg_E_field=F, external_E_field=X)
    examine(k, s, 'a', p, list(range(len(s.cells))), npc)
    want = []
    for i, r in enumerate(s.stored('a')):
        if int(r['bitflags']) & P.TRAJECTORY_FLAG:
            k.reach('marked particle created')
            want.append((i, r))
        if int(r['bitflags']) & ~P.TRAJECTORY_FLAG:
            k.fail('a new particle has other flags')
    if not traj:
        return
    T = P.traj_T
    if [int(q) for q in T.particle_index_list['a']] != [i for i, r in want] or [int(q) for q in T.particle_unique_id_list['a']] != [int(r['unique_ID']) for i, r in want]:
        k.fail('the trajectories are not those of the marked particles')
    for j, (i, r) in enumerate(want):
        if int(T.trajectory_length['a'][j]) != 1:
            k.fail('the trajectory of a new particle does not start with one point')
        D = T.data_list['a'][j]
        x = [r[q] for q in s.coords]
        E = [k.const(0)] * s.dim if F is None else [-q for q in s.at(F, int(r['cell_index']), x)]
        Y = [k.const(0)] * s.dim if X is None else list(s.at(X, int(r['cell_index']), x))
        k.check(k.all([k.eq(D['step'][0], 4), k.eq(D['t'][0], t), k.eq(D['crossings'][0], 0)] +
                      [k.eq(D[q][0], r[q]) for q in D.dtype.names if q in r and q != 'crossings'] + ([k.eq(D['E' + q + e][0], V[i]) for e, V in (('', E), ('_ext', Y)) for i, q in enumerate(s.coords)] if not neutral else [])),
                'the first point of the trajectory is the state of the new particle')


def listed(k, kind, L, counts):
    """Listed initial particles: stored as given, in order, species by species."""
    s = build(k, kind, L)
    n = s.dim
    rows = {}
    for sp, N in counts.items():
        rows[sp] = []
        for i in range(N):
            v = [k.real('%s%d_%d' % (sp, i, j)) for j in range(3 * n + 1)]
            if k.store:      # C++ keeps these as int: concrete
                ci, ui, ki = i - 1, 10 + 3 * i, i % 3
            else:
                ci, ui, ki = k.int('c%s%d' % (sp, i), -1, 9), k.int('i%s%d' % (sp, i), 0, 99), k.int('k%s%d' % (sp, i), 0, 9)
            rows[sp].append(s.record(v[:n], v[2 * n:3 * n], w=v[3 * n], flags=0, cell=ci, uid=ui, crossings=ki, x0=v[n:2 * n]))

    class U:
        @staticmethod
        def a(type):
            return len(rows['a']), rows['a']

        @staticmethod
        def b(type):
            return len(rows['b']), rows['b']
    P = s.P
    P.user_particles_class = U
    P.initial_particles_dict = {'first': ({'species_name': sp, 'initial_distribution_type': 'listed'},) for sp in ()}
    P.initial_particles_dict = {'ini_' + sp: ({'species_name': sp, 'initial_distribution_type': 'listed'},) for sp in counts}
    P.initialize_particles({'a': False, 'b': False})
    k.reach('listed particles')
    for sp in 'ab':
        got, want = s.stored(sp), rows.get(sp, [])
        if len(got) != len(want):
            k.fail('%d particles are stored of %d listed' % (len(got), len(want)))
        for g, w in zip(got, want):
            k.check(k.all([k.eq(a, b) for a, b in zip(g.values(), w)]), 'a listed particle is stored as given, in order')


def unknown(k):
    s = build(k, 'one', 2)
    s.P.initial_particles_dict = {'x': ({'species_name': 'a', 'initial_distribution_type': 'functional'},)}
    try:
        s.P.initialize_particles({'a': False, 'b': False})
    except (RuntimeError, ValueError, SystemExit) as e:
        if isinstance(e, NameError):
            raise
        k.reach('unknown distribution refused')
        return
    k.fail('an unknown kind of initial distribution is ignored')


def intervals(k, nsrc=2):
    """Each source is called on the steps that are multiples of its interval, with its own data."""
    s = build(k, 'one', 2)
    step = k.int('step', 0, 12)
    t = k.real('t')
    calls = []
    src = {}
    iv = []
    F, G = object(), object()
    for i in range(nsrc):
        n = k.int('interval%d' % i, 1, 6)
        iv.append(n)

        def f(st, time, region, par, *a, i=i, **kw):
            calls.append((i, st, time, region, par, a, kw))
        src['src%d' % i] = ({'timestep_interval': n, 'id': i}, f, 'region%d' % i)
    s.P.particle_source_dict = src
    s.ctrl.timeloop_count, s.ctrl.time = step, t
    s.P.add_more_particles(s.ctrl, neg_E_field=F, external_E_field=G)
    for i in range(nsrc):
        mine = [c for c in calls if c[0] == i]
        due = k.is_true(k.any([k.all([k.eq(step, a * b), k.eq(iv[i], b)]) for b in range(1, 7) for a in range(0, 13) if a * b <= 12]))
        if len(mine) != (1 if due else 0):
            k.fail('a source is called %d times on a step that is %s multiple of its interval' % (len(mine), 'a' if due else 'not a'))
        k.reach('source called' if due else 'source skipped')
        for c in mine:
            fields = list(c[5]) + [c[6].get('neg_E_field'), c[6].get('external_E_field')][len(c[5]):]
            if c[3] != 'region%d' % i or c[4].get('id') != i or fields[0] is not F or fields[1] is not G:
                k.fail('a source is called with the data of another')
            k.check(k.all([k.eq(c[1], step), k.eq(c[2], t)]), 'a source is told the step and the time')


def locate(k, kind, N, L):
    """Cell indices of given particles: every particle gets a cell that contains it; one outside the mesh gets none."""
    s = build(k, kind, L)
    xs = []
    for i in range(N):
        x = [k.real('x%d_%d' % (i, c), -1, 5) for c in range(s.dim)]
        s.add('a', x, [k.const(0)] * s.dim, cell=-1, uid=i)
        xs.append(x)
    ins = [k.is_true(k.any([k.inside(s.mesh, c, x) for c in range(len(s.cells))])) for x in xs]
    try:
        s.P.compute_mesh_cell_indices()
        stopped = False
    except (RuntimeError, SystemExit, ValueError):
        stopped = True
    if stopped == all(ins):
        k.fail('locating particles %s' % ('fails although all are in the mesh' if stopped else 'succeeds although one is outside the mesh'))
    if stopped:
        k.reach('point outside the mesh')
        return
    k.reach('point in the mesh')
    got = s.stored('a')
    for r, x in zip(got, xs):
        k.check(k.inside(s.mesh, int(r['cell_index']), x), 'the cell found for a particle contains it')
        k.check(k.all([k.eq(r[n], q) for n, q in zip(s.coords, x)]), 'locating a particle does not move it')


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def cover(k, kind, cell, spherical=False):
    """Positions are drawn from a box by rejection; the box must hold the whole cell.

    The box is found from the positions that known draws give; code that draws positions in another way is not judged here.
    """
    s = build(k, kind, 2, spherical)
    R = s.DM.WholeMesh_C(s.mesh_M)
    rnd, calls = k.np.random, []
    orig = rnd.uniform
    eps = k.frac(1, 64)

    def made(step):
        del calls[:]

        def uniform(low=0.0, high=1.0, size=None):
            n = size if size is None or isinstance(size, int) else int(size[0]) if len(size) == 1 else None
            calls.append((low, high, n))
            if n != s.dim or len(calls) > 50:
                raise Other()
            mid, half = (k.const(high) + k.const(low)) / 2, (k.const(high) - k.const(low)) / 2
            v = k.np.empty(n)
            for i in range(n):
                v[i] = mid + (half * eps if i == step else 0)
            return v
        n0 = len(s.stored('a'))
        rnd.uniform = uniform
        try:
            s.P.create_maxwellian_particles(3, k.const(1), R, params(k, s, 'a', 2))
        finally:
            rnd.uniform = orig
        new = [r for r in s.stored('a')[n0:] if int(r['cell_index']) == cell]
        if len(calls) != len(s.cells) or len(new) != 2:
            raise Other()
        return [new[1][q] for q in s.coords[:s.dim]]
    k.limit_draws(200)
    try:
        p0 = made(None)
        half = []
        for i in range(s.dim):
            p = made(i)
            if not k.is_true(k.all([k.eq(p[j], p0[j]) for j in range(s.dim) if j != i])):
                raise Other()
            half.append((p[i] - p0[i]) / eps)
    except Other:
        return
    k.reach('box of positions')
    x = s.point_in(cell, 'target')
    for i in range(s.dim):
        h = half[i] * (1 + k.frac(1, 10 ** 9))
        k.check(k.any([k.all([k.le(x[i] - p0[i], h), k.le(p0[i] - x[i], h)]), k.all([k.le(x[i] - p0[i], -h), k.le(p0[i] - x[i], -h)])]),
                'particles can be created at every point of the cell')


class Other(Exception):
    pass


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        d = dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight)
        if cfg.get('store'):
            d['cpp'] = modules(cfg.get('kind', 'one'), cfg.get('system'))
        out.append(d)
    for L in (1, 2):
        job('maxwellian', 4, kind='line', L=L, npc=2, reject=1)
    job('maxwellian', kind='line', L=2, npc=1, via='init')
    job('maxwellian', kind='line', L=2, npc=3, region='box', reject=2)
    job('maxwellian', 3, kind='line', L=2, npc=2, region='box2', reject=1)
    job('maxwellian', kind='enil', L=3, npc=2, region='box', via='source', old=2, arr=True)
    job('maxwellian', kind='shell', L=2, npc=2, spherical=True)
    job('maxwellian', kind='line', L=2, npc=2, region='box', system='cartesian_xyz')
    job('maxwellian', kind='line', L=2, npc=2, region='box', twice=True, reject=0)
    job('maxwellian', 4, kind='rect', L=2, npc=2, via='init', old=1)
    job('maxwellian', 4, kind='tet', L=2, npc=2, reject=1)
    job('maxwellian', 4, kind='tets', L=2, npc=1)
    for f in (True, False):
        job('marked', kind='line', first=498, npc=1, field=f)
    job('marked', kind='one', first=500, npc=2, field=True)
    job('marked', kind='tri', first=499, npc=2, field=True)
    for f in (True, False):
        job('marked', kind='line', first=499, npc=1, field=f, external=True)
    job('marked', kind='tri', first=499, npc=1, field=True, external=True)
    job('marked', kind='one', first=500, npc=1, field=False, neutral=True)
    job('marked', kind='one', first=500, npc=1, field=False, traj=False)
    for L in (1, 2, 3):
        job('listed', kind='one', L=L, counts={'a': 4, 'b': 1})
    job('listed', kind='tri', L=2, counts={'b': 3, 'a': 2})
    job('listed', kind='tet', L=2, counts={'b': 3})
    job('unknown')
    job('maxwellian', 4, kind='line', L=2, npc=2, reject=1, store='cpp')
    job('maxwellian', kind='enil', L=3, npc=2, region='box', via='source', old=2, arr=True, store='cpp')
    job('maxwellian', kind='shell', L=2, npc=2, spherical=True, store='cpp')
    job('maxwellian', 4, kind='rect', L=2, npc=2, via='init', old=1, store='cpp')
    job('maxwellian', 4, kind='tet', L=2, npc=2, reject=1, store='cpp')
    job('marked', kind='line', first=498, npc=1, field=True, store='cpp-move')
    job('marked', kind='tri', first=499, npc=2, field=False, store='cpp-move')
    for L in (1, 2, 3):
        job('listed', kind='one', L=L, counts={'a': 4, 'b': 1}, store='cpp')
    job('listed', kind='tet', L=2, counts={'b': 3}, store='cpp')
    job('locate', kind='line', N=2, L=1, store='cpp')
    job('locate', kind='rect', N=2, L=2, store='cpp')
    for kind, n in (('line', 3), ('shell', 2), ('tri', 1), ('rect', 2), ('fan', 3), ('tet', 1), ('tets3', 3)):
        for c in range(n):
            job('cover', kind=kind, cell=c, spherical=kind == 'shell')
    job('intervals', 3)
    job('locate', kind='line', N=3, L=2)
    job('locate', kind='rect', N=2, L=1)
    job('locate', kind='tets', N=1, L=1)
    if tier == 'thorough':
        job('maxwellian', 9, kind='line', L=2, npc=4, reject=3)
        job('maxwellian', 9, kind='rect', L=2, npc=3, reject=3)
        job('maxwellian', 9, kind='tets', L=2, npc=3, reject=2)
        job('locate', 9, kind='fan', N=3, L=2)
        job('intervals', 9, nsrc=3)
    common.beside_jobs(out, ['maxwellian', 'marked', 'listed', 'intervals', 'locate'])
    return out
