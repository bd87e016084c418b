"""P12: files hold exactly the particles of the moment, and the recorded trajectories."""
from . import common
from .common import Sim, modules
from .kinematics import tick

PROPERTY = dict(
    title='Output files hold exactly the stored particles and the recorded trajectories',
    files=['Particle_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py'],
    functions=['Particle_C.check_particle_output_parameters', 'Particle_C.initialize_particle_output_file', 'Particle_C.write_particles_to_file',
               'Trajectory_C.create_trajectory', 'Trajectory_C.write_trajectories_to_files', 'Particle_C.get_total_particle_count', 'SegmentedArrayPair_C.*'],
    explanation='Symbolic execution of the writers from source with symbolic particle contents, against a recording stand-in for h5py; z3 decides that every snapshot holds one '
                'value per stored particle and attribute, species after species in storage order, with the time of the snapshot and the headers of every species, and that '
                'every trajectory file holds the recorded points of its own particle.',
    bounds=dict(quick='1-3 coordinates, up to 3 species, up to 5 particles each, segment length 1..3, Python and C++ storage, up to 3 snapshots with appends or removals between them, every attribute; '
                      'up to 3 trajectories of up to 3 points', thorough='as quick with up to 7 particles and 4 snapshots'),
    outside=['the HDF5 library', 'precision other than 64 bits'],
    assumptions=['reals', 'h5py stores what it is given when a dataset is created'],
    reach=['beside another simulation', 'buffer grown', 'species without particles', 'several segments', 'snapshot after removal', 'second call on a step', 'unknown attribute refused', 'trajectory without points'],
)

ATTR = ['bitflags', 'cell_index', 'unique_ID', 'crossings']


def system(k, kind, L, n=3):
    sp = [('a', k.const(-1), k.real('ma'), 'charged'), ('b', k.real('qb'), k.const(2), 'charged'), ('c', k.const(0) * 1, k.const(3), 'neutral')][:n]
    k.assume(sp[0][2] > 0)
    if n > 1:
        k.assume(sp[1][1] != 0)
    if n > 2:
        sp[2] = ('c', 0.0, k.const(3), 'neutral')
    return Sim(k, kind, sp, L=L, dt=k.frac(1, 2))


def rec(k, s, tag, i, x=None):
    x = [k.real('x%s%d_%d' % (tag, i, c)) for c in range(s.dim)] if x is None else x
    x0 = [k.real('o%s%d_%d' % (tag, i, c)) for c in range(s.dim)]
    u = [k.real('u%s%d_%d' % (tag, i, c)) for c in range(s.dim)]
    w = k.real('w%s%d' % (tag, i))
    if k.store:      # C++ keeps these as int: concrete
        n = len(tag) + i
        return s.record(x, u, w=w, flags=n % 4, cell=n - 1, uid=7 * n + 1, crossings=n + 2, x0=x0)
    fl, cell, uid, cr = k.int('f%s%d' % (tag, i), 0, 3), k.int('c%s%d' % (tag, i), -1, 5), k.int('id%s%d' % (tag, i), 0, 1000), k.int('n%s%d' % (tag, i), 0, 9)
    return s.record(x, u, w=w, flags=fl, cell=cell, uid=uid, crossings=cr, x0=x0)


def names(s):
    return list(s.P.particle_dtype.names)


def snapshot(k, s, f, step, t, want, attrs):
    g = f.groups.get('Step#%d' % step)
    if g is None:
        k.fail('snapshot %d is missing' % step)
    k.check(k.eq(g.attrs['TimeValue'], t), 'the snapshot carries its time')
    d = g.data
    if sorted(d) != sorted(attrs):
        k.fail('the snapshot holds %s instead of %s' % (sorted(d), sorted(attrs)))
    for a in attrs:
        v = []
        for sp in s.P.species_names:
            v += [s.P.species_index[sp] if a == 'species_index' else r[names(s).index(a)] for r in want[sp]]
        got = list(d[a])
        if len(got) != len(v):
            k.fail('the snapshot holds %d values of %s for %d particles' % (len(got), a, len(v)))
        k.check(k.all([k.eq(p, q) for p, q in zip(got, v)]), 'the values of %s are those of the particles, in order' % a)


def header(k, s, f):
    a = f.attrs
    if int(a['NumParticleTypes:']) != len(s.P.species_names):
        k.fail('the header gives the number of species wrongly')
    for sp in s.P.species_names:
        i = s.P.species_index[sp]
        if a['particle_type_%d' % i] != sp:
            k.fail('the header names a species wrongly')
        k.check(k.all([k.eq(a['mass_%d' % i], s.species[sp][2]), k.eq(a['charge_%d' % i], s.species[sp][1])]), 'the header gives mass and charge of each species')
    if len({s.P.species_index[sp] for sp in s.P.species_names}) != len(s.P.species_names):
        k.fail('two species share an index')


def write(k, kind, L, counts, attrs=None, more=()):
    """Snapshots of stores that grow between them."""
    s = system(k, kind, L, len(counts))
    P, c = s.P, s.ctrl
    attrs = attrs or ['species_index'] + names(s)
    c.particle_output_file, c.particle_output_attributes, c.title, c.author = 'p.h5part', list(attrs), 't', 'a'
    P.check_particle_output_parameters(c)
    want = {}
    for sp, n in zip('abc', counts):
        want[sp] = [rec(k, s, sp, i) for i in range(n)]
        for r in want[sp]:
            P.sap_dict[sp].push_back(r)
        if n > L:
            k.reach('several segments')
        if not n:
            k.reach('species without particles')
    P.initialize_particle_output_file(c)
    hist = []
    for j in range(1 + len(more)):
        c.timeloop_count = 2 * j
        c.time = k.real('t%d' % j)
        P.write_particles_to_file(c)
        if sum(len(v) for v in want.values()) > L * len(counts):
            k.reach('buffer grown')
        hist.append((c.time, {q: list(v) for q, v in want.items()}))
        # asking again on the same step writes nothing
        P.write_particles_to_file(c)
        k.reach('second call on a step')
        if j < len(more):
            for sp, n in zip('abc', more[j]):
                for i in range(n):
                    r = rec(k, s, '%s_%d_' % (sp, j), i)
                    want[sp].append(r)
                    P.sap_dict[sp].push_back(r)
    c.timeloop_count += 1
    c.time = k.real('tend')
    P.write_particles_to_file(c, close_flag=True)
    hist.append((c.time, {q: list(v) for q, v in want.items()}))
    f = k.files['p.h5part']
    header(k, s, f)
    for j, (t, w) in enumerate(hist):
        snapshot(k, s, f, j, t, w, attrs)
    if len(f.groups) != len(hist):
        k.fail('there are %d snapshots instead of %d' % (len(f.groups), len(hist)))
    for sp in want:
        got = s.stored(sp)
        if len(got) != len(want[sp]):
            k.fail('writing changed the stored particles')


def removal(k, L, N, extra):
    """A snapshot after a step that removes a symbolic subset."""
    s = system(k, 'one', L, 2)
    P, c = s.P, s.ctrl
    attrs = ['species_index', 'unique_ID', 'x', 'ux', 'weight']
    c.particle_output_file, c.particle_output_attributes, c.title, c.author = 'p.h5part', attrs, 't', 'a'
    ps = []
    for i in range(N):
        u, w = k.real('u%d' % i), k.real('w%d' % i)
        s.add('a', [k.frac(1, 4)], [u], w=w, cell=0, uid=i)
        ps.append((i, u, w))
    s.add('b', [k.frac(1, 2)], [k.const(0)], w=k.const(7), cell=0, uid=50)
    P.initialize_particle_output_file(c)
    P.write_particles_to_file(c)
    tick(s)
    P.advance_charged_particles_in_E_field(c)
    left = []
    for i, u, w in ps:
        x1 = k.frac(1, 4) + u / 2
        if k.is_true(k.all([k.ge(x1, 0), k.le(x1, 1)])):
            left.append((0, i, x1, u, w))
    if len(left) < N:
        k.reach('snapshot after removal')
    for i in range(extra):
        s.add('a', [k.frac(1, 8)], [k.const(1)], w=k.const(1), cell=0, uid=60 + i)
        left.append((0, 60 + i, k.frac(1, 8), k.const(1), k.const(1)))
    left.append((1, 50, k.frac(1, 2), k.const(0), k.const(7)))
    P.write_particles_to_file(c, close_flag=True)
    d = k.files['p.h5part'].groups['Step#1'].data
    ia, ib = P.species_index['a'], P.species_index['b']
    for a, j in zip(attrs, range(5)):
        got = list(d[a])
        v = [(r[j] if j else (ia, ib)[r[0]]) for r in left]
        if len(got) != len(v):
            k.fail('the snapshot holds %d values of %s for %d particles' % (len(got), a, len(v)))
        k.check(k.all([k.eq(p, q) for p, q in zip(got, v)]), 'the values of %s are those of the particles left' % a)


def refused(k, kind):
    """A request for an attribute that particles do not have is refused; every other is accepted."""
    s = system(k, kind, 2, 1)
    s.ctrl.particle_output_attributes = ['x', k.pick('name', ['y', 'x0', 'uy', 'Weight', 'weight', 'species_index', 'cell_index', 'species', 'r'])]
    bad = s.ctrl.particle_output_attributes[1] not in names(s) + ['species_index']
    try:
        s.P.check_particle_output_parameters(s.ctrl)
        raised = False
    except (RuntimeError, SystemExit, ValueError, KeyError):
        raised = True
    if raised != bad:
        k.fail('attribute %s is %s' % (s.ctrl.particle_output_attributes[1], 'refused' if raised else 'accepted'))
    if bad:
        k.reach('unknown attribute refused')


def trajectories(k, kind, lengths, npts):
    """lengths: {species: [points of each trajectory]}"""
    s = system(k, kind, 2, 3)
    R = k.repo('RecordedData_Module')
    P, c = s.P, s.ctrl
    c.n_timesteps, c.title, c.author, c.write_trajectory_files = npts, 't', 'a', True
    ti = R.TrajectoryInput_C()
    ti.max_points, ti.extra_points = None, 1
    fl = k.np.float64
    pos = [n for x in s.coords for n in (x, 'u' + x)]
    ti.charged_dict = {'names': ['step', 't'] + pos + ['crossings'] + ['E' + x for x in s.coords], 'formats': [int, fl] + [fl] * (2 * s.dim) + [int] + [fl] * s.dim}
    ti.neutral_dict = {'names': ['step', 't'] + pos + ['crossings'], 'formats': [int, fl] + [fl] * (2 * s.dim) + [int]}
    T = R.Trajectory_C(ti, c, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    want = {}
    for sp, ls in lengths.items():
        for it, n in enumerate(ls):
            uid = 100 + 10 * it
            T.create_trajectory(sp, it, s.species[sp][3], unique_id_int=uid)
            D = T.data_list[sp][it]
            rows = []
            for j in range(n):
                row = {}
                for nm in D.dtype.names:
                    v = k.int('i%s%d_%d_%s' % (sp, it, j, nm), 0, 99) if nm in ('step', 'crossings') else k.real('v%s%d_%d_%s' % (sp, it, j, nm))
                    D[nm][j] = v
                    row[nm] = v
                rows.append(row)
            T.trajectory_length[sp][it] = n
            want['traj-%s-uid%d.h5part' % (sp, uid)] = (sp, rows)
            if not n:
                k.reach('trajectory without points')
    T.write_trajectories_to_files()
    have = sorted(k.files)
    if have != sorted(want):
        k.fail('the trajectory files are %s instead of %s' % (have, sorted(want)))
    for fn, (sp, rows) in want.items():
        f = k.files[fn]
        i = P.species_index[sp]
        if f.attrs['particle_type_%d' % i] != sp:
            k.fail('a trajectory file names the wrong species')
        k.check(k.all([k.eq(f.attrs['mass_%d' % i], s.species[sp][2]), k.eq(f.attrs['charge_%d' % i], s.species[sp][1])]), 'a trajectory file gives mass and charge')
        if sorted(f.groups) != sorted('Step#%d' % j for j in range(len(rows))):
            k.fail('a trajectory file has %d points instead of %d' % (len(f.groups), len(rows)))
        for j, row in enumerate(rows):
            g = f.groups['Step#%d' % j]
            if sorted(g.data) != sorted(row):
                k.fail('a trajectory point has other attributes')
            k.check(k.all([k.eq(g.attrs['TimeValue'], row['t'])] + [k.eq(scalar(k, g.data[nm]), v) for nm, v in row.items()]), 'a trajectory file holds the recorded points')


def scalar(k, v):
    return v[0] if isinstance(v, (list, tuple)) else v


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        d = dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight)
        if cfg.get('store'):
            d['cpp'] = modules(cfg.get('kind', 'one'), cfg.get('system'))
        out.append(d)
    for L in (1, 2, 3):
        job('write', kind='one', L=L, counts=[2, 3, 1], more=[[1, 0, 0], [0, 3, 1]])
        job('write', kind='one', L=L, counts=[4], more=[[3]])
    job('write', kind='tri', L=2, counts=[3, 0, 2], more=[[0, 5]])
    job('write', kind='tet', L=2, counts=[0, 3])
    job('write', kind='one', L=2, counts=[0, 0], more=[[0, 1]])
    job('write', kind='one', L=2, counts=[1, 3], attrs=['unique_ID', 'x', 'cell_index', 'weight', 'species_index', 'ux'], more=[[2]])
    for L in (1, 2):
        job('removal', 4, L=L, N=3, extra=1)
    job('refused', kind='one')
    for L in (1, 2, 3):
        job('write', 3, kind='one', L=L, counts=[2, 3, 1], more=[[1, 0, 0], [0, 3, 1]], store='cpp')
        job('removal', 6, L=L, N=3, extra=1, store='cpp-move')
    job('write', kind='tri', L=2, counts=[3, 0, 2], more=[[0, 5]], store='cpp')
    job('write', kind='tet', L=2, counts=[0, 3], store='cpp')
    job('write', kind='shell', L=2, counts=[1, 3], store='cpp')
    job('trajectories', kind='one', lengths={'a': [2, 3], 'c': [1]}, npts=3)
    job('trajectories', kind='tri', lengths={'a': [1], 'b': [0, 2], 'c': [3, 1]}, npts=3)
    job('trajectories', kind='tet', lengths={'c': [2]}, npts=3)
    if tier == 'thorough':
        for L in (1, 2, 3, 4):
            job('write', kind='one', L=L, counts=[3, 7, 1], more=[[1, 0, 5], [0, 3, 1], [4, 4, 4]])
            job('removal', 9, L=L, N=5, extra=2)
    common.beside_jobs(out, ['write', 'removal'])
    return out
