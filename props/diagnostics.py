"""P10: reported counts, numbers, energies and histories are those of the stored particles."""
from . import common
from .common import Sim, modules
from .kinematics import tick

PROPERTY = dict(
    title='Reported counts, energies and histories are those of the stored particles',
    files=['Particle_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py'],
    functions=['Particle_C.get_species_number', 'Particle_C.get_species_particle_count', 'Particle_C.get_total_particle_count', 'Particle_C.get_species_KE',
               'Particle_C.record_history_data', 'History_C.__init__', 'ParticleHistory_C.__init__', 'SegmentedArrayPair_C.*'],
    explanation='Symbolic execution of the diagnostics from source on stores with symbolic weights, velocities, masses and symbolic patterns of removal; z3 decides '
                'that every sum equals the sum over exactly the stored particles, that histories hold per-species, per-particle and total values of each recorded '
                'step in order, and that the history has room for every step it is asked to record.',
    bounds=dict(quick='1-3 velocity components, up to 4 particles in segments of 1..3, two species, after appends, an abandoned loop, and a step that removes '
                      'any subset, with Python and C++ storage; histories of up to 3 records; up to 7 steps and point limits up to 8', thorough='as quick with up to 6 particles'),
    outside=['single-precision storage of histories'],
    assumptions=['reals'],
    reach=['beside another simulation', 'empty species', 'particles removed before the diagnostic', 'several segments', 'per-particle value with fewer than one particle', 'limited number of points'],
)


def total(vals):
    s = 0
    for v in vals:
        s = s + v
    return s


def fill(k, s, sp, N, cell=0, vel=True):
    ps = []
    for i in range(N):
        w = k.real('w%s%d' % (sp, i))
        u = [k.real('u%s%d%d' % (sp, i, c)) for c in range(s.dim)] if vel else [k.const(0)] * s.dim
        x = [k.frac(1, 4)] * s.dim
        s.add(sp, x, u, w=w, cell=cell, uid=i)
        ps.append((w, u))
    return ps


def state(k, s, sp, ps, m, note=''):
    P = s.P
    if int(P.get_species_particle_count(sp)) != len(ps):
        k.fail('the particle count of a species is %s instead of %d %s' % (P.get_species_particle_count(sp), len(ps), note))
    k.check(k.eq(P.get_species_number(sp), total([w for w, u in ps])), 'the number of physical particles is the sum of the weights ' + note)
    ke = total([w * c * c for w, u in ps for c in u]) * m / 2
    k.check(k.eq(P.get_species_KE(sp), ke), 'the kinetic energy is half the mass times the weighted sum of the squared velocities ' + note)


def sums(k, kind, L, N, M, again=False):
    ma, mb = k.real('ma'), k.real('mb')
    k.assume(ma > 0)
    k.assume(mb > 0)
    s = Sim(k, kind, [('a', k.const(-1), ma, 'charged'), ('b', 0.0, mb, 'neutral')], L=L)
    a, b = fill(k, s, 'a', N), fill(k, s, 'b', M)
    if N > L or M > L:
        k.reach('several segments')
    if not N or not M:
        k.reach('empty species')
    if again:
        s.P.sap_dict['a'].init_out_loop()      # somebody started a loop and left it
    state(k, s, 'a', a, ma)
    state(k, s, 'b', b, mb)
    if int(s.P.get_total_particle_count()) != N + M:
        k.fail('the total count is %s instead of %d' % (s.P.get_total_particle_count(), N + M))


def removed(k, mover, L, N, extra):
    """After a step that removes a symbolic subset (and later appends)."""
    m = k.const(2)
    sp = 'b' if mover == 'neutral' else 'a'
    # the C++ movers move no neutral particles on a line
    other = ('b', k.const(1), m, 'charged') if k.store else ('b', 0.0, m, 'neutral')
    s = Sim(k, 'one', [('a', k.const(-1), m, 'charged'), other], L=L, dt=k.frac(1, 2))
    ps = fill(k, s, sp, N)
    tick(s)
    if mover == 'neutral':
        s.P.advance_neutral_particles(s.ctrl)
    elif mover == 'legacy':
        s.P.move_particles_in_electrostatic_field(s.ctrl)
    else:
        s.P.advance_charged_particles_in_E_field(s.ctrl)
    keep = []
    for w, u in ps:
        x1 = k.frac(1, 4) + u[0] * k.frac(1, 2)
        if k.is_true(k.all([k.ge(x1, 0), k.le(x1, 1)])):
            keep.append((w, u))
    if len(keep) < N:
        k.reach('particles removed before the diagnostic')
    for i in range(extra):
        w, u = k.real('wx%d' % i), [k.real('ux%d' % i)]
        s.add(sp, [k.frac(1, 2)], u, w=w, cell=0, uid=90 + i)
        keep.append((w, u))
    state(k, s, sp, keep, m, 'after a step')
    if int(s.P.get_total_particle_count()) != len(keep):
        k.fail('the total count is wrong after a step')


def history(k, L, N, M, records, hists=('count', 'KE')):
    ma, mb = k.const(2), k.const(3)
    s = Sim(k, 'one', [('a', k.const(-1), ma, 'charged'), ('b', 0.0, mb, 'neutral')], L=L)
    R = k.repo('RecordedData_Module')
    hi = R.ParticleHistoryInput_C()
    hi.max_points = None
    hi.scalar_histories = list(hists)
    s.ctrl.n_timesteps = records - 1
    P = s.P
    P.histories = R.ParticleHistory_C(hi, s.ctrl, P.history_function_dict, P.species_names)
    ps = {'a': fill(k, s, 'a', N), 'b': fill(k, s, 'b', M)}
    mass = {'a': ma, 'b': mb}
    want = []
    for r in range(records):
        t = k.frac(r, 2)
        P.record_history_data(r, t)
        row = {'step': r, 't': t}
        for h in hists:
            tot = 0
            for sp in 'ab':
                n = total([w for w, u in ps[sp]])
                v = len(ps[sp]) if h == 'count' else total([w * c * c for w, u in ps[sp] for c in u]) * mass[sp] / 2
                row[sp + '_' + h] = v
                row[sp + '_ppp_' + h] = (v, n)
                tot = tot + v
            row[h] = tot
        want.append(row)
        if r + 1 < records:
            w, u = k.real('wr%d' % r), [k.real('ur%d' % r)]
            s.add('a', [k.frac(1, 2)], u, w=w, cell=0, uid=30 + r)
            ps['a'].append((w, u))
    A = P.histories.data_array
    for r, row in enumerate(want):
        for n, v in row.items():
            if '_ppp_' in n:
                v, num = v
                big = k.is_true(k.ge(num, 1))
                if not big:
                    k.reach('per-particle value with fewer than one particle')
                k.check(k.eq(A[n][r] * num, v) if big else k.eq(A[n][r], v), 'history %s of record %d is the value per physical particle' % (n, r))
            else:
                k.check(k.eq(A[n][r], v), 'history %s of record %d is the value at that step' % (n, r))


def room(k, what):
    """Every step that a driver records (step 0, then the multiples of the skip interval) has room."""
    n = k.choice('n_timesteps', 8)
    mp = k.choice('max_points', 9)
    R = k.repo('RecordedData_Module')
    c = k.repo('DT_Module').DTcontrol_C()
    c.n_timesteps, c.title, c.author, c.write_trajectory_files = n, 't', 'a', False
    if what == 'history':
        hi = R.ParticleHistoryInput_C()
        hi.scalar_histories = ['count']
        hi.max_points = mp if mp else None
        H = R.ParticleHistory_C(hi, c, {}, ['a'])
        size = len(H.data_array)
    else:
        ti = R.TrajectoryInput_C()
        ti.extra_points = 0
        ti.max_points = mp if mp else None
        ti.charged_dict = ti.neutral_dict = {'names': ['step', 't'], 'formats': [int, k.np.float64]}
        H = R.Trajectory_C(ti, c, ['a'], [], {'a': 0}, {'a': 1.0}, {'a': 1.0})
        H.create_trajectory('a', 0, 'charged')
        size = len(H.data_list['a'][0])
    recs = len([i for i in range(n + 1) if i % H.skip == 0])
    if mp:
        k.reach('limited number of points')
        if recs > mp + 1:
            k.fail('%d points are recorded although at most %d were asked for' % (recs, mp))
    elif H.skip != 1:
        k.fail('points are skipped although no limit was set')
    k.check(recs <= size, 'there is room for every recorded step (%d steps, limit %d)' % (n, mp))


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        d = dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight)
        if cfg.get('store'):
            d['cpp'] = modules(cfg.get('kind', 'one'), cfg.get('system'))
        out.append(d)
    for L in (1, 2, 3):
        for N, M in ((0, 2), (3, 0), (3, 4), (1, 1)):
            job('sums', kind='one', L=L, N=N, M=M)
    job('sums', kind='one', L=2, N=5, M=1, again=True)
    job('sums', kind='tri', L=2, N=3, M=2)
    job('sums', kind='tet', L=2, N=3, M=1)
    for m in ('charged', 'neutral', 'legacy'):
        for L in (1, 2):
            job('removed', 5, mover=m, L=L, N=3, extra=1)
    for L in (1, 2):
        job('history', 5, L=L, N=1, M=2, records=2)
    job('history', 5, L=2, N=0, M=1, records=3)
    job('history', 5, L=2, N=2, M=0, records=1, hists=('KE',))
    for L in (1, 2, 3):
        for N, M in ((0, 2), (3, 0), (3, 4)):
            job('sums', 3, kind='one', L=L, N=N, M=M, store='cpp')
        job('removed', 9, mover='charged', L=L, N=3, extra=1, store='cpp-move')
    job('sums', kind='one', L=2, N=5, M=1, again=True, store='cpp')
    job('sums', kind='tri', L=2, N=3, M=2, store='cpp')
    job('sums', kind='tet', L=2, N=3, M=1, store='cpp')
    job('sums', kind='shell', L=2, N=3, M=1, store='cpp')
    job('history', 5, L=2, N=1, M=2, records=2, store='cpp')
    for w in ('history', 'trajectory'):
        job('room', what=w)
    if tier == 'thorough':
        for L in (1, 2, 3, 4):
            job('sums', kind='one', L=L, N=6, M=5)
            job('removed', 9, mover='charged', L=L, N=5, extra=2)
    common.beside_jobs(out, ['sums', 'history', 'removed'])
    return out
