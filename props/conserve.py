"""P03: a time step neither loses, duplicates, reorders nor alters particles."""
from . import common
from .common import Sim, geometry

PROPERTY = dict(
    title='A time step never loses, duplicates, reorders or alters particles',
    files=['Particle_Module.py', 'SegmentedArrayPair_Module.py', 'Dolfin_Module.py'],
    functions=['Particle_C.advance_charged_particles_in_E_field', 'Particle_C.advance_charged_species_in_E_field', 'Particle_C.advance_neutral_particles',
               'Particle_C.advance_neutral_species', 'Particle_C.advance_charged_species_in_uniform_fields',
               'Particle_C.move_particles_in_electrostatic_field', 'Mesh_C.find_facet', 'Mesh_C.is_inside_cell', 'SegmentedArrayPair_C.*'],
    explanation='Bounded symbolic execution of the Python movers from source: positions, velocities, weights and the time step are symbolic; z3 '
                'explores every combination of staying and leaving and decides that the stored particles afterwards are exactly the survivors, '
                'in order, with identity, weight and flags unchanged, and that the stored count is right.',
    bounds=dict(quick='segment length 1..3, up to 5 particles of one species (plus a bystander species), 1 or 2 steps, appends between the steps; '
                      'one-interval mesh (single-cell: every particle stays or leaves at either end), uniform-field mover with symbolic deletion flags',
                thorough='segment length 1..4, up to 7 particles, up to 3 steps'),
    outside=['more particles, longer segments', 'particles whose flags are changed by other code during the step'],
    assumptions=['coordinates are mathematical reals (no rounding)', 'absorbing boundary functions at both ends'],
    reach=['beside another simulation', 'all particles survive', 'no particle survives', 'survivors fill whole segments', 'survivors span several segments',
           'first particle absorbed', 'last particle absorbed', 'second step after absorption'],
)

CHARGED, NEUTRAL = ('e', -2, 4, 'charged'), ('n', 0, 3, 'neutral')


def one_interval(k, L, mover, dt):
    spec = [(n, k.const(q) if q else 0.0, k.const(m), d) for n, q, m, d in (CHARGED, NEUTRAL)]
    return Sim(k, 'one', spec, L=L, dt=dt)


def step(s, mover, sp):
    P, c = s.P, s.ctrl
    c.timeloop_count += 1
    c.time = c.time + c.dt
    if mover == 'charged':
        P.advance_charged_particles_in_E_field(c)
    elif mover == 'legacy':
        P.move_particles_in_electrostatic_field(c)
    elif mover == 'neutral':
        P.advance_neutral_particles(c)


def same(k, got, want, msg):
    k.check(k.all([k.eq(got[n], v) for n, v in want.items()]), msg)


def conserve(k, mover, L, N, steps, extra=0):
    dt = k.frac(1, 2)
    s = one_interval(k, L, mover, dt)
    sp, other = ('n', 'e') if mover == 'neutral' else ('e', 'n')
    exp = []
    uid = 40

    def add(i):
        x = k.real('x%d' % i, 0, 1)
        u = k.real('u%d' % i)
        w = k.real('w%d' % i)
        s.add(sp, [x], [u], w=w, flags=0, cell=0, uid=uid + i, crossings=5)
        return dict(x=x, u=u, w=w, uid=uid + i)
    for i in range(N):
        exp.append(add(i))
    by = k.real('bx', 0, 1)
    if mover != 'legacy':
        s.add(other, [by], [k.const(100)], w=k.const(9), cell=0, uid=7)
    n = N
    absorbed = False
    for t in range(steps):
        step(s, mover, sp)
        surv = []
        for j, q in enumerate(exp):
            x1 = q['x'] + q['u'] * dt
            inside = k.is_true(k.all([k.ge(x1, 0), k.le(x1, 1)]))
            if inside:
                surv.append(dict(q, x=x1))
            else:
                if j == 0:
                    k.reach('first particle absorbed')
                if j == len(exp) - 1:
                    k.reach('last particle absorbed')
        if absorbed and t:
            k.reach('second step after absorption')
        absorbed = absorbed or len(surv) < len(exp)
        if len(surv) == len(exp):
            k.reach('all particles survive')
        if not surv:
            k.reach('no particle survives')
        elif len(surv) % L == 0:
            k.reach('survivors fill whole segments')
        if len(surv) > L:
            k.reach('survivors span several segments')
        exp = surv
        verify(k, s, sp, exp)
        for _ in range(extra if t + 1 < steps else 0):
            exp.append(add(n))
            n += 1
        if mover != 'legacy':
            got = s.stored(other)
            if len(got) != 1:
                k.fail('a step of one species changes the number of particles of another')
            same(k, got[0], dict(x=by, ux=100, weight=9, unique_ID=7, bitflags=0), 'a step of one species leaves another species alone')


def verify(k, s, sp, exp):
    n = s.P.get_species_particle_count(sp)
    k.check(k.eq(n, len(exp)), 'the particle count after a step is the number of survivors')
    got = s.stored(sp)
    if len(got) != len(exp):
        k.fail('%d particles stored after a step, %d survived' % (len(got), len(exp)))
    for g, q in zip(got, exp):
        same(k, g, dict(unique_ID=q['uid'], weight=q['w'], bitflags=0, x=q['x'], ux=q['u'], cell_index=0),
             'each survivor is stored once, in order, with its own attributes')


def uniform(k, L, N, steps):
    """The uniform-field mover skips particles that are flagged deleted."""
    spec = [('e', k.const(-2), k.const(4), 'charged')]
    s = Sim(k, 'tet', spec, L=L, dt=k.frac(1, 2))
    E0 = s.ctrl.E0 = type('E0', (), {})()
    E0.x, E0.y, E0.z = k.const(3), k.const(0), k.const(-1)
    exp = []
    for i in range(N):
        x = [k.real('x%d_%d' % (i, j)) for j in range(3)]
        u = [k.real('u%d_%d' % (i, j)) for j in range(3)]
        w = k.real('w%d' % i)
        s.add('e', x, u, w=w, flags=2, cell=3, uid=60 + i)
        exp.append(dict(x=x, u=u, w=w, uid=60 + i))
    for t in range(steps):
        keep = []
        for i, q in enumerate(exp):
            if k.choice('del%d_%d' % (t, i), 2):
                seg, off = s.P.sap_dict['e'].get_segment_and_offset(i)
                seg[off]['bitflags'] = 3
                if i == 0:
                    k.reach('first particle absorbed')
            else:
                keep.append(q)
        s.P.advance_charged_species_in_uniform_fields('e', s.ctrl)
        for q in keep:
            a = [k.const(-2) / k.const(4) * e for e in (3, 0, -1)]
            q['u'] = [u + aa * k.frac(1, 2) for u, aa in zip(q['u'], a)]
            q['x'] = [x + u * k.frac(1, 2) for x, u in zip(q['x'], q['u'])]
        exp = keep
        n = s.P.get_species_particle_count('e')
        k.check(k.eq(n, len(exp)), 'the particle count after a uniform-field step is the number of particles not flagged deleted')
        got = s.stored('e')
        if len(got) != len(exp):
            k.fail('%d particles stored after a uniform-field step, %d expected' % (len(got), len(exp)))
        for g, q in zip(got, exp):
            d = dict(unique_ID=q['uid'], weight=q['w'], bitflags=2, cell_index=3)
            for j, c in enumerate('xyz'):
                d[c] = q['x'][j]
                d['u' + c] = q['u'][j]
            same(k, g, d, 'a uniform-field step advances each particle once, in order')
        if not exp:
            k.reach('no particle survives')
            break


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def jobs(tier):
    out = []
    quick = tier == 'quick'

    def job(fn, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg,
                        weight=3 ** (cfg['N'] * cfg['steps'] + cfg.get('extra', 0))))
    for mover in ('charged', 'neutral', 'legacy'):
        for L, N in ((1, 3), (2, 4), (2, 5), (3, 4)) if quick else ((1, 4), (2, 5), (2, 6), (3, 6), (3, 7), (4, 6)):
            job('conserve', mover=mover, L=L, N=N, steps=1)
        for L, N, x in ((1, 2, 1), (2, 2, 1), (2, 3, 1)) if quick else ((1, 3, 1), (2, 3, 2), (2, 4, 1), (3, 4, 1)):
            job('conserve', mover=mover, L=L, N=N, steps=2, extra=x)
    for L, N, st in ((1, 3, 2), (2, 4, 2), (2, 5, 1), (3, 3, 2)) if quick else ((1, 4, 2), (2, 6, 2), (3, 6, 2), (3, 7, 1), (2, 4, 3)):
        job('uniform', L=L, N=N, steps=st)
    common.beside_jobs(out, ['conserve', ('conserve', 'neutral')])
    return out
