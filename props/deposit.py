"""P11: the weight of every stored particle is deposited once, at its own place."""
from . import common
from .common import Sim, modules
from .kinematics import tick

PROPERTY = dict(
    title='Deposited densities carry exactly the weight of the stored particles, each at its own place',
    files=['Particle_Module.py', 'Dolfin_Module.py', 'SegmentedArrayPair_Module.py'],
    functions=['Particle_C.accumulate_number_density', 'Particle_C.accumulate_charge_density_from_particles', 'Field_C.interpolate_delta_function_to_dofs',
               'Field_C.integrate_delta_function', 'Field_C.add_weight_to_cell', 'Field_C.divide_by_cell_volumes', 'Field_C.multiply_add',
               'Mesh_C.compute_cell_volume_dict', 'SegmentedArrayPair_C.*'],
    explanation='Symbolic execution of the deposition from source with symbolic particle positions, weights, charges and previous nodal values; z3 decides that each '
                'nodal value grows by the sum of weight times the linear hat function of the node at the position of the particle, that the total is the total weight, '
                'that the cell density times the cell volume is the weight in the cell, and that the charge density is the charge-weighted sum over the species.',
    bounds=dict(quick='meshes of 1-3 cells in 1D (Cartesian and spherical), 2D and 3D; up to 3 particles in any cells, segment length 1..2; two species; after appends and after a step '
                      'that removes any subset', thorough='as quick with up to 5 particles'),
    outside=['elements of higher degree', 'parallel assembly'],
    assumptions=['reals', 'the recorded cell contains the particle (what tracking provides)', 'dolfin evaluates linear basis functions (modelled by barycentric coordinates)',
                 'fields start from zero for the cell density'],
    reach=['beside another simulation', 'particles in one cell', 'particles in different cells', 'several segments', 'removed particle', 'species without particles'],
)


def nodes(k, s, F):
    """Vertex number -> value of a linear scalar field."""
    dm = F.function_space.dofmap()
    out = {}
    for ci, cv in enumerate(s.cells):
        dofs = dm.cell_dofs(ci)
        order = cv if k.symbolic else [int(v) for v in k.df.Cell(s.mesh, ci).entities(0)]
        for j, v in enumerate(order):
            out[v] = F.function_values[int(dofs[j])]
    return out


def percell(k, s, F):
    dm = F.function_space.dofmap()
    return [F.function_values[int(dm.cell_dofs(c)[0])] for c in range(len(s.cells))]


def volume(k, s, c):
    """Volume of a cell, by itself."""
    from fractions import Fraction
    pts = [[Fraction(q) for q in s.verts[v]] for v in s.cells[c]]
    g = len(pts) - 1
    m = [[pts[i + 1][j] - pts[0][j] for j in range(g)] for i in range(g)]
    if g == 1:
        d, n = m[0][0], 1
    elif g == 2:
        d, n = m[0][0] * m[1][1] - m[0][1] * m[1][0], 2
    else:
        d = sum(m[0][j] * (m[1][(j + 1) % 3] * m[2][(j + 2) % 3] - m[1][(j + 2) % 3] * m[2][(j + 1) % 3]) for j in range(3))
        n = 6
    v = abs(d) / n
    return k.frac(v.numerator, v.denominator)


def particles(k, s, sp, N, free=True):
    ps = []
    for i in range(N):
        c = k.choice('cell%s%d' % (sp, i), len(s.cells)) if free else i % len(s.cells)
        x = s.point_in(c, 'x%s%d' % (sp, i))
        w = k.real('w%s%d' % (sp, i))
        s.add(sp, x, [k.const(0)] * s.dim, w=w, cell=c, uid=i)
        ps.append((x, w, c))
    if N > s.L:
        k.reach('several segments')
    cs = [c for _, _, c in ps]
    if len(cs) > len(set(cs)):
        k.reach('particles in one cell')
    if len(set(cs)) > 1:
        k.reach('particles in different cells')
    return ps


def expected(k, s, ps):
    out = {v: k.const(0) for v in range(len(s.verts))}
    for x, w, c in ps:
        b = s.bary(c, x)
        for i, v in enumerate(s.cells[c]):
            out[v] = out[v] + w * b[i]
    return out


def compare(k, s, F, want, before, ps, note=''):
    got = nodes(k, s, F)
    for v in got:
        k.check(k.eq(got[v], before[v] + want[v]), 'each node receives the weight times its basis function at the particles ' + note)
    tot = sum(got[v] - before[v] for v in got)
    k.check(k.eq(tot, sum((w for _, w, _ in ps), k.const(0))), 'the total deposited is the total weight ' + note)


def setup(k, kind, L, spherical):
    qa, qb = k.real('qa'), k.real('qb')
    k.assume(qa != 0)
    return Sim(k, kind, [('a', qa, k.const(1), 'charged'), ('b', k.const(1), k.const(2), 'charged')], L=L, spherical=spherical, dt=k.frac(1, 2)), qa


def density(k, kind, L, N, M, spherical=False, cells=True):
    """Number densities at nodes and in cells, then the charge density."""
    s, qa = setup(k, kind, L, spherical)
    ps = particles(k, s, 'a', N)
    qs = particles(k, s, 'b', M, free=False)
    if not N or not M:
        k.reach('species without particles')
    P, DM = s.P, s.DM
    D, F = {}, {}
    before = {}
    for sp in 'ab':
        D[sp] = DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
        F[sp] = DM.Field_C(s.mesh_M, 'DG', 0, 'scalar') if cells else None
        if sp == 'a':
            s.set_nodal(D[sp], 'before')
        else:
            D[sp].set_values(0.0)
        if cells:
            F[sp].set_values(0.0)
        before[sp] = nodes(k, s, D[sp])
        if cells:
            P.accumulate_number_density(sp, dof_number_density_F=D[sp], cell_number_density_F=F[sp])
        else:
            P.accumulate_number_density(sp, dof_number_density_F=D[sp])
    for sp, q in (('a', ps), ('b', qs)):
        compare(k, s, D[sp], expected(k, s, q), before[sp], q)
        if cells:
            got = percell(k, s, F[sp])
            for c in range(len(s.cells)):
                w = sum((w for _, w, cc in q if cc == c), k.const(0))
                vol = s.mesh_M.cell_volume_dict[c] if spherical else volume(k, s, c)
                k.check(k.eq(got[c] * vol, w), 'the density in a cell is the weight in the cell divided by its volume')
    n = {sp: nodes(k, s, D[sp]) for sp in 'ab'}
    R = DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
    s.set_nodal(R, 'rho')
    r0 = nodes(k, s, R)
    P.accumulate_charge_density_from_particles(D, R)
    r1 = nodes(k, s, R)
    k.check(k.all([k.eq(r1[v], r0[v] + qa * n['a'][v] + n['b'][v]) for v in r1]), 'the charge density is the sum over species of charge times number density')
    k.check(k.all([k.eq(nodes(k, s, D[sp])[v], n[sp][v]) for sp in 'ab' for v in n[sp]]), 'the number densities are left alone')
    s.P.get_species_particle_count('a')
    if [int(r['unique_ID']) for r in s.stored('a')] != list(range(N)):
        k.fail('deposition changed the stored particles')


def cellonly(k, kind, L, N, spherical=False):
    s, qa = setup(k, kind, L, spherical)
    ps = particles(k, s, 'a', N)
    F = s.DM.Field_C(s.mesh_M, 'DG', 0, 'scalar')
    F.set_values(0.0)
    s.P.accumulate_number_density('a', cell_number_density_F=F)
    got = percell(k, s, F)
    for c in range(len(s.cells)):
        w = sum((w for _, w, cc in ps if cc == c), k.const(0))
        vol = s.mesh_M.cell_volume_dict[c] if spherical else volume(k, s, c)
        k.check(k.eq(got[c] * vol, w), 'the density in a cell is the weight in the cell divided by its volume')


def after(k, L, N, extra):
    """Deposition after a step that removes a symbolic subset: only the particles that are left count."""
    s, qa = setup(k, 'one', L, False)
    ps = []
    for i in range(N):
        u = k.real('u%d' % i)
        w = k.real('w%d' % i)
        s.add('a', [k.frac(1, 4)], [u], w=w, cell=0, uid=i)
        ps.append((u, w))
    tick(s)
    s.P.advance_charged_particles_in_E_field(s.ctrl)
    left = []
    for u, w in ps:
        x1 = k.frac(1, 4) + u / 2
        if k.is_true(k.all([k.ge(x1, 0), k.le(x1, 1)])):
            left.append(([x1], w, 0))
    if len(left) < N:
        k.reach('removed particle')
    for i in range(extra):
        x, w = [k.real('y%d' % i, 0, 1)], k.real('v%d' % i)
        s.add('a', x, [k.const(0)], w=w, cell=0, uid=90 + i)
        left.append((x, w, 0))
    D = s.DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
    D.set_values(0.0)
    F = s.DM.Field_C(s.mesh_M, 'DG', 0, 'scalar')
    F.set_values(0.0)
    s.P.accumulate_number_density('a', dof_number_density_F=D, cell_number_density_F=F)
    compare(k, s, D, expected(k, s, left), {v: k.const(0) for v in range(2)}, left, 'after a step')
    k.check(k.eq(percell(k, s, F)[0], sum((w for _, w, _ in left), k.const(0))), 'the density in a cell is that of the particles left')


def searched(k, kind, N):
    """The variant that finds the cell itself."""
    s, qa = setup(k, kind, 2, False)
    ps = particles(k, s, 'a', N)
    D = s.DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
    s.set_nodal(D, 'before')
    before = nodes(k, s, D)
    n, seg = s.P.sap_dict['a'].init_out_loop()
    while isinstance(seg, k.np.ndarray):
        for i in range(n):
            D.integrate_delta_function(seg[i])
        n, seg = s.P.sap_dict['a'].get_next_segment('out')
    compare(k, s, D, expected(k, s, ps), before, ps, '(cell searched for)')


def beside(k, kind, of, args):
    common.beside(k, kind, globals()[of], args)


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        d = dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight)
        if cfg.get('store'):
            d['cpp'] = modules(cfg.get('kind', 'one'), cfg.get('system'))
        out.append(d)
    for L in (1, 2):
        job('density', 4, kind='line', L=L, N=3, M=1)
        job('density', kind='enil', L=L, N=2, M=3)
        job('density', kind='shell', L=L, N=2, M=2, spherical=True)
    job('density', kind='line', L=2, N=0, M=2)
    job('density', kind='line', L=2, N=2, M=0, cells=False)
    job('density', 4, kind='rect', L=2, N=2, M=1)
    job('density', 4, kind='fan', L=1, N=2, M=0)
    job('density', 4, kind='tets', L=2, N=2, M=1)
    job('density', 4, kind='tets3', L=2, N=1, M=1)
    job('cellonly', kind='fan', L=2, N=3)
    job('cellonly', kind='tets', L=1, N=2)
    job('cellonly', kind='shell', L=1, N=2, spherical=True)
    for L in (1, 2):
        job('after', 4, L=L, N=3, extra=1)
    for L in (1, 2, 3):
        job('density', 6, kind='line', L=L, N=3, M=1, store='cpp')
        job('after', 6, L=L, N=3, extra=1, store='cpp-move')
    job('density', kind='shell', L=2, N=2, M=2, spherical=True, store='cpp')
    job('density', 4, kind='rect', L=2, N=2, M=1, store='cpp')
    job('density', 4, kind='tets', L=2, N=2, M=0, store='cpp')
    job('cellonly', kind='fan', L=2, N=3, store='cpp')
    for kind in ('line', 'rect', 'tets'):
        job('searched', 4, kind=kind, N=1 if kind == 'tets' else 2)
    if tier == 'thorough':
        for L in (1, 2, 3):
            job('density', 9, kind='line', L=L, N=5, M=1)
            job('density', 9, kind='fan', L=L, N=4, M=1)
            job('density', 9, kind='tets3', L=L, N=3, M=1)
            job('after', 9, L=L, N=5, extra=2)
    common.beside_jobs(out, ['density', ('density', 'line', 'enil'), 'cellonly', 'after'])
    return out
