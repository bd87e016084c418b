"""P18: the C++ boundary conditions: which function, absorption, specular reflection."""
import itertools
from . import boundary
from .common import Sim, geometry, modules
from .boundary import reflect_1d, reflect, advance

PROPERTY = dict(
    title='C++ boundaries: the most specific function acts; absorption and reflection are exact',
    files=['cpp/ParticleMeshBoundaryConditions.h', 'cpp/UserParticleBoundaryFunctions.h', 'cpp/UPBFs_spherical_r.h', 'cpp/Pstruct.h', 'cpp/particle.h',
           'cpp/dolfin_functions.cpp', 'cpp/MeshEntityArrays.cpp', 'cpp/advance_charged_species_in_E_field_cartesian_x.cpp',
           'cpp/advance_charged_species_in_E_field_spherical_r.cpp', 'cpp/advance_charged_species_in_E_field_cartesian_xy.cpp',
           'cpp/advance_neutral_species_cartesian_xy.cpp', 'cpp/advance_neutral_species_cartesian_xyz.cpp'],
    functions=['ParticleMeshBoundaryConditions<PT>::ParticleMeshBoundaryConditions', 'UserParticleBoundaryFunctions<PT>::default_bc, default_bc_at_rmin, '
               'bc_at_rmin_for_test_electrons', 'Pstruct<PT>::reflect_from_surface', 'find_facet', 'advance_charged_species_in_E_field_*', 'advance_neutral_species_*'],
    explanation='Symbolic execution of the C++ movers and boundary functions (compiled unchanged over symbolic reals).  The oracle for reflection is the '
                'method of images: a specularly reflected orbit is a straight line in the unfolded domain; which function acts is known from the names.',
    bounds=dict(quick='1D line and radial shell with 1 or 2 reflecting ends (up to 3 reflections), 2D triangle and rectangle and 3D tetrahedron with one '
                      'reflecting facet (axis-aligned and slanted); boundary and species names that contain each other, tags in any order and with gaps',
                thorough='as quick plus all reflecting facets in turn and 2 steps'),
    outside=['boundary functions written by users', 'more than 3 reflections in a step', 'rounding'],
    assumptions=['coordinates are mathematical reals', 'no field', 'the naming scheme documented for boundary functions'],
    reach=['not reflected', 'reflected once', 'reflected twice', 'reflected, then absorbed', 'absorbed', 'function of the boundary and species', 'default of the boundary',
           'general default', 'after another simulation'],
)


def lookup(k, kind, tags, where, sps):
    """Names decide which function acts on a particle that reaches the boundary."""
    sph = kind == 'shell'
    lo, hi = {'one': (0, 1), 'shell': (1, 4)}[kind]
    vs = {'one': (0, 1), 'shell': (0, 2)}[kind]
    names = {n: [[vs[where.index(n)]]] for n in tags if n in where}
    spec = [(sp, k.const(-1), k.const(2), 'charged') for sp in sps]
    s = Sim(k, kind, spec, L=2, dt=k.frac(1, 2), spherical=sph, names=dict(names, **{n: [] for n in tags if n not in where}), tags=tags, cpp=True)
    c = s.coords[0]
    exp = []
    for i, sp in enumerate(sps):
        # bounded, so that at most one boundary is met
        x, u = k.real('x%d' % i, lo, lo + 1), k.real('u%d' % i, -2, 2)
        s.add(sp, [x], [u], w=k.const(1 + i), cell=0, uid=20 + i)
        X = x + u * k.frac(1, 2)
        side = None if k.is_true(k.all([k.ge(X, lo), k.le(X, hi)])) else 0 if not k.is_true(k.ge(X, lo)) else 1
        if side is None:
            exp.append((X, u))
            continue
        b = where[side]
        if b == 'rmin' and (sph or sp == 'test_electrons'):
            exp.append((2 * (lo, hi)[side] - X, -u))
            k.reach('default of the boundary' if sph else 'function of the boundary and species')
        else:
            exp.append(None)
            k.reach('general default')
    advance(s, 'charged')
    for i, sp in enumerate(sps):
        got = s.stored(sp)
        if (exp[i] is not None) != len(got):
            k.fail('%s: the boundary function that acts is not the most specific one' % sp)
        for g in got:
            k.check(k.all([k.eq(g[c], exp[i][0]), k.eq(g['u' + c], exp[i][1]), k.eq(g['unique_ID'], 20 + i)]), 'the most specific boundary function acts')


def absorbing(k, mover, kind, upbf=None):
    """Species without functions of their own: the default of the boundary 'rmin' and the general default, both absorbing."""
    verts, cells = geometry(k, kind)
    d = len(verts[0])
    ext = [f for f in {f for c in cells for f in itertools.combinations(sorted(c), d)} if sum(1 for c in cells if set(f) <= set(c)) == 1]
    ext.sort()
    q = 0.0 if mover == 'neutral' else k.const(-1)
    s = Sim(k, kind, [('electrons', q, k.const(2), mover), ('test_electrons_2', q, k.const(2), mover)], L=2, dt=k.frac(1, 2),
            names={'wall': [list(f) for f in ext[1:]], 'rmin': [list(ext[0])]}, tags={'wall': 3, 'rmin': 2}, cpp=True, upbf=upbf)
    exp = {}
    for i, sp in enumerate(s.species):
        x = s.point_in(0, 'x') if i == 0 else [sum(verts[v][c] for v in cells[0]) / k.const(d + 1) for c in range(d)]
        u = [k.real('u%d%d' % (i, c)) for c in range(d)]
        if i:
            k.assume_c(k.all([k.eq(u[0], u[1])] + [k.eq(q, 1) for q in u[2:]]))
        s.add(sp, x, u, cell=0, uid=30 + i, w=k.const(2))
        exp[sp] = [a + b * k.frac(1, 2) for a, b in zip(x, u)]
    advance(s, mover)
    for sp, X in exp.items():
        stays = k.is_true(k.any([k.inside(s.mesh, c, X) for c in range(len(cells))]))
        got = s.stored(sp)
        if len(got) != stays:
            k.fail('%s: a particle that %s the mesh is %s' % (sp, 'stays in' if stays else 'leaves', 'removed' if stays else 'kept'))
        if not stays:
            k.reach('absorbed')
        for g in got:
            k.check(k.all([k.eq(g[n], q) for n, q in zip(s.coords, X)]), 'a particle that stays is where its path ends')


def again(k, kind, mover, upbf=None):
    """The boundaries are those of this simulation, not those of an earlier one in the same process."""
    other = {'tri': 'rect', 'rect': 'tri', 'tet': 'tets', 'shell': 'shell', 'one': 'line'}[kind]
    verts, cells = geometry(k, other)
    d = len(verts[0])
    ext = sorted(f for f in {f for c in cells for f in itertools.combinations(sorted(c), d)} if sum(1 for c in cells if set(f) <= set(c)) == 1)
    q = 0.0 if mover == 'neutral' else k.const(1)
    # other species and tags: 3 is a mirror for test_electrons here
    first = Sim(k, other, [('test_electrons', q, k.const(2), mover)], L=1, dt=k.frac(1, 8), names={'rmin': [list(f) for f in ext]}, tags={'rmin': 3}, cpp=True,
                spherical=other == 'shell', upbf=upbf)
    x = [sum(k.const(verts[v][c]) for v in cells[0]) / (d + 1) for c in range(d)]
    first.add('test_electrons', x, [k.const(0)] * d, cell=0, uid=1, w=k.const(1))
    advance(first, mover)
    k.reach('after another simulation')
    if d == 1:
        lookup(k, kind, {'wall': 3, 'rmin': 2}, ('wall', 'rmin'), ('test_electrons', 'electrons'))
    else:
        absorbing(k, mover, kind, upbf)


def jobs(tier):
    out = []

    def job(fn, kind, weight=1, **cfg):
        cfg['kind'] = kind
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight, cpp=modules(kind, upbf=cfg.get('upbf'))))
    thorough = tier != 'quick'
    for kind in ('line', 'enil', 'shell', 'one'):
        for mirrors in (('lo',), ('hi',), ('lo', 'hi')):
            for n in (1, 2):
                job('reflect_1d', kind, 5 ** n, mover='charged', module='', cpp=True, mirrors=mirrors, n=n, spherical=kind == 'shell')
            if thorough:
                job('reflect_1d', kind, 50, mover='charged', module='', cpp=True, mirrors=mirrors, steps=2, spherical=kind == 'shell')
                job('reflect_1d', kind, 100, mover='charged', module='', cpp=True, mirrors=mirrors, n=3, spherical=kind == 'shell')
    for mover in ('charged', 'neutral'):
        for m in ((0, 1), (0, 2), (1, 2)):
            job('reflect', 'tri', 5, mover=mover, module='', cpp=True, mirror=m, cell=0)
        for m in ((0, 1), (0, 2), (1, 3), (2, 3)):
            for c in range(2):
                job('reflect', 'rect', 20, mover=mover, module='', cpp=True, mirror=m, cell=c)
        job('reflect', 'tri', 5, mover=mover, module='', cpp=True, mirror=(1, 2), cell=0, upbf='2D_e')
        job('absorbing', 'tri', 5, mover=mover, upbf='2D_e')
        job('absorbing', 'tri', 5, mover=mover)
    job('absorbing', 'tet', 10, mover='neutral')
    for kind, mover in (('one', 'charged'), ('shell', 'charged'), ('tri', 'charged'), ('tri', 'neutral'), ('tet', 'neutral')):
        job('again', kind, 10, mover=mover)
    for m in ((0, 1, 2), (0, 2, 3), (1, 2, 3)) + (((0, 1, 3),) if thorough else ()):
        job('reflect', 'tet', 30, mover='neutral', module='', cpp=True, mirror=m, cell=0)
    for where, tags in ((('rmin', 'wall'), {'rmin': 1, 'wall': 2}), (('wall', 'rmin'), {'rmin': 4, 'wall': 2}), (('rmin2', 'rmin'), {'rmin2': 1, 'rmin': 3}),
                        (('xrmin', 'rmi'), {'rmin': 5, 'xrmin': 2, 'rmi': 1}), (('rmin', 'at_rmin'), {'at_rmin': 1, 'zzz': 2, 'rmin': 7})):
        for sps in (('test_electrons', 'electrons'), ('test', 'test_electrons2', 'test_electrons')):
            for kind in ('one', 'shell'):
                job('lookup', kind, 10, tags=tags, where=where, sps=sps)
    return out
