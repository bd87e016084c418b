"""P06: what happens at a boundary: the right function, told the truth; absorption; specular reflection."""
from fractions import Fraction
from .common import Sim, facet
from .kinematics import tick
from .tracking import on_facet

PROPERTY = dict(
    title='Boundary crossings are reported truthfully; absorption and reflection are exact',
    files=['Particle_Module.py', 'Dolfin_Module.py', 'UserParticles_1D.py', 'UserParticles_2D_e.py', 'UserParticles_3D.py'],
    functions=['Particle_C.advance_charged_species_in_E_field', 'Particle_C.advance_neutral_species', 'Particle_C.move_particles_in_electrostatic_field',
               'ParticleMeshBoundaryConditions_C.__init__', 'Mesh_C.find_facet', 'UserParticleBoundaryFunctions_C.* (1D, 2D_e, 3D)'],
    explanation='Bounded symbolic execution of the movers together with the boundary functions shipped with the code.  Start and velocity are symbolic.  '
                'The oracle for reflection is the method of images: a specularly reflected orbit is a straight line in the unfolded domain, so the end '
                'position, velocity and the absorbing exit are known in closed form; z3 decides equality for every start and velocity.',
    bounds=dict(quick='1D line and radial shell with 1 or 2 reflecting ends (up to 3 reflections), 2D triangle and rectangle, 3D tetrahedron with one reflecting '
                      'facet (axis-aligned and slanted); 3 particles of which any subset reflects; movers charged, neutral, legacy',
                thorough='as quick plus all reflecting facets in turn and 2 steps'),
    outside=['boundary functions written by users', 'more than 3 reflections in a step', 'rounding'],
    assumptions=['coordinates are mathematical reals', 'the field is zero'],
    reach=['not reflected', 'reflected once', 'reflected, then absorbed', 'reflected twice', 'absorbed'],
)


def advance(s, mover):
    tick(s)
    {'neutral': lambda: s.P.advance_neutral_particles(s.ctrl), 'legacy': lambda: s.P.move_particles_in_electrostatic_field(s.ctrl),
     'charged': lambda: s.P.advance_charged_particles_in_E_field(s.ctrl)}[mover]()


def species(k, mover, name='a'):
    return [(name, 0.0 if mover == 'neutral' else k.const(-1), k.const(2), 'neutral' if mover == 'neutral' else 'charged')]


def functions(k, module, reflect_as):
    """The shipped boundary functions; `reflect_as` names the shipped reflecting one."""
    U = k.repo(module)

    def make(P):
        class F(U.UserParticleBoundaryFunctions_C):
            log = []

            def default_bc(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
                F.log.append(int(facet_index))
                p['bitflags'] = p['bitflags'] | 1
        F.log = []
        refl = getattr(U.UserParticleBoundaryFunctions_C, reflect_as)

        def default_bc_at_mirror(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
            F.log.append(int(facet_index))
            return refl(self, p, species_name, facet_index, dx_fraction=dx_fraction, facet_normal=facet_normal)
        F.default_bc_at_mirror = default_bc_at_mirror
        return F(P.position_coordinates, P.dx)
    return make


REFLECT = {'1D': ('UserParticles_1D', 'default_bc_at_rmin'), '2D': ('UserParticles_2D_e', 'bc_at_rmin_for_test_electrons')}


def reflect_1d(k, mover, kind, module, mirrors, spherical=False, n=1, steps=1, cpp=False):
    """Ends of a line: 'lo', 'hi' or both reflect, the others absorb."""
    lo, hi = {'line': (0, 4), 'enil': (0, 4), 'shell': (1, 4), 'one': (0, 1)}[kind]
    end = {'line': {'lo': 0, 'hi': 3}, 'enil': {'lo': 3, 'hi': 0}, 'shell': {'lo': 0, 'hi': 2}, 'one': {'lo': 0, 'hi': 1}}[kind]
    mirror, sp = ('rmin', 'test_electrons') if cpp else ('mirror', 'a')
    names = {mirror: [[end[m]] for m in mirrors], 'wall': [[end[m]] for m in ('lo', 'hi') if m not in mirrors]}
    if not names['wall']:
        del names['wall']
    bcs = None if cpp else functions(k, *REFLECT[module])
    s = Sim(k, kind, species(k, mover, sp), L=2, dt=k.frac(1, 2), spherical=spherical, bcs=bcs, names=names, cpp=cpp)
    c = s.coords[0]
    ncell = len(s.cells)
    state = []
    for i in range(n):
        cell = i % ncell
        x = s.point_in(cell, 'x%d' % i)[0]
        u = k.real('u%d' % i, -6 * (hi - lo), 6 * (hi - lo)) if len(mirrors) == 2 else k.real('u%d' % i)
        s.add(sp, [x], [u], w=k.const(1 + i), cell=cell, uid=20 + i)
        state.append((x, u, i))
    for t in range(steps):
        advance(s, mover)
        new = []
        for x, u, i in state:
            X, U, refl, alive = x + u * k.frac(1, 2), u, 0, True
            for _ in range(5):
                if k.is_true(k.ge(X, lo)) and k.is_true(k.le(X, hi)):
                    break
                side = 'lo' if not k.is_true(k.ge(X, lo)) else 'hi'
                if side not in mirrors:
                    alive = False
                    break
                X, U, refl = 2 * (lo if side == 'lo' else hi) - X, -U, refl + 1
            else:
                k.fail('more reflections than the bound')
            if alive:
                k.reach(['not reflected', 'reflected once', 'reflected twice', 'reflected twice'][min(refl, 3)])
                new.append((X, U, i))
            else:
                k.reach('reflected, then absorbed' if refl else 'absorbed')
        state = new
        got = s.stored(sp)
        if len(got) != len(state):
            k.fail('%d particles are kept by reflecting and absorbing ends, %d expected' % (len(got), len(state)))
        for g, (X, U, i) in zip(got, state):
            k.check(k.all([k.eq(g[c], X), k.eq(g['u' + c], U), k.eq(g['weight'], 1 + i), k.eq(g['unique_ID'], 20 + i), k.eq(g['bitflags'], 0)]),
                    'a reflected particle is where the mirror image of its straight path ends, with the normal velocity reversed')
            k.check(cell_ok(k, s, g, [g[c]]), 'the recorded cell contains a reflected particle')


def cell_ok(k, s, g, x):
    return k.any([k.all([k.eq(g['cell_index'], c), k.inside(s.mesh, c, x)]) for c in range(len(s.cells))])


def reflect(k, mover, kind, module, mirror, cell, cpp=False, upbf=None):
    """One plane facet (by its vertices) reflects, the rest absorb; convex unfolded domain."""
    inner = [v for c in range(1)] if False else None
    s0, cs = None, None
    import itertools
    from .common import geometry
    verts, cells = geometry(k, kind)
    dim = len(verts[0])
    faces = set()
    for c in cells:
        for f in itertools.combinations(sorted(c), dim):
            faces.add(f)
    ext = [f for f in faces if sum(1 for c in cells if set(f) <= set(c)) == 1]
    mname, sp = ('rmin', 'test_electrons') if cpp else ('mirror', 'a')
    names = {mname: [list(mirror)], 'wall': [list(f) for f in sorted(ext) if f != tuple(sorted(mirror))]}
    s = Sim(k, kind, species(k, mover, sp), L=2, dt=k.frac(1, 2), bcs=None if cpp else functions(k, *REFLECT[module]), names=names, cpp=cpp, upbf=upbf)
    x = s.point_in(cell, 'x')
    u = [k.real('u%d' % i) for i in range(dim)]
    s.add(sp, x, u, w=k.const(3), cell=cell, uid=21)
    advance(s, mover)
    X = [x[i] + u[i] * k.frac(1, 2) for i in range(dim)]
    # plane of the mirror: n.x = d, n outward and of rational length
    n, d = plane([verts[v] for v in mirror], [verts[v] for v in sorted({v for c in cells for v in c} - set(mirror))], dim)
    n2 = sum(q * q for q in n)

    def lin(q):
        return sum(num(k, n[i]) * q[i] for i in range(dim))
    img = [X[i] - num(k, Fraction(2) / n2 * n[i]) * (lin(X) - num(k, d)) for i in range(dim)]
    uimg = [u[i] - num(k, Fraction(2) / n2 * n[i]) * lin(u) for i in range(dim)]
    got = s.stored(sp)
    if k.is_true(k.any([k.inside(s.mesh, c, X) for c in range(len(cells))])):
        E, V = X, u
        k.reach('not reflected')
    elif k.is_true(k.all([k.any([k.inside(s.mesh, c, img) for c in range(len(cells))]), k.ge(lin(X), num(k, d))])):
        E, V = img, uimg
        k.reach('reflected once')
    else:
        k.reach('absorbed')
        if got:
            k.fail('a particle whose unfolded path leaves through an absorbing boundary is kept')
        if cpp:
            return
        log = s.cb.log
        if not log or facet(k, s.mesh, list(mirror)) == log[-1]:
            k.fail('an absorbed particle last met a reflecting boundary')
        if len(log) > 1:
            k.reach('reflected, then absorbed')
        return
    if len(got) != 1:
        k.fail('a particle whose unfolded path stays in the unfolded domain is lost')
    g = got[0]
    k.check(k.all([k.eq(g[q], E[i]) for i, q in enumerate(s.coords)] + [k.eq(g['u' + q], V[i]) for i, q in enumerate(s.coords)] +
                  [k.eq(g['weight'], 3), k.eq(g['unique_ID'], 21), k.eq(g['bitflags'], 0)]),
            'a reflected particle ends at the mirror image of its straight path, with the velocity mirrored')
    k.check(cell_ok(k, s, g, [g[q] for q in s.coords]), 'the recorded cell contains a reflected particle')


def num(k, q):
    return k.frac(q.numerator, q.denominator) if isinstance(q, Fraction) else k.const(q)


def plane(ps, others, dim):
    P = [[Fraction(c) for c in p] for p in ps]
    if dim == 2:
        t = [P[1][i] - P[0][i] for i in range(2)]
        n = [t[1], -t[0]]
    else:
        a = [P[1][i] - P[0][i] for i in range(3)]
        b = [P[2][i] - P[0][i] for i in range(3)]
        n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    d = sum(n[i] * P[0][i] for i in range(dim))
    o = sum(n[i] * Fraction(others[0][i]) for i in range(dim))
    if o > d:
        n, d = [-q for q in n], -d
    return n, d


def shipped(k, module, mover, name, boundary, kind, spherical=False, plain=False):
    """The shipped absorbing functions delete the particle and leave the others alone."""
    U = k.repo(module)
    lo, hi = (1, 4) if kind == 'shell' else (0, 4)
    ends = {'shell': (0, 2), 'line': (0, 3)}[kind]
    names = {boundary: [[ends[0]]], 'wall': [[ends[1]]]}

    def bcs(P):
        if plain:
            return U.UserParticleBoundaryFunctions_C(P.position_coordinates, P.dx)

        class F(U.UserParticleBoundaryFunctions_C):
            def default_bc(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
                p['bitflags'] = p['bitflags'] | 1
        return F() if module == 'UserParticles_3D' else F(P.position_coordinates, P.dx)
    s = Sim(k, kind, species(k, mover, name), L=2, dt=k.frac(1, 2), spherical=spherical, names=names, bcs=bcs)
    c = s.coords[0]
    st = []
    for i in range(2):
        x = s.point_in(i, 'x%d' % i)[0]
        u = k.real('u%d' % i)
        s.add(name, [x], [u], w=k.const(1 + i), cell=i, uid=30 + i)
        st.append((x, u, i))
    advance(s, mover)
    exp = []
    for x, u, i in st:
        X = x + u * k.frac(1, 2)
        if k.is_true(k.all([k.ge(X, lo), k.le(X, hi)])):
            exp.append((X, u, i))
        else:
            k.reach('absorbed')
    got = s.stored(name)
    if len(got) != len(exp):
        k.fail('%d particles kept by absorbing ends, %d expected' % (len(got), len(exp)))
    for g, (X, u, i) in zip(got, exp):
        k.check(k.all([k.eq(g[c], X), k.eq(g['u' + c], u), k.eq(g['weight'], 1 + i), k.eq(g['unique_ID'], 30 + i), k.eq(g['bitflags'], 0)]),
                'absorbing one particle leaves the others alone')


def report(k, mover, kind, cell, spherical=False, cpp=False):
    """Arguments of the call: species, facet, fraction, unit outward normal, particle at the crossing."""
    spec = species(k, mover) + [('b', 0.0 if mover == 'neutral' else k.const(3), k.const(5), 'neutral' if mover == 'neutral' else 'charged')]
    s = Sim(k, kind, spec, L=2, dt=k.frac(1, 2), spherical=spherical, mode='exterior', mark='all', cpp=cpp)
    x = s.point_in(cell, 'x')
    u = [k.real('u%d' % i) for i in range(s.dim)]
    sp = k.pick('species', ['a', 'b'])
    s.add(sp, x, u, w=k.const(3), cell=cell, uid=21, flags=0)
    advance(s, mover)
    here = cell
    for c in s.cb.calls:
        f = c['facet']
        if c['species'] != sp:
            k.fail('a boundary function is told the wrong species')
        cells = s.facet_cells[f]
        if here not in cells:
            k.fail('a boundary function is called for a facet of another cell')
        p0 = [c['rec'][q + '0'] for q in s.coords]
        k.check(on_facet(k, s, f, p0), 'the particle handed to a boundary function starts at the crossing point')
        k.check(k.all([k.eq(c['rec'][q], x[i] + u[i] * k.frac(1, 2)) for i, q in enumerate(s.coords)] + [k.eq(c['rec']['unique_ID'], 21)]),
                'the particle handed to a boundary function is the one that crosses, at the end of its move')
        inner = [v for v in s.cells[here] if v not in s.facet_verts[f]]
        if s.dim > 1:
            n, d = plane([s.verts[v] for v in s.facet_verts[f]], [s.verts[v] for v in inner], s.dim)
        else:
            n = [1 if s.verts[s.facet_verts[f][0]][0] > s.verts[inner[0]][0] else -1]
        N = c['normal']
        k.check(k.eq(sum(q * q for q in N), 1), 'the facet normal has unit length')
        k.check(k.all([k.eq(N[i] * num(k, Fraction(n[j])), N[j] * num(k, Fraction(n[i]))) for i in range(s.dim) for j in range(i)] +
                      [k.ge(sum(N[i] * num(k, Fraction(n[i])) for i in range(s.dim)), 0)]), 'the facet normal points out of the cell that is left')
        if len(cells) == 2:
            here = cells[0] if cells[1] == here else cells[1]
        k.reach('absorbed' if len(cells) == 1 else 'not reflected')


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    movers = ('charged', 'neutral', 'legacy')
    for m in movers:
        for mod in ('1D', '2D'):
            job('reflect_1d', 3, mover=m, kind='shell', module=mod, mirrors=('lo',), spherical=True)
            job('reflect_1d', 3, mover=m, kind='line', module=mod, mirrors=('hi',))
            job('reflect_1d', 3, mover=m, kind='enil', module=mod, mirrors=('lo',))
            job('reflect_1d', 8, mover=m, kind='one', module=mod, mirrors=('lo', 'hi'))
            job('reflect_1d', 20, mover=m, kind='line', module=mod, mirrors=('lo',), n=2)
        job('reflect_1d', 30, mover=m, kind='one', module='1D', mirrors=('lo',), n=3)
        if tier != 'quick':
            job('reflect_1d', 30, mover=m, kind='line', module='1D', mirrors=('lo',), n=3)
            job('reflect_1d', 30, mover=m, kind='one', module='1D', mirrors=('lo',), n=2, steps=2)
            job('reflect_1d', 30, mover=m, kind='line', module='1D', mirrors=('lo', 'hi'), steps=2)
        for mod in ('1D', '2D'):
            job('reflect', 10, mover=m, kind='tri', module=mod, mirror=(1, 2), cell=0)
            job('reflect', 10, mover=m, kind='rect', module=mod, mirror=(0, 2), cell=0)
        job('reflect', 10, mover=m, kind='rect', module='2D', mirror=(0, 1), cell=1)
        job('reflect', 10, mover=m, kind='tet', module='1D', mirror=(1, 2, 3), cell=0)
        if tier != 'quick':
            job('reflect', 10, mover=m, kind='tet', module='1D', mirror=(0, 1, 2), cell=0)
            job('reflect', 10, mover=m, kind='rect', module='1D', mirror=(1, 3), cell=0)
        for kind, n, sph in (('line', 3, False), ('shell', 2, True), ('rect', 2, False), ('tets', 2, False)):
            for c in range(n):
                job('report', 4, mover=m, kind=kind, cell=c, spherical=sph)
        for mod, name, bd in (('1D', 'neutral_H', 'xmin'), ('1D', 'q', 'xmin'), ('1D', 'q', 'rmax'), ('1D', 'neutral_H', 'rmin'), ('2D_e', 'q', 'rmin'),
                              ('3D', 'q', 'xmin'), ('3D', 'neutral_H', 'xmin'), ('3D', 'q', 'ymin')):
            job('shipped', module='UserParticles_' + mod, mover=m, name=name, boundary=bd, kind='shell' if bd[0] == 'r' else 'line', spherical=bd[0] == 'r')
        for mod in ('1D', '2D_e'):
            job('shipped', module='UserParticles_' + mod, mover=m, name='q', boundary='west', kind='line', plain=True)
    return out
