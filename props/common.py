"""Building blocks shared by the harnesses: meshes, a particle system, boundary callbacks."""


def facet(k, mesh, verts):
    """Mesh index of the facet with these vertex numbers."""
    if k.symbolic:
        return mesh.facet_of(verts)
    t = mesh.topology().dim()
    for f in k.df.facets(mesh):
        if t == 1:
            if [int(v) for v in f.entities(0)] == list(verts):
                return f.index()
        elif sorted(int(v) for v in f.entities(0)) == sorted(verts):
            return f.index()
    raise KeyError(verts)


def facets_of(k, mesh):
    """[(facet index, vertex numbers, adjacent cells)]"""
    if k.symbolic:
        t = mesh.tdim
        return [(i, list(vs), list(mesh.conn(t - 1, t)[i])) for i, vs in enumerate(mesh.conn(t - 1, 0))]
    t = mesh.topology().dim()
    mesh.init(t - 1, t)
    return [(f.index(), [int(v) for v in f.entities(0)] if t > 1 else [f.index()], [int(c) for c in f.entities(t)]) for f in k.df.facets(mesh)]


# Meshes whose facet normals are rational vectors, so that the encoding is exact.
NINTH = (4, 8, 8)          # mirror image of the origin in the slanted facet is (4,8,8)/9


def geometry(k, kind):
    q = k.frac if not k.symbolic else (lambda a, b: __import__('fractions').Fraction(a, b))
    return {
        # three unequal intervals
        'one': ([[0], [1]], [[0, 1]]),
        'line': ([[0], [1], [3], [4]], [[0, 1], [1, 2], [2, 3]]),
        # vertex numbers that decrease with x
        'enil': ([[4], [3], [1], [0]], [[0, 1], [1, 2], [2, 3]]),
        # radial mesh that does not start at the origin
        'shell': ([[1], [2], [4]], [[0, 1], [1, 2]]),
        # ... that does
        'shell4': ([[0], [1], [2], [4], [7]], [[0, 1], [1, 2], [2, 3], [3, 4]]),
        # a 4x3 rectangle cut along a diagonal: convex
        'rect': ([[0, 0], [4, 0], [0, 3], [4, 3]], [[0, 1, 2], [1, 2, 3]]),
        # the same with a third triangle: not convex
        'fan': ([[0, 0], [4, 0], [0, 3], [4, 3], [8, 3]], [[0, 1, 2], [1, 2, 3], [1, 3, 4]]),
        # four triangles around a node
        'cross': ([[0, 0], [4, 0], [0, 3], [4, 3], [1, 1]], [[0, 1, 4], [0, 2, 4], [1, 3, 4], [2, 3, 4]]),
        # one triangle
        'tri': ([[0, 0], [4, 0], [0, 3]], [[0, 1, 2]]),
        # one tetrahedron with a slanted facet of normal (1,2,2)/3
        'tet': ([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 2, 3]]),
        # two mirror images across x=0
        'tets': ([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1], [-2, 0, 0]], [[0, 1, 2, 3], [0, 2, 3, 4]]),
        'stet': ([[0, 0, 0], [-3, 0, 0], [0, 1, 0], [0, 0, 1], [3, 0, 0]], [[0, 1, 2, 3], [0, 2, 3, 4]]),
        # ... and a third across the slanted facet
        'tets3': ([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1], [-2, 0, 0], [q(4, 9), q(8, 9), q(8, 9)]],
                  [[0, 1, 2, 3], [0, 2, 3, 4], [1, 2, 3, 5]]),
    }[kind]


BASE_MODULES = ['numpy_types_solib', 'segmented_array_pair_solib', 'mesh_entity_arrays_solib']
SYS = {'one': 'cartesian_x', 'line': 'cartesian_x', 'enil': 'cartesian_x', 'shell': 'spherical_r', 'rect': 'cartesian_xy', 'fan': 'cartesian_xy',
       'tri': 'cartesian_xy', 'tet': 'cartesian_xyz', 'tets': 'cartesian_xyz', 'tets3': 'cartesian_xyz', 'stet': 'cartesian_xyz'}


def modules(kind, system=None, upbf=None):
    """The C++ modules that a Sim on this mesh needs."""
    sy = system or SYS[kind]
    if upbf:
        return BASE_MODULES + ['particle_%s_solib' % sy, 'user_particle_boundary_functions_%s_%s_solib' % (upbf, sy)]
    return BASE_MODULES + ['particle_%s_solib' % sy, 'upbfs_spherical_r_solib' if sy == 'spherical_r' else 'user_particle_boundary_functions_%s_solib' % sy]


COORDS = {1: ['x'], 2: ['x', 'y'], 3: ['x', 'y', 'z']}
SYSTEM = {1: 'cartesian_x', 2: 'cartesian_xy', 3: 'cartesian_xyz'}


class Callbacks:
    """User boundary functions: log every call and absorb (or not)."""

    def __init__(self, P, mode='absorb'):
        self.P, self.mode, self.calls = P, mode, []

    def default_bc(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
        self.calls.append(dict(rec={n: p[n] for n in p.dtype.names}, species=species_name, facet=int(facet_index), fraction=dx_fraction,
                               normal=None if facet_normal is None else [facet_normal[i] for i in range(len(facet_normal))],
                               dx=[self.P.dx[i] for i in range(len(self.P.dx))]))
        if self.mode == 'absorb' or self.mode == 'exterior' and len(self.sim.facet_cells[int(facet_index)]) == 1:
            p['bitflags'] = p['bitflags'] | 1


class Sim:
    """A Particle_C on a small mesh."""

    def __init__(self, k, kind, species, L=2, system=None, mode='absorb', force=True, dt=None, mark='exterior', bcs=None, spherical=False,
                 cpp=None, max_cross=20, names=None, element=1, integrate=None, tags=None, upbf=None):
        self.k = k
        # a job may ask for C++ storage ('cpp'), or for C++ storage and movers ('cpp-move')
        store = getattr(k, 'store', None)
        if cpp is None:
            cpp = store is not None
        if integrate is None:
            integrate = store != 'cpp'
        np = k.np
        coords, cells = geometry(k, kind)
        self.mesh = k.mesh(coords, cells)
        self.verts, self.cells = coords, [sorted(c) for c in cells]
        self.dim = len(coords[0])
        DM = self.DM = k.repo('Dolfin_Module')
        PM = self.PM = k.repo('Particle_Module')
        pin = PM.ParticleInput_C()
        pin.precision = np.float64
        pin.coordinate_system = system or ('spherical_r' if spherical else SYSTEM[self.dim])
        self.coords = ['r'] if pin.coordinate_system == 'spherical_r' else {'cartesian_x': ['x'], 'cartesian_xy': ['x', 'y'],
                                                                            'cartesian_xyz': ['x', 'y', 'z']}[pin.coordinate_system]
        pin.force_components = list(self.coords) if force else None
        pin.force_precision = np.float64
        pin.use_cpp_integrators = cpp
        pin.particle_species = [PM.ParticleSpecies_C(n, q, m, dyn) for n, q, m, dyn in species]
        self.species = {s[0]: s for s in species}
        PM.Particle_C.SEGMENT_LENGTH = L
        self.L = L
        P = self.P = PM.Particle_C(pin)
        self.mesh_M = DM.Mesh_C(Mesh=self.mesh, coordinate_system='1D-spherical-radial' if spherical else 'Cartesian',
                                compute_dictionaries=True, compute_tree=True)
        self.markers = {}
        if kind is not None:
            mf = k.df.MeshFunction('size_t', self.mesh, self.dim - 1) if k.symbolic else k.df.MeshFunction('size_t', self.mesh, self.dim - 1, 0)
            mf.set_all(0)
            self.tags = {}
            self.facet_cells = {i: cs for i, vs, cs in facets_of(k, self.mesh)}
            self.facet_verts = {i: vs for i, vs, cs in facets_of(k, self.mesh)}
            for i, vs, cs in facets_of(k, self.mesh):
                if names is not None:
                    # named boundaries: {name: [vertex lists]}, numbered in the order given
                    for t, (nm, fl) in enumerate(names.items()):
                        if sorted(vs) in [sorted(q) for q in fl]:
                            mf[i] = tags[nm] if tags else t + 1
                            self.tags[i] = mf[i]
                elif len(cs) == 1 or mark == 'all':
                    t = len(self.tags) + 1
                    mf[i] = t
                    self.tags[i] = t
            self.mesh_M.particle_boundary_marker = mf
            self.mesh_M.particle_boundary_dict = {nm: tags[nm] if tags else t + 1 for t, nm in enumerate(names)} if names is not None else \
                {'b%d' % t: t for t in self.tags.values()}
        P.initialize_particle_mesh(self.mesh_M)
        if cpp:
            # the supplied C++ boundary functions; boundaries named 'rmin' have their own
            name = 'upbfs_spherical_r_solib' if spherical else 'user_particle_boundary_functions_%s_solib' % ('%s_%s' % (upbf, pin.coordinate_system) if upbf else pin.coordinate_system)
            self.cb = k.cpp(name).UserParticleBoundaryFunctions(P.position_coordinates)
            P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(P.species_names, self.mesh_M, self.cb, print_flag=False)
        else:
            self.cb = bcs(P) if bcs else Callbacks(P, mode)
            self.cb.sim = self
            P.pmesh_bcs = PM.ParticleMeshBoundaryConditions_C(P.species_names, self.mesh_M, self.cb)
        if integrate:
            P.initialize_particle_integration()
        c = self.ctrl = k.repo('DT_Module').DTcontrol_C()
        c.dt = k.const(1) if dt is None else dt
        c.time = k.const(0)
        c.timeloop_count = 0
        c.MAX_FACET_CROSS_COUNT = max_cross
        c.precision = np.float64

    def record(self, x, u, w=1, flags=0, cell=0, uid=0, crossings=0, x0=None):
        k = self.k
        x0 = x if x0 is None else x0
        return tuple(list(x) + list(x0) + list(u) + [w, flags, cell, uid, crossings])

    def add(self, sp, *a, **kw):
        return self.P.sap_dict[sp].push_back(self.record(*a, **kw))

    def stored(self, sp):
        """Current records of a species, as dicts, read through the public read loop."""
        out = []
        sap = self.P.sap_dict[sp]
        n, seg = sap.init_out_loop()
        while isinstance(seg, self.k.np.ndarray):
            for i in range(n):
                out.append({nm: seg[i][nm] for nm in seg.dtype.names})
            n, seg = sap.get_next_segment('out')
            if len(out) > 200:
                self.k.fail('a read loop does not end')
        return out

    def vector_field(self, name, values=None, element=('Lagrange', 1)):
        """A vector Field_C with symbolic nodal values: returns (field, evaluator).

        The evaluator gives the value at a point from the vertex values, independent of the
        code under test."""
        k = self.k
        F = self.DM.Field_C(self.mesh_M, element[0], element[1], 'vector')
        self.set_nodal(F, name, values)
        return F

    def set_nodal(self, F, name, values=None):
        """Set a CG1 vector (or scalar) field from per-vertex values; remembers them in F.nodal."""
        k = self.k
        nv = len(self.verts)
        nc = self.dim if F.field_type == 'vector' else 1
        vals = []
        for v in range(nv):
            row = []
            for c in range(nc):
                if values is None:
                    row.append(k.real('%s_%d_%d' % (name, v, c)))
                else:
                    q = values[v][c]
                    row.append(k.const(q) if isinstance(q, (int, float)) else q)
            vals.append(row)
        F.nodal = vals
        V = F.function_space
        dm = V.dofmap()
        n = self.dim + 1
        for ci, cv in enumerate(self.cells):
            dofs = dm.cell_dofs(ci)
            order = cv if k.symbolic else [int(v) for v in self.k.df.Cell(self.mesh, ci).entities(0)]
            for c in range(nc):
                for j, v in enumerate(order):
                    F.function_values[int(dofs[c * n + j])] = vals[v][c]
        return F

    def cell_field(self, name, values=None):
        """A cell-constant (DG0) vector field; remembers the values in F.cellwise."""
        k = self.k
        F = self.DM.Field_C(self.mesh_M, 'DG', 0, 'vector')
        F.cellwise = []
        dm = F.function_space.dofmap()
        for c in range(len(self.cells)):
            row = [k.real('%s_%d_%d' % (name, c, i)) if values is None else values[c][i] for i in range(self.dim)]
            row = [k.const(v) if isinstance(v, (int, float)) else v for v in row]
            F.cellwise.append(row)
            dofs = dm.cell_dofs(c)
            for i in range(self.dim):
                F.function_values[int(dofs[i])] = row[i]
        return F

    def at(self, F, cell, x):
        """Value of a nodal field at x, by linear interpolation in a cell."""
        b = self.bary(cell, x)
        nc = len(F.nodal[0])
        return [sum(b[i] * F.nodal[v][c] for i, v in enumerate(self.cells[cell])) for c in range(nc)]

    def bary(self, cell, x):
        from fractions import Fraction
        k = self.k
        pts = [[Fraction(c) if not isinstance(c, float) else c for c in self.verts[v]] for v in self.cells[cell]]

        def det(m):
            if len(m) == 1:
                return m[0][0]
            if len(m) == 2:
                return m[0][0] * m[1][1] - m[0][1] * m[1][0]
            return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))

        def vol(p):
            g = len(p) - 1
            return det([[p[i + 1][c] - p[0][c] for c in range(g)] for i in range(g)])
        D = vol(pts)
        out = []
        for i in range(len(pts)):
            q = [list(p) for p in pts]
            q[i] = list(x)
            n = vol(q)
            inv = 1 / D
            if k.symbolic:
                n = (n if isinstance(n, k.E.SymReal) else k.const(n)) * inv
            else:
                n = float(n) * float(inv)
            out.append(n)
        return out

    def point_in(self, cell, name, strict=False):
        """A symbolic point of a cell."""
        k = self.k
        lo = [min(self.verts[v][c] for v in self.cells[cell]) for c in range(self.dim)]
        hi = [max(self.verts[v][c] for v in self.cells[cell]) for c in range(self.dim)]
        x = [k.real('%s_%s' % (name, COORDS[3][c]), lo[c], hi[c]) for c in range(self.dim)]
        if self.dim > 1:
            k.assume_c(k.inside(self.mesh, cell, x))
        return x


def beside(k, kind, fn, cfg, mover='charged'):
    """fn(k, **cfg) while another simulation exists in the same process, stepped before and after: neither affects the other."""
    from .tracking import outcome
    c0 = k.const
    qm = {'a': (7, 5), 'e': (-3, 4)}
    s = Sim(k, kind, [(sp, c0(qm[sp][0]), c0(qm[sp][1]), 'charged') for sp in qm] + [(sp, 0.0, c0(3), 'neutral') for sp in 'zn'], L=2, dt=k.frac(1, 8),
            spherical=kind == 'shell', mode='exterior', mark='all', integrate=True)
    nc, n = len(s.cells), s.dim + 1
    c = nc - 1
    s.ctrl.MAX_FACET_CROSS_COUNT = nc
    s.ctrl.time, s.ctrl.timeloop_count = c0(40), 17
    s.ctrl.apply_solved_electric_field = {'a': True, 'e': True}
    x0 = [sum(c0(s.verts[v][d]) for v in s.cells[c]) / n for d in range(s.dim)]
    F = s.vector_field('beside', [[1] * s.dim for v in s.verts])
    ps = {sp: (x0, [c0(0)] * s.dim, 101 + i) for i, sp in enumerate('aezn')}
    for sp, (x, u, uid) in ps.items():
        s.add(sp, x, u, w=c0(3), cell=c, uid=uid)
    h = k.frac(1, 8)

    def step():
        s.ctrl.timeloop_count += 1
        s.ctrl.time = s.ctrl.time + s.ctrl.dt
        s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=F)
        s.P.advance_neutral_particles(s.ctrl)
        for sp, (x, u, uid) in ps.items():
            if sp in qm:
                u = [v - k.frac(*qm[sp]) * h for v in u]
            ps[sp] = ([a + b * h for a, b in zip(x, u)], u, uid)
    seg = s.PM.Particle_C.SEGMENT_LENGTH
    step()
    fn(k, **cfg)
    s.PM.Particle_C.SEGMENT_LENGTH = seg
    k.reach('beside another simulation')
    s.cb.calls = []
    # ... and particles that cross facets
    fast = []
    for i, v in enumerate((40, -40, 10)):
        u = [c0(v), c0(-7), c0(3)][:s.dim]
        s.add('n', x0, u, w=c0(1), cell=c, uid=200 + i)
        fast.append((x0, u, 200 + i))
    step()
    for sp, (x, u, uid) in ps.items():
        got = s.stored(sp)
        if sp != 'n' and len(got) != 1 or not got:
            k.fail('%d particles in the storage of another simulation that has one' % len(got))
        g = got[0]
        k.check(k.all([k.eq(g['unique_ID'], uid), k.eq(g['cell_index'], c)] + [k.eq(g[q], x[i]) for i, q in enumerate(s.coords)] +
                      [k.eq(g['u' + q], u[i]) for i, q in enumerate(s.coords)]), 'another simulation in the same process is not affected')
    got = got[1:]
    for x, u, uid in fast:
        g = next((g for g in got if k.is_true(k.eq(g['unique_ID'], uid))), None)
        outcome(k, s, [q for q in s.cb.calls if k.is_true(k.eq(q['rec']['unique_ID'], uid))], g, x, [a + b * h for a, b in zip(x, u)], u, c, False)


def beside_jobs(out, picks):
    """Variants of the first jobs with these functions (or (function, part of the name)) that run beside another simulation."""
    for p in picks:
        fn, part, other = (p + ('',) * 3)[:3] if isinstance(p, tuple) else (p, '', '')
        j = next(j for j in out if j['fn'] == fn and part in j['name'] and not j['cfg'].get('store') and not j.get('cpp'))
        out.append(dict(j, name='beside ' + j['name'], fn='beside', cfg=dict(kind=other or 'rect', of=fn, args=j['cfg'])))
