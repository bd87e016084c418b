"""P21: the potential solves the discrete Poisson equation; the field is minus its gradient."""
from fractions import Fraction
from .common import Sim, facet, geometry
from .deposit import nodes

PROPERTY = dict(
    title='The solved potential satisfies the discrete Poisson equation with its boundary values, and the field is its gradient',
    files=['Dolfin_Module.py', 'UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py', 'UserUnits_Module.py',
           'Particle_Module.py'],
    functions=['PoissonSolve_C.__init__', 'PoissonSolve_C.assemble_matrix', 'PoissonSolve_C.assemble_source_expression', 'PoissonSolve_C.solve_for_phi', 'PoissonSolve_C.compute_negE',
               'UserPoissonSolve1D_C.__init__', 'UserPoissonSolve2DCirc_C.__init__', 'UserPoissonSolve1DS_C.__init__', 'Field_C.__init__',
               'Particle_C.accumulate_charge_density_from_particles'],
    explanation='Symbolic execution of the solver set-up and solution from source, with the variational forms of the source assembled exactly (polynomials in barycentric '
                'coordinates) and the linear system solved exactly; boundary values, charges, multipliers and particle positions are symbolic.  z3 decides, against an independently '
                'computed stiffness matrix, that every boundary node has its value, that every other node satisfies the equation for the charge given, and that the field '
                'of each cell is the gradient of the potential.',
    bounds=dict(quick='meshes of 1-4 cells in 1D (Cartesian and spherical), 2D and 3D; linear elements; up to 3 solves in a row; constant, absent and linear sources; charge from nodes or from up to 3 particles',
                thorough='as quick with meshes of up to 6 cells'),
    outside=['the linear solvers of PETSc and their tolerances', 'elements of higher degree', 'coefficients that change in time', 'plots'],
    assumptions=['reals', 'dolfin assembles the forms given to it, applies boundary values and solves the system (modelled exactly)'],
    reach=['boundary value', 'free node', 'charge', 'charge replaced', 'no charge', 'multiplier', 'natural boundary', 'spherical', 'uniform source', 'source formula', 'charge of particles'],
)

# solver class and boundary facets (vertex numbers) of each mesh
CASES = {
    'line': ('1D', ('xmin', [[0]]), ('xmax', [[3]])),
    'enil': ('1D', ('xmin', [[3]]), ('xmax', [[0]])),
    'one': ('1D', ('xmin', [[0]]), ('xmax', [[1]])),
    'shell': ('1DS', ('rmin', [[0]]), ('rmax', [[2]])),
    'shell4': ('1DS', ('rmin', [[0]]), ('rmax', [[4]])),
    'fan': ('2D', ('rmin', [[0, 2]]), ('rmax', [[3, 4]])),
    'tri': ('2D', ('rmin', [[0, 1]]), ('rmax', [])),
    'cross': ('2D', ('rmin', [[0, 2]]), ('rmax', [[1, 3]])),
    'rect': ('1D', ('xmin', [[0, 2]]), ('xmax', [])),
    'tets': ('1D', ('xmin', [[0, 1, 2]]), ('xmax', [])),
    'tets3': ('1D', ('xmin', [[0, 2, 4]]), ('xmax', [])),
}
MODULE = {'1D': ('UserMesh_y_Fields_FE_XYZ_Module', 'UserPoissonSolve1D_C'), '2D': ('UserMesh_y_Fields_FE2D_Module', 'UserPoissonSolve2DCirc_C'),
          '1DS': ('UserMesh_y_Fields_Spherical1D_Module', 'UserPoissonSolve1DS_C')}
TAG = {0: 3, 1: 5}
SCALE = 2 ** 36          # charges are of the order of epsilon_0


class Problem:
    def __init__(self, k, kind, natural=False, field=True, species=None, **kw):
        cls, *bnds = CASES[kind]
        self.k = k
        s = self.s = Sim(k, kind, species or [('a', k.frac(-1, SCALE), k.const(1), 'charged'), ('b', k.frac(3, SCALE), k.const(2), 'charged')],
                         spherical=cls == '1DS', **dict(dict(L=2), **kw))
        self.spherical = cls == '1DS'
        DM = s.DM
        self.phi = DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
        self.negE = DM.Field_C(s.mesh_M, 'DG', 0, 'vector') if field else None
        mf = k.df.MeshFunction('size_t', s.mesh, s.dim - 1) if k.symbolic else k.df.MeshFunction('size_t', s.mesh, s.dim - 1, 0)
        mf.set_all(0)
        self.fixed = {}
        bcs = {}
        for n, (name, fs) in enumerate(bnds):
            v = 'unset' if natural and n == 0 else k.real('phi_' + name, -100, 100)
            bcs[name] = (TAG[n], v)
            for f in fs:
                mf[facet(k, s.mesh, f)] = TAG[n]
                if v != 'unset':
                    for q in f:
                        self.fixed[q] = v
        if natural:
            k.reach('natural boundary')
        if self.spherical:
            k.reach('spherical')
        mod, name = MODULE[cls]
        M = k.repo(mod)
        self.eps = M.U_M.MyPlasmaUnits_C.epsilon_0
        if not 8.8541e-12 < self.eps < 8.8542e-12:
            k.fail('the permittivity of free space is %r' % self.eps)
        self.solver = getattr(M, name)(self.phi, None, None, mf, bcs, neg_electric_field=self.negE)
        self.K = self.stiffness()

    def cells(self):
        """[(vertices, points, volume, gradients of the hat functions)], exactly."""
        for c, cv in enumerate(self.s.cells):
            pts = [[Fraction(q) for q in self.s.verts[v]] for v in cv]
            yield cv, pts, cellvolume(pts), gradients(pts)

    def stiffness(self):
        K = {}
        for cv, pts, vol, g in self.cells():
            w = vol
            if self.spherical:
                a, b = pts[0][0], pts[1][0]
                w = abs(b ** 3 - a ** 3) / 3
            for i, v in enumerate(cv):
                for j, u in enumerate(cv):
                    K[v, u] = K.get((v, u), 0) + w * sum(p * q for p, q in zip(g[i], g[j]))
        return K

    def verify(self, charge, note):
        """charge: vertex -> right-hand side (the charge seen by the hat function), times SCALE."""
        k, s = self.k, self.s
        phi = nodes(k, s, self.phi)
        e = Fraction(self.eps) * SCALE
        for v in range(len(s.verts)):
            if v in self.fixed:
                k.check(k.eq(phi[v], self.fixed[v]), 'a node of a boundary has the potential of the boundary (%s)' % note)
                k.reach('boundary value')
                continue
            k.reach('free node')
            lhs = k.const(0)
            for u in range(len(s.verts)):
                q = self.K.get((v, u), 0)
                if q:
                    q = e * q
                    lhs = lhs + (k.frac(q.numerator, q.denominator) if k.symbolic else float(q)) * phi[u]
            k.check(k.eq(lhs, charge.get(v, k.const(0))), 'the potential satisfies the discrete Poisson equation (%s)' % note)
        if self.negE is None:
            return
        F = self.negE
        dm = F.function_space.dofmap()
        val = F.function.vector()
        for c, (cv, pts, vol, g) in enumerate(self.cells()):
            d = dm.cell_dofs(c)
            for x in range(s.dim):
                want = k.const(0)
                for i, v in enumerate(cv):
                    if g[i][x]:
                        want = want + k.frac(g[i][x].numerator, g[i][x].denominator) * phi[v]
                k.check(k.eq(val[int(d[x])], want), 'the field of a cell is the gradient of the potential (%s)' % note)
                k.check(k.eq(F.function_values[int(d[x])], want), 'the values of the field are those of its function (%s)' % note)

    def charge(self, name, lo=-50, hi=50):
        """A field of nodal charges: (Field_C, vertex -> charge times SCALE)."""
        k, s = self.k, self.s
        F = s.DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
        q = {v: k.real('%s_%d' % (name, v), lo, hi) for v in range(len(s.verts))}
        set_nodes(k, s, F, {v: q[v] * k.frac(1, SCALE) for v in q})
        return F, q


def cellvolume(pts):
    return abs(det([[pts[i + 1][j] - pts[0][j] for j in range(len(pts) - 1)] for i in range(len(pts) - 1)])) / {1: 1, 2: 2, 3: 6}[len(pts) - 1]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def gradients(pts):
    """Gradients of the hat functions of a simplex."""
    d = len(pts) - 1
    J = [[pts[i + 1][j] - pts[0][j] for j in range(d)] for i in range(d)]
    D = det(J)
    out = []
    for i in range(d):
        g = []
        for j in range(d):
            # cofactor
            m = [[J[a][b] for b in range(d) if b != j] for a in range(d) if a != i]
            g.append((-1) ** (i + j) * (det(m) if m else 1) / D)
        out.append(g)
    return [[-sum(g[j] for g in out) for j in range(d)]] + out


def set_nodes(k, s, F, q):
    dm = F.function_space.dofmap()
    for ci, cv in enumerate(s.cells):
        dofs = dm.cell_dofs(ci)
        order = cv if k.symbolic else [int(v) for v in k.df.Cell(s.mesh, ci).entities(0)]
        for j, v in enumerate(order):
            F.function_values[int(dofs[j])] = q[v]


def charges(k, kind, natural=False, factor=False, field=True, n=2, again=False):
    """No charge first, then different nodal charges, each solve by itself."""
    p = Problem(k, kind, natural, field)
    if again:
        # the matrix is assembled for every solve
        p.solver.pde_has_constant_coeffs = False
    p.solver.solve_for_phi()
    p.verify({}, 'no charge')
    k.reach('no charge')
    for i in range(n):
        F, q = p.charge('q%d' % i)
        f = k.real('f%d' % i, -3, 3) if factor else None
        p.solver.solve_for_phi(assembled_charge=F, assembled_charge_factor=f)
        if factor:
            q = {v: q[v] * f for v in q}
            k.reach('multiplier')
        p.verify(q, 'charge %d' % i)
        k.reach('charge replaced' if i else 'charge')


def source(k, kind, what, natural=False):
    """A density given as a number, or a formula."""
    p = Problem(k, kind, natural)
    rho = None
    if what == 'none':
        p.solver.assemble_source_expression(None)
    elif what == 'int':
        p.solver.assemble_source_expression(0)
    elif what == 'formula':
        # 3*x/2**36 + 1/2**36
        p.solver.assemble_source_expression('%r*x[0] + %r' % (3. / SCALE, 1. / SCALE))
        rho = lambda x: 3 * x[0] + 1
        k.reach('source formula')
    else:
        r = k.real('rho', -50, 50)
        p.solver.assemble_source_expression(r * k.frac(1, SCALE))
        rho = lambda x: 1
        k.reach('uniform source')
    p.solver.solve_for_phi()
    b = {}
    if rho is not None:
        for cv, pts, vol, g in p.cells():
            n = len(cv)
            val = [rho(q) for q in pts]
            for i, v in enumerate(cv):
                if p.spherical:
                    # integral of rho * hat * r^2
                    w = sum(val[a] * moment(pts, i, a) for a in (0, 1))
                else:
                    w = sum(val[a] * (2 if a == i else 1) for a in range(n)) * vol / (n * (n + 1))
                b[v] = b.get(v, 0) + w
        b = {v: k.frac(Fraction(w).numerator, Fraction(w).denominator) for v, w in b.items()}
        if what == 'const':
            b = {v: b[v] * r for v in b}
    p.verify(b, 'density ' + what)


def moment(pts, i, j):
    """Integral over [r0,r1] of hat_i * hat_j * r^2."""
    r0, r1 = pts[0][0], pts[1][0]
    h = abs(r1 - r0)
    # with t from 0 at vertex 0 to 1 at vertex 1; powers of t
    def mul(a, b):
        out = [Fraction(0)] * (len(a) + len(b) - 1)
        for x, p in enumerate(a):
            for y, q in enumerate(b):
                out[x + y] += p * q
        return out
    hat = {0: [Fraction(1), Fraction(-1)], 1: [Fraction(0), Fraction(1)]}
    r = [r0, r1 - r0]
    t = mul(mul(hat[i], hat[j]), mul(r, r))
    return h * sum(c / (n + 1) for n, c in enumerate(t))


def particles(k, kind, N):
    """From particles to potential: the charge seen by a node is that of the particles near it."""
    p = Problem(k, kind)
    s = p.s
    q = {v: k.const(0) for v in range(len(s.verts))}
    charge = {'a': -1, 'b': 3}
    for i in range(N):
        sp = 'ab'[i % 2]
        c = i % len(s.cells)
        x, w = s.point_in(c, 'x%d' % i), k.real('w%d' % i, 0, 20)
        s.add(sp, x, [k.const(0)] * s.dim, w=w, cell=c, uid=i)
        for v, b in zip(s.cells[c], s.bary(c, x)):
            q[v] = q[v] + charge[sp] * w * b
    A = s.DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
    D = {}
    for sp in s.P.species_names:
        D[sp] = s.DM.Field_C(s.mesh_M, 'Lagrange', 1, 'scalar')
        s.P.accumulate_number_density(sp, dof_number_density_F=D[sp])
    s.P.accumulate_charge_density_from_particles(D, A)
    p.solver.solve_for_phi(assembled_charge=A, assembled_charge_factor=k.const(1))
    p.verify(q, 'charge of particles')
    k.reach('charge of particles')


def jobs(tier):
    out = []

    def job(fn, weight=1, **cfg):
        out.append(dict(name=fn + ' ' + ' '.join('%s=%s' % kv for kv in cfg.items()), fn=fn, cfg=cfg, weight=weight))
    for kind in CASES:
        job('charges', kind=kind)
        job('charges', kind=kind, factor=True, n=1)
        for what in ('none', 'int', 'const', 'formula'):
            job('source', kind=kind, what=what)
    for kind in ('shell', 'shell4'):
        job('charges', kind=kind, natural=True)
        job('source', kind=kind, what='const', natural=True)
    for kind in ('line', 'shell', 'cross', 'tets'):
        job('charges', kind=kind, field=False)
        job('charges', kind=kind, field=False, factor=True, n=1)
    for kind in ('line', 'shell', 'cross', 'tets'):
        job('charges', kind=kind, again=True)
    for kind in ('line', 'shell', 'fan', 'cross', 'tets'):
        job('particles', 5, kind=kind, N=3)
    return out
