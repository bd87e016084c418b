#!/opt/veriftools/pyvenv/bin/python3
"""Compares the dolfin of the encoding with the real one, on concrete meshes.

Every expression is evaluated with both; only numbering-independent values are compared.
Tests the encoding, not the repository."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETUP = '''
I = d.IntervalMesh(3, 0.0, 1.5)
R = d.RectangleMesh(d.Point(0, 0), d.Point(2, 1), 2, 1)
B = d.BoxMesh(d.Point(0, 0, 0), d.Point(1, 2, 1), 1, 1, 1)
def field(V, k=1.0):
    f = d.Function(V)
    x = V.tabulate_dof_coordinates()
    for i in range(len(x)):
        f.vector()[i] = k + 2 * x[i][0] + (3 * x[i][1] if len(x[i]) > 1 else 0) 
    return f
CR, CI, DR = d.FunctionSpace(R, 'CG', 1), d.FunctionSpace(I, 'CG', 1), d.FunctionSpace(R, 'DG', 0)
fR, fI, fD = field(CR), field(CI), field(DR)
gR = field(CR, 4.0)
ends = d.MeshFunction('size_t', I, 0)
ends.set_all(0)
ends[0] = 1
ends[3] = 2
def poisson(way):
    u, v = d.TrialFunction(CI), d.TestFunction(CI)
    a, L = d.inner(d.grad(u), d.grad(v)) * d.dx, d.Constant(2.0) * v * d.dx
    bcs = [d.DirichletBC(CI, d.Constant(1.0), ends, 1), d.DirichletBC(CI, d.Constant(0.5), ends, 2)]
    s = d.Function(CI)
    if way == 0:
        A, b = d.assemble(a), d.assemble(L)
        for q in bcs:
            q.apply(A, b)
        d.solve(A, s.vector(), b)
    elif way == 1:
        A, b = d.assemble_system(a, L, bcs)
        d.LUSolver(A).solve(s.vector(), b)
    elif way == 2:
        d.solve(a == L, s, bcs)
    else:
        A = d.assemble(a)
        b = d.assemble(L)
        d.assemble(a, tensor=A)
        d.assemble(L, tensor=b)
        [q.apply(A) for q in bcs]
        [q.apply(b) for q in bcs]
        r = A * s.vector()
        d.solve(A, s.vector(), b)
    return s.compute_vertex_values(I)
def axpy(f, c, g):
    f = f.copy(deepcopy=True)
    f.vector().axpy(c, g.vector())
    return f
def scaled(f, c):
    f = f.copy(deepcopy=True)
    v = f.vector()
    v *= c
    return f
def plus(f, g):
    f = f.copy(deepcopy=True)
    f.vector()[:] += g.vector()
    return f
def added(f, g):
    f = f.copy(deepcopy=True)
    f.vector().add_local(g.vector().get_local())
    f.vector().apply('add')
    return f
def assigned(f, g):
    h = d.Function(f.function_space())
    h.assign(g)
    return h
def marked():
    m = d.MeshFunction('size_t', R, 1, 0)
    m.array()[2] = 5
    m.set_values([int(q) + 1 for q in m.array()])
    return sorted(m.array()), m.where_equal(6), len(m), m.size(), m.dim()
def sides(code, **k):
    m = d.MeshFunction('size_t', R, 1, 0)
    (d.CompiledSubDomain(code, **k) if isinstance(code, str) else d.AutoSubDomain(code)).mark(m, 3)
    return sorted(list(f.midpoint().array()) for f in d.facets(R) if m[f] == 3)
'''
EXPR = '''
(d.Point(1, 2) * 2).array()
(d.Point(1, 2) / 2).array()
d.Point(1, 2, 3).dot(d.Point(2, 2, 2))
d.Point(1, 2).distance(d.Point(4, 6))
[c.h() for c in d.cells(R)]
[c.h() for c in d.cells(B)]
[c.inradius() for c in d.cells(R)]
[c.inradius() for c in d.cells(B)]
[c.circumradius() for c in d.cells(B)]
[c.inradius() for c in d.cells(I)]
[c.circumradius() for c in d.cells(I)]
[c.h() for c in d.cells(I)]
[c.volume() for c in d.cells(B)]
[[c.facet_area(i) for i in range(4)] for c in d.cells(B)]
[[c.facet_area(i) for i in range(3)] for c in d.cells(R)]
[c.normal(1).array() for c in d.cells(R)]
[c.collides(d.Point(0.4, 0.3)) for c in d.cells(R)]
[[int(q) for q in c.entities(0)] for c in d.cells(B)]
[[sorted(int(v) for v in d.Facet(B, int(q)).entities(0)) for q in c.entities(2)] for c in (B.init(2), list(d.cells(B)))[1]]
[[sorted(int(v) for v in d.Facet(R, int(q)).entities(0)) for q in c.entities(1)] for c in (R.init(1), list(d.cells(R)))[1]]
[[sorted(int(v) for v in d.MeshEntity(B, 1, int(q)).entities(0)) for q in c.entities(1)] for c in (B.init(1), list(d.cells(B)))[1]]
(B.init(1), B.num_edges())[1]
(B.init(2), B.num_faces())[1]
(B.init(3, 1), B.num_entities(1))[1]
(B.init(2, 3), sorted(sorted(int(q) for q in f.entities(3)) for f in d.facets(B)))[1]
(R.init(0, 2), [sorted(int(q) for q in v.entities(2)) for v in d.vertices(R)])[1]
(R.init(0, 1), [len(v.entities(1)) for v in d.vertices(R)])[1]
(R.init(1, 2), sorted(sorted(int(q) for q in R.topology()(1, 2)(f.index())) for f in d.facets(R)))[1]
(R.init(2, 1), [len(R.topology()(2, 1)(c.index())) for c in d.cells(R)])[1]
sorted(f.exterior() for f in (R.init(1, 2), list(d.facets(R)))[1])
sorted(list(f.midpoint().array()) for f in d.facets(R))
R.topology().size(0), R.topology().size(2), R.geometry().dim(), R.topology().dim()
R.geometric_dimension(), R.num_cells(), R.num_vertices()
R.hmax(), R.hmin(), R.rmax(), R.rmin()
marked()
CR.dim(), DR.dim(), CR.dofmap().global_dimension()
sorted(int(q) for q in CR.dofmap().dofs())
CR.element().space_dimension(), DR.element().space_dimension()
len(fR.vector()), fR.vector().size(), fR.vector().local_size()
fR.vector().sum(), fR.vector().max(), fR.vector().min()
fR.vector().norm('l2')
fR.vector().norm('linf')
fR.vector().inner(gR.vector())
fR.compute_vertex_values(R)
fI.compute_vertex_values()
fR(0.3, 0.2), fR((0.3, 0.2)), fR(d.Point(0.3, 0.2))
fD(0.3, 0.2)
axpy(fR, 2.5, gR).compute_vertex_values(R)
scaled(fR, -2.0).compute_vertex_values(R)
plus(fR, gR).compute_vertex_values(R)
added(fR, gR).compute_vertex_values(R)
assigned(fR, gR).compute_vertex_values(R)
fR.function_space().num_sub_spaces(), d.VectorFunctionSpace(R, 'DG', 0).num_sub_spaces()
fR.value_rank(), fR.geometric_dimension()
d.assemble(fR * d.dx)
d.assemble(d.inner(d.grad(fR), d.grad(gR)) * d.dx)
d.project(d.grad(fR), d.VectorFunctionSpace(R, 'DG', 0))(0.3, 0.2)
sides('near(x[0], 2) && on_boundary')
sides('near(x[0], a) || (!on_boundary && x[1] > -1)', a=0.0)
sides('fabs(x[1] - 1.0) < 1e-10')
sides(lambda x, on_boundary: on_boundary and d.near(x[1], 0))
sides(lambda x: d.between(x[0], (0, 1)))
[d.near(1.0, 1.1), d.near(1.0, 1.1, 0.2), d.between(1.0, (0.0, 1.0)), d.between(3, (0, 1))]
[len(list(d.edges(R))), len(list(d.faces(B))), len(list(d.entities(R, 1))), len(list(d.entities(I, 0)))]
d.assemble(d.Expression('2.0*x[0] + a', degree=1, a=3.0) * fR * d.dx)
(lambda m: [m.num_cells(), m.num_vertices(), m.hmax()])(d.UnitSquareMesh(2, 2))
(lambda m: [m.num_cells(), m.num_vertices(), m.hmax()])(d.UnitCubeMesh(1, 1, 1))
poisson(0)
poisson(1)
poisson(2)
poisson(3)
'''


def norm(v):
    if isinstance(v, (list, tuple)) or type(v).__name__ in ('ndarray', 'SymArr', 'Vector'):
        return [norm(q) for q in v]
    if isinstance(v, (bool, str)) or v is None:
        return v
    t = type(v).__name__
    if t == 'SymReal':
        from symx import engine
        e = engine.current()
        e._query()
        return float(engine._mval(e.model().eval(engine.rv(v), model_completion=True)))
    if t == 'SymBool' or t == 'bool_':
        return bool(v)
    return float(v)


def run(d):
    ns = {'d': d}
    exec(SETUP, ns)
    res = {}
    for e in EXPR.strip().splitlines():
        try:
            res[e] = norm(eval(e, ns))
        except Exception as x:
            res[e] = 'raised %s: %s' % (type(x).__name__, str(x).strip().splitlines()[0][:80] if str(x) else '')
    return res


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9
    return a == b


if __name__ == '__main__':
    if sys.argv[1:] == ['real']:
        import dolfin
        dolfin.set_log_level(50)
        out = run(dolfin)
        print('@@' + json.dumps(out))
        sys.exit()
    sys.path.insert(0, HERE)
    r = subprocess.run(['/opt/venv/bin/python', os.path.abspath(__file__), 'real'], capture_output=True, text=True)
    real = json.loads([l for l in r.stdout.splitlines() if l.startswith('@@')][-1][2:])
    from symx import engine, dolfinstub
    box = {}

    def go(e):
        box['r'] = run(dolfinstub.make())
    st = engine.Engine(timeout_ms=5000).explore(go)
    if 'r' not in box:
        print([v['msg'] for v in st.violations], st.unknown)
        sys.exit(2)
    bad = 0
    for e in real:
        if not same(real[e], box['r'][e]):
            bad += 1
            print(e, '\n   real', str(real[e])[:200], '\n   stub', str(box['r'][e])[:200])
    print('%d expressions, %d different' % (len(real), bad))
    sys.exit(bad > 0)
