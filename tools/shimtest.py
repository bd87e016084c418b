#!/opt/veriftools/pyvenv/bin/python3
"""Compares the symbolic numpy with the real one on expressions over values the solver fixes.

Every expression is evaluated twice: with numpy and floats, and with the shim and symbolic
inputs constrained to those floats.  Tests the encoding, not the repository."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy
from symx import engine, npshim
EXPR = '''
np.maximum(a, b)
np.minimum(a, 1.5)
np.maximum(x, y)
np.fmax(x, y)
np.clip(a, -1, 1)
np.clip(x, 0, 1)
np.where(a > 0, a, b)
np.where(a > 0)[0]
np.concatenate((a, b))
np.concatenate([a[:1], b[1:]])
np.append(a, x)
np.vstack((a, b))
np.hstack((a, b))
np.stack((a, b))
np.column_stack((a, b))
np.cumsum(a)
np.argmin(a)
np.argmax(a)
a.argmin()
a.argmax()
a.min()
a.max()
np.min(a)
np.max(a)
np.amin(a)
min(a)
max(a)
np.mean(a)
a.mean()
np.any(a > 0)
np.all(a > 0)
(a > 0).any()
(a > 0).all()
np.count_nonzero(a > 0)
np.nonzero(a > 0)[0]
np.flatnonzero(a > 0)
np.argwhere(a > 0)
a[a > 0]
np.array_equal(a, b)
np.array_equal(a, a)
np.array_equiv(a, a)
a.copy()
a.tolist()
a[0].item()
np.sort(a)
np.argsort(a)
sorted(a)
np.linspace(0, 1, 3)
np.multiply(a, b)
np.add(a, b)
np.subtract(a, b)
np.divide(a, b)
np.true_divide(a, b)
np.negative(a)
np.absolute(a)
np.abs(a)
abs(a)
np.abs(x)
np.fabs(x)
np.fabs(a)
np.power(a, 2)
np.square(a)
np.sum(a * b)
np.prod(a)
a.prod()
a.sum()
sum(a)
a.dot(b)
a @ b
np.matmul(a, b)
np.dot(a, b)
np.inner(a, b)
np.vdot(a, b)
np.outer(a, b)
np.cross(a, b)
np.einsum('i,i', a, b)
np.einsum('i,i->', a, b)
np.tensordot(a, b, 1)
np.linalg.norm(a)
np.linalg.norm(a - b)
np.linalg.norm(M, axis=1)
np.linalg.det(M)
np.linalg.inv(M) @ M
np.linalg.solve(M, a)
np.sqrt(np.dot(a, a))
np.sqrt(x * x)
np.sqrt(a * a)
np.hypot(x, y)
np.hypot(a, b)
np.sign(x)
np.sign(a)
np.floor(x)
np.ceil(x)
np.trunc(x)
np.rint(x)
np.floor(a)
np.mod(x, 2.0)
np.fmod(x, 2.0)
x % 2.0
x // 2.0
np.logical_and(a > 0, b > 0)
np.logical_or(a > 0, b > 0)
np.logical_not(a > 0)
(a > 0) & (b > 0)
(a > 0) | (b > 0)
~(a > 0)
np.isnan(x)
np.isnan(a)
np.isinf(a)
np.isfinite(a)
np.isclose(a, b)
np.allclose(a, b)
np.allclose(a, a)
np.isscalar(x)
np.reshape(a, (3, 1))
a.reshape(1, 3)
np.ravel(M)
M.T
np.transpose(M)
M.sum(axis=0)
np.sum(M, axis=1)
M[:, 1]
M[1, :]
M[1][2]
M.shape
len(a)
a.size
a.ndim
np.size(a)
np.shape(M)
np.ndim(a)
a[::-1]
a[-1]
np.flip(a)
np.roll(a, 1)
np.repeat(a, 2)
np.tile(a, 2)
np.diff(a)
np.float64(x)
float(3)
np.zeros(3)
np.zeros(3, dtype=int)
np.zeros((2, 3))
np.zeros_like(a)
np.ones_like(a)
np.full(3, x)
np.full_like(a, 2.0)
np.empty_like(a).shape
np.identity(2)
np.eye(2)
np.arange(3)
np.arange(3, dtype=int)
np.array([x, y])
np.array((x, y), dtype=float)
np.asarray([x, y])
np.asfarray([x, y]) if hasattr(np, 'asfarray') and False else 0
np.atleast_1d(x)
np.squeeze(np.array([[x, y]]))
np.array([[x, y], [y, x]])
np.stack([a, b], axis=1)
np.isin(I, [1, 2])
np.in1d(I, [1, 2]) if hasattr(np, 'in1d') else 0
np.unique(I)
np.bincount(I, minlength=4)
np.searchsorted(I, 2)
I[I > 1]
I.max()
np.array([1, 2])[0] == 1
np.dtype(np.float64).itemsize if False else 0
a.fill(2.0)
F('c = a.copy(); c.fill(2.0); r = c')
F('c = a.copy(); c += b; r = c')
F('c = a.copy(); c *= x; r = c')
F('c = a.copy(); c -= 1; r = c')
F('c = a.copy(); c /= 2; r = c')
F('c = a.copy(); c[:] = 0; r = c')
F('c = a.copy(); c[1:] = b[1:]; r = c')
F('c = a.copy(); c[:2] += b[:2]; r = c')
F('c = a.copy(); np.add(a, b, out=c); r = c')
F('c = a.copy(); np.multiply(a, x, out=c); r = c')
F('c = a.copy(); np.copyto(c, b); r = c')
F('c = a.copy(); np.add.at(c, [0, 0, 1], 1.0); r = c')
F('c = a.copy(); c[[0, 2]] = b[[0, 2]]; r = c')
F('c = a.copy(); c[c > 0] = 0; r = c')
F('c = a.copy(); c[0], c[1] = c[1], c[0]; r = c')
F('c = [0.0] * 3; c[0] += x; r = c')
F('r = [i * j for i, j in zip(a, b)]')
F('r = {i: v for i, v in enumerate(a)}')
F('s = 0.0\\nfor v in a: s += v\\nr = s')
F('r = list(map(float, [1, 2]))')
F('import functools, operator; r = functools.reduce(operator.add, a)')
F('import operator; r = operator.mul(x, y)')
F('import itertools; r = list(itertools.chain(a, b))')
F('import itertools; r = list(itertools.accumulate(a))')
F('import math; r = math.sqrt(x * x + y * y)')
F('import math; r = math.hypot(x, y)')
F('import math; r = math.fabs(x)')
F('import math; r = math.fsum([x, y])')
F('import math; r = math.prod([x, y])')
F('import math; r = math.isclose(x, y)')
F('import math; r = math.floor(x)')
F('import math; r = math.trunc(x)')
F('import math; r = math.dist([x, y], [y, x])')
F('import math; r = math.copysign(x, y)')
F('import math; r = math.fmod(x, 2.0)')
F('import math; r = math.sumprod([x, y], [y, x])')
F('r = divmod(x, 2.0)')
F('r = x ** 2')
F('r = x ** 3')
F('r = x ** 0.5 if False else (x * x) ** 0.5')
F('r = pow(x, 2)')
F('r = round(x)')
F('r = int(x)')
F('r = -x')
F('r = +x')
F('r = abs(x)')
F('r = x if x > y else y')
F('r = 0.0 < x < 3.0')
F('r = bool(x)')
F('r = not x')
F('r = x == y')
F('r = x in (y, x)')
F('r = sum(v * w for v, w in zip(a, b))')
F('r = any(v > 0 for v in a)')
F('r = all(v > 0 for v in a)')
F('r = min(x, y, 0.25)')
F('r = max([x, y])')
F('r = min(range(3), key=lambda i: a[i])')
F('r = sorted([x, y, 0.1])[0]')
F('r = tuple(a)')
F('r = a.flatten()')
F('r = a.ravel()')
F('r = np.ascontiguousarray(a)')
F('r = np.ndarray.copy(a)')
F('r = a.astype(float)')
F('r = a.astype(np.float64)')
F('r = I.astype(float)')
F('r = I.astype(int)')
F('r = np.float64(0.5) * x')
F('r = x * np.float64(0.5)')
F('r = np.int32(2) * x')
F('r = a * np.float64(0.5)')
F('r = np.array([1.0, 2.0, 3.0]) * x')
F('r = x * np.array([1.0, 2.0, 3.0])')
F('r = x / np.array([1.0, 2.0, 4.0])')
F('r = x - np.array([1.0, 2.0, 4.0])')
F('r = R[0]["x"]')
F('r = R["x"]')
F('r = R["x"][:2]')
F('r = R[:2]["x"]')
F('r = R[1:]["x"]')
F('r = R["x"].sum()')
F('r = np.sum(R["x"])')
F('r = np.dot(R["x"], R["y"])')
F('r = np.sum(R["x"] ** 2)')
F('r = R[0].tolist()')
F('r = R[0].item()')
F('r = list(R[0])')
F('r = tuple(R[0])')
F('r = R[0][0]')
F('r = R[0][-1]')
F('r = R[1].dtype.names')
F('r = R.dtype.names')
F('r = R.copy()[0]["x"]')
F('r = len(R[0])')
F('r = R.size')
F('r = R.shape[0]')
F('Q = R.copy(); Q[0] = Q[1]; r = list(Q[0])')
F('Q = R.copy(); Q[0] = R[1].copy(); Q[0]["x"] = 5.0; r = [list(Q[0]), list(R[1])]')
F('Q = R.copy(); t = Q[0]; t["x"] = 9.0; r = list(Q[0])')
F('Q = R.copy(); Q[0:2] = R[1:3]; r = [list(q) for q in Q]')
F('Q = R.copy(); Q["x"] = 0.0; r = [list(q) for q in Q]')
F('Q = R.copy(); Q["x"] += R["y"]; r = [list(q) for q in Q]')
F('Q = R.copy(); Q["x"][:2] = R["y"][1:]; r = [list(q) for q in Q]')
F('Q = R.copy(); Q[:2]["x"] = R[1:]["y"]; r = [list(q) for q in Q]')
F('Q = R.copy(); Q[0]["x"] += 1; r = [list(q) for q in Q]')
F('Q = R.copy(); Q["x"][0] += 1; r = [list(q) for q in Q]')
F('Q = np.empty_like(R); Q[:] = R; r = [list(q) for q in Q]')
F('Q = np.zeros(2, dtype=R.dtype); r = [list(q) for q in Q]')
F('Q = np.concatenate((R[:1], R[2:])); r = [list(q) for q in Q]')
F('Q = np.array([(x, y, 1)], dtype=R.dtype); r = list(Q[0])')
F('r = R["n"] == 2')
F('r = R[R["n"] == 2]["x"]')
F('r = R["n"] & 1')
F('r = (R["n"] & 1) == 0')
F('r = np.count_nonzero(R["n"] & 1)')
F('Q = R.copy(); Q["n"] |= 4; r = Q["n"]')
F('Q = R.copy(); Q[0]["n"] ^= 1; r = Q["n"]')
F('r = int(R[0]["n"])')
F('r = [int(v) for v in R["n"]]')
F('r = R["n"].tolist()')
F('r = R["n"].max()')
F('r = np.unique(R["n"])')
F('r = R[["x", "y"]][0][0]')
F('r = [R[0][c] for c in ("x", "y")]')
F('r = [rec["x"] for rec in R]')
F('for rec in R: rec["x"] = 1.0\\nr = [q["x"] for q in R]')
F('Q = R.copy()\\nfor rec in Q: rec["x"] *= 2\\nr = Q["x"]')
F('r = np.array([R[0]["x"], R[0]["y"]])')
F('r = np.fromiter((R[0][c] for c in ("x", "y")), dtype=float)')
F('r = np.array([R[0][c] for c in ("x", "y")]) * x')
F('Q = R.copy(); Q[1:] = Q[:-1].copy(); r = [list(q) for q in Q]')
F('Q = R.copy(); Q.resize(5) if False else None; r = 0')
F('Q = np.resize(R, 2); r = [list(q) for q in Q]')
F('Q = np.delete(R, 1); r = [list(q) for q in Q]')
F('Q = np.take(a, [0, 2]); r = Q')
F('Q = R.take([0, 2]); r = [list(q) for q in Q]')
F('Q = np.insert(a, 1, x); r = Q')
F('import copy; r = list(copy.copy(R[0]))')
F('import copy; r = list(copy.deepcopy(R[0]))')
F('import copy; r = copy.deepcopy(a)')
'''.strip().splitlines()
VALS = dict(x=1.75, y=-0.5)
A, B, MM = [1.25, -2.0, 0.75], [0.5, 3.0, -1.0], [[2.0, 1.0, 0.0], [0.0, 1.5, 1.0], [1.0, 0.0, 1.0]]
RR = [(1.0, 2.5, 1), (-3.0, 0.25, 2), (0.5, 4.0, 3)]


def plain(v):
    if isinstance(v, numpy.generic) and not isinstance(v, numpy.void):
        v = v.item()
    if isinstance(v, engine.SymBool):
        return bool(v)
    if isinstance(v, engine.SymInt):
        return int(v)
    if isinstance(v, (engine.SymReal,)) or type(v).__name__ == 'Norm':
        t = v.t if hasattr(v, 't') else v
        e = engine.current()
        e._query()
        m = e.model()
        return engine._mval(m.eval(engine.rv(v) if not hasattr(v, 't') else v.t, model_completion=True))
    if isinstance(v, numpy.ndarray):
        return plain(list(v.tolist() if v.dtype.kind != 'O' else list(v)))
    if isinstance(v, (list, tuple)) or type(v).__name__ == 'Record':
        return [plain(q) for q in v]
    if isinstance(v, dict):
        return {k: plain(q) for k, q in v.items()}
    return v


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[q], b[q]) for q in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-7 or (a != a and b != b)
    return a == b


def env(np, v, arr, imp):
    ns = dict(np=np, x=v['x'], y=v['y'], a=arr([v['a%d' % i] for i in range(3)]), b=arr([v['b%d' % i] for i in range(3)]),
              M=arr([[v['m%d%d' % (i, j)] for j in range(3)] for i in range(3)]), I=np.array([3, 1, 2]))
    R = np.empty(3, dtype={'names': ['x', 'y', 'n'], 'formats': [np.float64, np.float64, np.int32]})
    for i in range(3):
        R[i] = (v['r%d0' % i], v['r%d1' % i], v['r%d2' % i])
    ns['R'] = R

    def F(code):
        n2 = dict(ns)
        n2['__builtins__'] = imp
        exec(code, n2)
        return n2['r']
    ns['F'] = F
    ns['__builtins__'] = imp
    return ns


def main():
    import builtins, warnings
    warnings.simplefilter('ignore')
    from symx import loader
    shim, smath = npshim.make(), npshim.make_math()
    only = sys.argv[1] if len(sys.argv) > 1 else ''
    bad = 0
    for ex in EXPR:
        if only not in ex:
            continue
        vals = dict(VALS)
        vals.update({'a%d' % i: q for i, q in enumerate(A)})
        vals.update({'b%d' % i: q for i, q in enumerate(B)})
        vals.update({'m%d%d' % (i, j): MM[i][j] for i in range(3) for j in range(3)})
        vals.update({'r%d%d' % (i, j): RR[i][j] for i in range(3) for j in range(3)})
        try:
            want = plain(eval(ex, env(numpy, vals, numpy.array, builtins.__dict__)))
        except Exception as x:
            want = 'raises ' + type(x).__name__
            print('REAL', ex, want, x)
        got = []

        def h(e):
            sv = {}
            for n, q in vals.items():
                if isinstance(q, int):
                    sv[n] = e.int(n, q, q)
                else:
                    sv[n] = e.real(n)
                    e.assume(sv[n] == q)
            b = dict(builtins.__dict__)
            b.update(loader.safe_builtins() if hasattr(loader, 'safe_builtins') else {})

            def imp(name, *a):
                if name == 'math':
                    return smath
                if name == 'numpy':
                    return shim
                return builtins.__import__(name, *a)
            b['__import__'] = imp
            try:
                got.append(plain(eval(ex, env(shim, sv, shim.array, b))))
            except engine.EngineStop as x:
                got.append('%s: %s' % (type(x).__name__, x))
                raise
        e = engine.Engine(timeout_ms=5000)
        st = e.explore(h)
        r = got[-1] if got else 'raised ' + str([v['msg'] for v in st.violations])[:200]
        if not same(r, want):
            bad += 1
            print('DIFF %-60s want %s got %s %s' % (ex, want, r, st.unknown[:1]))
    print('%d expressions, %d differ' % (len(EXPR), bad))


main()
