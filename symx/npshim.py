"""A numpy whose floating-point and integer arrays hold symbolic values.

`make()` returns a module object that delegates to the real numpy, except that numeric
element types become Python objects (so that an element can be a symbolic term), that
records of structured arrays are views with numpy's assignment rules (a size-1 array
assigned to a scalar slot stores its element), that random numbers are unconstrained
symbolic inputs, and that sqrt/exp/... of a symbolic value are solver terms.
"""
import types, math
import numpy as np
from . import engine as E

NUMERIC = (float, int)


class _Marker(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) or isinstance(o, cls._sym)

    def __call__(cls, v=0):
        if isinstance(v, (E.SymReal, E.SymInt)):
            return v
        return cls._py(v)


def marker(name, real, sym, py):
    return _Marker(name, (), {'_real': real, '_sym': sym, '_py': staticmethod(py)})


FLOATS = {n: marker(n, getattr(np, n), E.SymReal, float) for n in ('float64', 'float32', 'double', 'longdouble') if hasattr(np, n)}
INTS = {n: marker(n, getattr(np, n), E.SymInt, int) for n in
        ('int32', 'int64', 'intc', 'uint32', 'uint64', 'int16', 'int8', 'uint8', 'uintp', 'intp', 'uint16') if hasattr(np, n)}
MARKERS = tuple(FLOATS.values()) + tuple(INTS.values())


OF = np.dtype(object, metadata={'k': 'f'})
OI = np.dtype(object, metadata={'k': 'i'})


def kind(dt):
    return (dt.metadata or {}).get('k') if isinstance(dt, np.dtype) else None


def tr(d):
    """Translate a dtype specification: numeric types become object (tagged float or integer)."""
    if d is None:
        return None
    if isinstance(d, _Marker):
        return OF if d in FLOATS.values() else OI
    if isinstance(d, type) and d == float:
        return OF
    if d is int:
        return OI
    if isinstance(d, np.dtype):
        if d.names is not None:
            return np.dtype([(n, tr(d.fields[n][0])) for n in d.names])
        if d.kind in 'iu':
            return OI
        if d.kind == 'f':
            return OF
        return d
    if isinstance(d, type) and issubclass(d, np.number):
        return OI if issubclass(d, np.integer) else OF
    if isinstance(d, dict):
        return np.dtype([(n, tr(f)) for n, f in zip(d['names'], d['formats'])])
    if isinstance(d, (list, tuple)) and d and isinstance(d[0], (list, tuple)):
        return np.dtype([(f[0], tr(f[1])) + tuple(f[2:]) for f in d])
    return tr(np.dtype(d))


def clean(v, dt=None):
    """Value stored in one scalar slot of type dt."""
    if isinstance(v, np.ndarray):
        if v.dtype.names is None and v.size == 1:
            v = v.reshape(-1).view(np.ndarray)[0]
        else:
            raise ValueError("setting an array element with a sequence.")
    if isinstance(v, (list, tuple, Record)):
        raise ValueError("setting an array element with a sequence.")
    if isinstance(v, np.generic) and not isinstance(v, np.void):
        v = v.item()
    if dt is not None:
        k = kind(dt)
        if k == 'i':
            if isinstance(v, E.SymReal):
                v = E.SymInt(E.z3.simplify(E.z3.If(v.t >= 0, E.z3.ToInt(v.t), -E.z3.ToInt(-v.t))))
            elif isinstance(v, (float, E.Fraction, bool)):
                v = int(v)
            elif v is None:
                raise TypeError("int() argument must be a number, not 'NoneType'")
        elif k == 'f':
            if isinstance(v, E.SymInt):
                v = E.SymReal(E.rv(v))
            elif isinstance(v, E.Fraction):
                v = E.SymReal(E.rv(v))
            elif isinstance(v, (int, bool)):
                v = float(v)
            elif v is None:
                raise TypeError("float() argument must be a number, not 'NoneType'")
    return v


def coerce(v, dt):
    """Array (or nested sequence) of values converted for a slot type."""
    k = kind(dt)
    if k is None:
        return v
    a = np.asarray(v, dtype=object)
    if a.dtype.names is not None:
        return v
    o = np.empty(a.shape, dtype=object)
    of, af = o.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = clean(af[i], dt)
    return o


class Record:
    """View of one record of a structured array (the np.void of real numpy)."""
    __slots__ = ('_a', '_i')

    def __init__(self, a, i):
        object.__setattr__(self, '_a', a)
        object.__setattr__(self, '_i', i)

    @property
    def dtype(self):
        return self._a.dtype

    def _name(self, k):
        if isinstance(k, (int, np.integer, E.SymInt)):
            return self._a.dtype.names[int(k)]
        return k

    def __getitem__(self, k):
        if isinstance(k, (list, slice)):
            raise IndexError("only integers and field names are valid indices of a record")
        return self._a[self._name(k)].view(np.ndarray)[self._i]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            raise IndexError("a record cannot be assigned by slice")
        n = self._name(k)
        self._a.view(np.ndarray)[n][self._i] = clean(v, self._a.dtype[n])

    def __len__(self):
        return len(self._a.dtype.names)

    def __iter__(self):
        for n in self._a.dtype.names:
            yield self[n]

    def item(self):
        return tuple(self)

    tolist = item

    def copy(self):
        b = SymArr.new(np.empty(1, dtype=self._a.dtype))
        b[0] = self
        return Record(b, 0)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __eq__(self, o):
        return all(bool(x == y) for x, y in zip(self, o))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return 'Record%r' % (tuple(self),)


class SymArr(np.ndarray):
    """ndarray of objects / records of objects."""

    @staticmethod
    def new(a):
        return np.asarray(a).view(SymArr)

    def __getitem__(self, k):
        k = _idx(k)
        if self.dtype.names is not None and isinstance(k, (int, np.integer)) and self.ndim == 1:
            n = self.shape[0]
            if not -n <= k < n:
                raise IndexError("index %d is out of bounds for axis 0 with size %d" % (k, n))
            return Record(self, int(k))
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        k = _idx(k)
        if self.dtype.names is not None and isinstance(k, (int, np.integer)):
            n = self.shape[0]
            if not -n <= k < n:
                raise IndexError("index %d is out of bounds for axis 0 with size %d" % (k, n))
            base = self.view(np.ndarray)
            if isinstance(v, np.ndarray) and v.dtype.names is not None and v.size == 1:
                v = SymArr.new(v)[0]
            if isinstance(v, Record):
                if len(v) != len(self.dtype.names):
                    raise ValueError("record sizes differ")
                vals = tuple(v)
            elif isinstance(v, tuple):
                if len(v) != len(self.dtype.names):
                    raise ValueError("could not assign tuple of length %d to structure with %d fields." % (len(v), len(self.dtype.names)))
                vals = v
            elif isinstance(v, (np.ndarray, list)):
                # real numpy broadcasts an unstructured value to every field
                vv = clean(np.asarray(v, dtype=object))
                vals = (vv,) * len(self.dtype.names)
            else:
                vals = (v,) * len(self.dtype.names)
            for nm, x in zip(self.dtype.names, vals):
                base[nm][k] = clean(x, self.dtype[nm])
            return
        if self.dtype.names is None and self.dtype == object:
            scalar = isinstance(k, (int, np.integer)) and self.ndim == 1 or \
                isinstance(k, tuple) and len(k) == self.ndim and all(isinstance(q, (int, np.integer)) for q in k)
            if scalar:
                self.view(np.ndarray)[k] = clean(v, self.dtype if self._k is None else self._k)
                return
            if not isinstance(v, Record):
                v = coerce(v, self.dtype if self._k is None else self._k)
        if isinstance(k, str) and self.dtype.names is not None and not isinstance(v, Record):
            v = coerce(v, self.dtype[k])
        if isinstance(v, Record):
            t = SymArr.new(np.empty(1, dtype=v.dtype))
            t[0] = v
            v = t
        np.ndarray.__setitem__(self, k, v)

    _k = None            # element kind set by assigning to .dtype (buffer reuse)

    @property
    def dtype(self):
        return np.ndarray.dtype.__get__(self)

    @dtype.setter
    def dtype(self, d):
        t = tr(d)
        if self.dtype.names is None and kind(t) is not None and self.dtype == object:
            self._k = t
        else:
            np.ndarray.dtype.__set__(self, t)

    def __array_finalize__(self, o):
        k = getattr(o, '_k', None)
        if k is not None:
            self._k = k

    def __array_wrap__(self, a, context=None, return_scalar=False):
        if a.ndim == 0 and return_scalar:
            return a[()]
        return a if a is self else a.view(SymArr)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def sum(self, *a, **kw):
        kw.pop('dtype', None)
        return np.ndarray.sum(self, *a, **kw)

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def astype(self, d, *a, **kw):
        return np.ndarray.astype(self, tr(d), *a, **kw)


def _idx(k):
    if isinstance(k, E.SymInt):
        return int(k)
    if isinstance(k, slice):
        return slice(*[int(q) if isinstance(q, E.SymInt) else q for q in (k.start, k.stop, k.step)])
    if isinstance(k, tuple):
        return tuple(_idx(q) for q in k)
    if isinstance(k, np.ndarray) and k.dtype == object:
        return np.array([int(q) for q in k.reshape(-1)], dtype=int).reshape(k.shape)
    if isinstance(k, list):
        return [int(q) if isinstance(q, E.SymInt) else q for q in k]
    return k


def wrap(a):
    """Numeric result of real numpy -> SymArr of objects."""
    if isinstance(a, np.ndarray) and not isinstance(a, SymArr):
        if a.dtype.kind in 'fiu':
            o = np.empty(a.shape, dtype=object)
            o[...] = a.tolist() if a.shape else a.item()
            a = o
        return a.view(SymArr)
    return a


def _sym(x):
    if isinstance(x, (E.SymReal, E.SymInt)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def make():
    m = types.ModuleType('numpy')
    m.__file__ = np.__file__
    m.__path__ = []

    def __getattr__(n):
        return getattr(np, n)
    m.__getattr__ = __getattr__
    m.ndarray = SymArr
    for n, c in list(FLOATS.items()) + list(INTS.items()):
        setattr(m, n, c)

    def dtype(d, *a, **kw):
        return tr(d)
    m.dtype = dtype
    m.floating = np.floating
    m.integer = np.integer

    def issubdtype(a, b):
        if isinstance(a, _Marker):
            a = tr(a)
        k = kind(a)
        if isinstance(b, _Marker):
            b = b._real
        if k == 'f':
            return issubclass(np.float64, b) if isinstance(b, type) else False
        if k == 'i':
            return issubclass(np.int64, b) if isinstance(b, type) else False
        return np.issubdtype(a, b)
    m.issubdtype = issubdtype

    def empty(shape, dtype=float, *a, **kw):
        return SymArr.new(np.empty(_idx(shape) if not isinstance(shape, list) else shape, dtype=tr(dtype)))

    def zeros(shape, dtype=float, *a, **kw):
        r = np.empty(_idx(shape), dtype=tr(dtype))
        if r.dtype.names is not None:
            for n in r.dtype.names:
                if r.dtype[n] == object:
                    r[n] = 0
        elif r.dtype == object:
            r[...] = 0
        else:
            r[...] = 0
        return SymArr.new(r)

    def ones(shape, dtype=float, *a, **kw):
        r = np.empty(_idx(shape), dtype=tr(dtype))
        r[...] = 1
        return SymArr.new(r)

    def full(shape, v, dtype=None, *a, **kw):
        r = np.empty(_idx(shape), dtype=tr(dtype) or object)
        r[...] = v
        return SymArr.new(r)

    def array(o, dtype=None, copy=True, *a, **kw):
        if isinstance(o, np.ndarray):
            r = np.array(o, dtype=tr(dtype) or None, copy=copy)
            return wrap(r)
        if dtype is not None and tr(dtype).names is not None:
            o = list(o)
            r = SymArr.new(np.empty(len(o), dtype=tr(dtype)))
            for i, x in enumerate(o):
                r[i] = x
            return r
        probe = np.array(o, dtype=object)
        flat = probe.reshape(-1)
        if all(E.is_num(x) or isinstance(x, (E.SymReal, E.SymInt, E.SymBool)) for x in flat):
            return SymArr.new(probe)
        return np.array(o, dtype=tr(dtype)) if dtype is not None else np.array(o)

    def asarray(o, dtype=None, *a, **kw):
        if isinstance(o, np.ndarray):
            return wrap(o)
        return array(o, dtype)

    m.empty, m.zeros, m.ones, m.full, m.array, m.asarray = empty, zeros, ones, full, array, asarray
    m.empty_like = lambda o, dtype=None, **kw: empty(o.shape, dtype or o.dtype)
    m.zeros_like = lambda o, dtype=None, **kw: zeros(o.shape, dtype or o.dtype)
    m.ones_like = lambda o, dtype=None, **kw: ones(o.shape, dtype or o.dtype)
    m.copy = lambda o, **kw: wrap(np.array(o))
    m.arange = lambda *a, **kw: wrap(np.arange(*[_idx(x) for x in a]))
    m.ascontiguousarray = asarray

    def unary(name):
        real = getattr(np, name)

        def f(x, *a, **kw):
            if isinstance(x, (E.SymReal, E.SymInt)):
                return getattr(x, name)()
            if isinstance(x, np.ndarray) and x.dtype == object:
                return SymArr.new(np.array([f(q) for q in x.reshape(-1)], dtype=object).reshape(x.shape))
            return real(x, *a, **kw)
        return f
    for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'floor', 'ceil', 'fabs', 'rint', 'trunc'):
        setattr(m, n, unary(n))
    m.fix = m.trunc

    def rounded(x, decimals=0, **kw):
        if decimals:
            raise E.Unsupported("rounding to decimals")
        return m.rint(x)
    m.round = m.around = m.round_ = rounded

    def binary(name):
        real = getattr(np, name)

        def f(x, y, *a, **kw):
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) or isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
                x, y = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
                return SymArr.new(np.array([f(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1))] + [None], dtype=object)[:-1].reshape(x.shape))
            if isinstance(x, (E.SymReal, E.SymInt)) or isinstance(y, (E.SymReal, E.SymInt)):
                return getattr(x if isinstance(x, (E.SymReal, E.SymInt)) else E.SymReal(E.rv(x)), name)(y)
            return real(x, y, *a, **kw)
        return f
    m.hypot, m.fmod = binary('hypot'), binary('fmod')

    def never(x, *a, **kw):
        if isinstance(x, (E.SymReal, E.SymInt)):
            return False
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([not isinstance(q, (E.SymReal, E.SymInt)) and math.isnan(q) for q in x.reshape(-1)], dtype=bool).reshape(x.shape)
        return np.isnan(x)
    m.isnan = never

    def isinf(x, *a, **kw):
        if isinstance(x, (E.SymReal, E.SymInt)):
            return False
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([not isinstance(q, (E.SymReal, E.SymInt)) and math.isinf(q) for q in x.reshape(-1)], dtype=bool).reshape(x.shape)
        return np.isinf(x)
    m.isinf = isinf
    m.isscalar = lambda x: isinstance(x, (E.SymReal, E.SymInt)) or np.isscalar(x)

    def bincount(x, weights=None, minlength=0):
        x = [int(q) for q in x]
        r = [0] * max([minlength] + [q + 1 for q in x])
        for i, q in enumerate(x):
            r[q] = r[q] + (1 if weights is None else weights[i])
        return SymArr.new(np.array(r + [None], dtype=object)[:-1])
    m.bincount = bincount

    def isfinite(x):
        return True if _sym(x) and not isinstance(x, np.ndarray) else (np.ones(x.shape, bool) if isinstance(x, np.ndarray) and x.dtype == object else np.isfinite(x))
    m.isfinite = isfinite

    def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
        return abs(a - b) <= atol + rtol * abs(b)
    m.isclose = isclose
    m.allclose = lambda a, b, rtol=1e-5, atol=1e-8, **kw: all(bool(isclose(x, y, rtol, atol)) for x, y in zip(np.ravel(a), np.ravel(b)))

    def sign(x):
        if isinstance(x, np.ndarray):
            return SymArr.new(np.array([sign(q) for q in x.reshape(-1)] + [None], dtype=object)[:-1].reshape(x.shape))
        return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)
    m.sign = sign
    m.square = lambda x: x * x

    def dot(a, b, *r, **kw):
        return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    m.dot = dot
    m.inner = dot
    m.vdot = dot

    def np_sum(a, *r, **kw):
        kw.pop('dtype', None)
        return np.sum(a, *r, **kw)
    m.sum = np_sum

    lin = types.ModuleType('numpy.linalg')

    def norm(x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2) or keepdims:
            raise E.Unsupported("norm of another order")
        if axis is not None:
            x = np.moveaxis(np.asarray(x, dtype=object), axis, -1)
            return SymArr.new(np.array([norm(r) for r in x.reshape(-1, x.shape[-1])] + [None], dtype=object)[:-1].reshape(x.shape[:-1]))
        v = list(np.ravel(np.asarray(x, dtype=object)))
        if any(isinstance(q, (E.SymReal, E.SymInt)) for q in v):
            return E.Norm(v)
        return math.sqrt(sum(q * q for q in v))
    lin.norm = norm

    def det(M):
        M = [list(r) for r in M]
        if len(M) == 1:
            return M[0][0]
        return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))
    lin.det = det

    def solve(M, b):
        M, b = [list(r) for r in M], np.asarray(b, dtype=object)
        d = det(M)
        if b.ndim == 2:
            return SymArr.new(np.stack([solve(M, b[:, j]) for j in range(b.shape[1])], axis=1))
        return SymArr.new(np.array([det([r[:j] + [b[i]] + r[j + 1:] for i, r in enumerate(M)]) / d for j in range(len(M))], dtype=object))
    lin.solve = solve
    lin.inv = lambda M: solve(M, np.array([[1 if i == j else 0 for j in range(len(M))] for i in range(len(M))], dtype=object))
    lin.__getattr__ = lambda n: getattr(np.linalg, n)
    m.linalg = lin

    rnd = types.ModuleType('numpy.random')

    def draws(base, lo, hi, size):
        e = E.current()

        def one():
            v = e.draw(base)
            if lo is not None:
                e.assume(v >= lo)
            if hi is not None:
                e.assume(v < hi)
            return v
        if size is None:
            return one()
        n = int(np.prod(size))
        return SymArr.new(np.array([one() for _ in range(n)] + [None], dtype=object)[:-1].reshape(size))

    rnd.seed = lambda *a, **kw: None
    rnd.set_state = lambda *a, **kw: None
    rnd.get_state = lambda *a, **kw: None
    rnd.rand = lambda *s: draws('rand', 0, 1, s if s else None)
    rnd.random = lambda size=None: draws('rand', 0, 1, size)
    rnd.random_sample = rnd.random
    rnd.uniform = lambda low=0.0, high=1.0, size=None: draws('uniform', low, high, size)
    rnd.ranf = rnd.sample = rnd.random
    rnd.default_rng = lambda *a: types.SimpleNamespace(uniform=rnd.uniform, normal=rnd.normal, random=rnd.random, standard_normal=rnd.standard_normal)
    rnd.RandomState = rnd.default_rng

    def normal(loc=0.0, scale=1.0, size=None):
        d = draws('gauss', None, None, size)
        return loc + scale * d
    rnd.normal = normal
    rnd.randn = lambda *s: draws('gauss', None, None, s if s else None)
    rnd.standard_normal = lambda size=None: draws('gauss', None, None, size)

    def _nornd(n):
        raise E.Unsupported("numpy.random.%s has no encoding" % n)
    rnd.__getattr__ = _nornd
    m.random = rnd
    return m


def make_math():
    m = types.ModuleType('math')
    m.__getattr__ = lambda n: getattr(math, n)

    def unary(name):
        real = getattr(math, name)

        def f(x):
            if isinstance(x, np.ndarray):
                x = clean(x)
            if isinstance(x, (E.SymReal, E.SymInt)):
                return getattr(x, name)()
            return real(x)
        return f
    for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'floor', 'ceil'):
        setattr(m, n, unary(n))
    m.fabs = abs
    m.isfinite = lambda x: True if isinstance(x, (E.SymReal, E.SymInt)) else math.isfinite(x)
    m.isnan = lambda x: False if isinstance(x, (E.SymReal, E.SymInt)) else math.isnan(x)
    m.isinf = lambda x: False if isinstance(x, (E.SymReal, E.SymInt)) else math.isinf(x)
    m.fsum = sum
    m.pow = lambda a, b: a ** b

    def prod(v, start=1):
        for q in v:
            start = start * q
        return start
    m.prod = prod
    m.dist = lambda p, q: m.sqrt(sum((a - b) * (a - b) for a, b in zip(p, q)))
    m.sumprod = lambda p, q: sum(a * b for a, b in zip(p, q))

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        d, x, y = abs(a - b), abs(a), abs(b)
        return bool(d <= abs_tol) or bool(d <= rel_tol * (x if x >= y else y))
    m.isclose = isclose

    def trunc(x):
        return int(x)
    m.trunc = trunc
    m.fmod = lambda a, b: a.fmod(b) if isinstance(a, (E.SymReal, E.SymInt)) else math.fmod(a, b)

    def copysign(a, b):
        return abs(a) if b >= 0 else -abs(a)
    m.copysign = copysign

    def hypot(*v):
        return m.sqrt(sum(q * q for q in v))
    m.hypot = hypot
    return m
