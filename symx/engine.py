"""Symbolic execution engine.

The code under test is ordinary Python (or C++ compiled so that `double` becomes a handle
on the objects below).  It is run with proxy values that build z3 terms.  Whenever the
code asks for the truth value of a symbolic condition, the engine asks z3 which outcomes
are feasible under the path condition; if both are, one is followed now and the other is
queued, and the harness is re-executed from the start with that recorded decision.  When the queue
is empty every feasible path within the bounds of the harness was followed.  Properties
are decided per path: `check(c)` asks z3 for a model of path-condition AND NOT c.
"""
import fractions, signal, math, time, numbers, sys, dis, traceback
import z3
from . import poly as PL

Fraction = fractions.Fraction


class EngineStop(BaseException):
    """Base of the exceptions that steer paths (never caught by `except Exception`)."""


class PathEnd(EngineStop):
    """The path is infeasible (an assumption failed) or was cut on purpose."""


class Unsupported(EngineStop):
    """The encoding has no meaning for an operation: the run is inconclusive."""


class Budget(EngineStop):
    """Path/time budget exhausted: the run is inconclusive."""


class Hang(EngineStop):
    """The code makes no progress: neither a decision nor a query for a long time, or very many decisions."""


class ViolationFound(EngineStop):
    def __init__(self, msg):
        self.msg = msg


import os
TRACE_SLOW = bool(os.environ.get('VERIF_TRACE_SLOW'))
_cur = None           # the engine whose path is running (one per process)


def current():
    if _cur is None:
        raise Unsupported("symbolic value used outside an exploration")
    return _cur


def to_fraction(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, numbers.Integral):
        return Fraction(int(v))
    v = float(v)
    return Fraction(v)


def rv(v):
    """z3 real term of a number or proxy."""
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymInt):
        return z3.ToReal(v.t)
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    return qv(to_fraction(v))


_qcache = {}


def qv(f):
    """z3 numeral of a Fraction or int."""
    r = _qcache.get(f)
    if r is None:
        r = _qcache[f] = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    return r


def iv(v):
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(v))


def is_num(v):
    if isinstance(v, (int, float, Fraction)):
        return True
    try:
        import numpy
        return isinstance(v, (numpy.number, numpy.bool_))
    except ImportError:
        return False


def _const(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return t.as_long()
    return None


OPS = {'lt': lambda v: v < 0, 'le': lambda v: v <= 0, 'gt': lambda v: v > 0, 'ge': lambda v: v >= 0,
       'eq': lambda v: v == 0, 'ne': lambda v: v != 0}
NEG = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}
ZERO = z3.RealVal(0)


class SymBool:
    __slots__ = ('_t', 'cmp')

    def __init__(self, t, cmp=None):
        self._t = t
        self.cmp = cmp          # (polynomial, op): the condition compares it with 0

    @property
    def t(self):
        if self._t is None:
            self._t = current().cond(*self.cmp)
        return self._t

    def __bool__(self):
        if self.cmp is not None:
            return current().fork_poly(*self.cmp)
        return current().fork(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, bv(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, bv(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, bv(o)))
    __rxor__ = __xor__

    def __invert__(self):
        if self.cmp is not None:
            return SymBool(None, (self.cmp[0], NEG[self.cmp[1]]))
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.t == bv(o))
        return mk_cmp(SymInt(iv(self)), o, 'eq')

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.t

    # arithmetic on truth values (np.sum of a mask, ...)
    def __add__(self, o):
        return SymInt(iv(self)) + o

    def __radd__(self, o):
        return o + SymInt(iv(self))

    def __mul__(self, o):
        return SymInt(iv(self)) * o

    def __rmul__(self, o):
        return o * SymInt(iv(self))


def bv(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, (SymReal, SymInt)):
        return v.t != 0
    return z3.BoolVal(bool(v))


def mk_cmp(a, b, op):
    """Comparison of proxy a with b (any supported operand)."""
    if isinstance(b, SymBool) and not isinstance(a, SymBool):
        b = SymInt(iv(b))
    if not isinstance(b, (SymReal, SymInt)):
        if not is_num(b):
            return NotImplemented
        if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
            if math.isnan(b):
                return op == 'ne'
            big = b > 0
            return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[op]
    if isinstance(a, SymInt) and (isinstance(b, SymInt) or isinstance(b, numbers.Integral)):
        x, y = iv(a), iv(b)
    else:
        ra = a if isinstance(a, SymReal) else SymReal(rv(a))
        d = ra - b
        return current().compare0(d, op)
    t = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
         'eq': lambda: x == y, 'ne': lambda: x != y}[op]()
    return SymBool(t)


class _Num:
    __slots__ = ()

    def __lt__(self, o):
        return mk_cmp(self, o, 'lt')

    def __le__(self, o):
        return mk_cmp(self, o, 'le')

    def __gt__(self, o):
        return mk_cmp(self, o, 'gt')

    def __ge__(self, o):
        return mk_cmp(self, o, 'ge')

    def __eq__(self, o):
        return mk_cmp(self, o, 'eq')

    def __ne__(self, o):
        return mk_cmp(self, o, 'ne')

    def __bool__(self):
        return bool(mk_cmp(self, 0, 'ne'))

    def __pos__(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    imag = 0
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def fabs(self):
        return abs(self)

    def hypot(self, o):
        return (self * self + o * o) ** 0.5

    def rint(self):
        return SymReal(rv(round(SymReal(rv(self)))))

    def trunc(self):
        return SymReal(rv(self) if isinstance(self, SymInt) else z3.ToReal(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t))))

    def fmod(self, o):
        return self - o * SymReal(rv(self / o)).trunc()


class SymReal(_Num):
    """A real number num/(f1*f2*...): num is a polynomial over the path's atoms and every
    factor is a polynomial known to be non-zero on the path."""
    __slots__ = ('num', 'den', '_t')

    def __init__(self, t=None, num=None, den=()):
        if num is None:
            num, den = current().to_poly(t)
        self.num, self.den, self._t = num, den, None

    @property
    def t(self):
        if self._t is None:
            e = current()
            n = e.poly_term(self.num)
            for f in self.den:
                n = n / e.poly_term(f)
            self._t = n
        return self._t

    def _bin(self, o, f):
        if isinstance(o, SymReal):
            return f(o)
        if isinstance(o, (SymInt, SymBool)):
            return f(SymReal(rv(o)))
        if is_num(o):
            if isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
                raise Unsupported("arithmetic with inf/nan")
            return f(SymReal(num=PL.const(to_fraction(o))))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda y: _add(self, y, 1))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda y: _add(self, y, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda y: _add(y, self, -1))

    def __mul__(self, o):
        return self._bin(o, lambda y: _mul(self, y))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda y: _div(self, y))

    def __rtruediv__(self, o):
        return self._bin(o, lambda y: _div(y, self))

    def __neg__(self):
        return SymReal(num=PL.neg(self.num), den=self.den)

    def __abs__(self):
        if PL.is_const(self.num) and not self.den:
            return SymReal(num=PL.const(abs(PL.cval(self.num))))
        return self if self >= 0 else -self

    def __pow__(self, n):
        if isinstance(n, (SymReal, SymInt)):
            raise Unsupported("symbolic exponent")
        if n == 0.5:
            return self.sqrt()
        if float(n) != int(n):
            raise Unsupported("fractional power")
        n = int(n)
        if n < 0:
            return 1 / (self ** (-n))
        r = SymReal(num=PL.const(1))
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        return current().taint_value(self.t)

    def __int__(self):
        # truncation toward zero
        t = self.t
        return int(SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))

    __trunc__ = __int__

    def __floor__(self):
        return SymInt(z3.ToInt(self.t))

    floor = __floor__

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.t))

    ceil = __ceil__

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("rounding to %s digits" % nd)
        n = z3.ToInt(self.t + z3.RealVal('1/2'))
        half = z3.ToReal(n) == self.t + z3.RealVal('1/2')
        return SymInt(z3.If(z3.And(half, n % 2 == 1), n - 1, n))

    def is_integer(self):
        return SymBool(z3.IsInt(self.t))

    def __rfloordiv__(self, o):
        return SymReal(rv(o)) // self

    def __rmod__(self, o):
        return SymReal(rv(o)) % self

    def __rdivmod__(self, o):
        return divmod(SymReal(rv(o)), self)

    def __floordiv__(self, o):
        q = self / o
        return SymReal(z3.ToReal(z3.ToInt(q.t)))

    def __mod__(self, o):
        return self - o * (self // o)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def sqrt(self):
        return current().fn_sqrt(self)

    def exp(self):
        return current().fn_unint('exp', self)

    def log(self):
        return current().fn_unint('log', self)

    def sin(self):
        return current().fn_unint('sin', self)

    def cos(self):
        return current().fn_unint('cos', self)

    def isfinite(self):
        return True

    def __repr__(self):
        return 'SymReal(%s)' % z3.simplify(self.t)

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Real.register(SymReal)


class Norm(SymReal):
    """Euclidean norm of a vector; the square root is introduced only when its value is used
    (comparing a norm with zero compares the components)."""
    __slots__ = ('comps',)

    def __init__(self, comps):
        self.comps = comps

    def __getattr__(self, n):
        if n not in ('num', 'den', '_t'):
            raise AttributeError(n)
        s = SymReal(num={})
        for q in self.comps:
            s = s + q * q
        r = current().fn_sqrt(s, nonneg=True)
        self.num, self.den, self._t = r.num, r.den, r._t
        return getattr(self, n)

    def _zero(self):
        for q in self.comps:
            if q != 0:
                return False
        return True

    def _cmp0(self, o, op):
        if is_num(o) and o == 0:
            if op == 'ge':
                return True
            if op == 'lt':
                return False
            return self._zero() == (op in ('eq', 'le'))
        return mk_cmp(self, o, op)

    def __lt__(self, o):
        return self._cmp0(o, 'lt')

    def __le__(self, o):
        return self._cmp0(o, 'le')

    def __gt__(self, o):
        return self._cmp0(o, 'gt')

    def __ge__(self, o):
        return self._cmp0(o, 'ge')

    def __eq__(self, o):
        return self._cmp0(o, 'eq')

    def __ne__(self, o):
        return self._cmp0(o, 'ne')

    def __bool__(self):
        return not self._zero()

    __hash__ = SymReal.__hash__


def _reduce(num, den):
    """Cancel factors that divide the numerator exactly."""
    if not num:
        return SymReal(num={})
    if den:
        out = []
        for f in den:
            q = PL.divide(num, f)
            if q is None:
                out.append(f)
            else:
                num = q
        den = tuple(out)
    return SymReal(num=num, den=den)


def _prod(fs):
    p = PL.const(1)
    for f in fs:
        p = PL.mul(p, f)
    return p


def _add(a, b, s):
    if s < 0:
        bn = PL.neg(b.num)
    else:
        bn = b.num
    if not a.den and not b.den:
        return SymReal(num=PL.add(a.num, bn))
    if a.den == b.den:
        return _reduce(PL.add(a.num, bn), a.den)
    common, rest = [], list(b.den)
    onlya = []
    for f in a.den:
        for i, g in enumerate(rest):
            if f == g:
                rest.pop(i)
                common.append(f)
                break
        else:
            onlya.append(f)
    return _reduce(PL.add(PL.mul(a.num, _prod(rest)), PL.mul(bn, _prod(onlya))), tuple(common) + tuple(onlya) + tuple(rest))


def _mul(a, b):
    if not a.den and not b.den:
        return SymReal(num=PL.mul(a.num, b.num))
    an, bd = a.num, b.den
    x = _reduce(a.num, b.den)
    y = _reduce(b.num, a.den)
    return SymReal(num=PL.mul(x.num, y.num), den=x.den + y.den)


def _div(x, y):
    e = current()
    if PL.is_const(y.num):
        c = PL.cval(y.num)
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return _mul(x, SymReal(num=PL.scale(_prod(y.den), Fraction(1) / c)))
    if e.fork_poly(y.num, 'eq'):
        raise ZeroDivisionError("division by a value that can be zero")
    # normalise the new factor so that equal denominators are recognised
    key, s, q = PL.normal(y.num)
    l = PL._lex_lead(y.num)
    k = Fraction(1) / y.num[l]          # y.num = q * s*|c| = q / k
    num = PL.scale(PL.mul(x.num, _prod(y.den)), k)
    return _reduce(num, x.den + (q,))


class SymInt(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f, g):
        if isinstance(o, SymBool):
            o = SymInt(iv(o))
        if isinstance(o, SymInt) or isinstance(o, numbers.Integral):
            return f(iv(o))
        if isinstance(o, SymReal) or is_num(o):
            return g(rv(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda y: SymInt(self.t + y), lambda y: SymReal(rv(self) + y))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda y: SymInt(self.t - y), lambda y: SymReal(rv(self) - y))

    def __rsub__(self, o):
        return self._bin(o, lambda y: SymInt(y - self.t), lambda y: SymReal(y - rv(self)))

    def __mul__(self, o):
        return self._bin(o, lambda y: SymInt(self.t * y), lambda y: SymReal(rv(self) * y))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymReal(rv(self)) / o

    def __rtruediv__(self, o):
        return o / SymReal(rv(self))

    def _pos_div(self, y):
        e = current()
        if e.fork(y == 0):
            raise ZeroDivisionError("integer division by zero")
        if not e.fork(y > 0):
            raise Unsupported("division by a negative symbolic integer")

    def __floordiv__(self, o):
        def f(y):
            self._pos_div(y)
            return SymInt(self.t / y)
        return self._bin(o, f, lambda y: SymReal(rv(self)) // SymReal(y))

    def __rfloordiv__(self, o):
        return SymInt(iv(o)) // self

    def __mod__(self, o):
        def f(y):
            self._pos_div(y)
            return SymInt(self.t % y)
        return self._bin(o, f, lambda y: SymReal(rv(self)) % SymReal(y))

    def __rmod__(self, o):
        return SymInt(iv(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return SymInt(iv(o)).__divmod__(self)

    def __neg__(self):
        return SymInt(-self.t)

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, n):
        r = SymInt(z3.IntVal(1))
        for _ in range(int(n)):
            r = r * self
        return r

    def __and__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        o = int(o)
        if o < 0:
            return self - (self & (~o))
        r, i = z3.IntVal(0), 0
        while (1 << i) <= o:
            if o >> i & 1:
                r = r + ((self.t / (1 << i)) % 2) * (1 << i)
            i += 1
        return SymInt(z3.simplify(r))

    __rand__ = __and__

    def __or__(self, o):
        o = int(o)
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        o = int(o)
        return self + o - 2 * (self & o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __index__(self):
        return current().concretise(self.t)

    __int__ = __index__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def sqrt(self):
        return SymReal(rv(self)).sqrt()

    def __repr__(self):
        return 'SymInt(%s)' % z3.simplify(self.t)

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Integral.register(SymInt)


class Stats:
    def __init__(self):
        self.paths = 0
        self.cut = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.trivial = 0
        self.unknown = []
        self.reach = {}
        self.violations = []
        self.tainted = 0


class _Beat:
    value = 0


STUCK_S = 60               # two periods without any query, decision or path: the code hangs


class Engine:
    """One exploration of one harness configuration."""

    MAX_DECISIONS = 4000

    def __init__(self, timeout_ms=60000, max_paths=200000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.beat = _Beat()
        self.st = Stats()
        self.max_violations = 3
        # atoms and the terms of polynomials keep their meaning from path to path
        self.atoms = []        # atom number -> z3 term
        self.atom_of = {}      # z3 term id -> atom number
        self.terms = {}        # polynomial -> z3 term
        self.conds = {}        # (polynomial, op) -> z3 condition

    # ---- one path -------------------------------------------------------------
    def _reset(self, prefix):
        self.max_draws = None
        self.drawn_out = None
        self.solver = z3.Solver()
        self.solver.set('timeout', min(self.FIRST_MS, self.timeout_ms))
        self.prefix = prefix
        self.dec = []          # list of [outcome, has_alternative]
        self.inputs = {}       # name -> (kind, term)
        self.order = []
        self.memo = {}
        self.draws = []
        self.counter = 0
        self.tainted = False
        self.pc = []
        self.nonzero = set()
        self.nonlinear = False
        self.mval = None       # values of the atoms that satisfy the path condition
        self.signs = {}        # normalised polynomial -> known strict sign or 0

    FIRST_MS = 400           # first attempt (incremental); then fresh solvers up to timeout_ms

    def _fresh(self, tactic, ms, extra):
        try:
            s = z3.Tactic(tactic).solver()
            s.set('timeout', ms)
            for c in self.pc:
                s.add(c)
            for c in extra:
                s.add(c)
            t0 = time.time()
            r = s.check()
        except z3.Z3Exception:
            return z3.unknown
        dt = time.time() - t0
        self.beat.value += 1
        self.st.solver_s += dt
        self.st.queries += 1
        if TRACE_SLOW:
            print('fresh query: %s %s %.1fs pc=%d' % (tactic, r, dt, len(self.pc)), flush=True)
        if r == z3.sat:
            self._alt_model = s.model()
        return r

    def _query(self, *extra):
        if self.nonlinear:
            r = self._fresh('qfnra-nlsat', 1000, extra)
            if r != z3.unknown:
                return r
        t0 = time.time()
        r = self.solver.check(*extra)
        self.st.solver_s += time.time() - t0
        self.st.queries += 1
        self.beat.value += 1
        if r == z3.unknown:
            # second opinions by fresh solvers; from now on this path is treated as nonlinear
            self.nonlinear = True
            for tactic in ('qfnra-nlsat', 'smt', 'qfnra'):
                r = self._fresh(tactic, self.timeout_ms, extra)
                if r != z3.unknown:
                    return r
        if r == z3.sat:
            self._alt_model = None
        return r

    def model(self):
        return self._alt_model if self._alt_model is not None else self.solver.model()

    def add(self, t):
        self.solver.add(t)
        self.pc.append(t)
        self.mval = None

    def add_cmp(self, num, op):
        """Add the polynomial constraint num op 0."""
        t = self.cond(num, op)
        self.solver.add(t)
        self.pc.append(t)
        if self.mval is not None and not self.holds(num, op):
            self.mval = None

    def holds(self, num, op):
        """Truth of num op 0 in the remembered model."""
        v, mv = 0, self.mval
        for m, c in num.items():
            for a, e in m:
                x = mv.get(a)
                if x is None:
                    x = mv[a] = 0          # an atom without constraints so far
                c = c * (x if e == 1 else x ** e)
            v = v + c
        return OPS[op](v)

    def take_model(self):
        """Remember the values of the atoms in the solver's model (rational ones only)."""
        m = self.model()
        out = {}
        for i, a in enumerate(self.atoms):
            if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                self.mval = None           # composite atom: no cheap evaluation
                return
            v = m[a]
            if v is None:
                continue
            if not z3.is_rational_value(v):
                self.mval = None
                return
            out[i] = PL._n(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        self.mval = out

    def cond(self, num, op):
        key = (frozenset(num.items()), op)
        c = self.conds.get(key)
        if c is None:
            t = self.poly_term(num)
            z = ZERO
            c = {'lt': lambda: t < z, 'le': lambda: t <= z, 'gt': lambda: t > z, 'ge': lambda: t >= z,
                 'eq': lambda: t == z, 'ne': lambda: t != z}[op]()
            self.conds[key] = c
        return c

    def fork_cmp(self, num, op):
        """Branch on num op 0 (num not constant)."""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        i = len(self.dec)
        if i >= self.MAX_DECISIONS:
            raise Hang("more than %d decisions on one path" % self.MAX_DECISIONS)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.dec.append((v, False))
            self.beat.value += 1
            self.add_cmp(num, op if v else NEG[op])
            return v
        if self.mval is None:
            r = self._query()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.sat:
                self.take_model()
        if self.mval is None:
            return self.fork(self.cond(num, op))
        v = self.holds(num, op)
        other = NEG[op] if v else op
        r = self._query(self.cond(num, other))
        if r == z3.unknown:
            self.st.unknown.append('feasibility of a branch: %s' % str(self.cond(num, other))[:200])
            raise Unsupported("solver answered unknown on a branch")
        if r == z3.sat:
            self.queue.append([d for d, _ in self.dec] + [not v])
        self.dec.append((v, False))
        self.add_cmp(num, op if v else NEG[op])
        return v

    def fork(self, t, ev=None):
        """Branch on t; ev() gives its value in the remembered model."""
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.dec)
        if i >= self.MAX_DECISIONS:
            raise Hang("more than %d decisions on one path" % self.MAX_DECISIONS)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.dec.append((v, False))
            self.add(t if v else z3.Not(t))
            return v
        if ev is not None:
            if self.mval is None:
                r = self._query()
                if r == z3.unsat:
                    raise PathEnd()
                if r == z3.sat:
                    self.take_model()
            if self.mval is not None:
                v = ev()
                c, o = (t, z3.Not(t)) if v else (z3.Not(t), t)
                r = self._query(o)
                if r == z3.unknown:
                    self.st.unknown.append('feasibility of a branch: %s' % str(o)[:200])
                    raise Unsupported("solver answered unknown on a branch")
                if r == z3.sat:
                    self.queue.append([d for d, _ in self.dec] + [not v])
                self.dec.append((v, False))
                m = self.mval
                self.add(c)
                self.mval = m
                return v
        rt = self._query(t)
        rf = self._query(z3.Not(t))
        if rt == z3.unknown or rf == z3.unknown:
            self.st.unknown.append('feasibility of a branch: %s' % str(t)[:200])
            raise Unsupported("solver answered unknown on a branch")
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd()
        if rt == z3.sat and rf == z3.sat:
            self.queue.append([d for d, _ in self.dec] + [False])
            v = True
        else:
            v = rt == z3.sat
        self.dec.append((v, False))
        self.add(t if v else z3.Not(t))
        return v

    # ---- polynomials ----------------------------------------------------------------
    def to_poly(self, t):
        """z3 real term -> (numerator, factors)."""
        if z3.is_rational_value(t):
            return PL.const(Fraction(t.numerator_as_long(), t.denominator_as_long())), ()
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ch = [SymReal(c) for c in t.children()]
            r = ch[0]
            if k == z3.Z3_OP_UMINUS:
                r = -r
            for c in ch[1:]:
                r = r + c if k == z3.Z3_OP_ADD else (r * c if k == z3.Z3_OP_MUL else r - c)
            return r.num, r.den
        if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
            r = SymReal(t.arg(0)) / SymReal(t.arg(1))
            return r.num, r.den
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)):
            return PL.const(t.arg(0).as_long()), ()
        i = self.atom_of.get(t.get_id())
        if i is None:
            i = self.atom_of[t.get_id()] = len(self.atoms)
            self.atoms.append(t)
        return PL.atom(i), ()

    def poly_term(self, p):
        if not p:
            return ZERO
        key = frozenset(p.items())
        t = self.terms.get(key)
        if t is None:
            t = self.terms[key] = self._poly_term(p)
        return t

    def _poly_term(self, p):
        ts = []
        for m, c in p.items():
            f = []
            for v, e in m:
                f += [self.atoms[v]] * e
            if c != 1 or not f:
                f.insert(0, qv(c))
            r = f[0]
            for x in f[1:]:
                r = r * x
            ts.append(r)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def compare0(self, d, op):
        """The condition d op 0 of a rational function, as a polynomial condition."""
        num, s = d.num, 1
        if PL.is_const(num) and not d.den:
            c = PL.cval(num)
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        if op not in ('eq', 'ne'):
            for f in d.den:
                s *= self.sign_of(f)
        if s < 0:
            num = PL.neg(num)
        num = self.strip(num, op)
        if PL.is_const(num):
            c = PL.cval(num)
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        return SymBool(None, (num, op))

    def strip(self, num, op):
        """Remove factors of num whose strict sign is known on this path."""
        if PL.degree(num) < 2:
            return num
        again = True
        while again and PL.degree(num) >= 2:
            again = False
            for key, sg in self.signs.items():
                if sg == 0:
                    continue
                q = PL.divide(num, dict(key))
                if q is not None:
                    num = q if sg > 0 else PL.neg(q)
                    again = True
                    break
        return num

    def sign_of(self, f):
        """+1 or -1 for a polynomial known to be non-zero (forks if both are possible)."""
        if PL.is_const(f):
            return 1 if PL.cval(f) > 0 else -1
        key, s, q = PL.normal(f)
        sg = self.signs.get(key, 0)
        if sg:
            return sg * s
        return 1 if self.fork_poly(f, 'gt') else -1

    def fork_poly(self, num, op):
        if PL.is_const(num):
            c = PL.cval(num)
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        key, s, q = PL.normal(num)
        sg = self.signs.get(key)
        if sg:
            v = sg * s
            return {'lt': v < 0, 'le': v < 0, 'gt': v > 0, 'ge': v > 0, 'eq': False, 'ne': True}[op]
        if op in ('eq', 'ne') and key in self.nonzero:
            return op == 'ne'
        r = self.fork_cmp(num, op)
        # what the outcome says about the strict sign
        if (op == 'gt' and r) or (op == 'le' and not r):
            self.signs[key] = s
        elif (op == 'lt' and r) or (op == 'ge' and not r):
            self.signs[key] = -s
        elif (op == 'ne' and r) or (op == 'eq' and not r):
            self.nonzero.add(key)
        return r

    def choice(self, name, n):
        """A concrete choice 0..n-1; every value is explored."""
        v = self.int(name, 0, n - 1)
        return int(v)

    def concretise(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(200):
            self.counter += 1
            key = (self.counter,) + tuple(d for d, _ in self.dec)
            if key in self.conc:           # re-execution: the candidate used before
                v = self.conc[key]
            else:
                r = self._query()
                if r == z3.unknown:
                    raise Unsupported("cannot concretise")
                if r == z3.unsat:
                    raise PathEnd()
                v = self.model().eval(t, model_completion=True).as_long()
                self.conc[key] = v
            if self.fork(t == v):
                return v
        raise Budget("integer domain too large to concretise")

    def draw(self, base):
        """A random number: an unconstrained input, remembered in drawing order."""
        if self.max_draws is not None and len(self.draws) >= self.max_draws:
            # bound on the random numbers per run, stated by the harness
            if not self.drawn_out:
                self.drawn_out = self.nice_model([]) or {}
            raise PathEnd()
        n = '%s@%d' % (base, len(self.draws))
        self.draws.append(n)
        return self.real(n)

    def taint_value(self, t):
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            return _mval(t)
        f = sys._getframe(2)
        op = f.f_code.co_code[f.f_lasti]
        if dis.opname[op] == 'BINARY_OP' and f.f_code.co_code[f.f_lasti + 1] in (6, 19):
            return 0.0          # '%g' % value: the text is not observed
        r = self._query()
        if r != z3.sat:
            raise PathEnd()
        self.tainted = True
        v = self.model().eval(t, model_completion=True)
        return _mval(v)

    # ---- inputs -----------------------------------------------------------------
    def real(self, name):
        if name in self.inputs:
            return SymReal(self.inputs[name][1])
        v = z3.Real(name)
        self.inputs[name] = ('real', v)
        return SymReal(v)

    def int(self, name, lo=None, hi=None):
        if name in self.inputs:
            return SymInt(self.inputs[name][1])
        v = z3.Int(name)
        self.inputs[name] = ('int', v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        if lo is not None and lo == hi:
            return lo
        return SymInt(v)

    def bool(self, name):
        if name in self.inputs:
            return SymBool(self.inputs[name][1])
        v = z3.Bool(name)
        self.inputs[name] = ('bool', v)
        return SymBool(v)

    def fresh(self, base):
        self.counter += 1
        return self.real('%s#%d' % (base, self.counter))

    # ---- functions ----------------------------------------------------------------
    def fn_sqrt(self, x, nonneg=False):
        key = ('sqrt', frozenset(x.num.items()), tuple(frozenset(f.items()) for f in x.den))
        if key in self.memo:
            return self.memo[key]
        if not nonneg and x < 0:
            raise ValueError("math domain error: sqrt of a negative value")
        self.counter += 1
        s = z3.Real('sqrt!%d' % self.counter)
        self.add(s >= 0)
        self.add(s * s == x.t)
        self.memo[key] = SymReal(s)
        return self.memo[key]

    def fn_unint(self, name, x):
        if name in ('sin', 'cos') and PL.is_const(x.num) and not x.den:
            return SymReal(rv(fractions.Fraction(getattr(math, name)(float(PL.cval(x.num))))))
        key = (name, frozenset(x.num.items()), tuple(frozenset(f.items()) for f in x.den))
        if key in self.memo:
            return self.memo[key]
        self.counter += 1
        s = z3.Real('%s!%d' % (name, self.counter))
        if name in ('sin', 'cos'):
            self.add(s >= -1)
            self.add(s <= 1)
            other = ('cos' if name == 'sin' else 'sin',) + key[1:]
            if other in self.memo:
                self.add(s * s + self.memo[other].t * self.memo[other].t == 1)
        if name == 'exp':
            self.add(s > 0)
        self.memo[key] = SymReal(s)
        return self.memo[key]

    # ---- assumptions and assertions ---------------------------------------------------
    def assume(self, c):
        if isinstance(c, SymBool) and c.cmp is not None and not PL.is_const(c.cmp[0]):
            if c.cmp[1] in ('gt', 'lt'):
                key, s, _ = PL.normal(c.cmp[0])
                self.signs[key] = s if c.cmp[1] == 'gt' else -s
            self.add_cmp(*c.cmp)
        else:
            t = z3.simplify(bv(c))
            if z3.is_true(t):
                return
            self.add(t)
        if len(self.dec) >= len(self.prefix) and self.mval is None:
            r = self._query()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Unsupported("solver answered unknown on an assumption")

    def check(self, c, msg, margin=None):
        """Assert c on this path.  margin: a stronger negation to prefer for a replayable model."""
        self.st.checks += 1
        t = z3.simplify(bv(c))
        if z3.is_true(t):
            self.st.trivial += 1
            return
        r = self._query(z3.Not(t))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.st.unknown.append('assertion: ' + msg)
            raise Unsupported("solver answered unknown on an assertion: " + msg)
        self.violation(msg, z3.Not(t), margin)

    def violation(self, msg, neg=None, margin=None):
        extra = [] if neg is None else [neg]
        if margin is not None:
            margin = margin()
            if self._query(margin) == z3.sat:
                extra = [margin]
        if neg is None:
            extra = self.spread(extra)
        assign = self.nice_model(extra)
        self.st.violations.append({'msg': msg, 'inputs': assign, 'draws': [assign.get(n) for n in self.draws],
                                   'tainted': self.tainted, 'path': len(self.dec)})
        raise ViolationFound(msg)

    def spread(self, extra):
        """Prefer a model in which the real inputs (or at least the random numbers) are apart from each other and from zero,
        so that values the code confuses differ in the replay."""
        s = self.solver
        s.set('timeout', 3000)
        try:
            for pick in (lambda n: True, lambda n: n in set(self.draws), lambda n: n not in set(self.draws)):
                ts = [t for n, (k, t) in self.inputs.items() if k == 'real' and pick(n)]
                if not ts or len(ts) > 24:
                    continue
                q = z3.Q(1, 8)
                more = [z3.Or(t > q, t < -q) for t in ts] + [z3.Or(a - b > q, b - a > q) for i, a in enumerate(ts) for b in ts[:i]]
                s.push()
                for e in extra + more:
                    s.add(e)
                r = s.check()
                s.pop()
                if r == z3.sat:
                    return extra + more
        finally:
            s.set('timeout', min(self.FIRST_MS, self.timeout_ms))
        return extra

    def nice_model(self, extra):
        """A model whose values are, as far as the constraints allow, small dyadic numbers."""
        s = self.solver
        s.push()
        for e in extra:
            s.add(e)
        r = s.check()
        if r != z3.sat:
            s.pop()
            if self._query(*extra) == z3.sat:
                m = self.model()
                return {n: _mval(m.eval(t, model_completion=True)) for n, (k, t) in self.inputs.items()}
            return {}
        s.set('timeout', 2000)
        out = {}
        t_end = time.time() + 20
        for n, (k, t) in self.inputs.items():
            m = s.model()
            v = m.eval(t, model_completion=True)
            if k == 'real' and time.time() < t_end:
                f = _mval(v)
                cands = []
                for d in (1, 4, 64, 1024):
                    for c in (Fraction(round(f * d), d), Fraction(math.floor(f * d), d), Fraction(math.ceil(f * d), d)):
                        if c not in cands:
                            cands.append(c)
                done = False
                for c in cands:
                    s.push()
                    s.add(t == z3.Q(c.numerator, c.denominator))
                    if s.check() == z3.sat:
                        s.model()
                        done = True
                        out[n] = float(c)
                        break
                    s.pop()
                if not done:
                    if s.check() != z3.sat:
                        out[n] = float(f)
                        continue
                    out[n] = _mval(s.model().eval(t, model_completion=True))
                continue
            out[n] = _mval(v)
            if k != 'real':
                s.add(t == v)
                s.check()
        s.reset()
        for c in self.pc:
            s.add(c)
        s.set('timeout', min(self.FIRST_MS, self.timeout_ms))
        return out

    def reach(self, label):
        self.st.reach[label] = self.st.reach.get(label, 0) + 1

    # ---- exploration ---------------------------------------------------------------------
    def _alarm(self, *a):
        b = self.beat.value
        self.still = self.still + 1 if b == self.last_beat else 0
        self.last_beat = b
        if self.still >= 2:
            raise Hang('no progress for %d s' % (self.still * STUCK_S))

    def explore(self, harness):
        """Run harness() on every feasible path.  Returns the statistics."""
        global _cur
        self.still, self.last_beat = 0, None
        try:
            signal.signal(signal.SIGALRM, self._alarm)
            signal.setitimer(signal.ITIMER_REAL, STUCK_S, STUCK_S)
        except ValueError:                 # not the main thread
            return self._explore(harness)
        try:
            return self._explore(harness)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def _explore(self, harness):
        global _cur
        self.queue = [[]]
        self.conc = {}
        while self.queue:
            if self.st.paths + self.st.cut >= self.max_paths:
                self.st.unknown.append('path budget %d exhausted' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.st.unknown.append('time budget exhausted')
                break
            prefix = self.queue.pop()
            self._reset(prefix)
            self.beat.value += 1
            _cur = self
            try:
                harness(self)
                self.st.paths += 1
                if self.tainted:
                    self.st.tainted += 1
                    self.st.unknown.append('a symbolic value was converted to float')
            except PathEnd:
                self.st.cut += 1
            except ViolationFound:
                self.st.paths += 1
                if len(self.st.violations) >= self.max_violations:
                    break
            except Hang as e:
                # a violation if the real code does not come to an end either
                self.st.paths += 1
                try:
                    self.violation('the code does not come to an end: %s' % e)
                except ViolationFound:
                    self.st.violations[-1]['hang'] = True
                except EngineStop as x:
                    self.st.unknown.append('no model for a hang: %s' % x)
                break
            except (Unsupported, Budget) as e:
                self.st.unknown.append('%s: %s' % (type(e).__name__, e))
                self.st.paths += 1
                if isinstance(e, Budget) or len(self.st.unknown) > 20:
                    break
            except (Exception, SystemExit) as e:
                # the code under test (or the harness) raised: a violation if it replays
                self.st.paths += 1
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join('%s:%s' % (f.filename.rsplit('/', 1)[-1], f.name) for f in tb[-3:][::-1])
                try:
                    self.violation('raised %s: %s [%s]' % (type(e).__name__, str(e)[:300], where))
                except ViolationFound:
                    self.st.violations[-1]['raised'] = type(e).__name__
                    self.st.violations[-1]['trace'] = ''.join(traceback.format_exception(e))[-3000:]
                except EngineStop as x:
                    self.st.unknown.append('no model for an exception: %s' % x)
                if len(self.st.violations) >= self.max_violations:
                    break
            finally:
                _cur = None
        if self.drawn_out is not None and not self.st.paths and not self.st.unknown:
            # every run was cut by the bound on random numbers: does the code ever finish?
            self.st.violations.append({'msg': 'the code goes on drawing random numbers', 'inputs': {n: v for n, v in self.drawn_out.items() if '@' not in n}, 'draws': 'free',
                                       'tainted': False, 'path': 0})
        return self.st


def _mval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return float(str(v))
