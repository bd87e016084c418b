"""Multivariate polynomials over the rationals in normal form.

The engine keeps every symbolic real as num/(f1*f2*...) with polynomial num and factors
that are non-zero on the current path, cancels exactly, and hands z3 polynomial
constraints instead of nested divisions.  A monomial is a sorted tuple of
(atom, exponent); atoms are the solver's real terms (inputs, square roots, ...).
"""
from fractions import Fraction


def _n(c):
    """Small-int coefficients when integral (much faster than Fraction)."""
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = _n(c)
    return {(): c} if c != 0 else {}


def atom(i):
    return {((i, 1),): 1}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0)


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = _n(v)
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def scale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: _n(v * c) for m, v in p.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mul(p, q):
    if not p or not q:
        return {}
    if len(q) == 1 and () in q:
        return scale(p, q[()])
    if len(p) == 1 and () in p:
        return scale(q, p[()])
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = _n(v)
    return r


def deg(m):
    return sum(e for _, e in m)


def lead(p):
    """Leading monomial in graded lexicographic order."""
    return max(p, key=lambda m: (deg(m), m_key(m)))


def m_key(m):
    # lexicographic on exponent vectors with smaller atom numbers more significant
    return tuple((-v, e) for v, e in m)


def mdiv(a, b):
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def degree(p):
    return max((deg(m) for m in p), default=0)


def divide(p, q):
    """p/q if the division is exact, else None."""
    if not p:
        return {}
    if is_const(q):
        c = cval(q)
        return scale(p, Fraction(1) / c)
    if degree(q) > degree(p):
        return None
    lq = _lex_lead(q)
    cq = q[lq]
    rest = dict(p)
    out = {}
    n = 0
    while rest:
        n += 1
        if n > 300:
            return None
        lr = _lex_lead(rest)
        m = mdiv(lr, lq)
        if m is None:
            return None
        c = _n(Fraction(rest[lr]) / cq)
        out[m] = c
        rest = sub(rest, mul({m: c}, q))
    return out


def _lex_lead(p):
    """Leading monomial in pure lexicographic order (a genuine monomial order)."""
    best, bk = None, None
    for m in p:
        if best is None or _lex_gt(m, best):
            best = m
    return best


def _lex_gt(a, b):
    i = 0
    while i < len(a) and i < len(b):
        (va, ea), (vb, eb) = a[i], b[i]
        if va != vb:
            return va < vb          # the smaller atom is the larger variable
        if ea != eb:
            return ea > eb
        i += 1
    return len(a) > len(b)


def normal(p):
    """(key, sign): p divided by |leading coefficient| with the sign split off."""
    l = _lex_lead(p)
    c = p[l]
    a = Fraction(1) / abs(c)
    s = 1 if c > 0 else -1
    q = {m: _n(v * a * s) for m, v in p.items()}
    return frozenset(q.items()), s, q
