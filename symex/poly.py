"""Exact sparse multivariate polynomials with rational coefficients.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of
(variable id, exponent) pairs sorted by id; coefficients are int or Fraction
(never float).  Variable ids refer to symex.core's variable table.
"""
from fractions import Fraction
from heapq import heapify, heappop, heappush
from math import gcd

ONE = ()


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    return {ONE: c} if c else {}


def var(i):
    return {((i, 1),): 1}


def add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = norm(s)
        else:
            del r[m]
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: norm(c * k) for m, c in a.items()}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mono_div(a, b):
    """a / b, or None when b does not divide a."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def raw_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE in a:
        return scale(b, a[ONE])
    if len(b) == 1 and ONE in b:
        return scale(a, b[ONE])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            r[m] = s
    return {m: norm(c) for m, c in r.items() if c}


def lead(a):
    """Leading monomial in a fixed total (lex-like) order that is compatible
    with multiplication: graded by degree, then lexicographic on exponents."""
    return max(a, key=_order)


def _order(m):
    deg = 0
    for _, e in m:
        deg += e
    # lexicographic: smaller variable ids are more significant
    return (deg, tuple((-v, e) for v, e in m))


def exact_div(a, f):
    """a / f when exact, otherwise None."""
    if not a:
        return {}
    if len(f) == 1:
        (fm, fc), = f.items()
        r = {}
        for m, c in a.items():
            q = mono_div(m, fm)
            if q is None:
                return None
            r[q] = norm(Fraction(c) / fc)
        return r
    fl = lead(f)
    fc = f[fl]
    # quick rejects: least monomials and degrees must be compatible
    if mono_div(min(a, key=_order), min(f, key=_order)) is None:
        return None
    da = degrees(a)
    for v, e in degrees(f).items():
        if da.get(v, 0) < e:
            return None
    rem = dict(a)
    heap = [(_neg(m), m) for m in rem]
    heapify(heap)
    quot = {}
    steps = 0
    while rem:
        l = heappop(heap)[1]
        if l not in rem:
            continue
        steps += 1
        if steps > 400:
            return None
        q = mono_div(l, fl)
        if q is None:
            return None
        c = norm(Fraction(rem[l]) / fc)
        quot[q] = norm(quot.get(q, 0) + c)
        for m, k in f.items():
            mm = mono_mul(m, q)
            o = rem.get(mm)
            s = (o or 0) - k * c
            if s:
                if o is None:
                    heappush(heap, (_neg(mm), mm))
                rem[mm] = norm(s)
            elif o is not None:
                del rem[mm]
    return {m: c for m, c in quot.items() if c}


def _neg(m):
    deg = 0
    for _, e in m:
        deg += e
    return (-deg, tuple((v, -e) for v, e in m) + ((1 << 60, 0),))


def degrees(a):
    d = {}
    for m in a:
        for v, e in m:
            if d.get(v, 0) < e:
                d[v] = e
    return d


def content(a):
    """(positive rational content, monomial content) of a non-zero poly."""
    num = 0
    den = 1
    mono = None
    for m, c in a.items():
        if type(c) is Fraction:
            n, d = c.numerator, c.denominator
        else:
            n, d = c, 1
        num = gcd(num, n)
        den = den * d // gcd(den, d)
        if mono is None:
            mono = dict(m)
        elif mono:
            dm = dict(m)
            mono = {v: min(e, dm[v]) for v, e in mono.items() if v in dm}
    return norm(Fraction(abs(num), den)), tuple(sorted(mono.items()))


def key(a):
    return tuple(sorted(a.items()))


def variables(a):
    s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


def is_linear(a):
    for m in a:
        if len(m) > 1 or (m and m[0][1] > 1):
            return False
    return True
