"""Symbolic values and the path engine.

The code under check runs in CPython on proxy values:

* SymNum  - an exact rational function over symbolic reals (num polynomial over
            factored denominators); sqrt/exp/log become constrained variables.
* SymStr  - a str subclass of concrete length whose characters may be symbolic
            (private-use code points standing for solver variables).
* SymBool - a condition; asking for its truth value forks the path.

Every fork is decided by the engine: the solver says which outcomes are
feasible under the path condition, the first feasible one is taken, the others
become new prefixes to explore.  Nothing is sampled.
"""
import math as _math
import numbers
import builtins
import threading
import time
from fractions import Fraction
from random import Random as _Random
import z3
from .natrandom import fixed_unit
from . import poly as P

CH0 = 0xF0000


class Control(BaseException):
    """Steers the exploration; never caught by the code under check."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class Violation(Control):
    pass


class Stop(Control):
    pass


# ------------------------------------------------------------------ variables
class Var(object):
    __slots__ = ('id', 'name', 'kind', 'pos', 'nonneg', 'integer', 'arg', 'z',
                 'bounds', 'factors', 'rnd', 'cval')

    def __init__(self, id, name, kind, pos=False, nonneg=False, integer=False,
                 arg=None):
        self.id = id
        self.name = name
        self.kind = kind
        self.pos = pos
        self.nonneg = nonneg or pos
        self.integer = integer
        self.arg = arg
        self.bounds = None
        self.factors = None
        self.rnd = False
        self.cval = 0             # 0: not computed, None: not a constant
        self.z = z3.Real(name)


VARS = []
VAR_BY_KEY = {}


def get_var(name, kind, **kw):
    k = (kind, name, kw.get('pos', False), kw.get('nonneg', False),
         kw.get('integer', False))
    v = VAR_BY_KEY.get(k)
    if v is None:
        v = Var(len(VARS), name, kind, **kw)
        VARS.append(v)
        VAR_BY_KEY[k] = v
    return v


PI = get_var('pi', 'pi', pos=True)

_small = {}


def frac(x):
    """float/int/Fraction -> exact rational, recovering short fractions that
    only differ from the float by its own rounding."""
    if type(x) is int:
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Fraction):
        return P.norm(x)
    if isinstance(x, int):
        return int(x)
    x = float(x)
    r = _small.get(x)
    if r is None:
        if x != x or x in (_math.inf, -_math.inf):
            raise Unsupported('non-finite constant')
        if x == int(x) and abs(x) < 2 ** 53:
            r = int(x)
        else:
            f = Fraction(x)
            g = f.limit_denominator(5000)
            if g and abs(float(g) - x) <= 1e-15 * abs(x):
                f = g
            r = P.norm(f)
        _small[x] = r
    return r


# ---------------------------------------------------------------- conditions
# A condition is a hashable tree:
#   True/False | ('gt',polykey) | ('ge',polykey) | ('eq',polykey)
#   | ('ch', i, j) symbolic char i equals char j (codes)
#   | ('cr', i, ((lo,hi),...)) char in ranges | ('clt', i, j)
#   | ('not', c) | ('and', (c,..)) | ('or', (c,..))

_zcache = {}
_charz = {}


def char_z(code):
    if code >= CH0:
        z = _charz.get(code)
        if z is None:
            z = z3.Int('ch%d' % (code - CH0))
            _charz[code] = z
        return z
    return z3.IntVal(code)


_q = {}


def ratval(c):
    r = _q.get(c)
    if r is None:
        if type(c) is Fraction:
            r = z3.Q(c.numerator, c.denominator)
        else:
            r = z3.RealVal(c)
        _q[c] = r
    return r


def poly_z(pk):
    ts = []
    for m, c in pk:
        fs = []
        for v, e in m:
            z = VARS[v].z
            for _ in range(e):
                fs.append(z)
        if not fs:
            ts.append(ratval(c))
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c != 1:
                t = ratval(c) * t
            ts.append(t)
    if not ts:
        return z3.RealVal(0)
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


def cond_z(c):
    if c is True:
        return z3.BoolVal(True)
    if c is False:
        return z3.BoolVal(False)
    r = _zcache.get(c)
    if r is not None:
        return r
    k = c[0]
    if k == 'gt':
        r = poly_z(c[1]) > 0
    elif k == 'ge':
        r = poly_z(c[1]) >= 0
    elif k == 'eq':
        r = poly_z(c[1]) == 0
    elif k == 'ch':
        r = char_z(c[1]) == char_z(c[2])
    elif k == 'clt':
        r = char_z(c[1]) < char_z(c[2])
    elif k == 'cr':
        z = char_z(c[1])
        r = z3.Or([z3.And(z >= lo, z <= hi) if lo != hi else z == lo
                   for lo, hi in c[2]])
    elif k == 'not':
        r = z3.Not(cond_z(c[1]))
    elif k == 'and':
        r = z3.And([cond_z(x) for x in c[1]])
    elif k == 'or':
        r = z3.Or([cond_z(x) for x in c[1]])
    else:
        raise AssertionError(k)
    if len(_zcache) > 200000:
        _zcache.clear()
    _zcache[c] = r
    return r


_lin = {}


def cond_linear(c):
    if c is True or c is False:
        return True
    k = c[0]
    if k in ('gt', 'ge', 'eq'):
        for m, _ in c[1]:
            if len(m) > 1 or (m and m[0][1] > 1):
                return False
        return True
    if k in ('ch', 'cr', 'clt'):
        return True
    if k == 'not':
        return cond_linear(c[1])
    return all(cond_linear(x) for x in c[1])


def cond_vars(c, out):
    if c is True or c is False:
        return
    k = c[0]
    if k in ('gt', 'ge', 'eq'):
        for m, _ in c[1]:
            for v, _e in m:
                out.add(v)
    elif k == 'not':
        cond_vars(c[1], out)
    elif k in ('and', 'or'):
        for x in c[1]:
            cond_vars(x, out)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'gt':
        return ('ge', P.key(P.neg(dict(c[1]))))
    if c[0] == 'ge':
        return ('gt', P.key(P.neg(dict(c[1]))))
    return ('not', c)


def c_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c not in out:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c not in out:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ENG.branch(self.c)

    def __and__(self, o):
        return SymBool(c_and([self.c, as_cond(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(c_or([self.c, as_cond(o)]))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(c_not(self.c))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def _n(self):
        return 1 if ENG.branch(self.c) else 0

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __repr__(self):
        return 'SymBool(%r)' % (self.c,)


def as_cond(x):
    if isinstance(x, SymBool):
        return x.c
    return bool(x)


def mk(c):
    """A condition as a Python bool when decided, else a SymBool."""
    if c is True or c is False:
        return c
    return SymBool(c)


# ------------------------------------------------------------------- SymNum
def const_var(v):
    """Float value of a variable that stands for a constant, else None."""
    V = VARS[v]
    if V.cval == 0:
        V.cval = None
        if V.kind == 'pi':
            V.cval = 3.141592653589793
        elif V.kind == 'sqrt':
            r = const_poly(V.arg)
            if r is not None and r[0] > r[1]:
                V.cval = r[0] ** 0.5
        elif V.kind in ('exp', 'log') and not V.arg.den:
            r = const_poly(V.arg.num)
            if r is not None and (V.kind == 'exp' and abs(r[0]) < 300 or
                                  V.kind == 'log' and r[0] > r[1]):
                V.cval = _REAL[V.kind](r[0])
    return V.cval


def const_poly(p):
    """(value, error bound) of a polynomial over constants, else None."""
    t = 0.0
    a = 0.0
    for m, c in p.items():
        k = float(c)
        for v, e in m:
            x = VARS[v].cval
            if x is None:
                return None
            if x == 0:
                x = const_var(v)
                if x is None:
                    return None
            k *= x ** e
        t += k
        a += abs(k)
    return t, a * 1e-9


def const_num(x):
    """Float value of a number that depends on no input, else None."""
    if not isinstance(x, SymNum):
        return float(x)
    r = const_poly(x.num)
    if r is None:
        return None
    t = r[0]
    for f, e in x.den.items():
        d = const_poly(dict(f))
        if d is None or d[0] == 0:
            return None
        t /= d[0] ** e
    return t


def poly_sign(p):
    """+1/-1 when strictly signed, '+0'/'-0' when weakly signed, 0 for the
    zero polynomial, None when unknown - from coefficient signs, the declared
    signs of the variables and semidefiniteness of quadratic parts only (never
    from the path condition)."""
    if not p:
        return 0
    s = _syntactic_sign(p)
    if s is not None:
        return s
    r = const_poly(p)
    if r is not None and abs(r[0]) > r[1]:
        return 1 if r[0] > 0 else -1
    if len(p) > 400:
        return None
    k = P.key(p)
    s = _PSD.get(k, 0)
    if s == 0:
        s = _grouped_sign(p, None)
        if len(_PSD) < 200000:
            _PSD[k] = s
    return s


_PSD = {}


def fact_sign(p):
    """poly_sign, also using the comparisons decided on this path."""
    s = poly_sign(p)
    if s in (1, -1, 0):
        return s
    if len(p) > 400:
        return s
    f = _grouped_sign(p, ENG.decided)
    return f if f is not None else s


def _var_pos(V, facts):
    """Strict positivity of a variable, with the path's facts."""
    if V.pos:
        return True
    if facts is None or not V.nonneg:
        return False
    vk = P.key(P.var(V.id))
    if facts.get(('gt', vk)) is True or facts.get(('eq', vk)) is False:
        return True
    if V.kind == 'sqrt':
        fs = V.factors or [V.arg]
        signs = [fact_sign(f) for f in fs]
        return all(x in (1, -1) for x in signs)
    return False


def _fact_pos(p, facts):
    """Is the primitive part of p decided to be non-zero / positive?"""
    c, mono = P.content(p)
    q = P.exact_div(p, {mono: c})
    if q[P.lead(q)] < 0:
        q = P.neg(q)
    k = P.key(q)
    if (facts.get(('gt', k)) is True or facts.get(('eq', k)) is False or
            facts.get(('ge', P.key(P.neg(q)))) is False):
        return all(VARS[v].pos for v, _ in mono)
    V = VAR_BY_KEY.get(('sqrt', k))
    if V is not None:
        vk = P.key(P.var(V.id))
        if facts.get(('gt', vk)) is True or facts.get(('eq', vk)) is False:
            return all(VARS[v].pos for v, _ in mono)
    return False


def _syntactic_sign(p):
    sg = None
    strict = False
    for m, c in p.items():
        s = 1 if c > 0 else -1
        posm = True
        for v, e in m:
            V = VARS[v]
            if V.pos:
                continue
            if V.nonneg or e % 2 == 0:
                posm = False
                continue
            return None
        if sg is None:
            sg = s
        elif sg != s:
            return None
        if posm:
            strict = True
    if strict:
        return sg
    return '+0' if sg > 0 else '-0'


def _grouped_sign(p, facts):
    groups = {}
    for m, c in p.items():
        signed = []
        uns = []
        deg = 0
        for v, e in m:
            if VARS[v].nonneg:
                signed.append((v, e))
            else:
                uns.append((v, e))
                deg += e
        if deg > 2:
            # x**2k * (...) with even powers only: a weakly signed monomial
            if all(e % 2 == 0 for _, e in uns):
                signed = list(m)
                uns = []
            else:
                return None
        groups.setdefault(tuple(signed), {})[tuple(uns)] = c
    total = None
    strict = False
    for g, q in groups.items():
        s = _quad_sign(q)
        if s is None:
            if facts is not None and all(VARS[v].nonneg for v, _ in g) and \
                    _fact_pos(q, facts):
                c, mono = P.content(q)
                r = P.exact_div(q, {mono: c})
                k = P.key(r)
                if facts.get(('gt', k)) is True:
                    s = 1
                elif facts.get(('gt', P.key(P.neg(r)))) is True:
                    s = -1
                else:
                    return None
            else:
                return None
        elif s in ('+0', '-0') and facts is not None and _fact_pos(q, facts):
            s = 1 if s == '+0' else -1
        sg = 1 if s in (1, '+0') else -1
        if total is None:
            total = sg
        elif total != sg:
            return None
        if s in (1, -1) and all(_var_pos(VARS[v], facts) for v, _ in g):
            strict = True
    if strict:
        return total
    return '+0' if total > 0 else '-0'


def _quad_sign(q):
    """Sign of a polynomial of degree <= 2 in unsigned variables: 1/-1 strict,
    '+0'/'-0' semidefinite, None indefinite."""
    if len(q) == 1:
        m, c = next(iter(q.items()))
        if not m:
            return 1 if c > 0 else -1
        if all(e % 2 == 0 for _, e in m):
            return '+0' if c > 0 else '-0'
        return None
    vs = sorted(P.variables(q))
    n = len(vs)
    if n > 12:
        return None
    idx = {v: i for i, v in enumerate(vs)}
    M = [[Fraction(0)] * (n + 1) for _ in range(n + 1)]
    for m, c in q.items():
        c = Fraction(c)
        if not m:
            M[n][n] += c
        elif len(m) == 1 and m[0][1] == 2:
            i = idx[m[0][0]]
            M[i][i] += c
        elif len(m) == 1 and m[0][1] == 1:
            i = idx[m[0][0]]
            M[i][n] += c / 2
            M[n][i] += c / 2
        elif len(m) == 2:
            i, j = idx[m[0][0]], idx[m[1][0]]
            M[i][j] += c / 2
            M[j][i] += c / 2
        else:
            return None
    sg = 1
    for i in range(n):
        if M[i][i] != 0:
            sg = 1 if M[i][i] > 0 else -1
            break
    else:
        return None
    for i in range(n):
        piv = M[i][i]
        if piv * sg < 0:
            return None
        if piv == 0:
            if any(M[i][j] != 0 for j in range(i + 1, n + 1)):
                return None
            continue
        for j in range(i + 1, n + 1):
            if M[j][i] != 0:
                f = M[j][i] / piv
                for k in range(i, n + 1):
                    M[j][k] -= f * M[i][k]
    last = M[n][n] * sg
    if last < 0:
        return None
    if last > 0:
        return sg
    return '+0' if sg > 0 else '-0'


def reduce_sqrt(p):
    """Replace r**2 by its argument for sqrt variables."""
    again = True
    while again:
        again = False
        for m in p:
            for v, e in m:
                if e >= 2 and VARS[v].kind == 'sqrt':
                    again = True
                    break
            if again:
                break
        if not again:
            return p
        r = {}
        for m, c in p.items():
            hit = None
            for v, e in m:
                if e >= 2 and VARS[v].kind == 'sqrt':
                    hit = (v, e)
                    break
            if hit is None:
                t = {m: c}
            else:
                v, e = hit
                base = {tuple((w, x) if w != v else (w, e % 2) for w, x in m
                              if w != v or e % 2): c}
                t = base
                for _ in range(e // 2):
                    t = P.raw_mul(t, VARS[v].arg)
            r = P.add(r, t)
        p = r
    return p


def has_sqrt_var(p):
    for m in p:
        for v, _ in m:
            if VARS[v].kind == 'sqrt':
                return True
    return False


def pmul(a, b):
    r = P.raw_mul(a, b)
    return reduce_sqrt(r) if SQRT_USED[0] else r


SQRT_USED = [False]


class SymNum(object):
    """num / prod(factor**exp)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    # -- construction helpers
    @staticmethod
    def of(x):
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            x = x._n()
        return SymNum(P.const(frac(x)))

    def is_const(self):
        return not self.den and (not self.num or
                                 (len(self.num) == 1 and P.ONE in self.num))

    def constval(self):
        return self.num.get(P.ONE, 0)

    def __repr__(self):
        return 'Sym<%s>' % show(self)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            return finish(P.add(self.num, o.num), self.den)
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = max(den.get(f, 0), e)
        a = self.num
        b = o.num
        for f, e in den.items():
            ea = e - self.den.get(f, 0)
            eb = e - o.den.get(f, 0)
            if ea or eb:
                fp = dict(f)
                for _ in range(ea):
                    a = pmul(a, fp)
                for _ in range(eb):
                    b = pmul(b, fp)
        return finish(P.add(a, b), den)
    __radd__ = __add__

    def __neg__(self):
        return SymNum(P.neg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            raise Unsupported('inf * symbolic')
        if not o.num or not self.num:
            return SymNum({})
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = den.get(f, 0) + e
        return finish(pmul(self.num, o.num), den)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return SymNum({})
        return self * recip(o)

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            raise Unsupported('inf / symbolic')
        return o * recip(self)

    def __pow__(self, k, mod=None):
        if isinstance(k, SymNum):
            if not k.is_const():
                raise Unsupported('symbolic exponent')
            k = k.constval()
        k = frac(k)
        if type(k) is int:
            if k < 0:
                return recip(self) ** (-k)
            r = SymNum(P.const(1))
            for _ in range(k):
                r = r * self
            return r
        if k == Fraction(1, 2):
            return sym_sqrt(self)
        if k == Fraction(-1, 2):
            return recip(sym_sqrt(self))
        raise Unsupported('pow %r' % (k,))

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        return (SymNum.of(o) / self).__floor__()

    def __mod__(self, o):
        return self - (self / o).__floor__() * o

    def __rmod__(self, o):
        return SymNum.of(o) % self

    def __divmod__(self, o):
        q = (self / o).__floor__()
        return q, self - q * o

    def __floor__(self):
        if self.integral():
            return self
        k = _whole('floor', self)
        ENG.assume(k <= self)
        ENG.assume(self < k + 1)
        return k

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if self.integral():
            return self
        return self.__floor__() if self >= 0 else self.__ceil__()

    def __round__(self, n=None):
        if self.integral() and (n is None or n >= 0):
            return self
        if n is not None and n >= 9:
            # below the tolerance of every comparison
            ENG.note('round() to nine and more digits treated as identity')
            return self
        d = frac(10) ** (n or 0) if (n or 0) >= 0 else \
            Fraction(1, 10 ** -n)
        y = self * d
        # a half may go either way (floats rarely hit it)
        k = _whole('round', y)
        ENG.assume(2 * k <= 2 * y + 1)
        ENG.assume(2 * y <= 2 * k + 1)
        return k / d

    def integral(self):
        if self.den:
            return False
        for m, c in self.num.items():
            if type(c) is not int:
                return False
            for v, _ in m:
                if not VARS[v].integer:
                    return False
        return True

    def is_integer(self):
        return self.integral()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    # -- comparison
    def __eq__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return False
        if isinstance(o, float):
            return False
        return mk(cmp_cond(self, o, 'eq'))

    def __ne__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return True
        if isinstance(o, float):
            return True
        return mk(c_not(cmp_cond(self, o, 'eq')))

    def __gt__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o < 0
        return mk(cmp_cond(self, o, 'gt'))

    def __ge__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o < 0
        return mk(cmp_cond(self, o, 'ge'))

    def __lt__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o > 0
        return mk(cmp_cond(o, self, 'gt'))

    def __le__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o > 0
        return mk(cmp_cond(o, self, 'ge'))

    def __bool__(self):
        return not ENG.branch(cmp_cond(self, SymNum({}), 'eq'))

    # -- escapes to native values
    def __hash__(self):
        if self.is_const():
            return hash(self.constval())
        if self.integral():
            return hash(ENG.concretise(self))
        return 7

    def __float__(self):
        if self.is_const():
            return float(self.constval())
        return float(ENG.concretise(self, fork=False))

    def __int__(self):
        if self.is_const():
            return int(self.constval())
        if self.integral():
            return int(ENG.concretise(self))
        return int(ENG.concretise(self, fork=False))

    def __index__(self):
        if self.is_const():
            c = self.constval()
            if type(c) is int:
                return c
        if self.integral():
            return int(ENG.concretise(self))
        raise TypeError('not an integer')


numbers.Real.register(SymNum)


def coerce(x):
    if type(x) is SymNum:
        return x
    if isinstance(x, bool):
        return SymNum(P.const(int(x)))
    if isinstance(x, int):
        return SymNum(P.const(int(x)))
    if isinstance(x, float):
        if x != x:
            raise Unsupported('nan')
        if x in (_math.inf, -_math.inf):
            return x
        return SymNum(P.const(frac(x)))
    if isinstance(x, Fraction):
        return SymNum(P.const(P.norm(x)))
    if isinstance(x, SymBool):
        return SymNum(P.const(x._n()))
    return NotImplemented


def finish(num, den):
    """Cancel common factors and build the value."""
    if not num:
        return SymNum({})
    if den:
        nd = {}
        for f, e in den.items():
            fp = dict(f)
            while e > 0:
                q = P.exact_div(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                nd[f] = e
        den = nd
    return SymNum(num, den)


def split_factors(p):
    """Write p as coef * prod(factor**e): monomial content split per variable,
    the rest kept as one primitive factor with positive leading coefficient.
    Returns (coef, {factorkey: exp})."""
    c, mono = P.content(p)
    rest = P.exact_div(p, {mono: c})
    fs = {}
    for v, e in mono:
        fs[P.key(P.var(v))] = e
    if len(rest) == 1 and P.ONE in rest:
        c = P.norm(c * rest[P.ONE])
    else:
        l = P.lead(rest)
        if rest[l] < 0:
            rest = P.neg(rest)
            c = -c
        fs[P.key(rest)] = fs.get(P.key(rest), 0) + 1
    return c, fs


def recip(x):
    if not x.num:
        raise ZeroDivisionError('float division by zero')
    s = fact_sign(x.num)
    if s not in (1, -1):
        if ENG.branch(cmp_cond(x, SymNum({}), 'eq')):
            raise ZeroDivisionError('float division by zero')
    c, fs = split_factors(x.num)
    num = P.const(P.norm(Fraction(1) / c))
    for f, e in x.den.items():
        fp = dict(f)
        for _ in range(e):
            num = pmul(num, fp)
    den = {}
    for f, e in fs.items():
        # rationalise: 1/r = r/arg for sqrt variables
        if len(f) == 1 and VARS[f[0][0][0][0]].kind == 'sqrt':
            V = VARS[f[0][0][0][0]]
            for _ in range(e):
                num = pmul(num, P.var(V.id))
                c2, fs2 = split_factors(V.arg)
                num = P.scale(num, P.norm(Fraction(1) / c2))
                for g, ge in fs2.items():
                    den[g] = den.get(g, 0) + ge
        else:
            den[f] = den.get(f, 0) + e
    # factors introduced by rationalisation may themselves be sqrt variables
    while True:
        hit = None
        for f in den:
            if len(f) == 1 and VARS[f[0][0][0][0]].kind == 'sqrt':
                hit = f
                break
        if hit is None:
            break
        e = den.pop(hit)
        V = VARS[hit[0][0][0][0]]
        for _ in range(e):
            num = pmul(num, P.var(V.id))
            c2, fs2 = split_factors(V.arg)
            num = P.scale(num, P.norm(Fraction(1) / c2))
            for g, ge in fs2.items():
                den[g] = den.get(g, 0) + ge
    return finish(num, den)


TINY = Fraction(1, 10 ** 11)


def drop_noise(p):
    """Coefficients that are rounding residue of float constants relative to
    the largest coefficient are dropped (documented)."""
    if not p:
        return p
    big = max(abs(c) for c in p.values())
    lim = big * Fraction(1, 10 ** 12)
    return {m: c for m, c in p.items() if abs(c) > lim}


def _draw(x):
    """The variable of a plain random draw, else None."""
    if len(x.num) == 1 and not x.den:
        for m, c in x.num.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and VARS[m[0][0]].rnd:
                return m[0][0]
    return None


def cmp_cond(a, b, op):
    """The condition a OP b for SymNums."""
    ra = _draw(a)
    if ra is not None:
        rb = _draw(b)
        if rb is not None:
            # two random draws: never equal (probability zero; ties in the
            # code's sort would fall through to comparing concepts)
            if ra == rb:
                return op != 'gt'
            if op == 'eq':
                return False
            ENG.randcmp.add((min(ra, rb), max(ra, rb)))
            if ra > rb:
                return ('gt', P.key(P.add(a.num, P.neg(b.num))))
            return c_not(('gt', P.key(P.add(b.num, P.neg(a.num)))))
    d = a + (-b) if b.num else a
    if not d.num:
        return op != 'gt'
    p = d.num
    # magnitude test for float noise: compare with the operands' coefficients
    big = 0
    for q in (a.num, b.num):
        for c in q.values():
            if abs(c) > big:
                big = abs(c)
    mx = max(abs(c) for c in p.values())
    if not d.den and mx <= big * Fraction(1, 10 ** 12):
        return op != 'gt'
    if const_noise(p):
        return op != 'gt'
    if op != 'eq':
        for f, e in d.den.items():
            if e % 2:
                s = fact_sign(dict(f))
                if s == -1:
                    p = P.neg(p)
                elif s != 1:
                    p = pmul(p, dict(f))
    c, mono = P.content(p)
    strip = []
    for v, e in mono:
        V = VARS[v]
        if V.pos:
            strip.append((v, e))
        elif op == 'eq' and e > 1:
            strip.append((v, e - 1))
        elif e > 2:
            strip.append((v, e - 2 if e % 2 == 0 else e - 1))
    p = P.exact_div(p, {tuple(strip): c})
    s = fact_sign(p)
    if s == 1:
        return op != 'eq'
    if s == -1:
        return False
    if op == 'ge' and s == '+0':
        return True
    if op == 'gt' and s == '-0':
        return False
    if op == 'eq':
        if p[P.lead(p)] < 0:
            p = P.neg(p)
    return (op, P.key(p))


def _isqrt(n):
    r = _math.isqrt(n)
    return r if r * r == n else None


def _factor_int(n):
    """[(prime, exp)] by trial division up to a bound; the cofactor is kept."""
    out = []
    d = 2
    while d * d <= n and d < 2000:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        if e:
            out.append((d, e))
        d += 1
    if n > 1:
        out.append((n, 1))
    return out


def _sqrt_var(argpoly, factors=None):
    k = ('sqrt', P.key(argpoly))
    V = VAR_BY_KEY.get(k)
    if V is None:
        s = poly_sign(argpoly)
        if factors and len(factors) > 1 and s != 1:
            ss = [poly_sign(f) for f in factors]
            if all(x in (1, -1) for x in ss):
                s = 1
        V = Var(len(VARS), 'sqrt!%d' % len(VARS), 'sqrt', pos=(s == 1),
                nonneg=True, arg=argpoly)
        V.factors = factors
        VARS.append(V)
        VAR_BY_KEY[k] = V
    SQRT_USED[0] = True
    return V


def _whole(what, x):
    """An integer variable that belongs to the expression x."""
    k = (P.key(x.num), tuple(sorted((f, e) for f, e in x.den.items())))
    return SymNum(P.var(get_var('%s:%r' % (what, k), 'base',
                                integer=True).id))


def sym_sqrt(x):
    if not isinstance(x, SymNum):
        return _REAL['sqrt'](x)
    if x.is_const():
        c = x.constval()
        if c < 0:
            raise ValueError('math domain error')
        return _sqrt_const(c)
    s = fact_sign(x.num)
    dens = [fact_sign(dict(f)) for f in x.den]
    if not (s in (1, '+0') and all(t == 1 for t in dens)):
        if ENG.branch(cmp_cond(SymNum({}), x, 'gt')):
            raise ValueError('math domain error')
    # x = c * mono * rest / prod f^e
    c, mono = P.content(x.num)
    rest = P.exact_div(x.num, {mono: c})
    out = _sqrt_const(c)
    inside = {P.ONE: 1}
    parts = []
    for v, e in mono:
        V = VARS[v]
        if e // 2:
            if V.nonneg:
                t = SymNum(P.var(v))
            else:
                t = abs(SymNum(P.var(v)))
            out = out * t ** (e // 2)
        if e % 2:
            if V.nonneg:
                out = out * SymNum(P.var(_sqrt_var(P.var(v)).id))
            else:
                inside = pmul(inside, P.var(v))
                parts.append(P.var(v))
    for f, e in x.den.items():
        fp = dict(f)
        h = (e + 1) // 2
        d = SymNum(fp)
        ps = fact_sign(fp)
        if ps == -1:
            d = -d
        elif ps != 1:
            d = abs(d)
        out = out / d ** h
        if e % 2:
            if len(fp) == 1 and ps == 1:
                # single positive variable
                out = out * SymNum(P.var(_sqrt_var(fp).id))
            else:
                inside = pmul(inside, fp)
                parts.append(fp)
    if not (len(rest) == 1 and P.ONE in rest and rest[P.ONE] == 1):
        inside = pmul(inside, rest)
        parts.append(rest)
    if not (len(inside) == 1 and P.ONE in inside):
        c2, mono2 = P.content(inside)
        if c2 != 1:
            inside = P.exact_div(inside, {P.ONE: c2})
            out = out * _sqrt_const(c2)
        V = _sqrt_var(inside, parts or None)
        out = out * SymNum(P.var(V.id))
    elif inside.get(P.ONE) != 1:
        out = out * _sqrt_const(inside[P.ONE])
    return out


def _near_sqrt(c):
    """A rational within 2**-70 (relative) of the square root."""
    n, d = c.numerator, c.denominator
    k = max(0, 160 - (n * d).bit_length())
    k += k % 2
    return Fraction(_math.isqrt((n * d) << k), d << (k // 2))


def _sqrt_const(c):
    c = Fraction(c)
    n, d = _isqrt(c.numerator), _isqrt(c.denominator)
    if n is not None and d is not None:
        return SymNum(P.const(P.norm(Fraction(n, d))))
    m = c.numerator * c.denominator
    if m > 10 ** 24:
        # an arbitrary float constant: keep the float square root
        return SymNum(P.const(P.norm(_near_sqrt(c))))
    out = SymNum(P.const(P.norm(Fraction(1, c.denominator))))
    for p, e in _factor_int(m):
        if e // 2:
            out = out * (p ** (e // 2))
        if e % 2:
            out = out * SymNum(P.var(_sqrt_var(P.const(p)).id))
    return out


def _canon_key(x):
    return (P.key(x.num), tuple(sorted(x.den.items())))


def _find_equal(kind, x):
    for V in VARS:
        if V.kind == kind:
            a = V.arg
            if (a - x).num == {}:
                return V
            if a.den == x.den and _near_poly(a.num, x.num):
                return V
    return None


def _near_poly(p, q):
    """Equal up to the rounding of float constants."""
    if len(p) != len(q):
        return False
    for m, c in p.items():
        e = q.get(m)
        if e is None or abs(c - e) > abs(c) * Fraction(1, 10 ** 12):
            return False
    return True


def const_noise(p):
    """Does p vanish, up to the rounding of constants, for every value of
    the inputs?  (Its coefficients over the inputs, which are expressions over
    constants such as pi and square roots of numbers, all evaluate to 0.)"""
    if len(p) < 2:
        return False
    g = {}
    for m, c in p.items():
        k = float(c)
        rest = []
        for v, e in m:
            x = const_var(v)
            if x is None:
                rest.append((v, e))
            else:
                k *= x ** e
        t = g.setdefault(tuple(rest), [0.0, 0.0])
        t[0] += k
        t[1] += abs(k)
    return all(abs(t) <= 1e-11 * a for t, a in g.values())


def sym_exp(x):
    if not isinstance(x, SymNum):
        return _REAL['exp'](x)
    if x.is_const():
        c = x.constval()
        if c == 0:
            return 1.0
    V = _find_equal('exp', x)
    if V is None:
        V = Var(len(VARS), 'exp!%d' % len(VARS), 'exp', pos=True, arg=x)
        VARS.append(V)
    return SymNum(P.var(V.id))


def sym_log(x, base=None):
    if base is not None:
        return sym_log(x) / sym_log(base)
    if not isinstance(x, SymNum):
        return _REAL['log'](x)
    if not (x > 0):
        raise ValueError('math domain error')
    c, fs = split_factors(x.num)
    out = SymNum({})

    def atom(p):
        # log of a positive factor polynomial
        if len(p) == 1:
            (m, k), = p.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                V = VARS[m[0][0]]
                if V.kind == 'exp':
                    return V.arg
                if V.kind == 'sqrt':
                    return sym_log(SymNum(V.arg)) / 2
        k = ('log', P.key(p))
        V = VAR_BY_KEY.get(k)
        if V is None:
            V = Var(len(VARS), 'log!%d' % len(VARS), 'log', arg=SymNum(p))
            VARS.append(V)
            VAR_BY_KEY[k] = V
        return SymNum(P.var(V.id))
    f = Fraction(c)
    if f < 0:
        f = -f
        fs = {tuple(P.key(P.neg(dict(k)))) if e % 2 and len(k) > 1 else k: e
              for k, e in fs.items()}
    for n, sg in ((f.numerator, 1), (f.denominator, -1)):
        if n > 1:
            if n < 10 ** 12:
                for p, e in _factor_int(n):
                    out = out + atom(P.const(p)) * (e * sg)
            else:
                out = out + SymNum.of(_REAL['log'](n)) * sg
    for fk, e in fs.items():
        out = out + atom(dict(fk)) * e
    for fk, e in x.den.items():
        out = out - atom(dict(fk)) * e
    return out


_REAL = {n: getattr(_math, n) for n in ('sqrt', 'exp', 'log', 'isnan', 'pow',
                                        'fabs', 'isinf', 'isfinite', 'fsum',
                                        'isclose', 'floor', 'ceil', 'log2',
                                        'log10', 'hypot', 'gamma', 'lgamma',
                                        'prod')}


def show(x, limit=6):
    def sp(p):
        ts = []
        for m, c in list(p.items())[:limit]:
            s = '*'.join('%s%s' % (VARS[v].name, '^%d' % e if e > 1 else '')
                         for v, e in m)
            ts.append(('%s*%s' % (c, s)) if s else str(c))
        if len(p) > limit:
            ts.append('...')
        return ' + '.join(ts) or '0'
    s = sp(x.num)
    if x.den:
        s = '(%s)/(%s)' % (s, ')('.join(sp(dict(f)) + ('^%d' % e if e > 1 else
                                                       '')
                                        for f, e in x.den.items()))
    return s


# ------------------------------------------------------------------- SymStr
_WS = ' \t\n\r\x0b\x0c'


class SymStr(str):
    """A string of concrete length; characters at or above CH0 stand for
    solver variables.  All strings of the encoded code use this class and one
    constant hash, so that symbolic and literal strings meet in dicts."""
    __slots__ = ()

    def _sym(self):
        for c in str.__str__(self):
            if ord(c) >= CH0:
                return True
        return False

    def __hash__(self):
        return 7

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, str):
            return False
        c = str_eq(self, o)
        if c is True or c is False:
            return c
        return ENG.branch(c)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return str_lt(self, o, False)

    def __le__(self, o):
        return str_lt(self, o, True)

    def __gt__(self, o):
        return str_lt(o, self, False)

    def __ge__(self, o):
        return str_lt(o, self, True)

    def __getitem__(self, i):
        return SymStr(str.__getitem__(self, i))

    def __iter__(self):
        for c in str.__iter__(self):
            yield SymStr(c)

    def __add__(self, o):
        if not isinstance(o, str):
            return str.__add__(self, o)
        return SymStr(str.__add__(self, o))

    def __radd__(self, o):
        return SymStr(str.__add__(o, self))

    def __mul__(self, n):
        return SymStr(str.__mul__(self, n))
    __rmul__ = __mul__

    def __mod__(self, o):
        return SymStr(str.__mod__(self, o))

    def __str__(self):
        return self

    def __repr__(self):
        if self._sym():
            return "'" + str.__str__(self) + "'"
        return str.__repr__(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (SymStr, (str.__str__(self),))

    def __format__(self, spec):
        return str.__format__(str.__str__(self)[:], spec)

    def format(self, *a, **k):
        return SymStr(str.format(self, *a, **k))

    def join(self, it):
        return SymStr(str.join(self, it))

    def _resolve(self, chars):
        """Decide, for every symbolic character, whether it equals one of the
        given concrete characters; substitute the decided ones."""
        out = []
        for c in str.__iter__(self):
            if ord(c) >= CH0:
                for k in chars:
                    if ord(k) >= CH0:
                        continue
                    if ENG.branch(ch_eq(ord(c), ord(k))):
                        c = k
                        break
            out.append(c)
        return ''.join(out)

    def __contains__(self, o):
        if not isinstance(o, str):
            return str.__contains__(self, o)
        n = len(o)
        for i in range(len(self) - n + 1):
            if SymStr(str.__getitem__(self, slice(i, i + n))) == o:
                return True
        return False

    def startswith(self, p, *a):
        if a:
            return SymStr(str.__getitem__(self, slice(*a))).startswith(p)
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        if len(p) > len(self):
            return False
        return SymStr(str.__getitem__(self, slice(0, len(p)))) == p

    def endswith(self, p, *a):
        if a:
            return SymStr(str.__getitem__(self, slice(*a))).endswith(p)
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        if len(p) > len(self):
            return False
        return SymStr(str.__getitem__(self,
                                      slice(len(self) - len(p), None))) == p

    def _cls(self, name, ranges):
        if not self._sym():
            return getattr(str.__str__(self)[:] and ''.join(
                str.__iter__(self)), name)()
        if len(self) == 0:
            return False
        for c in str.__iter__(self):
            if ord(c) >= CH0:
                if not ENG.branch(('cr', ord(c), ranges)):
                    return False
            elif not getattr(c, name)():
                return False
        return True

    def isdigit(self):
        return self._cls('isdigit', ((48, 57),))

    def isdecimal(self):
        return self._cls('isdecimal', ((48, 57),))

    def isnumeric(self):
        return self._cls('isnumeric', ((48, 57),))

    def isalpha(self):
        return self._cls('isalpha', ((65, 90), (97, 122)))

    def isalnum(self):
        return self._cls('isalnum', ((48, 57), (65, 90), (97, 122)))

    def isspace(self):
        return self._cls('isspace', ((9, 13), (32, 32)))

    def _native(self, name, chars, *a):
        s = self._resolve(chars)
        return wrap(getattr(s, name)(*a))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._native('split', _WS, None, maxsplit)
        return self._native('split', sep, plain(sep), maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._native('rsplit', _WS, None, maxsplit)
        return self._native('rsplit', sep, plain(sep), maxsplit)

    def splitlines(self, *a):
        return self._native('splitlines', '\n\r', *a)

    def strip(self, ch=None):
        return self._native('strip', ch or _WS, ch and plain(ch))

    def lstrip(self, ch=None):
        return self._native('lstrip', ch or _WS, ch and plain(ch))

    def rstrip(self, ch=None):
        return self._native('rstrip', ch or _WS, ch and plain(ch))

    def partition(self, sep):
        return self._native('partition', sep, plain(sep))

    def rpartition(self, sep):
        return self._native('rpartition', sep, plain(sep))

    def find(self, sub, *a):
        return self._native('find', sub, plain(sub), *a)

    def rfind(self, sub, *a):
        return self._native('rfind', sub, plain(sub), *a)

    def index(self, sub, *a):
        return self._native('index', sub, plain(sub), *a)

    def count(self, sub, *a):
        return self._native('count', sub, plain(sub), *a)

    def replace(self, old, new, n=-1):
        return self._native('replace', old, plain(old), plain(new), n)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return self[:-len(p)]
        return self

    def _case(self, rng, off):
        out = []
        for c in str.__iter__(self):
            if ord(c) >= CH0:
                if ENG.branch(('cr', ord(c), rng)):
                    for k in range(rng[0][0], rng[0][1] + 1):
                        if ENG.branch(ch_eq(ord(c), k)):
                            c = chr(k + off)
                            break
            elif rng[0][0] <= ord(c) <= rng[0][1]:
                c = chr(ord(c) + off)
            out.append(c)
        return SymStr(''.join(out))

    def lower(self):
        if self._sym():
            return self._case(((65, 90),), 32)
        return SymStr(str.lower(self))

    def upper(self):
        if self._sym():
            return self._case(((97, 122),), -32)
        return SymStr(str.upper(self))

    def title(self):
        if self._sym():
            raise Unsupported('title() of a symbolic string')
        return SymStr(str.title(self))

    def capitalize(self):
        if self._sym():
            raise Unsupported('capitalize() of a symbolic string')
        return SymStr(str.capitalize(self))

    def encode(self, *a):
        if self._sym():
            raise Unsupported('encode() of a symbolic string')
        return str.encode(self, *a)


def plain(s):
    """The native str with the same buffer."""
    return ''.join(str.__iter__(s)) if isinstance(s, SymStr) else s


def wrap(x):
    if type(x) is str:
        return SymStr(x)
    if type(x) is list:
        return [wrap(i) for i in x]
    if type(x) is tuple:
        return tuple(wrap(i) for i in x)
    if type(x) is dict:
        return {wrap(k): wrap(v) for k, v in x.items()}
    return x


def ch_eq(a, b):
    if a == b:
        return True
    if a < CH0 and b < CH0:
        return False
    if a < CH0 or (b >= CH0 and b < a):
        a, b = b, a
    return ('ch', a, b)


def str_eq(a, b):
    if a is b or str.__eq__(a, b):
        return True
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(str.__iter__(a), str.__iter__(b)):
        c = ch_eq(ord(x), ord(y))
        if c is False:
            return False
        cs.append(c)
    return c_and(cs)


def str_lt(a, b, orequal):
    if not isinstance(a, str) or not isinstance(b, str):
        raise TypeError("'<' not supported between instances")
    for x, y in zip(str.__iter__(a), str.__iter__(b)):
        x, y = ord(x), ord(y)
        if x == y:
            continue
        if x < CH0 and y < CH0:
            return x < y
        if ENG.branch(ch_eq(x, y)):
            continue
        return ENG.branch(('clt', x, y))
    if len(a) == len(b):
        return orequal
    return len(a) < len(b)


# ------------------------------------------------------------------- engine
class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.forks = 0
        self.assert_queries = 0
        self.asserts = 0
        self.notes = {}

    def asdict(self):
        return dict(self.__dict__)


class Engine(object):
    def __init__(self):
        self.stats = Stats()
        self.nl_timeout = 300
        self.lazy = True
        self.guard_s = None
        self.max_decisions = 20000
        self.seed = 0
        self.begin([])

    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []           # decisions taken
        self.alts = []            # alternative prefixes discovered
        self.pc = []              # all conditions
        self.nonlinear = False
        self.decided = {}
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', 20000)
        self.derived = set()
        self.names = {}           # name -> spec (for models)
        self.order = []
        self.nchars = 0
        self.charsets = {}
        self.nrand = 0
        self.rands = []
        self.rcs = []
        self.forced = []
        self.calm = None
        self.randcmp = set()
        self.fixed = None
        self.nrc = 0
        self.randlog = []
        self.concretised = False
        self.unknown_path = False

    def note(self, msg):
        self.stats.notes[msg] = self.stats.notes.get(msg, 0) + 1

    # -- asserting facts
    def add(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        vs = set()
        cond_vars(c, vs)
        for v in vs:
            self.need(v)
        if cond_linear(c):
            self.solver.add(cond_z(c))
        else:
            self.nonlinear = True

    def need(self, v):
        """Assert the defining facts of derived variables once per path."""
        if v in self.derived:
            return
        V = VARS[v]
        if V.kind == 'base':
            if V.rnd:
                self.derived.add(v)
                self.add(('ge', P.key(P.var(v))))
                self.add(('gt', P.key(P.add(P.neg(P.var(v)), P.const(1)))))
            return
        self.derived.add(v)
        if V.kind == 'pi':
            self.add(('gt', P.key(P.add(P.var(v), P.const(
                -Fraction(314159265358979, 10 ** 14))))))
            self.add(('gt', P.key(P.add(P.neg(P.var(v)), P.const(
                Fraction(314159265358980, 10 ** 14))))))
        elif V.kind == 'sqrt':
            for w in P.variables(V.arg):
                self.need(w)
            self.add(('gt' if V.pos else 'ge', P.key(P.var(v))))
            d = P.add(P.raw_mul(P.var(v), P.var(v)), P.neg(V.arg))
            if len(V.arg) == 1 and P.ONE in V.arg:
                # constant radicand: give the linear solver good bounds too
                r = _REAL['sqrt'](V.arg[P.ONE])
                lo = Fraction(r) * (1 - Fraction(1, 10 ** 12))
                hi = Fraction(r) * (1 + Fraction(1, 10 ** 12))
                self.add(('gt', P.key(P.add(P.var(v), P.const(-lo)))))
                self.add(('gt', P.key(P.add(P.neg(P.var(v)), P.const(hi)))))
            self.add(('eq', P.key(d)))
        elif V.kind == 'exp':
            x = V.arg
            for w in P.variables(x.num):
                self.need(w)
            self.add(('gt', P.key(P.var(v))))
            e = SymNum(P.var(v))
            # x <= 0 <-> e <= 1 ; e >= 1 + x
            le0 = cmp_cond(SymNum({}), x, 'ge')
            le1 = cmp_cond(SymNum(P.const(1)), e, 'ge')
            self.add(c_or([c_not(le0), le1]))
            self.add(c_or([le0, c_not(le1)]))
            self.add(cmp_cond(e, x + 1, 'ge'))
            for w in list(self.derived):
                W = VARS[w]
                if W.kind == 'exp' and w != v:
                    a = cmp_cond(x, W.arg, 'ge')
                    b = cmp_cond(e, SymNum(P.var(w)), 'ge')
                    self.add(c_or([c_not(a), b]))
                    self.add(c_or([a, c_not(b)]))
        elif V.kind == 'log':
            x = V.arg
            for w in P.variables(x.num):
                self.need(w)
            e = SymNum(P.var(v))
            ge1 = cmp_cond(x, SymNum(P.const(1)), 'ge')
            ge0 = cmp_cond(e, SymNum({}), 'ge')
            self.add(c_or([c_not(ge1), ge0]))
            self.add(c_or([ge1, c_not(ge0)]))
            self.add(cmp_cond(x - 1, e, 'ge'))
            if x.is_const():
                r = _REAL['log'](x.constval())
                self.add(cmp_cond(e, SymNum.of(r - 1e-9), 'ge'))
                self.add(cmp_cond(SymNum.of(r + 1e-9), e, 'ge'))

    # -- solver access
    def _check(self, solver, *extra):
        t = time.perf_counter()
        if self.guard_s:
            w = threading.Timer(self.guard_s, z3.main_ctx().interrupt)
            w.daemon = True
            w.start()
            try:
                r = solver.check(*extra)
            finally:
                w.cancel()
        else:
            r = solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def full_solver(self, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        for c in self.pc:
            s.add(cond_z(c))
        return s

    def feasible(self, c):
        vs = set()
        cond_vars(c, vs)
        for v in vs:
            self.need(v)
        if cond_linear(c):
            return self._check(self.solver, cond_z(c)) != z3.unsat
        if self.lazy:
            return True
        s = self.full_solver(self.nl_timeout)
        s.add(cond_z(c))
        r = self._check(s)
        if r == z3.unknown:
            self.unknown_path = True
        return r != z3.unsat

    # -- decisions
    def branch(self, c):
        if c is True or c is False:
            return c
        neg = False
        if c[0] == 'not':
            c = c[1]
            neg = True
        v = self.decided.get(c)
        if v is not None:
            return v != neg
        i = len(self.trace)
        if i < len(self.prefix):
            out = self.prefix[i]
            self.trace.append(out)
            out = bool(out)
        else:
            if i > self.max_decisions:
                raise Stop('too many decisions')
            t = self.feasible(c)
            f = self.feasible(c_not(c)) if t else True
            if t and f:
                self.stats.forks += 1
                self.alts.append(self.trace + [0])
                out = True
            else:
                out = t
            self.trace.append(1 if out else 0)
        self.decided[c] = out
        self.decided[c_not(c)] = not out
        if c[0] == 'gt' or c[0] == 'ge':
            self._implied(c, out)
        self.add(c if out else c_not(c))
        return out != neg

    def _implied(self, c, out):
        """p > 0 settles p >= 0, p == 0 and the opposite comparisons."""
        pk = c[1]
        npk = P.key(P.neg(dict(pk)))
        d = dict(pk)
        ek = pk if d[P.lead(d)] > 0 else npk
        if c[0] == 'gt' and out:
            self.decided[('ge', pk)] = True
            self.decided[('eq', ek)] = False
            self.decided[('gt', npk)] = False
            self.decided[('ge', npk)] = False
        elif c[0] == 'ge' and not out:
            self.decided[('gt', pk)] = False
            self.decided[('eq', ek)] = False
            self.decided[('gt', npk)] = True
            self.decided[('ge', npk)] = True

    def choose(self, n):
        """An n-way choice without a condition (harness / random stubs)."""
        if n <= 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            out = self.prefix[i]
        else:
            out = 0
            for k in range(1, n):
                self.alts.append(self.trace + [k])
            self.stats.forks += n - 1
        self.trace.append(out)
        return out

    def concretise(self, x, fork=True):
        """A concrete value of x.  With fork=True all values are explored (one
        path each); with fork=False only one value is followed, recorded."""
        vs = set(P.variables(x.num))
        for f in x.den:
            vs |= P.variables(dict(f))
        for v in vs:
            self.need(v)
        for _ in range(1000):
            i = len(self.trace)
            if i < len(self.prefix):
                ent = self.prefix[i]
            else:
                s = self.full_solver(5000) if self.nonlinear else self.solver
                ints = [VARS[v].z for v in vs if VARS[v].integer]
                s.push()
                try:
                    for z in ints:
                        s.add(z3.IsInt(z))
                    r = self._check(s)
                    if r == z3.unsat:
                        raise Infeasible()
                    if r != z3.sat:
                        raise Unsupported('concretise: no model')
                    val = eval_sym(x, s.model())
                finally:
                    s.pop()
                if val is None:
                    raise Unsupported('concretise: algebraic value')
                ent = (val, 1)
                c = cmp_cond(x, SymNum(P.const(val)), 'eq')
                if fork and c is not True and self.feasible(c_not(c)):
                    self.alts.append(self.trace + [(val, 0)])
                    self.stats.forks += 1
            self.trace.append(ent)
            val, taken = ent
            c = cmp_cond(x, SymNum(P.const(val)), 'eq')
            if not fork:
                self.concretised = True
                self.note('value concretised (formatting/native call)')
            if c is not True and c is not False:
                self.decided[c] = bool(taken)
                self.add(c if taken else c_not(c))
            if taken:
                return val
        raise Unsupported('concretise: too many values')

    def assume(self, c):
        c = as_cond(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if self.decided.get(c) is True:
            return
        if not self.feasible(c):
            raise Infeasible()
        self.add(c)
        if c[0] in ('gt', 'ge'):
            self.decided[c] = True
            self._implied(c, True)
        elif c[0] == 'not':
            self.decided[c[1]] = False
        else:
            self.decided[c] = True

    # -- final assertion: None when it holds, else ('sat', model) / 'unknown'
    def refute(self, c, timeout=10000):
        """Is not-c satisfiable with the path condition?"""
        self.stats.asserts += 1
        c = as_cond(c)
        if c is True:
            return None
        if c is not False and self.decided.get(c) is True:
            return None
        nc = c_not(c)
        vs = set()
        cond_vars(nc, vs)
        for v in vs:
            self.need(v)
        self.stats.assert_queries += 1
        if nc is not True and cond_linear(nc):
            if self._check(self.solver, cond_z(nc)) == z3.unsat:
                return None
        if nc is True and not self.nonlinear:
            if self._check(self.solver) == z3.unsat:
                return None
        if self.nonlinear or (nc is not True and not cond_linear(nc)):
            if self.abstract_unsat(nc):
                return None
        m = self.model_for(nc, timeout)
        if m is None:
            return None
        return m

    def abstract_unsat(self, nc):
        """Is the path condition with nc already contradictory when every
        non-linear monomial is an arbitrary real (of its known sign)?"""
        s = z3.SimpleSolver()
        s.set('timeout', 3000)
        monos = {}

        def poly(pk):
            ts = []
            for m, c in pk:
                if not m:
                    ts.append(ratval(c))
                    continue
                if len(m) == 1 and m[0][1] == 1:
                    z = VARS[m[0][0]].z
                else:
                    z = monos.get(m)
                    if z is None:
                        z = z3.Real('m!%d' % len(monos))
                        monos[m] = z
                        pos = nn = True
                        for v, e in m:
                            V = VARS[v]
                            if V.pos:
                                continue
                            pos = False
                            if not (V.nonneg or e % 2 == 0):
                                nn = False
                        if pos:
                            s.add(z > 0)
                        elif nn:
                            s.add(z >= 0)
                ts.append(ratval(c) * z)
            return z3.Sum(ts)

        def tr(c):
            if c is True or c is False:
                return z3.BoolVal(c)
            k = c[0]
            if k == 'gt':
                return poly(c[1]) > 0
            if k == 'ge':
                return poly(c[1]) >= 0
            if k == 'eq':
                return poly(c[1]) == 0
            if k == 'not':
                return z3.Not(tr(c[1]))
            if k == 'and':
                return z3.And([tr(x) for x in c[1]])
            if k == 'or':
                return z3.Or([tr(x) for x in c[1]])
            return cond_z(c)
        for c in self.pc:
            s.add(tr(c))
        if nc is not True:
            s.add(tr(nc))
        return self._check(s) == z3.unsat

    def model_for(self, extra=True, timeout=10000):
        """A model dict, None when unsatisfiable, 'unknown' otherwise."""
        ints = [VARS[v].z for v in range(len(VARS)) if VARS[v].kind == 'base'
                and VARS[v].integer and VARS[v].name in self.names]
        attempts = []
        if self.nonlinear or (extra is not True and not cond_linear(extra)):
            attempts = ['nl', 'smt']
        else:
            attempts = ['lin']
        self.guard_s = timeout / 1000.0 * 1.2 + .3 if attempts[0] == 'nl' else None
        try:
            return self._model_for(attempts, ints, extra, timeout)
        finally:
            self.guard_s = None

    def _model_for(self, attempts, ints, extra, timeout):
        best = None
        for a in attempts:
            if a == 'nl':
                s = z3.Tactic('qfnra-nlsat').solver() \
                    if not self.nchars else z3.Solver()
            else:
                s = z3.Solver()
            s.set('timeout', timeout)
            for c in self.pc:
                s.add(cond_z(c))
            if extra is not True:
                s.add(cond_z(extra))
            for x, y in self.randcmp:
                s.add(VARS[x].z != VARS[y].z)
            if a != 'nl' and ints:
                s.push()
                for z in ints:
                    s.add(z3.IsInt(z))
                r = self._check(s)
                if r == z3.sat:
                    return self.model_dict(s.model())
                s.pop()
            r = self._check(s)
            if r == z3.unsat:
                return None
            if r == z3.sat:
                best = s.model()
                if not ints or a != 'nl':
                    return self.model_dict(best)
        if best is not None:
            return self.model_dict(best)
        if attempts[0] == 'nl':
            m = self.guess_model(extra)
            if m is not None:
                return m
        return 'unknown'

    def guess_model(self, extra, tries=8):
        """The solver could not decide: it is asked again with the inputs bound
        to simple values that the linear part of the path condition allows."""
        rng = _Random(len(self.trace))
        base = [V for V in VARS if V.kind == 'base' and V.name in self.names
                and not V.rnd]
        guard, self.guard_s = self.guard_s, None
        try:
            for t in range(tries):
                s = self.solver
                depth = s.num_scopes()
                s.push()
                vals = []
                try:
                    order = list(base)
                    rng.shuffle(order)
                    for V in order:
                        v = rng.choice([0, 1, 2, 3, 5, 7, 10, -1, -4, 100]) \
                            if t or V.integer else rng.randint(1, 9)
                        if V.pos and v <= 0 or V.nonneg and v < 0:
                            v = 1 - v
                        s.push()
                        s.add(V.z == v)
                        if self._check(s) != z3.sat:
                            s.pop()
                            if self._check(s) != z3.sat:
                                return None
                            m = s.model().eval(V.z, model_completion=True)
                            s.push()
                            s.add(V.z == m)
                            v = m
                        vals.append(V.z == v)
                finally:
                    s.pop(s.num_scopes() - depth)
                f = z3.Solver()
                f.set('timeout', 700)
                for c in self.pc:
                    f.add(cond_z(c))
                if extra is not True:
                    f.add(cond_z(extra))
                for c in vals:
                    f.add(c)
                if self._check(f) == z3.sat:
                    return self.model_dict(f.model())
        except z3.Z3Exception:
            return None
        finally:
            self.guard_s = guard
        return None

    def model_dict(self, m):
        out = {}
        for name in self.order:
            spec = self.names[name]
            if spec[0] == 'num':
                if VARS[spec[1]].rnd and spec[1] not in self.derived:
                    out[name] = list(fixed_unit(spec[1] + 1)
                                     .as_integer_ratio())
                    continue
                out[name] = zval(m, VARS[spec[1]].z)
            elif spec[0] == 'str':
                s = ''
                for ch in spec[1]:
                    o = ord(ch)
                    if o >= CH0:
                        v = m.eval(char_z(o), model_completion=True)
                        s += chr(v.as_long())
                    else:
                        s += ch
                out[name] = s
            elif spec[0] == 'choice':
                out[name] = spec[1]
        return out

    # -- inputs
    def declare(self, name, spec):
        if name in self.names:
            raise AssertionError('duplicate input name ' + name)
        self.names[name] = spec
        self.order.append(name)

    def new_real(self, name, lo=None, hi=None, integer=False, hi_open=False,
                 lo_open=False):
        pos = lo is not None and (lo > 0 or (lo == 0 and lo_open))
        nonneg = lo is not None and lo >= 0
        V = get_var(name, 'base', pos=pos, nonneg=nonneg, integer=integer)
        self.declare(name, ('num', V.id))
        x = SymNum(P.var(V.id))
        if lo is not None:
            k = ('gt' if lo_open else 'ge',
                 P.key(P.add(P.var(V.id), P.const(-frac(lo)))))
            self.add(k)
        if hi is not None:
            k = ('gt' if hi_open else 'ge',
                 P.key(P.add(P.neg(P.var(V.id)), P.const(frac(hi)))))
            self.add(k)
        return x

    def new_char(self, ranges):
        code = CH0 + self.nchars
        self.nchars += 1
        self.add(('cr', code, ranges))
        return chr(code)

    def random_unit(self):
        if self.forced:
            return self.forced.pop(0)
        if self.fixed is not None:
            self.fixed += 1
            return fixed_unit(self.fixed)
        if self.nrand < len(self.rands):          # rewound
            self.nrand += 1
            return SymNum(P.var(self.rands[self.nrand - 1]))
        name = 'rnd%d' % self.nrand
        self.nrand += 1
        V = get_var(name, 'base', nonneg=True)
        V.rnd = True
        self.declare(name, ('num', V.id))
        self.rands.append(V.id)
        return SymNum(P.var(V.id))

    def random_choice(self, n):
        if self.fixed is not None:
            self.fixed += 1
            return int(fixed_unit(self.fixed) * n)
        if self.nrc < len(self.rcs):              # rewound
            self.nrc += 1
            return min(self.rcs[self.nrc - 1], n - 1)
        name = 'rc%d' % self.nrc
        self.nrc += 1
        k = self.choose(n)
        self.rcs.append(k)
        self.declare(name, ('choice', k))
        return k


def zval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return [v.numerator_as_long(), v.denominator_as_long()]


def eval_sym(x, m):
    """Exact rational value of x in the model (None when irrational)."""
    env = {}

    def ev(p):
        t = Fraction(0)
        for mm, c in p.items():
            k = Fraction(c)
            for v, e in mm:
                if v not in env:
                    z = m.eval(VARS[v].z, model_completion=True)
                    if z3.is_algebraic_value(z):
                        return None
                    env[v] = Fraction(z.numerator_as_long(),
                                      z.denominator_as_long())
                k *= env[v] ** e
            t += k
        return t
    n = ev(x.num)
    if n is None:
        return None
    for f, e in x.den.items():
        d = ev(dict(f))
        if d is None or d == 0:
            return None
        n /= d ** e
    return P.norm(n)


ENG = Engine()
