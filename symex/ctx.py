"""Harness contexts.

A harness is one function over a context object.  Run with SymCtx its inputs
are symbolic and `check` asks the solver; run with ConCtx (replay, under the
repository's own interpreter, on the unmodified code) its inputs are the
solver's values and `check` is evaluated concretely.
"""
import importlib
import sys


class Skip(Exception):
    """Concrete mode: the assumptions do not hold for these values."""


class Violated(Exception):
    pass


TOL = 1e-6


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class Base(object):
    symbolic = False

    def m(self, name):
        return importlib.import_module('concept_formation.' + name)

    # ---- structural comparison (forks on symbolic leaves, so decided on the
    # path); numbers are compared by eq
    def same(self, a, b):
        if self.is_num(a) and self.is_num(b):
            return self.truth(self.eq(a, b))
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        if isinstance(a, dict):
            if not isinstance(b, dict) or len(a) != len(b):
                return False
            for k in a:
                if k not in b or not self.same(a[k], b[k]):
                    return False
            return True
        if isinstance(a, (list, tuple)):
            if type(a) != type(b) or len(a) != len(b):
                return False
            return all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (set, frozenset)):
            return (isinstance(b, (set, frozenset)) and len(a) == len(b) and
                    all(x in b for x in a))
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return a == b

    def ok(self, msg=''):
        """Marks that a check point was reached (vacuity guard)."""
        self.reached += 1

    def fix_random(self, on):
        """While on, the random draws are a fixed sequence (a concrete
        beginning of a history); afterwards they are arbitrary."""
        (self.e if self.symbolic else self).fixed = 0 if on else None

    def calm_normals(self, after=0):
        """After that many draws normal draws lie within one deviation (used where
        the code repeats a draw until it does)."""
        if self.symbolic:
            self.e.calm = after

    def force(self, draws):
        """The next uniform draws return these values."""
        (self.e if self.symbolic else self).forced = list(draws)

    def forced_left(self):
        return len((self.e if self.symbolic else self).forced)

    def mark(self):
        """A point in the sequence of random draws."""
        return (self.e.nrand, self.e.nrc) if self.symbolic else (
            self.tape.i, self.tape.c)

    def rewind(self, m):
        """From here on the draws repeat those made since mark()."""
        if self.symbolic:
            self.e.nrand, self.e.nrc = m
        else:
            self.tape.i, self.tape.c = m

    def lez(self, a, b):
        """a <= b up to an absolute error of 1e-6."""
        return a <= b + TOL

    def raises(self, exc, fn, *a, **k):
        """True when fn raises exc (or a subclass), False when it returns."""
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def close(self, a, b, tol=1e-6):
        """|a-b| <= tol*(1+|b|) as a condition."""
        if not self.symbolic:
            return abs(a - b) <= tol * (1 + abs(b))
        return self.band(a - b <= tol * (1 + abs(b)),
                         b - a <= tol * (1 + abs(b)))


class ConCtx(Base):
    def __init__(self, model, cfg):
        self.model = model
        self.cfg = cfg
        self.reached = 0
        self.log = []
        self.randlog = []
        self.warn = []
        self.fixed = None
        self.forced = []

    def S(self, s):
        if isinstance(s, list):          # tuples, after a trip through JSON
            return tuple(self.S(x) for x in s)
        return s

    def is_num(self, x):
        return isnum(x)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.model.get(name)
        if v is None:
            v = [0, 1] if lo is None else [int(lo) + 1, 1]
        x = v[0] / v[1]
        self.log.append((name, x))
        return x

    def integer(self, name, lo=None, hi=None):
        v = self.model.get(name)
        if v is None:
            v = [lo or 0, 1]
        x = v[0] // v[1]
        self.log.append((name, x))
        return x

    def string(self, name, n, ranges=None, first=None):
        v = self.model.get(name)
        if v is None:
            v = 'a' * n
        self.log.append((name, v))
        return v

    def choice(self, name, opts):
        k = self.model.get(name, 0)
        n = opts if isinstance(opts, int) else len(opts)
        k = min(k, n - 1)
        r = k if isinstance(opts, int) else opts[k]
        self.log.append((name, repr(r)))
        return r

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg):
        self.reached += 1
        if not c:
            raise Violated(msg)

    def truth(self, c):
        return bool(c)

    def eq(self, a, b):
        if a == b:
            return True
        return abs(a - b) <= TOL * (1 + max(abs(a), abs(b)))

    def eqs(self, a, b, scale):
        """Equal up to rounding relative to scale (for small quantities)."""
        return a == b or abs(a - b) <= TOL * abs(scale)

    def le(self, a, b):
        return a <= b + TOL * (1 + max(abs(a), abs(b)))

    def lt(self, a, b):
        return a < b + TOL * (1 + max(abs(a), abs(b)))

    def band(self, *cs):
        return all(cs)

    def bor(self, *cs):
        return any(cs)

    def bnot(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def sqrt(self, x):
        import math
        return math.sqrt(max(x, 0.0))

    def exp(self, x):
        import math
        return math.exp(x)

    def logn(self, x):
        import math
        return math.log(x)

    @property
    def pi(self):
        import math
        return math.pi


try:
    from . import core
    from .core import SymNum, SymStr, SymBool, as_cond, c_and, c_or, c_not, mk
except ImportError:                      # concrete mode: no solver installed
    core = None


LETTERS = ((97, 122),)
NAMECH = ((33, 39), (42, 126))           # printable, without blanks, ( and )
ANYCH = ((32, 126),)


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, cfg):
        self.e = eng
        self.cfg = cfg
        self.reached = 0
        self.nchecks = 0

    @property
    def randlog(self):
        return self.e.randlog

    def S(self, s):
        return core.wrap(s)

    def is_num(self, x):
        return isinstance(x, SymNum) or isnum(x)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self.e.new_real(name, lo, hi, lo_open=lo_open, hi_open=hi_open)

    def integer(self, name, lo=None, hi=None):
        return self.e.new_real(name, lo, hi, integer=True)

    def string(self, name, n, ranges=None, first=None):
        s = ''
        for i in range(n):
            s += self.e.new_char(first if i == 0 and first else
                                 ranges or NAMECH)
        self.e.declare(name, ('str', s))
        return SymStr(s)

    def choice(self, name, opts):
        n = opts if isinstance(opts, int) else len(opts)
        k = self.e.choose(n)
        self.e.declare(name, ('choice', k))
        return k if isinstance(opts, int) else core.wrap(opts[k])

    def assume(self, c):
        self.e.assume(c)

    def truth(self, c):
        return bool(c)

    def check(self, c, msg):
        self.reached += 1
        self.nchecks += 1
        r = self.e.refute(c, self.cfg.get('_assert_timeout', 10000))
        if r is None:
            return
        if r == 'unknown':
            self.e.unknown_path = True
            raise core.Unsupported('assertion undecided: ' + msg)
        v = core.Violation(msg)
        v.model = r
        raise v

    def eq(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b or abs(a - b) <= TOL * (1 + max(abs(a), abs(b)))
        if self.is_num(a) and self.is_num(b):
            x, y = core.const_num(a), core.const_num(b)
            if x is not None and y is not None:
                return abs(x - y) <= TOL * (1 + max(abs(x), abs(y)))
        return a == b

    def eqs(self, a, b, scale):
        x, y, s = [core.const_num(z) if self.is_num(z) else None
                   for z in (a, b, scale)]
        if None not in (x, y, s):
            return x == y or abs(x - y) <= TOL * abs(s)
        return a == b

    def le(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a <= b + TOL * (1 + max(abs(a), abs(b)))
        x, y = core.const_num(a), core.const_num(b)
        if x is not None and y is not None:
            return x <= y + TOL * (1 + max(abs(x), abs(y)))
        return a <= b

    def lt(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b + TOL * (1 + max(abs(a), abs(b)))
        x, y = core.const_num(a), core.const_num(b)
        if x is not None and y is not None:
            return x < y + TOL * (1 + max(abs(x), abs(y)))
        return a < b

    def band(self, *cs):
        return mk(c_and([as_cond(c) for c in cs]))

    def bor(self, *cs):
        return mk(c_or([as_cond(c) for c in cs]))

    def bnot(self, c):
        return mk(c_not(as_cond(c)))

    def implies(self, a, b):
        return mk(c_or([c_not(as_cond(a)), as_cond(b)]))

    def sqrt(self, x):
        return core.sym_sqrt(SymNum.of(x))

    def exp(self, x):
        return core.sym_exp(x)

    def logn(self, x):
        return core.sym_log(SymNum.of(x))

    @property
    def pi(self):
        return SymNum(core.P.var(core.PI.id))
