"""Loads /repo's current source for symbolic execution.

The source text is read from /repo on every run, parsed, and compiled after
one mechanical rewriting: string literals become SymStr literals (so that
symbolic and literal strings share one hash and one comparison).  Nothing else
of the code is changed.  `math` and `random` functions are replaced by
symbolic versions / nondeterministic stubs before the modules execute, and the
builtins that force native values (str, float, int, type, hash, getattr,
print, ...) are shadowed in the modules' globals.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import itertools
import math
import operator
import os
import random
import re
import sys
import types

from . import core
from .bare import bare
from .core import SymNum, SymStr, SymBool, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'concept_formation'


class Rewriter(ast.NodeTransformer):
    def _body(self, node):
        doc = None
        if (node.body and isinstance(node.body[0], ast.Expr) and
                isinstance(node.body[0].value, ast.Constant) and
                isinstance(node.body[0].value.value, str)):
            doc = node.body[0]
            node.body = node.body[1:] or [ast.Pass()]
        self.generic_visit(node)
        kw = getattr(getattr(node, 'args', None), 'kwarg', None)
        if kw is not None:          # its keys are names the code looks up
            node.body.insert(0, ast.Assign(
                [ast.Name(kw.arg, ast.Store())],
                ast.Call(ast.Name('__lift__', ast.Load()),
                         [ast.Name(kw.arg, ast.Load())], [])))
        if doc is not None:
            node.body = [doc] + node.body
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if not node.keywords:
            return node
        f = node.func
        if not ((isinstance(f, ast.Name) and f.id in (
                'dict', 'OrderedDict', 'Counter')) or
                (isinstance(f, ast.Attribute) and f.attr == 'update')):
            for k in node.keywords:
                if k.arg is None:
                    k.value = ast.Call(ast.Name('__lower__', ast.Load()),
                                       [k.value], [])
            return node
        # dict(d, name=v), d.update(name=v): the names become keys
        d = ast.Dict([None if k.arg is None else ast.Call(
            ast.Name('__S__', ast.Load()), [ast.Constant(k.arg)], [])
            for k in node.keywords], [k.value for k in node.keywords])
        return ast.copy_location(ast.Call(
            ast.Name('__kwcall__', ast.Load()), [f, d] + node.args, []), node)

    visit_Module = visit_ClassDef = visit_FunctionDef = _body
    visit_AsyncFunctionDef = _body

    def visit_Assign(self, node):
        for t in node.targets:
            if isinstance(t, ast.Name) and t.id in ('__slots__', '__all__'):
                return node
        return self.generic_visit(node)

    def visit_ImportFrom(self, node):
        if node.module == 're' and not node.level:
            node.module = 'symex.reshim'
        return node

    def visit_Import(self, node):
        for n in node.names:
            if n.name == 're':
                n.name, n.asname = 'symex.reshim', n.asname or 're'
        return node

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return node
        return self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, str):
            return ast.copy_location(
                ast.Call(ast.Name('__S__', ast.Load()), [node], []), node)
        return node

    def visit_JoinedStr(self, node):
        vals = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v = ast.FormattedValue(self.visit(v.value), v.conversion,
                                       v.format_spec)
            vals.append(v)
        return ast.copy_location(
            ast.Call(ast.Name('__S__', ast.Load()), [ast.JoinedStr(vals)],
                     []), node)

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node

    def visit_MatchClass(self, node):
        return node

    def visit_keyword(self, node):
        node.value = self.visit(node.value)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


# ------------------------------------------------------------- builtin shims
class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.str)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymStr):
            return a[0]
        if len(a) == 1 and isinstance(a[0], SymNum) and not a[0].is_const():
            return str_of_num(a[0])
        return SymStr(builtins.str(*a, **k))

    def __getattr__(cls, n):
        return getattr(SymStr, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.str or o is SymStr

    def __hash__(cls):
        return hash(builtins.str)


class StrShim(metaclass=_StrMeta):
    pass


def str_of_num(x):
    """str() of a symbolic number: one opaque text per distinct number."""
    return core.SymStr('<num %s>' % core.show(x, 10 ** 6))


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymNum))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, SymNum))

    def __call__(cls, *a):
        if a and isinstance(a[0], SymNum):
            return a[0]
        if a and isinstance(a[0], SymBool):
            return builtins.float(a[0]._n())
        if a and isinstance(a[0], SymStr):
            s = a[0]
            if s._sym():
                return parse_float(s)
            return builtins.float(core.plain(s))
        return builtins.float(*a)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.float or o is SymNum

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    pass


NUMERIC = ((48, 57),)


def parse_float(s):
    """float() of a string with symbolic characters: strings without any digit
    fail to parse (inf/nan spellings are excluded by the harness alphabets);
    strings that may contain symbolic digits are concretised digit by digit."""
    out = []
    for c in builtins.str.__iter__(s):
        if ord(c) >= core.CH0:
            if core.ENG.branch(('cr', ord(c), NUMERIC)):
                for d in '0123456789':
                    if core.ENG.branch(core.ch_eq(ord(c), ord(d))):
                        c = d
                        break
            else:
                for d in '.-+ _eE':
                    if core.ENG.branch(core.ch_eq(ord(c), ord(d))):
                        c = d
                        break
        out.append(c)
    return builtins.float(''.join(out))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymNum):
            if a[0].integral():
                return a[0]
        if a and isinstance(a[0], SymStr):
            if a[0]._sym():
                raise Unsupported('int() of a symbolic string')
            a = (core.plain(a[0]),) + a[1:]
        return builtins.int(*a, **k)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    pass


def type_shim(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymStr):
            return StrShim
        if isinstance(x, SymNum):
            return FloatShim
        if isinstance(x, SymBool):
            return builtins.bool
        return builtins.type(x)
    return builtins.type(*a)


def isinstance_shim(x, t):
    if isinstance(x, SymBool) and (t is builtins.bool or
                                   (isinstance(t, tuple) and
                                    builtins.bool in t)):
        return True
    return builtins.isinstance(x, t)


def hash_shim(x):
    if isinstance(x, SymNum):
        return 7
    if isinstance(x, tuple):
        return hash(tuple(hash_shim(i) for i in x))
    return builtins.hash(x)


def getattr_shim(o, n, *d):
    return builtins.getattr(o, core.plain(n), *d)


def setattr_shim(o, n, v):
    return builtins.setattr(o, core.plain(n), v)


def hasattr_shim(o, n):
    return builtins.hasattr(o, core.plain(n))


def delattr_shim(o, n):
    return builtins.delattr(o, core.plain(n))


def repr_shim(x):
    return SymStr(builtins.repr(x))


def format_shim(x, *a):
    return SymStr(builtins.format(x, *a))


def chr_shim(x):
    return SymStr(builtins.chr(x))


def ord_shim(c):
    if isinstance(c, SymStr) and c._sym():
        raise Unsupported('ord() of a symbolic character')
    return builtins.ord(c)


def print_shim(*a, **k):
    return None


def sum_shim(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def lift_kw(kw):
    return {SymStr(k): v for k, v in kw.items()}


def lower_kw(kw):
    """Keys of a dictionary passed as keyword arguments."""
    out = {}
    for k in kw:
        if isinstance(k, SymStr):
            if k._sym():
                raise Unsupported('an unknown keyword argument')
            out[builtins.str.__str__(k)[:]] = kw[k]
        else:
            out[k] = kw[k]
    return out


def kwcall(f, kw, *a):
    me = getattr(f, '__self__', None)
    if isinstance(f, type) and issubclass(f, dict):
        d = f(*a)
        d.update(kw)
        return d
    if isinstance(me, dict):
        f(*a)
        return f(kw)
    return f(*a, **lower_kw(kw))


SHIMS = dict(str=StrShim, float=FloatShim, int=IntShim, type=type_shim,
             isinstance=isinstance_shim, hash=hash_shim, getattr=getattr_shim,
             setattr=setattr_shim, hasattr=hasattr_shim, delattr=delattr_shim,
             repr=repr_shim, format=format_shim, chr=chr_shim, ord=ord_shim,
             print=print_shim, __S__=SymStr, __lift__=lift_kw,
             __lower__=lower_kw, __kwcall__=kwcall)


# ------------------------------------------------------- math / random stubs
def _anysym(xs):
    return any(isinstance(x, SymNum) for x in xs)


def install_math():
    R = core._REAL
    islice = itertools.islice

    def islice_shim(it, *a):
        # the C code swallows what __index__ raises
        return islice(it, *[operator.index(x) if isinstance(x, SymNum) else x
                            for x in a])
    itertools.islice = islice_shim
    math.sqrt = core.sym_sqrt
    math.exp = core.sym_exp
    math.log = lambda x, *b: core.sym_log(x, *b)
    math.isnan = lambda x: False if isinstance(x, SymNum) else R['isnan'](x)
    math.isinf = lambda x: False if isinstance(x, SymNum) else R['isinf'](x)
    math.isfinite = lambda x: True if isinstance(x, SymNum) else \
        R['isfinite'](x)
    math.pow = lambda a, b: a ** b if _anysym((a, b)) else R['pow'](a, b)
    math.fabs = lambda x: abs(x) if isinstance(x, SymNum) else R['fabs'](x)

    def fsum(it):
        xs = list(it)
        if _anysym(xs):
            return sum_shim(xs)
        return R['fsum'](xs)
    math.fsum = fsum

    def prod(it, start=1):
        for x in it:
            start = start * x
        return start
    math.prod = prod

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if _anysym((a, b)):
            return a == b
        return R['isclose'](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    math.isclose = isclose
    math.floor = lambda x: x.__floor__() if isinstance(x, SymNum) else \
        R['floor'](x)
    math.ceil = lambda x: x.__ceil__() if isinstance(x, SymNum) else \
        R['ceil'](x)
    math.log2 = lambda x: core.sym_log(x) / core.sym_log(2) \
        if isinstance(x, SymNum) else R['log2'](x)
    math.log10 = lambda x: core.sym_log(x) / core.sym_log(10) \
        if isinstance(x, SymNum) else R['log10'](x)
    math.hypot = lambda *a: core.sym_sqrt(sum_shim(x * x for x in a)) \
        if _anysym(a) else R['hypot'](*a)
    math.pi = SymNum(core.P.var(core.PI.id))
    math.tau = math.pi * 2


from .natrandom import install as install_random       # noqa: E402


class SymSource(object):
    def unit(self):
        return core.ENG.random_unit()

    def index(self, n):
        return core.ENG.random_choice(n)

    def normal(self, mu, sigma):
        name = 'rnorm%d' % len(core.ENG.randlog)
        if core.ENG.calm is not None and len(
                core.ENG.randlog) >= core.ENG.calm and not _anysym((mu, sigma)):
            x = core.ENG.new_real(name, mu - sigma, mu + sigma)
        else:
            x = core.ENG.new_real(name)
        core.ENG.randlog.append((mu, sigma, x))
        return x


# ---------------------------------------------------------------- the loader
class Loader(object):
    """Compiles every module of the package once; fresh() executes them anew
    so that no state survives from one path to the next."""

    def __init__(self, symbolic=True):
        self.code = {}
        self.files = {}
        self.root = os.path.join(REPO, PKG)
        self.symbolic = symbolic

    def source(self, name):
        rel = name.split('.')[1:]
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p):
            p = os.path.join(p, '__init__.py')
            return p, True
        return p + '.py', False

    def compiled(self, name):
        if name not in self.code:
            path, pkg = self.source(name)
            if not os.path.exists(path):
                self.code[name] = (None, path, pkg)
            else:
                with builtins.open(path, encoding='utf-8') as f:
                    src = f.read()
                tree = ast.parse(src, path)
                if self.symbolic:
                    tree = Rewriter().visit(tree)
                    ast.fix_missing_locations(tree)
                self.code[name] = (compile(tree, path, 'exec'), path, pkg)
        return self.code[name]

    # importlib protocol
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        code, p, pkg = self.compiled(name)
        if code is None:
            if os.path.isdir(os.path.join(self.root, *name.split('.')[1:])):
                s = importlib.machinery.ModuleSpec(name, self,
                                                   is_package=True)
                s.submodule_search_locations = []
                return s
            return None
        s = importlib.machinery.ModuleSpec(name, self, origin=p,
                                           is_package=pkg)
        s.has_location = True
        if pkg:
            s.submodule_search_locations = [os.path.dirname(p)]
        return s

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, p, pkg = self.compiled(module.__name__)
        if self.symbolic:
            for k, v in SHIMS.items():
                module.__dict__[k] = v
        if code is not None:
            with bare():
                exec(code, module.__dict__)

    def fresh(self):
        for n in [n for n in sys.modules
                  if n == PKG or n.startswith(PKG + '.')]:
            del sys.modules[n]

    def mod(self, name):
        return importlib.import_module(PKG + '.' + name if name else PKG)


def install_munkres():
    """Constant cost matrices go to the real solver; with symbolic costs any
    complete assignment that avoids infinite entries may be the answer."""
    try:
        import munkres
    except ImportError:
        return
    real = munkres.Munkres.compute

    def compute(self, matrix):
        rows = []
        const = True
        for r in matrix:
            row = []
            for x in r:
                if isinstance(x, SymNum):
                    if x.is_const():
                        x = builtins.float(x.constval())
                    else:
                        const = False
                row.append(x)
            rows.append(row)
        if const:
            return real(self, rows)
        core.ENG.note('assignment over symbolic costs: any')
        left = list(range(len(rows[0])))
        out = []
        for i, r in enumerate(rows):
            ok = [j for j in left if not (isinstance(r[j], builtins.float) and
                                          r[j] == builtins.float('inf'))]
            if not ok:
                raise core.Infeasible()
            j = ok[core.ENG.choose(len(ok))]
            left.remove(j)
            out.append((i, j))
        return out
    munkres.Munkres.compute = compute


LOADER = None


def install(symbolic=True, source=None):
    global LOADER
    if LOADER is not None:
        return LOADER
    sys.dont_write_bytecode = True
    sp = '/opt/venv/lib/python3.12/site-packages'
    if sp not in sys.path and symbolic:
        sys.path.append(sp)
    # third-party modules first: they must see the native math/random
    for m in ('munkres', 'py_search.base', 'py_search.optimization', 'json',
              'copy', 'collections', 'itertools', 'functools', 'statistics',
              'webbrowser', 'shutil', 'operator', 'heapq', 'bisect'):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    if symbolic:
        install_math()
        install_random(source or SymSource())
        install_munkres()
    LOADER = Loader(symbolic)
    sys.meta_path.insert(0, LOADER)
    return LOADER
