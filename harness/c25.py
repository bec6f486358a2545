import math

from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged

HARNESSES, harness = registry()

ASSUMPTIONS = ['likelihood of a leaf under a concept that contains it; the '
               'criteria over one cluster per instance']


def log(ctx, x):
    if isinstance(x, (int, float)):
        return math.log(x)
    return ctx.logn(x)


def dist(t, a):
    """Distribution of an attribute in a table (None: missing); numbers apart:
    (share, (num, mean, ssq))."""
    n, av = t
    out, num, c = {}, None, 0
    for v, k in av.get(a, {}).items():
        if isinstance(k, tuple):
            num = (k[0] / n, k)
            c = c + k[0]
        else:
            out[v] = k / n
            c = c + k
    out[None] = (n - c) / n
    return out, num


def overlap(ctx, p, q):
    """Integral of the product of the two smoothed normal densities."""
    s = 1 / (2 * ctx.pi)
    for n, m, ssq in (p, q):
        d = lib.ustd(ctx, n, ssq)
        s = s + d * d
    d = p[1] - q[1]
    return ctx.exp(-d * d / (2 * s)) / ctx.sqrt(2 * ctx.pi * s)


def loglik(ctx, c, leaf):
    tot = 0
    attrs = list(c[1]) + [a for a in leaf[1] if a not in c[1]]
    for a in attrs:
        if lib.hidden(a):
            continue
        dc, nc = dist(c, a)
        dl, nl = dist(leaf, a)
        for v, q in dl.items():
            if not ctx.truth(q > 0):
                continue
            tot = tot + log(ctx, dc[v] * q)
        if nc and nl:
            tot = tot + log(ctx, nc[0] * nl[0] * overlap(ctx, nc[1], nl[1]))
    return tot


def params(t):
    k = 0
    for a, vs in t[1].items():
        if not lib.hidden(a):
            for v in vs.values():
                k += 2 if isinstance(v, tuple) else 1
    return k


ANY = [
    dict(shape=[0, 1], attrs=['a', 'b'], specs=[['n', 'A'], ['n', '']]),
    dict(shape=[0, 1], attrs=['a', 'b'], specs=[['o', 'A'], ['oA', '']]),
    dict(shape=[0, 1], attrs=['a', '_h'], specs=[['n', 'n'], ['n', 'A']]),
    dict(shape=[[0, 1], 2], attrs=['a'], specs=[['n'], ['n'], ['AB']]),
    dict(shape=[0, 1], attrs=['a', 'b'], specs=[['nB', 'A'], ['A', 'B']]),
]


@harness(quick=[dict(c, kind=k) for c in ANY for k in ('cobweb', 'cobweb3')])
def likelihood(ctx, kind, shape, attrs, specs):
    """The log-likelihood of a leaf under any concept above it, for concepts
    of any size: over the visible attributes, the logarithm of the probability
    that a draw from the leaf and one from the concept agree, missing values
    included."""
    tree = lib.sym_tree(ctx, kind, shape, attrs, specs)
    ns = lib.nodes(tree.root)
    f = frozen(ctx, tree)
    pairs = [(n, x) for n in ns for x in ns
             if not x.children and lib.under(n, x)]
    n, x = pairs[ctx.choice('pair', len(pairs))]
    got = n.log_likelihood(x)
    want = loglik(ctx, lib.table(n), lib.table(x))
    ctx.check(ctx.close(got, want), 'log-likelihood')
    unchanged(ctx, tree, f, 'a query')


NUMS = [
    dict(shape=[0, 1], attrs=['a'], leaves=['r', 'r'], counts=1),
    dict(shape=[0, 1], attrs=['a', 'b'], leaves=['rA', '1n'], counts=1),
    dict(shape=[[0, 1], 2], attrs=['a'], leaves=['1', '2', 'n'], counts=2),
    dict(shape=[0, 1], attrs=['a', '_h'], leaves=['1r', '4n'], counts=2),
    dict(shape=[[0, 1], [2, 3]], attrs=['a', 'b'],
         leaves=['1n', '2A', '64', 'A-'], counts=1),
]


@harness(quick=NUMS)
def numbers(ctx, shape, attrs, leaves, counts):
    """The same with numeric values."""
    tree, ls = lib.build_tree(ctx, 'cobweb3', shape, attrs, leaves, counts)
    ns = lib.nodes(tree.root)
    for n in ns:
        for x in ns:
            if not x.children and lib.under(n, x):
                got = n.log_likelihood(x)
                want = loglik(ctx, lib.table(n), lib.table(x))
                ctx.check(ctx.close(got, want), 'log-likelihood')


CRIT = [
    dict(kind='cobweb', shape=[[0, 1], 2], attrs=['a', '_h'],
         leaves=['nn', 'AA', 'BB'], top=[0, 0, 1]),
    dict(kind='cobweb', shape=[0, 1], attrs=['a'], leaves=['n', 'A'],
         top=[0, 1]),
    dict(kind='cobweb3', shape=[[0, 1], [2, 3]], attrs=['a', 'b'],
         leaves=['1n', '1A', '3B', 'nA'], top=[0, 0, 1, 1]),
    dict(kind='cobweb', shape=[0, 1], attrs=['a'], leaves=['A', 'A'],
         top=[-1, -1]),
    dict(kind='cobweb', shape=[0, 1], attrs=['a', 'b'], leaves=['nA', 'BB'],
         top=[0]),
    dict(kind='cobweb3', shape=[[0, 1], 2], attrs=['a', 'b'],
         leaves=['1A', 'nn', 'BB'], top=[0]),
]


@harness(quick=CRIT)
def criteria(ctx, kind, shape, attrs, leaves, top):
    """AIC = 2k - 2L, BIC = k log n - 2L, AICc = AIC + 2k(k+1)/(n-k-1) or
    infinite where that is undefined; L sums the log-likelihood of every
    instance's leaf under its cluster, k counts the parameters of the distinct
    clusters (one per nominal value, two per number), n the instances."""
    cl = ctx.m('cluster')
    tree, ls = lib.build_tree(ctx, kind, shape, attrs, leaves, counts=1)
    rep = ctx.choice('repeat', [1, 2, 4])
    cs, lv = [], []
    for i, t in enumerate(top):
        for _ in range(rep):
            cs.append(tree.root if t < 0 else tree.root.children[t])
            lv.append(ls[i][0])
    L = 0
    for c, x in zip(cs, lv):
        L = L + loglik(ctx, lib.table(c), lib.table(x))
    distinct = []
    for c in cs:
        if not any(c is d for d in distinct):
            distinct.append(c)
    k = sum(params(lib.table(c)) for c in distinct)
    n = len(cs)
    f = frozen(ctx, tree)
    ctx.check(ctx.close(cl.AIC(cs, lv), 2 * k - 2 * L), 'AIC')
    ctx.check(ctx.close(cl.BIC(cs, lv), k * math.log(n) - 2 * L), 'BIC')
    got = cl.AICc(cs, lv)
    if n - k <= 1:
        ctx.check(isinstance(got, float) and got == float('inf'), 'AICc')
    else:
        ctx.check(ctx.close(got, 2 * k - 2 * L + 2.0 * k * (k + 1) /
                            (n - k - 1)), 'AICc')
    unchanged(ctx, tree, f, 'a criterion')


PART = [
    dict(kind='cobweb', shape=[[0, 1], [2, 3], 4], attrs=['a', '_h'],
         leaves=['nn', 'AA', 'BB', '-A', 'A-'], top=[0, 0, 1, 1, 2]),
    dict(kind='cobweb3', shape=[[0, 1, 2], [3, 4, 5], [6, 7], 8],
         attrs=['a', 'b'], leaves=['1A', '2A', 'nB', '5A', '6B', '-B', '9C',
                                   '7C', '3-'],
         top=[0, 0, 0, 1, 1, 1, 2, 2, 3]),
    dict(kind='cobweb3', shape=[[0, 1, 2], [3, 4]],
         attrs=[('p', 'x'), 'b'], leaves=['1A', '4A', '2B', '5n', '6B'],
         top=[0, 0, 0, 1, 1]),
    dict(kind='trestle', shape=[[0, 1, 2], [3, 4]], attrs=['a', 'b'],
         leaves=['1A', 'nA', '2B', '5n', '6B'], top=[0, 0, 0, 1, 1]),
]


@harness(quick=PART)
def partition(ctx, kind, shape, attrs, leaves, top):
    """CU is minus the category utility of the partition of the given
    instances' leaves into the clusters."""
    cl = ctx.m('cluster')
    tree, ls = lib.build_tree(ctx, kind, shape, attrs, leaves, counts=1)
    rep = ctx.choice('repeat', [1, 3])
    out = ctx.choice('without', [None, 0, len(top) - 1])
    cs, lv = [], []
    for i, t in enumerate(top):
        if i != out:
            for _ in range(rep if i == 1 else 1):
                cs.append(tree.root.children[t])
                lv.append(ls[i][0])
    f = frozen(ctx, tree)
    kids = []
    for t in sorted(set(top)):
        ts = [lib.table(x) for c, x in zip(cs, lv)
              if c is tree.root.children[t]]
        if ts:
            kids.append(lib.sum_tables(ts))
    sc = lib.scale_fn(ctx, lib.leaf_instances(ls), 0.5) \
        if kind != 'cobweb' else None
    want = -lib.utility(ctx, lib.sum_tables(kids), kids, sc)
    ctx.check(ctx.eq(cl.CU(cs, lv), want), 'CU')
    unchanged(ctx, tree, f, 'a criterion')


@harness(quick=[dict(h=h) for h in ('AIC', 'BIC', 'AICc', 'CU', 'aic',
                                    'bic', 'aicc', 'cu')])
def by_name(ctx, h):
    """A heuristic given by its name (any case) is that heuristic."""
    cl = ctx.m('cluster')
    S = ctx.S
    tree, ls = lib.build_tree(ctx, 'cobweb', [[0, 1], 2], ['a', 'b'],
                              ['nA', 'AA', 'BB'], counts=1)
    insts = [ls[i][1] for i in range(3)]
    fn = {'aic': cl.AIC, 'bic': cl.BIC, 'aicc': cl.AICc, 'cu': cl.CU}[
        h.lower()]
    m = ctx.mark()
    a = list(cl.cluster_iter(tree, insts, S(h), mod=False))
    ctx.rewind(m)
    b = list(cl.cluster_iter(tree, insts, fn, mod=False))
    ctx.check(len(a) == len(b), 'number of clusterings')
    for (x, p), (y, q) in zip(a, b):
        ctx.check(p == q if isinstance(p, float) and p == float('inf')
                  else ctx.close(p, q), 'another heuristic')
