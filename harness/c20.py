from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged

HARNESSES, harness = registry()

ASSUMPTIONS = ['up to four instances over trees of up to five leaves; '
               'heuristic CU unless stated; a tree that is only categorised '
               'against is not empty']


def parts(labels):
    """The partition: for every instance, the first instance that shares its
    label."""
    out = []
    for i, l in enumerate(labels):
        for j in range(i + 1):
            if labels[j] is l or (isinstance(l, str) and labels[j] == l):
                out.append(j)
                break
    return out


def path(leaf):
    """Root to leaf."""
    out = []
    while leaf is not None:
        out.insert(0, leaf)
        leaf = leaf.parent
    return out


def name(node):
    return 'Concept' + str(node.concept_id)


class Cuts(object):
    """Flat clusterings by definition: every instance starts in the child of
    the root it is filed under; the next clustering replaces one cluster (any
    whose replacement has the lowest score) by its children."""

    def __init__(self, ctx, tree, leaves, scales):
        self.ctx, self.leaves, self.scales = ctx, leaves, scales
        self.paths = [path(x) for x in leaves]
        self.tables = [lib.table(x) for x in leaves]
        self.states = [[p[1] if len(p) > 1 else p[0] for p in self.paths]]

    def score(self, labels):
        groups = []
        for l in labels:
            if not any(l is g for g in groups):
                groups.append(l)
        kids = [lib.sum_tables([t for t, l in zip(self.tables, labels)
                                if l is g]) for g in groups]
        return -lib.utility(self.ctx, lib.sum_tables(kids), kids, self.scales)

    def below(self, labels, target):
        out = []
        for p, l in zip(self.paths, labels):
            if l is target:
                out.append(p[[x is l for x in p].index(True) + 1])
            else:
                out.append(l)
        return out

    def le(self, a, b):
        if not self.ctx.symbolic or not (self.ctx.is_num(a - b)):
            return a <= b + 1e-9
        return self.ctx.truth(self.ctx.le(a, b))

    def successors(self, labels):
        targets = []
        for l in labels:
            if l.children and not any(l is t for t in targets):
                targets.append(l)
        sc = [(self.score(b), b) for b in
              (self.below(labels, t) for t in targets)]
        return [b for i, (s, b) in enumerate(sc)
                if all(self.le(s, s2) for j, (s2, _) in enumerate(sc)
                       if i != j)]

    def step(self):
        """False when nothing is left to split."""
        nxt = [b for s in self.states for b in self.successors(s)]
        more = bool(nxt)
        if more:
            self.states = nxt
        return more

    def agree(self, labels, exact):
        p = parts(labels)
        self.states = [s for s in self.states if parts(s) == p and
                       (not exact or [name(x) for x in s] == labels)]
        return bool(self.states)


LEARN = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nA', 'nB']),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['AA', 'AB', 'nB']),
    dict(kind='cobweb', attrs=['a', 'b', 'c'], shape=['AAA', 'AAB', 'BBA',
                                                      'nBB']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['1A', '1B', 'nB']),
    dict(kind='cobweb3', attrs=['a'], shape=['1', 'r']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['1A', '5B', '1n']),
    dict(kind='trestle', attrs=['a', 'b'], shape=['AA', 'AB', 'nB']),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['oA', 'oB']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['oA', '0B']),
]
MANY = [
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=lib.mixed(12, 'AAA') + ['nAB'], pre=12),
    dict(kind='cobweb3', attrs=['a', 'b', 'c'],
         shape=lib.mixed(9, 'AAA') + ['nAB'], pre=9),
]
# the leaf an instance was filed under is not always the one it would be
# categorised to
APART = dict(kind='cobweb', attrs=['a', 'b', 'c'],
             shape=lib.mixed(18, 'AAA') + ['nAB'], pre=18)


def both(ctx, kind, attrs, shape, pre=0):
    """Two equal trees with the same beginning, and the instances."""
    insts = lib.instances(ctx, attrs, shape)
    ts = [lib.make_tree(ctx, kind) for _ in range(2)]
    for t in ts:
        ctx.fix_random(True)
        for i in insts[:pre]:
            t.ifit(i)
        ctx.fix_random(False)
    return ts[0], ts[1], insts


@harness(quick=[dict(c, pre=p) for c in LEARN[:2] + LEARN[3:] for p in (0,)] +
         [dict(LEARN[1], pre=2), dict(LEARN[2], pre=3)] + MANY)
def fitted(ctx, kind, attrs, shape, pre):
    """Clustering while learning: successive clusterings are the cuts of the
    learned tree, each the best single split of the one before, scored by
    minus the category utility; the caller's tree stays as it was."""
    cl = ctx.m('cluster')
    tree, twin, insts = both(ctx, kind, attrs, shape, pre)
    part = insts[(ctx.choice('from', [0, 4, pre] if pre > 4 else
                             pre + 1) if pre else 0):]
    f = frozen(ctx, tree)
    keep = [lib.copy_inst(i) for i in part]
    m = ctx.mark()
    got = list(cl.cluster_iter(tree, part))
    unchanged(ctx, tree, f, 'clustering')
    for i, k in zip(part, keep):
        ctx.check(ctx.same(i, k), 'an instance changed')
    ctx.rewind(m)
    leaves = [twin.ifit(i) for i in part]
    num = kind != 'cobweb'
    fed = (insts[:pre] + part) if num else []
    cuts = Cuts(ctx, twin, leaves, lib.scale_fn(ctx, fed, 0.5) if num
                else None)
    check_all(ctx, cuts, got, False)


def check_all(ctx, cuts, got, exact, upto=None):
    ctx.check(len(got) >= 1, 'no clustering')
    for n, (labels, h) in enumerate(got):
        if n:
            ctx.check(cuts.step(), 'a clustering after the last split')
        ctx.check(len(labels) == len(cuts.leaves), 'a label per instance')
        ctx.check(cuts.agree(labels, exact), 'not the cut of the tree')
        ctx.check(ctx.close(h, cuts.score(cuts.states[0])),
                  'the score is not minus the category utility')
    if upto is None or len(got) < upto:
        ctx.check(not cuts.step(), 'the last clustering can be split')


TREES = [
    dict(kind='cobweb', shape=[0, 1], attrs=['a'], leaves=['n', 'A']),
    dict(kind='cobweb', shape=[[0, 1], 2], attrs=['a', 'b'],
         leaves=['nA', 'AB', 'BB']),
    dict(kind='cobweb', shape=[[0, 1], [2, 3]], attrs=['a', 'b'],
         leaves=['AA', 'AB', 'BA', 'nB']),
    dict(kind='cobweb', shape=[[0, [1, 2]], 3], attrs=['a', 'b'],
         leaves=['AA', 'AB', 'nC', 'BC']),
    dict(kind='cobweb3', shape=[[0, 1], [2, 3]], attrs=['a', 'b'],
         leaves=['1A', '2A', 'AB', 'nB']),
    dict(kind='cobweb', shape=[[0, [1, [2, 3]]], 4], attrs=['a', 'b'],
         leaves=['AA', 'AB', 'nC', 'BC', 'CC'], counts=[60, 35, 40, 90, 70]),
]
CHAIN = dict(kind='cobweb', shape=[0, [1, [2, [3, [4, [5, [6, [7, [8, [9, [
    10, [11, 12]]]]]]]]]]]], attrs=['a'], leaves=list('ABCDEFGHIJKLn'))
CROWD = dict(kind='cobweb', shape=[[0, [1, 2]], [[3, 4], [5, 6]], [7, 8], 9],
             attrs=['a', 'b', 'c'], leaves=[
                 'AAA', 'AAB', 'AAn', 'BBA', 'BBB', 'BCC', 'BCA', 'DEC', 'DEB',
                 'EEE'])


def grown(ctx, kind, shape, attrs, leaves, counts=1):
    tree, ls = lib.build_tree(ctx, kind, shape, attrs, leaves, counts)
    return tree, [ls[i][1] for i in range(len(leaves))]


@harness(quick=TREES, thorough=TREES + [
    dict(kind='cobweb', shape=[[0, 1], [2, 3]], attrs=['a', 'b'],
         leaves=['AA', 'nB', 'BA', 'nB']),
    dict(kind='cobweb', shape=[[0, 1], [2, 3], 4], attrs=['a', 'b', 'c'],
         leaves=['AAA', 'ABA', 'BAA', 'nBB', 'CCC'])])
def categorised(ctx, kind, shape, attrs, leaves, counts=1):
    """Clustering against a finished tree: the labels are those of the
    caller's concepts; minsplit and maxsplit select the successive
    clusterings; as concepts or as labels."""
    cl = ctx.m('cluster')
    tree, insts = grown(ctx, kind, shape, attrs, leaves, counts)
    f = frozen(ctx, tree)
    m = ctx.mark()
    got = list(cl.cluster_iter(tree, insts, mod=False))
    unchanged(ctx, tree, f, 'clustering')
    ctx.rewind(m)
    where = [tree.categorize(i) for i in insts]
    cuts = Cuts(ctx, tree, where, None if kind == 'cobweb' else
                lib.scale_fn(ctx, insts, 0.5))
    check_all(ctx, cuts, got, True)
    lo = ctx.choice('min', [1, 2, 3])
    hi = ctx.choice('max', [1, 2, 3])
    if hi < lo:
        return
    want = [labels for labels, h in got][lo - 1:hi]
    ctx.rewind(m)
    some = list(cl.cluster(tree, insts, minsplit=lo, maxsplit=hi, mod=False))
    ctx.check(len(some) == len(want), 'number of clusterings')
    # a tie between two splits may be broken either way
    for a, b in zip(some, want):
        ctx.check(len(a) == len(b), 'a label per instance')
    if lo == 1:
        ctx.check(some[0] == want[0], 'the first clustering')
    ctx.rewind(m)
    some = list(cl.cluster_iter(tree, insts, minsplit=lo, maxsplit=hi,
                                mod=False, labels=False))
    again = Cuts(ctx, tree, where, cuts.scales)
    for _ in range(lo - 1):
        again.step()
    if some:
        check_all(ctx, again, [([name(x) for x in c], h) for c, h in some],
                  True, hi - lo + 1)
    unchanged(ctx, tree, f, 'clustering')


@harness(quick=TREES + [CROWD])
def at_most_k(ctx, kind, shape, attrs, leaves, counts=1):
    """k_cluster: the finest of the successive clusterings before the number
    of clusters exceeds k; all instances in the root when already the first
    has more."""
    cl = ctx.m('cluster')
    tree, insts = grown(ctx, kind, shape, attrs, leaves, counts)
    k = ctx.choice('k', [4, 5, 7, 9, 12] if len(leaves) > 5 else [2, 3, 4])
    f = frozen(ctx, tree)
    m = ctx.mark()
    got = cl.k_cluster(tree, insts, k, mod=False)
    unchanged(ctx, tree, f, 'clustering')
    ctx.rewind(m)
    where = [tree.categorize(i) for i in insts]
    cuts = Cuts(ctx, tree, where, None if kind == 'cobweb' else
                lib.scale_fn(ctx, insts, 0.5))
    ctx.check(len(got) == len(insts), 'a label per instance')
    ctx.check(len(set(got)) <= k, 'more than k clusters')
    # all endings that the ties allow
    ends, todo = [], [(None, s) for s in cuts.states]
    while todo:
        last, s = todo.pop()
        if len(set(parts(s))) > k:
            ends.append(last)
            continue
        nxt = cuts.successors(s)
        if not nxt:
            ends.append(s)
        todo += [(s, x) for x in nxt]
    root = [name(tree.root)] * len(insts)
    ctx.check(any((root if e is None else [name(x) for x in e]) == got
                  for e in ends), 'not the clustering before k is exceeded')


@harness(quick=[dict(n=n) for n in (0, 1)])
def k_fitted(ctx, n):
    """k_cluster while learning, from an empty tree."""
    cl = ctx.m('cluster')
    c = LEARN[1 + n]
    tree, twin, insts = both(ctx, c['kind'], c['attrs'], c['shape'])
    k = ctx.choice('k', [2, 3])
    m = ctx.mark()
    got = cl.k_cluster(tree, insts, k)
    ctx.rewind(m)
    leaves = [twin.ifit(i) for i in insts]
    cuts = Cuts(ctx, twin, leaves, None)
    ends, todo = [], [(None, s) for s in cuts.states]
    while todo:
        last, s = todo.pop()
        if len(set(parts(s))) > k:
            ends.append([0] * len(insts) if last is None else parts(last))
            continue
        nxt = cuts.successors(s)
        if not nxt:
            ends.append(parts(s))
        todo += [(s, x) for x in nxt]
    ctx.check(parts(got) in ends, 'not the clustering before k is exceeded')


HEUR = ['CU', 'fn', 'size']


@harness(quick=[dict(t, h=h) for t in TREES[1:4] for h in HEUR])
def search(ctx, kind, shape, attrs, leaves, h):
    """cluster_split_search returns a clustering with the lowest heuristic of
    all the successive clusterings in range, for any heuristic."""
    cl = ctx.m('cluster')
    tree, insts = grown(ctx, kind, shape, attrs, leaves)
    vals = [ctx.real('h%d' % i) for i in range(5)]

    def fn(clusters, ls):
        # any function of the number of clusters
        return vals[len(set(clusters))]

    def size(clusters, ls):
        return len(set(clusters))
    heur = {'CU': ctx.S('cu'), 'fn': fn, 'size': size}[h]
    labels = ctx.choice('labels', [True, False])
    hi = ctx.choice('max', [1, 2, 5])
    f = frozen(ctx, tree)
    m = ctx.mark()
    got = cl.cluster_split_search(tree, insts, heur, maxsplit=hi, mod=False,
                                  labels=labels)
    unchanged(ctx, tree, f, 'clustering')
    ctx.rewind(m)
    every = list(cl.cluster_iter(tree, insts, heur, maxsplit=hi, mod=False))
    if not labels:
        got = [name(x) for x in got]
    hit = [v for c, v in every if c == got]
    if h == 'fn':
        # which cluster is split in a tie is open: judge by the value
        v = vals[len(set(got))]
    else:
        ctx.check(len(hit) >= 1, 'not one of the clusterings')
        v = hit[0]
    for c, w in every:
        ctx.check(ctx.le(v, w) if ctx.symbolic else v <= w + 1e-9,
                  'a clustering with a lower heuristic exists')


@harness(quick=TREES + [dict(kind='cobweb', shape=[[0, [1, [2, 3]]], 4],
                             attrs=['a', 'b'],
                             leaves=['AA', 'AB', 'nC', 'AC', 'BC']), CHAIN])
def depths(ctx, kind, shape, attrs, leaves, counts=1):
    """depth_labels: one row per depth; row d holds for every instance its
    concept at depth d, or its leaf where the tree is shallower."""
    cl = ctx.m('cluster')
    tree, insts = grown(ctx, kind, shape, attrs, leaves, counts)
    insts = insts[ctx.choice('from', [0, 1]):]
    f = frozen(ctx, tree)
    m = ctx.mark()
    got = cl.depth_labels(tree, insts, mod=False)
    unchanged(ctx, tree, f, 'depth labels')
    ctx.rewind(m)
    ps = [path(tree.categorize(i)) for i in insts]
    ctx.check(len(got) == max(len(p) for p in ps), 'number of depths')
    for d, row in enumerate(got):
        ctx.check(row == [name(p[min(d, len(p) - 1)]) for p in ps],
                  'labels at a depth')


@harness(quick=[dict(kind='cobweb', attrs=['a', 'b', 'c'],
                     pre=lib.mixed(30, 'QQA'), q='nA?'),
                dict(kind='cobweb3', attrs=['a', 'b', '_h'],
                     pre=lib.mixed(16, 'AQA'), q='nA?')])
def depths_grown(ctx, kind, attrs, pre, q):
    """The same for a larger tree."""
    cl = ctx.m('cluster')
    tree, insts = lib.grow(ctx, kind, attrs, pre)
    insts = insts + [lib.instance(ctx, attrs, q, 'q')]
    insts = insts[ctx.choice('from', [0, 5, len(insts) - 2]):]
    f = frozen(ctx, tree)
    ctx.fix_random(True)
    m = ctx.mark()
    got = cl.depth_labels(tree, insts, mod=False)
    unchanged(ctx, tree, f, 'depth labels')
    ctx.rewind(m)
    ctx.fix_random(True)
    ps = [path(tree.categorize(i)) for i in insts]
    ctx.fix_random(False)
    ctx.check(len(got) == max(len(p) for p in ps), 'number of depths')
    for d, row in enumerate(got):
        ctx.check(row == [name(p[min(d, len(p) - 1)]) for p in ps],
                  'labels at a depth')


@harness(quick=[dict(n=n) for n in (0, 1, 3, 11)])
def depths_fitted(ctx, n):
    """depth_labels while learning: the instances are fitted to the caller's
    tree."""
    cl = ctx.m('cluster')
    c = (LEARN + MANY + [APART])[n]
    tree, twin, insts = both(ctx, c['kind'], c['attrs'], c['shape'])
    m = ctx.mark()
    ctx.fix_random(n > 8)
    got = cl.depth_labels(tree, insts)
    lib.check_structure(ctx, tree)
    ctx.check(ctx.eq(tree.root.count, len(insts)), 'instances learned')
    ctx.rewind(m)
    ctx.fix_random(n > 8)
    ps = [twin.ifit(i) for i in insts]
    ctx.fix_random(False)
    ps = [path(x) for x in ps]
    ctx.check(len(got) == max(len(p) for p in ps), 'number of depths')
    for d, row in enumerate(got):
        ctx.check(parts(row) == parts([p[min(d, len(p) - 1)] for p in ps]),
                  'labels at a depth')


@harness(quick=[{}])
def refused(ctx):
    """Nonsensical requests are refused and change nothing."""
    cl = ctx.m('cluster')
    S = ctx.S
    tree = lib.make_tree(ctx, 'cobweb')
    insts = [{S('a'): ctx.string('v', 1)}, {S('a'): S('x')}]
    for i in insts:
        tree.ifit(i)
    f = frozen(ctx, tree)
    lo = ctx.integer('lo', -3, 3)
    hi = ctx.integer('hi', -3, 3)
    k = ctx.integer('k', -3, 4)
    what = ctx.choice('what', 5)
    if what == 0:
        ctx.assume(ctx.bor(ctx.lt(lo, 1), ctx.lt(hi, lo)))
        r = ctx.raises(ValueError, lambda: list(cl.cluster_iter(
            tree, insts, minsplit=lo, maxsplit=hi)))
    elif what == 1:
        ctx.assume(ctx.lt(k, 2))
        r = ctx.raises(ValueError, lambda: cl.k_cluster(tree, insts, k))
    elif what == 2:
        r = ctx.raises(ValueError, lambda: list(cl.cluster_iter(tree, [])))
    elif what == 3:
        r = ctx.raises(ValueError, lambda: list(cl.cluster_iter(
            tree, insts, S('nonsense'))))
    else:
        ctx.assume(ctx.bor(ctx.lt(lo, 1), ctx.lt(hi, lo)))
        r = ctx.raises(ValueError, lambda: list(cl.cluster(
            tree, insts, minsplit=lo, maxsplit=hi)))
    ctx.check(r, 'a nonsensical request is accepted')
    unchanged(ctx, tree, f, 'a refused request')
