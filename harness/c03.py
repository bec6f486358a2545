from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()


def scores(tree):
    return [(n.expected_correct_guesses(), n.category_utility())
            for n in lib.nodes(tree.root)]


def frozen(ctx, tree):
    return dict(view=lib.view(tree.root), root=tree.root,
                parents=[(n, n.parent, n.tree) for n in lib.nodes(tree.root)],
                scores=scores(tree), scales=scales(tree))


def scales(tree):
    """What the tree has seen of each numeric attribute."""
    out = []
    for a, c in list((getattr(tree, 'attr_scales', None) or {}).items()):
        if lib.is_cv(c) and not (isinstance(c.num, int) and c.num == 0):
            out.append((a, (c.num, c.mean, c.meanSq)))
    return out


def unchanged(ctx, tree, f, what):
    ctx.check(tree.root is f['root'], what + ' replaced the root')
    ctx.check(lib.same_view(ctx, f['view'], lib.view(tree.root)),
              what + ' changed the tree')
    for n, p, t in f['parents']:
        ctx.check(n.parent is p and n.tree is t,
                  what + ' changed the links of a concept')
    for (a, b), (c, d) in zip(f['scores'], scores(tree)):
        ctx.check(ctx.eq(a, c), what + ' changed the quality of a concept')
        ctx.check(ctx.eq(b, d), what + ' changed the quality of a partition')
    now = scales(tree)
    ctx.check(len(now) == len(f['scales']), what + ' changed the scales')
    for (a, x), (b, y) in zip(f['scales'], now):
        ctx.check(a == b and all(ctx.eq(u, v) for u, v in zip(x, y)),
                  what + ' changed the scales')


def node_queries(ctx, tree, q, attrs):
    """Every read-only question that can be put to a concept."""
    A = [ctx.S(a) for a in attrs] + [ctx.S('zz')]

    def each(f):
        return lambda n: [f(n, a) for a in A]

    def whatif(n):
        n.cu_for_new_child(q)
        n.cu_for_fringe_split(q)
        n.is_exact_match(q)
        for c in n.children:
            n.cu_for_insert(c, q)
            if c.children:
                n.cu_for_split(c)
            for d in n.children:
                if d is not c:
                    n.cu_for_merge(c, d, q)

    def best(n):
        if n.children:
            cu, b1, b2 = n.two_best_children(q)
            n.get_best_operation(q, b1, b2, cu)

    def probs(n):
        for a in A:
            n.probability(a, None)
            n.probability(a, q.get(a, ctx.S('x')))
            n.get_weighted_values(a)
            n.get_weighted_values(a, False)

    def predict(n):
        for a in A:
            for fn in ('most likely', 'sampled'):
                n.predict(a, ctx.S(fn))
                n.predict(a, ctx.S(fn), False)

    def show(n):
        n.output_json()
        n.pretty_print()
        str(n)
        hash(n)

    def shape(n):
        n.depth()
        n.num_concepts()
        for m in lib.nodes(tree.root):
            n.is_parent(m)
        list(n.attrs())
        list(n.attrs(ctx.S('all')))
        list(n.attrs(lambda a: True))

    def copies(n):
        for c in (n.shallow_copy(), n.__class__(n)):
            c.increment_counts(q)
            c.update_counts_from_node(n)
            for k in c.children:
                k.increment_counts(q)
            c.create_new_child(q)

    def ll(n):
        for m in lib.nodes(tree.root):
            if not m.children and lib.under(n, m):
                n.log_likelihood(m)
    return dict(whatif=whatif, best=best, probs=probs, predict=predict,
                show=show, shape=shape, copies=copies, ll=ll)


NODEQ = ['whatif', 'best', 'probs', 'predict', 'show', 'shape', 'copies', 'll']
BASE = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], 2, 3],
         leaf=['AA', 'A-', 'Cn', 'nB'], q='n?'),
    dict(kind='cobweb', attrs=['a', '_h'], shape=[[0, 1], 2],
         leaf=['AA', 'B-', 'nn'], q='n?'),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=[0, 1],
         leaf=['o0', 'oA'], q='oo'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2, 3],
         leaf=['A1', 'A-', 'B5', 'nA'], q='n3'),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=[[0, 1], 2],
         leaf=['rA', 'r-', 'n3'], q='r?'),
]
QUICK = []
for c in BASE:
    for w in NODEQ:
        if w == 'll' and c['kind'] == 'cobweb3':
            continue
        c2 = dict(c)
        if w in ('show', 'best', 'probs') and c['leaf'][0] == 'rA':
            c2.update(leaf=['1A', '4-', 'n3'], q='3?')
        QUICK.append(dict(c2, what=w))


def tree_of(ctx, kind, shape, attrs, leaf, counts, scaling):
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    return lib.build_tree(ctx, kind, shape, attrs, leaf, counts, **kw)[0]


@harness(quick=QUICK, thorough=QUICK + [dict(c, counts=2) for c in QUICK])
def concept_queries(ctx, kind, attrs, shape, leaf, q, what, counts=1,
                    scaling=0.5):
    """Questions put to any concept (what-if scores, probabilities,
    predictions, printing, copying and changing the copy ...) leave the whole
    hierarchy and the queried instance as they were."""
    tree = tree_of(ctx, kind, shape, attrs, leaf, counts, scaling)
    qi = lib.instance(ctx, attrs, q, 'q')
    keep = lib.copy_inst(qi)
    f = frozen(ctx, tree)
    fn = node_queries(ctx, tree, qi, attrs)[what]
    ns = lib.nodes(tree.root)
    n = ns[ctx.choice('node', len(ns))] if len(ns) > 1 else ns[0]
    ctx.fix_random(True)
    fn(n)
    ctx.fix_random(False)
    unchanged(ctx, tree, f, what)
    ctx.check(ctx.same(qi, keep), what + ' changed the instance')


TREEQ = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], 2],
         leaf=['AA', 'A-', 'nn'], q='??'),
    dict(kind='cobweb', attrs=['a', '_h'], shape=[[0, 1], 2],
         leaf=['AA', 'B-', 'nn'], q='n?'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2],
         leaf=['A1', 'A-', 'B5'], q='?!'),
    dict(kind='cobweb3', attrs=['a'], shape=[0, 1], leaf=['r', 'r'], q='!'),
]


@harness(quick=TREEQ, thorough=TREEQ + [dict(c, counts=2) for c in TREEQ] + [
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], [2, 3]],
         leaf=['nn', 'A-', 'nn', 'BA'], q='??')])
def tree_queries(ctx, kind, attrs, shape, leaf, q, counts=1, scaling=0.5):
    """categorize and infer_missing (every choice rule) leave the tree and the
    given instance alone; infer_missing answers with a new instance that keeps
    every given value."""
    tree = tree_of(ctx, kind, shape, attrs, leaf, counts, scaling)
    qi = lib.instance(ctx, attrs, q, 'q')
    keep = lib.copy_inst(qi)
    f = frozen(ctx, tree)
    w = ctx.choice('what', ['categorize', 'm', 'mN', 's', 'sN'])
    if w == 'categorize':
        c = tree.categorize(qi)
        ctx.check(not c.children and lib.under(tree.root, c),
                  'categorize did not answer with a leaf of the tree')
    else:
        r = tree.infer_missing(qi, ctx.S(
            'most likely' if w[0] == 'm' else 'sampled'), len(w) == 1)
        ctx.check(r is not qi, 'infer_missing answers with its argument')
        for a in keep:
            ctx.check(a in r and ctx.same(r[a], keep[a]),
                      'a given value was replaced')
        r[ctx.S('zzz')] = 1
    unchanged(ctx, tree, f, w)
    ctx.check(ctx.same(qi, keep), w + ' changed the instance')


GROWN = [
    dict(kind='cobweb', attrs=['a', 'b', 'c'], pre=lib.mixed(30, 'QQA'),
         q='A?A'),
    dict(kind='cobweb', attrs=['a', 'b', 'c'], shape=lib.DEEP, q='AnA'),
    dict(kind='cobweb3', attrs=['a', 'b', '_h'], shape=lib.FRAY, q='A?A'),
    dict(kind='cobweb', attrs=['a', 'b', 'c'], pre=lib.mixed(18, 'AAA'),
         q='n?A'),
    dict(kind='cobweb', attrs=['a', 'b', '_h'], pre=lib.mixed(10, 'AAA'),
         q='n?n'),
    dict(kind='cobweb3', attrs=['a', 'b'], pre=lib.mixed(12, 'A0'), q='n3'),
    dict(kind='trestle', attrs=['a', 'b'], pre=lib.mixed(8, 'A0'), q='n3'),
    dict(kind='dummy', attrs=['a', 'b'], pre=lib.mixed(4, 'A0'), q='n3'),
]


@harness(quick=GROWN)
def grown(ctx, kind, attrs, q, pre=None, shape=None):
    """The same for every question to a larger tree grown from fixed
    instances or of a given shape."""
    if pre:
        tree, _ = lib.grow(ctx, kind, attrs, pre)
    else:
        tree, _ = lib.build_tree(ctx, kind, shape, attrs, lib.fixed_leaves(
            shape, 'QQQ'), lib.SIZES)
    qi = lib.instance(ctx, attrs, q, 'q')
    keep = lib.copy_inst(qi)
    f = frozen(ctx, tree)
    ns = lib.some_nodes(tree.root)
    n = ns[ctx.choice('node', len(ns))]
    what = [k for k in NODEQ if k != 'll'] + ['categorize', 'most likely',
                                             'sampled']
    w = what[ctx.choice('what', len(what))]
    ctx.fix_random(True)
    if w == 'categorize':
        tree.categorize(qi)
    elif w in ('most likely', 'sampled'):
        tree.infer_missing(qi, ctx.S(w))
    else:
        node_queries(ctx, tree, qi, attrs)[w](n)
    ctx.fix_random(False)
    unchanged(ctx, tree, f, w)
    ctx.check(ctx.same(qi, keep), w + ' changed the instance')


INP = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nn', 'n?', 'nn']),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=['n?', 'n3', 'nn']),
    dict(kind='cobweb3', attrs=['a'], shape=['r', '!', 'r']),
    dict(kind='trestle', attrs=['a', '_h'], shape=['nA', 'n3', 'A?']),
    dict(kind='dummy', attrs=['a', '_h'], shape=['nA', 'r3', 'A?']),
]


@harness(quick=INP)
def learning_input(ctx, kind, attrs, shape, scaling=0.5):
    """ifit and fit leave the given instances (and the list) alone and keep no
    reference to them: changing them afterwards does not reach the tree."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    tree = lib.make_tree(ctx, kind, **kw)
    insts = lib.instances(ctx, attrs, shape)
    keep = [lib.copy_inst(i) for i in insts]
    if ctx.choice('how', ['ifit', 'fit']) == 'ifit':
        for i in insts:
            tree.ifit(i)
    else:
        lst = list(insts)
        ctx.fix_random(True)
        tree.fit(lst)
        ctx.fix_random(False)
        ctx.check(len(lst) == len(insts) and all(
            x is y for x, y in zip(lst, insts)), 'fit changed the list')
    ctx.check(all(ctx.same(x, y) for x, y in zip(insts, keep)),
              'learning changed an instance')
    f = frozen(ctx, tree)
    for i in insts:
        for a in list(i):
            i[a] = ctx.S('changed')
        i[ctx.S('new')] = ctx.S('x')
    unchanged(ctx, tree, f, 'changing an instance afterwards')
