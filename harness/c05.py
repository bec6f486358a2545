from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()


def conform(ctx, pre, inst, tree, scales, numeric):
    o = lib.Oracle(ctx, inst, scales, numeric)
    n = 0
    for out in o.outcomes(pre):
        n += 1
        if o.agrees(out, tree.root):
            return True
        if n > 200:
            break
    return False


LOCK = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nn', 'nn', 'nn', 'nn']),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['n?', '?n', '??']),
    dict(kind='cobweb', attrs=['a'], shape=['o', 'o', 'A', 'B']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['oA', 'oB', '0A']),
    dict(kind='cobweb', attrs=['a'], shape=['n', 'n', 'n', 'n', 'n']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['nn', 'nn', 'nn']),
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=['AAA', 'BBB', 'AAB', 'BBA', 'nnn']),
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=['AAA', 'AAB', 'BBA', 'BBB', 'CCC', 'nnn']),
    dict(kind='cobweb3', attrs=['a', 'b', 'c'],
         shape=['AAA', 'CCC', 'BBB', 'ABC', 'nnA', 'AnB']),
    dict(kind='cobweb', attrs=['a', 'b', '_h'],
         shape=['nnn', 'nnn', 'nn?']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['rA', 'rA', 'rA'],
         scaling=False),
    dict(kind='trestle', attrs=['a', 'b'], shape=['nA', 'AB', 'nn']),
    dict(kind='cobweb', attrs=list('abcdefgh'),
         shape=['AAAAAAAA', '?AAAAAAA', 'AAAAAAA?']),
    dict(kind='cobweb3', attrs=list('abcdefgh'),
         shape=['AAAAAAAA', 'AAAAAAA?', '?AAAAAAA']),
    # a relation whose name starts with an underscore is visible
    dict(kind='cobweb', attrs=['a', ('_r', 'x')], shape=['An', 'An', 'n?']),
    dict(kind='cobweb3', attrs=['a', ('_r', 'x')], shape=['An', 'An', 'n?']),
]


@harness(quick=LOCK, thorough=LOCK + [
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nn'] * 5),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['??'] * 4),
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=['AAA', 'AAB', 'BBA', 'BBB', 'nnn', 'nnn']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['rn', 'rn', 'rn']),
])
def lockstep(ctx, kind, attrs, shape, scaling=0.5):
    """Every ifit of an arbitrary history turns the tree into one that the
    four-operator greedy search over category utility (reference model, ties
    in any direction) allows."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    numeric = kind != 'cobweb'
    tree = lib.make_tree(ctx, kind, **kw)
    insts = lib.instances(ctx, attrs, shape)
    pre = lib.Ref.of(tree.root)
    for k, i, _ in lib.fitted(ctx, tree, insts, shape):
        sc = lib.scale_fn(ctx, insts[:k + 1], scaling) if numeric else None
        ctx.check(conform(ctx, pre, i, tree, sc, numeric),
                  'the operation chosen is not the one with the highest '
                  'category utility')
        pre = lib.Ref.of(tree.root)


ROW = list(range(20)) + [[20, 21]]
GROWN = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.WIDE, new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.FRAY, new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.NEST, new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.BUSH, new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.DEEP, new='An'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=ROW, new='nA', calm=True),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=ROW, new='An', calm=True),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=lib.FRAY, new='nA'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=lib.DEEP, new='nA'),
    dict(kind='cobweb3', attrs=['r', 'b'], shape=lib.NEST, new='3A'),
    dict(kind='cobweb', attrs=['a', 'b'], pre=lib.mixed(40, 'QA'), new='An'),
    dict(kind='cobweb', attrs=['a', 'b', 'c'], pre=lib.mixed(18, 'AAA'),
         new='nAB'),
    dict(kind='cobweb', attrs=['a', 'b', '_h'], pre=lib.mixed(14, 'AAA'),
         new='Cn?'),
    dict(kind='cobweb3', attrs=['a', 'b'], pre=lib.mixed(12, 'AA'), new='n?'),
    dict(kind='trestle', attrs=['a', 'b'], pre=lib.mixed(10, 'AA'), new='n?'),
]


@harness(quick=GROWN)
def grown(ctx, kind, attrs, new, pre=None, shape=None, scaling=0.5,
          calm=False):
    """The next instance of a larger tree grown from fixed instances, or of a
    given shape: learned and categorised as the reference allows."""
    numeric = kind != 'cobweb'
    if pre:
        tree, insts = lib.grow(ctx, kind, attrs, pre)
    else:
        tree, ls = lib.build_tree(
            ctx, kind, shape, attrs, lib.fixed_leaves(
                shape, '0Q' if attrs[0] == 'r' else 'QA'), lib.SIZES)
        insts = lib.leaf_instances(ls)
    inst = lib.instance(ctx, attrs, new, 'new')
    r = lib.Ref.of(tree.root)
    ctx.fix_random(calm)
    if ctx.choice('how', ['learn', 'categorize']) == 'learn':
        tree.ifit(inst)
        sc = lib.scale_fn(ctx, insts + [inst], scaling) if numeric else None
        ctx.check(conform(ctx, r, inst, tree, sc, numeric),
                  'the operation chosen is not the one with the highest '
                  'category utility')
        return
    sc = lib.scale_fn(ctx, insts, scaling) if numeric else None
    c = tree.categorize(inst)
    o = lib.Oracle(ctx, inst, sc, numeric)
    ctx.check(any(c is x for x in descents(ctx, o, r)),
              'categorize does not follow the best children')


BEST = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], 2, 3],
         leaf=['AA', 'B-', 'nA', 'CB'], new='n?'),
    dict(kind='cobweb', attrs=['a', '_h'], shape=[0, 1, 2],
         leaf=['AA', 'BB', 'n-'], new='n?'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2],
         leaf=['A1', 'B4', 'n-'], new='n3'),
    dict(kind='cobweb3', attrs=['a'], shape=[0, 1], leaf=['r', 'r'],
         new='r', counts=1, scaling=False),
    dict(kind='cobweb', attrs=['a'], shape=[[0, 1], 2, 3],
         leaf=['A', 'B', 'A', 'C'], new='n', counts=1, free=True),
]


def descents(ctx, o, r):
    """Every leaf a greedy descent from r may end in."""
    if not r.kids:
        yield r.obj
        return
    sc = [(o.cu_best(r, i), i) for i in range(len(r.kids))]
    for _, b in o.maxima(sc):
        for x in descents(ctx, o, r.kids[b]):
            yield x


NEAR = [
    dict(tabs=[(154, 138), (135, 121), (90, 2), (20, 3)]),
    dict(tabs=[(123, 74), (2, 1), (60, 36), (9, 1)]),
    dict(tabs=[(148, 114), (100, 77), (40, 1)]),
    dict(tabs=[(1000, 997), (1001, 998), (400, 399), (90, 2)]),
    dict(tabs=[(1000, 997), (400, 399), (999, 996), (2, 1)]),
    dict(tabs=[(300, 30), (301, 30), (30, 3), (299, 30), (3, 3)]),
]


@harness(quick=[dict(c, kind=k) for c in NEAR for k in ('cobweb', 'cobweb3')])
def near(ctx, kind, tabs):
    """Children that summarise many instances and are almost equally good:
    still the better one is chosen."""
    tree = lib.make_tree(ctx, kind)
    S, Node = ctx.S, tree.root.__class__
    root = Node()
    root.tree = tree
    for k in [ctx.choice('turn', len(tabs))]:
        tabs = tabs[k:] + tabs[:k]
    for n, x in tabs:
        c = Node()
        c.tree, c.parent, c.count = tree, root, n
        c.av_counts = {S('a'): {S('A'): x}}
        if n > x:
            c.av_counts[S('a')][S('C')] = n - x
        root.update_counts_from_node(c)
        root.children.append(c)
    tree.root = root
    inst = {S('a'): ctx.string('v', 1)}
    o = lib.Oracle(ctx, inst, None, False)
    r = lib.Ref.of(root)
    scored = [(o.cu_best(r, i), i) for i in range(len(r.kids))]
    cu, b1, b2 = root.two_best_children(inst)
    i1 = [i for i, c in enumerate(root.children) if c is b1]
    i2 = [i for i, c in enumerate(root.children) if c is b2]
    ctx.check(any(i == i1[0] for _, i in o.maxima(scored)),
              'the best child does not maximise category utility')
    ctx.check(any(i == i2[0] for _, i in o.maxima(
        [x for x in scored if x[1] != i1[0]])),
        'the second best child is not second best')
    ctx.check(ctx.eq(cu, scored[i1[0]][0]), 'score of the best child')


@harness(quick=BEST, thorough=BEST + [
    dict(c, counts=3) for c in BEST if 'counts' not in c])
def choices(ctx, kind, attrs, shape, leaf, new, counts=2, scaling=0.5,
            free=False):
    """The best and second best child, the best operation and the concept an
    instance is categorized under are the ones that maximise category
    utility (ties in any direction)."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    numeric = kind != 'cobweb'
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, counts, **kw)
    insts = lib.leaf_instances(leaves)
    inst = lib.instance(ctx, attrs, new, 'new')
    sc = lib.scale_fn(ctx, insts, scaling) if numeric else None
    o = lib.Oracle(ctx, inst, sc, numeric)
    r = lib.Ref.of(tree.root)
    p = tree.root
    w = ctx.choice('what', ['two', 'op', 'categorize'])
    scored = [(o.cu_best(r, i), i) for i in range(len(r.kids))]
    if w == 'two':
        cu, b1, b2 = p.two_best_children(inst)
        i1 = [i for i, c in enumerate(p.children) if c is b1]
        i2 = [i for i, c in enumerate(p.children) if c is b2]
        ctx.check(len(i1) == 1 and len(i2) == 1 and i1 != i2,
                  'the two best children are not two children')
        ctx.check(any(i == i1[0] for _, i in o.maxima(scored)),
                  'the best child does not maximise category utility')
        ctx.check(any(i == i2[0] for _, i in o.maxima(
            [x for x in scored if x[1] != i1[0]])),
            'the second best child is not second best')
    elif w == 'op':
        n = len(r.kids)
        b1 = ctx.choice('best1', n)
        b2 = (b1 + 1 + ctx.choice('best2', n - 1)) % n if n > 2 else 1 - b1
        cu1 = o.cu_best(r, b1) if not free else \
            ctx.real('cu1', -1, 1)
        ops = dict(best=cu1, new=o.cu_new(r))
        if n > 2:
            ops['merge'] = o.cu_merge(r, b1, b2)
        if r.kids[b1].kids:
            ops['split'] = o.cu_split(r, b1)
        cu, op = p.get_best_operation(inst, p.children[b1], p.children[b2],
                                      cu1)
        hit = [k for k in ops if k == op]
        ctx.check(len(hit) == 1, 'an operation that is not possible here')
        ctx.check(ctx.eq(cu, ops[hit[0]]), 'score of the chosen operation')
        for k in ops:
            ctx.check(ctx.le(ops[k], ops[hit[0]]), 'the operation chosen is not '
                      'the best one')
    else:
        c = tree.categorize(inst)
        ctx.check(any(c is x for x in descents(ctx, o, r)),
                  'categorize does not follow the best children')
