from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()


def sc(ctx, kind, insts, scaling):
    return lib.scale_fn(ctx, insts, scaling) if kind != 'cobweb' else None


def kids(p):
    return [lib.table(c) for c in p.children]


def definition(ctx, root, scales):
    for n in lib.nodes(root):
        ctx.check(ctx.eq(n.expected_correct_guesses(),
                         lib.guesses(ctx, lib.table(n), scales)),
                  'expected correct guesses differ from the definition')
        ctx.check(ctx.eq(n.category_utility(),
                         lib.utility(ctx, lib.table(n), kids(n), scales)),
                  'category utility differs from the definition')


def whatif(ctx, p, inst, scales, numeric):
    """Every predicted score of p is the category utility of the partition the
    operation would give."""
    def u(parent, ks):
        return lib.utility(ctx, parent, ks, scales)

    def add(t):
        return lib.add_table(ctx, t, inst, numeric)
    t = lib.table(p)
    ks = kids(p)
    n = len(ks)
    w = ctx.choice('what', ['insert', 'new', 'merge', 'split', 'fringe',
                            'best'])
    if w == 'insert' and n:
        i = ctx.choice('child', n)
        ctx.check(ctx.eq(p.cu_for_insert(p.children[i], inst), u(
            add(t), [add(k) if j == i else k for j, k in enumerate(ks)])),
            'score of adding to a child')
    elif w == 'new' and n:
        ctx.check(ctx.eq(p.cu_for_new_child(inst), u(
            add(t), ks + [add((0, {}))])), 'score of a new child')
    elif w == 'merge' and n > 1:
        i = ctx.choice('child', n)
        j = (i + 1 + ctx.choice('other', n - 1)) % n if n > 2 else 1 - i
        m = add(lib.sum_tables([ks[i], ks[j]]))
        ctx.check(ctx.eq(p.cu_for_merge(p.children[i], p.children[j], inst),
                         u(add(t), [m] + [k for x, k in enumerate(ks)
                                          if x not in (i, j)])),
                  'score of merging two children')
    elif w == 'split' and n:
        i = ctx.choice('child', n)
        c = p.children[i]
        if c.children:
            ctx.check(ctx.eq(p.cu_for_split(c), u(t, [
                k for x, k in enumerate(ks) if x != i] + kids(c))),
                'score of splitting a child')
    elif w == 'fringe' and not n:
        ctx.check(ctx.eq(p.cu_for_fringe_split(inst),
                         u(add(t), [t, add((0, {}))])),
                  'score of splitting a leaf')
    elif w == 'best' and n:
        ctx.fix_random(True)
        cu, b1, b2 = p.two_best_children(inst)
        ctx.fix_random(False)
        i = [x for x, c in enumerate(p.children) if c is b1]
        ctx.check(len(i) == 1, 'best child is not a child')
        i = i[0]
        ctx.check(ctx.eq(cu, u(add(t), [add(k) if j == i else k
                                        for j, k in enumerate(ks)])),
                  'score reported for the best child')


SYM = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=0, specs=[['nn', 'n']]),
    dict(kind='cobweb', attrs=['a', 'b'], shape=0, specs=[['oA', 'o']]),
    dict(kind='cobweb', attrs=['a'], shape=[0, 1], specs=[['o'], ['oA']]),
    dict(kind='cobweb3', attrs=['a'], shape=[0, 1], specs=[['o'], ['oA']]),
    dict(kind='cobweb', attrs=['a', '_h'], shape=[0, 1],
         specs=[['n', 'nn'], ['nn', '']]),
    dict(kind='cobweb', attrs=['a', 'b'], shape=[0, 1],
         specs=[['AB', 'A'], ['A', '']]),
    dict(kind='cobweb', attrs=['a'], shape=[0, 1, 2],
         specs=[['n'], ['AB'], ['']]),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[0, 1],
         specs=[['n', 'A'], ['AB', '']]),
]


@harness(quick=SYM, thorough=SYM + [
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], 2],
         specs=[['n', 'A'], ['AB', ''], ['A', 'B']]),
    dict(kind='cobweb', attrs=['a', 'b'], shape=[0, 1, 2],
         specs=[['nn', 'A'], ['AB', ''], ['A', 'nB']]),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2],
         specs=[['n', 'A'], ['AB', ''], ['A', 'B']]),
])
def sizes(ctx, kind, attrs, shape, specs):
    """For concepts summarising arbitrarily many instances (arbitrary counts):
    expected correct guesses and category utility are those of the
    definition."""
    tree = lib.sym_tree(ctx, kind, shape, attrs, specs)
    definition(ctx, tree.root, None)


WSYM = [
    dict(kind='cobweb', attrs=['a', '_h'], shape=[0, 1],
         specs=[['n', 'A'], ['A', '']], new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=0, specs=[['A', 'A']],
         new='n?'),
    dict(kind='cobweb', attrs=['a'], shape=[0, 1, 2],
         specs=[['A'], ['AB'], ['']], new='?'),
    dict(kind='cobweb', attrs=['a'], shape=[[0, 1], 2],
         specs=[['A'], ['B'], ['A']], new='n'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[0, 1],
         specs=[['A', 'A'], ['B', '']], new='n?'),
    dict(kind='cobweb', attrs=['a'], shape=[[0, 1], 2, 3],
         specs=[['n'], ['A'], ['n'], ['A']], new='n'),
    dict(kind='cobweb', attrs=['a'], shape=[[0, 1], [2, 3], 4],
         specs=[['n'], ['n'], ['n'], ['A'], ['B']], new='A'),
    dict(kind='cobweb3', attrs=['a'], shape=[[0, 1], 2, 3],
         specs=[['n'], ['A'], ['n'], ['A']], new='n'),
]


@harness(quick=WSYM, thorough=WSYM + [
    dict(kind='cobweb', attrs=['a'], shape=[0, 1, 2, 3],
         specs=[['n'], ['n'], ['n'], ['A']], new='n'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], 2],
         specs=[['A', 'A'], ['B', ''], ['AB', 'B']], new='n?'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=[0, 1, 2],
         specs=[['n', 'A'], ['B', ''], ['A', 'B']], new='nA'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2],
         specs=[['A', 'A'], ['B', ''], ['A', 'B']], new='n?'),
])
def whatif_sizes(ctx, kind, attrs, shape, specs, new):
    """The predicted scores (adding to a child, new child, merge, split, leaf
    split, best child) for arbitrary counts."""
    tree = lib.sym_tree(ctx, kind, shape, attrs, specs)
    inst = lib.instance(ctx, attrs, new, 'new')
    whatif(ctx, tree.root, inst, None, kind != 'cobweb')


NUMT = [
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[0, 1], leaf=['rA', 'rB'],
         new='rn', counts=2),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=[[0, 1], 2],
         leaf=['rr', 'r-', 'n3'], new='r!', counts=1),
    dict(kind='cobweb3', attrs=['a'], shape=[0, 1, 2], leaf=['r', 'r', 'r'],
         new='!', counts=1),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2],
         leaf=['rA', 'r-', '-A'], new='rn', counts=1, scaling=False),
    dict(kind='cobweb3', attrs=[('a', '?o1'), ('a', '?o2')], shape=[0, 1],
         leaf=['r-', '-r'], new='rr', counts=1),
    dict(kind='cobweb3', attrs=[('a', '?o1'), ('a', '?o2')], shape=[0, 1],
         leaf=['r-', '-r'], new='rr', counts=1, scaling=2),
]


@harness(quick=NUMT, thorough=NUMT + [
    dict(kind='cobweb3', attrs=['a'], shape=[[0, 1], 2], leaf=['r', 'r', 'r'],
         new='r', counts=2),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], [2, 3]],
         leaf=['rA', 'rB', 'rA', 'nB'], new='rn', counts=1)])
def numbers(ctx, kind, attrs, shape, leaf, new, counts, scaling=0.5):
    """The same with numeric attributes: arbitrary real values, numeric scale
    from everything seen."""
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, counts,
                                  scaling=scaling)
    insts = lib.leaf_instances(leaves)
    if ctx.choice('part', ['definition', 'whatif']) == 'definition':
        definition(ctx, tree.root, sc(ctx, kind, insts, scaling))
    else:
        inst = lib.instance(ctx, attrs, new, 'new')
        whatif(ctx, tree.root, inst, sc(ctx, kind, insts, scaling), True)


GROWN = [
    dict(kind='cobweb', attrs=['a', 'b'], pre=lib.mixed(34, 'PQ'),
         new='nA'),
    dict(kind='cobweb3', attrs=['a', 'b'], pre=lib.mixed(30, 'PQ'),
         new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.WIDE, new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.FRAY, new='nA'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=lib.NEST, new='nA'),
    dict(kind='cobweb3', attrs=['r', 'b'], shape=lib.WIDE, new='3n'),
    dict(kind='cobweb3', attrs=['r', 'b'], shape=lib.DEEP, new='3n'),
    dict(kind='cobweb', attrs=['a', 'b', 'c'], pre=lib.mixed(18, 'AAA'),
         new='nA?'),
    dict(kind='cobweb', attrs=['a', 'b', '_h'], pre=lib.mixed(14, 'AAA'),
         new='nA?'),
    dict(kind='cobweb3', attrs=['a', 'b'], pre=lib.mixed(12, 'A0'), new='n3'),
]


@harness(quick=GROWN)
def grown(ctx, kind, attrs, new, pre=None, shape=None, scaling=0.5):
    """The same at the concepts of a larger tree grown from fixed
    instances or of a given shape."""
    if pre:
        tree, insts = lib.grow(ctx, kind, attrs, pre)
    else:
        tree, ls = lib.build_tree(
            ctx, kind, shape, attrs, lib.fixed_leaves(
                shape, '0Q' if attrs[0] == 'r' else 'QA'), lib.SIZES)
        insts = lib.leaf_instances(ls)
    scales = sc(ctx, kind, insts, scaling)
    if ctx.choice('part', ['definition', 'whatif']) == 'definition':
        definition(ctx, tree.root, scales)
        return
    ns = lib.some_nodes(tree.root, True)
    p = ns[ctx.choice('at', len(ns))]
    whatif(ctx, p, lib.instance(ctx, attrs, new, 'new'), scales,
           kind != 'cobweb')


REAL = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], 2, 3],
         leaf=['AA', 'B-', 'nA', 'CB'], new='n?'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2, 3],
         leaf=['A1', 'Br', 'A3', 'C-'], new='n2', scaling=False),
]


@harness(quick=REAL, thorough=REAL + [dict(c, counts=2) for c in REAL])
def after(ctx, kind, attrs, shape, leaf, new, counts=1, scaling=0.5):
    """The predicted score equals the category utility measured after actually
    carrying out the operation (merge, split, new child, insertion, leaf
    split)."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, counts, **kw)
    p = tree.root
    inst = lib.instance(ctx, attrs, new, 'new')
    w = ctx.choice('what', ['insert', 'new', 'merge', 'split', 'fringe'])
    n = len(p.children)
    i = ctx.choice('child', n)
    c = p.children[i]
    if w == 'insert':
        s = p.cu_for_insert(c, inst)
        p.increment_counts(inst)
        c.increment_counts(inst)
    elif w == 'new':
        s = p.cu_for_new_child(inst)
        p.increment_counts(inst)
        p.create_new_child(inst)
    elif w == 'merge':
        d = p.children[(i + 1 + ctx.choice('other', n - 1)) % n]
        s = p.cu_for_merge(c, d, inst)
        p.increment_counts(inst)
        m = p.merge(c, d)
        m.increment_counts(inst)
    elif w == 'split':
        if not c.children:
            return
        s = p.cu_for_split(c)
        p.split(c)
    else:
        if c.children:
            return
        p = c
        s = p.cu_for_fringe_split(inst)
        p.create_child_with_current_counts()
        p.increment_counts(inst)
        p.create_new_child(inst)
    ctx.check(ctx.eq(s, p.category_utility()),
              'predicted score of %s is not the score after it' % w)
