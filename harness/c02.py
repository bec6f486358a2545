from symex.runner_api import registry
from . import lib
from . import c01

HARNESSES, harness = registry()


def full_check(ctx, tree, kinds_ok=None):
    lib.check_structure(ctx, tree)
    root = tree.root
    ns = lib.nodes(root)
    ctx.check(root.num_concepts() == len(ns), 'num_concepts')
    for n in ns:
        d = 0
        t = n
        while t.parent is not None:
            t = t.parent
            d += 1
        ctx.check(t is root, 'a concept whose ancestors do not lead to root')
        ctx.check(n.depth() == d, 'depth')
        ctx.check(n.num_concepts() == len(lib.nodes(n)), 'num_concepts')
        ctx.check(type(n) is type(root), 'concept of another class')
    for x in ns:
        for y in ns:
            ctx.check(bool(x.is_parent(y)) == lib.under(x, y), 'is_parent')


@harness(quick=c01.NOM + c01.NUM + c01.LONG + c01.BIG,
         thorough=c01.HARNESSES['history'].thorough)
def history(ctx, kind, attrs, shape, scaling=0.5):
    """After every ifit of an arbitrary history the hierarchy is a tree: root
    without parent, every child pointing back, no concept with exactly one
    child, distinct names and tables, the returned concept reachable and a
    leaf; depth, is_parent and num_concepts describe it."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    tree = lib.make_tree(ctx, kind, **kw)
    insts = lib.instances(ctx, attrs, shape)
    seen = []
    for k, i, c in lib.fitted(ctx, tree, insts, shape):
        seen.append(c)
        ctx.check(not c.children, 'returned concept is not a leaf')
        ctx.check(lib.under(tree.root, c), 'returned concept not in tree')
        lib.check_structure(ctx, tree)
    full_check(ctx, tree)
    leaves = [n for n in lib.nodes(tree.root) if not n.children]
    for l in leaves:
        ctx.check(any(l is c for c in seen), 'a leaf that was never returned')


@harness(quick=c01.STEP, thorough=c01.HARNESSES['step'].thorough)
def step(ctx, kind, shape, leaf, attrs, counts=2, scaling=0.5, new=None):
    """Well-formedness is preserved by one ifit from any tree of the shape."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, counts, **kw)
    kinds = new or ''.join('r' if k[0] == 'r' else 'n' for k in zip(*leaf))
    inst = lib.instance(ctx, attrs, kinds, 'new')
    old = [n for n, i, c in leaves.values()]
    c = tree.ifit(inst)
    full_check(ctx, tree)
    ctx.check(not c.children, 'returned concept is not a leaf')
    new = [n for n in lib.nodes(tree.root) if not n.children]
    for l in old:
        ctx.check(any(l is n for n in new), 'a leaf got lost')
    extra = [n for n in new if not any(n is l for l in old)]
    ctx.check(len(extra) <= 1, 'more than one new leaf')
    for n in extra:
        ctx.check(n is c, 'the new leaf is not the returned concept')


OPS = [
    dict(kind='cobweb', shape=[[[0, 1], 2], 3], leaf=['n', 'n', 'A', 'B'],
         attrs=['a']),
    dict(kind='cobweb', shape=[[0, 1], [2, 3, 4], 5],
         leaf=['nA', 'A-', 'A-', 'A-', 'BA', 'Bn'], attrs=['a', '_h']),
    dict(kind='cobweb3', shape=[[[0, 1], 2], 3, [4, 5]],
         leaf=['n1', 'A2', '-3', 'A-', 'Ar', 'B-'], attrs=['a', 'b']),
    dict(kind='cobweb', shape=lib.FRAY, leaf=lib.fixed_leaves(lib.FRAY, 'Q'),
         attrs=['a']),
    dict(kind='cobweb', shape=lib.CHAIN, leaf=list('ABCDEFGHIJKLn'),
         attrs=['a']),
    dict(kind='cobweb3', shape=[lib.WIDE, 9, [10, 11]],
         leaf=lib.fixed_leaves(lib.FRAY, '0'), attrs=['a']),
]


@harness(quick=OPS)
def operations(ctx, kind, shape, leaf, attrs):
    """The restructuring operations (splitting any child, merging any two,
    adding a child) at any concept keep the hierarchy a tree with exactly the
    concepts it should have."""
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, 1)
    ns = [n for n in lib.nodes(tree.root) if n.children]
    p = ns[ctx.choice('at', len(ns))]
    before = lib.nodes(tree.root)
    kids = list(p.children)
    i = ctx.choice('child', len(kids))
    c = kids[i]
    others = [k for k in kids if k is not c]
    what = ctx.choice('what', 4)
    if what == 0:
        if not c.children:
            return
        exp = others + list(c.children)
        p.split(c)
        gone, new = [c], []
    elif what == 1:
        if len(kids) < 3:
            return
        d = others[ctx.choice('other', len(others))]
        m = p.merge(c, d)
        exp = [k for k in others if k is not d] + [m]
        gone, new = [], [m]
        ctx.check(len(m.children) == 2 and any(x is c for x in m.children) and
                  any(x is d for x in m.children), 'children after merging')
    elif what == 2:
        m = p.create_new_child(lib.instance(ctx, attrs, leaf[0], 'new'))
        exp = kids + [m]
        gone, new = [], [m]
        ctx.check(not m.children, 'a new child with children')
    else:
        p = tree.root
        ns = [n for n in before if not n.children]
        p = ns[ctx.choice('leaf', len(ns))]
        m = p.create_child_with_current_counts()
        m2 = p.create_new_child(lib.instance(ctx, attrs, leaf[0], 'new'))
        exp = [m, m2]
        gone, new = [], exp
    ctx.check(len(p.children) == len(exp) and all(
        any(x is y for y in p.children) for x in exp), 'children after the '
        'operation')
    after = lib.nodes(tree.root)
    want = [n for n in before if not any(n is g for g in gone)] + new
    ctx.check(len(after) == len(want) and all(
        any(x is y for y in after) for x in want), 'concepts lost or left')
    full_check(ctx, tree)
