from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

NOM = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nn', 'nn', 'nn']),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['n?', 'n?', '??']),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['oA', 'oB', 'AA']),
    dict(kind='cobweb3', attrs=['a', '_b'], shape=['oo', '00', '-A']),
    dict(kind='cobweb3', attrs=['a', ('b', '?c')], shape=['o0', '0o', 'A0']),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nn', 'nn', 'nn', 'nn']),
    dict(kind='cobweb', attrs=['a'], shape=['n', 'n', 'n', 'n', 'n']),
    dict(kind='cobweb', attrs=['a', 'b', '_h'], shape=['nn?', 'nn?', 'nnn']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['nn', 'nn', 'nn']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['n?', '?n', 'b?']),
]
NUM = [
    dict(kind='cobweb3', attrs=['a'], shape=['r', 'r', 'r']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['rn', 'rn', 'rn']),
    dict(kind='cobweb3', attrs=['a'], shape=['!', '!', '!']),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=['nr', 'n!', 'nr']),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['rr', 'rr', '!r'],
         scaling=False),
    dict(kind='cobweb3', attrs=[('a', '?o1'), 'b'], shape=['rn', 'rn', 'rn']),
    dict(kind='trestle', attrs=['a', 'b'], shape=['nn', '?A', 'An']),
    dict(kind='trestle', attrs=['a', '_h'], shape=['rn', 'r?', '1r']),
]
# a fixed beginning that leads to merges and splits, then arbitrary instances
LONG = [
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=['AAA', 'BBB', 'AAB', 'BBA', 'nnn']),
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=['AAA', 'AAB', 'BBA', 'BBB', 'CCC', 'nnn']),
    dict(kind='cobweb3', attrs=['a', 'b', 'c'],
         shape=['AAA', 'CCC', 'BBB', 'ABC', 'nnA', 'AnB']),
    dict(kind='cobweb3', attrs=['a', 'b', 'r'],
         shape=['AA1', 'BB2', 'CC3', 'AB1', 'BC2', 'nA3']),
]
BIG = [
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=lib.mixed(24, 'AAA') + ['nAn']),
    dict(kind='cobweb', attrs=['a', 'b', '_h'],
         shape=lib.mixed(18, 'ABB') + ['A?n']),
    dict(kind='cobweb3', attrs=['a', 'b', 'r'],
         shape=lib.mixed(14, 'AA0') + ['An3']),
    dict(kind='cobweb3', attrs=['a', 'r', '_h'],
         shape=lib.mixed(12, 'A0A') + ['n4A']),
    # many instances, many values, many equal instances
    dict(kind='cobweb', attrs=['a', 'b', 'c', '_h'],
         shape=lib.mixed(50, 'QPAP') + ['AA?A']),
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=lib.mixed(50, 'QQA') + ['AA?']),
    dict(kind='cobweb3', attrs=['a', 'b', 'c'],
         shape=lib.mixed(40, 'QPA') + ['AA?']),
    dict(kind='cobweb3', attrs=['a', 'r'],
         shape=lib.mixed(24, 'Q0') + ['n3']),
    dict(kind='cobweb3', attrs=['r'], shape=lib.mixed(30, '0') + ['n']),
    dict(kind='cobweb3', attrs=['a', '_r'],
         shape=lib.mixed(30, 'Q0') + ['Ar']),
    dict(kind='cobweb3', attrs=['r', '_h'], shape=[
        '5' + 'AB1'[i % 3] if i % 9 else '7B' for i in range(64)] + ['5n']),
    dict(kind='trestle', attrs=['a', 'b', '_r'],
         shape=lib.mixed(14, 'QA0') + ['An1']),
]


@harness(quick=NOM + NUM + LONG + BIG, thorough=NOM + NUM + LONG + BIG + [
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nn'] * 5),
    dict(kind='cobweb', attrs=['a'], shape=['n'] * 6),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['??'] * 4),
    dict(kind='cobweb', attrs=['a', 'b', 'c'], shape=['nnn'] * 4),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['nn'] * 4),
    dict(kind='cobweb3', attrs=['a'], shape=['r'] * 4, scaling=False),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['rn'] * 4, scaling=False),
    dict(kind='cobweb', attrs=['a', 'b', 'c'],
         shape=['AAA', 'CCC', 'BBB', 'ABC', 'nnA', 'nnB', 'nAn']),
])
def history(ctx, kind, attrs, shape, scaling=0.5):
    """After fitting k arbitrary instances, every concept holds the exact
    tally of the instances whose returned concept lies in its subtree (counts,
    values, numeric count, mean and spread); the root holds all of them."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    tree = lib.make_tree(ctx, kind, **kw)
    insts = lib.instances(ctx, attrs, shape)
    got = []
    for k, i, leaf in lib.fitted(ctx, tree, insts, shape):
        got.append((i, leaf))
        for _, l in got:
            ctx.check(lib.under(tree.root, l), 'returned concept not in tree')
    for n in lib.nodes(tree.root):
        mine = [i for i, l in got if lib.under(n, l)]
        ctx.check(bool(mine), 'a concept without instances')
        lib.check_tally(ctx, n, mine, kind != 'cobweb', 'concept')
    lib.check_tally(ctx, tree.root, insts, kind != 'cobweb', 'root')


STEP = [
    dict(kind='cobweb', shape=[0, 1], leaf=['nn', 'nn'], attrs=['a', 'b']),
    dict(kind='cobweb', shape=[0, 1, 2], leaf=['n', 'n', 'n'], attrs=['a']),
    dict(kind='cobweb', shape=[[0, 1], 2], leaf=['An', 'nA', 'nn'],
         attrs=['a', 'b'], counts=1),
    dict(kind='cobweb', shape=[[0, 1], 2, 3], leaf=['Ax', 'By', 'nx', 'Cn'],
         attrs=['a', 'b'], counts=1),
    dict(kind='cobweb3', shape=[0, 1], leaf=['r', 'r'], attrs=['a'],
         counts=1),
]


@harness(quick=STEP, thorough=STEP + [
    dict(kind='cobweb3', shape=[[0, 1], 2], leaf=['0x', '4y', '9x'],
         new='rn', attrs=['a', 'b'], counts=1, scaling=False),
    dict(kind='cobweb3', shape=[0, 1, 2], leaf=['1x', '1x', '3y'], new='rn',
         attrs=['a', 'b'], counts=1),
    dict(kind='cobweb', shape=[[0, 1], [2, 3]], leaf=['Ax', 'By', 'nx', 'Cn'],
         attrs=['a', 'b'], counts=2),
    dict(kind='cobweb', shape=[0, 1, 2, 3], leaf=['n', 'n', 'n', 'n'],
         attrs=['a'], counts=2),
    dict(kind='cobweb3', shape=[[0, 1], 2], leaf=['rx', 'ry', 'rx'],
         attrs=['a', 'b'], counts=1, scaling=False),
    dict(kind='cobweb3', shape=[[0, 1], 2, 3], leaf=['rx', 'ry', 'rx', 'ry'],
         attrs=['a', 'b'], counts=1, scaling=False),
    dict(kind='cobweb3', shape=[0, 1, 2], leaf=['rx', 'rx', 'ry'],
         attrs=['a', 'b'], counts=1),
])
def step(ctx, kind, shape, leaf, attrs, counts=2, scaling=0.5, new=None):
    """One more instance from any tree of the given shape: additivity is
    preserved everywhere and exactly the concepts above the returned one gain
    the instance."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, counts, **kw)
    kinds = new or ''.join('r' if k[0] == 'r' else 'n' for k in zip(*leaf))
    inst = lib.instance(ctx, attrs, kinds, 'new')
    got = [(i, n) for n, i, c in leaves.values() for _ in range(c)]
    c = tree.ifit(inst)
    got.append((inst, c))
    for n in lib.nodes(tree.root):
        mine = [i for i, l in got if lib.under(n, l)]
        lib.check_tally(ctx, n, mine, kind != 'cobweb', 'concept')
    lib.check_tally(ctx, tree.root, [i for i, _ in got], kind != 'cobweb',
                    'root')
    lib.check_children_sum(ctx, tree.root)


SIZES = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=[0, 1],
         specs=[['A', 'A'], ['B', 'A']], new='nA'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[0, 1],
         specs=[['A', 'A'], ['B', '']], new='n?'),
]


@harness(quick=SIZES, thorough=SIZES + [
    dict(kind='cobweb', attrs=['a'], shape=[0, 1, 2],
         specs=[['A'], ['B'], ['C']], new='n'),
    dict(kind='cobweb', attrs=['a', '_h'], shape=[[0, 1], 2],
         specs=[['A', ''], ['B', 'AB'], ['C', '']], new='nA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=[[0, 1], 2, 3],
         specs=[['A', 'A'], ['B', 'A'], ['C', ''], ['A', 'B']], new='nA')])
def sizes(ctx, kind, attrs, shape, specs, new):
    """One more instance from a tree whose concepts hold arbitrarily many
    instances: every concept above the returned one gains exactly the
    instance, every other concept keeps its table, inner concepts stay the sum
    of their children."""
    tree = lib.sym_tree(ctx, kind, shape, attrs, specs)
    leaves = [n for n in lib.nodes(tree.root) if not n.children]
    before = {id(n): lib.table(n) for n in leaves}
    total = lib.table(tree.root)
    inst = lib.instance(ctx, attrs, new, 'new')
    c = tree.ifit(inst)
    o = lib.Oracle(ctx, inst, None, kind != 'cobweb')
    lib.check_children_sum(ctx, tree.root)
    exp = o.add(total)
    ctx.check(ctx.eq(tree.root.count, exp[0]), 'count of the root')
    ctx.check(o.same_table(exp[1], lib.table(tree.root)[1]),
              'the root is not the old root plus the instance')
    now = [n for n in lib.nodes(tree.root) if not n.children]
    ctx.check(any(n is c for n in now), 'returned concept is not a leaf')
    for n in leaves:
        ctx.check(any(n is m for m in now), 'a leaf got lost')
    for n in now:
        t = before.get(id(n), (0, {}))
        if n is c:
            t = o.add(t)
        ctx.check(ctx.eq(n.count, t[0]), 'count of a leaf')
        ctx.check(o.same_table(t[1], lib.table(n)[1]), 'table of a leaf')


OPS = [
    dict(kind='cobweb', attrs=['a', 'b'], specs=[['nA', 'A'], ['nB', '']]),
    dict(kind='cobweb3', attrs=['a', '_h'], specs=[['n', 'n'], ['n', 'n']]),
]


@harness(quick=OPS)
def operations(ctx, kind, attrs, specs):
    """Copying a concept, adding a concept to another, merging and splitting
    children keep exactly the knowledge (arbitrary counts)."""
    tree = lib.sym_tree(ctx, kind, [0, 1, 2], attrs,
                        specs + [['A', '']])
    root = tree.root
    o = lib.Oracle(ctx, {}, None, kind != 'cobweb')

    def same(t, n, what):
        ctx.check(ctx.eq(t[0], n.count) and o.same_table(
            t[1], lib.table(n)[1]), what)
    a, b, c = root.children
    ta, tb, tc, tr = [lib.table(x) for x in (a, b, c, root)]
    w = ctx.choice('what', ['copy', 'add', 'merge', 'new', 'current'])
    if w == 'copy':
        same(tr, root.shallow_copy(), 'shallow copy')
        k = root.__class__(root)
        same(tr, k, 'copy')
        ctx.check(len(k.children) == 3, 'children of the copy')
        for x, y in zip(k.children, (ta, tb, tc)):
            same(y, x, 'child of the copy')
            ctx.check(x not in root.children, 'child shared with the copy')
    elif w == 'add':
        a.update_counts_from_node(b)
        same(lib.sum_tables([ta, tb]), a, 'sum of two concepts')
        same(tb, b, 'the concept added from')
    elif w == 'merge':
        m = root.merge(a, b)
        same(lib.sum_tables([ta, tb]), m, 'merged concept')
        same(ta, a, 'first merged child')
        same(tb, b, 'second merged child')
        same(tr, root, 'parent of the merge')
        lib.check_structure(ctx, tree)
        lib.check_children_sum(ctx, root)
        root.split(m)
        same(tr, root, 'parent of the split')
        ctx.check(sorted(id(x) for x in root.children) ==
                  sorted(id(x) for x in (a, b, c)), 'split undoes merge')
        lib.check_structure(ctx, tree)
        lib.check_children_sum(ctx, root)
    elif w == 'new':
        inst = lib.instance(ctx, attrs, 'n?', 'new')
        n = root.create_new_child(inst)
        same(lib.add_table(ctx, (0, {}), inst, False), n, 'new child')
        root.increment_counts(inst)
        lib.check_structure(ctx, tree)
        lib.check_children_sum(ctx, root)
    else:
        n = a.create_child_with_current_counts()
        same(ta, n, 'child with the current counts')
        same(ta, a, 'concept given a child')
        ctx.check(n.parent is a and a.children == [n], 'links of the child')


BUILT = [
    dict(kind='cobweb', attrs=['a', 'b', '_h'], shape=lib.NEST, new='nQA'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.FRAY, new='nQ'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.BUSH, new='nQ'),
    dict(kind='cobweb3', attrs=['a', 'r'], shape=lib.DEEP, new='n0'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=lib.WIDE, new='nQ'),
    dict(kind='trestle', attrs=['a', 'b'], shape=lib.NEST, new='nQ'),
]


@harness(quick=BUILT)
def larger(ctx, kind, attrs, shape, new):
    """Merging any two children, splitting any child and copying at any inner
    concept of a larger tree (one leaf arbitrary) keep the tallies of every
    concept."""
    leaf = lib.fixed_leaves(shape, new.replace('n', 'A'))
    leaf[1] = 'n' + leaf[1][1:]
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, lib.SIZES)
    got = [(i, n) for n, i, c in leaves.values() for _ in range(c)]
    inner = [n for n in lib.nodes(tree.root) if n.children]
    p = inner[ctx.choice('at', len(inner))] if len(inner) > 1 else inner[0]
    k = len(p.children)
    w = ctx.choice('what', ['merge', 'split', 'copy'])
    a = p.children[ctx.choice('child', k)]
    if w == 'merge':
        if k < 3:
            return
        j = ctx.choice('other', k - 1)
        rest = [c for c in p.children if c is not a]
        m = p.merge(a, rest[j])
        ctx.check(m.parent is p and m in p.children, 'the merged concept')
    elif w == 'split':
        if not a.children:
            return
        p.split(a)
    else:
        o = lib.Oracle(ctx, {}, None, kind != 'cobweb')

        def alike(x, y, what):
            t = lib.table(x)
            ctx.check(ctx.eq(t[0], y.count) and o.same_table(
                t[1], lib.table(y)[1]), what)
            ctx.check(len(x.children) == len(y.children), 'children of ' +
                      what)
            for c, d in zip(x.children, y.children):
                alike(c, d, what)
        alike(p, p.__class__(p), 'a copy')
        t = lib.table(p)
        q = p.shallow_copy()
        ctx.check(ctx.eq(t[0], q.count) and o.same_table(
            t[1], lib.table(q)[1]), 'a shallow copy')
    lib.check_structure(ctx, tree)
    lib.check_children_sum(ctx, tree.root)
    for n in lib.nodes(tree.root):
        mine = [i for i, l in got if lib.under(n, l)]
        lib.check_tally(ctx, n, mine, kind != 'cobweb', 'concept')
