from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()


def shape_of(n):
    return [n.count, [shape_of(c) for c in n.children]]


def same_shape(ctx, a, b):
    return (ctx.truth(ctx.eq(a.count, b.count)) and
            len(a.children) == len(b.children) and
            all(same_shape(ctx, x, y) for x, y in zip(a.children,
                                                      b.children)))


def conv(ctx, inst, attrs, f):
    return {a: (f(v) if a in attrs and lib.is_real(ctx, v) else v)
            for a, v in inst.items()}


def places(tree, concepts):
    ns = lib.nodes(tree.root)
    return [[i for i, n in enumerate(ns) if n is c] for c in concepts]


def steady(ctx, make, insts, mark, tree, concepts):
    """Judged only where rounding cannot matter.  Replaying through the real
    code computes with floats, and where two operations are exactly tied the
    last bit of a float decides instead of the random draw; such inputs show
    as another tree under tiny changes of the numbers, one way or the other.
    The encoding computes exactly, so there every input is judged."""
    if ctx.symbolic:
        return True
    nums = sorted({v for i in insts for v in i.values()
                   if lib.is_real(ctx, v)})
    for r in range(4):
        signs = {v: (1 if (k * 7 + k * k * r + r * (k % 3)) % 4 < 2 else -1) *
                 (1 + (k * 5 + 3 * r) % 7) for k, v in enumerate(nums)}
        for s in (1e-7, -1e-7):
            t = make()
            ctx.rewind(mark)
            cs = [t.ifit({a: (v + s * (1 + abs(v)) * signs[v]
                              if lib.is_real(ctx, v) else v)
                          for a, v in i.items()}) for i in insts]
            if (shape_of(t.root) != shape_of(tree.root) or
                    places(t, cs) != places(tree, concepts)):
                return False
    return True


AFF = [
    dict(attrs=['a'], shape=['r', 'r'], scaling=0.5),
    dict(attrs=['a', 'b'], shape=['rn', 'rn'], scaling=0.5),
    dict(attrs=['a'], shape=['r', '!', '!'], scaling=0.5),
    dict(attrs=['a', 'b'], shape=['r1', 'r3'], scaling=0.5),
    dict(attrs=[('a', '?o1'), ('a', '?o2')], shape=['rr', 'r-'], scaling=0.5),
    dict(attrs=['a', 'b'], shape=['1A', '3B', '1B', '7A', '-A', '4A'],
         scaling=0.5),
    dict(attrs=['a', 'b'], shape=['1A', '4B', '-C', '2n'], scaling=1),
    dict(attrs=['a', 'b'], shape=['1A', '3B', 'rA'], scaling=0.5,
         kind='trestle'),
    dict(attrs=['a', 'b'], shape=['rA', '3-'], scaling=0.5, kind='trestle'),
]


@harness(quick=AFF, thorough=AFF + [
    dict(attrs=['a'], shape=['r', 'r', 'r'], scaling=1),
    dict(attrs=['a', 'b'], shape=['rn', 'rn', 'rn'], scaling=0.5)])
def affine(ctx, attrs, shape, scaling, kind='cobweb3'):
    """With numeric scaling on, measuring a numeric attribute in other units
    (x -> k x + d, any k > 0, any d) gives the same tree over the same
    instances, with the same concept quality."""
    k = ctx.real('k', 0, lo_open=True)
    d = ctx.real('d')
    t1 = lib.make_tree(ctx, kind, scaling=scaling)
    t2 = lib.make_tree(ctx, kind, scaling=scaling)
    insts = lib.instances(ctx, attrs, shape)
    first = ctx.S(attrs[0])
    mine = [first] if isinstance(attrs[0], str) else [ctx.S(a) for a in attrs]
    m = ctx.mark()
    c1 = [t1.ifit(i) for i in insts]
    ctx.rewind(m)
    c2 = [t2.ifit(conv(ctx, i, mine, lambda v: k * v + d)) for i in insts]
    if not steady(ctx, lambda: lib.make_tree(ctx, kind, scaling=scaling),
                  insts, m, t1, c1):
        return ctx.ok()
    ctx.check(same_shape(ctx, t1.root, t2.root),
              'other units give another tree')
    n1, n2 = lib.nodes(t1.root), lib.nodes(t2.root)
    for x, y in zip(c1, c2):
        ctx.check([i for i, n in enumerate(n1) if n is x] ==
                  [i for i, n in enumerate(n2) if n is y],
                  'other units put an instance elsewhere')
    for x, y in zip(n1, n2):
        ctx.check(ctx.eq(x.expected_correct_guesses(),
                         y.expected_correct_guesses()),
                  'other units change the quality of a concept')


@harness(quick=[dict(n=1), dict(n=2), dict(n=3)])
def scale_probability(ctx, n):
    """The probability of a number does not depend on the unit either."""
    k = ctx.real('k', 0, lo_open=True)
    d = ctx.real('d')
    a = ctx.S('a')
    xs = [ctx.real('x%d' % i) for i in range(n)]
    if n > 1:
        ctx.assume(lib.num_stats(xs)[2] > 0)
    t1 = lib.make_tree(ctx, 'cobweb3')
    t2 = lib.make_tree(ctx, 'cobweb3')
    for x in xs:
        t1.root.increment_counts({a: x})
        t1.update_scales({a: x})
        t2.root.increment_counts({a: k * x + d})
        t2.update_scales({a: k * x + d})
    if n == 1:          # no spread seen: numbers are used as they are
        y = ctx.real('y')
        ctx.check(ctx.eq(t1.root.probability(a, y),
                         t2.root.probability(a, y + k * xs[0] + d - xs[0])),
                  'probability of a number after a shift')
        return
    y = ctx.real('y')
    ctx.check(ctx.eq(t1.root.probability(a, y),
                     t2.root.probability(a, k * y + d)),
              'probability of a number in other units')


RATE = [
    dict(attrs=['a'], shape=['r', 'r'], s=0.5), dict(
        attrs=['a'], shape=['r', 'r', 'r'], s=1),
    dict(attrs=['a', 'b'], shape=['rr', 'r-'], s=2),
    dict(attrs=[('a', '?o1'), ('a', '?o2')], shape=['rr', 'r-'], s=0.5),
    dict(attrs=[('a', '?o1'), ('a', '?o2')], shape=['rr', 'r-'], s=0.5,
         inner=False),
    dict(attrs=['a'], shape=['r', 'r'], s=False),
    dict(attrs=['a'], shape=['r', 'r'], s=False, kind='trestle'),
    dict(attrs=['a', 'b'], shape=['rr', 'r-'], s=2, kind='trestle'),
]


@harness(quick=RATE)
def divisor(ctx, attrs, shape, s, inner=True, kind='cobweb3'):
    """The quality of a concept uses its spread divided by (spread of all
    values of the attribute seen by the tree) / scaling; attributes of the
    same name in different components share their scale unless told
    otherwise; without scaling the raw spread is used."""
    tree = lib.make_tree(ctx, kind, scaling=s, inner_attr_scaling=inner)
    insts = lib.instances(ctx, attrs, shape)
    for i in insts:
        tree.ifit(i)
    sc = lib.scale_fn(ctx, insts, s, inner)
    for n in lib.nodes(tree.root):
        ctx.check(ctx.eq(n.expected_correct_guesses(),
                         lib.guesses(ctx, lib.table(n), sc)),
                  'scaled quality of a concept')


SHIFT = [
    dict(attrs=['a'], shape=['r', 'r', 'r']),
    dict(attrs=['a', 'b'], shape=['rn', 'rn']),
]


@harness(quick=SHIFT)
def shift(ctx, attrs, shape):
    """Without scaling a common shift of a numeric attribute still gives the
    same tree."""
    d = ctx.real('d')
    t1 = lib.make_tree(ctx, 'cobweb3', scaling=False)
    t2 = lib.make_tree(ctx, 'cobweb3', scaling=False)
    insts = lib.instances(ctx, attrs, shape)
    mine = [ctx.S(attrs[0])]
    m = ctx.mark()
    c1 = [t1.ifit(i) for i in insts]
    ctx.rewind(m)
    for i in insts:
        t2.ifit(conv(ctx, i, mine, lambda v: v + d))
    if not steady(ctx, lambda: lib.make_tree(ctx, 'cobweb3', scaling=False),
                  insts, m, t1, c1):
        return ctx.ok()
    ctx.check(same_shape(ctx, t1.root, t2.root), 'a shift gives another tree')
    for x, y in zip(lib.nodes(t1.root), lib.nodes(t2.root)):
        ctx.check(ctx.eq(x.expected_correct_guesses(),
                         y.expected_correct_guesses()),
                  'a shift changes the quality of a concept')


SC = [
    dict(attrs=['a'], groups=[['r', 'r'], ['r']], new='r'),
    dict(attrs=['a', 'b'], groups=[['rA', 'rB'], ['rA'], ['-A']], new='rA'),
    dict(attrs=[('a', '?o1'), ('a', '?o2')], groups=[['rr'], ['r-']],
         new='rr'),
    dict(attrs=['a', 'b'], groups=[['r1', 'r2'], ['r3']], new='r4',
         scaling=2),
]


def grouped(ctx, groups, scaling):
    tree = lib.make_tree(ctx, 'cobweb3', scaling=scaling)
    for g in groups:
        c = tree.root.create_new_child(g[0])
        for i in g[1:]:
            c.increment_counts(i)
        for i in g:
            tree.root.increment_counts(i)
            tree.update_scales(i)
    return tree


@harness(quick=SC, thorough=SC + [
    dict(attrs=['a'], groups=[['r', 'r'], ['r', 'r'], ['r']], new='r')])
def scores(ctx, attrs, groups, new, scaling=0.5):
    """Every score that decides where an instance goes (adding to each child,
    new child, merging) is the same in other units."""
    k = ctx.real('k', 0, lo_open=True)
    d = ctx.real('d')
    gs = []
    for x, g in enumerate(groups):
        gs.append([lib.instance(ctx, attrs, s, 'g%d.%d' % (x, y))
                   for y, s in enumerate(g)])
    q = lib.instance(ctx, attrs, new, 'new')
    mine = [ctx.S(attrs[0])] if isinstance(attrs[0], str) else [
        ctx.S(a) for a in attrs]

    def f(i):
        return conv(ctx, i, mine, lambda v: k * v + d)
    if isinstance(attrs[0], str):
        vals = [i[mine[0]] for g in gs for i in g if mine[0] in i]
    else:
        vals = [i[m] for g in gs for i in g for m in mine if m in i]
    # some spread has been seen
    ctx.assume(lib.num_stats(vals)[2] > 0)
    t1 = grouped(ctx, gs, scaling)
    t2 = grouped(ctx, [[f(i) for i in g] for g in gs], scaling)
    q2 = f(q)
    a, b = t1.root, t2.root
    ctx.check(ctx.eq(a.category_utility(), b.category_utility()),
              'category utility in other units')
    ctx.check(ctx.eq(a.cu_for_new_child(q), b.cu_for_new_child(q2)),
              'score of a new child in other units')
    for x, y in zip(a.children, b.children):
        ctx.check(ctx.eq(a.cu_for_insert(x, q), b.cu_for_insert(y, q2)),
                  'score of adding to a child in other units')
        ctx.check(bool(x.is_exact_match(q)) == bool(y.is_exact_match(q2)),
                  'exact match in other units')
    if len(a.children) > 2:
        ctx.check(ctx.eq(
            a.cu_for_merge(a.children[0], a.children[1], q),
            b.cu_for_merge(b.children[0], b.children[1], q2)),
            'score of a merge in other units')
