from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()


def visible(inst):
    return {a: v for a, v in inst.items() if not lib.hidden(a)}


def vis_table(ctx, n):
    c, t = lib.table(n)
    return c, {a: vs for a, vs in t.items() if not lib.hidden(a)}


def same_visible(ctx, x, y):
    o = lib.Oracle(ctx, {}, None, True)
    a, b = vis_table(ctx, x), vis_table(ctx, y)
    return (ctx.truth(ctx.eq(a[0], b[0])) and o.same_table(a[1], b[1]) and
            len(x.children) == len(y.children) and
            all(same_visible(ctx, c, d) for c, d in zip(x.children,
                                                        y.children)))


RUN = [
    dict(kind='cobweb', attrs=['a', '_h'], shape=['nn', 'nn', 'nn']),
    dict(kind='cobweb', attrs=['a', 'b', '_h'], shape=['nAn', 'nB?', 'AA?']),
    dict(kind='cobweb', attrs=['a', 'b', '_'],
         shape=['AAA', 'ABB', 'BBA', 'CCA', 'nn?']),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=['nr', 'n!', 'nr']),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=['rr', 'rn', 'r?']),
    dict(kind='cobweb3', attrs=['a', '_h', '_g'], shape=['1r?', '2A?', 'n?r']),
    dict(kind='cobweb3', attrs=['a', ('_', 'x')], shape=['nr', 'nr', 'n?']),
    dict(kind='cobweb', attrs=['_h', '_g'], shape=['nn', '?n', 'n-']),
    dict(kind='cobweb', attrs=['a', '__', '__b'], shape=['nnA', 'nAn', 'n?n']),
    dict(kind='cobweb3', attrs=['a', '__', ('_', ('h', '?o'))],
         shape=['n1A', 'nAn', 'n?2']),
    dict(kind='cobweb3', attrs=['a', 'b', '_h'],
         shape=lib.mixed(24, 'QAP') + ['AAn']),
    dict(kind='cobweb', attrs=['a', 'b', '_h'],
         shape=lib.mixed(16, 'AAA') + ['nA?']),
    dict(kind='cobweb3', attrs=['a', 'b', '_h'],
         shape=lib.mixed(10, 'A00') + ['n3?']),
    dict(kind='trestle', attrs=['a', 'b', '_h'],
         shape=lib.mixed(8, 'A00') + ['n3?']),
    dict(kind='trestle', attrs=['a', '_h'], shape=['nn', 'n?', 'n1']),
]


@harness(quick=RUN, thorough=RUN + [
    dict(kind='cobweb', attrs=['a', 'b', '_h'], shape=['nnn', 'nn?', 'nn?',
                                                       'nn?']),
    dict(kind='cobweb', attrs=['a', '_h'], shape=['n?'] * 5),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=['r!'] * 3)])
def invisible(ctx, kind, attrs, shape, scaling=0.5):
    """Learning with and without the hidden attributes (same tie-breaking
    draws) gives the same tree over the same instances; every quality score
    is the same; the hidden values themselves are tallied exactly."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    t1 = lib.make_tree(ctx, kind, **kw)
    t2 = lib.make_tree(ctx, kind, **kw)
    insts = lib.instances(ctx, attrs, shape)
    c2 = []
    c1 = []
    m = ctx.mark()
    for k, i, c in lib.fitted(ctx, t1, insts, shape):
        c1.append(c)
    ctx.rewind(m)
    for k, i, c in lib.fitted(ctx, t2, [visible(i) for i in insts], shape):
        c2.append(c)
    ctx.check(same_visible(ctx, t1.root, t2.root),
              'hidden attributes change the tree')
    n1, n2 = lib.nodes(t1.root), lib.nodes(t2.root)
    for x, y in zip(c1, c2):
        ctx.check([i for i, n in enumerate(n1) if n is x] ==
                  [i for i, n in enumerate(n2) if n is y],
                  'hidden attributes move an instance')
    for x, y in zip(n1, n2):
        ctx.check(ctx.eq(x.expected_correct_guesses(),
                         y.expected_correct_guesses()),
                  'hidden attributes change the quality of a concept')
        ctx.check(ctx.eq(x.category_utility(), y.category_utility()),
                  'hidden attributes change category utility')
    got = list(zip(insts, c1))
    for n in n1:
        lib.check_tally(ctx, n, [i for i, l in got if lib.under(n, l)],
                        kind != 'cobweb', 'concept')


QRY = [
    dict(kind='cobweb', attrs=['a', 'b', '_h'], shape=[[0, 1], 2],
         leaf=['AAA', 'ABB', 'nB-'], q='n?n'),
    dict(kind='cobweb', attrs=['a', '_h'], shape=[0, 1, 2],
         leaf=['nA', 'nn', 'nC'], q='nn'),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=[[0, 1], 2],
         leaf=['A1', 'B2', 'nr'], q='nr'),
    dict(kind='cobweb3', attrs=['a', '_h'], shape=[0, 1],
         leaf=['1A', '3n'], q='r!'),
    dict(kind='cobweb', attrs=['a', 'b', '_h'], shape=[0, 1, 2],
         leaf=['A-?', '-B?', 'A?-'], q='??n'),
    dict(kind='cobweb3', attrs=['a', 'b', '_h'], shape=[[0, 1], 2],
         leaf=['A-1', '-2?', 'A?-'], q='??n'),
    dict(kind='trestle', attrs=['a', '_h'], shape=[[0, 1], 2],
         leaf=['A1', 'B2', 'nr'], q='nr'),
]


@harness(quick=QRY, thorough=QRY + [dict(c, counts=2) for c in QRY])
def query(ctx, kind, attrs, shape, leaf, q, counts=1, scaling=0.5):
    """Hidden attributes of a query do not influence where it is categorized,
    whether it matches a concept, or any what-if score."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, counts, **kw)
    qi = lib.instance(ctx, attrs, q, 'q')
    vi = visible(qi)
    w = ctx.choice('what', ['categorize', 'match', 'scores'])
    if w == 'categorize':
        m = ctx.mark()
        c = tree.categorize(qi)
        ctx.rewind(m)
        d = tree.categorize(vi)
        ctx.check(c is d, 'hidden attributes change the category')
    elif w == 'match':
        for n in lib.nodes(tree.root):
            ctx.check(bool(n.is_exact_match(qi)) ==
                      bool(n.is_exact_match(vi)),
                      'hidden attributes change an exact match')
    else:
        p = tree.root
        m = ctx.mark()
        u1, b1, s1 = p.two_best_children(qi)
        ctx.rewind(m)
        u2, b2, s2 = p.two_best_children(vi)
        ctx.check(b1 is b2 and s1 is s2, 'hidden attributes change the order '
                  'of the children')
        ctx.check(ctx.eq(u1, u2), 'hidden attributes change a score')
        ctx.check(ctx.eq(p.cu_for_new_child(qi), p.cu_for_new_child(vi)),
                  'hidden attributes change a score')
        for c in p.children:
            ctx.check(ctx.eq(p.cu_for_insert(c, qi), p.cu_for_insert(c, vi)),
                      'hidden attributes change a score')
            ctx.check(ctx.eq(c.cu_for_fringe_split(qi),
                             c.cu_for_fringe_split(vi)),
                      'hidden attributes change a score')
        ctx.check(ctx.eq(
            p.cu_for_merge(p.children[0], p.children[1], qi),
            p.cu_for_merge(p.children[0], p.children[1], vi)),
            'hidden attributes change a score')
    vis = [a for a in tree.root.attrs()]
    for a in tree.root.av_counts:
        ctx.check(any(a == b for b in vis) == (not lib.hidden(a)),
                  'attrs() lists the wrong attributes')
    ctx.check(len(list(tree.root.attrs(ctx.S('all')))) ==
              len(tree.root.av_counts), "attrs('all') is not all")


@harness(quick=[dict(kind=k, n=n) for k in ('cobweb', 'cobweb3')
                for n in (1, 2, 3)])
def names(ctx, kind, n):
    """Which attributes are hidden is decided by the first character of the
    name and by nothing else, for arbitrary names: the listing of attributes,
    the quality of a concept and exact matching follow it."""
    S = ctx.S
    a = ctx.string('attr', n, ((33, 126),))
    ctx.assume(a != S('a'))
    v, w = ctx.string('v', 1), ctx.string('w', 1)
    tree = lib.make_tree(ctx, kind)
    ctx.fix_random(True)
    insts = [{S('a'): S('x'), a: v}, {S('a'): S('x'), a: w}]
    for i in insts:
        tree.ifit(i)
    ctx.fix_random(False)
    h = a[0] == '_'
    ctx.check((len(tree.root.children) == 0) == (True if h else v == w),
              'matching by a hidden, or not by a visible attribute')
    for x in lib.nodes(tree.root):
        ctx.check(any(b == a for b in x.attrs()) == (not h),
                  'attrs() lists the wrong attributes')
        ctx.check(ctx.eq(x.expected_correct_guesses(), lib.guesses(
            ctx, lib.table(x), None)), 'quality of a concept')
    lib.check_tally(ctx, tree.root, insts, kind != 'cobweb', 'root')
