from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

NOM = [
    dict(kind='cobweb', attrs=['a', 'b'], specs=['nn', '']),
    dict(kind='cobweb', attrs=['_h', 'b'], specs=['nnn', 'n']),
    dict(kind='cobweb3', attrs=['a', 'b'], specs=['nnn', '']),
    dict(kind='cobweb3', attrs=['_h', 'b'], specs=['nn', 'n']),
    dict(kind='dummy', attrs=['a', 'b'], specs=['nn', '']),
    dict(kind='cobweb', attrs=['a', 'b'], specs=['oA', 'o']),
    dict(kind='cobweb3', attrs=['a', 'b'], specs=['oA', 'o']),
    dict(kind='trestle', attrs=['a', 'b'], specs=['oo', '']),
    dict(kind='cobweb3', attrs=['a', 'b'], specs=['tA', 'b']),
    dict(kind='cobweb3', attrs=['a'], specs=['ABCD']),
    dict(kind='cobweb', attrs=['a'], specs=['ABCDE']),
]


@harness(quick=NOM)
def nominal(ctx, kind, attrs, specs):
    """For a concept with arbitrary counts: the probability of a value is its
    share of the concept's instances, None's the share without a value, others
    0; they lie in [0,1] and sum to 1; get_weighted_values lists exactly them;
    expected correct guesses lie in [0,1]."""
    tree = lib.make_tree(ctx, kind)
    n = lib.sym_leaf(ctx, tree, specs, attrs, 'c')
    tree.root = n
    N = n.count
    for a in list(n.av_counts) + [ctx.S('zz')]:
        tab = n.av_counts.get(a, {})
        rest = N
        tot = 0
        for v, c in tab.items():
            p = n.probability(a, v)
            ctx.check(ctx.eq(p, c / N), 'probability of a value')
            ctx.check(ctx.band(p >= 0, ctx.lez(p, 1)), 'probability outside [0,1]')
            rest = rest - c
            tot = tot + p
        p = n.probability(a, None)
        ctx.check(ctx.eq(p, rest / N), 'probability of a missing value')
        ctx.check(ctx.band(p >= 0, ctx.lez(p, 1)), 'probability outside [0,1]')
        ctx.check(ctx.eq(tot + p, 1), 'probabilities do not sum to one')
        other = ctx.string('other_' + str(len(tab)) + '_' + (
            'z' if not tab else 't') + str(attrs.index(a) if a in attrs else
                                           9), 1)
        ctx.assume(other not in tab)
        ctx.check(ctx.eq(n.probability(a, other), 0),
                  'probability of a value never seen')
        for x in (0, 1, 1.0, 2.5) if kind != 'cobweb' else ():
            ctx.check(ctx.eq(n.probability(a, x), 0),
                      'probability of a number where none was seen')
        for none in (True, False):
            ws = n.get_weighted_values(a, none)
            vals = [v for v, _ in ws]
            want = list(tab) + ([None] if none or not tab else [])
            ctx.check(len(vals) == len(want) and all(
                any(x is y or (x is not None and y is not None and x == y)
                    for y in vals) for x in want),
                'values listed with weights')
            for v, w in ws:
                ctx.check(ctx.eq(w, n.probability(a, v)),
                          'weight is not the probability')
    if max(len(s) for s in specs) > 3:
        return
    g = n.expected_correct_guesses()
    ctx.check(ctx.band(g >= 0, ctx.lez(g, 1)), 'expected correct guesses not in '
              '[0,1]')


def normal(ctx, x, m, var):
    return ctx.exp(-(x - m) * (x - m) / (2 * var)) / ctx.sqrt(
        2 * ctx.pi * var)


NUMS = [
    dict(shape=['r'], scaling=False), dict(shape=['r', 'r'], scaling=False),
    dict(shape=['r', '-', 'r'], scaling=False),
    dict(shape=['r', 'n', 'r'], scaling=False),
    dict(shape=['r'], scaling=0.5), dict(shape=['r', 'r'], scaling=0.5),
    dict(shape=['r', 'r', '-'], scaling=1),
    dict(shape=['n', 'r', 'A'], scaling=0.5),
    dict(shape=['r', 'r'], scaling=0.5, attr=('a', '?o1')),
    dict(shape=['r', 'r'], scaling=0.5, attr='_h'),
    dict(shape=['r', 'A', 'B', 'b', '-', 'B'], scaling=0.5),
    dict(shape=['3', 'A', 'B', 'C', '-', 'r'], scaling=False),
]


@harness(quick=NUMS, thorough=NUMS + [dict(shape=['r'] * 4, scaling=0.5)])
def numeric(ctx, shape, scaling, attr='a'):
    """A concept holding numbers: the probability of a number is P(attribute
    is numeric) times a normal density around the concept's mean (variance:
    the concept's unbiased variance plus 1/(2 pi), on the tree's scale), hence
    in (0,1]; nominal values and None share the rest; a number has probability
    0 where no number was seen."""
    tree = lib.make_tree(ctx, 'cobweb3', scaling=scaling)
    insts = lib.instances(ctx, [attr], shape)
    extra = {ctx.S(attr): ctx.real('elsewhere')}
    for i in insts:
        tree.root.increment_counts(i)
        tree.update_scales(i)
    tree.update_scales(extra)
    n = tree.root
    a = ctx.S(attr)
    x = ctx.real('x')
    sc = lib.scale_fn(ctx, insts + [extra], scaling)
    s = sc(a) if sc else 1
    cnt, tab = lib.tally(ctx, insts, True)
    tab = tab.get(a, {})
    rest = cnt
    for v, c in tab.items():
        if isinstance(c, tuple):
            num, m, ssq = c
            sd = lib.ustd(ctx, num, ssq) / s
            p = n.probability(a, x)
            want = num / cnt * normal(ctx, x / s, m / s, sd * sd +
                                      1 / (2 * ctx.pi))
            ctx.check(ctx.eq(p, want), 'probability of a number')
            ctx.check(p > 0, 'probability of a number is not positive')
            rest = rest - num
        else:
            p = n.probability(a, v)
            ctx.check(ctx.eq(p, c / cnt), 'probability of a nominal value')
            rest = rest - c
    ctx.check(ctx.eq(n.probability(a, None), rest / cnt),
              'probability of a missing value')
    if not any(isinstance(c, tuple) for c in tab.values()):
        ctx.check(ctx.eq(n.probability(a, x), 0), 'probability of a number '
                  'where none was seen')
    ctx.check(ctx.eq(n.probability(ctx.S('zz'), x), 0),
              'probability of an unknown attribute')
    tot = 0
    for none in (True, False):
        for v, w in n.get_weighted_values(a, none):
            if none:
                tot = tot + w
            if v is None:
                ctx.check(ctx.eq(w, rest / cnt), 'weight of None')
                ctx.check(none, 'None although not allowed')
            elif v in tab:
                ctx.check(ctx.eq(w, tab[v] / cnt), 'weight of a value')
            else:
                num = sum(c[0] for c in tab.values() if isinstance(c, tuple))
                ctx.check(ctx.eq(w, num / cnt), 'weight of the numbers')
    ctx.check(ctx.eq(tot, 1), 'weights do not sum to one')
    g = n.expected_correct_guesses()
    ctx.check(ctx.band(g >= 0, ctx.lez(g, 1)), 'expected correct guesses not in '
              '[0,1]')


@harness(quick=[dict(n=1), dict(n=2), dict(n=3)])
def density_bound(ctx, n):
    """The probability of a number never exceeds one."""
    tree = lib.make_tree(ctx, 'cobweb3', scaling=False)
    a = ctx.S('a')
    for i in range(n):
        tree.root.increment_counts({a: ctx.real('x%d' % i)})
    x = ctx.real('x')
    p = tree.root.probability(a, x)
    ctx.check(ctx.lez(p, 1), 'probability of a number exceeds one')
    ctx.check(ctx.lez(p, tree.root.probability(a, tree.root.av_counts[a][list(
        tree.root.av_counts[a])[0]].mean)),
        'a number is more probable than the mean')


@harness(quick=[dict(kind=k) for k in ('cobweb', 'cobweb3', 'trestle')])
def nothing_known(ctx, kind):
    """A concept without instances: every attribute is missing, surely."""
    tree = lib.make_tree(ctx, kind)
    a = ctx.string('a', 1)
    v = lib.value(ctx, ["n", "r"][ctx.choice("vk", 2)], 'v')
    r = tree.root
    ctx.check(ctx.eq(r.probability(a, None), 1), 'missing in an empty concept')
    ctx.check(ctx.eq(r.probability(a, v), 0), 'a value in an empty concept')
    ctx.check(r.predict(a) is None, 'prediction of an empty concept')
