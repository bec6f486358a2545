from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()


@harness(quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)],
         thorough=[dict(n=i) for i in range(1, 8)])
def moments(ctx, n):
    """mean and std of n arbitrary reals are the arithmetic mean and the
    population standard deviation."""
    u = ctx.m('utils')
    xs = [ctx.real('x%d' % i) for i in range(n)]
    _, m, s = lib.num_stats(xs)
    keep = list(xs)
    ctx.check(ctx.eq(u.mean(xs), m), 'mean')
    ctx.check(ctx.eq(u.std(xs), ctx.sqrt(s / n)), 'standard deviation')
    ctx.check(len(xs) == n and all(x is y for x, y in zip(xs, keep)),
              'the list was changed')


@harness()
def empty(ctx):
    """Empty lists and negative weights are refused with ValueError."""
    u = ctx.m('utils')
    ctx.check(ctx.raises(ValueError, u.mean, []), 'mean of nothing')
    ctx.check(ctx.raises(ValueError, u.std, []), 'std of nothing')
    ctx.check(ctx.raises(ValueError, u.weighted_choice, []),
              'choice from nothing')
    ctx.check(ctx.raises(ValueError, u.most_likely_choice, []),
              'choice from nothing')
    ctx.check(ctx.raises(ValueError, u.c4, 1), 'c4 of one sample')
    w = ctx.real('w')
    ctx.assume(w < 0)
    k = ctx.choice('pos', 3)
    cs = [(ctx.S('a'), 1), (ctx.S('b'), 2)]
    cs.insert(k, (ctx.S('n'), w))
    ctx.check(ctx.raises(ValueError, u.most_likely_choice, cs),
              'a negative weight is accepted')
    ctx.check(ctx.raises(ValueError, u.weighted_choice, cs),
              'a negative weight is accepted')
    ctx.check(ctx.raises(ValueError, u.weighted_choice, [(ctx.S('n'), w)]),
              'a negative weight is accepted')


@harness(quick=[dict(n=2), dict(n=5)])
def offset(ctx, n):
    """Numbers far from zero compared with their spread: the deviation is
    still that of the numbers (replayed in floats)."""
    u = ctx.m('utils')
    base = 2.0 ** 30
    xs = [base + ctx.real('x%d' % i, -8, 8) for i in range(n)]
    ctx.assume(xs[0] - xs[1] >= 1)
    _, m, s = lib.num_stats(xs)
    for got, want in ((u.mean(xs), m), (u.std(xs), ctx.sqrt(s / n))):
        ctx.check(ctx.eq(got, want) if ctx.symbolic else
                  abs(got - want) < 1e-4, 'moments of large numbers')


@harness(quick=[dict(n=1), dict(n=2), dict(n=3)],
         thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)])
def weighted(ctx, n):
    """weighted_choice answers with each option on a share of the draws equal
    to its weight over the total weight; options of weight zero never."""
    u = ctx.m('utils')
    opts = [ctx.S(x) for x in 'pqrs'[:n]]
    zero = ctx.choice('zero', n + 1)
    ws = []
    tot = 0
    for i in range(n):
        w = ctx.real('w%d' % i, 0, lo_open=True)
        ws.append(w)
        tot = tot + w
    cs = list(zip(opts, ws))
    if zero:
        cs.insert(zero - 1, (ctx.S('zero'), 0))
    keep = list(cs)

    def draw(v):
        ctx.force([v])
        r = u.weighted_choice(cs)
        ctx.force([])
        return r
    # arbitrary total weight; the shares are relative to it
    d = [(o, w / tot) for o, w in zip(opts, ws)]
    lib.check_sampler(ctx, draw, d, 'weighted choice')
    ctx.check(len(cs) == len(keep) and all(x is y for x, y in zip(cs, keep)),
              'the list was changed')


@harness()
def least(ctx):
    """Options of weight zero are not chosen by the lowest draw either."""
    u = ctx.m('utils')
    w = ctx.real('w', 0, lo_open=True)
    cs = [(ctx.S('p'), w), (ctx.S('zero'), 0)]
    z = ctx.choice('zeros', [0, 1, 2])
    cs = [(ctx.S('zero'), 0)] * z + cs
    ctx.force([0.0])
    r = u.weighted_choice(cs)
    ctx.force([])
    ctx.check(r == 'p', 'an option of weight zero')


@harness(quick=[dict(n=1), dict(n=2), dict(n=3)],
         thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)])
def likely(ctx, n):
    """most_likely_choice answers with an option of maximal weight."""
    u = ctx.m('utils')
    opts = [ctx.S(x) for x in 'pqr'[:n - 1]] + [None]
    cs = [(o, ctx.real('w%d' % i, 0)) for i, o in enumerate(opts)]
    keep = list(cs)
    r = u.most_likely_choice(cs)
    hit = [w for o, w in cs if lib.eqv(o, r)]
    ctx.check(len(hit) == 1, 'not one of the options')
    for o, w in cs:
        ctx.check(hit[0] >= w, 'an option with a higher weight exists')
    ctx.check(len(cs) == len(keep) and all(x is y for x, y in zip(cs, keep)),
              'the list was changed')


@harness()
def numbers(ctx):
    """isNumber: every real and integer is a number; Booleans, strings, None,
    nan, tuples, lists and dicts are not."""
    u = ctx.m('utils')
    ctx.check(u.isNumber(ctx.real('x')), 'a real is not a number')
    ctx.check(u.isNumber(ctx.integer('i')), 'an integer is not a number')
    for x in (0, 1, -3, 0.0, 2.5, float('inf'), 10 ** 20):
        ctx.check(u.isNumber(x), 'not taken for a number')
    for x in (True, False, None, ctx.S('1'), ctx.S(''), float('nan'),
              ctx.string('s', 1), (1,), [1], {}):
        ctx.check(not u.isNumber(x), 'taken for a number')


@harness()
def correction(ctx):
    """c4 for 2..29 samples is the bias correction
    sqrt(2/(n-1)) Gamma(n/2)/Gamma((n-1)/2); for 30 and more it is 1 (the
    library's stated approximation)."""
    import math
    u = ctx.m('utils')
    for n in range(2, 30):
        g = 1.0
        # Gamma(n/2)/Gamma((n-1)/2) by the recurrence
        if n % 2 == 0:
            g = 1 / math.pi ** 0.5 if not ctx.symbolic else \
                1 / 1.7724538509055159
        else:
            g = 0.5 * (math.pi ** 0.5 if not ctx.symbolic else
                       1.7724538509055159)
        k = 2 if n % 2 == 0 else 3
        while k < n:
            g *= (k / 2.0) / ((k - 1) / 2.0)
            k += 2
        c4 = (2.0 / (n - 1)) ** 0.5 * g
        ctx.check(abs(u.c4(n) - c4) < 1e-7, 'correction for %d samples' % n)
        ctx.check(abs(u.c4(float(n)) - c4) < 1e-7, 'correction for %d.0' % n)
    n = ctx.integer('n', 30)
    ctx.check(ctx.eq(u.c4(n), 1), 'correction for many samples')
