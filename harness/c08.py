from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()


def fill(cv, xs):
    for x in xs:
        cv.update(x)
    return cv


def agrees(ctx, cv, st, what):
    n, m, s = st
    ctx.check(ctx.eq(cv.num, n), what + ': number of samples')
    # up to rounding relative to the size of the numbers, however small
    ctx.check(ctx.eqs(cv.mean, m, lib.size(ctx, m, s)), what + ': mean')
    ctx.check(ctx.eqs(cv.meanSq, s, s + m * m),
              what + ': sum of squared deviations')


@harness(quick=[dict(n=i) for i in range(1, 6)],
         thorough=[dict(n=i) for i in range(1, 9)])
def batch(ctx, n):
    """update and update_batch of n arbitrary reals give exactly the sample
    size, mean and sum of squared deviations; the list is left alone."""
    CV = ctx.m('continuous_value').ContinuousValue
    xs = [ctx.real('x%d' % i) for i in range(n)]
    keep = list(xs)
    a = CV()
    a.update_batch(xs)
    agrees(ctx, a, lib.num_stats(xs), 'batch')
    ctx.check(len(xs) == n and all(x is y for x, y in zip(xs, keep)),
              'the list was changed')
    agrees(ctx, fill(CV(), xs), lib.num_stats(xs), 'updates')
    b = CV()
    b.update_batch(xs[:n // 2])
    b.update_batch(iter(xs[n // 2:]))
    agrees(ctx, b, lib.num_stats(xs), 'two batches')


def anycv(ctx, tag, lo=0):
    """A summary of any number of samples."""
    CV = ctx.m('continuous_value').ContinuousValue
    c = CV()
    c.num = ctx.integer(tag + '.n', lo)
    c.mean = ctx.real(tag + '.mean')
    c.meanSq = ctx.real(tag + '.ssq', 0)
    return c


@harness()
def one_more(ctx):
    """Any summary (any number of samples) updated with one real is the
    pooled summary."""
    c = anycv(ctx, 'c', 1)
    x = ctx.real('x')
    want = lib.combine([(c.num, c.mean, c.meanSq), (1, x, 0)])
    c.update(x)
    agrees(ctx, c, want, 'update')


@harness()
def pooled(ctx):
    """combine of any two summaries is the pooled summary, in either order,
    and leaves the other summary alone."""
    a = anycv(ctx, 'a', 1)
    b = anycv(ctx, 'b', 0)
    ta, tb = (a.num, a.mean, a.meanSq), (b.num, b.mean, b.meanSq)
    want = lib.combine([ta, tb])
    if ctx.choice('order', ['ab', 'ba']) == 'ab':
        a.combine(b)
        agrees(ctx, a, want, 'combine')
        agrees(ctx, b, tb, 'the other summary')
    else:
        b.combine(a)
        agrees(ctx, b, want, 'combine')
        agrees(ctx, a, ta, 'the other summary')
    ctx.check(ctx.raises(ValueError, a.combine, ctx.real('z')),
              'combine with something else')


@harness()
def itself(ctx):
    """Combining a summary with itself counts every number twice."""
    a = anycv(ctx, 'a', 1)
    t = (a.num, a.mean, a.meanSq)
    a.combine(a)
    agrees(ctx, a, lib.combine([t, t]), 'combine with itself')


@harness(quick=[dict(n=2, k=1), dict(n=5, k=2)])
def offset(ctx, n, k):
    """Numbers far from zero compared with their spread (replayed in
    floats): updates and combinations do not lose the spread."""
    CV = ctx.m('continuous_value').ContinuousValue
    base = 2.0 ** 30
    xs = [base + ctx.real('x%d' % i, -8, 8) for i in range(n)]
    ctx.assume(xs[0] - xs[1] >= 1)
    _, m, s = lib.num_stats(xs)
    a, b = fill(CV(), xs), fill(CV(), xs[:k])
    b.combine(fill(CV(), xs[k:]))
    for c in (a, b):
        for got, want in ((c.mean, m), (c.biased_std(), ctx.sqrt(s / n)),
                          (c.unbiased_std(), lib.ustd(ctx, n, s))):
            ctx.check(ctx.eq(got, want) if ctx.symbolic else
                      abs(got - want) < 1e-4, 'moments of large numbers')


@harness(quick=[dict(i=1, j=1), dict(i=2, j=1), dict(i=2, j=3),
                dict(i=0, j=2)],
         thorough=[dict(i=i, j=j) for i in range(4) for j in range(1, 5)])
def parts(ctx, i, j):
    """Combining the summaries of two samples is the summary of the joint
    sample."""
    CV = ctx.m('continuous_value').ContinuousValue
    xs = [ctx.real('x%d' % k) for k in range(i)]
    ys = [ctx.real('y%d' % k) for k in range(j)]
    a = fill(CV(), xs)
    a.combine(fill(CV(), ys))
    agrees(ctx, a, lib.num_stats(xs + ys), 'combine')


@harness(quick=[dict(n=1), dict(n=2), dict(n=3)],
         thorough=[dict(n=i) for i in range(1, 7)])
def spread(ctx, n):
    """The standard deviations are those of the sample (population formula;
    sample formula over the c4 correction, 0 for one sample), scaled versions
    divide by a positive scale and ignore others; reading changes nothing."""
    CV = ctx.m('continuous_value').ContinuousValue
    xs = [ctx.real('x%d' % i) for i in range(n)]
    c = fill(CV(), xs)
    st = lib.num_stats(xs)
    _, m, s = st
    pop = ctx.sqrt(s / n)
    sd = lib.ustd(ctx, n, s)
    z = lib.size(ctx, m, s)
    ctx.check(ctx.eqs(c.unbiased_mean(), m, z), 'mean')
    ctx.check(ctx.eqs(c.biased_std(), pop, z),
              'population standard deviation')
    ctx.check(ctx.eqs(c.unbiased_std(), sd, z), 'unbiased standard deviation')
    k = ctx.real('scale')
    sh = ctx.real('shift')
    d = k if ctx.truth(k > 0) else 1
    ctx.check(ctx.eq(c.scaled_biased_std(k), pop / d), 'scaled deviation')
    ctx.check(ctx.eq(c.scaled_unbiased_std(k), sd / d),
              'scaled unbiased deviation')
    ctx.check(ctx.eq(c.scaled_unbiased_mean(sh, k), (m - sh) / d),
              'scaled mean')
    j = c.output_json()
    ctx.check(ctx.eq(j[ctx.S('mean')], m) and ctx.eq(j[ctx.S('std')], sd) and
              ctx.eq(j[ctx.S('n')], n), 'exported summary')
    agrees(ctx, c, st, 'after reading')


@harness(quick=[dict(n=n) for n in (5, 8, 12, 20, 28, 29, 30, 31)])
def sizes(ctx, n):
    """The same for larger samples, one number of which is arbitrary."""
    CV = ctx.m('continuous_value').ContinuousValue
    xs = [float((7 * i) % 11) for i in range(n - 1)]
    xs.insert(n // 3, ctx.real('x'))
    c = fill(CV(), xs[:n // 2])
    c.combine(fill(CV(), xs[n // 2:]))
    st = lib.num_stats(xs)
    agrees(ctx, c, st, 'combine')
    ctx.check(ctx.eq(c.biased_std(), ctx.sqrt(st[2] / n)),
              'population standard deviation')
    ctx.check(ctx.eq(c.unbiased_std(), lib.ustd(ctx, n, st[2])),
              'unbiased standard deviation')


@harness()
def many(ctx):
    """Standard deviations for 30 and more samples, of any number."""
    c = anycv(ctx, 'c', 30)
    ctx.check(ctx.eq(c.biased_std() * c.biased_std() * c.num, c.meanSq),
              'population standard deviation')
    u = c.unbiased_std()
    ctx.check(ctx.band(u >= 0, ctx.eq(u * u * (c.num - 1), c.meanSq)),
              'unbiased standard deviation')


@harness()
def copies(ctx):
    """A copy is equal and independent."""
    a = anycv(ctx, 'a', 1)
    t = (a.num, a.mean, a.meanSq)
    b = a.copy()
    ctx.check(b is not a, 'copy is the same object')
    agrees(ctx, b, t, 'copy')
    x = ctx.real('x')
    if ctx.choice('which', 2):
        b.update(x)
        agrees(ctx, a, t, 'original after changing the copy')
    else:
        a.update(x)
        agrees(ctx, b, t, 'copy after changing the original')


@harness(quick=[dict(i=1, j=1), dict(i=1, j=2), dict(i=2, j=2)],
         thorough=[dict(i=1, j=1), dict(i=1, j=2), dict(i=2, j=2),
                   dict(i=3, j=2)])
def overlap(ctx, i, j):
    """integral_of_gaussian_product is the integral of the product of the two
    (noisy) normal densities, symmetric, in (0, 1]."""
    CV = ctx.m('continuous_value').ContinuousValue
    xs = [ctx.real('x%d' % k) for k in range(i)]
    ys = [ctx.real('y%d' % k) for k in range(j)]
    a, b = fill(CV(), xs), fill(CV(), ys)
    p, q = a.integral_of_gaussian_product(b), b.integral_of_gaussian_product(a)
    _, m1, s1 = lib.num_stats(xs)
    _, m2, s2 = lib.num_stats(ys)
    d1, d2 = lib.ustd(ctx, i, s1), lib.ustd(ctx, j, s2)
    v = d1 * d1 + d2 * d2 + 2 / (4 * ctx.pi)
    want = ctx.exp(-(m1 - m2) * (m1 - m2) / (2 * v)) / ctx.sqrt(
        2 * ctx.pi * v)
    ctx.check(ctx.eq(p, want), 'integral of the product')
    ctx.check(ctx.eq(p, q), 'the integral is not symmetric')
    ctx.check(p > 0, 'the integral is not positive')
    ctx.check(ctx.lez(p, 1), 'the integral exceeds one')
