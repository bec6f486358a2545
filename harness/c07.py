from symex.runner_api import registry
from . import lib
from .c05 import descents

HARNESSES, harness = registry()


def parts(ctx, n, a):
    """(value or None, share, summary) of attribute a at concept n."""
    out = []
    rest = n.count
    for v, c in n.av_counts.get(a, {}).items():
        k = c.num if lib.is_cv(c) else c
        out.append((v, k / n.count, c if lib.is_cv(c) else None))
        rest = rest - k
    return out, rest / n.count


SPECS = [
    dict(kind='cobweb', specs=['nn', 'n']),
    dict(kind='cobweb', specs=['AB', '']),
    dict(kind='cobweb', specs=['oB', '']),
    dict(kind='cobweb3', specs=['oB', 'o']),
    dict(kind='cobweb3', specs=['AB', 'n']),
    dict(kind='dummy', specs=['AB', 'n']),
    dict(kind='trestle', specs=['AB', 'n']),
    dict(kind='cobweb3', specs=['ABC', '']),
    dict(kind='cobweb', specs=['ABCD', '']),
]


@harness(quick=SPECS, thorough=SPECS + [dict(kind='cobweb',
                                             specs=['nnn', 'n'])])
def likely(ctx, kind, specs):
    """Most likely prediction of a concept with arbitrary counts: a value of
    maximal share (None for 'missing' only when allowed); None for an unknown
    attribute."""
    tree = lib.make_tree(ctx, kind)
    attrs = ['a', '_b']
    n = lib.sym_leaf(ctx, tree, specs, attrs, 'c')
    none = ctx.choice('none', [True, False])
    fn = ctx.choice('fn', ['most likely', 'm'])
    for a in [ctx.S(x) for x in attrs]:
        r = n.predict(a, fn, none)
        opts, rest = parts(ctx, n, a)
        if a not in n.av_counts:
            ctx.check(r is None, 'prediction of an unknown attribute')
            continue
        shares = [(v, p) for v, p, _ in opts] + ([(None, rest)] if none
                                                 else [])
        hit = [p for v, p in shares if lib.eqv(v, r)]
        ctx.check(len(hit) == 1, 'predicts a value never seen')
        for v, p in shares:
            ctx.check(hit[0] >= p, 'a more frequent value exists')
    ctx.check(n.predict(ctx.S('zz'), fn, none) is None,
              'prediction of an unknown attribute')


@harness(quick=[dict(kind='cobweb', specs='A'), dict(kind='cobweb',
                                                     specs='AB'),
                dict(kind='cobweb3', specs='AB'),
                dict(kind='cobweb3', specs='ABC')],
         thorough=[dict(kind='cobweb', specs='ABC'),
                   dict(kind='cobweb3', specs='ABC')])
def sampled(ctx, kind, specs):
    """Sampled prediction of a concept with arbitrary counts: each value is
    answered on a share of the draws equal to its share of the instances (with
    None for the missing ones if allowed, of the present ones otherwise)."""
    tree = lib.make_tree(ctx, kind)
    a = ctx.S('a')
    n = lib.sym_leaf(ctx, tree, [specs], ['a'], 'c')
    none = ctx.choice('none', [True, False])
    opts, rest = parts(ctx, n, a)
    if none:
        full = ctx.truth(rest > 0)
        d = [(v, p) for v, p, _ in opts] + ([(None, rest)] if full else [])
    else:
        d = [(v, p / (1 - rest)) for v, p, _ in opts]
    fn = ctx.choice('fn', ['sampled', 's'])

    def draw(u):
        ctx.force([u])
        r = n.predict(a, fn, none)
        ctx.force([])
        return r
    lib.check_sampler(ctx, draw, d, 'sampled prediction')


@harness(quick=[dict(shape=['r', 'r']), dict(shape=['r', '-']),
                dict(shape=['r', 'A', 'r']), dict(shape=['r', 'A', '-']),
                dict(shape=['-', 'A', 'r', '-', 'B']),
                dict(shape=['A', '1', 'B', 'r', 'C', '-'])])
def numeric(ctx, shape):
    """A predicted number is the mean of the numbers seen (most likely) or
    drawn from the normal distribution with their mean and unbiased standard
    deviation (sampled); numbers, values and None compete by their shares."""
    tree = lib.make_tree(ctx, 'cobweb3')
    a = ctx.S('a')
    insts = lib.instances(ctx, ['a'], shape)
    for i in insts:
        tree.root.increment_counts(i)
        tree.update_scales(i)
    n = tree.root
    nums = [i[a] for i in insts if a in i and lib.is_real(ctx, i[a])]
    k, m, s = lib.num_stats(nums)
    vals = [i[a] for i in insts if a in i and not lib.is_real(ctx, i[a])]
    gone = len(insts) - k - len(vals)
    # the most frequent nominal value
    noms = max([len([x for x in vals if x == y]) for y in vals] or [0])
    none = ctx.choice('none', [True, False])
    fn = ctx.choice('fn', ['most likely', 'sampled'])
    u = ctx.real('u', 0, 1, hi_open=True)
    if fn == 'sampled':
        ctx.force([u])
    before = len(ctx.randlog)
    r = n.predict(a, fn[0] if ctx.choice('short', [False, True]) else fn,
                  none)
    ctx.force([])
    if r is None:
        ctx.check(none and gone > 0, 'None although never missing')
        if fn == 'most likely':
            ctx.check(gone >= k and gone >= noms, 'missing is not most likely')
    elif lib.is_real(ctx, r):
        if fn == 'most likely':
            ctx.check(ctx.eq(r, m), 'the predicted number is not the mean')
            ctx.check(k >= noms and (not none or k >= gone),
                      'a number is not most likely')
        else:
            log = ctx.randlog[before:]
            ctx.check(len(log) == 1, 'not one normal draw')
            ctx.check(ctx.eq(log[0][0], m), 'mean of the normal draw')
            ctx.check(ctx.eq(log[0][1], lib.ustd(ctx, k, s)),
                      'spread of the normal draw')
            ctx.check(ctx.eq(r, log[0][2]), 'the draw is not the answer')
    else:
        ctx.check(any(r == v for v in vals), 'predicts a value never seen')
        if fn == 'most likely':
            ctx.check(noms >= k and (not none or noms >= gone),
                      'a nominal value is not most likely')


INF = [
    dict(kind='cobweb', attrs=['a', 'b', '_h'], shape=[[0, 1], 2],
         leaf=['AAA', 'AB-', 'nnA'], q='n??'),
    dict(kind='cobweb', attrs=['a', 'b'], shape=[0, 1, 2],
         leaf=['nA', 'B-', 'nC'], q='?-'),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[[0, 1], 2],
         leaf=['A1', 'Br', 'n-'], q='n-', counts=1),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=[0, 1],
         leaf=['An', '4n'], q='r-', counts=1),
    dict(kind='trestle', attrs=['a', 'b', '_h'], shape=[[0, 1], 2],
         leaf=['A1-', 'BrA', 'n-2'], q='n--', counts=1),
    dict(kind='trestle', attrs=['a', 'b', '_h'], shape=[0, 1, 2],
         leaf=['AA2', 'B-A', 'nC-'], q='?--'),
    dict(kind='dummy', attrs=['a', 'b', '_h'], shape=[0, 1, 2],
         leaf=['AA2', 'B-A', 'nC-'], q='?--'),
]


@harness(quick=INF, thorough=INF + [dict(c, counts=3) for c in INF[:2]])
def infer(ctx, kind, attrs, shape, leaf, q, counts=2, scaling=0.5):
    """infer_missing keeps what is given and adds exactly the attributes of
    one concept a greedy descent leads to, each with a value that concept
    holds (the most frequent one / any with positive share)."""
    kw = {} if kind == 'cobweb' else dict(scaling=scaling)
    numeric = kind != 'cobweb'
    tree, leaves = lib.build_tree(ctx, kind, shape, attrs, leaf, counts, **kw)
    inst = lib.instance(ctx, attrs, q, 'q')
    keep = lib.copy_inst(inst)
    sc = lib.scale_fn(ctx, lib.leaf_instances(leaves), scaling) if numeric \
        else None
    o = lib.Oracle(ctx, inst, sc, numeric)
    fn = ctx.choice('fn', ['most likely', 'sampled'])
    none = ctx.choice('none', [True, False])
    r = tree.infer_missing(inst, fn, none)
    for a in keep:
        ctx.check(a in r and ctx.same(r[a], keep[a]), 'a given value changed')
    ok = False
    for c in descents(ctx, o, lib.Ref.of(tree.root)):
        if explains(ctx, c, keep, r, fn, none):
            ok = True
            break
    ctx.check(ok, 'the inferred values are not those of the concept the '
              'instance belongs to')


GROWN = [
    dict(kind='cobweb', attrs=['a', 'b', 'c'], pre=lib.mixed(18, 'AAA'),
         q='n?-'),
    dict(kind='cobweb', attrs=['a', 'b', '_h'], pre=lib.mixed(12, 'AAA'),
         q='?n-'),
    dict(kind='cobweb3', attrs=['a', 'b', 'c'], pre=lib.mixed(12, 'AAA'),
         q='-n-'),
    dict(kind='trestle', attrs=['a', 'b', '_h'], pre=lib.mixed(12, 'AAA'),
         q='-n-'),
]


@harness(quick=GROWN)
def grown(ctx, kind, attrs, pre, q):
    """The same for a larger tree grown from fixed instances."""
    tree, insts = lib.grow(ctx, kind, attrs, pre)
    inst = lib.instance(ctx, attrs, q, 'q')
    keep = lib.copy_inst(inst)
    o = lib.Oracle(ctx, inst, None, kind != 'cobweb')
    fn = ctx.choice('fn', ['most likely', 'sampled'])
    none = ctx.choice('none', [True, False])
    m = ctx.mark()
    ctx.fix_random(True)
    r = tree.infer_missing(inst, fn, none)
    ctx.fix_random(False)
    for a in keep:
        ctx.check(a in r and ctx.same(r[a], keep[a]), 'a given value changed')
    ctx.check(any(explains(ctx, c, keep, r, fn, none) for c in descents(
        ctx, o, lib.Ref.of(tree.root))), 'the inferred values are not those '
        'of the concept the instance belongs to')


def explains(ctx, c, given, r, fn, none):
    for a in r:
        if a not in given and a not in c.av_counts:
            return False
    for a in c.av_counts:
        if a in given:
            continue
        opts, rest = parts(ctx, c, a)
        v = r.get(a)
        shares = [p for _, p, _ in opts] + ([rest] if none else [])
        if v is None:
            p = rest if none else 0
        else:
            p = None
            for w, q, cv in opts:
                if cv is not None and lib.is_real(ctx, v):
                    if fn == 'sampled' or ctx.truth(ctx.eq(v, cv.mean)):
                        p = q
                elif cv is None and lib.eqv(w, v):
                    p = q
            if p is None:
                return False
        if fn == 'sampled':
            if not p > 0:
                return False
        elif not all(p >= s for s in shares):
            return False
    return True


@harness(quick=[dict(kind='cobweb'), dict(kind='cobweb3'),
                dict(kind='trestle')])
def unknown_rule(ctx, kind):
    """An unknown choice rule is refused."""
    tree = lib.make_tree(ctx, kind)
    tree.ifit({ctx.S('a'): ctx.string('v', 1)})
    rule = ctx.string('rule', 1)
    ctx.assume(rule != 'm')
    ctx.assume(rule != 's')
    ctx.check(ctx.raises(Exception, tree.root.predict, ctx.S('a'), rule),
              'an unknown choice rule is accepted')
    ctx.check(ctx.raises(Exception, tree.infer_missing, {}, rule),
              'an unknown choice rule is accepted')
