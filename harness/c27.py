from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged
from .c19 import build, leaf_values, n_hidden, HIST

HARNESSES, harness = registry()

ASSUMPTIONS = ['up to three instances; structured instances of up to two '
               'objects']


def dummy(ctx):
    return ctx.m('dummy').DummyTree()


FLAT = [
    dict(attrs=['a', 'b'], shape=['nA', 'nn', 'n?']),
    dict(attrs=['a', '_h'], shape=['nr', 'n!', 'rr']),
    dict(attrs=['a'], shape=['r', 'r', 'r']),
    dict(attrs=['a', 'b'], shape=['??', '!?', '--']),
    dict(attrs=['a', 'b'], shape=['oA', 'o0', '0o']),
    dict(attrs=['a', 'b', '_h'], shape=lib.mixed(16, 'A0A') + ['nrn']),
]


@harness(quick=FLAT)
def flat(ctx, attrs, shape):
    """Whatever it is given, the dummy tree is one concept that counts every
    instance; categorising returns that concept and changes nothing."""
    t = dummy(ctx)
    insts = lib.instances(ctx, attrs, shape)
    keep = [lib.copy_inst(i) for i in insts]
    root = t.root
    mapped = ctx.choice('mapping', [False, True])
    for k, i in enumerate(insts):
        ctx.check(t.ifit(i, mapped) is root and t.root is root,
                  'another concept')
        ctx.check(not root.children, 'children')
        lib.check_tally(ctx, root, keep[:k + 1], True, 'the root')
    for i, k in zip(insts, keep):
        ctx.check(ctx.same(i, k), 'the instance changed')
    f = frozen(ctx, t)
    ctx.check(t.categorize(insts[0]) is root, 'another category')
    ctx.check(t.categorize({}) is root, 'another category')
    unchanged(ctx, t, f, 'a query')


@harness(quick=FLAT[:2])
def fitting(ctx, attrs, shape):
    """fit counts each instance once per iteration; clear starts anew."""
    t = dummy(ctx)
    insts = lib.instances(ctx, attrs, shape)
    it = ctx.choice('iterations', [1, 2])
    ctx.fix_random(True)
    t.fit(insts, iterations=it, randomize_first=ctx.choice('first',
                                                          [True, False]))
    ctx.fix_random(False)
    lib.check_tally(ctx, t.root, list(insts) * it, True, 'the root')
    ctx.check(not t.root.children, 'children')
    t.clear()
    ctx.check(ctx.eq(t.root.count, 0) and not t.root.av_counts, 'not cleared')
    t.ifit(insts[0])
    lib.check_tally(ctx, t.root, insts[:1], True, 'after clearing')


@harness(quick=[dict(hist=h, mapped=m) for h in HIST for m in (False, True)])
def structured(ctx, hist, mapped):
    """Structured instances: every value of every object counted once."""
    t = dummy(ctx)
    insts = [build(ctx, h, 'i%d' % i) for i, h in enumerate(hist)]
    keep = [lib.copy_inst(i) for i in insts]
    for i, x in enumerate(insts):
        ctx.check(t.ifit(x, mapped) is t.root, 'another concept')
        ctx.check(ctx.same(x, keep[i]), 'the instance changed')
    ctx.check(ctx.eq(t.root.count, len(insts)), 'number of instances')
    ctx.check(not t.root.children, 'children')
    tot, hid = 0, 0
    for a, vs in t.root.av_counts.items():
        for v, k in vs.items():
            k = k.num if lib.is_cv(k) else k
            tot = tot + k
            hid = hid + (k if a[0] == '_' else 0)
    want = sum(leaf_values(x) for x in insts)
    ctx.check(ctx.le(want, tot), 'a value is not counted')
    ctx.check(ctx.eq(hid, sum(n_hidden(x, False) for x in insts)),
              'hidden values')


@harness(quick=[{}])
def mapping(ctx):
    """With mapping the names of objects do not matter; without they do."""
    S = ctx.S
    V = ((63, 63),)
    x = ctx.string('x', 2, lib.NAMECH, first=V)
    y = ctx.string('y', 2, lib.NAMECH, first=V)
    v = ctx.string('v', 1)
    mapped = ctx.choice('mapped', [True, False])
    t = dummy(ctx)
    t.ifit({x: {S('p'): v}}, mapped)
    t.ifit({y: {S('p'): v}}, mapped)
    one = mapped or x == y
    ctx.check(len(t.root.av_counts) == (1 if one else 2), 'objects')
    for a, vs in t.root.av_counts.items():
        ctx.check(list(vs) == [v] and ctx.truth(ctx.eq(
            vs[v], 2 if one else 1)), 'counts')


@harness(quick=[dict(shape=s) for s in (['n', 'n', 'n'], ['A', 'A', 'n'],
                                        ['1', '3', 'r'])])
def inference(ctx, shape):
    """Inference predicts from all of the history, whatever else is known."""
    S = ctx.S
    t = dummy(ctx)
    insts = lib.instances(ctx, ['a'], shape)
    for i in insts:
        i[S('b')] = S('k')
        t.ifit(i)
    f = frozen(ctx, t)
    m = ctx.mark()
    r = t.infer_missing({S('b'): ctx.string('q', 1)})
    unchanged(ctx, t, f, 'a query')
    got = r.get(S('a'))
    ctx.check(got is not None, 'nothing inferred')
    n = {}
    for i in insts:
        v = S('#') if lib.is_real(ctx, i[S('a')]) else i[S('a')]
        n[v] = n.get(v, 0) + 1
    key = S('#') if lib.is_real(ctx, got) else got
    ctx.check(key in n and n[key] == max(n.values()), 'not the most frequent')
    if lib.is_real(ctx, got):
        xs = [i[S('a')] for i in insts if lib.is_real(ctx, i[S('a')])]
        ctx.check(ctx.close(got, sum(xs) / len(xs)), 'not the mean')
