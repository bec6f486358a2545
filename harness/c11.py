from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged
from .c09 import same_shape

HARNESSES, harness = registry()


def bad_instance(ctx, k, pos):
    good = [(ctx.S('a'), ctx.string('ga', 1)), (ctx.S('b'), ctx.S('x'))]
    bad = dict(none=(ctx.S('c'), None), listv=(ctx.S('c'), [ctx.S('x')]),
               dictv=(ctx.S('c'), {ctx.S('x'): 1}),
               setv=(ctx.S('c'), set([ctx.S('x')])),
               hidden_none=(ctx.S('_c'), None),
               hidden_list=(ctx.S('_c'), [1]),
               intattr=(3, ctx.S('x')), floatattr=(ctx.real('fa'),
                                                   ctx.S('x')),
               noneattr=(None, ctx.S('x')), emptyattr=(ctx.S(''), ctx.S('x')),
               emptytuple=((), ctx.S('x')), boolattr=(True, ctx.S('x')),
               tuplelist=(ctx.S('c'), (ctx.S('x'), [1])),
               relnum=((ctx.S('r'), 3), ctx.S('x')),
               reldeep=((ctx.S('r'), (ctx.S('s'), 3)), ctx.S('x')),
               relnone=((ctx.S('r'), ctx.S('o'), (ctx.S('s'), None)), 1.5),
               deeplist=(ctx.S('o'), {ctx.S('x'): {ctx.S('y'): set()}}),
               deepattr=(ctx.S('o'), {ctx.S('x'): {4: ctx.S('y')}}))[k]
    good.insert(pos, bad)
    return dict(good)


KINDS = ['none', 'listv', 'dictv', 'setv', 'hidden_none', 'hidden_list',
         'intattr', 'floatattr', 'noneattr', 'emptyattr', 'emptytuple',
         'boolattr', 'tuplelist']


TKINDS = ['listv', 'setv', 'hidden_list', 'intattr', 'floatattr', 'noneattr',
          'emptyattr', 'boolattr', 'relnum', 'reldeep', 'relnone', 'deeplist',
          'deepattr']


@harness(quick=[dict(kind='cobweb', bad=KINDS), dict(kind='cobweb3',
                                                     bad=KINDS),
                dict(kind='trestle', bad=TKINDS)])
def rejected(ctx, kind, bad):
    """An instance with an attribute that cannot be subscripted or hashed, or
    with a value that is None or unhashable, is refused with ValueError by
    ifit, categorize and infer_missing, wherever it stands in the instance,
    and the tree is as before."""
    tree = lib.make_tree(ctx, kind)
    for i in lib.instances(ctx, ['a', 'b'], ['AA', 'Bn']):
        tree.ifit(i)
    inst = bad_instance(ctx, bad[ctx.choice('bad', len(bad))],
                        ctx.choice('pos', 3))
    keep = dict(inst)
    f = frozen(ctx, tree)
    exc = ((ValueError, TypeError, IndexError) if kind == 'trestle'
           else ValueError)
    how = ctx.choice('how', ['ifit', 'categorize', 'infer', 'fit'])
    if how == 'ifit':
        r = ctx.raises(exc, tree.ifit, inst)
    elif how == 'categorize':
        r = ctx.raises(exc, tree.categorize, inst)
    elif how == 'infer':
        r = ctx.raises(exc, tree.infer_missing, inst)
    else:
        r = ctx.raises(exc, tree.fit, [inst])
    ctx.check(r, 'an invalid instance is accepted')
    unchanged(ctx, tree, f, 'a refused instance')
    ctx.check(len(keep) == len(inst) and all(
        inst[a] is keep[a] for a in keep), 'the refused instance changed')


@harness(quick=[dict(kind='cobweb'), dict(kind='cobweb3'),
                dict(kind='trestle')])
def accepted(ctx, kind):
    """Every instance with subscriptable attributes and hashable values is
    accepted: strings, numbers, Booleans, tuples; the empty instance too."""
    tree = lib.make_tree(ctx, kind)
    tree.ifit({ctx.S('a'): ctx.S('x')})
    vs = ['str', 'real', 'bool', 'tuple', 'zero', 'estr', 'none']
    v = vs[ctx.choice('v', len(vs))]
    val = dict(str=lambda: ctx.string('s', 2), real=lambda: ctx.real('r'),
               bool=lambda: False, tuple=lambda: (ctx.S('p'), 1),
               zero=lambda: 0, estr=lambda: ctx.S(''), none=lambda: 0)[v]()
    attrs = ['a', 'new', '_h', ('r', 'o')]
    attr = ctx.S(attrs[ctx.choice('a', len(attrs))])
    inst = {} if v == 'none' else {attr: val}
    c = tree.ifit(inst)
    ctx.check(lib.under(tree.root, c), 'not in the tree')
    ctx.check(ctx.eq(tree.root.count, 2), 'not counted')
    if inst:
        ctx.check(attr in tree.root.av_counts, 'attribute not stored')
        if kind == 'cobweb' or v != 'real' and v != 'zero':
            ctx.check(val in c.av_counts[attr], 'value not stored')
    tree.categorize(inst)


FIT = [
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nA', 'nB', 'nA'],
         iterations=1),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nA', 'nB'], iterations=2),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['oA', '0o'], iterations=1),
    dict(kind='cobweb3', attrs=['a'], shape=['r', 'r'], iterations=1),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['nA', 'n1'], iterations=2),
    dict(kind='cobweb', attrs=['a'], shape=['n', 'n'], iterations=0),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.mixed(14, 'AA') + ['nA'],
         iterations=1, fixed=True),
    dict(kind='cobweb', attrs=['a', 'b'], shape=lib.mixed(8, 'AA') + ['nA'],
         iterations=3, fixed=True),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=lib.mixed(8, 'A0') + ['n3'],
         iterations=2, fixed=True),
    dict(kind='trestle', attrs=['a', 'b'], shape=['nA', 'n1'], iterations=2),
    dict(kind='trestle', attrs=['a', 'b'], shape=lib.mixed(6, 'A0') + ['n3'],
         iterations=1, fixed=True),
    dict(kind='dummy', attrs=['a', 'b'], shape=['nA', 'n1'], iterations=2),
    dict(kind='cobweb', attrs=['a', 'b'], shape=['nA', 'B?'], iterations=12,
         fixed=True),
    dict(kind='cobweb3', attrs=['a', 'b'], shape=['n1'], iterations=25,
         fixed=True),
]


@harness(quick=FIT, thorough=FIT + [
    dict(kind='cobweb', attrs=['a'], shape=['n'] * 3, iterations=2)])
def fitting(ctx, kind, attrs, shape, iterations, fixed=False):
    """fit learns every instance exactly once per iteration: the root tallies
    iterations * instances; without randomisation one pass is the same as
    ifit one after the other; the given list and instances stay as they are;
    the tree is well-formed."""
    t1 = lib.make_tree(ctx, kind)
    t2 = lib.make_tree(ctx, kind)
    insts = lib.instances(ctx, attrs, shape)
    lst = list(insts)
    keep = [lib.copy_inst(i) for i in insts]
    rnd = ctx.choice('first', [False, True])
    ctx.fix_random(fixed)
    m = ctx.mark()
    t1.fit(lst, iterations, rnd)
    ctx.check(len(lst) == len(insts) and all(
        x is y for x, y in zip(lst, insts)), 'fit changed the list')
    ctx.check(all(ctx.same(x, y) for x, y in zip(insts, keep)),
              'fit changed an instance')
    if iterations:
        lib.check_tally(ctx, t1.root, insts * iterations, kind != 'cobweb',
                        'root')
        lib.check_structure(ctx, t1)
        lib.check_children_sum(ctx, t1.root)
    else:
        ctx.check(ctx.eq(t1.root.count, 0), 'nothing to learn')
    if iterations == 1 and not rnd:
        ctx.rewind(m)
        ctx.fix_random(fixed)
        for i in insts:
            t2.ifit(i)
        ctx.check(same_shape(ctx, t1.root, t2.root),
                  'fit is not ifit in the given order')
        for x, y in zip(lib.nodes(t1.root), lib.nodes(t2.root)):
            ctx.check(ctx.same(lib.av_view(x), lib.av_view(y)),
                      'fit is not ifit in the given order')


@harness()
def generator(ctx):
    """fit accepts any iterable of instances."""
    tree = lib.make_tree(ctx, 'cobweb')
    insts = lib.instances(ctx, ['a'], ['n', 'n'])
    tree.fit((i for i in insts), 2)
    lib.check_tally(ctx, tree.root, insts * 2, False, 'root')
