from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged
from .c09 import same_shape

HARNESSES, harness = registry()

CLR = [
    dict(kind='cobweb', attrs=['a', 'b'], pre=['nA', 'BB'], shape=['nA', 'n?']),
    dict(kind='cobweb3', attrs=['a', 'b'], pre=['rA', '3B'],
         shape=['rA', 'rn']),
    dict(kind='cobweb3', attrs=['a'], pre=['r', 'A'], shape=['1', 'r', '3']),
    dict(kind='trestle', attrs=['a', 'b'], pre=['rA', '3B'],
         shape=['rA', 'rn']),
    dict(kind='cobweb', attrs=['a', 'b'], pre=['DA', 'BB', 'AA', 'BA', 'CC'],
         shape=['nA', 'n?', '--']),
    dict(kind='cobweb3', attrs=['a', 'b'],
         pre=['9A', '3B', '4A', '1C', '2A', '-B'], shape=['rA', 'rn']),
    dict(kind='trestle', attrs=['a', 'b'],
         pre=['9A', '3B', '4A', '1C', '-B'], shape=['rA', 'rn']),
    dict(kind='cobweb3', attrs=['a', 'b'],
         pre=['9A', '3B', '4A', '1C', '-C', '2A', '5B'],
         shape=['3A', '5n', '7A', '4n']),
    dict(kind='trestle', attrs=['a', 'b'],
         pre=['9A', '3B', '4A', '1C', '-B'], shape=['3A', '5n', '7B']),
    dict(kind='cobweb', attrs=['a', 'b', '_h'],
         pre=lib.mixed(12, 'AAA'), shape=['ABA', 'BBn', 'nA-']),
    dict(kind='trestle', attrs=['a', '?o'], pre=['9A', '3B'],
         shape=['rA', 'rn']),
    dict(kind='dummy', attrs=['a', 'b'], pre=['rA', '3B', '4A', '1C', '2A'],
         shape=['rA', 'rn']),
]


def empty(ctx, tree):
    r = tree.root
    ctx.check(ctx.eq(r.count, 0) and not r.av_counts and not r.children and
              r.parent is None and r.tree is tree, 'not an empty tree')


@harness(quick=CLR, thorough=CLR + [
    dict(kind='cobweb', attrs=['a', 'b'], pre=['nA', 'BB', 'nn'],
         shape=['nA', 'n?', 'nn'])])
def clear(ctx, kind, attrs, pre, shape):
    """A cleared tree is empty and learns exactly as a new one (same draws):
    same structure, counts and quality, whatever it had seen."""
    t1 = lib.make_tree(ctx, kind)
    t2 = lib.make_tree(ctx, kind)
    empty(ctx, t1)
    ctx.fix_random(True)
    for j, k in enumerate(pre):
        t1.ifit(lib.instance(ctx, attrs, k, 'p%d' % j))
    ctx.fix_random(False)
    old = frozen(ctx, t1)
    t1.clear()
    empty(ctx, t1)
    insts = lib.instances(ctx, attrs, shape)
    m = ctx.mark()
    for i in insts:
        t1.ifit(i)
    ctx.rewind(m)
    for i in insts:
        t2.ifit(i)
    ctx.check(same_shape(ctx, t1.root, t2.root),
              'a cleared tree learns something else')
    for x, y in zip(lib.nodes(t1.root), lib.nodes(t2.root)):
        ctx.check(ctx.same(lib.av_view(x), lib.av_view(y)),
                  'a cleared tree learns something else')
        ctx.check(ctx.eq(x.expected_correct_guesses(),
                         y.expected_correct_guesses()),
                  'a cleared tree judges quality differently')
    ctx.check(lib.same_view(ctx, old['view'], lib.view(old['root'])),
              'concepts taken from the tree before clear() changed')


IND = [
    dict(k1='cobweb', k2='cobweb', attrs=['a', 'b'], s1=['nA', 'nB'],
         s2=['nA', 'Bn']),
    dict(k1='cobweb3', k2='cobweb3', attrs=['a', 'b'], s1=['rA', '1n'],
         s2=['3A', 'rn']),
    dict(k1='cobweb3', k2='trestle', attrs=['a', 'b'], s1=['rA', '1n'],
         s2=['3A', 'rn']),
    dict(k1='dummy', k2='dummy', attrs=['a', 'b'], s1=['rA', '1n'],
         s2=['3A', 'rn']),
]


@harness(quick=IND)
def independent(ctx, k1, k2, attrs, s1, s2):
    """Trees do not influence each other: learning in one leaves the other
    alone, and it learns as if it were alone; concept names stay distinct over
    all trees of the process."""
    t1, t2 = lib.make_tree(ctx, k1), lib.make_tree(ctx, k2)
    alone = lib.make_tree(ctx, k1)
    i1 = [lib.instance(ctx, attrs, k, 'x%d' % j) for j, k in enumerate(s1)]
    i2 = [lib.instance(ctx, attrs, k, 'y%d' % j) for j, k in enumerate(s2)]
    marks = []
    ctx.fix_random(True)
    for a, b in zip(i1, i2):
        t1.ifit(a)
        f = frozen(ctx, t1)
        t2.ifit(b)
        unchanged(ctx, t1, f, 'learning in another tree')
    ctx.fix_random(True)
    for a in i1:
        alone.ifit(a)
    ctx.fix_random(False)
    lib.check_tally(ctx, t1.root, i1, k1 != 'cobweb', 'first tree')
    lib.check_tally(ctx, t2.root, i2, k2 != 'cobweb', 'second tree')
    if k1 != 'dummy':
        ids = [n.concept_id for t in (t1, t2, alone)
               for n in lib.nodes(t.root)]
        if k1 == k2:
            ctx.check(len(set(ids)) == len(ids), 'concept names collide')
    for x, y in zip(lib.nodes(t1.root), lib.nodes(alone.root)):
        if len(i1) < 3:
            ctx.check(ctx.same(lib.av_view(x), lib.av_view(y)),
                      'another tree influences learning')
            ctx.check(ctx.eq(x.expected_correct_guesses(),
                             y.expected_correct_guesses()),
                      'another tree influences quality')


@harness(quick=[dict(kind='cobweb'), dict(kind='cobweb3'),
                dict(kind='trestle')])
def named(ctx, kind):
    """Names of concepts stay distinct over many concepts, copies and trees of
    a kind, and after clearing."""
    trees = [lib.make_tree(ctx, kind) for _ in range(3)]
    Node = trees[0].root.__class__
    ctx.fix_random(True)
    x = lib.instance(ctx, ['a', 'b'], 'nA', 'x')
    for t in trees:
        t.ifit(x)
        t.ifit(lib.instance(ctx, ['a', 'b'], 'BA', 'y'))
    ctx.fix_random(False)
    keep = [n for t in trees for n in lib.nodes(t.root)]
    many = [Node().concept_id for _ in range(12000)]
    keep += [Node(trees[0].root), trees[0].root.shallow_copy()]
    trees[1].clear()
    keep += [trees[1].root, lib.make_tree(ctx, kind).root]
    seen = set(many)
    ctx.check(len(seen) == len(many), 'concept names collide')
    for n in keep:
        ctx.check(n.concept_id not in seen, 'concept names collide')
        seen.add(n.concept_id)
