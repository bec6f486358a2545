from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged
from .c09 import same_shape
from .c05 import descents
from .c07 import explains
from .c18 import injections, renamed, variables

HARNESSES, harness = registry()

ASSUMPTIONS = ['up to three structured instances of up to two objects; every '
               'variable names one object; values None are left out; objects '
               'are not empty']


def build(ctx, s, tag):
    """s: list of (attribute, kind or nested list)."""
    out = {}
    for i, (a, k) in enumerate(s):
        t = '%s.%d' % (tag, i)
        a = (tuple(ctx.S(x) for x in a) if isinstance(a, (list, tuple))
             else ctx.S(a))
        if isinstance(k, list):
            out[a] = build(ctx, k, t)
        else:
            out[a] = True if k == 't' else lib.value(ctx, k, t)
    return out


HIST = [
    [[('?x', [('p', 'n')])], [('?y', [('p', 'n')])]],
    [[('?x', [('p', 'A')]), ('c', 'n')], [('?x', [('p', 'n')]), ('c', 'B')],
     [('?z', [('p', 'n')])]],
    [[('?x', [('p', 'A'), ('?y', [('q', 'B')])])],
     [('?u', [('p', 'n'), ('?v', [('q', 'n')])])]],
    [[('?x', [('p', 'A')]), ('?y', [('p', 'B')]),
      (['on', '?x', '?y'], 't')],
     [('?v', [('p', 'n')]), ('?w', [('p', 'n')]),
      (['on', '?v', '?w'], 't')]],
    [[('o', [('p', 'n'), ('_h', 'A')])], [('o', [('p', 'n'), ('_h', 'n')])]],
    [[('?x', [('p', '1')])], [('?y', [('p', 'r'), ('_g', 'n')])]],
    [[('?x', 'n')], [('?y', 'n'), ('c', 'A')]],
    [[('?x', [('p', 'A')])], [], [('?x', [('p', 'n')]), ('?y', [('q', 'B')])]],
    [[('c', 'o')], [('?x', [('p', 'o')])], [('?x', [('p', 'A')])]],
    [[('?x', [('p', 'A')]), ('?y', [('p', 'B')]),
      (['on', 'k', '?x', 'l', '?y'], 'n')],
     [('?x', [('p', 'A')]), (['on', 'k', '?x', 'l', '?x'], 'n')]],
    [[('?x', [('p', 'A'), ('o', [('q', 'n')])])],
     [('o', [('p', 'n'), ('?x', [('q', 'n')])])]],
]
WIDE = [
    [[('?x', [('p', 'n')]), ('?y', [('p', 'n')])],
     [('?u', [('p', 'n')]), ('?v', [('p', 'A')])]],
    [[('?x', [('p', 'A')])], [('?x', [('p', 'B')])],
     [('?x', [('p', 'n'), ('q', 'n')])]],
]

BIG = [
    [[('?x', [('p', 'AB'[i % 2])])] for i in range(9)] +
    [[('?a', [('p', 'A')]), ('?b', [('p', 'B')]), ('?c', [('q', 'C')])]] +
    [[('?x', [('p', 'B')]), ('?y', [('q', 'A')])]] * 2 +
    [[('?a', [('p', 'n')]), ('?b', [('p', 'B')]), ('?c', [('q', 'C')])]],
    [[('?x%d' % i, [('p', 'ABCD'[i % 3]), ('q', 'ABC'[i % 2])]),
      ('c', 'AB'[i // 2 % 2])] for i in range(7)] +
    [[('?z', [('p', 'n'), ('q', 'A')]), ('c', 'n')]],
    [[('?x', [('p', 'ABCA'[i % 4]), ('q', 'AB'[i % 3 % 2])])]
     for i in range(13)] + [[('?y', [('p', 'n'), ('q', 'B')])]],
    [[('?x', [('p', 'ABC'[(i + j) % 3]), ('?y%d' % j, [('q', 'AB'[j % 2])])])
      if j else ('?u', [('p', 'AB'[i % 2])]) for j in (0, 1)]
     for i in range(5)] + [[('?v', [('p', 'n'), ('?w', [('q', 'A')])])]],
    [[('?x', [('p', 'AB'[i % 2])]), ('?y', [('p', 'CAB'[i % 3])]),
      (['on', '?x', '?y'] if i % 3 else ['on', '?y', '?x'], 't')]
     for i in range(4)] +
    [[('?u', [('p', 'n')]), ('?v', [('p', 'A')]),
      (['on', '?u', '?v'], 't')]],
]


BIG.append([[('?x', [('p', 'ABAC'[i % 4]), ('q', 'AB'[i % 5 % 2])]),
             ('?y%d' % (i % 3), [('r', 'ABC'[i % 3])])][:1 + (i % 4 == 0)]
            for i in range(44)] + [[('?z', [('p', 'n'), ('q', 'B')])]])


def leaf_values(inst):
    n = 0
    for v in inst.values():
        n += leaf_values(v) if isinstance(v, dict) else 1
    return n


@harness(quick=[dict(hist=h) for h in HIST + WIDE] + [
    dict(hist=h, fixed=len(h) - 1) for h in BIG])
def learning(ctx, hist, fixed=0):
    """Structured instances: the instance is left alone, the tree is
    well-formed, every concept is the sum of its children, the root holds
    every value of every instance exactly once and the returned concept is a
    leaf of the tree."""
    tree = lib.make_tree(ctx, 'trestle')
    insts = [build(ctx, h, 'i%d' % i) for i, h in enumerate(hist)]
    keep = [lib.copy_inst(i) for i in insts]
    asked = ctx.choice('asked', [0, 1, 2])
    for i, x in enumerate(insts):
        if asked and i:
            ctx.fix_random(True)
            if asked == 1:
                tree.categorize(insts[0])
            else:
                tree.infer_missing(insts[-1])
            ctx.fix_random(False)
        ctx.fix_random(i < fixed)
        c = tree.ifit(x)
        ctx.fix_random(False)
        ctx.check(ctx.same(x, keep[i]), 'the instance changed')
        ctx.check(lib.under(tree.root, c), 'returned concept not in the tree')
        ctx.check(not c.children, 'returned concept is not a leaf')
        lib.check_structure(ctx, tree)
    lib.check_children_sum(ctx, tree.root)
    ctx.check(ctx.eq(tree.root.count, len(insts)), 'instances at the root')
    hc = sum(n_components(x) for x in insts)
    tot = 0
    for a, vs in tree.root.av_counts.items():
        for v, k in vs.items():
            tot = tot + (k.num if lib.is_cv(k) else k)
    ctx.check(ctx.eq(tot, sum(leaf_values(x) for x in insts) + hc),
              'values at the root')
    # hidden values stay hidden: same number of hidden entries
    hid = sum(n_hidden(x, False) for x in insts)
    got = 0
    for a, vs in tree.root.av_counts.items():
        if a[0] == '_':
            for v, k in vs.items():
                got = got + (k.num if lib.is_cv(k) else k)
    ctx.check(ctx.eq(got, hid), 'hidden values at the root')


def n_components(x, inner=False):
    n = 0
    for a, v in x.items():
        if inner and isinstance(a, str) and a[0] == '?':
            n += 1
        if isinstance(v, dict):
            n += n_components(v, True)
    return n


def n_hidden(x, h):
    n = 0
    for a, v in x.items():
        g = h or (isinstance(a, str) and a[0] == '_')
        n += n_hidden(v, g) if isinstance(v, dict) else int(g)
    return n


FLAT = [
    dict(attrs=['a', 'b'], shape=['nA', 'nB', 'n?']),
    dict(attrs=['a', '_h'], shape=['nr', 'n!']),
    dict(attrs=['a'], shape=['r', 'r']),
    dict(attrs=['a', 'b'], shape=['A1', 'B2', 'n3']),
    dict(attrs=['a', '_h'], shape=['nA', 'n-', 'n?']),
    dict(attrs=['a', '_h'], shape=['A-', 'A1', 'n-']),
    dict(attrs=['a', 'b', '_h'], shape=lib.mixed(9, 'AAA') + ['AnA'], fixed=9),
]


@harness(quick=FLAT)
def flat(ctx, attrs, shape, fixed=0):
    """On plain attribute-value instances it is COBWEB/3: same draws, same
    tree, same categories, same inferences."""
    t1 = lib.make_tree(ctx, 'trestle')
    t2 = lib.make_tree(ctx, 'cobweb3')
    insts = lib.instances(ctx, attrs, shape)
    m = ctx.mark()
    for j, i in enumerate(insts):
        ctx.fix_random(j < fixed)
        t1.ifit(i)
    ctx.rewind(m)
    for j, i in enumerate(insts):
        ctx.fix_random(j < fixed)
        t2.ifit(i)
    ctx.fix_random(False)
    ctx.check(same_shape(ctx, t1.root, t2.root), 'another tree')
    n1, n2 = lib.nodes(t1.root), lib.nodes(t2.root)
    for x, y in zip(n1, n2):
        ctx.check(ctx.same(lib.av_view(x), lib.av_view(y)), 'another tree')
    q = insts[-1]
    m = ctx.mark()
    c1 = t1.categorize(q)
    ctx.rewind(m)
    c2 = t2.categorize(q)
    ctx.check([x is c1 for x in n1] == [x is c2 for x in n2],
              'another category')
    # one attribute to infer: the draws are used in the same order
    gone = ctx.S(attrs[ctx.choice('drop', len(attrs))])
    part = {a: q[a] for a in q if not (a == gone)}
    ctx.assume(len(part) >= len(attrs) - 1)
    m = ctx.mark()
    m_, s_ = ctx.S('most likely'), ctx.S('sampled')
    how = [(), (m_, False), (s_, True), (s_, False)][
        ctx.choice('how', 2 if any(c in 'r!' or c.isdigit() for k in shape
                                   for c in k) else 4)]
    r1 = t1.infer_missing(part, *how)
    ctx.rewind(m)
    r2 = t2.infer_missing(part, *how)
    ctx.check(ctx.same(r1, r2), 'another inference')


ODD = [
    [[('?x', [('p', 'A'), ('q', 'B')])], [('?x', [('p', 'B'), ('q', 'A')])],
     [('?y', [('p', 'A'), ('r', 'o')]), ('c', 'o'), ('_g', 'o')]],
    [[('?x', [('p', 'A')])], [('?x', [('p', 'B')]), ('c', 'A')],
     [('?y', [('p', 'A'), ('r', '3')]), ('c', 'r')]],
    [[('c', '1')], [('c', '2')], [('?y', [('p', 'r')]), ('d', '4')]],
]


@harness(quick=[dict(hist=h) for h in HIST[:4] + HIST[5:6] + WIDE + ODD])
def queries(ctx, hist):
    """categorize and infer_missing leave tree and instance alone; inferring
    keeps every given value where it was, in the caller's names."""
    tree = lib.make_tree(ctx, 'trestle')
    insts = [build(ctx, h, 'i%d' % i) for i, h in enumerate(hist)]
    ctx.fix_random(True)
    for x in insts[:-1]:
        tree.ifit(x)
    ctx.fix_random(False)
    q = insts[-1]
    keep = lib.copy_inst(q)
    f = frozen(ctx, tree)
    if ctx.choice('what', 2) == 0:
        c = tree.categorize(q)
        ctx.check(lib.under(tree.root, c), 'category not in the tree')
    else:
        r = tree.infer_missing(q, *[(), (ctx.S('sampled'),)][
            ctx.choice('fn', 2)])
        ctx.check(r is not q, 'the instance itself')

        def within(a, b):
            for k, v in a.items():
                ctx.check(k in b, 'a given attribute is lost')
                if isinstance(v, dict):
                    ctx.check(isinstance(b[k], dict), 'an object is lost')
                    within(v, b[k])
                else:
                    ctx.check(ctx.same(b[k], v), 'a given value changed')
        within(q, r)
    ctx.check(ctx.same(q, keep), 'the instance changed')
    unchanged(ctx, tree, f, 'a query')


INF = [
    dict(hist=[[('?x', [('p', 'AB'[i % 2]), ('q', 'CDC'[i % 3]),
                        ('_h', 'EF'[i // 2 % 2])]), ('c', 'AB'[i // 3 % 2])]
               for i in range(5)], q=[('?y', [('p', 'n')])]),
    dict(hist=[[('?x', [('p', 'AB'[i % 2]), ('_h', 'EF'[i % 2])]),
                ('_g', 'AB'[i % 2])] for i in range(4)], q=[('c', 'n')]),
    dict(hist=[[('?x', [('p', 'A'), ('q', 'B')])],
               [('?x', [('p', 'A'), ('q', 'n')]), ('c', 'n')]],
         q=[('?y', [('p', 'A')])]),
    dict(hist=[[('o', [('p', 'AB'[i % 2]), ('_h', 'CD'[i % 2])])]
               for i in range(3)], q=[('o', [('p', 'n')])]),
    dict(hist=[[('?x', [('p', 'AC'[i % 2]), ('q', 'BD'[i % 2])])]
               for i in range(15)], q=[('?y', [('p', 'n')])]),
    dict(hist=[[('?x', [('p', 'A'), ('q', 'B')]), ('?y', [('p', 'C'),
                                                         ('_h', 'D')])]] * 2,
         q=[('?u', [('p', 'n')]), ('?v', [('p', 'C')])]),
    dict(hist=[[('?x', [('p', 'A')]), ('?y', [('p', 'B')]),
                (['on', '?x', '?y'], 'C'), (['_by', '?x', '?y'], 'D')]] * 2,
         q=[('?u', [('p', 'n')]), ('?v', [('p', 'B')])]),
]


def flatten(ctx, x, outer=None):
    out = {}
    for a, v in x.items():
        k = a
        if outer is not None:
            k = (a, outer)
            if a[0] == '_' or outer[0] == '_':
                k = (ctx.S('_'), k)
        if isinstance(v, dict):
            out.update(flatten(ctx, v, k))
        else:
            out[k] = v
    return out


@harness(quick=INF)
def inferred(ctx, hist, q):
    """Inference for objects: what is added is exactly what one concept a
    greedy descent leads to holds for them, hidden values and relations too,
    under the caller's names."""
    tree = lib.make_tree(ctx, 'trestle')
    ctx.fix_random(True)
    for i, h in enumerate(hist):
        tree.ifit(build(ctx, h, 'i%d' % i))
    ctx.fix_random(False)
    inst = build(ctx, q, 'q')
    fn = ctx.choice('fn', ['most likely', 'sampled'])
    none = ctx.choice('none', [True, False])
    ctx.fix_random(True)
    r = tree.infer_missing(inst, fn, none)
    ctx.fix_random(False)
    given, got = flatten(ctx, inst), flatten(ctx, r)
    for k in given:
        ctx.check(k in got and ctx.same(got[k], given[k]),
                  'a given value changed')
    own = variables(given, [])
    known = variables(tree.root.av_counts, [])
    ok = False
    for m in injections(own, known):
        g, w = renamed(given, m), renamed(got, m)
        o = lib.Oracle(ctx, g, None, True)
        if any(explains(ctx, c, g, w, fn, none)
               for c in descents(ctx, o, lib.Ref.of(tree.root))):
            ok = True
            break
    ctx.check(ok, 'the inferred values are not those of the concept the '
              'instance belongs to')


@harness(quick=[dict(k=k) for k in range(3)])
def names(ctx, k):
    """The names a caller gives to an object do not matter: the same history
    with other names gives the same tree, and an instance that only differs
    in the name of its object joins the same concept."""
    S = ctx.S
    V = ((63, 63),)
    x = [ctx.string('x%d' % i, 2, lib.NAMECH, first=V) for i in range(2)]
    ly = ctx.choice('ly', [2, 3])
    y = [ctx.string('y%d' % i, ly, lib.NAMECH, first=V)
         for i in range(2)]
    v, w = ctx.string('v', 1), ctx.string('w', 1)
    t1, t2 = lib.make_tree(ctx, 'trestle'), lib.make_tree(ctx, 'trestle')

    def insts(n):
        if k == 0:
            return [{n[0]: {S('p'): v}}, {n[1]: {S('p'): w}}]
        if k == 1:
            return [{n[0]: {S('p'): v, S('_h'): w}, S('c'): w},
                    {n[0]: {S('p'): w}, S('c'): v}]
        return [{n[0]: {S('p'): v}, (S('r'), n[0], S('k')): True},
                {n[1]: {S('p'): w}, (S('r'), n[1], S('k')): True}]
    m = ctx.mark()
    for i in insts(x):
        t1.ifit(i)
    ctx.rewind(m)
    for i in insts(y):
        t2.ifit(i)
    ctx.check(same_shape(ctx, t1.root, t2.root), 'names matter')
    for a, b in zip(lib.nodes(t1.root), lib.nodes(t2.root)):
        ctx.check(ctx.same(lib.av_view(a), lib.av_view(b)), 'names matter')
    if k != 1 and v == w:
        ctx.check(len(t1.root.children) == 0, 'equal up to names, but '
                  'another concept')


BAD = ['listv', 'setv', 'deeplist', 'intattr', 'deepint', 'relint',
       'noneattr', 'hidden', 'nest2', 'nest3', 'deeprel', 'emptyname',
       'emptyrel', 'deepset']


@harness(quick=[dict(first=False), dict(first=True)])
def refused(ctx, first):
    """Attributes that are no names, relations over something else than names
    and unhashable values are refused wherever they stand; the tree stays as
    it was."""
    S = ctx.S
    tree = lib.make_tree(ctx, 'trestle')
    if not first:
        tree.ifit({S('?a'): {S('p'): S('x')}, S('c'): S('y')})
    good = {S('c'): ctx.string('v', 1), S('?b'): {S('p'): ctx.string('w', 1)}}
    k = BAD[ctx.choice('bad', len(BAD))]
    bad = dict(good)
    if k == 'listv':
        bad[S('l')] = [1]
    elif k == 'setv':
        bad[S('l')] = set([1])
    elif k == 'deeplist':
        bad[S('?b')] = {S('p'): S('x'), S('q'): {S('r'): [1]}}
    elif k == 'intattr':
        bad[3] = S('x')
    elif k == 'deepint':
        bad[S('?b')] = {S('p'): S('x'), 3: S('y')}
    elif k == 'relint':
        bad[(S('r'), 3, S('?b'))] = True
    elif k == 'noneattr':
        bad[None] = S('x')
    elif k == 'nest2':
        bad[(S('r'), (S('s'), 3))] = True
    elif k == 'nest3':
        bad[(S('r'), S('x'), (S('s'), (S('t'), None)), S('y'))] = True
    elif k == 'deeprel':
        bad[S('?b')] = {(S('r'), 3): True}
    elif k == 'emptyname':
        bad[S('')] = S('x')
    elif k == 'emptyrel':
        bad[()] = S('x')
    elif k == 'deepset':
        bad[S('o')] = {S('p'): {S('q'): set()}}
    else:
        bad[S('_l')] = [1]
    f = frozen(ctx, tree)
    how = ctx.choice('how', 3)
    if how == 0:
        r = ctx.raises((ValueError, TypeError, IndexError), tree.ifit, bad)
    elif how == 1:
        r = ctx.raises((ValueError, TypeError, IndexError), tree.fit, [bad])
    else:
        r = ctx.raises((ValueError, TypeError, IndexError), tree.categorize, bad)
    ctx.check(r, 'a malformed instance is accepted')
    unchanged(ctx, tree, f, 'a refused instance')
