from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['flat instances over up to three objects and base concepts '
               'over up to three objects; values of the target arbitrary; the '
               'assignment solver (munkres) and the hill climber (py_search) '
               'run as they are, on the costs of the path']


def base_node(ctx, rows):
    """A concept over flat instances; rows: list of {attr: value}."""
    tree = lib.make_tree(ctx, 'cobweb3')
    n = tree.root
    for r in rows:
        i = {ctx.S(a) if not isinstance(a, list) else ctx.S(a): (
            ctx.S(v) if isinstance(v, str) else v) for a, v in r}
        tree.update_scales(i)
        n.increment_counts(i)
    return n


B = [
    [[(('p', '?b1'), 'A'), (('p', '?b2'), 'B')]],
    [[(('p', '?b1'), 'A'), (('p', '?b2'), 'B'), (('on', '?b1', '?b2'), True)],
     [(('p', '?b1'), 'A'), (('q', '?b3'), 'C')]],
    [[(('p', '?b1'), 1.0), (('p', '?b2'), 5.0)],
     [(('p', '?b1'), 2.0), (('p', '?b2'), 5.0)]],
    [[('c', 'A'), (('p', '?b1'), 'A')]],
    [[('c', 'A')]],
    [[(('p', '?b1'), 'A'), (('has-component', '?b1', '?b2'), True),
      (('q', '?b2'), 'B'), (('_', ('h', '?b2')), 'z')]],
    [[(('btw', '?b1', 'k', '?b2', '?b3'), True), (('p', '?b3'), 'A')]],
    [[(('p', '?b1'), ''), (('p', '?b2'), False), (('q', '?b2'), 0)]],
    [[(('p', '?b1'), 'A'), (('p', '?b2'), 'B'), (('p', '?b3'), 'A'),
      (('p', '?b4'), 'D'), (('on', '?b1', '?b2'), True),
      (('on', '?b3', '?b4'), True)],
     [(('p', '?b1'), 'B'), (('p', '?b5'), 'A'), (('q', '?b5'), 'C')]],
    [[(('p', '?b1'), 'A'), (('p', '?b2'), 'A'), (('on', '?b1', '?b2'), True)]],
    [[(('p', '?b1'), 'A'), (('_on', '?b1', '?b2'), 'A'),
      (('_', '?b1', '?b2'), 'B')], [(('q', '?b2'), 'B')]],
    [[(('p', '?b1'), 'A'), (('q', '?b2'), 'A'), (('on', '?b1', '?b2'), True),
      (('near', '?b1', '?b2'), True), (('by', '?b1', '?b2'), True)]],
    # many objects
    [[(('p', '?b%d' % i), 'ABCDABE'[i]) for i in range(7)] +
     [(('q', '?b%d' % i), 'AB'[i % 2]) for i in range(4)] +
     [(('on', '?b%d' % i, '?b%d' % (i + 1)), True) for i in (0, 2, 4)]],
]
# targets: (attribute, kind of value)
T = [
    [(('p', '?t1'), 'n'), (('p', '?t2'), 'n')],
    [(('p', '?t1'), 'n'), (('p', '?t2'), 'B'), (('on', '?t1', '?t2'), 't')],
    [(('p', '?t1'), '1'), (('p', '?t2'), 'n'), (('q', '?t3'), 'C')],
    [('c', 'n')],
    [(('p', '?t1'), 'n'), (('has-component', '?t1', '?t2'), 't'),
     (('q', '?t2'), 'n'), (('_', ('h', '?t2')), 'n')],
    [('?t1', 'n'), (('p', '?t2'), 'n'), ('c', 'A')],
    [(('p', '?t1'), 'r'), (('p', '?t2'), '5')],
    [(('p', '?t1'), '3'), (('p', '?t2'), 'n')],
    [(('btw', '?t3', 'k', '?t2', '?t1'), 't'), (('p', '?t1'), 'n')],
    [(('p', '?t1'), 'o'), (('q', '?t2'), '0')],
    [(('p', '?t1'), 'n'), (('p', '?t2'), 'B'), (('p', '?t3'), 'n'),
     (('on', '?t2', '?t3'), 't')],
    [(('p', '?t1'), 'n'), (('_on', '?t1', '?t2'), 'n'),
     (('_', '?t1', '?t2'), 'n'), (('q', '?t2'), 'B'),
     (('_', ('_on', '?t1', '?t2')), 'n')],
    [(('p', '?t1'), 'n'), (('on', '?t2', '?t1'), 't')],
    [(('p', '?t1'), 'n'), (('p', '?t2'), 'A'), (('on', '?t3', '?t2'), 't'),
     (('q', '?t3'), 'n')],
    [(('p', '?t1'), 'n'), (('q', '?t1'), 'B'), (('p', '?t2'), 'A'),
     (('on', '?t2', '?t1'), 't')],
    [(('p', '?t1'), 'n'), (('q', '?t3'), 'n'), (('on', '?t2', '?t3'), 't'),
     (('near', '?t2', '?t3'), 't'), (('by', '?t2', '?t3'), 't')],
    [(('p', '?t%d' % i), 'nBCADA'[i]) for i in range(6)] +
    [(('on', '?t%d' % i, '?t%d' % (i + 1)), 't') for i in (1, 3)] +
    [(('q', '?t0'), 'A')],
    [(('p', '?t%d' % i), 'ABnDABEA'[i]) for i in range(8)],
]


def target(ctx, spec):
    return {ctx.S(a): lib.value(ctx, k, 'v%d' % i)
            for i, (a, k) in enumerate(spec)}


def variables(attrs, out=None):
    out = [] if out is None else out
    for a in attrs:
        if isinstance(a, tuple):
            variables(a, out)
        elif isinstance(a, str) and len(a) and a[0] == '?':
            if not any(a == o for o in out):
                out.append(a)
    return out


def renamed(x, m):
    def r(a):
        if isinstance(a, tuple):
            return tuple(r(e) for e in a)
        for o, n in m:
            if isinstance(a, str) and a == o:
                return n
        return a
    return {r(a): v for a, v in x.items()}


def check_mapping(ctx, m, t, b):
    """One-to-one from the objects of t to objects of b or themselves."""
    tv, bv = variables(t), variables(b.av_counts)
    if not tv or not bv:
        ctx.check(len(m) == 0, 'a mapping without objects')
        return
    ctx.check(len(m) == len(tv) and all(v in m for v in tv),
              'an object is not mapped')
    for k, v in m.items():
        ctx.check(v == k or any(v == x for x in bv),
                  'mapped to something unknown')
    vs = list(m.values())
    ctx.check(not any(x == y for i, x in enumerate(vs) for y in vs[:i]),
              'two objects mapped to one')


CASES = [(0, 0), (1, 1), (0, 2), (3, 3), (4, 0), (3, 0), (5, 4), (3, 5),
         (1, 2), (2, 0), (4, 3), (6, 8), (7, 9), (6, 1), (1, 8), (8, 10),
         (9, 10), (10, 11), (8, 12), (9, 13)]


@harness(quick=[dict(base=b, tgt=t) for b, t in CASES] + [
    dict(base=2, tgt=6), dict(base=12, tgt=16), dict(base=12, tgt=17),
    dict(base=0, tgt=17), dict(base=12, tgt=0)])
def transform(ctx, base, tgt):
    """Renaming the target to the base is one-to-one, keeps every value, can
    be undone exactly, and leaves target and base alone; answering again for
    another instance of the same names also works."""
    M = ctx.m('structure_mapper')
    b = base_node(ctx, B[base])
    t = target(ctx, T[tgt])
    keep, f = dict(t), lib.view(b)
    S = M.StructureMapper(b)
    ctx.check(ctx.raises(Exception, S.undo_transform, t), 'undo first')
    out = S.transform(t)
    m = S.get_mapping()
    check_mapping(ctx, m, t, b)
    ctx.check(ctx.same(out, renamed(t, list(m.items()))),
              'the answer is not the renamed instance')
    ctx.check(len(out) == len(t), 'attributes are lost')
    ctx.check(ctx.same(t, keep), 'the instance changed')
    ctx.check(lib.same_view(ctx, lib.view(b), f), 'the base changed')
    keep_out = dict(out)
    ctx.check(ctx.same(S.undo_transform(out), t), 'undo does not give back '
              'the instance')
    ctx.check(ctx.same(out, keep_out), 'undo changed its argument')


def cost(ctx, m, t, b):
    """Minus the expected correct guesses of the base with the renamed target
    added, by definition."""
    r = renamed(t, m)
    tab = lib.add_table(ctx, lib.table(b), r, True)
    sc = {k: lib.ustd(ctx, c.num, c.meanSq) / b.tree.scaling
          for k, c in b.tree.attr_scales.items()}

    def scale(a):
        k = a[0] if isinstance(a, tuple) else a
        x = sc.get(k, 1)
        return x if ctx.truth(x > 0) else 1
    return -lib.guesses(ctx, tab, scale)


def injections(ks, vs):
    if not ks:
        yield []
        return
    for v in vs + [ks[0]]:
        for rest in injections(ks[1:], [x for x in vs if x is not v]):
            yield [(ks[0], v)] + rest


@harness(quick=[dict(base=b, tgt=t) for b, t in
                ((0, 0), (1, 1), (5, 4), (2, 7), (1, 2), (6, 8), (7, 9),
                 (9, 10), (10, 11), (8, 12))])
def costs(ctx, base, tgt):
    """The cost of a mapping is the loss of expected correct guesses it leads
    to; asking for it changes nothing."""
    M = ctx.m('structure_mapper')
    b = base_node(ctx, B[base])
    t = target(ctx, T[tgt])
    keep, f = dict(t), lib.view(b)
    ms = list(injections(variables(t), variables(b.av_counts)))
    m = ms[ctx.choice('m', len(ms))]
    as_set = ctx.choice('set', [False, True])
    ctx.check(ctx.eq(M.mapping_cost(frozenset(m) if as_set else dict(m), t,
                                    b), cost(ctx, m, t, b)), 'cost')
    ctx.check(ctx.same(t, keep), 'the instance changed')
    ctx.check(lib.same_view(ctx, lib.view(b), f), 'the base changed')


@harness(quick=[dict(base=b, tgt=t) for b, t in
                ((0, 0), (1, 1), (5, 4), (1, 0), (8, 12), (8, 0), (9, 10),
                 (9, 13), (10, 11), (3, 2), (9, 14), (8, 10), (11, 15),
                 (12, 16))])
def improved(ctx, base, tgt):
    """Starting from any one-to-one mapping, the result is one-to-one and
    never costlier than that mapping or any mapping one exchange away; and it
    is one no exchange improves, or as good as such a one next to it (the hill
    climber stops after a step to an equally good mapping)."""
    M = ctx.m('structure_mapper')
    b = base_node(ctx, B[base])
    t = target(ctx, T[tgt])
    tv, bv = variables(t), variables(b.av_counts)
    if len(tv) > 4:
        # a few of very many
        ms = [list(zip(tv, bv[j:] + bv[:j])) for j in (0, 3)
              if len(tv) <= len(bv)]
    else:
        ms = [m for m in injections(tv, bv) if all(k is not v for k, v in m)]
    if len(ms) > 24:
        ms = ms[::5]
    k = ctx.choice('m', len(ms) + 1)
    m = ms[k - 1] if k else None
    r = M.flat_match(t, b, frozenset(m)) if k else M.flat_match(t, b)
    check_mapping(ctx, r, t, b)
    r = [(x, r[x]) for x in tv]
    c = cost(ctx, r, t, b)
    for n in exchanges(m, bv) + [m] if k else []:
        ctx.check(ctx.lez(c, cost(ctx, n, t, b)), 'a costlier mapping')

    def final(n):
        return ctx.truth(ctx.lez(cost(ctx, n, t, b), c)) and all(
            ctx.truth(ctx.lez(c, cost(ctx, x, t, b)))
            for x in exchanges(n, bv) + [n])
    alone = [[(x, x if i == j else y) for j, (x, y) in enumerate(r)]
             for i in range(len(r))]
    ctx.check(any(final(n) for n in [r] + exchanges(r, bv) + alone),
              'the search stopped early')


def exchanges(m, bv):
    near = []
    for i in range(len(m)):
        for j in range(i):
            n = list(m)
            (a, x), (b, y) = m[i], m[j]
            n[i] = (a, a if y == b else y)
            n[j] = (b, b if x == a else x)
            near.append(n)
        for x in bv:
            if not any(x == v for k, v in m):
                n = list(m)
                n[i] = (m[i][0], x)
                near.append(n)
    return near


@harness(quick=[dict(base=b, tgt=t) for b, t in
                ((0, 0), (1, 1), (0, 2), (1, 0), (3, 0), (3, 2))])
def foreign(ctx, base, tgt):
    """A starting mapping may mention objects that instance or concept do not
    have, or leave some out: the result is still one-to-one, from objects of
    the instance to objects of the concept or themselves."""
    M = ctx.m('structure_mapper')
    b = base_node(ctx, B[base])
    t = target(ctx, T[tgt])
    tv, bv = variables(t), variables(b.av_counts)
    strange = [ctx.S('?zz'), ctx.S('?yy')]
    ms = [m for m in injections(tv, bv + strange)
          if any(v in strange for k, v in m)]
    m = ms[ctx.choice('m', len(ms))]
    if ctx.choice('extra', [False, True]):
        m = m + [(ctx.S('?ww'), ctx.S('?vv'))]
    if ctx.choice('less', [False, True]):
        m = m[1:]
    keep, f = dict(t), lib.view(b)
    r = M.flat_match(t, b, frozenset(m))
    for k, v in r.items():
        ctx.check(any(k == x for x in tv), 'maps something unknown')
        ctx.check(v == k or any(v == x for x in bv),
                  'mapped to something unknown')
    vs = list(r.values())
    ctx.check(not any(x == y for i, x in enumerate(vs) for y in vs[:i]),
              'two objects mapped to one')
    ctx.check(ctx.same(t, keep), 'the instance changed')
    ctx.check(lib.same_view(ctx, lib.view(b), f), 'the base changed')


@harness(quick=[dict(base=b, tgt=t) for b, t in
                ((0, 0), (1, 1), (5, 4), (0, 2), (1, 0), (8, 12), (9, 10))])
def neighbours(ctx, base, tgt):
    """Every mapping the search may step to, from any one-to-one mapping, is
    one-to-one, together with the objects left over."""
    M = ctx.m('structure_mapper')
    b = base_node(ctx, B[base])
    t = target(ctx, T[tgt])
    tv, bv = variables(t), variables(b.av_counts)
    ms = list(injections(tv, bv))
    m = ms[ctx.choice('m', len(ms))]
    free = frozenset(x for x in bv if not any(x == v for k, v in m))
    P = M.StructureMappingOptProblem((frozenset(m), free), initial_cost=0,
                                     extra=(t, b))
    for s in P.successors(P.initial):
        mm, left = s.state
        mm = dict(mm)
        check_mapping(ctx, mm, t, b)
        used = [v for v in mm.values() if any(v == x for x in bv)]
        ctx.check(len(used) + len(left) == len(bv) and not any(
            u == l for u in used for l in left), 'objects left over')
        ctx.check(ctx.eq(P.node_value(s), M.mapping_cost(mm, t, b)),
                  'value of a mapping')


@harness()
def collision(ctx):
    """Objects of the same name in target and base are refused."""
    M = ctx.m('structure_mapper')
    b = base_node(ctx, B[0])
    x = ctx.string('x', 3, lib.NAMECH, first=((63, 63),))
    t = {(ctx.S('p'), x): ctx.string('v', 1)}
    bv = variables(b.av_counts)
    r = ctx.raises(Exception, M.flat_match, t, b)
    ctx.check(r == any(x == v for v in bv), 'collision of names')


@harness()
def helpers(ctx):
    """Renaming and searching attributes."""
    M = ctx.m('structure_mapper')
    S = ctx.S
    x, y = [ctx.string(k, 2, lib.NAMECH, first=((63, 63),)) for k in 'xy']
    n = S('?n')
    attr = [lambda: x, lambda: (S('p'), x), lambda: (S('on'), x, (S('q'), y)),
            lambda: (S('r'), (y, (x, S('k')))),
            lambda: (S('r'), S('k'), S('l'), y, (S('q'), S('m'), S('n'), x))
            ][ctx.choice('k', 5)]()
    v = ctx.real('v')
    t = {attr: v, S('c'): 1}
    ctx.assume(n != x)
    ctx.assume(n != y)
    m = {x: n}
    ctx.check(ctx.same(M.rename_flat(t, m), renamed(t, [(x, n)])), 'rename')
    if isinstance(attr, tuple):
        ctx.check(ctx.same(M.bind_flat_attr(attr, m), list(renamed(
            {attr: v}, [(x, n)]))[0]), 'bind')
    vs = variables([attr])
    ctx.check(bool(M.contains_component(y, attr)) == any(
        y == a for a in vs), 'contains_component')
    names = M.get_component_names(t)
    ctx.check(len(names) == len(vs) and all(any(a == b for b in vs)
                                            for a in names), 'names')
