from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['lists are not empty; list attributes are visible (hidden lists '
               'become text)']


def build(ctx, s, tag='x'):
    """'s' string, 'r' number, 'b' Boolean, list, dict."""
    if isinstance(s, list):
        return [build(ctx, e, '%s.%d' % (tag, i)) for i, e in enumerate(s)]
    if isinstance(s, dict):
        out = {}
        for k, e in s.items():
            a = ctx.string('%s.%s' % (tag, k), 2, lib.NAMECH) \
                if k[0] == '*' else ctx.S(k)
            if k[0] == '*':
                ctx.assume(a[0] != '_')
                ctx.assume(a not in out)
            out[a] = build(ctx, e, '%s.%s_' % (tag, k))
        return out
    if s == 's':
        return ctx.string(tag, 1)
    if s == 'r':
        return ctx.real(tag)
    if s == 'o':
        return lib.value(ctx, 'o', tag)
    if s == 'N':
        return None
    if s.isupper():
        return ctx.S(s)
    return True


SHAPES = [
    {'*l': ['s']}, {'*l': ['s', 's']}, {'*l': ['s', 'r', 'b']},
    {'*l': ['s', 's', 's', 's'], 'c': 's'},
    {'*l': ['s', 's', 's', 's', 's', 's']},
    {'*l': [{'p': 's'}, {'p': 'r', 'q': 's'}]},
    {'*l': ['s', {'p': 's'}, 'r'], '*m': ['s', 's']},
    {'*o': {'*l': ['s', 's', 's'], 'c': 's'}},
    {'*o': {'*k': {'*l': ['s', 'r']}}, '*l': ['s']},
    {'*l': [{'*m': ['s', 's'], 'p': 's'}, 's']},
    {'*l': [{'*m': [{'*n': ['s', 's']}, {'p': 's'}]}]},
    {'*l': [['s', 's'], ['s'], 's']},
    {'*l': [{'*m': ['s', 's']}, {'*m': ['s']}]},
    {'*l': [{'o': {'*m': ['s', 'r', 's']}}]},
    {'*o': {'p': 's'}, '*q': 's', '_h': 's'},
    {},
    {'*l': ['o', 's', 'o']}, {'*l': ['N', 's']}, {'*o': {'*l': ['o']}},
    {'*l': ['s'] + list('ABCABCDEFGH'), '*m': list('ABAB')},
    {'*l': [{'p': 's'}] * 11},
    {'*o': {'k': {'l': {'*m': ['s', 's'], 'n': ['A', 'o', 'B']}}}},
    {'*l': [{'p': {'q': {'*m': ['s', 's', 'A', 'B']}}}, 'A', {'p': 's'}]},
    {'*l': [{'val': 's', 'p': 'r'}, {'val': 's'}, 's']},
    {'*l': [{'val': ['s', 's'], 'p': {'val': 's'}}, {'val': {'val': 's'}}],
     'val': 's'},
    {'val': ['s', {'*p': 's'}]},
]


def lists(x):
    """All lists of an instance, nested ones included."""
    if isinstance(x, list):
        yield x
        for e in x:
            for l in lists(e):
                yield l
    elif isinstance(x, dict):
        for v in x.values():
            for l in lists(v):
                yield l


@harness(quick=[dict(shape=s) for s in SHAPES])
def roundtrip(ctx, shape):
    """Lists become objects: every element one has-element relation, every
    pair of neighbours one ordered-list relation, no list is left; undoing
    gives back the instance with its lists in order."""
    P = ctx.m('preprocessor')
    inst = build(ctx, shape)
    keep = lib.copy_inst(inst)
    L = P.ListProcessor()
    out = L.transform(inst)
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    ctx.check(not list(lists(out)), 'a list is left')
    ls = list(lists(inst))
    has = [a for a in out if isinstance(a, tuple) and a[0] == 'has-element']
    order = [a for a in out if isinstance(a, tuple) and a[0] == 'ordered-list']
    ctx.check(len(has) == sum(len(l) for l in ls), 'one has-element relation '
              'per element')
    ctx.check(len(order) == sum(len(l) - 1 for l in ls), 'one ordered-list '
              'relation per pair of neighbours')
    ctx.check(all(out[a] is True for a in has + order), 'relations hold')
    ele = [a[2] for a in has]
    ctx.check(not any(x == y for i, x in enumerate(ele) for y in ele[:i]),
              'elements share a name')
    ctx.check(all(e[0] == '?' for e in ele), 'element names are variables')
    keep_out = lib.copy_inst(out)
    back = L.undo_transform(out)
    ctx.check(ctx.same(back, inst), 'undo does not give back the instance')
    ctx.check(ctx.same(out, keep_out), 'undo changed its argument')


@harness(quick=[dict(shape=s) for s in (SHAPES[2], SHAPES[5], SHAPES[6],
                                        SHAPES[7], SHAPES[9])])
def twice(ctx, shape):
    """Elements get fresh names in every transform; a processor can be used
    for several instances."""
    P = ctx.m('preprocessor')
    inst = build(ctx, shape)
    L = P.ListProcessor()
    o1, o2 = L.batch_transform([inst, inst])
    e1 = [a[2] for a in o1 if isinstance(a, tuple) and a[0] == 'has-element']
    e2 = [a[2] for a in o2 if isinstance(a, tuple) and a[0] == 'has-element']
    ctx.check(not any(x == y for x in e1 for y in e2), 'names are reused')
    b = L.batch_undo([o2, o1])
    ctx.check(ctx.same(b, [inst, inst]), 'undo')


@harness(quick=[dict(n=n) for n in range(5)])
def hidden(ctx, n):
    """Hidden lists, wherever they stand: no list is left, the attribute
    stays, and everything else comes back."""
    P = ctx.m('preprocessor')
    S = ctx.S
    v = [ctx.string('v%d' % i, 1) for i in range(3)]
    h = [S('A'), S('B'), 1.5, True][:n]
    inst = {S('_h'): list(h), S('o'): {S('_g'): list(h), S('p'): v[0]},
            S('l'): [{S('_k'): list(h), S('q'): v[1]}, v[2]]}
    keep = lib.copy_inst(inst)
    L = P.ListProcessor()
    out = L.transform(inst)
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    ctx.check(not list(lists(out)), 'a list is left')
    ctx.check(S('_h') in out and isinstance(out[S('_h')], str),
              'a hidden list does not become text')
    back = L.undo_transform(out)
    want = {S('_h'): S(str(h)), S('o'): {S('_g'): S(str(h)), S('p'): v[0]},
            S('l'): [{S('_k'): S(str(h)), S('q'): v[1]}, v[2]]}
    ctx.check(len(back) == 3 and ctx.same(back[S('o')][S('p')], v[0]) and
              S('_g') in back[S('o')], 'undo')
    ctx.check(len(back[S('l')]) == 2 and ctx.same(back[S('l')][1], v[2]) and
              ctx.same(back[S('l')][0][S('q')], v[1]), 'undo')
    ctx.check(not any(isinstance(x, list) for x in (
        back[S('_h')], back[S('o')][S('_g')], back[S('l')][0][S('_k')])),
        'a hidden list comes back as something else')
    ctx.check(len(want) == len(back), 'undo')


def orders(has):
    n = len(has)
    return [list(reversed(has)), has[::2] + has[1::2], has[n // 2:] +
            has[:n // 2], has[-1:] + has[:-1], has[1::2] + has[::2][::-1]]


@harness(quick=[dict(n=12), dict(n=25)])
def long(ctx, n):
    """Longer lists, relations in several orders, possibly one missing."""
    P = ctx.m('preprocessor')
    T = P.ListsToRelations()
    S = ctx.S
    names = [S('?e%d' % i) for i in range(n)]
    inst = {S('l'): list(names), S('c'): ctx.string('v', 1)}
    out = T.transform(inst)
    has = [a for a in out if isinstance(a, tuple) and a[0] == 'has-element']
    order = [a for a in out if isinstance(a, tuple) and a[0] == 'ordered-list']
    ctx.check(len(has) == n and len(order) == n - 1, 'number of relations')
    i, j = ctx.choice('has', 5), ctx.choice('order', 5)
    rel = orders(order)[j]
    gone = ctx.choice('gone', [None, 0, n - 2, n // 2])
    if gone is not None:
        rel.remove(order[gone])
    mixed = {a: v for a, v in out.items() if not isinstance(a, tuple)}
    for a in orders(has)[i] + rel:
        mixed[a] = True
    keep = lib.copy_inst(mixed)
    back = T.undo_transform(mixed)
    ctx.check(ctx.same(mixed, keep), 'undo changed its argument')
    if gone is None:
        ctx.check(ctx.same(back, inst), 'the list is not rebuilt in order')
        return
    got = back.get(S('l'))
    if isinstance(got, list):
        ctx.check(len(got) == n and all(any(x == y for y in got)
                                        for x in names), 'elements are lost')
        for a in rel:
            k = [k for k, x in enumerate(got) if x == a[2]][0]
            ctx.check(got[k + 1] == a[3], 'neighbours are not kept')
    else:
        ctx.check(ctx.same(back, mixed), 'a partial order is lost')


@harness(quick=[dict(n=3), dict(n=4)], thorough=[dict(n=3), dict(n=4),
                                                 dict(n=5)])
def shuffled(ctx, n):
    """The relations may come in any order; with relations missing, nothing is
    lost: either the list is rebuilt with exactly its elements, neighbours as
    told, or the relations stay."""
    P = ctx.m('preprocessor')
    T = P.ListsToRelations()
    S = ctx.S
    names = [S('?e%d' % i) for i in range(n)]
    inst = {S('l'): list(names)}
    out = T.transform(inst)
    has = [a for a in out if isinstance(a, tuple) and a[0] == 'has-element']
    order = [a for a in out if isinstance(a, tuple) and a[0] == 'ordered-list']
    ctx.check(len(has) == n and len(order) == n - 1, 'number of relations')
    other = {a: v for a, v in out.items() if not isinstance(a, tuple)}
    drop = [ctx.choice('drop%d' % i, [False, True]) for i in range(n - 1)]
    left = list(has)
    mixed = dict(other)
    perm = []
    while left:
        k = ctx.choice('perm%d' % len(perm), len(left))
        perm.append(left.pop(k))
    for a in perm:
        mixed[a] = True
    rel = [a for a, d in zip(order, drop) if not d]
    if ctx.choice('rev', [False, True]):
        rel.reverse()
    for a in rel:
        mixed[a] = True
    keep = dict(mixed)
    back = T.undo_transform(mixed)
    ctx.check(ctx.same(mixed, keep), 'undo changed its argument')
    if not any(drop):
        ctx.check(ctx.same(back, inst), 'the list is not rebuilt in order')
        return
    got = back.get(S('l'))
    if isinstance(got, list):
        ctx.check(len(got) == n and all(any(x == y for y in got)
                                        for x in names), 'elements are lost')
        for a in rel:
            i = [k for k, x in enumerate(got) if x == a[2]][0]
            ctx.check(got[i + 1] == a[3], 'neighbours are not kept')
    else:
        ctx.check(ctx.same(back, mixed), 'a partial order is lost')
