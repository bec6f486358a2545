from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['names are arbitrary printable strings of two characters (so '
               'visible, hidden and variable ones), distinct within an '
               'object; components are not empty; attributes of the input are '
               'names or relations of three and more elements']


def names(ctx, n, tag='n', ranges=None):
    return [ctx.string('%s%d' % (tag, i), 2, ranges or lib.NAMECH)
            for i in range(n)]


def build(ctx, shape, n, tag='v'):
    """shape: {name index as str: 's'/'r'/'b' value or nested shape}."""
    out = {}
    for k, s in shape.items():
        a = n[int(k)]
        ctx.assume(a not in out)
        t = '%s.%s' % (tag, k)
        if isinstance(s, dict):
            out[a] = build(ctx, s, n, t)
        elif s == 's':
            out[a] = ctx.string(t, 1)
        elif s == 'r':
            out[a] = ctx.real(t)
        else:
            out[a] = True
    return out


def leaves(x, path=()):
    for a, v in x.items():
        if isinstance(v, dict):
            for l in leaves(v, path + (a,)):
                yield l
        else:
            yield path + (a,), v


def pair(path):
    """('inner', ('mid', 'outer')) of a path from the outside in."""
    p = path[0]
    for a in path[1:]:
        p = (a, p)
    return p


def is_hidden(a):
    return a[0] == '_'


SHAPES = [
    {'0': 's', '1': {'2': 'r'}},
    {'0': {'1': {'2': 's', '3': 'r'}}},
    {'0': {'1': 's'}, '2': {'1': 'r', '0': 'b'}},
    {'0': {'1': {'2': {'3': 's'}}}, '4': 'r'},
    {'0': {'1': 's', '2': {'3': 'r'}}, '4': {'2': {'3': 's'}}},
    {'0': 's'}, {},
    {'0': {'1': {'2': {'3': {'4': 's', '0': 'r'}}}}},
    {'0': {'1': {'2': {'3': {'4': 's'}}}}},
    {'0': {'1': {'2': {'3': {'4': {'5': {'6': 's'}}}}}}},
]


def relation(ctx, inst, n, how):
    """Adds a relation of three or four elements (or none)."""
    if how == 1:
        inst[(ctx.S('r'), n[0], ctx.S('k'))] = True
    elif how == 2:
        inst[(ctx.S('on'), n[0], (ctx.S('z'), n[0]), ctx.S('m'))] = \
            ctx.real('relv')
    return inst


@harness(quick=[dict(shape=s) for s in SHAPES])
def flatten(ctx, shape):
    """Flattening keeps every value exactly once under its path (innermost
    name first), marks it hidden exactly when a name of the path is hidden,
    and undoing it gives back the instance."""
    F = ctx.m('preprocessor').Flattener()
    n = names(ctx, 7)
    inst = build(ctx, shape, n)
    inst = relation(ctx, inst, n, ctx.choice('rel', 3))
    keep = lib.copy_inst(inst)
    out = F.transform(inst)
    ls = list(leaves(inst))
    ctx.check(len(out) == len(ls), 'number of attributes')
    for path, v in ls:
        hid = [a for a in path if is_hidden(a)]
        if not hid:
            ctx.check(pair(path) in out, 'an attribute is lost')
            ctx.check(ctx.same(out[pair(path)], v), 'a value changed')
    nh = [p for p, v in ls if any(is_hidden(a) for a in p)]
    ctx.check(len([a for a in out if a[0] == '_']) == len(nh),
              'hidden attributes stay hidden and visible ones visible')
    ctx.check(not any(isinstance(v, dict) for v in out.values()),
              'not flat')
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    keep_out = dict(out)
    back = F.undo_transform(out)
    ctx.check(ctx.same(back, inst), 'undo does not give back the instance')
    ctx.check(ctx.same(out, keep_out), 'undo changed its argument')


def rep(path):
    a = path[-1]
    if len(path) == 1 or a[0] == '?':
        return a
    return (a, rep(path[:-1]))


VARS = ((63, 63),)


@harness(quick=[dict(shape=s) for s in SHAPES])
def subcomponents(ctx, shape):
    """Objects with variable names become top-level: their attributes drop the
    outer path and one has-component relation names the object they belong
    to; undoing gives back the flattened instance."""
    P = ctx.m('preprocessor')
    n = names(ctx, 7)
    inst = build(ctx, shape, n)
    flat = P.Flattener().transform(inst)
    # variables are standardised: each name denotes one object
    paths = {}
    for path, v in leaves(inst):
        for i in range(len(path)):
            ctx.assume(not is_hidden(path[i]))
            if path[i][0] == '?':
                if path[i] in paths:
                    ctx.assume(ctx.same(paths[path[i]], path[:i]))
                else:
                    paths[path[i]] = path[:i]
    exp = {}
    for path, v in leaves(inst):
        exp[rep(path)] = v
        for i in range(1, len(path)):
            if path[i][0] == '?':
                exp[(ctx.S('has-component'), rep(path[:i]), path[i])] = True
        if len(path) > 1 and path[-1][0] == '?':
            exp[(ctx.S('has-component'), rep(path[:-1]), path[-1])] = True
    S = P.SubComponentProcessor()
    keep = dict(flat)
    out = S.transform(flat)
    ctx.check(ctx.same(out, exp), 'components are not separated as described')
    ctx.check(ctx.same(flat, keep), 'the instance changed')
    keep_out = dict(out)
    ctx.check(ctx.same(S.undo_transform(out), flat), 'undo does not give back '
              'the instance')
    ctx.check(ctx.same(out, keep_out), 'undo changed its argument')


@harness(quick=[dict(depth=1), dict(depth=2), dict(depth=3), dict(depth=5)])
def related(ctx, depth):
    """Relations over components at any depth, and hidden attributes of
    components, survive the separation and its undoing."""
    P = ctx.m('preprocessor')
    o = [ctx.string('o%d' % i, 2, lib.NAMECH, first=VARS)
         for i in range(depth + 1)]
    o[-1] = [o[-1], ctx.S('?'), ctx.S('?a-long-name_1')][
        ctx.choice('last', 3 if depth == 2 else 1)]
    c = ctx.string('c', 2, lib.NAMECH)
    ctx.assume(c[0] != '?')
    for i, x in enumerate(o):
        for y in o[:i]:
            ctx.assume(x != y)
    # o0 contains o1 contains ... ; each has a leaf c
    inst = {}
    cur = inst
    for k, x in enumerate(o):
        cur[x] = {c: ctx.string('v%d' % k, 1)}
        cur = cur[x]
    i, j = ctx.choice('i', depth + 1), ctx.choice('j', depth + 1)
    more = tuple(ctx.S(x) for x in 'klmn'[:ctx.choice('more', 5)])
    inst[(ctx.S('rel'), pair(tuple(o[:i + 1]))) + more +
         (pair(tuple(o[:j + 1])),)] = ctx.real('w')
    flat = P.Flattener().transform(inst)
    S = P.SubComponentProcessor()
    out = S.transform(flat)
    ctx.check((ctx.S('rel'), o[i]) + more + (o[j],) in out,
              'a relation does not name the separated objects')
    hc = [a for a in out if isinstance(a, tuple) and a[0] == 'has-component']
    ctx.check(len(hc) == depth, 'one parent per component')
    for k in range(depth):
        ctx.check((ctx.S('has-component'), o[k], o[k + 1]) in out,
                  'parent of a component')
    hid = [a for a in out if a[0] == '_']
    ctx.check(len(hid) == (depth + 1 if is_hidden(c) else 0),
              'hidden attributes stay hidden')
    ctx.check(ctx.same(S.undo_transform(out), flat), 'undo')
    ctx.check(ctx.same(P.Flattener().undo_transform(S.undo_transform(out)),
                       inst), 'undo of both')
