from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['names inside relations are non-empty, start with a letter, ?, '
               'or _, and hold no blank or bracket; names that float() '
               'accepts (inf, nan) are left out']

# first character: letters, ?, _, -, =; further ones anything printable
FIRST = ((97, 104), (106, 109), (111, 122), (63, 63), (95, 95), (61, 61))
REST = ((33, 39), (42, 126))


def build(ctx, shape, tag, names):
    """shape: nested list; 's<n>' a name of n characters, 'f' a number,
    'k' a fixed name."""
    out = []
    for i, s in enumerate(shape):
        t = '%s.%d' % (tag, i)
        if isinstance(s, list):
            out.append(build(ctx, s, t, names))
        elif s == 'f':
            out.append([0.0, 1.5, -2.0, 10.0][ctx.choice(t, 4)])
        elif s == 'k':
            out.append(ctx.S('k%d' % i))
        else:
            out.append(ctx.string(t, int(s[1:]), REST, first=FIRST))
            names.append(out[-1])
    return tuple(out)


def text(ctx, t):
    """How the relation is written, by the format's description."""
    s = ctx.S('(')
    for i, e in enumerate(t):
        if i:
            s = s + ' '
        s = s + (text(ctx, e) if isinstance(e, tuple) else
                 e if isinstance(e, str) else ctx.S(str(e)))
    return s + ')'


SHAPES = [
    ['s2', 's1'], ['s1', 's1', 's2'], ['s1', ['s1', 's1']], ['s1'],
    ['s1', ['s1', ['s2', 's1']], 's1'], [['s1', 's1'], 's1'],
    ['s1', 's1', ['s1', 's1'], ['s1', ['s1']]], ['s1', 'f'],
    ['s2', ['s1', 'f'], 'f', 's1'], [[['s1'], 's2'], ['s1', 's1', 's1']],
    ['f', 's1'], ['s1', ['s1', ['s1', ['s1', ['s1', 's1']]]]],
    ['k', 'k', 's1', 'k', 's1'], ['k', ['s1', 'k', 'k', 'k'], 's1'],
    ['k', ['s1', ['f', 'k'], 'k'], ['f'], 'k', 'k', 's1'],
    [[[[['s1', 's1']]]], 's1'],
    [[[[[[['s1']]]]]], 's1'], ['k'] * 11 + ['s1', ['k', 's2']],
    ['s1', [['k', ['k', ['s1', ['k', ['k', ['s1']]]]]], 'k'], 'k'],
]


@harness(quick=[dict(shape=s) for s in SHAPES])
def roundtrip(ctx, shape):
    """Relations of any shape: written form to tuple, back, and again;
    values and other attributes untouched."""
    T = ctx.m('preprocessor').Tuplizer()
    t = build(ctx, shape, 'r', [])
    s = text(ctx, t)
    plain = ctx.string('plain', 2, REST, first=((97, 122), (63, 63),
                                                (95, 95)))
    v, w = ctx.string('v', 2), ctx.real('w')
    x = T.transform({s: v, plain: w})
    ctx.check(len(x) == 2, 'number of attributes')
    ctx.check(ctx.same(x, {t: v, plain: w}), 'the relation is not read as '
              'written')
    back = T.undo_transform(x)
    ctx.check(ctx.same(back, {s: v, plain: w}), 'undoing does not give the '
              'written relation')
    ctx.check(ctx.same(T.transform(back), x), 'reading again differs')


@harness(quick=[dict(shape=s) for s in SHAPES[:8]])
def tuples(ctx, shape):
    """Already tuple-shaped relations are written and read back unchanged,
    numbers as numbers."""
    T = ctx.m('preprocessor').Tuplizer()
    t = build(ctx, shape, 'r', [])
    v = ctx.real('v')
    inst = {t: v, ctx.S('n'): {ctx.S('inner'): v}}
    u = T.undo_transform(inst)
    ctx.check(ctx.same(u, {text(ctx, t): v, ctx.S('n'): {ctx.S('inner'): v}}),
              'the written form')
    ctx.check(ctx.same(T.transform(u), inst), 'not read back')
    ctx.check(len(inst) == 2 and t in inst, 'the argument changed')


@harness(quick=[dict(shape=s) for s in (['s1', 's1'], ['s1', ['s1', 's1']])])
def several(ctx, shape):
    """Several relations in one instance, and batches: one output per input,
    in order."""
    T = ctx.m('preprocessor').Tuplizer()
    t1, t2 = build(ctx, shape, 'p', []), build(ctx, shape, 'q', [])
    s1, s2 = text(ctx, t1), text(ctx, t2)
    a = {s1: True, s2: 1.0}
    exp = {t1: True, t2: 1.0}
    ctx.check(ctx.same(T.transform(a), exp), 'two relations')
    b = T.batch_transform([a, {s2: False}, {}])
    ctx.check(ctx.same(b, [exp, {t2: False}, {}]), 'batch')
    ctx.check(ctx.same(T.batch_undo(b), [a, {s2: False}, {}]), 'batch undo')
