from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['instances as in C12 to C17: nested objects up to three deep, '
               'lists of up to three elements, relations, hidden attributes; lists inside '
               'components are not combined with the separation of '
               'components (list relations name elements without their path)']


def make(ctx, kind):
    P = ctx.m('preprocessor')
    return dict(tuplizer=lambda: P.Tuplizer(),
                names=lambda: P.NameStandardizer(),
                flat=lambda: P.Flattener(),
                lists=lambda: P.ListProcessor(),
                extract=lambda: P.ExtractListElements(),
                relations=lambda: P.ListsToRelations(),
                sub=lambda: P.SubComponentProcessor(),
                variablize=lambda: P.ObjectVariablizer(),
                variablize_some=lambda: P.ObjectVariablizer(ctx.S('o')),
                nominal=lambda: P.NumericToNominal(),
                nominal_some=lambda: P.NumericToNominal(ctx.S('n')),
                numeric=lambda: P.NominalToNumeric(ctx.S('zero')),
                numeric_drop=lambda: P.NominalToNumeric(ctx.S('drop')),
                sanitize=lambda: P.Sanitizer(),
                sanitize_cobweb=lambda: P.Sanitizer(ctx.S('cobweb')),
                )[kind]()


def build(ctx, k):
    S = ctx.S
    v, w = ctx.string('v', 1), ctx.real('w')
    x = ctx.string('x', 2, lib.NAMECH)
    ctx.assume(x[0] != '_')
    ctx.assume(x[0] != '?')
    return [
        lambda: {S('a'): v, S('n'): 2.5, S('_h'): 1},
        lambda: {S('o'): {x: v, S('p'): {S('q'): v}}, S('?v'): {S('p'): w},
                 (S('r'), S('o'), S('?v')): True},
        lambda: {S('l'): [v, {S('p'): v}], S('o'): {S('m'): [v, v, v]}},
        lambda: {S('(on a b)'): True, S('o'): {S('p'): 3}},
        lambda: {(S('p'), S('?a')): v, (S('p'), (S('?b'), S('?a'))): w,
                 (S('r'), S('?a'), S('?b')): True, S('_g'): v},
        lambda: {S('l'): [v, {S('p'): w}, v], S('o'): {x: v}},
    ][k]()


FITS = {'tuplizer': [0, 3], 'names': [0, 1, 2, 4], 'flat': [0, 1],
        'lists': [0, 1, 2], 'extract': [0, 2], 'relations': [0, 1],
        'sub': [0, 4], 'variablize': [0, 1, 2], 'variablize_some': [0, 1, 2],
        'nominal': [0, 3], 'nominal_some': [0, 2, 3], 'numeric': [0],
        'numeric_drop': [0], 'sanitize': [0, 1, 2, 3],
        'sanitize_cobweb': [0, 1, 2]}


def containers(x, out):
    if isinstance(x, (dict, list)):
        out.append(x)
        for v in (x.values() if isinstance(x, dict) else x):
            containers(v, out)
    return out


@harness(quick=[dict(kind=k, inst=i) for k in FITS for i in FITS[k]])
def untouched(ctx, kind, inst):
    """transform and undo_transform never modify what they are given, at any
    depth, and may be called again with the same result."""
    T = make(ctx, kind)
    x = build(ctx, inst)
    keep = lib.copy_inst(x)
    parts = containers(x, [])
    out = T.transform(x)
    ctx.check(ctx.same(x, keep), 'transform changed its argument')
    now = containers(x, [])
    ctx.check(len(now) == len(parts) and all(
        a is b for a, b in zip(now, parts)), 'transform exchanged a part of '
        'its argument')
    ctx.check(out is not x, 'transform returns its argument')
    keep_out = lib.copy_inst(out)
    parts = containers(out, [])
    back = T.undo_transform(out)
    ctx.check(ctx.same(out, keep_out), 'undo changed its argument')
    now = containers(out, [])
    ctx.check(len(now) == len(parts) and all(
        a is b for a, b in zip(now, parts)), 'undo exchanged a part of its '
        'argument')
    ctx.check(ctx.same(x, keep), 'undo changed the original')
    ctx.check(back is not out, 'undo returns its argument')
    ctx.check(ctx.same(T.undo_transform(out), back), 'undoing again differs')


PIPES = [(['names', 'flat'], 1), (['tuplizer', 'names'], 3),
         (['names', 'flat', 'sub'], 1),
         (['tuplizer', 'lists', 'names', 'flat', 'sub'], 5),
         (['lists', 'names', 'flat'], 2),
         (['lists', 'names', 'sub'], 0), ([], 1), (['flat'], 1),
         (['variablize', 'names', 'flat', 'sub'], 1),
         (['sanitize', 'lists', 'names', 'flat'], 2)]


@harness(quick=[dict(kinds=k, inst=i) for k, i in PIPES])
def pipelines(ctx, kinds, inst):
    """A pipeline applies its parts in order, undoes them in reverse order,
    leaves its arguments alone; undoing gives back the instance when every
    part can be undone; batches are element by element."""
    P = ctx.m('preprocessor')
    x = build(ctx, inst)
    keep = lib.copy_inst(x)
    log = []

    class Spy(P.Preprocessor):
        def __init__(self, inner, i):
            self.inner, self.i = inner, i

        def transform(self, z):
            log.append((self.i, 't'))
            return self.inner.transform(z)

        def undo_transform(self, z):
            log.append((self.i, 'u'))
            return self.inner.undo_transform(z)

    pipe = P.Pipeline(*[Spy(make(ctx, k), i) for i, k in enumerate(kinds)])
    out = pipe.transform(x)
    ctx.check(log == [(i, 't') for i in range(len(kinds))],
              'parts are not applied once each in order')
    ctx.check(ctx.same(x, keep), 'transform changed its argument')
    del log[:]
    keep_out = lib.copy_inst(out)
    back = pipe.undo_transform(out)
    ctx.check(log == [(i, 'u') for i in reversed(range(len(kinds)))],
              'parts are not undone once each in reverse order')
    ctx.check(ctx.same(out, keep_out), 'undo changed its argument')
    if 'variablize' not in kinds and 'sanitize' not in kinds:
        ctx.check(ctx.same(back, x), 'undo does not give back the instance')
    b = pipe.batch_transform([x, x])
    ctx.check(len(b) == 2, 'batch')
    ctx.check(len(pipe.batch_undo(b)) == 2, 'batch undo')
    ctx.check(ctx.same(x, keep), 'batch changed its argument')


@harness(quick=[dict(kind=k) for k in ('tuplizer', 'names', 'flat', 'lists',
                                       'variablize', 'nominal', 'sanitize',
                                       'pipe')])
def batches(ctx, kind):
    """Larger batches: number and order, each element as if alone."""
    P = ctx.m('preprocessor')
    S = ctx.S
    v = ctx.string('v', 1)
    xs = [{S('a'): S('v%d' % i), S('o'): {S('p'): v}, S('n'): float(i)}
          for i in range(130)]
    xs[7] = {}
    xs[130:] = [{}, {S('a'): 0.0}]
    T = P.Pipeline(P.Tuplizer(), P.Flattener()) if kind == 'pipe' else \
        make(ctx, kind)
    keep = [lib.copy_inst(x) for x in xs]
    out = T.batch_transform(xs)
    ctx.check(len(out) == len(xs), 'a result per instance')
    for x, o in zip(xs, out):
        ctx.check(ctx.same(o, T.transform(x)), 'a batch is not element by '
                  'element')
    back = T.batch_undo(out)
    ctx.check(len(back) == len(xs), 'a result per instance')
    for o, b in zip(out, back):
        ctx.check(ctx.same(b, T.undo_transform(o)), 'a batch is not element '
                  'by element')
    ctx.check(ctx.same(xs, keep), 'batch changed its argument')


@harness()
def abstract(ctx):
    """The base class refuses to transform."""
    P = ctx.m('preprocessor').Preprocessor()
    x = {ctx.S('a'): ctx.string('v', 1)}
    ctx.check(ctx.raises(NotImplementedError, P.transform, x), 'transform')
    ctx.check(ctx.raises(NotImplementedError, P.undo_transform, x), 'undo')
