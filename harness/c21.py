from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged

HARNESSES, harness = registry()

ASSUMPTIONS = ['target values are nominal, numeric or missing (component '
               'targets are refused by the library); error of a number where '
               'the prediction is missing raises by design']

KINDS = ['cobweb', 'cobweb3', 'trestle']


def pretrained(ctx, kind, n=3):
    S = ctx.S
    t = lib.make_tree(ctx, kind)
    ctx.fix_random(True)
    data = [{S('a'): S('x'), S('b'): S('u')}, {S('a'): S('y'), S('b'): S('v')},
            {S('a'): S('x'), S('b'): S('v'), S('c'): S('w')}]
    if kind != 'cobweb':
        data = [{S('a'): S('x'), S('b'): 1}, {S('a'): S('y'), S('b'): 4},
                {S('a'): S('x'), S('b'): 1, S('c'): S('w')}]
    for i in data[:n]:
        t.ifit(i)
    ctx.fix_random(False)
    return t


def without(ctx, inst, attr):
    return {a: v for a, v in inst.items() if not (a == attr)}


@harness(quick=[dict(kind=k, target=t, vk=v) for k in KINDS
                for t in 'abz' for v in ('n', '-')] + [
    dict(kind=k, target=t, vk='r') for k in KINDS[1:] for t in 'ab'])
def scores(ctx, kind, target, vk):
    """Every score judges the concept that the instance without the target
    attribute belongs to: the answer never depends on the value the instance
    itself has for it.  Neither tree nor instance change."""
    ev = ctx.m('evaluation')
    S = ctx.S
    tree = pretrained(ctx, kind, 1 + 2 * ctx.choice('grown', 2))
    attr = S(target)
    inst = {S('a'): ctx.string('ia', 1), S('b'): lib.value(
        ctx, 'n' if kind == 'cobweb' else 'r', 'ib')}
    if ctx.choice('own', [True, False]):
        inst[attr] = (ctx.string('it', 1) if vk != '-' else
                      lib.value(ctx, 'o', 'it'))
    val = None if vk == '-' else lib.value(ctx, vk, 'val')
    keep = lib.copy_inst(inst)
    f = frozen(ctx, tree)
    which = ctx.choice('score', 4)
    fn = [ev.probability, ev.error, ev.absolute_error, ev.squared_error][which]
    m = ctx.mark()
    try:
        got = fn(tree, inst, attr, val)
    except Exception as e:
        if e.__class__ not in (Exception, TypeError):
            raise
        got = 'refused'
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    unchanged(ctx, tree, f, 'scoring')
    ctx.rewind(m)
    concept = tree.categorize(without(ctx, inst, attr))
    if which == 0:
        ctx.check(got != 'refused' if isinstance(got, str) else True,
                  'no probability')
        ctx.check(ctx.close(got, concept.probability(attr, val)),
                  'not the probability in the concept')
        return
    pred = concept.predict(attr)
    num = lib.is_real(ctx, pred) if pred is not None else False
    if vk == 'r' and pred is None or vk == '-' and num:
        ctx.check(isinstance(got, str), 'no answer is defined')
        return
    if vk == 'r' and not num:
        return
    ctx.check(not isinstance(got, str), 'no error')
    if vk == 'r':
        want = val - pred
    elif vk == '-':
        want = 0 if pred is None else 1
    else:
        want = 0 if isinstance(pred, str) and pred == val else 1
    if which == 1:
        ctx.check(ctx.close(got, want), 'error')
    elif which == 2:
        ctx.check(ctx.close(got, want if ctx.truth(want >= 0) else -want),
                  'absolute error')
    else:
        ctx.check(ctx.close(got, want * want), 'squared error')


@harness(quick=[dict(kind=k, num=n) for k in KINDS[:2] for n in (False, True)
                if not (n and k == 'cobweb')])
def relation(ctx, kind, num):
    """The target may be a relation: its own value must not matter either."""
    ev = ctx.m('evaluation')
    S = ctx.S
    t = (S('r'), S('o'), S('k'))
    tree = lib.make_tree(ctx, kind)
    ctx.fix_random(True)
    for i in range(5):
        tree.ifit({S('a'): S('xyxzx'[i]), t: float(i % 3) if num else S(
            'uvuwv'[i]), S('b'): S('ppqqp'[i])})
    ctx.fix_random(False)
    inst = {S('a'): ctx.string('ia', 1), S('b'): S('p'),
            t: lib.value(ctx, 'n', 'own')}
    val = lib.value(ctx, 'r' if num else 'n', 'val')
    keep = lib.copy_inst(inst)
    m = ctx.mark()
    which = ctx.choice('score', 2)
    got = [ev.probability, ev.error][which](tree, inst, t, val)
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    ctx.rewind(m)
    concept = tree.categorize(without(ctx, inst, t))
    if which == 0:
        want = concept.probability(t, val)
    else:
        p = concept.predict(t)
        want = val - p if num else 0 if ctx.same(val, p) else 1
    ctx.check(ctx.close(got, want), 'depends on the own value of the target')


LOOK = [(1.0, '1.0'), (True, 'True'), ('', None), ('0', False),
        (('x',), "('x',)"), (0.0, False), ('None', None)]


@harness(quick=[dict(k=k, kind='cobweb' if k in (1, 4) else 'cobweb3')
                for k in range(len(LOOK))])
def alike(ctx, k, kind):
    """Values that only look alike are different values: predicting one of
    them when the other is true is an error."""
    ev = ctx.m('evaluation')
    S = ctx.S
    a, b = [S(x) if isinstance(x, (str, tuple)) else x for x in LOOK[k]]
    if ctx.choice('swap', [False, True]):
        a, b = b, a
    tree = lib.make_tree(ctx, kind)
    v = ctx.string('v', 1)
    ctx.fix_random(True)
    for i in range(2):
        d = {S('a'): v}
        if a is not None:
            d[S('t')] = a
        tree.ifit(d)
    ctx.fix_random(False)
    fn = [ev.error, ev.absolute_error, ev.squared_error][
        ctx.choice('score', 3)]
    inst = {S('a'): v}
    if not lib.is_real(ctx, a) and not (a is None and k == 2):
        ctx.check(ctx.eq(fn(tree, inst, S('t'), a), 0), 'the right value')
    if lib.is_real(ctx, b) or lib.is_real(ctx, a) and b is None:
        return
    if lib.is_real(ctx, a) and b is False:
        return
    ctx.check(ctx.eq(fn(tree, inst, S('t'), b), 1), 'another value')
    ctx.check(ctx.eq(ev.probability(tree, inst, S('t'), b), 0),
              'probability of another value')


class Recorder(object):
    """A scoring function that notes what it is asked."""

    def __init__(self):
        self.calls = []

    def __call__(self, tree, instance, attr, val):
        self.calls.append((instance, val, tree.root.count,
                           lib.av_view(tree.root)))
        return len(self.calls)


@harness(quick=[dict(kind=k, n=n) for k in KINDS for n in (1, 2, 3)] + [
    dict(kind='cobweb', n=9), dict(kind='cobweb3', n=6)] + [
    dict(kind=k, n=2, odd='o') for k in KINDS])
def protocol(ctx, kind, n, odd='n'):
    """incremental_evaluation: each run starts from an empty tree and goes
    through min(run_length, all) of the instances, each exactly once; an
    instance is scored against its own target value after the instances before
    it and before it is learned.  The first run keeps the order unless asked
    to shuffle."""
    ev = ctx.m('evaluation')
    S = ctx.S
    tree = pretrained(ctx, kind, 2 * ctx.choice('dirty', 2))
    insts = []
    for i in range(n):
        many = n > 3 and i != n - 2
        d = {S('a'): S('ABC'[i % 3]) if many else ctx.string('v%d' % i, 1),
             S('_id'): S('no%d' % i)}
        if i % 4 != 1:
            d[S('t')] = S('XY'[i % 2]) if many else \
                lib.value(ctx, odd if i == 0 else 'n', 't%d' % i)
        insts.append(d)
    mine = list(insts)
    keep = [lib.copy_inst(i) for i in insts]
    runs = ctx.choice('runs', [1, 2] if n != 3 else [1, 2, 5])
    length = ctx.choice('length', [1] if runs > 2 else [0, 1, 2, 5] if n < 4
                        else [n - 1, n])
    first = ctx.choice('first', [True, False])
    rec = Recorder()
    ctx.fix_random(n > 3 or runs > 2)
    out = ev.incremental_evaluation(tree, insts, S('t'), length, runs, rec,
                                    first)
    ctx.fix_random(False)
    use = min(length, n)
    ctx.check(len(out) == runs, 'one row per run')
    ctx.check(all(len(r) == use for r in out), 'one score per instance')
    ctx.check(len(rec.calls) == runs * use, 'one score per instance')
    k = 0
    for r in range(runs):
        seen = []
        for j in range(use):
            inst, val, cnt, av = rec.calls[k]
            ctx.check(out[r][j] == k + 1, 'scores in another order')
            k += 1
            own = [i for i, x in enumerate(mine)
                   if x[S('_id')] == inst.get(S('_id'))]
            ctx.check(len(own) == 1, 'scored something else')
            ctx.check(own[0] not in seen, 'an instance twice in a run')
            ctx.check(not (r == 0 and not first) or own[0] == j,
                      'the first run is not in order')
            want = keep[own[0]].get(S('t'))
            ctx.check(ctx.same(val, want), 'another target value')
            ctx.check(ctx.eq(cnt, j), 'scored at the wrong time')
            t = {}
            for i in seen:
                for a, v in keep[i].items():
                    d = t.setdefault(a, {})
                    d[v] = d[v] + 1 if v in d else 1
            ctx.check(ctx.same({a: dict(v) for a, v in av.items()}, t),
                      'scored against another tree')
            seen.append(own[0])
    ctx.check(len(insts) == n and all(x is y for x, y in zip(insts, mine)),
              'the list of instances changed')
    for x, y in zip(mine, keep):
        ctx.check(ctx.same(x, y), 'an instance changed')
    ctx.check(ctx.eq(tree.root.count, use), 'the tree after the last run')
    lib.check_structure(ctx, tree)


@harness(quick=[dict(kind=k, n=n, miss=m) for k in KINDS for n in (2,)
                for m in (None, 0)] + [dict(kind='cobweb', n=3, miss=None)])
def default_score(ctx, kind, n, miss):
    """Without a scoring function the probability of the target value is
    reported, whether or not the first instances have one."""
    ev = ctx.m('evaluation')
    S = ctx.S
    t1, t2 = lib.make_tree(ctx, kind), lib.make_tree(ctx, kind)
    insts = []
    for i in range(n):
        d = {S('a'): ctx.string('v%d' % i, 1)}
        if i != miss:
            d[S('t')] = ctx.string('t%d' % i, 1)
        insts.append(d)
    m = ctx.mark()
    out = ev.incremental_evaluation(t1, insts, S('t'), n,
                                    randomize_first=False)
    ctx.rewind(m)
    ctx.check(len(out) == 1 and len(out[0]) == n, 'shape of the table')
    for i, d in enumerate(insts):
        c = t2.categorize(without(ctx, d, S('t')))
        p = c.probability(S('t'), d.get(S('t')))
        ctx.check(ctx.close(out[0][i], p), 'score')
        ctx.check(ctx.band(ctx.le(0, out[0][i]), ctx.le(out[0][i], 1)),
                  'no probability')
        t2.ifit(d)
