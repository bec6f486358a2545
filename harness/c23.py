import json
import os

from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['the data files that are part of the repository (the mushroom '
               'file is not); normal draws that the generator rejects are '
               'repeated at most twice']

SETS = {'forest_fires': 'forest_fires.json',
        'congressional_voting': 'congressional_voting.json',
        'iris': 'iris.json', 'rb_com_11': 'rb_com_11_continuous.json',
        'rb_s_07': 'rb_s_07_continuous.json',
        'rb_s_13': 'rb_s_13_continuous.json',
        'rb_wb_03': 'rb_wb_03_continuous.json', 'molecule': 'molecule.json'}


def stored(ctx, name):
    p = os.path.join(os.path.dirname(ctx.m('datasets').__file__),
                     'data_files', SETS[name])
    with open(p) as f:
        return json.load(f)


def loader(ctx, name):
    return getattr(ctx.m('datasets'), 'load_' + name)


@harness(quick=[dict(name=n) for n in sorted(SETS)])
def prefix(ctx, name):
    """For every requested number of instances: exactly that many (all, when
    there are fewer), namely the first ones of the data set, in order."""
    every = stored(ctx, name)
    n = ctx.integer('n', 0, len(every) + 1)
    got = loader(ctx, name)(n)
    ctx.check(isinstance(got, list), 'a list')
    k = len(got)
    ctx.check(got == every[:k], 'not the first instances')
    ctx.check(k == len(every) or ctx.lt(n, k + 1), 'fewer than asked for')
    ctx.check(k == 0 or ctx.lt(k, n + 1), 'more than asked for')


@harness(quick=[dict(name=n) for n in sorted(SETS)])
def fresh(ctx, name):
    """Without a number all instances; every call returns fresh copies, even
    after the caller has modified what an earlier call returned."""
    every = stored(ctx, name)
    f = loader(ctx, name)
    a = f()
    ctx.check(a == every, 'not the whole data set')
    k = ctx.choice('size', [1, 3, 50])
    b = f(k)
    for x in a:
        x.clear()
    del a[:]
    ctx.check(b == every[:k], 'changed with another call\'s result')
    del b[:]
    ctx.check(f(k) == every[:k], 'changed with an earlier result')
    ctx.check(f() == every, 'changed with an earlier result')


@harness(quick=[{}])
def lines(ctx):
    """The human predictions: every row of the file, without line ends."""
    ds = ctx.m('datasets')
    p = os.path.join(os.path.dirname(ds.__file__), 'data_files',
                     'human_s_07_success_predictions.csv')
    with open(p) as f:
        want = f.read().splitlines()
    for _ in range(2):
        got = ds.load_rb_s_07_human_predictions()
        ctx.check(list(got) == want, 'the rows')
        got.pop()


PARTS = ['torso', 'leg1', 'leg2', 'leg3', 'leg4', 'neck', 'head', 'tail']
ATTRS = ['locationX', 'locationY', 'locationZ', 'axisX', 'axisY', 'axisZ',
         'height', 'radius', 'texture']


@harness(quick=[dict(n=n) for n in (0, 1, 2, 7)])
def quadrupeds(ctx, n):
    """The generator: as many animals as asked for, each of a known type with
    the eight parts, each described by nine numbers and its type."""
    S = ctx.S
    ctx.calm_normals()
    ctx.fix_random(n > 2)
    got = ctx.m('datasets').load_quadruped(n)
    ctx.fix_random(False)
    ctx.check(len(got) == n, 'number of animals')
    for i, x in enumerate(got):
        ctx.check(x[S('_type')] in [S(t) for t in ('dog', 'cat', 'horse',
                                                   'giraffe')], 'type')
        ctx.check(len(x) == 9, 'parts')
        for p in PARTS:
            ctx.check(S(p) in x, 'parts')
            d = x[S(p)]
            ctx.check(len(d) == 10 and S('_type') in d, 'description')
            for a in ATTRS:
                ctx.check(S(a) in d and lib.is_real(ctx, d[S(a)]),
                          'description')
            for a in ('height', 'radius', 'texture'):
                ctx.check(ctx.lt(0, d[S(a)]), 'size')
            ctx.check(all(d is not y for z in got[:i] for y in z.values()),
                      'shared parts')


@harness(quick=[dict(lo=lo, hi=hi) for lo, hi in (
    (22.0, 28.0), (0.0, 1.0), (170, 180), (-3, 5))])
def truncated(ctx, lo, hi):
    """The truncated normal keeps within its limits, whatever is drawn."""
    ctx.calm_normals(3)
    x = ctx.m('data_files.generate_quadruped').bellrand(lo, hi)
    ctx.check(ctx.le(lo, x), 'too small')
    ctx.check(ctx.le(x, hi), 'too large')
