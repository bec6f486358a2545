import json
import os
import shutil
import tempfile
import webbrowser

from symex.runner_api import registry
from . import lib
from .c03 import frozen, unchanged

HARNESSES, harness = registry()

ASSUMPTIONS = ['attributes and values that print alike (the number 1 and the '
               'text 1) are not told apart by the export; the default target '
               'directory inside the package is not written to; opening the '
               'browser is a stand-in']


def shown(ctx, v):
    return ctx.S(str(v)) if not isinstance(v, str) else v


def expected(ctx, n):
    """The exported form of a concept, by definition."""
    counts = {}
    for a, vs in n.av_counts.items():
        d = {}
        for v, c in vs.items():
            if lib.is_cv(c):
                d[v] = {ctx.S('mean'): c.unbiased_mean(),
                        ctx.S('std'): c.unbiased_std(), ctx.S('n'): c.num}
            else:
                d[shown(ctx, v)] = c
        counts[ctx.S(str(a)) if isinstance(a, tuple) else a] = d
    return {ctx.S('name'): ctx.S('Concept%s' % n.concept_id),
            ctx.S('size'): n.count, ctx.S('counts'): counts,
            ctx.S('children'): [expected(ctx, c) for c in n.children]}


def agree(ctx, got, want, what):
    S = ctx.S
    for k in ('name', 'size', 'counts', 'children'):
        ctx.check(S(k) in got, what + ': ' + k + ' is missing')
    for k in got:
        ctx.check(k in want or k == S('guid'), what + ': something else')
    ctx.check(ctx.same(got[S('name')], want[S('name')]), what + ': name')
    ctx.check(ctx.eq(got[S('size')], want[S('size')]), what + ': size')
    ctx.check(ctx.same(got[S('counts')], want[S('counts')]),
              what + ': counts')
    a, b = got[S('children')], want[S('children')]
    ctx.check(len(a) == len(b), what + ': children')
    left = list(b)
    for x in a:
        hit = [y for y in left if ctx.same(y[S('name')], x[S('name')])]
        ctx.check(len(hit) == 1, what + ': children')
        left = [y for y in left if y is not hit[0]]
        agree(ctx, x, hit[0], what)


EXPORT = [
    dict(kind='cobweb', shape=[[0, 1], 2], attrs=['a', '_h'],
         leaves=['nn', 'nA', 'BB']),
    dict(kind='cobweb', shape=[0, 1], attrs=['a', ('r', 'x')],
         leaves=['tn', '3n']),
    dict(kind='cobweb3', shape=[[0, 1], 2], attrs=['a', 'b'],
         leaves=['nr', 'rA', 'B1']),
    dict(kind='cobweb3', shape=[0, 1], attrs=['a', '_h'],
         leaves=['rr', 'nr']),
    dict(kind='cobweb', shape=0, attrs=['a'], leaves=['n']),
    dict(kind='cobweb', shape=[0, 1], attrs=['a'], leaves=['m', 'm']),
    dict(kind='cobweb3', shape=[0, 1], attrs=['a'], leaves=['m', 'm']),
    dict(kind='cobweb', shape=[0, 1], attrs=['a', 'b'], leaves=['o-', 'mo']),
    dict(kind='cobweb3', shape=[0, 1], attrs=['a', 'b'],
         leaves=['o-', '0o']),
    dict(kind='cobweb3', shape=0, attrs=['a'], leaves=['r']),
    dict(kind='cobweb', shape=list(range(17)) + [[17, 18]], attrs=['a', 'b'],
         leaves=lib.mixed(18, 'PA') + ['nn'], counts=1),
    dict(kind='cobweb3', shape=list(range(17)) + [[17, 18]], attrs=['a', 'b'],
         leaves=lib.mixed(18, 'P0') + ['n3'], counts=1),
    dict(kind='cobweb', shape=[0, 1], attrs=['long' * 20 + 'a', 'long' * 20],
         leaves=['nA', 'B-']),
    dict(kind='cobweb3', shape=[0, 1], attrs=['long' * 20 + '1', (
        'long' * 10, ('long' * 10, '?o' + '1' * 30)), (
            'long' * 10, ('long' * 10, '?o' + '1' * 31))],
         leaves=['1nA', 'B-1']),
]


@harness(quick=EXPORT)
def export(ctx, kind, shape, attrs, leaves, counts=None):
    """output_json holds the whole hierarchy: every concept once, with its
    name, its size, its children and every count (hidden attributes too);
    numbers as mean, deviation and count."""
    tree, ls = lib.build_tree(ctx, kind, shape, attrs, leaves,
                              counts=counts or (
                                  1 if isinstance(shape, int) else 2))
    f = frozen(ctx, tree)
    got = tree.root.output_json()
    unchanged(ctx, tree, f, 'the export')
    agree(ctx, got, expected(ctx, tree.root), 'export')


@harness(quick=[
    dict(kind='cobweb', attrs=['a', 'b', '_h'], pre=lib.mixed(18, 'AAA')),
    dict(kind='cobweb3', attrs=['a', 'b', '_h'], pre=lib.mixed(14, 'A00')),
    dict(kind='trestle', attrs=['a', 'b'], pre=lib.mixed(8, 'A0'))])
def grown(ctx, kind, attrs, pre):
    """The same for a larger tree, and one more arbitrary instance."""
    tree, _ = lib.grow(ctx, kind, attrs, pre)
    tree.root.increment_counts(lib.instance(ctx, attrs, 'n' * len(attrs),
                                            'new'))
    f = frozen(ctx, tree)
    got = tree.root.output_json()
    unchanged(ctx, tree, f, 'the export')
    agree(ctx, got, expected(ctx, tree.root), 'export')


@harness(quick=[dict(kind=k, shape=s) for k in ('cobweb3', 'trestle')
                for s in (['nn'], ['nr', 'nn'], ['A1', 'r!'])])
def learned(ctx, kind, shape):
    """The export of what was learned; an instance's _guid identifies it."""
    S = ctx.S
    tree = lib.make_tree(ctx, kind)
    g = ctx.choice('guid', [True, False])
    for i, k in enumerate(shape):
        inst = lib.instance(ctx, ['a', 'b'], k, 'i%d' % i)
        if g:
            inst[S('_guid')] = S('id%d' % i)
        c = tree.ifit(inst)
        if g:
            j = c.output_json()
            ids = list(c.av_counts[S('_guid')])
            ctx.check(S('guid') in j and j[S('guid')] in ids, 'guid')
    agree(ctx, tree.root.output_json(), expected(ctx, tree.root), 'export')


@harness(quick=[dict(kind=k) for k in ('cobweb', 'cobweb3')])
def printed(ctx, kind):
    """Printing a tree: one line per concept in depth-first order, indented by
    depth, naming every attribute and value."""
    kinds = ['nA', 'Bn', 'CC'] if kind == 'cobweb' else ['n1', 'B2', '3C']
    tree, ls = lib.build_tree(ctx, kind, [[0, 1], 2], ['a', 'b'], kinds, 1)
    text = tree.root.pretty_print()
    lines = [l for l in text.split(ctx.S('\n')) if len(l)]
    order = []

    def walk(n, d):
        order.append((n, d))
        for c in n.children:
            walk(c, d + 1)
    walk(tree.root, 0)
    ctx.check(len(lines) == len(order), 'one line per concept')
    for l, (n, d) in zip(lines, order):
        ctx.check(l[:d] == ctx.S('\t' * d) and not (l[d] == ctx.S('\t')),
                  'indentation')
        for a, vs in n.av_counts.items():
            ctx.check(ctx.S("'") + a + ctx.S("'") in l, 'attribute not shown')
            for v in vs:
                ctx.check(ctx.S("'") + v + ctx.S("'") in l, 'value not shown')


FILES = ['viz.html', 'viz_logic.js', 'viz_styling.css']


class Scratch(object):
    """A scratch directory and a browser that only takes notes."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-viz-')
        self.opened = []
        self.keep = (webbrowser.open, webbrowser.open_new,
                     webbrowser.open_new_tab)

        def op(url, *a, **k):
            self.opened.append(url)
            return True
        webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = op
        return self

    def __exit__(self, *a):
        (webbrowser.open, webbrowser.open_new,
         webbrowser.open_new_tab) = self.keep
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def read(self, name):
        with open(os.path.join(self.dir, name), encoding='utf-8') as f:
            return f.read()

    def put(self, name, text):
        with open(os.path.join(self.dir, name), 'w') as f:
            f.write(text)


def again(ctx, x):
    """Text that went through a file, back in the checker's form."""
    if isinstance(x, str):
        return ctx.S(x)
    if isinstance(x, dict):
        return {again(ctx, k): again(ctx, v) for k, v in x.items()}
    if isinstance(x, list):
        return [again(ctx, v) for v in x]
    return x


def written(ctx, s):
    text = s.read('output.js')
    ctx.check('trestle_output' in text, 'output.js')
    ob, end = json.JSONDecoder().raw_decode(text[text.index('{', text.index(
        'trestle_output')):])
    return again(ctx, ob)


def cut_leaves(ctx, j):
    S = ctx.S
    out = dict(j)
    out[S('children')] = [cut_leaves(ctx, c) for c in j[S('children')]
                          if c[S('children')]]
    return out


def cut_at(ctx, j, names):
    S = ctx.S
    out = dict(j)
    out[S('children')] = [] if j[S('name')] in names else [
        cut_at(ctx, c, names) for c in j[S('children')]]
    return out


LARGE = [[0, 1, 2], [[3, 4], [5, 6, 7]], 8, [9, 10, 11, 12, 13],
         [[[14, 15], 16], [17, 18, 19]], [20, 21]]
VIZ = [
    dict(kind='cobweb', shape=[[0, [1, 2]], 3], attrs=['a', '_h'],
         leaves=['nn', 'AA', 'Bn', 'CC']),
    dict(kind='cobweb3', shape=[[0, 1], [2, 3]], attrs=['a', 'b'],
         leaves=['1n', '2A', '4B', 'CA']),
    dict(kind='cobweb', shape=0, attrs=['a'], leaves=['n']),
    # many concepts: names of one and of two digits
    dict(kind='cobweb', shape=LARGE, attrs=['a', 'b'],
         leaves=['nA'] + lib.mixed(22, 'QA')[1:], one=True),
]


def pages(ctx, s, old, recreate):
    src = os.path.join(os.path.dirname(ctx.m('visualize').__file__),
                       'visualization_files')
    for n in FILES:
        if old and not recreate:
            if n == 'viz.html':
                ctx.check(s.read(n) == 'mine', 'an existing page was replaced')
            continue
        with open(os.path.join(src, n), encoding='utf-8') as f:
            ctx.check(s.read(n) == f.read(), 'the page files')
    ctx.check(len(s.opened) == 1 and 'viz.html' in s.opened[0] and
              os.path.realpath(s.dir) in s.opened[0], 'the page is opened')


@harness(quick=VIZ)
def visualized(ctx, kind, shape, attrs, leaves, one=False):
    """visualize writes the whole hierarchy next to the page;
    visualize_no_leaves the hierarchy without its leaves, once per cut;
    visualize_clusters the hierarchy down to the given concepts, given as
    concepts or as labels.  An existing page is kept on request."""
    with Scratch() as s:
        vz = ctx.m('visualize')
        tree, ls = lib.build_tree(ctx, kind, shape, attrs, leaves, 1)
        f = frozen(ctx, tree)
        want = expected(ctx, tree.root)
        dst = ctx.S(s.dir)
        what = ctx.choice('what', 3)
        old = ctx.choice('old', [True, False]) if what == 0 else False
        if old:
            s.put('viz.html', 'mine')
        re = ctx.choice('recreate', [True, False]) if what == 0 else what == 1
        if what == 0:
            vz.visualize(tree, dst, re)
        elif what == 1:
            cuts = ctx.choice('cuts', [0, 1, 2, 3])
            vz.visualize_no_leaves(tree, cuts, dst, re)
            for _ in range(cuts):
                want = cut_leaves(ctx, want)
        else:
            ns = lib.nodes(tree.root)
            pick = [ns[ctx.choice('pick', len(ns))],
                    ns[ctx.choice('other', len(ns))]] if not one else [
                        ns[ctx.choice('pick', len(ns))]]
            labels = ctx.choice('labels', [True, False])
            names = [ctx.S('Concept%s' % n.concept_id) for n in pick]
            vz.visualize_clusters(tree, names if labels else pick, dst, re)
            want = cut_at(ctx, want, names)
        agree(ctx, written(ctx, s), want, 'page')
        pages(ctx, s, old, re)
        unchanged(ctx, tree, f, 'the export')
