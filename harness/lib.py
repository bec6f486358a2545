"""Shared parts of the harnesses: instances, views, tallies, tree shapes."""
LETTERS = ((97, 122),)
NAMECH = ((33, 39), (42, 126))


def value(ctx, kind, name):
    if kind == 'n':                      # nominal, one arbitrary character
        return ctx.string(name, 1, NAMECH)
    if kind == 'e':                      # nominal, empty or one character
        return ctx.string(name, ctx.choice(name + '#len', [1, 0]), NAMECH)
    if kind == 'm':                      # nominal, one or two characters
        return ctx.string(name, ctx.choice(name + '#len', [1, 2]),
                          ((32, 39), (42, 126)))
    if kind == 'o':                      # an unusual nominal value
        return ctx.choice(name, [ctx.S(''), False, ctx.S(' '), ctx.S('0'),
                                 (ctx.S('p'), ctx.S('q')), ctx.S('x')])
    if kind == 'r':                      # numeric
        return ctx.real(name)
    if kind == 'b':                      # Boolean nominal
        return ctx.choice(name, [True, False])
    if kind == 't':
        return True
    if kind == 'x':                      # a fixed nominal
        return ctx.S('x')
    if kind == 'y':
        return ctx.S('y')
    if kind.isupper():                   # a fixed nominal
        return ctx.S(kind)
    if kind.isdigit():                   # a fixed number
        return float(kind)
    raise AssertionError(kind)


def instance(ctx, attrs, kinds, tag):
    """One instance: kinds has one letter per attribute; '-' missing, '?'
    present-or-missing nominal, '!' present-or-missing numeric, others as in
    value()."""
    inst = {}
    for a, k in zip(attrs, kinds):
        nm = '%s.%s' % (tag, a if isinstance(a, str) else '_'.join(
            str(i) for i in a))
        if k == '-':
            continue
        if k == '?':
            if ctx.choice(nm + '#missing', [False, True]):
                continue
            k = 'n'
        elif k == '!':
            if ctx.choice(nm + '#missing', [False, True]):
                continue
            k = 'r'
        inst[ctx.S(a)] = value(ctx, k, nm)
    return inst


def instances(ctx, attrs, shape):
    return [instance(ctx, attrs, k, 'i%d' % i) for i, k in enumerate(shape)]


def fitted(ctx, tree, insts, shape):
    """Fits the instances one by one, yielding (index, instance, concept).
    While a history begins with fixed instances the random draws are fixed
    too; from the first arbitrary one on they are arbitrary."""
    fixed = True
    for k, (i, s) in enumerate(zip(insts, shape)):
        fixed = fixed and all(c.isupper() or c.isdigit() or c == '-'
                              for c in s)
        ctx.fix_random(fixed)
        c = tree.ifit(i)
        ctx.fix_random(False)
        yield k, i, c


def mixed(n, kinds, skip=True):
    """n fixed instances, one letter per attribute ('0': a digit, 'A': a
    letter, 'P': one of many letters, 'Q': few frequent and some rare letters),
    varied enough to grow a deep and wide tree."""
    out = []
    x = 7
    for i in range(n):
        s = ''
        for k in kinds:
            x = (x * 1103515245 + 12345) % 2 ** 31
            r = x >> 16
            if skip and r % 11 == 0:
                s += '-'
            elif k == '0':
                s += '%d' % (r // 11 % 10)
            elif k == 'P':
                s += 'ABCDEFGHIJKLMNOP'[r // 11 % 16]
            elif k == 'Q':
                s += 'AAAAAABBBCCDEFGH'[r // 11 % 16]
            else:
                s += 'ABCD'[r // 11 % 4]
        out.append(s)
    return out


def grow(ctx, kind, attrs, pre, **kw):
    """A larger tree: learned from fixed instances under fixed draws."""
    tree = make_tree(ctx, kind, **kw)
    insts = instances(ctx, attrs, pre)
    ctx.fix_random(True)
    for i in insts:
        tree.ifit(i)
    ctx.fix_random(False)
    return tree, insts


def some_nodes(root, inner=False):
    """Root, a widest, a deepest and some leaf concept of a tree."""
    ns = [n for n in nodes(root) if n.children or not inner]

    def depth(n):
        return 0 if n.parent is None else 1 + depth(n.parent)
    par = [n for n in ns if n.children] or ns
    out = [root, max(par, key=lambda n: len(n.children)),
           max(par, key=depth), max(ns, key=depth)]
    return [n for i, n in enumerate(out)
            if not any(n is m for m in out[:i])]


def make_tree(ctx, kind, **kw):
    if kind == 'cobweb':
        return ctx.m('cobweb').CobwebTree()
    if kind == 'cobweb3':
        return ctx.m('cobweb3').Cobweb3Tree(**kw)
    if kind == 'trestle':
        return ctx.m('trestle').TrestleTree(**kw)
    if kind == 'dummy':
        return ctx.m('dummy').DummyTree()
    raise AssertionError(kind)


def is_cv(x):
    return hasattr(x, 'meanSq')


def cv_tuple(x):
    return ('cv', x.num, x.mean, x.meanSq)


def av_view(node):
    return {a: {v: (cv_tuple(c) if is_cv(c) else c)
                for v, c in vs.items()} for a, vs in node.av_counts.items()}


def view(node):
    """Everything observable about a subtree, with node identities."""
    return dict(id=node.concept_id, obj=node, count=node.count,
                av=av_view(node), children=[view(c) for c in node.children])


def same_view(ctx, a, b, identity=True):
    """Equality of two views taken at different times (bool, forks)."""
    if identity and a['obj'] is not b['obj']:
        return False
    if identity and a['id'] != b['id']:
        return False
    if not ctx.truth(ctx.eq(a['count'], b['count'])):
        return False
    if not ctx.same(a['av'], b['av']):
        return False
    if len(a['children']) != len(b['children']):
        return False
    return all(same_view(ctx, x, y, identity)
               for x, y in zip(a['children'], b['children']))


def nodes(root):
    out = [root]
    for n in out:
        if len(out) > 500:
            raise AssertionError('children do not form a finite tree')
        out.extend(n.children)
    return out


def num_stats(xs):
    n = len(xs)
    m = xs[0]
    for x in xs[1:]:
        m = m + x
    m = m / n if n > 1 else m
    s = 0
    for x in xs:
        s = s + (x - m) * (x - m)
    return n, m, s


def is_real(ctx, v):
    return ctx.is_num(v) and not isinstance(v, bool)


def size(ctx, m, s):
    """The order of magnitude of numbers of that mean and sum of squared
    deviations (only rounding is judged by it, so only concretely)."""
    return 1 if ctx.symbolic else abs(m) + ctx.sqrt(s)


def check_tally(ctx, node, insts, numeric, where):
    """node's knowledge is exactly the tally of insts."""
    ctx.check(ctx.eq(node.count, len(insts)), 'count of ' + where)
    exp = {}
    for i in insts:
        for a, v in i.items():
            exp.setdefault(a, []).append(v)
    got = node.av_counts
    for a in got:
        ctx.check(a in exp, 'attribute never seen appears at ' + where)
    for a, vs in exp.items():
        ctx.check(a in got, 'attribute lost at ' + where)
        nums = [v for v in vs if numeric and is_real(ctx, v)]
        noms = [v for v in vs if not (numeric and is_real(ctx, v))]
        tally = {}
        for v in noms:
            tally[v] = tally.get(v, 0) + 1
        seen = 0
        for k, c in got[a].items():
            if is_cv(c):
                ctx.check(bool(nums), 'numeric summary without numbers at '
                          + where)
                n, m, s = num_stats(nums)
                ctx.check(ctx.eq(c.num, n), 'numeric count at ' + where)
                ctx.check(ctx.eqs(c.mean, m, size(ctx, m, s)),
                          'numeric mean at ' + where)
                ctx.check(ctx.eqs(c.meanSq, s, s + m * m),
                          'numeric spread at ' + where)
                seen += 1
            else:
                ctx.check(k in tally, 'value never seen appears at ' + where)
                ctx.check(ctx.eq(c, tally[k]), 'value count at ' + where)
        ctx.check(len(got[a]) == len(tally) + (1 if nums else 0),
                  'value lost at ' + where)


def under(node, leaf):
    """Is leaf in the subtree of node, following parent pointers."""
    t = leaf
    n = 0
    while t is not None:
        if t is node:
            return True
        t = t.parent
        n += 1
        if n > 500:
            raise AssertionError('parent pointers do not end')
    return False


def check_structure(ctx, tree, where=''):
    """Well-formedness of the hierarchy."""
    root = tree.root
    ctx.check(root.parent is None, 'the root has a parent' + where)
    all_nodes = nodes(root)
    ids = [n.concept_id for n in all_nodes]
    ctx.check(len(set(id(n) for n in all_nodes)) == len(all_nodes),
              'a concept appears twice' + where)
    ctx.check(len(set(ids)) == len(ids), 'concept names collide' + where)
    tables = [id(n.av_counts) for n in all_nodes]
    ctx.check(len(set(tables)) == len(tables), 'shared tables' + where)
    inner = [id(vs) for n in all_nodes for vs in n.av_counts.values()]
    ctx.check(len(set(inner)) == len(inner), 'shared value tables' + where)
    cvs = [id(c) for n in all_nodes for vs in n.av_counts.values()
           for c in vs.values() if is_cv(c)]
    ctx.check(len(set(cvs)) == len(cvs), 'shared numeric summaries' + where)
    lists = [id(n.children) for n in all_nodes]
    ctx.check(len(set(lists)) == len(lists), 'shared child lists' + where)
    for n in all_nodes:
        ctx.check(n.tree is tree, 'concept belongs to another tree' + where)
        ctx.check(len(n.children) != 1, 'single child' + where)
        for c in n.children:
            ctx.check(c.parent is n, 'child points to another parent' + where)
        if len(all_nodes) > 1:
            ctx.check(n.count > 0, 'empty concept' + where)


def check_children_sum(ctx, node, where=''):
    """An inner concept is exactly the sum of its children."""
    for n in nodes(node):
        if not n.children:
            continue
        t = 0
        for c in n.children:
            t = t + c.count
        ctx.check(ctx.eq(n.count, t), 'count is not the sum of the children'
                  + where)
        attrs = []
        for c in n.children:
            for a in c.av_counts:
                if a not in attrs:
                    attrs.append(a)
        for a in n.av_counts:
            ctx.check(a in attrs, 'attribute not present in any child' + where)
        for a in attrs:
            ctx.check(a in n.av_counts, 'attribute of a child is lost' + where)
            noms = {}
            cvs = []
            for c in n.children:
                for k, v in c.av_counts.get(a, {}).items():
                    if is_cv(v):
                        cvs.append(v)
                    else:
                        noms[k] = noms[k] + v if k in noms else v
            got = n.av_counts[a]
            ctx.check(len(got) == len(noms) + (1 if cvs else 0),
                      'values differ from the children' + where)
            for k, v in got.items():
                if is_cv(v):
                    ctx.check(bool(cvs), 'numeric summary from nowhere'
                              + where)
                    n_, m_, s_ = combine([(c.num, c.mean, c.meanSq)
                                          for c in cvs])
                    ctx.check(ctx.eq(v.num, n_), 'numeric count is not the '
                              'sum' + where)
                    ctx.check(ctx.eq(v.mean, m_), 'numeric mean is not the '
                              'pooled mean' + where)
                    ctx.check(ctx.eq(v.meanSq, s_), 'numeric spread is not '
                              'the pooled spread' + where)
                else:
                    ctx.check(k in noms, 'value not in any child' + where)
                    ctx.check(ctx.eq(v, noms[k]), 'value count is not the sum'
                              + where)


def combine(parts):
    """Pooled (num, mean, sum of squared deviations)."""
    n = 0
    s1 = 0
    for a, m, s in parts:
        n = n + a
        s1 = s1 + a * m
    mean = s1 / n
    s2 = 0
    for a, m, s in parts:
        s2 = s2 + s + a * (m - mean) * (m - mean)
    return n, mean, s2


def copy_inst(i):
    if isinstance(i, dict):
        return {k: copy_inst(v) for k, v in i.items()}
    if isinstance(i, list):
        return [copy_inst(v) for v in i]
    return i


# --------------------------------------------------------------- tree shapes
WIDE = [0, 1, 2, 3, 4, 5, 6, 7, 8]
NEST = [[0, 1, 2, 3], [[4, 5, 6], [7, 8]], 9]
DEEP = [[[[0, 1], 2], [3, 4, 5]], [6, 7], 8]
FRAY = [[0, 1, 2, 3, 4], 5, 6, 7, 8, 9, [10, 11]]
BUSH = [[0, 1, 2, 3, 4, 5, 6, 7, 8], [9, 10]]
SIZES = [1, 3, 1, 2, 5, 1, 4, 1, 2, 1, 7, 1, 1, 2, 1, 1, 6, 1, 3, 1, 2, 1]
CHAIN = [0, [1, [2, [3, [4, [5, [6, [7, [8, [9, [10, [11, 12]]]]]]]]]]]]


def leaf_count(shape):
    return 1 if isinstance(shape, int) else sum(map(leaf_count, shape))


def fixed_leaves(shape, kinds):
    return mixed(leaf_count(shape), kinds)


def build_tree(ctx, kind, shape, attrs, leafkinds, counts=2, **kw):
    """A tree of the given shape over groups of equal instances.

    shape: nested lists, an int is a leaf index.  leafkinds[i]: one letter per
    attribute.  Leaf i holds 1..counts (or counts[i]) equal instances.  Built with the node
    operations of the public API (counting an instance, adding a node's
    counts), so that the concepts are what the library itself would store."""
    tree = make_tree(ctx, kind, **kw)
    Node = tree.root.__class__
    leaves = {}

    def leaf(i):
        n = Node()
        n.tree = tree
        inst = instance(ctx, attrs, leafkinds[i], 'L%d' % i)
        if isinstance(counts, list):
            c = counts[i]
        else:
            c = ctx.choice('L%d.count' % i, list(range(1, counts + 1))) \
                if counts > 1 else 1
        for _ in range(c):
            n.increment_counts(inst)
            if kind != 'cobweb':
                tree.update_scales(inst)
        leaves[i] = (n, inst, c)
        return n

    def build(s):
        if isinstance(s, int):
            return leaf(s)
        kids = [build(x) for x in s]
        n = Node()
        n.tree = tree
        for k in kids:
            n.update_counts_from_node(k)
            k.parent = n
            n.children.append(k)
        return n
    tree.root = build(shape)
    tree.root.parent = None
    return tree, leaves


def leaf_instances(leaves):
    return [i for n, i, c in leaves.values() for _ in range(c)]


# ------------------------------------------------- the definitions (oracle)
def c4(ctx, n):
    """Bias correction for the standard deviation of n samples; the library's
    constants are checked against the gamma function by C08."""
    return ctx.m('utils').c4(n)


def ustd(ctx, num, ssq):
    if num < 2:
        return 0
    return ctx.sqrt(ssq / (num - 1)) / c4(ctx, num)


def hidden(a):
    return a[0] == '_'


def table(node):
    """count and value table of a concept, numbers as (n, mean, ssq)."""
    return node.count, {a: {v: ((c.num, c.mean, c.meanSq) if is_cv(c) else c)
                            for v, c in vs.items()}
                        for a, vs in node.av_counts.items()}


def tally(ctx, insts, numeric):
    """The table of a list of instances."""
    av = {}
    for i in insts:
        for a, v in i.items():
            av.setdefault(a, []).append(v)
    out = {}
    for a, vs in av.items():
        d = {}
        nums = [v for v in vs if numeric and is_real(ctx, v)]
        for v in vs:
            if not (numeric and is_real(ctx, v)):
                d[v] = d.get(v, 0) + 1
        if nums:
            d['#num'] = num_stats(nums)
        out[a] = d
    return len(insts), out


def add_table(ctx, t, inst, numeric):
    """A table with one more instance."""
    n, av = t
    av = {a: dict(vs) for a, vs in av.items()}
    for a, v in inst.items():
        d = av.setdefault(a, {})
        if numeric and is_real(ctx, v):
            k = [x for x in d if isinstance(d[x], tuple)]
            if k:
                d[k[0]] = combine([d[k[0]], (1, v, 0)])
            else:
                d['#num'] = (1, v, 0)
        else:
            d[v] = d.get(v, 0) + 1
    return n + 1, av


def sum_tables(ts):
    n = 0
    av = {}
    for c, t in ts:
        n = n + c
        for a, vs in t.items():
            d = av.setdefault(a, {})
            for v, x in vs.items():
                if isinstance(x, tuple):
                    k = [y for y in d if isinstance(d[y], tuple)]
                    if k:
                        d[k[0]] = combine([d[k[0]], x])
                    else:
                        d[v] = x
                else:
                    d[v] = d[v] + x if v in d else x
    return n, av


def guesses(ctx, t, scales):
    """Expected correct guesses, by definition.  scales: attribute -> divisor
    (None: no numeric scaling)."""
    n, av = t
    vis = [a for a in av if not hidden(a)]
    if not vis:
        return 0
    tot = 0
    for a in vis:
        for v, c in av[a].items():
            if isinstance(c, tuple):
                num, m, ssq = c
                sc = scales(a) if scales else 1
                sd = ustd(ctx, num, ssq) / sc
                p = num / n
                tot = tot + p * p / (2 * ctx.sqrt(ctx.pi) * ctx.sqrt(
                    sd * sd + 1 / (4 * ctx.pi)))
            else:
                p = c / n
                tot = tot + p * p
    return tot / len(vis)


def scale_fn(ctx, insts, scaling, inner=True):
    """The divisor of every numeric attribute after seeing insts."""
    if not scaling:
        return None
    vals = {}
    for i in insts:
        for a, v in i.items():
            if is_real(ctx, v):
                k = a[0] if inner and isinstance(a, tuple) else a
                vals.setdefault(k, []).append(v)
    out = {}
    for k, xs in vals.items():
        n, m, s = num_stats(xs)
        sc = ustd(ctx, n, s) / scaling
        out[k] = sc if (ctx.truth(sc > 0) if not isinstance(sc, int)
                        else sc > 0) else 1

    def f(a):
        k = a[0] if inner and isinstance(a, tuple) else a
        return out.get(k, 1)
    return f


def utility(ctx, parent, kids, scales):
    """Category utility of a partition: mean over the children of
    P(child) * guesses(child) - guesses(parent)."""
    if not kids:
        return 0
    t = 0
    for k in kids:
        t = t + k[0] / parent[0] * guesses(ctx, k, scales)
    return (t - guesses(ctx, parent, scales)) / len(kids)


class Ref(object):
    """A concept of the reference model."""

    def __init__(self, t, kids=(), obj=None):
        self.t = t
        self.kids = list(kids)
        self.obj = obj

    @classmethod
    def of(cls, node):
        return cls(table(node), [cls.of(c) for c in node.children], node)


EPS = 1e-9


class Oracle(object):
    """COBWEB as described in the literature, non-deterministic in ties."""

    def __init__(self, ctx, inst, scales, numeric):
        self.ctx = ctx
        self.inst = inst
        self.scales = scales
        self.numeric = numeric

    def add(self, t):
        return add_table(self.ctx, t, self.inst, self.numeric)

    def ge(self, a, b):
        """a >= b up to rounding."""
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a >= b - EPS
        if not self.ctx.symbolic:
            return a >= b - EPS
        return self.ctx.truth(a >= b)

    def cu(self, parent, kids):
        return utility(self.ctx, parent, kids, self.scales)

    def cu_best(self, r, i):
        return self.cu(self.add(r.t), [self.add(k.t) if j == i else k.t
                                       for j, k in enumerate(r.kids)])

    def cu_new(self, r):
        return self.cu(self.add(r.t), [k.t for k in r.kids] +
                       [self.add((0, {}))])

    def cu_merge(self, r, i, j):
        m = self.add(sum_tables([r.kids[i].t, r.kids[j].t]))
        return self.cu(self.add(r.t), [m] + [
            k.t for x, k in enumerate(r.kids) if x not in (i, j)])

    def cu_split(self, r, i):
        kids = [k.t for x, k in enumerate(r.kids) if x != i]
        return self.cu(r.t, kids + [k.t for k in r.kids[i].kids])

    def maxima(self, scored):
        """The entries whose score is maximal (ties included)."""
        out = []
        for s, x in scored:
            if all(self.ge(s, s2) for s2, y in scored if y is not x):
                out.append((s, x))
        return out

    def matches(self, t):
        """Leaf identical to the instance on the visible attributes."""
        n, av = t
        for a in list(self.inst) + [a for a in av if a not in self.inst]:
            if hidden(a):
                continue
            if a not in self.inst or a not in av:
                return False
            v = self.inst[a]
            if self.numeric and is_real(self.ctx, v):
                if len(av[a]) != 1:
                    return False
                c = list(av[a].values())[0]
                if not isinstance(c, tuple):
                    return False
                ctx = self.ctx
                if not (ctx.truth(ctx.eq(c[0], n)) and
                        ctx.truth(ctx.eq(c[2], 0)) and
                        ctx.truth(ctx.eq(c[1], v))):
                    return False
            else:
                if v not in av[a] or isinstance(av[a][v], tuple) or \
                        not self.ctx.truth(self.ctx.eq(av[a][v], n)):
                    return False
        return True

    def outcomes(self, r, fuel=12):
        """All trees (Ref) that incorporating the instance at r may give."""
        if not r.kids:
            if (not self.ctx.truth(r.t[0] > 0)) or self.matches(r.t):
                yield Ref(self.add(r.t), [], r.obj)
            else:
                yield Ref(self.add(r.t), [r, Ref(self.add((0, {})))])
            return
        if fuel == 0:
            raise AssertionError('reference does not terminate')
        n = len(r.kids)
        sc = [(self.cu_best(r, i), i) for i in range(n)]
        for cu1, b1 in self.maxima(sc):
            rest = [(s, i) for s, i in sc if i != b1]
            for _, b2 in (self.maxima(rest) if n > 2 else [(0, None)]):
                ops = [(cu1, 'best'), (self.cu_new(r), 'new')]
                if n > 2:
                    ops.append((self.cu_merge(r, b1, b2), 'merge'))
                if r.kids[b1].kids:
                    ops.append((self.cu_split(r, b1), 'split'))
                for _, op in self.maxima(ops):
                    for o in self.apply(r, op, b1, b2, fuel):
                        yield o

    def apply(self, r, op, b1, b2, fuel):
        others = [k for i, k in enumerate(r.kids) if i != b1]
        if op == 'best':
            for o in self.outcomes(r.kids[b1], fuel - 1):
                yield Ref(self.add(r.t), others + [o], r.obj)
        elif op == 'new':
            yield Ref(self.add(r.t), list(r.kids) + [Ref(self.add((0, {})))],
                      r.obj)
        elif op == 'merge':
            two = [r.kids[b1], r.kids[b2]]
            m = Ref(sum_tables([k.t for k in two]), two)
            others = [k for i, k in enumerate(r.kids) if i not in (b1, b2)]
            for o in self.outcomes(m, fuel - 1):
                yield Ref(self.add(r.t), others + [o], r.obj)
        else:
            s = Ref(r.t, others + r.kids[b1].kids, r.obj)
            for o in self.outcomes(s, fuel - 1):
                yield o

    def agrees(self, ref, node):
        """Does the real subtree have this structure (any child order)?"""
        if ref.obj is not None and ref.obj is not node:
            return False
        if len(ref.kids) != len(node.children):
            return False
        if not self.ctx.truth(self.ctx.eq(ref.t[0], node.count)):
            return False
        if not self.same_table(ref.t[1], table(node)[1]):
            return False
        left = list(node.children)
        # known objects first
        for k in sorted(ref.kids, key=lambda k: k.obj is None):
            hit = None
            for c in left:
                if self.agrees(k, c):
                    hit = c
                    break
            if hit is None:
                return False
            left.remove(hit)
        return True

    def same_table(self, a, b):
        ctx = self.ctx
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or len(a[k]) != len(b[k]):
                return False
            for v, c in a[k].items():
                if isinstance(c, tuple):
                    o = [x for x in b[k].values() if isinstance(x, tuple)]
                    if len(o) != 1 or not all(
                            ctx.truth(ctx.eq(x, y)) for x, y in zip(c, o[0])):
                        return False
                elif v not in b[k] or isinstance(b[k][v], tuple) or \
                        not ctx.truth(ctx.eq(c, b[k][v])):
                    return False
        return True


# ------------------------------------------------- concepts of any size
def sym_leaf(ctx, tree, spec, attrs, tag, numeric=False):
    """A concept summarising arbitrarily many instances.  spec: per attribute
    a string of kinds of the distinct values it holds ('' attribute absent, 'r'
    a number summary with arbitrary mean and spread, otherwise as in value()).
    Counts are arbitrary positive integers, at most the concept's count."""
    n = tree.root.__class__()
    n.tree = tree
    n.count = ctx.integer(tag + '.count', 1)
    for a, ks in zip(attrs, spec):
        if not ks:
            continue
        d = {}
        tot = 0
        for j, k in enumerate(ks):
            nm = '%s.%s%d' % (tag, a, j)
            c = ctx.integer(nm + '.n', 1)
            tot = tot + c
            if k == 'r':
                raise AssertionError('use build_tree for numbers')
            v = value(ctx, k, nm)
            ctx.assume(v not in d)
            d[v] = c
        ctx.assume(tot <= n.count)
        n.av_counts[ctx.S(a)] = d
    return n


def sym_tree(ctx, kind, shape, attrs, specs, **kw):
    """A tree of the given shape whose leaves are sym_leaf concepts and whose
    inner concepts are the sums of their children."""
    tree = make_tree(ctx, kind, **kw)
    Node = tree.root.__class__

    def build(s):
        if isinstance(s, int):
            return sym_leaf(ctx, tree, specs[s], attrs, 'L%d' % s)
        kids = [build(x) for x in s]
        n = Node()
        n.tree = tree
        for k in kids:
            n.count = n.count + k.count
            for a, vs in k.av_counts.items():
                d = n.av_counts.setdefault(a, {})
                for v, c in vs.items():
                    d[v] = d[v] + c if v in d else c
            k.parent = n
            n.children.append(k)
        return n
    tree.root = build(shape)
    return tree


# ------------------------------------------------- sampling, order-agnostic
def eqv(a, b):
    return a is b or (a is not None and b is not None and a == b)


def check_sampler(ctx, draw, dist, what):
    """draw(u) answers with an option when the uniform source yields u.  Each
    option of dist (value, probability > 0, summing to one) is answered on an
    interval of u as long as its probability, in whatever order the options
    are laid out: the order is found by probing the left ends, then an
    arbitrary u is checked against it."""
    left = list(dist)
    lo = 0
    order = []
    for _, p in dist:
        ctx.assume(p >= 1e-6)
    eps = 0 if ctx.symbolic else 1e-8
    while left:
        v = draw(lo + eps)
        hit = [x for x in left if eqv(x[0], v)]
        ctx.check(len(hit) == 1, what + ': the answers do not follow the '
                  'probabilities')
        order.append((v, lo, lo + hit[0][1]))
        lo = lo + hit[0][1]
        left = [x for x in left if x is not hit[0]]
    u = ctx.real('u', 0, 1, hi_open=True)
    v = draw(u)
    for w, a, b in order:
        if eqv(w, v):
            ctx.check(ctx.band(ctx.lez(a, u), ctx.lez(u, b)),
                      what + ': an answer outside its share of the draws')
            return
    ctx.check(False, what + ': an answer without probability')
