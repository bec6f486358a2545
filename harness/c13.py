from itertools import permutations
from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['variable names: ? followed by one or two arbitrary printable '
               'characters; other names fixed']

VAR = ((63, 63),)


def build(ctx, k, n):
    """Instances over the variable names n (possibly equal)."""
    S = ctx.S
    v, w = ctx.string('v', 1), ctx.real('w')
    return [
        lambda: {n[0]: {S('p'): v, n[1]: {S('q'): w}},
                 (S('r'), n[0], n[1]): True, S('c'): v},
        lambda: {n[0]: v, n[1]: {S('q'): w}, S('c'): n[0]},
        lambda: {S('c'): {n[0]: {S('q'): v}}, S('d'): {n[0]: {S('q'): w},
                                                       n[1]: {}},
                 (S('r'), (n[0], S('c')), n[1]): v},
        lambda: {S('l'): [{n[0]: {S('q'): v}}, v, {S('p'): w}],
                 n[1]: [{n[0]: w}]},
        lambda: {(S('r'), n[0], n[1]): v, (S('r'), n[1], n[0]): w,
                 (S('s'), n[2]): True},
        lambda: {n[0]: {S('_h'): v}, (S('_'), (S('p'), n[0])): w,
                 S('_x'): {n[1]: v}},
        lambda: {n[0]: {n[1]: {n[2]: {S('p'): w}}},
                 (S('on'), n[2], (n[1], n[0])): True},
        lambda: {S('c'): v, S('d'): {S('e'): w}, (S('r'), S('c')): True},
        lambda: {n[0]: {n[0]: {n[0]: {n[0]: v, n[1]: w}}}},
        lambda: {n[0]: n[1], n[1]: True, n[2]: False},
        lambda: {},
        lambda: {(S('r'), n[0], S('k'), (S('q'), S('z'), n[1]), n[2]): v,
                 n[0]: {S('p'): {S('q'): {n[2]: {S('s'): w}}}}},
        lambda: {S('l'): [v, {S('p'): {n[0]: {S('q'): v}}},
                          {S('m'): [{n[1]: {S('q'): w}}]}],
                 S('_g'): {n[0]: v}},
        lambda: {S('o'): {(S('r'), n[0], n[1], S('k')): v,
                          n[1]: {S('p'): False}},
                 ((S('r'), n[0]), n[2], n[2], n[1]): S('')},
        lambda: {n[0]: {n[1]: True, S('p'): v}, n[2]: {n[0]: False, S('q'): {
            n[1]: w, n[2]: S('')}}, (S('r'), n[0], n[1], n[2]): True},
        lambda: {S('o'): {n[0]: None, n[1]: 0}, S('l'): [{n[0]: True}, True,
                                                         {n[1]: (v, w)}],
                 n[0]: (n[1], v)},
        lambda: {S('l'): [{n[0]: v}, {n[1]: {n[0]: w}}, {n[0]: {S('p'): v},
                                                        n[1]: w}, {n[1]: v}]},
        lambda: {n[0]: {n[1]: True, n[2]: S('x')}, S('o'): {n[2]: {n[1]: 0}}},
        lambda: {S('a'): {n[0]: v}, S('b'): {n[1]: None}, S('l'): [
            {n[2]: True}, {n[1]: 1.5}]},
        lambda: {S('a'): {(S('r'), n[0], n[1]): True, n[2]: {S('p'): v}},
                 S('l'): [{(S('r'), n[2]): w}, {(n[1], n[0]): S('')}]},
        lambda: {(S('r'), n[0], S('k'), (S('s'), n[1], (n[0], n[1])), S('l'),
                  n[2], (S('t'), (S('u'), (n[2], S('x'))))): v,
                 (n[0], n[1], n[2], n[0], n[1], (n[2],)): w},
        lambda: {(S('r'), n[0], S('?k'), n[1], S('?l'), S('?m')): v,
                 (S('s'), (S('?m'), (S('?n'), n[0])), S('?k')): w},
    ][k]()


LONG = ['?stack-of-blocks-1', '?' + 'x' * 40, '?a b', '?A_very.long(name)',
        '??', '?_h']


def crowd(ctx, n):
    """Many variables, some names beginning with others."""
    S = ctx.S
    v = ctx.string('v', 1)
    out = {S('?x%s' % (i or '')): {S('p'): S('v%d' % i), S('?y%d' % i): {
        S('q'): v}} for i in range(11)}
    for i, a in enumerate(LONG):
        out[S(a)] = {S('p'): S('w%d' % i), S(a + 'x'): {S('q'): v}}
    out[(S('r'),) + tuple(S(a) for a in LONG)] = v
    out[n] = {S('p'): v}
    out[(S('r'), S('?x'), n, S('?x1'))] = v
    out[(S('r'), S('?x10'), (S('s'), S('?y10'), S('?y1')))] = True
    out[S('l')] = [{S('?x1'): {S('p'): v}}, {S('?z'): {n: v}}, v]
    return out


NSHAPES = 22


def variables(x, out):
    """The distinct variable names of an instance."""
    def add(a):
        if isinstance(a, tuple):
            for e in a:
                add(e)
        elif isinstance(a, str) and len(a) > 0 and a[0] == '?':
            if not any(a == o for o in out):
                out.append(a)
    if isinstance(x, dict):
        for a, v in x.items():
            add(a)
            variables(v, out)
    elif isinstance(x, list):
        for e in x:
            variables(e, out)
    return out


def rename(x, m):
    def r(a):
        if isinstance(a, tuple):
            return tuple(r(e) for e in a)
        for o, n in m:
            if isinstance(a, str) and a == o:
                return n
        return a
    if isinstance(x, dict):
        return {r(a): rename(v, m) for a, v in x.items()}
    if isinstance(x, list):
        return [rename(e, m) if isinstance(e, dict) else e for e in x]
    return x


QC = [dict(shape=k) for k in range(NSHAPES)]


@harness(quick=QC)
def renamed(ctx, shape):
    """Every variable is replaced by one new name wherever it occurs (nested
    objects, lists, relations), different variables by different names,
    nothing else changes; undoing gives back the instance."""
    names = [ctx.string('n%d' % i, ctx.choice('len%d' % i, [2, 1] if i == 0
                                              else [2, 3]),
                        lib.NAMECH, first=VAR) for i in range(
            3 if shape in (4, 6, 9, 11, 13, 14, 17, 18, 19, 20) else 2)]
    inst = build(ctx, shape, names)
    keep = lib.copy_inst(inst)
    made = []

    def gensym():
        made.append(ctx.S('?new%d' % len(made)))
        return made[-1]
    N = ctx.m('preprocessor').NameStandardizer(gensym)
    out = N.transform(inst)
    vs = variables(inst, [])
    ctx.check(len(made) == len(vs), 'number of new names')
    ok = any(ctx.same(out, rename(inst, list(zip(vs, p))))
             for p in permutations(made))
    ctx.check(ok, 'not a consistent one-to-one renaming')
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    keep_out = lib.copy_inst(out)
    back = N.undo_transform(out)
    ctx.check(ctx.same(back, inst), 'undo does not give back the instance')
    ctx.check(ctx.same(out, keep_out), 'undo changed its argument')


@harness(quick=[dict(own=True), dict(own=False)])
def many(ctx, own):
    """The same with many variables, with a generator of one's own or the
    default one."""
    n = ctx.string('n', ctx.choice('len', [2, 3]), lib.NAMECH, first=VAR)
    inst = crowd(ctx, n)
    keep = lib.copy_inst(inst)
    made = []

    def gensym():
        made.append(ctx.S('?x%d' % (len(made) + 100)))
        return made[-1]
    P = ctx.m('preprocessor')
    N = P.NameStandardizer(gensym) if own else P.NameStandardizer()
    for _ in range(2):
        out = N.transform(inst)
        vs, ws = variables(inst, []), variables(out, [])
        ctx.check(len(ws) == len(vs), 'number of new names')

        # which name became which: by the places of the values
        m = matching(ctx, inst, out)
        ctx.check(m is not None and ctx.same(out, rename(inst, m)),
                  'not a consistent one-to-one renaming')
        ctx.check(not any(a == b for i, (_, a) in enumerate(m)
                          for _, b in m[:i]), 'two variables, one name')
        ctx.check(ctx.same(inst, keep), 'the instance changed')
        ctx.check(ctx.same(N.undo_transform(out), inst),
                  'undo does not give back the instance')
    if own:
        ctx.check(len(made) == 2 * len(vs), 'number of new names')


def matching(ctx, inst, out):
    """The renaming, read off the objects told apart by their values."""
    S = ctx.S
    m = []

    def note(a, b):
        if not any(a == x for x, _ in m):
            m.append((a, b))
    for a, v in inst.items():
        if isinstance(a, str) and isinstance(v, dict) and len(v) == 2:
            hit = [b for b, w in out.items() if isinstance(w, dict) and
                   len(w) == 2 and ctx.same(w.get(S('p')), v[S('p')])]
            if len(hit) != 1:
                return None
            note(a, hit[0])
            ia = [x for x in v if not (x == S('p'))][0]
            ib = [x for x in out[hit[0]] if not (x == S('p'))]
            if len(ib) != 1:
                return None
            note(ia, ib[0])
    for a in variables(inst, []):
        if not any(a == x for x, _ in m):
            rest = [b for b in variables(out, []) if not any(
                b == y for _, y in m)]
            note(a, None) if len(rest) == 0 else m.append((a, rest[0]))
    if len(m) > 1 and not ctx.same(out, rename(inst, m)):
        # the last two may be the other way round
        m[-1], m[-2] = (m[-1][0], m[-2][1]), (m[-2][0], m[-1][1])
    return m


@harness(quick=[dict(shape=k) for k in (0, 2, 4, 6)])
def apart(ctx, shape):
    """Without a generator of one's own: names are fresh in every transform,
    also across preprocessors and when the instance already uses such names
    elsewhere; undo belongs to the last transform."""
    P = ctx.m('preprocessor')
    names = [ctx.S('?a'), ctx.string('n', 2, lib.NAMECH, first=VAR),
             ctx.S('?c')]
    inst = build(ctx, shape, names)
    A, B = P.NameStandardizer(), P.NameStandardizer()
    ctx.check(ctx.raises(Exception, A.undo_transform, inst),
              'undo before transform')
    o1, o2 = A.transform(inst), B.transform(inst)
    o3 = A.transform(o1)
    s = [variables(o, []) for o in (o1, o2, o3)]
    n = len(variables(inst, []))
    for i, x in enumerate(s):
        ctx.check(len(x) == n, 'names collide')
        for y in s[:i]:
            ctx.check(not any(a == b for a in x for b in y),
                      'a name is used for two instances')
    ctx.check(ctx.same(B.undo_transform(o2), inst), 'undo')
    ctx.check(ctx.same(A.undo_transform(o3), o1), 'undo of the last')
    plain = {ctx.S('c'): ctx.string('v2', 1)}
    other = ctx.choice('then', [None, ctx.S('?b')])
    if other is not None:
        plain[other] = True
    o4 = A.transform(plain)
    ctx.check(ctx.same(A.undo_transform(o4), plain), 'undo of the last')
    for o in (o1, o3):
        ctx.check(ctx.same(A.undo_transform(o), o),
                  'undo touches names the last transform did not make')


@harness()
def batch(ctx):
    """Batches keep number and order."""
    P = ctx.m('preprocessor')
    N = P.NameStandardizer()
    names = [ctx.string('n%d' % i, 2, lib.NAMECH, first=VAR)
             for i in range(2)]
    insts = [{names[0]: {ctx.S('p'): ctx.S('x')}},
             {names[1]: {ctx.S('p'): ctx.S('y')}}, {ctx.S('c'): ctx.S('z')}]
    out = N.batch_transform(insts)
    ctx.check(len(out) == 3, 'number')
    vs = [list(list(o.values())[0].values())[0] if isinstance(
        list(o.values())[0], dict) else list(o.values())[0] for o in out]
    ctx.check(ctx.same(vs, [ctx.S('x'), ctx.S('y'), ctx.S('z')]), 'order')


@harness()
def components(ctx):
    """The variables of an attribute are the names starting with ? at any
    depth of it; with all components asked for, also the other visible names
    and the visible attribute itself."""
    P = ctx.m('preprocessor')
    x = ctx.string('x', 2, lib.NAMECH)
    y = ctx.string('y', 2, lib.NAMECH)
    k = ctx.choice('k', 5)
    attr = [lambda: x, lambda: (x, y), lambda: (ctx.S('r'), (x, y)),
            lambda: (ctx.S('_'), (x, ctx.S('o'))),
            lambda: (ctx.S('r'), x, (ctx.S('b'), (y, x)))][k]()
    got = P.get_attribute_components(attr)
    exp = variables({attr: 0}, [])
    ctx.check(len(got) == len(exp) and all(any(g == e for e in exp)
                                           for g in got), 'variables of an '
              'attribute')
