from symex.runner_api import registry
from . import lib

HARNESSES, harness = registry()

ASSUMPTIONS = ['converted names do not collide with names already there; '
               'relations stand at the top level and are not named like an '
               'object; the numbers written as text are a fixed list']


# ------------------------------------------------------- ObjectVariablizer
def variablized(ctx, x, targets, m):
    out = {}
    rels = []
    for a, v in x.items():
        if isinstance(a, tuple):
            rels.append(a)
        elif isinstance(v, dict) and (targets is None or
                                      any(a == t for t in targets)):
            n = a if a[0] == '?' else ctx.S('?') + a
            m.append((a, n))
            out[n] = variablized(ctx, v, targets, m)
        else:
            out[a] = v

    def r(e):
        if isinstance(e, tuple):
            return tuple(r(y) for y in e)
        for o, n in m:
            if e == o:
                return n
        return e
    for a in rels:
        out[r(a)] = x[a]
    return out


@harness(quick=[dict(targets=None), dict(targets=1), dict(targets=2),
                dict(targets='none')])
def objects(ctx, targets):
    """Exactly the objects asked for (all of them by default), at any depth,
    get variable names; relations mention them by the new name; everything
    else stays; undo hands back a copy."""
    P = ctx.m('preprocessor')
    S = ctx.S
    n = [ctx.string('n%d' % i, 2, lib.NAMECH) for i in range(3)]
    for i, a in enumerate(n):
        ctx.assume(a[0] != '_')
        for b in n[:i]:
            ctx.assume(a != b)
    v, w = ctx.string('v', 1), ctx.real('w')
    inst = {n[0]: {S('p'): v, n[1]: {S('q'): w}}, n[2]: [
        v, {S('q'): w}, {S('_h'): v}][ctx.choice('val', 3)],
        S('c'): w, S('_x'): v}
    k = ctx.choice('rel', 4)
    if k == 1:
        inst[(S('rel'), n[0], n[2])] = True
    elif k == 2:
        inst[(S('rel'), (n[1], n[0]), S('k'), n[2])] = v
    elif k == 3:
        inst[(S('rel'), n[2], S('k'), (S('m'), S('l'), (n[0], n[1], n[0])),
              S('j'), n[0])] = w
    ts = None if targets is None else [S('zz')] if targets == 'none' else \
        n[:targets]
    keep = lib.copy_inst(inst)
    O = P.ObjectVariablizer(*(ts or ()))
    out = O.transform(inst)
    ctx.check(ctx.same(out, variablized(ctx, inst, ts, [])),
              'objects are not variablized as asked')
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    back = O.undo_transform(out)
    ctx.check(back is not out and ctx.same(back, out), 'undo of a one-way '
              'preprocessor')


@harness(quick=[dict(targets=t) for t in (None, 2, 5)])
def crowd(ctx, targets):
    """The same for more, deeper and longer named objects."""
    P = ctx.m('preprocessor')
    S = ctx.S
    v = ctx.string('v', 1)
    n = ctx.string('n', 2, lib.NAMECH)
    ctx.assume(n[0] != '_')
    ns = [S(x) for x in ('o1', 'o10', 'block-a', '?given', 'x' * 20)] + [n]
    inst = {}
    for i, a in enumerate(ns):
        inst[a] = {S('p'): v, S('in%d' % i): {S('q'): 1.5, S('deep%d' % i): {
            S('r'): {S('s'): v}}}}
        inst[(S('rel'), a, ns[i - 1])] = v
    inst[(S('all'),) + tuple(ns)] = True
    inst[(S('in'), (S('in0'), ns[0]), S('deep5'), S('in5'))] = v
    inst[S('plain')] = v
    ts = None if targets is None else [ns[5], S('deep1'), S('in3'), ns[2],
                                       S('plain')][:targets]
    keep = lib.copy_inst(inst)
    O = P.ObjectVariablizer(*(ts or ()))
    out = O.transform(inst)
    ctx.check(ctx.same(out, variablized(ctx, inst, ts, [])),
              'objects are not variablized as asked')
    ctx.check(ctx.same(inst, keep), 'the instance changed')


@harness(quick=[dict(what=w) for w in ('nominal', 'numeric', 'drop', 'zero')])
def deep(ctx, what):
    """Conversions of many attributes, several objects deep."""
    P = ctx.m('preprocessor')
    S = ctx.S
    v = ctx.string('v', 1, ((97, 100),))
    nums = [0, 1, -2.5, 1e10, 3.0, 7, 1e-7, 100]
    some = ctx.choice('some', [True, False])
    names = ['a%d' % i for i in range(8)]
    asked = [S(names[i]) for i in (0, 3, 7)] if some else []

    def obj(d):
        o = {}
        for i, a in enumerate(names):
            o[S(a)] = nums[(i + d) % 8] if what == 'nominal' else \
                S(str(nums[(i + d) % 8]))
        o[S('b')] = True if what == 'nominal' else 2.5
        if what in ('drop', 'zero'):
            o[S('a%d' % d)] = v
        if d < 4:
            o[S('o%d' % d)] = obj(d + 1)
            o[S('?p%d' % d)] = {S('a0'): o[S('a7')], S('a1'): o[S('a6')]}
        return o
    inst = obj(0)
    keep = lib.copy_inst(inst)
    T = P.NumericToNominal(*asked) if what == 'nominal' else \
        P.NominalToNumeric(S('break' if what == 'numeric' else what), *asked)
    out = T.transform(inst)
    ctx.check(ctx.same(inst, keep), 'the instance changed')

    def check(a, o):
        n = 0
        for k, x in a.items():
            if isinstance(x, dict):
                ctx.check(k in o and isinstance(o[k], dict), 'an object')
                check(x, o[k])
            elif asked and not any(k == q for q in asked):
                ctx.check(k in o and ctx.same(o[k], x), 'not asked for')
            elif what == 'nominal':
                if x is True:
                    # a Boolean is a kind of number in Python
                    ctx.check(k in o, 'an attribute is lost')
                else:
                    ctx.check(isinstance(o[k], str) and float(str(o[k])) == x,
                              'text of another number')
            elif x is v:
                if what == 'drop':
                    ctx.check(k not in o, 'not dropped')
                    n += 1
                else:
                    ctx.check(k in o and ctx.eq(o[k], 0.0), 'not zero')
            else:
                ctx.check(k in o and ctx.is_num(o[k]) and o[k] == float(
                    str(x)), 'another number')
        ctx.check(len(o) == len(a) - n, 'attributes lost or added')
    check(inst, out)


# ------------------------------------------------------- numbers and text
NUMS = [0, 1.5, -3.0, 10, 1e-3, 12345678.25]


@harness(quick=[dict(targets=0), dict(targets=1), dict(targets=2)])
def to_nominal(ctx, targets):
    """Exactly the numbers of the attributes asked for (all by default), also
    in components, become text that denotes the same number."""
    P = ctx.m('preprocessor')
    S = ctx.S
    n = [ctx.string('n%d' % i, 1, lib.NAMECH) for i in range(3)]
    for i, a in enumerate(n):
        for b in n[:i]:
            ctx.assume(a != b)
    x, y, z = [NUMS[ctx.choice('x%d' % i, len(NUMS) if i == 0 else 2)]
               for i in range(3)]
    v = ctx.string('v', 1)
    inst = {n[0]: x, n[1]: {n[0]: y, S('in'): v}, n[2]: [v, z][
        ctx.choice('k', 2)]}
    keep = lib.copy_inst(inst)
    t = [n[0], n[2]][:targets]
    out = P.NumericToNominal(*t).transform(inst)
    ctx.check(ctx.same(inst, keep), 'the instance changed')

    def check(a, o):
        ctx.check(len(a) == len(o), 'attributes lost or added')
        for k, val in a.items():
            ctx.check(k in o, 'an attribute is lost')
            if isinstance(val, dict):
                check(val, o[k])
            elif ctx.is_num(val) and (not t or any(k == q for q in t)):
                ctx.check(isinstance(o[k], str), 'a number is left')
                ctx.check(float(str(o[k])) == val, 'text of another number')
            else:
                ctx.check(ctx.same(o[k], val), 'another value changed')
    check(inst, out)


TEXTS = ['0', '1.5', '-3', '1e3', ' 7 ']
BAD = ['x', '', '1,5', '--1', 'one']


@harness(quick=[dict(fail='break', targets=0), dict(fail='drop', targets=0),
                dict(fail='zero', targets=0), dict(fail='drop', targets=1),
                dict(fail='zero', targets=2), dict(fail='nonsense',
                                                   targets=0)])
def to_numeric(ctx, fail, targets):
    """Text that denotes a number becomes that number, numbers stay, for the
    attributes asked for (all by default), also in components; other text is
    refused, dropped or zero, as told; other attributes stay."""
    P = ctx.m('preprocessor')
    S = ctx.S
    n = [ctx.string('n%d' % i, 1, lib.NAMECH) for i in range(2)]
    ctx.assume(n[0] != n[1])
    opts = [lambda: (S(TEXTS[ctx.choice('t', len(TEXTS))]), 'text'),
            lambda: (ctx.real('r'), 'num'),
            lambda: (S(BAD[ctx.choice('b', len(BAD))]), 'bad'),
            lambda: (ctx.string('sb', 2, ((97, 100), (106, 109))), 'bad')]
    v, kind = opts[ctx.choice('kind', 4)]()
    other = S(['x', '2.5'][ctx.choice('other', 2)])
    inst = {n[0]: v, S('comp'): {n[0]: v}, n[1]: other}
    keep = lib.copy_inst(inst)
    t = [n[0], n[1]][:targets]
    T = P.NominalToNumeric(S(fail), *t)

    def conv(val):
        if ctx.is_num(val):
            return val
        try:
            return float(str(val)) if not ctx.symbolic or not \
                getattr(val, '_sym', lambda: False)() else None
        except ValueError:
            return None

    def asked(k):
        return not t or any(k == q for q in t)
    flat = [v, v] + ([other] if asked(n[1]) else [])
    if fail in ('break', 'nonsense') and any(conv(x) is None for x in flat):
        ctx.check(ctx.raises(ValueError, T.transform, inst),
                  'text that is no number is accepted')
        ctx.check(ctx.same(inst, keep), 'the instance changed')
        return
    out = T.transform(inst)
    ctx.check(ctx.same(inst, keep), 'the instance changed')

    def exp(x):
        o = {}
        for k, val in x.items():
            if isinstance(val, dict):
                o[k] = exp(val)
            elif not asked(k):
                o[k] = val
            elif conv(val) is not None:
                o[k] = conv(val)
            elif fail == 'zero':
                o[k] = 0.0
        return o
    ctx.check(ctx.same(out, exp(inst)), 'conversion')


# ------------------------------------------------------- Sanitizer
def hashable(ctx, v):
    if isinstance(v, (list, dict, set)):
        return False
    if isinstance(v, tuple):
        return True
    return True


VALS = ['str', 'num', 'bool', 'list', 'set', 'dict', 'deep']


def val(ctx, k):
    S = ctx.S
    return dict(str=lambda: ctx.string('v', 1), num=lambda: ctx.real('w'),
                bool=lambda: True, list=lambda: [1, S('x')],
                set=lambda: set([1]), dict=lambda: {S('p'): S('x'), 3: 2},
                deep=lambda: {S('p'): {S('q'): [1], 4: S('y')}})[k]()


ATTRS = ['str', 'int', 'float', 'none', 'tuple', 'tupint', 'nested', 'deep']


def attr(ctx, k):
    S = ctx.S
    return dict(str=lambda: ctx.string('a', 2, lib.NAMECH), int=lambda: 7,
                float=lambda: 2.5, none=lambda: None,
                tuple=lambda: (S('r'), S('o')),
                tupint=lambda: (S('r'), 3, S('o')),
                nested=lambda: (S('r'), (1, S('o'))),
                deep=lambda: (S('r'), (S('q'), 2, (S('k'), S('l'), 1.5)),
                              S('o'), (S('m'), True)))[k]()


SPECS = ['trestle', 'cobweb', 'cobweb3', 'TRESTLE', 'Cobweb']


@harness(quick=[dict(spec=s) for s in SPECS])
def sanitized(ctx, spec):
    """Whatever the attribute and the value: the result can be learned by the
    tree asked for; what needs no change keeps name and value; equal
    structures give equal text."""
    P = ctx.m('preprocessor')
    S = ctx.S
    a = attr(ctx, ATTRS[ctx.choice('attr', len(ATTRS))])
    vk = VALS[ctx.choice('val', len(VALS))]
    v = val(ctx, vk)
    inst = {a: v, S('keep me'): S('z')}
    keep = lib.copy_inst(inst)
    T = P.Sanitizer(S(spec))
    out = T.transform(inst)
    ctx.check(ctx.same(inst, keep), 'the instance changed')
    ctx.check(len(out) == 2, 'number of attributes')
    ctx.check(ctx.same(out.get(S('keep me')), S('z')), 'another attribute '
              'changed')
    o = [k for k in out if not (isinstance(k, str) and k == 'keep me')][0]
    trestle = spec.lower() == 'trestle'

    def names_ok(t):
        if isinstance(t, tuple):
            return all(names_ok(e) for e in t)
        return isinstance(t, str)

    def clean(d):
        for k, x in d.items():
            ctx.check(isinstance(k, (str, tuple)), 'attribute is no name')
            if trestle:
                ctx.check(names_ok(k), 'relation with something else than '
                          'names')
            if isinstance(x, dict):
                ctx.check(trestle, 'an object is left')
                clean(x)
            else:
                ctx.check(not isinstance(x, (list, set)), 'an unhashable '
                          'value is left')
    clean(out)
    if isinstance(a, str):
        ctx.check(o == a, 'a good attribute is renamed')
    elif isinstance(a, tuple):
        ctx.check(isinstance(o, tuple) and len(o) == len(a), 'a relation '
                  'loses its shape')
        if names_ok(a) or not trestle:
            ctx.check(o == a, 'a good relation is renamed')
    else:
        ctx.check(o == str(a), 'name of an attribute that is none')
    if vk in ('str', 'num', 'bool'):
        ctx.check(ctx.same(out[o], v), 'a good value changed')
    elif vk in ('list', 'set') or not trestle:
        ctx.check(isinstance(out[o], str), 'an unhashable value does not '
                  'become text')
    else:
        ctx.check(isinstance(out[o], dict) and len(out[o]) == len(v),
                  'an object loses attributes')
    if vk in ('dict', 'deep'):
        # same object, attributes given in another order
        w = {k: v[k] for k in reversed(list(v))}
        ctx.check(ctx.same(T.transform({a: w})[o], out[o]), 'equal objects '
                  'get different text')
    tree = lib.make_tree(ctx, 'cobweb' if spec.lower() == 'cobweb' else
                         'cobweb3')
    tree.ifit({k: x for k, x in out.items() if not isinstance(x, dict)})
    back = T.undo_transform(out)
    ctx.check(back is not out and ctx.same(back, out), 'undo')


@harness()
def unknown_spec(ctx):
    """An unknown target is refused."""
    P = ctx.m('preprocessor')
    s = ctx.string('s', ctx.choice('n', [3, 6]), lib.LETTERS)
    ctx.assume(s != 'cobweb')
    ctx.check(ctx.raises(ValueError, P.Sanitizer, s), 'unknown spec')
