"""registry() usable from both interpreters."""


class Harness(object):
    def __init__(self, fn, quick, thorough, doc):
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.doc = doc


def registry():
    H = {}

    def harness(quick=None, thorough=None):
        def deco(fn):
            H[fn.__name__] = Harness(fn, quick or [{}], thorough, fn.__doc__
                                     or '')
            return fn
        return deco
    return H, harness
