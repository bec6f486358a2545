"""Routes the random module through a source (used by replay)."""
import random


def fixed_unit(k):
    """The k-th draw while a harness fixes the random source."""
    return (k * 0.6180339887498949) % 1.0


def install(src):
    def rnd():
        return src.unit()

    def uniform(a, b):
        return a + (b - a) * src.unit()

    def choice(seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[src.index(len(seq))]

    def randrange(a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[src.index(len(r))]

    def randint(a, b):
        return randrange(a, b + 1)

    def shuffle(x, *r):
        for i in range(len(x) - 1, 0, -1):
            j = src.index(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(pop, k, **kw):
        pop = list(pop)
        out = []
        for _ in range(k):
            out.append(pop.pop(src.index(len(pop))))
        return out

    def choices(pop, weights=None, *, cum_weights=None, k=1):
        out = []
        for _ in range(k):
            if weights is None and cum_weights is None:
                out.append(pop[src.index(len(pop))])
                continue
            cw = cum_weights
            if cw is None:
                cw = []
                t = 0
                for w in weights:
                    t = t + w
                    cw.append(t)
            r = cw[-1] * src.unit()
            for p, c in zip(pop, cw):
                if c > r:
                    out.append(p)
                    break
            else:
                out.append(pop[-1])
        return out

    def normalvariate(mu=0.0, sigma=1.0):
        return src.normal(mu, sigma)

    for n, f in dict(random=rnd, uniform=uniform, choice=choice,
                     randrange=randrange, randint=randint, shuffle=shuffle,
                     sample=sample, choices=choices,
                     normalvariate=normalvariate, gauss=normalvariate).items():
        setattr(random, n, f)
