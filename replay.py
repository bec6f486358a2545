#!/opt/venv/bin/python
"""Replays solver assignments on the unmodified code of /repo.

replay.py FILE          one violation file written by check.py
replay.py --batch FILE  many (internal)
"""
import json
import os
import random
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

_native = {n: getattr(random, n) for n in
           ('random', 'uniform', 'choice', 'shuffle', 'normalvariate',
            'choices', 'sample', 'randint', 'randrange', 'gauss')}
from symex.natrandom import fixed_unit                      # noqa: E402
import importlib                                            # noqa: E402
for _m in ('munkres', 'py_search.base', 'py_search.optimization'):
    try:
        importlib.import_module(_m)
    except Exception:
        pass


class Tape(object):
    """Random draws fixed by the solver's assignment, then native ones."""

    def __init__(self):
        self.load({})
        self.ctx = None

    def load(self, model):
        self.model = model
        self.i = 0
        self.c = 0
        self.units = []
        self.idx = []

    def unit(self):
        if self.ctx is not None and self.ctx.forced:
            return self.ctx.forced.pop(0)
        if self.ctx is not None and self.ctx.fixed is not None:
            self.ctx.fixed += 1
            return fixed_unit(self.ctx.fixed)
        k = 'rnd%d' % self.i
        self.i += 1
        if self.i <= len(self.units):
            return self.units[self.i - 1]
        if k in self.model:
            a, b = self.model[k]
            x = min(max(a / b, 0.0), 1.0 - 1e-16)
        else:
            x = _native['random']()
        self.units.append(x)
        return x

    def index(self, n):
        if self.ctx is not None and self.ctx.fixed is not None:
            self.ctx.fixed += 1
            return int(fixed_unit(self.ctx.fixed) * n)
        k = 'rc%d' % self.c
        self.c += 1
        if self.c <= len(self.idx):
            return min(self.idx[self.c - 1], n - 1)
        if k in self.model and self.model[k] < n:
            x = self.model[k]
        else:
            x = int(_native['random']() * n)
        self.idx.append(x)
        return x

    def normal(self, mu, sigma):
        k = 'rnorm%d' % len(self.ctx.randlog)
        if k in self.model:
            a, b = self.model[k]
            x = a / b
        else:
            x = mu + sigma * (_native['random']() - 0.5)
        if self.ctx is not None:
            self.ctx.randlog.append((mu, sigma, x))
        return x


def run_one(mod, name, cfg, model, tape):
    from symex.ctx import ConCtx, Skip, Violated
    for n in [n for n in sys.modules if n == 'concept_formation' or
              n.startswith('concept_formation.')]:
        del sys.modules[n]
    h = importlib.import_module('harness.' + mod)
    fn = h.HARNESSES[name].fn
    random.seed(12345)
    tape.load(model)
    ctx = ConCtx(model, cfg)
    tape.ctx = ctx
    ctx.tape = tape
    try:
        fn(ctx, **{k: v for k, v in cfg.items() if k[0] != '_'})
    except Skip:
        return dict(result='skipped', msg='assumption not met', log=ctx.log)
    except Violated as v:
        return dict(result='violated', msg=str(v), log=ctx.log)
    except Exception as e:
        return dict(result='exception', msg='%s: %s' % (type(e).__name__, e),
                    tb=traceback.format_exc()[-2500:], log=ctx.log)
    return dict(result='held', msg='', log=[])


class Null(object):
    def write(self, s):
        pass

    def flush(self):
        pass


def main():
    from symex import bare, natrandom
    bare.install()
    tape = Tape()
    natrandom.install(tape)
    out = sys.stdout
    if sys.argv[1] == '--batch':
        d = json.load(open(sys.argv[2]))
        for name, cfg, model in d['items']:
            sys.stdout = Null()
            r = run_one(d['module'], name, cfg, model, tape)
            sys.stdout = out
            r['log'] = [[a, repr(b)] for a, b in r.get('log', [])][:80]
            print('RESULT ' + json.dumps(r), flush=True)
        return 0
    d = json.load(open(sys.argv[1]))
    hs = str(d.get('hashseed', '0'))
    if os.environ.get('PYTHONHASHSEED') != hs:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    r = run_one(d['module'], d['harness'], d['cfg'], d['model'], tape)
    print('property %s harness %s %s' % (d['property'], d['harness'],
                                         d['cfg']))
    for a, b in r.get('log', []):
        print('   input %s = %s' % (a, b))
    print('result: %s %s' % (r['result'], r['msg']))
    if r.get('tb'):
        print(r['tb'])
    return 1 if r['result'] in ('violated', 'exception') else 0


if __name__ == '__main__':
    sys.exit(main())
