#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only h1,h2] [-v]

Decides one property by symbolic execution of /repo's current source.
exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ)
    env.update(VERIF_CHILD='1', PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    py = VT if os.path.exists(VT) else 'python3-vt'
    os.execvpe(py, [py] + [os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symex import runner                                     # noqa: E402

ASSUME = [
    'real arithmetic stands in for binary floating point (rounding is outside '
    'the claim; counterexamples are replayed in floats)',
    'random draws are arbitrary reals in [0,1), pairwise distinct; shuffles '
    'and choices are arbitrary',
    'set/dict iteration order is one fixed order per run',
    'bounds: the harness configurations listed in coverage.harnesses',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    prop = a.prop
    mod = prop.lower()
    res = runner.run_property(prop, mod, tier,
                              a.only.split(',') if a.only else None, a.budget)
    known = []
    kf = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'open':
                    known.append(d)
    for d in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    tot = {k: 0 for k in ('paths', 'infeasible', 'checks', 'steps', 'forks',
                          'queries', 'unsupported', 'unknown', 'spurious',
                          'concretised')}
    solver_s = 0.0
    for n, g in res['agg'].items():
        for k in tot:
            tot[k] += g[k]
        solver_s += g['solver_s']
        g['solver_s'] = round(g['solver_s'], 3)
        g['wall'] = round(g['wall'], 2)
        if a.v:
            print('%-28s cfg %3d paths %6d infeas %5d checks %7d queries %7d '
                  'solver %6.1fs cpu %6.1fs unsup %d unk %d spur %d' % (
                      n, g['configs'], g['paths'], g['infeasible'],
                      g['checks'], g['queries'], g['solver_s'], g['wall'],
                      g['unsupported'], g['unknown'], g['spurious']))
            for c, (np_, ts) in sorted(g['per_config'].items(),
                                       key=lambda x: -x[1][1])[:8]:
                print('      %7d paths %8.1f s  %s' % (np_, ts, c))
    viol = res['violation']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = None
    if viol:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, module=mod, harness=viol['harness'],
                           cfg=viol['cfg'], model=viol['model'],
                           hashseed=viol['concrete'].get('hashseed', '0'),
                           symbolic=viol['symbolic'],
                           concrete=viol['concrete']), f, indent=1)
    exhaustive = (not res['incomplete'] and not viol and not tot['unsupported']
                  and not tot['spurious'] and not res['broken']
                  and not res['vacuous'])
    import importlib
    h = importlib.import_module('harness.' + mod)
    cov = dict(
        states=tot['steps'], transitions=tot['forks'],
        traces_validated_against_impl=res['validated'],
        samples=[dict(harness=s['harness'], cfg=s['cfg'],
                      solver_values=s['model'], replay_on_real_code=s.get(
                          'replay')) for s in res['samples']][:12],
        explanation='Symbolic execution of the functions listed under '
        'functions_encoded (source read from /repo on this run) by forking '
        'path exploration; states = decision points executed, transitions = '
        'additional feasible branch outcomes found by the solver, each '
        'explored as its own path. Every assertion on every path was decided '
        'by z3 for all values satisfying the path condition.',
        exhaustive=bool(exhaustive),
        paths=tot['paths'], infeasible_paths=tot['infeasible'],
        assertions_decided=tot['checks'], solver_queries=tot['queries'],
        solver_seconds=round(solver_s, 3),
        functions_encoded=res['funcs'],
        harnesses={n: dict(what=' '.join((h.HARNESSES[n].doc or '').split()),
                           **g) for n, g in res['agg'].items()},
        undecided=dict(unsupported_paths=tot['unsupported'],
                       solver_unknown=tot['unknown'],
                       counterexamples_not_reproduced=tot['spurious'],
                       concretised_paths=tot['concretised'],
                       vacuous_harnesses=res['vacuous'],
                       time_budget_exhausted=res['incomplete'],
                       examples=[dict(harness=u['harness'], msg=u.get('msg'),
                                      replay=u.get('replay'))
                                 for u in res['unsupported'][:5]] +
                       [dict(harness=u['harness'], msg=u['symbolic'],
                             replay=u['concrete'].get('result'))
                        for u in res['spurious'][:5]]),
        notes=res['notes'],
        known_findings=[d['what'] for d in known])
    ev = dict(property=prop, tier=tier, seed=res['seed'],
              level='model_checking', coverage=cov,
              assumptions=ASSUME + list(getattr(h, 'ASSUMPTIONS', [])),
              wall_s=round(res['wall'], 2), violations=1 if viol else 0)
    if not a.only:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if viol:
        c = viol['concrete']
        print('%s: %s' % (c['result'], c['msg']))
        print('  harness %s %s' % (viol['harness'], viol['cfg']))
        for k, v in (c.get('log') or [])[:40]:
            print('    %s = %s' % (k, v))
        if a.v and c.get('tb'):
            print(c['tb'])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    und = (tot['unsupported'] or tot['spurious'] or res['incomplete'] or
           res['broken'] or res['vacuous'])
    print('%s %s: held on %d paths, %d assertions, %d queries (%.1f s solver), '
          '%d sample paths replayed, %.1f s%s' % (
              prop, tier, tot['paths'], tot['checks'], tot['queries'],
              solver_s, res['validated'], res['wall'],
              '; UNDECIDED PART: ' + json.dumps(
                  {k: v for k, v in cov['undecided'].items()
                   if k != 'examples' and v}) if und else ''))
    if a.v:
        for u in res['unsupported'][:5]:
            print('  unsupported', {k: u.get(k) for k in ('harness', 'cfg',
                                                          'msg', 'replay')})
        for u in res['spurious'][:5]:
            print('  spurious', u['harness'], u['cfg'], u['symbolic'],
                  u['concrete'].get('result'), u['concrete'].get('msg'),
                  u['model'])
            if u.get('tb'):
                print(u['tb'])
    if os.environ.get('VERIF_STRICT') == '1' and und:
        return 3
    return 0


if __name__ == '__main__':
    rc = 2
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
    finally:
        # the killed workers may leave the pool's threads waiting
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
