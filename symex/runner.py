"""Explores harnesses, decides them, replays counterexamples, writes evidence."""
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)

PATH_S = 40


class Hang(BaseException):
    pass


def _on_alarm(sig, frame):
    raise Hang()


# ------------------------------------------------------------- worker side
_W = {}


def _init_worker():
    import resource
    try:
        lim = 6 * 1024 ** 3
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    sys.setrecursionlimit(5000)
    signal.signal(signal.SIGALRM, _on_alarm)


def _worker_setup():
    if 'loader' in _W:
        return
    from . import loader, core
    import z3
    z3.set_param('smt.random_seed', int(os.environ.get('VERIF_SEED', '1') or
                                        1))
    _W['loader'] = loader.install(True)
    _W['core'] = core
    _W['funcs'] = set()
    mon = sys.monitoring
    root = _W['loader'].root

    def started(code, off):
        f = code.co_filename
        if f.startswith(root):
            _W['funcs'].add(os.path.basename(f)[:-3] + '.' + code.co_qualname)
        return mon.DISABLE
    try:
        mon.use_tool_id(3, 'verif')
        mon.register_callback(3, mon.events.PY_START, started)
        mon.set_events(3, mon.events.PY_START)
    except Exception:
        pass


def explore(task):
    """Depth-first exploration of a set of prefixes for a slice of time."""
    _worker_setup()
    core = _W['core']
    from .ctx import SymCtx
    mod, name, cfg, prefixes, slice_s, max_paths = task
    h = importlib.import_module('harness.' + mod)
    fn = h.HARNESSES[name].fn
    eng = core.ENG
    eng.stats = core.Stats()
    eng.lazy = cfg.get('_lazy', True)
    eng.nl_timeout = cfg.get('_nl_timeout', 300)
    out = dict(task=(mod, name), cfg=cfg, paths=0, infeasible=0, cands=[],
               unsupported=[], samples=[], reached=0, steps=0, unknown=0,
               concretised=0, checks=0, tries=0)
    work = list(prefixes)
    first = prefixes == [[]]
    t0 = time.time()
    while work:
        if out['paths'] >= max_paths or time.time() - t0 > slice_s:
            break
        if len(out['cands']) >= 6:
            break
        prefix = work.pop()
        eng.begin(prefix)
        _W['loader'].fresh()
        ctx = SymCtx(eng, cfg)
        status = 'ok'
        signal.setitimer(signal.ITIMER_REAL, PATH_S, 1)
        try:
            try:
                fn(ctx, **{k: v for k, v in cfg.items() if k[0] != '_'})
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.Infeasible:
            status = 'infeasible'
        except core.Violation as v:
            status = 'cand'
            out['cands'].append(dict(msg=str(v), model=v.model,
                                     prefix=eng.trace))
        except core.Unsupported as u:
            status = 'unsupported'
            m = eng.model_for(True, 3000)
            out['unsupported'].append(dict(msg=str(u), model=m if
                                           isinstance(m, dict) else None))
        except Hang:
            status = 'cand'
            m = eng.model_for(True, 3000)
            if isinstance(m, dict):
                out['cands'].append(dict(msg='no termination within %d s'
                                         % PATH_S, model=m, hang=True))
            elif m is None:
                status = 'infeasible'
            else:
                out['unsupported'].append(dict(msg='path too slow',
                                               model=None))
        except core.Stop as u:
            status = 'unsupported'
            out['unsupported'].append(dict(msg='stop: ' + str(u),
                                           model=None))
        except RecursionError:
            status = 'exc'
            m = eng.model_for(True, 3000)
            if m is None:
                status = 'infeasible'
            else:
                out['cands'].append(dict(
                    msg='unexpected RecursionError', model=m if
                    isinstance(m, dict) else {}, exc=True))
        except MemoryError:
            status = 'unsupported'
            out['unsupported'].append(dict(msg='memory limit', model=None))
        except Exception as ex:
            # an exception escaping the harness is a candidate violation
            m = None if eng.nonlinear and eng.abstract_unsat(True) else \
                eng.model_for(True, 10000)
            if m is None:
                status = 'infeasible'
            elif m == 'unknown':
                status = 'unsupported'
                out['unsupported'].append(dict(
                    msg='exception on undecided path: %r' % (ex,),
                    model=None))
            else:
                status = 'exc'
                out['cands'].append(dict(
                    msg='unexpected %s: %s' % (type(ex).__name__,
                                               str(ex)[:200]),
                    model=m, tb=traceback.format_exc()[-700:], exc=True))
        out['paths'] += 1
        out['steps'] += len(eng.trace)
        out['reached'] += ctx.reached
        if status == 'infeasible':
            out['infeasible'] += 1
        if eng.concretised:
            out['concretised'] += 1
        if eng.unknown_path:
            out['unknown'] += 1
        if (status == 'ok' and ctx.reached and len(out['samples']) < 1 and
                out['tries'] < 2 and (not eng.nonlinear or first)):
            out['tries'] += 1
            m = eng.model_for(True, 700)
            if isinstance(m, dict):
                out['samples'].append(m)
        work.extend(eng.alts)
    out['left'] = work
    out['stats'] = eng.stats.asdict()
    out['funcs'] = sorted(_W['funcs'])
    out['time'] = time.time() - t0
    return out


# ------------------------------------------------------------- parent side
def replay_batch(prop, mod, items, timeout=120, hashseed='0'):
    """items: list of (harness, cfg, model); returns list of result dicts."""
    d = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        f = os.path.join(d, 'in.json')
        with open(f, 'w') as fh:
            json.dump(dict(property=prop, module=mod, items=items), fh)
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = hashseed
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.pop('PYTHONPATH', None)
        try:
            p = subprocess.run([REPLAY_PY, os.path.join(VERIF, 'replay.py'),
                                '--batch', f], capture_output=True, text=True,
                               timeout=timeout, env=env, cwd=d)
            lines = [json.loads(x[7:]) for x in p.stdout.splitlines()
                     if x.startswith('RESULT ')]
        except subprocess.TimeoutExpired as e:
            so = e.stdout or b''
            if isinstance(so, bytes):
                so = so.decode('utf8', 'replace')
            lines = [json.loads(x[7:]) for x in so.splitlines()
                     if x.startswith('RESULT ')]
            while len(lines) < len(items):
                lines.append(dict(result='timeout', msg='replay timed out'))
            return lines
        while len(lines) < len(items):
            lines.append(dict(result='error', msg=p.stderr[-500:]))
        return lines
    finally:
        subprocess.run(['rm', '-rf', d])


def run_property(prop, mod, tier, names=None, budget=None, verbose=False):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    h = importlib.import_module('harness.' + mod)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if budget is None:
        budget = float(os.environ.get('VERIF_BUDGET') or
                       (400 if tier == 'quick' else 3000))
    mpc = multiprocessing.get_context('fork')
    tasks = []
    for n, H in h.HARNESSES.items():
        if names and n not in names:
            continue
        cfgs = H.quick if tier == 'quick' or H.thorough is None else H.thorough
        for c in cfgs:
            tasks.append((mod, n, c))
    agg = {}
    for m, n, c in tasks:
        agg.setdefault(n, dict(configs=0, paths=0, infeasible=0, checks=0,
                               steps=0, forks=0, queries=0, solver_s=0.0,
                               unsupported=0, unknown=0, concretised=0,
                               spurious=0, wall=0.0, bounds=[], per_config={}))
        agg[n]['configs'] += 1
        agg[n]['bounds'].append(c)
    funcs = set()
    notes = {}
    samples = []
    unsupported = []
    spurious = []
    violation = None
    incomplete = False
    validated = 0
    tried = {}
    deadline = t0 + budget
    ex = concurrent.futures.ProcessPoolExecutor(NPROC, mp_context=mpc,
                                                initializer=_init_worker)
    pending = {}
    backlog = []          # (mod, name, cfg, prefixes)

    def submit(m, n, c, prefixes, sl):
        f = ex.submit(explore, (m, n, c, prefixes, sl, 100000))
        pending[f] = (m, n, c, prefixes)

    broken = None
    try:
        for m, n, c in tasks:
            submit(m, n, c, [[]], 2.0)
        while pending:
            done, _ = concurrent.futures.wait(
                pending, timeout=5,
                return_when=concurrent.futures.FIRST_COMPLETED)
            if time.time() > deadline:
                incomplete = True
                break
            for f in done:
                m, n, c, prefixes = pending.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    broken = 'worker failed: %r' % (e,)
                    unsupported.append(dict(harness=n, cfg=c, msg=broken))
                    continue
                a = agg[n]
                st = r['stats']
                a['paths'] += r['paths']
                pc = a['per_config'].setdefault(json.dumps(c), [0, 0.0])
                pc[0] += r['paths']
                pc[1] = round(pc[1] + r['time'], 2)
                a['infeasible'] += r['infeasible']
                a['checks'] += r['reached']
                a['steps'] += r['steps']
                a['forks'] += st['forks']
                a['queries'] += st['queries']
                a['solver_s'] += st['solver_s']
                a['unknown'] += r['unknown']
                a['concretised'] += r['concretised']
                a['wall'] += r['time']
                funcs.update(r['funcs'])
                for k, v in st['notes'].items():
                    notes[k] = notes.get(k, 0) + v
                for s in r['samples']:
                    if sum(1 for x in samples if x['harness'] == n and
                           x['cfg'] == c) < 2:
                        samples.append(dict(harness=n, cfg=c, model=s))
                if r['unsupported']:
                    a['unsupported'] += len(r['unsupported'])
                    for u in r['unsupported']:
                        unsupported.append(dict(harness=n, cfg=c, **u))
                if r['cands']:
                    todo = []
                    for cd in r['cands']:
                        k = (n, cd['msg'][:60])
                        if tried.get(k, 0) < 30:
                            tried[k] = tried.get(k, 0) + 1
                            todo.append(cd)
                    if todo:
                        rs = []
                        for cd in todo:
                            # the order of sets of names is open: the
                            # path may need another one than this run's
                            for hs in ('0', '1', '2', '3', '4', '5'):
                                rr = replay_batch(prop, mod, [
                                    (n, c, cd['model'])], timeout=45,
                                    hashseed=hs)[0]
                                rr['hashseed'] = hs
                                if rr['result'] != 'held':
                                    break
                            rs.append(rr)
                            if rs[-1]['result'] in ('violated', 'exception',
                                                    'timeout'):
                                break
                        for cd, rr in zip(todo, rs):
                            if rr['result'] in ('violated', 'exception',
                                                'timeout'):
                                if violation is None:
                                    violation = dict(
                                        harness=n, cfg=c, model=cd['model'],
                                        symbolic=cd['msg'], concrete=rr)
                            else:
                                a['spurious'] += 1
                                spurious.append(dict(
                                    harness=n, cfg=c, symbolic=cd['msg'],
                                    model=cd['model'], concrete=rr,
                                    tb=cd.get('tb')))
                if violation:
                    break
                if r['left']:
                    # split what is left over the cores
                    left = r['left']
                    k = max(1, min(len(left), NPROC - len(pending)
                                   if len(pending) < NPROC else 1))
                    chunks = [left[i::k] for i in range(k)]
                    for ch in chunks:
                        submit(m, n, c, ch, 4.0)
            if violation:
                break
    finally:
        procs = list(getattr(ex, '_processes', {}).values())
        for f in pending:
            f.cancel()
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    # sample paths: the solver's values through the real code
    if not violation and samples:
        rs = replay_batch(prop, mod, [(s['harness'], s['cfg'], s['model'])
                                      for s in samples], timeout=300)
        for s, r in zip(samples, rs):
            s['replay'] = r['result']
            if r['result'] == 'held':
                validated += 1
            elif r['result'] in ('violated', 'exception'):
                violation = dict(harness=s['harness'], cfg=s['cfg'],
                                 model=s['model'],
                                 symbolic='sampled path (encoding said held)',
                                 concrete=r)
                break
    # paths outside the encoding: at least one concrete value of each
    if not violation and unsupported:
        us = [u for u in unsupported if u.get('model')][:200]
        if us:
            rs = replay_batch(prop, mod, [(u['harness'], u['cfg'], u['model'])
                                          for u in us], timeout=300)
            for u, r in zip(us, rs):
                u['replay'] = r['result']
                if r['result'] in ('violated', 'exception'):
                    violation = dict(harness=u['harness'], cfg=u['cfg'],
                                     model=u['model'],
                                     symbolic='path outside the encoding: '
                                     + u['msg'], concrete=r)
                    break
    vac = [n for n in agg if agg[n]['checks'] == 0]
    return dict(prop=prop, mod=mod, tier=tier, seed=seed, agg=agg,
                funcs=sorted(funcs), notes=notes, samples=samples,
                unsupported=unsupported, spurious=spurious,
                violation=violation, incomplete=incomplete,
                validated=validated, vacuous=vac, broken=broken,
                wall=time.time() - t0)
