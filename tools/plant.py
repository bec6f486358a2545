"""Tries planted bugs: python3 tools/plant.py [--check] ID ...

For each /verif/seeded/ID: demo on the clean tree, apply patch.diff to /repo,
stable tests, demo, and (with --check) the check of its property; then undo.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def stable():
    for k in ('stable', 'passed', 'pass', 'tests'):
        if isinstance(BASE.get(k), list):
            return set(BASE[k])
    raise SystemExit(list(BASE))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    docheck = '--check' in sys.argv
    others = [a[7:] for a in sys.argv[1:] if a.startswith('--also=')]
    for i in args:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        st = sh('git -C /repo status --porcelain').stdout.strip()
        assert not st, st
        c = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        out = ['clean demo %d' % c.returncode]
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            print(i, 'PATCH DOES NOT APPLY', a.stdout)
            continue
        try:
            p = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            out.append('patched demo %d' % p.returncode)
            sh('bash /opt/vp/test.sh /tmp/plant.json')
            r = json.load(open('/tmp/plant.json'))
            bad = stable() - set(r['passed'])
            out.append('tests ok' if not bad else 'TESTS FAIL %s' % list(
                bad)[:3])
            if docheck:
                for pid in [meta['property']] + others:
                    t = time.time()
                    k = sh('timeout 900 python3 check.py %s' % pid, cwd=HERE)
                    out.append('check %s exit %d %.0fs %s' % (
                        pid, k.returncode, time.time() - t, ' | '.join(
                            l[:150] for l in k.stdout.split('\n')
                            if not l.startswith('    '))[:400]))
        finally:
            sh('git -C /repo checkout -- .')
        ok = c.returncode == 0 and p.returncode != 0 and not bad
        print(i, meta['property'], 'COUNTS' if ok else 'DOES NOT COUNT',
              '; '.join(out), flush=True)
        if c.returncode:
            print(c.stdout[-600:])


main()
