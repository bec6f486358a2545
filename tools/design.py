"""Writes DESIGN.md: head, one section per property from the harnesses' doc
strings, tail with findings and planted changes.  Run by hand."""
import ast
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(p):
    with open(os.path.join(H, p)) as f:
        return f.read()


man = {c['property']: c for c in json.loads(rd('MANIFEST.json'))['checks']}
out = [rd('tools/design_head.md')]
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    out.append('*Bounds:* ' + man[i]['level_note'].split('. Every feasible')[0]
               .replace('Bounds: ', '') + '.  *Why tests cannot settle it:* ' +
               p['why_tests_cant'] + '\n')
    t = ast.parse(rd('harness/%s.py' % i.lower()))
    for x in t.body:
        if isinstance(x, ast.Assign) and getattr(
                x.targets[0], 'id', '') == 'ASSUMPTIONS':
            out.append('*Assumptions:* ' + '; '.join(
                ast.literal_eval(x.value)) + '.\n')
    for x in t.body:
        if isinstance(x, ast.FunctionDef) and any(
                isinstance(d, ast.Call) and getattr(d.func, 'id', '') ==
                'harness' for d in x.decorator_list):
            out.append('* `%s`: %s' % (x.name, ' '.join(
                (ast.get_docstring(x) or '').split())))
    out.append('')
tail = rd('tools/design_tail.md')
fx = ['* ' + json.loads(l)['entry'] for l in
      rd('KNOWN_FINDINGS.jsonl').splitlines() if l]
pl = []
res = {}
rp = os.path.join(H, 'tools/planted_results.json')
if os.path.exists(rp):
    res = json.loads(rd('tools/planted_results.json'))
for m in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    n = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    pl.append('| %s | %s | %s | %s |' % (n, d['property'], d['what_it_breaks'],
                                        res.get(n, '?')))
tail = tail.replace('@FIXES@', '\n'.join(fx)).replace(
    '@PLANTED@', '| change | property | breaks | caught by |\n|---|---|---|---|'
    '\n' + '\n'.join(pl))
out.append(tail)
with open(os.path.join(H, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
