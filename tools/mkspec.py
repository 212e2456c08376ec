#!/usr/bin/env python3
"""Regenerates spec.json (property -> harnesses), properties.jsonl and MANIFEST.json from the harness sources, tools/props.py and tools/opts.json."""
import re, json, glob, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = runpy.run_path(V + '/tools/props.py')
opts = json.load(open(V + '/tools/opts.json'))
hs = {}
for d in [V + '/harness/hmath'] + sorted(glob.glob(V + '/pal/h*')):
    crate = os.path.basename(d)
    for f in sorted(glob.glob(d + '/src/*.rs')):
        for m in re.finditer(r'^\s*fn (h_([a-z])(\d+)_\w+)\(\)', open(f).read(), re.M):
            hs.setdefault(m.group(2).upper() + m.group(3), []).append({'crate': crate, 'name': m.group(1)})
na = dict(ns['NA'])
spec = {}; lines = []; checks = []
TECH = 'symbolic execution of the compiled MIR, obligations decided by SMT (z3, cvc5)'
for p in ns['P']:
    lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']], 'observe_at': p['observe'] or [n for n, _ in p['mechanism']], 'hook_needed': None}}))
    assert len(p['title']) <= 80, p['title']
    if p['id'] in na: continue
    if p['id'] not in hs: print('no harness for', p['id']); continue
    for h in hs[p['id']]:
        h.update(opts.get(h['name'], {}))
    spec[p['id']] = {'bounds': p['bounds'], 'assumptions': p['assumptions'], 'budget': p['budget'], 'harnesses': hs[p['id']]}
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': TECH, 'level': 'model_checking',
        'level_note': (p['level_note'] or 'The SMT solver shows every obligation for all values within the bounds; counterexamples are replayed on the compiled code.') + ' Bounds: ' + p['bounds'] + ' Trusted: the MIR translator (compared with the compiled code on random vectors in every run), models of U256/U512, ' + ('the stand-ins for FRAME, sp-* and orml (DESIGN.md), the solvers.' if p['id'][0] == 'P' else 'stand-ins for sp-arithmetic and sp-std, the solvers.')})
for h in hs:
    if h not in spec: print('harness without property', h)
json.dump({'properties': spec}, open(V + '/spec.json', 'w'), indent=1)
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': checks,
    'not_applicable': [{'property': i, 'reason': r} for i, r in ns['NA']],
    'notes': 'No hooks: the checks compile /repo/math/src and /repo/pallets/*/src directly (harness/hydra-dx-math and pal/wrap point at them); pallets compile against stand-ins for FRAME, sp-* and orml in pal/.'}, open(V + '/MANIFEST.json', 'w'), indent=1)

rows = ['| Id | Property | Code executed | Harnesses | UF / cut | Bounds |', '|---|---|---|---|---|---|']
for p in ns['P']:
    if p['id'] not in spec: continue
    uf = sorted({u for h in spec[p['id']]['harnesses'] for k in ('uf', 'cut') for u in h.get('opts', {}).get(k) or []})
    rows.append('| %s | %s | %s | %d | %s | %s |' % (p['id'], p['title'], ', '.join(f.replace('/src', '') for f in p['files']), len(spec[p['id']]['harnesses']), ', '.join('`%s`' % u.replace('|', '\\|') for u in uf) or '–', p['bounds'].replace('|', '\\|')))
seeds = ['| Planted bug | Property (its check catches it) | Needs | Breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
d = open(V + '/DESIGN.md').read()
for k, t in (('table', rows), ('seeds', seeds)):
    d = re.sub(r'<!-- %s -->\n.*?<!-- /%s -->' % (k, k), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (k, '\n'.join(t), k), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
