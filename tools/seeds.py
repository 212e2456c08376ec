#!/usr/bin/env python3
"""seeds.py [id...]: writes seeded/<id>/ from tools/seed_src.py: patch.diff, meta.json, demo.sh and its files."""
import sys, os, json, shutil, subprocess, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = runpy.run_path(V + '/tools/seed_src.py')['S']
want = sys.argv[1:] or list(S)
tmp = '/tmp/seedgit'
shutil.rmtree(tmp, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', tmp])
for i in want:
    s = S[i]
    for f, old, new in s['edits']:
        p = tmp + '/' + f
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = V + '/seeded/' + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', tmp, 'diff'], text=True))
    subprocess.check_call(['git', '-C', tmp, 'checkout', '-q', '--', '.'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    L = V + '/tools/seedlib/'
    for f in ('demo.sh', 'Cargo.toml', 'Cargo.lock', 'demo.Cargo.toml', 'math.Cargo.toml'):
        shutil.copy(L + f, d)
    shutil.copytree(V + '/harness/stubs', d + '/stubs')
    open(d + '/main.rs', 'w').write(s['demo'].lstrip('\n'))
shutil.rmtree(tmp)
