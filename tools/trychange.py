#!/usr/bin/env python3
"""trychange.py FILE [name…]: FILE defines CHANGES = [(name, kind, props, [(file, old, new)…])…]; kind is 'same' (behaviour kept:
checks must stay quiet) or 'bug' (some check must report a violation). Each is applied to /repo, checked and undone."""
import sys, subprocess, os, time, json
V = '/verif'; R = '/repo'
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = sys.argv[2:]
out = []
for name, kind, props, edits in ns['CHANGES']:
    if sel and name not in sel: continue
    ok = True
    for f, o, n in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(o) != 1:
            print(name, 'EDIT does not match once:', f, s.count(o), o[:60]); ok = False; break
        open(p, 'w').write(s.replace(o, n))
    res = []
    if ok:
        for p in props:
            t = time.time()
            r = subprocess.run(['./check', p, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = [l for l in r.stdout.splitlines() if l.startswith(('OK', 'VIOLATION', 'ERROR', 'KNOWN'))]
            res.append((p, r.returncode, round(time.time() - t), ' / '.join(l[:160] for l in last[:2])))
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    good = ok and (all(r[1] == 0 for r in res) if kind == 'same' else any(r[1] == 1 for r in res))
    print('ok ' if good else 'BAD', kind, name, *[str(r if not good else r[:3]) for r in res], flush=True)
