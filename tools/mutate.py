#!/usr/bin/env python3
"""mutate.py PART PARTS [FILES..]: small changes to /repo/math, one at a time; those that compile and pass the
repository's tests are run against the checks of the file. To be run by nsrun.sh (it edits /repo)."""
import os, re, subprocess, sys, json, random, time, hashlib
R = '/repo'
part, parts = int(sys.argv[1]), int(sys.argv[2])
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
def anchors(p):
    return str(p['anchors'])
FILES = sys.argv[3:] or [l for l in subprocess.run(['git', '-C', R, 'ls-files', 'math/src'], capture_output=True, text=True).stdout.split() if not re.search('tests|mod.rs|invariants|test|lib.rs|types.rs.*x|traits', l)]
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'checked_add', 'checked_sub'), (r'checked_sub', 'checked_add'), (r'saturating_sub', 'saturating_add'), (r'saturating_add', 'saturating_sub'), (r'checked_mul\b', 'checked_div'), (r'checked_div\b', 'checked_mul'),
       (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'Rounding::Down', 'Rounding::Up'), (r'Rounding::Up', 'Rounding::Down'), (r'mul_floor', 'mul_ceil'), (r'mul_ceil', 'mul_floor'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'is_zero\(\)', 'is_one()'), (r'\bin_hp\b', 'out_hp'), (r'Positive', 'Negative'), (r'Negative', 'Positive'), (r'\bin_state\b', 'out_state'), (r'\bout_state\b', 'in_state'),
       (r'\breserve\b', 'hub_reserve'), (r'\bhub_reserve\b', 'reserve'), (r'delta_hub_reserve', 'delta_reserve'), (r'::one\(\)', '::zero()'), (r'::zero\(\)', '::one()'), (r'Increase', 'Decrease'), (r'Decrease', 'Increase'), (r'round_up', 'round_down'), (r'checked_add\(Balance::one\(\)\)', 'checked_add(Balance::zero())'), (r'multiply_by_rational_with_rounding', 'multiply_by_rational_with_rounding')]
muts = []
for f in FILES:
    t = open(os.path.join(R, f)).read()
    cut = t.find('#[cfg(test)]')
    lines = (t if cut < 0 else t[:cut]).split('\n')
    for i, l in enumerate(lines):
        if l.strip().startswith(('//', 'use ', '#', 'pub use', 'pub fn', 'fn ', 'type ', 'impl')): continue
        def add(n, why):
            if n != l: muts.append((f, i, l, n, why))
        for a, b in OPS:
            for m in re.finditer(a, l):
                add(l[:m.start()] + b + l[m.end():], a + '->' + b)
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?=\D|$)', l):
            v = int(m.group(1).replace('_', ''))
            add(l[:m.start()] + str(v + 1) + l[m.end():], 'n+1')
            if v > 1: add(l[:m.start()] + str(v - 1) + l[m.end():], 'n-1')
        for m in re.finditer(r'\((\w[\w.]*), (\w[\w.]*)\)', l):
            add(l[:m.start()] + '(%s, %s)' % (m.group(2), m.group(1)) + l[m.end():], 'swap')
        m = re.match(r'(\s*)if (.*) \{$', l)
        if m and ' else ' not in l and 'let' not in l:
            add('%sif !(%s) {' % m.groups(), 'negate'); add('%sif false && (%s) {' % m.groups(), 'never')
        if re.match(r'\s*\.checked_\w+\(.*\)\??;?$', l) or re.match(r'\s*\w+ [-+*]?= .*;$', l):
            add('', 'drop')
muts = sorted(set(muts), key=lambda m: hashlib.md5(repr(m).encode()).hexdigest())
def run(cmd, t=900):
    try: return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('mutants', len(muts), 'part', part, flush=True)
for n, (f, i, old, new, why) in enumerate(muts):
    if n % parts != part: continue
    p = os.path.join(R, f)
    t = open(p).read(); ls = t.split('\n')
    assert ls[i] == old
    ls[i] = new
    open(p, 'w').write('\n'.join(ls))
    try:
        b = run('cd /repo && bash /opt/vp/build.sh', 300)
        if b is None or b.returncode: continue
        out = '/tmp/mut/t%d.json' % part
        b = run('cd /repo && bash /opt/vp/test.sh ' + out, 120)
        try: res = json.load(open(out))
        except Exception: continue
        if not base <= {k for k in (res.get('passed') or [])}: continue
        got = []
        fn = ([m.group(1) for m in re.finditer(r'fn (\w+)', '\n'.join(ls[:i]))] or [''])[-1]
        for q in sorted(props, key=lambda q: "'%s'" % fn not in anchors(q)):
            if q['id'][0] != 'M' or f not in anchors(q): continue
            t0 = time.time()
            c = run('cd /verif && ./check %s quick' % q['id'], 900)
            rc = c.returncode if c else 'timeout'
            if rc == 2 and not got and 'build of' in c.stdout + c.stderr: break
            got.append((q['id'], rc, round(time.time() - t0)))
            if rc == 1: break
        if not got: continue
        ok = any(g[1] == 1 for g in got)
        print('caught' if ok else 'SURVIVED', '%s:%d [%s] %s' % (f, i + 1, why, new.strip()[:110]), got if not ok else got[-1], flush=True)
    finally:
        open(p, 'w').write(t)
print('done', flush=True)
