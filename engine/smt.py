"""SMT-LIB emission and the solver portfolio."""
import os, re, subprocess, threading, time, shutil, signal
import terms as T

def num(n, real):
    s = str(abs(n)) + ('.0' if real else '')
    return '(- %s)' % s if n < 0 else s

class Emit:
    def __init__(self, real, caps=None, fix=None, hidden=()):
        self.real = real
        self.hidden = hidden  # atoms emitted as arbitrary values
        self.S = 'Real' if real else 'Int'
        self.out = []
        self.done = {}
        self.vars = []
        self.caps = caps      # upper cap for every input variable
        self.fix = fix or {}
        self.lin = {}

    def term(self, x):
        if type(x) is int:
            return num(x, self.real)
        r = self.lin.get(x)
        if r is not None:
            return r
        parts = []
        if x.c:
            parts.append(num(x.c, self.real))
        for a, k in x.m:
            s = self.atom(a)
            parts.append(s if k == 1 else '(* %s %s)' % (num(k, self.real), s))
        r = parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)
        if len(r) > 60:
            n = 'l%d' % x.id
            self.out.append('(define-fun %s () %s %s)' % (n, self.S, r))
            r = n
        self.lin[x] = r
        return r

    def atom(self, root):
        r = self.done.get(root)
        if r is not None:
            return r
        # iterative post-order
        stack = [(root, 0)]
        while stack:
            a, st = stack.pop()
            if a in self.done:
                continue
            if st == 0:
                stack.append((a, 1))
                for d in self.deps(a):
                    if d not in self.done:
                        stack.append((d, 0))
            else:
                self.emit(a)
        return self.done[root]

    def deps(self, a):
        if a in self.hidden: return []
        h = self.cover(a)
        if h is not None:
            return [h] + [x for t in rest(a.args, h.args) if type(t) is T.Lin for x, _ in t.m]
        return deps(a)

    def cover(self, a):
        """a hidden product whose factors are among those of this product"""
        if a.kind != 'mul' or not self.hidden: return None
        for h in self.hidden:
            if h.kind == 'mul' and h is not a and rest(a.args, h.args) is not None: return h
        return None

    def emit(self, a):
        o = self.out
        if a in self.hidden:
            n = 'h%d' % a.id
            o.append('(declare-const %s %s)' % (n, self.S))
            if a.lo >= 0: o.append('(assert (>= %s %s))' % (n, num(a.lo, self.real)))
            self.done[a] = n
            return
        h = self.cover(a)
        if h is not None:
            n = 'm%d' % a.id
            o.append('(define-fun %s () %s (* %s))' % (n, self.S, ' '.join([self.done[h]] + [self.term(t) for t in rest(a.args, h.args)])))
            self.done[a] = n
            return
        if a.kind == 'var':
            n = 'v%d' % a.id
            if a.name in self.fix:
                self.done[a] = num(self.fix[a.name], self.real)
                self.vars.append((a.name, None))
                return
            o.append('(declare-const %s %s)' % (n, self.S))
            o.append('(assert (>= %s %s))' % (n, num(a.lo, self.real)))
            hi = a.hi
            if self.caps is not None and a.hi > self.caps >= a.lo:
                hi = self.caps
            o.append('(assert (<= %s %s))' % (n, num(hi, self.real)))
            self.vars.append((a.name, n))
            self.done[a] = n
        elif a.kind == 'mul':
            n = 'm%d' % a.id
            fs = [self.term(t) for t in a.args]
            o.append('(define-fun %s () %s (* %s))' % (n, self.S, ' '.join(fs)))
            self.done[a] = n
        elif a.kind == 'div':
            n = 'q%d' % a.id
            x = self.term(a.args[0]); d = self.term(a.args[1])
            o.append('(declare-const %s %s)' % (n, self.S))
            dm = self.term(T.sub(a.args[1], 1))
            if a in T.GUARD:
                o.append('(assert (=> (>= %s %s) (and (<= (* %s %s) %s) (<= %s (+ (* %s %s) %s)))))' % (d, num(1, self.real), n, d, x, x, n, d, dm))
            else:
                o.append('(assert (<= (* %s %s) %s))' % (n, d, x))
                o.append('(assert (<= %s (+ (* %s %s) %s)))' % (x, n, d, dm))
            if a.lo >= 0:
                o.append('(assert (>= %s %s))' % (n, num(0, self.real)))
            self.done[a] = n
        elif a.kind == 'ite':
            n = 'i%d' % a.id
            o.append('(define-fun %s () %s (ite %s %s %s))' % (n, self.S, self.bool(a.args[0]), self.term(a.args[1]), self.term(a.args[2])))
            self.done[a] = n
        elif a.kind == 'bits':
            n = 'b%d' % a.id
            x = self.term(a.args[0])
            o.append('(declare-const %s %s)' % (n, self.S))
            o.append('(assert (and (>= %s %s) (<= %s %s)))' % (n, num(a.lo, self.real), n, num(a.hi, self.real)))
            for k in range(a.lo, a.hi):
                o.append('(assert (ite (<= %s %s) (<= %s %s) (>= %s %s)))' % (n, num(k, self.real), x, num((1 << k) - 1, self.real), x, num(1 << k, self.real)))
            self.done[a] = n
        elif a.kind == 'sqrt':
            n = 's%d' % a.id
            x = self.term(a.args[0])
            o.append('(declare-const %s %s)' % (n, self.S))
            o.append('(assert (>= %s %s))' % (n, num(0, self.real)))
            o.append('(assert (=> (>= %s %s) (and (<= (* %s %s) %s) (< %s (* (+ %s %s) (+ %s %s))))))' % (x, num(0, self.real), n, n, x, x, n, num(1, self.real), n, num(1, self.real)))
            self.done[a] = n
        else:  # opaque bit operations: over-approximated
            n = 'o%d' % a.id
            x = self.term(a.args[0]); y = self.term(a.args[1])
            o.append('(declare-const %s %s)' % (n, self.S))
            o.append('(assert (>= %s %s))' % (n, num(a.lo, self.real)))
            o.append('(assert (<= %s %s))' % (n, num(a.hi, self.real)))
            if a.kind == 'and':
                o.append('(assert (and (<= %s %s) (<= %s %s)))' % (n, x, n, y))
            elif a.kind == 'or':
                o.append('(assert (and (>= %s %s) (>= %s %s) (<= %s (+ %s %s))))' % (n, x, n, y, n, x, y))
            elif a.kind == 'xor':
                o.append('(assert (<= %s (+ %s %s)))' % (n, x, y))
            self.done[a] = n

    def bool(self, b):
        if b is True: return 'true'
        if b is False: return 'false'
        k = b.kind
        z = num(0, self.real)
        if k == 'le': return '(<= %s %s)' % (self.term(b.args), z)
        if k == 'eq': return '(= %s %s)' % (self.term(b.args), z)
        if k == 'ne':
            t = self.term(b.args)
            if self.real:
                return '(or (<= %s (- 1.0)) (>= %s 1.0))' % (t, t)
            return '(not (= %s 0))' % t
        if k == 'not': return '(not %s)' % self.bool(b.args)
        if k in ('and', 'or'):
            return '(%s %s)' % (k, ' '.join(self.bool(x) for x in b.args))
        if k == 'bvar':
            n = '|b_%s|' % b.args
            if n not in self.done:
                self.done[n] = n
                self.out.append('(declare-const %s Bool)' % n)
                self.vars.append((b.args, n))
            return n
        raise Exception(k)

def rest(fs, part):
    """factors left after removing `part`, or None"""
    l = list(fs)
    for p in part:
        for i, f in enumerate(l):
            if f is p or f == p:
                del l[i]
                break
        else: return None
    return l

def deps(a):
    if a.kind == 'var':
        return []
    r = []
    for t in a.args:
        if type(t) is T.Lin:
            r.extend(x for x, _ in t.m)
        elif type(t) is T.B:
            r.extend(batoms(t))
    return r

_bat = {}
def batoms(b):
    if b is True or b is False:
        return ()
    r = _bat.get(b)
    if r is None:
        if b.kind in ('le', 'eq', 'ne'):
            r = tuple(a for a, _ in b.args.m)
        elif b.kind == 'not':
            r = batoms(b.args)
        elif b.kind in ('and', 'or'):
            r = tuple(x for y in b.args for x in batoms(y))
        else:
            r = ()
        _bat[b] = r
    return r

def support(bs):
    """all atoms reachable"""
    seen = set(); st = [a for b in bs for a in batoms(b)]
    while st:
        a = st.pop()
        if a in seen: continue
        seen.add(a)
        st.extend(deps(a))
    return seen

def cone(pc, goal):
    """path conditions sharing variables (transitively) with the goal"""
    sup = [(b, {a for a in support([b]) if a.kind == 'var'}) for b in pc]
    cur = {a for a in support(goal) if a.kind == 'var'}
    keep = [False] * len(sup)
    ch = True
    while ch:
        ch = False
        for i, (b, s) in enumerate(sup):
            if not keep[i] and (not s or s & cur):
                keep[i] = True
                if not s <= cur:
                    cur |= s
                    ch = True
    return [b for i, (b, _) in enumerate(sup) if keep[i]]

def text(asserts, real, caps=None, fix=None, model=True):
    e = Emit(real, caps, fix)
    tail = []
    for b in asserts:
        s = e.bool(b)
        tail.append('(assert %s)' % s)
    lines = ['(set-option :produce-models true)'] if model else []
    lines += e.out + tail + ['(check-sat)']
    vs = [(n, s) for n, s in e.vars if s]
    if model and vs:
        lines.append('(get-value (%s))' % ' '.join(s for _, s in vs))
    return '\n'.join(lines) + '\n', e.vars

Z3 = shutil.which('z3-new') or 'z3-new'
CVC5 = shutil.which('cvc5') or 'cvc5'
SLOTS = threading.Semaphore(int(os.environ.get('VERIF_JOBS', '8')))
STATS = {'queries': 0, 'solver_time': 0.0, 'by': {}}
_lock = threading.Lock()

def cmdline(solver, timeout):
    if solver == 'z3':
        return [Z3, '-in', '-T:%d' % max(1, int(timeout + 0.999)), '-memory:3000']
    if solver == 'z3nl':
        return [Z3, '-in', '-T:%d' % max(1, int(timeout + 0.999)), '-memory:3000', 'smt.arith.solver=2']
    if solver == 'cvc5':
        return [CVC5, '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', '-']
    if solver == 'cvc5cov':
        return [CVC5, '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--nl-cov', '-']
    raise Exception(solver)

def parse_num(tok):
    return None

def parse_values(s, vars):
    """values of (get-value ...) in order of occurrence"""
    res = {}
    names = {sn: n for n, sn in vars if sn}
    pos = s.find('((')
    if pos < 0:
        return res
    toks = re.findall(r'\(|\)|\|[^|]*\||[^\s()]+', s[pos:])
    i = 0
    def expr():
        nonlocal i
        t = toks[i]
        i += 1
        if t == '(':
            l = []
            while i < len(toks) and toks[i] != ')':
                l.append(expr())
            i += 1
            return l
        return t
    try:
        l = expr()
    except IndexError:
        return res
    from fractions import Fraction
    def val(e):
        if isinstance(e, str):
            if e in ('true', 'false'):
                return e == 'true'
            return Fraction(e.rstrip('?'))
        if e[0] == '-' and len(e) == 2:
            return -val(e[1])
        if e[0] == '/':
            return val(e[1]) / val(e[2])
        raise ValueError(str(e))
    for p in l:
        try:
            if isinstance(p, list) and p[0] in names:
                res[names[p[0]]] = val(p[1])
        except Exception:
            pass
    return res

class Run:
    """one solver process; decided exactly once"""
    def __init__(self, solver, txt, vars, timeout, tag, done):
        self.solver, self.txt, self.vars, self.timeout, self.tag, self.done = solver, txt, vars, timeout, tag, done
        self.res = None; self.model = {}; self.p = None; self.killed = False; self.dt = 0.0
        self.th = threading.Thread(target=self.go, daemon=True)
        self.th.start()
    def go(self):
        with SLOTS:
            if self.killed:
                self.done.release(); return
            t0 = time.time()
            try:
                self.p = subprocess.Popen(cmdline(self.solver, self.timeout), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                try:
                    out, _ = self.p.communicate(self.txt, timeout=self.timeout + 5)
                except subprocess.TimeoutExpired:
                    self.p.kill(); out, _ = self.p.communicate()
            except Exception:
                out = ''
            self.dt = time.time() - t0
            first = out.split('\n', 1)[0].strip() if out else ''
            if first == 'unsat':
                self.res = 'unsat'
            elif first == 'sat' :
                self.res = 'sat'
                self.model = parse_values(out, self.vars)
            if os.environ.get('VERIF_DEBUG_SMT') and '(error' in out and first not in ('unsat',):
                print(out[:500])
            with _lock:
                STATS['queries'] += 1
                STATS['solver_time'] += self.dt
        self.done.release()
    def kill(self):
        self.killed = True
        p = self.p
        if p is not None and p.poll() is None:
            try: p.kill()
            except Exception: pass

def race(runs_spec, timeout, accept):
    """runs_spec: list of (solver, txt, vars, tag). Returns first accepted Run or None; kills the rest."""
    done = threading.Semaphore(0)
    runs = [Run(s, t, v, timeout, tag, done) for s, t, v, tag in runs_spec]
    seen = set(); win = None
    for _ in runs:
        done.acquire()
        for r in runs:
            if r not in seen and not r.th.is_alive() or (r.res is not None and r not in seen):
                seen.add(r)
                if r.res is not None and win is None and accept(r):
                    win = r
        if win:
            break
    for r in runs:
        r.kill()
    if win:
        with _lock:
            STATS['by'][win.tag] = STATS['by'].get(win.tag, 0) + 1
    return win

def to_int_models(model, asserts):
    """integer candidates from a (possibly real) model that satisfy every assertion exactly"""
    import math, itertools
    base = {}
    frac = []
    for k, v in model.items():
        if isinstance(v, bool):
            base[k] = v
        else:
            base[k] = math.floor(v)
            if v != math.floor(v):
                frac.append(k)
    cands = [base]
    c2 = {k: (v if isinstance(v, bool) else v + (1 if k in frac else 0)) for k, v in base.items()}
    cands.append(c2)
    for k in frac[:6]:
        c = dict(base); c[k] += 1; cands.append(c)
        c = dict(c2); c[k] -= 1; cands.append(c)
    return [c for c in cands if sat_concrete(asserts, c)]

def sat_concrete(asserts, asg):
    memo = {}
    try:
        for a in support(asserts):
            if a.kind == 'var':
                v = asg.get(a.name)
                if v is not None and not (a.lo <= v <= a.hi):
                    return False
        return all(T.evalb(b, asg, memo) for b in asserts)
    except ZeroDivisionError:
        return False

def solve(asserts, timeout, quick=1.5, want_sat=True):
    """('unsat', tag) | ('sat', model) | ('unknown', None)"""
    asserts = [b for b in asserts if b is not True]
    if any(b is False for b in asserts):
        return 'unsat', 'trivial'
    if not asserts:
        return 'sat', {}
    tr, vr = text(asserts, True)
    ti, vi = text(asserts, False)
    found = {}
    def accept(r):
        if r.res == 'unsat':
            return 'cap' not in r.tag
        if r.res == 'sat':
            ms = to_int_models(r.model, asserts)
            if ms:
                found['m'] = ms[0]
                return True
        return False
    w = race([('z3', tr, vr, 'z3-real'), ('z3', ti, vi, 'z3-int')], quick, accept)
    if w is None:
        specs = [('z3', tr, vr, 'z3-real'), ('z3', ti, vi, 'z3-int'), ('cvc5', ti, vi, 'cvc5-int'), ('cvc5cov', tr, vr, 'cvc5-real')]
        if want_sat:
            for cap in (1 << 5, 1 << 10, 1 << 20, 10 ** 15, 1 << 64):
                tc, vc = text(asserts, False, caps=cap)
                specs.append(('z3', tc, vc, 'z3-int-cap'))
        w = race(specs, timeout, accept)
    if w is None:
        return 'unknown', None
    if w.res == 'unsat':
        return 'unsat', w.tag
    return 'sat', found['m']

def proof_text(given, goal, hidden, real):
    hs = set()
    for t in hidden:
        if type(t) is int: continue
        if len(t.m) != 1: raise Exception('only single products can be hidden')
        hs.add(t.m[0][0])
    e = Emit(real, hidden=hs)
    bs = [e.bool(b) for b in given] + ['(not %s)' % e.bool(goal)]
    return '\n'.join(e.out + ['(assert %s)' % b for b in bs] + ['(check-sat)']) + '\n', e.vars

def prove(given, goal, hidden, timeout):
    tr, vr = proof_text(given, goal, hidden, True)
    ti, vi = proof_text(given, goal, hidden, False)
    ok = lambda r: r.res == 'unsat'
    w = race([('z3', tr, vr, 'proof-z3-real'), ('z3', ti, vi, 'proof-z3-int'), ('cvc5', ti, vi, 'proof-cvc5-int'), ('cvc5cov', tr, vr, 'proof-cvc5-real')], timeout, ok)
    return ('unsat', w.tag) if w else ('unknown', None)

_feas = {}
def solve_feas(pc, timeout=2):
    """quick feasibility test of a path condition: 'unsat' or anything else"""
    key = frozenset(pc)
    r = _feas.get(key)
    if r is None:
        tr, vr = text(pc, True, model=False)
        ti, vi = text(pc, False, model=False)
        w = race([('z3', tr, vr, 'feas-real'), ('z3', ti, vi, 'feas-int')], timeout, lambda r: r.res == 'unsat' or r.res == 'sat' and 'int' in r.tag)
        r = w.res if w else 'unknown'
        _feas[key] = r
    return r
