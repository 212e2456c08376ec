"""Check driver: check.py <property> [quick|thorough]"""
import itertools, json, os, sys, time, random, subprocess, hashlib, traceback
import multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import terms as T
import exec as X
import models
import smt
from concurrent.futures import ThreadPoolExecutor

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def load_spec():
    return json.load(open(os.path.join(V, 'spec.json')))

def build(crate):
    r = subprocess.run([os.path.join(V, 'tools/build.sh'), crate], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print('ERROR: build of %s failed' % crate)
        sys.exit(2)

class Native:
    def __init__(self, crate):
        self.p = subprocess.Popen([os.path.join(V, 'target/h/debug', crate)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
    def run(self, h, asg):
        self.p.stdin.write(h + ''.join(' %s=%d' % (k, v) for k, v in asg.items()) + '\n')
        self.p.stdin.flush()
        out = self.p.stdout.readline().rstrip('\n').split('\t')
        while len(out) < 4: out.append('')
        return out  # outcome, checks, obs, missing
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(2)
        except Exception:
            self.p.kill()

def rand_value(r, bits):
    if bits == 1: return r.randrange(2)
    c = r.random()
    if c < 0.10: return r.randrange(0, 4) % (1 << bits)
    if c < 0.16: return (1 << bits) - 1 - r.randrange(0, 3)
    if c < 0.28: return r.randrange(1 << min(bits, 10))
    e = r.randrange(1, bits + 1)
    return r.randrange(1 << (e - 1), 1 << e) if e > 1 else 1

def mix_values(r, inputs, hints):
    """random assignment; hints: bounds learned from assumptions"""
    asg = {}
    scale = None
    if r.random() < 0.6:
        scale = r.randrange(8, 100)
    for k, bits in inputs.items():
        lo, hi = hints.get(k, (0, (1 << bits) - 1))
        c = r.random()
        if hi - lo < (1 << bits) - 1 and c < 0.8:
            if r.random() < 0.5: asg[k] = r.randint(lo, hi)
            else:
                e = r.randrange(0, (hi - lo).bit_length() + 1)
                asg[k] = lo + min(hi - lo, r.randrange(1 << e) if e else 0)
        elif scale and bits >= 64 and c < 0.85:
            asg[k] = min((1 << bits) - 1, r.randrange(1 << max(1, scale - 8), 1 << min(bits, scale + 1)) if scale <= bits else rand_value(r, bits))
        else:
            asg[k] = rand_value(r, bits)
    return asg

def interp(prog, h, asg):
    """concrete run in the engine -> same triple as the native run"""
    M = X.Machine(prog, concrete=asg)
    ps = M.run(h)
    if len(ps) != 1: return ('FORK %d' % len(ps), '', '')
    p = ps[0]; st = p[1]
    k = p[0]
    out = {'ok': 'OK', 'assume': 'ASSUME', 'quietpanic': 'QUIETPANIC'}.get(k)
    if k == 'panic': out = 'PANIC'
    if k.startswith('check:'): out = 'CHECK ' + k[6:]
    ls = []
    for l in st.labels:
        if not ls or ls[-1] != l: ls.append(l)
    def ov(v):
        if type(v) is bool: return int(v)
        return v
    return (out, '|'.join(ls), ','.join('%s=%s' % (n, ov(v)) for n, v in st.obs))

def long_loops(prog, h, cut, seed):
    """loops of the selected functions that concrete runs go around more than seven times"""
    r = random.Random(seed)
    inputs = {}; found = set()
    done = 0; t0 = time.time()
    while done < 60 and time.time() - t0 < 20:
        M = X.Machine(prog, concrete=mix_values(r, inputs, {}) if inputs else {}, cut=cut)
        if M.run(h)[0][0] != 'assume': done += 1
        new = {k: b for k, b in M.inputs.items() if k not in inputs}
        inputs.update(new)
        found |= M.long
    return found

def choices(M, m):
    """the solver's choice for the functions of the harness (quote_..) that it treats as any function"""
    out = {}
    memo = {}
    for k, n in M.ufs.items():
        f = k[0].split('::')[-1]
        if not f.startswith('quote_') or 'uf%d.some' % n not in m: continue
        xs = [T.evalt(x, m, memo) for x in k[1:] if type(x) is not tuple]
        xs = (xs + [0] * 4)[:4]
        some = m['uf%d.some' % n]
        key = '%s/%s' % (f, ','.join('%d' % x for x in xs))
        out[key + '/0'] = 2 if some else 1
        if some: out[key + '/1'] = int(m.get('uf%d.11' % n, 0))
    return out

def refined(M, prog, ob, m, tend):
    """models of an obligation with the real results of the functions treated as uninterpreted, where the arguments are the model's"""
    asserts = list(ob[1]) + ([] if ob[2] is True else [ob[2]])
    known = []      # (equalities of arguments, of results)
    for rounds in range(14):
        if time.time() > tend: return
        wrong = None
        for n in sorted(M.ufargs):
            if M.ufargs[n] is None or not any(k.startswith('uf%d.' % n) for k in m): continue
            fn, av, dty = M.ufargs[n]
            if fn.name.split('::')[-1].startswith('quote_'): continue
            try: eqs, res = models.real_result(prog, (fn, av, dty, n), m)
            except Exception as e:
                if os.environ.get('VERIF_DEBUG'): print('refine', fn.name, repr(e)[:200], flush=True)
                continue
            memo = {}
            if all(x is True or x is not False and T.evalb(x, m, memo) for x in res): continue
            wrong = (eqs, res)
            break
        if wrong is None:
            yield {k: int(v) for k, v in m.items() if k in M.inputs}, choices(M, m)
            return
        eqs, res = [x for x in wrong[0] if x is not True], [x for x in wrong[1] if x is not True]
        st, n = smt.solve(asserts + eqs + res, min(8, max(1, tend - time.time())))[:2]
        if st == 'sat':
            asserts = asserts + eqs + res
            m = n
            continue
        asserts = asserts + [T.disj([T.neg(T.conj(eqs)), T.conj(res)])]
        st, n = smt.solve(asserts, min(8, max(1, tend - time.time())))[:2]
        if st != 'sat': return
        m = n

def anchored(M, ob, examples, tend):
    """the same obligation with the inputs that reach functions treated as uninterpreted fixed to those of an example"""
    atoms = []
    def walk(v):
        if type(v) is T.Lin: atoms.extend(a for a, _ in v.m)
        elif type(v) is T.B: atoms.extend(smt.batoms(v))
        elif type(v) is models.Held: walk(v.v)
        elif type(v) is X.En: walk(v.f)
        elif type(v) is X.Limbs: walk(v.t)
        elif type(v) in (tuple, list):
            for x in v: walk(x)
    for h in M.ufargs.values():
        if h is not None and not h[0].name.split('::')[-1].startswith('quote_'): walk(h[1])
    seen = set()
    while atoms:
        a = atoms.pop()
        if a in seen: continue
        seen.add(a); atoms.extend(smt.deps(a))
    names = {a.name: a for a in seen if a.kind == 'var' and a.name in M.inputs}
    asserts = list(ob[1]) + ([] if ob[2] is True else [ob[2]])
    for e in examples:
        if time.time() > tend: return
        fix = [T.eq(T.of_atom(names[k]), int(e[k]), None) for k in sorted(names)]
        fix = [x for x in fix if x is not True]
        if any(x is False for x in fix): continue
        st, m = smt.solve(asserts + fix, min(8, max(1, tend - time.time())))[:2]
        if os.environ.get('VERIF_DEBUG'): print('anchored', len(names), st, flush=True)
        if st == 'sat': yield (ob[0], asserts + fix, True) + tuple(ob[3:]), m

def native_key(o):
    out = o[0]
    if out.startswith('PANIC'): out = 'PANIC'
    return (out, o[1], o[2])

END = None       # when the run is to be over
FOUND = None     # violations, as soon as they are confirmed
STOP = None      # set when one is
KNOWN = []
def told_found(h, v):
    """tells the main process of a violation at once, unless it is a known finding"""
    if FOUND is None or any(k['harness'] == h and v[2].startswith(k['outcome']) for k in KNOWN): return
    FOUND.put((h, v))
    STOP.set()

def run_harness(args):
    crate, h, opts, budget, jobs, seed = args
    t0 = time.time()
    smt.SLOTS = __import__('threading').Semaphore(jobs)
    R = {'harness': h, 'status': 'ok', 'violations': [], 'errors': [], 'queries': 0, 'trivial': 0, 'discharged': 0, 'paths': 0, 'labels': {}}
    try:
        prog = X.Program(os.path.join(V, 'target/dump', crate + '.json'), models)
        nat = Native(crate)
        _run_harness(R, prog, nat, h, opts, t0, budget, seed)
        nat.close()
    except X.Unsupported as e:
        R['status'] = 'error'; R['errors'].append('%s: not encodable: %s' % (h, e))
    except Exception as e:
        R['status'] = 'error'; R['errors'].append('%s: %s' % (h, traceback.format_exc()[-1500:]))
    R['solver_time'] = smt.STATS['solver_time']; R['solver_runs'] = smt.STATS['queries']; R['by'] = dict(smt.STATS['by'])
    smt.STATS.update(queries=0, solver_time=0.0, by={})
    R['wall'] = time.time() - t0
    return R

def _run_harness(R, prog, nat, h, opts, t0, budget, seed):
    deadline = max(END or t0 + budget, t0 + 20)
    obligations = []
    labels = {}
    def on_check(st, label, b):
        labels.setdefault(label, [0, True])
        labels[label][0] += 1
        if b is not False: labels[label][1] = False
        if len(labels[label]) < 12: labels[label].append(list(st.pc))
        nb = (not b) if type(b) is bool else T.neg(T.redecide(b, st.env)) if T.redecide(b, st.env) not in (True, False) else not T.redecide(b, st.env)
        obligations.append((label, list(st.pc), nb))
    def on_panic(st, msg, where):
        obligations.append(('panic', list(st.pc), True, '%s in %s' % (msg, where)))
    def feas(pc):
        r = smt.solve_feas(pc)
        return r != 'unsat'
    proofs = []
    def on_qed(st, label, goal, given, hidden):
        for g in given: obligations.append(('given:' + label, list(st.pc), T.neg(g) if g is not False else True))
        proofs.append((label, given, goal, hidden))
    cut_at = set()
    if opts.get('cut'): cut_at = long_loops(prog, h, opts['cut'], seed)
    while True:
        M = X.Machine(prog, on_check=on_check, on_panic=on_panic, feas=feas, deadline=deadline, max_paths=opts.get('max_paths', 20000), max_steps=opts.get('max_steps', 6000000), loop_feas=opts.get('loop_feas', 3), merge=opts.get('merge'),
                      cut=opts.get('cut'), uf=opts.get('uf'), on_qed=on_qed, cut_at=cut_at)
        try:
            ps = M.run(h)
            break
        except X.CutFound as e:
            cut_at.add(e.args[0])
            obligations.clear(); labels.clear(); proofs.clear()
    if cut_at: R['loops_cut'] = sorted({prog.fns[i].name for i, _ in cut_at})
    if M.ufs: R['uninterpreted'] = sorted({k[0] for k in M.ufs})
    R['explore'] = time.time() - t0
    R['paths'] = len(ps); R['steps'] = M.steps; R['forks'] = M.forks
    R['functions'] = sorted({prog.fns[i].name for i in M.executed if '/repo/' in prog.fns[i].file})
    R['inputs'] = dict(M.inputs)
    R['kinds'] = {}
    for p in ps: R['kinds'][p[0]] = R['kinds'].get(p[0], 0) + 1
    # input intervals from assumptions common to all paths (only used to aim the random vectors)
    hints = {}
    for p in ps:
        pass
    if ps:
        envs = [p[1].env for p in ps if p[0] in ('ok', 'panic', 'checkfail')][:200]
        for k, bits in M.inputs.items():
            a = T._atoms.get(('var', (k, 0, (1 << bits) - 1)))
            if a is None or not envs: continue
            bs = [T.abounds(a, e) for e in envs]
            hints[k] = (min(b[0] for b in bs), max(b[1] for b in bs))
    # 1. translator validation and native witnesses
    r = random.Random(seed * 1000003 + int(hashlib.sha1(h.encode()).hexdigest()[:8], 16))
    hit = {}
    nvec = opts.get('vectors', 60 if TIER == 'quick' else 400)
    done = 0; samples = []; mism = []
    examples = [dict({k: 0 for k in M.inputs}, **{k: v for k, v in e.items() if k in M.inputs}) for e in opts.get('examples', [])]
    def around(base):
        # an example with a few inputs changed
        asg = dict(base)
        for k in asg:
            c = r.random()
            if c < 0.08: asg[k] = max(0, min((1 << M.inputs[k]) - 1, asg[k] + r.randrange(-3, 4)))
            elif c < 0.16: asg[k] = mix_values(r, {k: M.inputs[k]}, hints)[k]
            elif c < 0.22: asg[k] = asg[r.choice([x for x in asg if M.inputs[x] == M.inputs[k]])]
        return asg
    tried = 0; okc = 0
    while done < nvec and tried < nvec * 40:
        if time.time() > deadline: break
        tried += 1
        if examples and tried <= len(examples): asg = dict(examples[tried - 1])
        elif examples and tried % 2: asg = around(examples[tried // 2 % len(examples)])
        else: asg = mix_values(r, M.inputs, hints)
        o = nat.run(h, asg)
        if o[0] == 'ASSUME' and (okc * 3 < done or tried < nvec * 20) and done > 2:
            continue
        done += 1
        if o[0] != 'ASSUME': okc += 1
        for l in o[1].split('|'):
            if l: hit.setdefault(l, asg)
        if o[0].startswith('CHECK') or o[0].startswith('PANIC'):
            R.setdefault('native_fail', []).append((asg, o[0]))
        if done <= nvec:
            c = interp(prog, h, asg)
            if c != native_key(o):
                mism.append((asg, native_key(o), c))
            elif len(samples) < 2 and o[0] == 'OK' and o[1]:
                samples.append({'harness': h, 'inputs': {k: str(v) for k, v in asg.items()}, 'outcome': o[0], 'checks': o[1][:200], 'observed': o[2][:200]})
    R['validated'] = done; R['validated_nontrivial'] = okc; R['samples'] = samples
    if mism:
        R['status'] = 'error'
        R['errors'].append('%s: encoding disagrees with the compiled code on %s' % (h, str(mism[0])[:800]))
        return
    # 2. obligations
    ex = ThreadPoolExecutor(max_workers=opts.get('par', 6))
    tmo = opts.get('timeout', 60 if TIER == 'quick' else 600)
    seen = {}
    for ob in obligations:
        label, pc, nb = ob[0], ob[1], ob[2]
        if nb is False:
            R['trivial'] += 1
            continue
        key = (label, frozenset(pc), nb)
        if key in seen: continue
        seen[key] = ob
    obs = list(seen.values())
    for label, given, goal, hidden in {(l, g, q, hd): 1 for l, g, q, hd in proofs}:
        obs.append(('proof', given, goal, hidden, label))
    stop = []
    loose = bool(cut_at or M.ufs)   # a model may then lie outside of what the real code computes
    missed = []
    def work(ob):
        if stop or (STOP is not None and STOP.is_set()): return None
        if ob[0] == 'proof':
            left = deadline - time.time()
            if left <= 1: return (ob, 'unknown', None)
            return (ob,) + smt.prove(ob[1], ob[2], ob[3], min(tmo, left))
        left = deadline - time.time()
        if left <= 1: return (ob, 'unknown', None)
        asserts = list(ob[1]) + ([] if ob[2] is True else [ob[2]])
        if ob[0].startswith('given:') and ob[2] is not True:
            # a fact of a proof step usually holds by itself
            res = smt.solve([ob[2]], min(5, left), want_sat=False)
            if res[0] == 'unsat': return (ob,) + res
        res = smt.solve(asserts, min(tmo, left))
        return (ob,) + res
    bad = []
    unknown = []
    for res in ex.map(work, obs):
        if res is None: continue
        ob, st, m = res
        R['queries'] += 1
        if st == 'unsat':
            R['discharged'] += 1
        elif st == 'sat' and (ob[0] == 'proof' or ob[0].startswith('given:')):
            missed.append((ob, {}, None))
        elif st == 'sat':
            asg = {k: int(v) for k, v in m.items() if k in M.inputs}
            more = choices(M, m) if M.ufs else {}
            o = nat.run(h, {**asg, **more})
            if more and not o[0].startswith(('CHECK', 'PANIC')): o = nat.run(h, asg)
            elif more: asg.update(more)
            what = ob[0] if ob[0] != 'panic' else 'panic: ' + ob[3]
            if o[0].startswith('CHECK') or o[0].startswith('PANIC'):
                bad.append((what, asg, o[0]))
                told_found(h, bad[-1])
                if len(bad) >= 5: stop.append(1)
            elif loose:
                missed.append((ob, asg, m))
            else:
                R['status'] = 'error'
                R['errors'].append('%s: counterexample for [%s] does not reproduce natively: %s -> %s' % (h, what, asg, o[0]))
        else:
            unknown.append(ob)
    ex.shutdown()
    R['violations'] = bad
    if bad: return
    if STOP is not None and STOP.is_set():
        R['status'] = 'stopped'
        return
    if missed or (unknown and loose):
        # the solver's model involves values standing for a loop or an uninterpreted function: look for a run of
        # the compiled code on which the same check fails
        tref = min(deadline, time.time() + opts.get('refine', 60))
        for ob, asg, m in missed[:8]:
            if m is None or not M.ufargs or time.time() > tref: continue
            for asg, more in (r for o, n in itertools.chain([(ob, m)], anchored(M, ob, examples, tref)) for r in refined(M, prog, o, n, tref)):
                o = nat.run(h, {**asg, **more})
                if o[0].startswith('CHECK') or o[0].startswith('PANIC'):
                    R['violations'] = [(o[0], {**asg, **more}, o[0])]
                    told_found(h, R['violations'][0])
                    return
        for ob, asg, m in missed[:5]:
            R['status'] = 'error'
            R['errors'].append('%s: [%s] does not follow; model inputs %s' % (h, ob[4] if ob[0] == 'proof' else ob[0], asg))
        tend = min(deadline, time.time() + opts.get('native_search', 40))
        near = [dict({k: 0 for k in M.inputs}, **a) for _, a, _ in missed if a] + examples
        i = 0
        while time.time() < tend and i < 60000:
            i += 1
            if near and i % 3 == 0:
                asg = around(near[i // 3 % len(near)])
            else: asg = mix_values(r, M.inputs, hints)
            o = nat.run(h, asg)
            if o[0].startswith('CHECK') or o[0].startswith('PANIC'):
                R['violations'] = [(o[0], asg, o[0])]
                told_found(h, R['violations'][0])
                return
        R['native_search'] = i
    for ob in unknown[:5]:
        if os.environ.get('VERIF_DEBUG'):
            print('--- unknown', h, ob[0], ob[3:], flush=True)
            if ob[0] == 'proof':
                for b in ob[1]: print('   given', T.showb(b))
                print('   goal', T.showb(ob[2]), flush=True)
                os.makedirs(os.path.join(V, 'target/unk'), exist_ok=True)
                open(os.path.join(V, 'target/unk/%s-proof-%d.smt2' % (h, unknown.index(ob))), 'w').write(smt.proof_text(ob[1], ob[2], ob[3], True)[0])
                R['status'] = 'error'
                R['errors'].append('%s: no answer within the time limit for proof step [%s]' % (h, ob[4]))
                continue
            for b in ob[1]: print('   pc', T.showb(b))
            print('   goal violated:', T.showb(ob[2]), flush=True)
            asserts = list(ob[1]) + ([] if ob[2] is True else [ob[2]])
            os.makedirs(os.path.join(V, 'target/unk'), exist_ok=True)
            for real in (0, 1):
                open(os.path.join(V, 'target/unk/%s-%d-%s.smt2' % (h, unknown.index(ob), 'real' if real else 'int')), 'w').write(smt.text(asserts, bool(real))[0])
        R['status'] = 'error'
        R['errors'].append('%s: no answer within the time limit for [%s]' % (h, ob[0] if ob[0] != 'panic' else 'panic: ' + ob[3]))
    if unknown:
        R['unknown'] = len(unknown)
        # concretise the inputs: a vector that failed natively pins the undecided obligation for the solver
        for asg, out in R.get('native_fail', [])[:5]:
            for ob in unknown:
                lab = ob[0]
                if lab == 'proof': continue
                if out.startswith('PANIC') != (lab == 'panic') or (out.startswith('CHECK') and out[6:] != lab): continue
                asserts = list(ob[1]) + ([] if ob[2] is True else [ob[2]])
                if smt.sat_concrete(asserts, asg):
                    txt, _ = smt.text(asserts, False, fix=asg)
                    r = smt.race([('z3', txt, [], 'z3-int-pinned')], 20, lambda r: r.res is not None)
                    if r is not None and r.res == 'sat':
                        R['violations'].append((lab if lab != 'panic' else 'panic: ' + ob[3], asg, out))
                        return
        return
    # 3. vacuity: each label must be reachable
    want = opts.get('labels')
    for l, info in labels.items():
        if info[1]:
            R['labels'][l] = 'shown unreachable'   # check(false): the path itself must not exist
            continue
        if l in hit:
            R['labels'][l] = 'native vector'
            continue
        for pc in info[2:]:
            res, m = smt.solve(pc, min(20, max(2, deadline - time.time())))
            if res == 'sat':
                asg = {k: int(v) for k, v in m.items() if k in M.inputs}
                o = nat.run(h, asg)
                if l in o[1].split('|'):
                    R['labels'][l] = 'solver witness'
                    break
        else:
            R['labels'][l] = 'unreached'
            if l not in opts.get('may_be_unreached', []):
                R['status'] = 'error'; R['errors'].append('%s: no witness reaches check [%s]' % (h, l))
    if all(i[1] for i in labels.values()) and not opts.get('panic_only'):
        R['status'] = 'error'; R['errors'].append('%s: no check is ever reached' % h)

def main():
    prop = sys.argv[1]
    global TIER
    if len(sys.argv) > 2: TIER = sys.argv[2]
    only = sys.argv[3:] 
    t0 = time.time()
    spec = load_spec()['properties'][prop]
    total = float(os.environ.get('VERIF_BUDGET', spec.get('budget', 700) if TIER == 'quick' else spec.get('thorough_budget', 7200)))
    crates = sorted({x['crate'] for x in spec['harnesses']})
    for c in crates: build(c)
    tb = time.time() - t0
    jobs = []
    hs = []
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == prop]
    for x in spec['harnesses']:
        if x.get('tier') == 'thorough' and TIER == 'quick': continue
        if only and x['name'] not in only: continue
        opts = dict(x.get('opts', {}))
        if TIER == 'thorough': opts.update(x.get('thorough', {}))
        hs.append((x['crate'], x['name'], opts))
    nproc = max(1, min(len(hs), 4))
    per = max(2, 8 // nproc)
    global END, FOUND, STOP, KNOWN
    END = t0 + total
    KNOWN = known
    ctx = mp.get_context('fork')
    if not only and not os.environ.get('VERIF_ALL'):
        FOUND, STOP = ctx.SimpleQueue(), ctx.Event()
    found = []
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        its = [pool.apply_async(run_harness, ((c, h, o, max(30, total - tb - 20), per, SEED),)) for c, h, o in hs]
        since = None
        while not all(i.ready() for i in its):
            time.sleep(0.05)
            while FOUND is not None and not FOUND.empty(): found.append(FOUND.get())
            if found and since is None: since = time.time()
            # a violation settles the check; what is found within moments is reported with it
            if since is not None and time.time() - since > 5: break
            if time.time() > END + 90: break
        while FOUND is not None and not FOUND.empty(): found.append(FOUND.get())
        res = []
        for (c, h, o), i in zip(hs, its):
            if i.ready(): res.append(i.get())
            else:
                res.append({'harness': h, 'status': 'stopped', 'violations': [v for x, v in found if x == h], 'errors': [], 'queries': 0, 'trivial': 0, 'discharged': 0, 'paths': 0, 'labels': {}})
                if not found:
                    res[-1]['status'] = 'error'; res[-1]['errors'].append('%s: no answer within the time limit' % h)
        pool.terminate()
    code = 0
    nviol = 0
    told = set()
    os.makedirs(os.path.join(V, 'target/replay'), exist_ok=True)
    for (c, h, o), R in zip(hs, res):
        for e in R['errors']:
            print('ERROR', e[:1500])
        kf = [k for k in known if k['harness'] == h]
        for what, asg, out in R['violations']:
            ks = [k for k in kf if out.startswith(k['outcome'])]
            if ks:
                if ks[0]['what'] not in told:
                    told.add(ks[0]['what'])
                    print('KNOWN-FINDING: property=%s %s' % (prop, ks[0]['what']))
                continue
            nviol += 1
            path = os.path.join(V, 'target/replay', '%s-%s-%d.json' % (prop, h, nviol))
            json.dump({'property': prop, 'harness': h, 'crate': c, 'obligation': what, 'native_outcome': out, 'inputs': {k: str(v) for k, v in asg.items()},
                       'replay': "echo '%s%s' | %s" % (h, ''.join(' %s=%d' % kv for kv in asg.items()), os.path.join(V, 'target/h/debug', c))}, open(path, 'w'), indent=1)
            print('counterexample %s: %s' % (h, ' '.join('%s=%d' % kv for kv in asg.items())))
            print('  [%s] -> %s' % (what, out))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        if R['status'] == 'error': code = max(code, 2)
    if nviol: code = 1
    cov = {
        'states': sum(R.get('paths', 0) + R.get('forks', 0) for R in res),
        'transitions': sum(R.get('steps', 0) for R in res),
        'traces_validated_against_impl': sum(R.get('validated', 0) for R in res),
        'samples': [s for R in res for s in R.get('samples', [])][:8],
        'explanation': 'states: symbolic path states; transitions: MIR statements and terminators executed symbolically; traces: concrete vectors on which the encoding and the compiled code were compared',
        'functions_encoded': sorted({f for R in res for f in R.get('functions', [])}),
        'queries': sum(R['queries'] for R in res), 'queries_unsat': sum(R['discharged'] for R in res),
        'decided_by_normalisation': sum(R['trivial'] for R in res),
        'solver_runs': sum(R.get('solver_runs', 0) for R in res), 'solver_time_s': round(sum(R.get('solver_time', 0) for R in res), 2),
        'decided_by': {k: sum(R.get('by', {}).get(k, 0) for R in res) for k in sorted({k for R in res for k in R.get('by', {})})},
        'bounds': spec.get('bounds', ''),
        'harnesses': [{k: (round(v, 2) if isinstance(v, float) else v) for k, v in R.items() if k in ('harness', 'status', 'paths', 'kinds', 'queries', 'discharged', 'trivial', 'labels', 'wall', 'explore', 'inputs', 'validated', 'validated_nontrivial', 'loops_cut', 'uninterpreted')} for R in res],
    }
    if cov['traces_validated_against_impl'] and not cov['samples']:
        cov['samples'] = [{'harness': R['harness'], 'inputs': 'see harnesses'} for R in res][:2]
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + ['sp-arithmetic and sp-std are stand-ins (harness/stubs), their git sources are not available offline'],
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if code == 0:
        print('OK property=%s: %d harnesses, %d paths, %d queries (%d unsat, %d by normalisation), solver %.1fs, wall %.1fs (build %.1fs)' % (
            prop, len(res), sum(R['paths'] for R in res), cov['queries'], cov['queries_unsat'], cov['decided_by_normalisation'], cov['solver_time_s'], time.time() - t0, tb))
    if os.environ.get('VERIF_VERBOSE') or only:
        for R in res:
            print({k: v for k, v in R.items() if k not in ('samples', 'functions', 'violations', 'errors')})
    sys.exit(code)

if __name__ == '__main__':
    main()
