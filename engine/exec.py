"""Path-based symbolic executor over dumped MIR.

Values: int/char -> int | Lin; bool -> bool | B; struct/tuple/array/closure -> tuple; enum -> En; union -> Un;
references and pointers -> Ptr (or an int address when dangling); fn pointers -> FnV; U256/U512 limb arrays -> Limbs.
A statement that forks re-executes from its start in the other state, so statements only write at their end.
"""
import json, sys, time
import terms as T
from terms import Lin, B

sys.setrecursionlimit(20000)
HALF = {b: 1 << (b - 1) for b in (8, 16, 32, 64, 128)}
FULL = {b: 1 << b for b in (8, 16, 32, 64, 128, 256, 512)}

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class PathEnd(Exception):
    def __init__(self, kind, msg=''): self.kind = kind; self.msg = msg
class Panic(Exception):
    def __init__(self, msg): self.msg = msg

class _U:
    def __repr__(self): return 'UNINIT'
UNINIT = _U()
class _O:
    def __repr__(self): return 'OPAQUE'
OPAQUE = _O()

class En:
    __slots__ = ('v', 'f')
    def __init__(self, v, f): self.v = v; self.f = f
    def __repr__(self): return 'En%d%r' % (self.v, self.f)
class Un:
    __slots__ = ('i', 'v')
    def __init__(self, i, v): self.i = i; self.v = v
    def __repr__(self): return 'Un%d(%r)' % (self.i, self.v)
class Limbs:
    __slots__ = ('t', 'n')
    def __init__(self, t, n): self.t = t; self.n = n
    def __repr__(self): return 'Limbs(%r)' % (self.t,)
class Ptr:
    __slots__ = ('a', 'p', 'm')
    def __init__(self, a, p, m=None): self.a = a; self.p = p; self.m = m
    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.a, self.p, self.m)
    def __eq__(self, o): return isinstance(o, Ptr) and self.a == o.a and self.p == o.p
    def __hash__(self): return hash((self.a, self.p))
class FnV:
    __slots__ = ('i',)
    def __init__(self, i): self.i = i
class IntV:
    """symx::Int"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'IntV(%r)' % (self.t,)

NONE = En(0, ())
def some(v): return En(1, (v,))
def okv(v): return En(0, (v,))
def errv(v): return En(1, (v,))

W64 = 1 << 64
def limb(t, i):
    return T.mod(T.div(t, 1 << (64 * i)), W64)

class Frame:
    __slots__ = ('fn', 'base', 'blk', 'idx', 'dest', 'target', 'seen')
    def __init__(self, fn, base, dest, target):
        self.fn = fn; self.base = base; self.blk = 0; self.idx = 0; self.dest = dest; self.target = target; self.seen = None
    def copy(self):
        f = Frame(self.fn, self.base, self.dest, self.target)
        f.blk = self.blk; f.idx = self.idx; f.seen = dict(self.seen) if self.seen else None
        return f

class State:
    __slots__ = ('mem', 'frames', 'pc', 'pcs', 'env', 'allow', 'sites', 'obs', 'labels', 'steps', 'data', 'reads', 'ghosts', 'given', 'hidden', 'apps', 'slots', 'marks')
    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.pcs = dict(self.pcs)
        s.env = self.env.copy()
        s.allow = self.allow
        s.sites = dict(self.sites)
        s.obs = list(self.obs)
        s.labels = list(self.labels)
        s.steps = self.steps
        s.data = dict(self.data)
        s.reads = self.reads
        s.ghosts = self.ghosts; s.given = self.given; s.hidden = self.hidden; s.apps = self.apps; s.slots = self.slots; s.marks = self.marks
        return s
    def assume(self, b):
        if b is True: return True
        if b is False:
            self.env.bad = True
            return False
        if b.kind == 'and':
            for x in b.args: self.assume(x)
            return not self.env.bad
        if b in self.pcs: return True
        if T.neg(b) in self.pcs:
            self.env.bad = True
            return False
        self.pc.append(b)
        self.pcs[b] = True
        self.env.learn(b)
        return not self.env.bad

    def assume_bounds(self, v, lo, hi):
        k, g = T.formkey(v)
        l, h = lo - v.c, hi - v.c
        if g > 0: self.env._set(k, -(-l // g), h // g)
        else: self.env._set(k, -(h // -g), -l // -g)

def smt_support(v):
    seen = set(); st = [a for a, _ in v.m]
    while st:
        a = st.pop()
        if a in seen: continue
        seen.add(a)
        if a.kind == 'var': continue
        for t in a.args:
            if type(t) is Lin: st.extend(x for x, _ in t.m)
            elif type(t) is B: st.extend(batoms(t))
    return seen
def batoms(b):
    if b.kind in ('le', 'eq', 'ne'): return [a for a, _ in b.args.m]
    if b.kind == 'not': return batoms(b.args)
    if b.kind in ('and', 'or'): return [a for x in b.args for a in (batoms(x) if type(x) is B else ())]
    return []
def guard_bool(b, env):
    for a in batoms(b):
        for x in smt_support(T.of_atom(a)):
            if x.kind == 'div' and type(x.args[1]) is Lin and T.bounds(x.args[1], env)[0] < 1: T.GUARD.add(x)

class CutFound(Exception): pass

def headers(fn):
    """loop header -> blocks of its loop (strongly connected component)"""
    n = len(fn.blocks)
    succ = [succs(t) for _, t in fn.blocks]
    idx = {}; low = {}; st = []; on = set(); comps = []; c = [0]
    for root in range(n):
        if root in idx: continue
        work = [(root, 0)]
        while work:
            v, i = work.pop()
            if v not in idx:
                idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); on.add(v)
            done = True
            for j in range(i, len(succ[v])):
                w = succ[v][j]
                if w not in idx:
                    work.append((v, j)); work.append((w, 0)); done = False
                    break
                if w in on: low[v] = min(low[v], low[w])
            if not done: continue
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == v: break
                comps.append(comp)
    res = {}
    pred = {i: [] for i in range(n)}
    for i, s in enumerate(succ):
        for w in s: pred[w].append(i)
    for comp in comps:
        cs = set(comp)
        if len(comp) == 1 and comp[0] not in succ[comp[0]]: continue
        for b in comp:
            if any(p not in cs for p in pred[b]): res[b] = sorted(cs)
    return res

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'sw': return [b for _, b in t[2]] + [t[3]]
    if k == 'call': return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if k == 'assert': return [t[4]]
    if k == 'drop': return [t[1]]
    return []

class Fn:
    __slots__ = ('id', 'name', 'locals', 'argc', 'blocks', 'sp', 'cl', 'intr', 'kind', 'ta', 'ca', 'model', 'file')

import re as _re
# one name per item, whichever crate re-exports it
_NORM = [(_re.compile(r'\b\w+::(?=(?:frame_support|sp_core|sp_runtime|orml_traits|frame_system|symx|codec|primitive_types|hydradx_traits|hydra_dx_math|sp_arithmetic)::)'), ''),
         (_re.compile(r'\bsp_core::(?=U256\b|U512\b|H160\b|H256\b)'), 'primitive_types::'),
         (_re.compile(r'\bsp_runtime::(?=helpers_128bit|rational|per_things|fixed_point)'), 'sp_arithmetic::')]
def typenums(s):
    for p, r in _NORM:
        s = p.sub(r, s)
        if p is _NORM[0][0]: s = p.sub(r, s)
    """typenum::uint::UInt<...> -> its value"""
    K = 'typenum::uint::UInt<'
    while K in s:
        i = s.index(K); j = i + len(K); d = 1
        while d:
            d += {'<': 1, '>': -1}.get(s[j], 0); j += 1
        bits = ''.join(c[-1] for c in __import__('re').findall(r'bit::B[01]', s[i:j]))
        s = s[:i] + str(int(bits, 2)) + s[j:]
    return s.replace('typenum::uint::UTerm', '0')

class Program:
    def __init__(self, path, models):
        d = json.load(open(path))
        self.models = models
        self.types = d['types']
        self.statics = d['statics']
        self.roots = {n: i for n, i in d['roots']}
        self.fns = []
        for i, x in enumerate(d['insts']):
            f = Fn()
            f.id = i; f.name = typenums(x['n']); f.locals = x.get('l'); f.argc = x.get('ac', 0)
            f.blocks = [(b['s'], b['t']) for b in x['b']] if x.get('b') else None
            f.sp = x.get('sp', -1); f.cl = x.get('cl', False); f.intr = x.get('in'); f.kind = x['k']
            f.ta = x.get('ta', []); f.ca = x.get('ca', []); f.file = x.get('file', '')
            f.model = models.lookup(f)
            self.fns.append(f)
        self._prep_types()

    def _prep_types(self):
        for t in self.types:
            k = t['k']
            if 'n' in t: t['n'] = typenums(t['n'])
            t['bits'] = t.get('b') if k in ('int', 'uint') else 32 if k == 'char' else 8 if k == 'bool' else None
            t['signed'] = k == 'int'
            for v in t.get('v', []) if isinstance(t.get('v'), list) else []:
                if isinstance(v['d'], str):
                    v['d'] = int(v['d'])

    def find(self, name):
        return [f for f in self.fns if f.name == name]

class Machine:
    """Explores one harness. `concrete`: dict of input values for concrete execution."""
    def __init__(self, prog, concrete=None, on_check=None, on_panic=None, feas=None, max_paths=20000, max_steps=3000000, deadline=None, loop_feas=3, merge=None, cut=None, uf=None, on_qed=None, cut_at=()):
        self.cut = [__import__('re').compile(x) for x in cut] if cut else None
        self.uf = [__import__('re').compile(x) for x in uf] if uf else None
        self._cutfn = {}; self._uffn = {}; self.ufs = {}; self.ufargs = {}; self.on_qed = on_qed; self.cut_at = set(cut_at); self.nghost = 0; self.long = set()
        self.merge = [__import__('re').compile(x) for x in merge] if merge else None
        self._merge = {}; self.depth = 0; self.quiet = False
        self.P = prog
        self.types = prog.types
        self.concrete = concrete
        self.on_check = on_check
        self.on_panic = on_panic
        self.feas = feas
        self.work = []
        self.na = 1
        self.static_alloc = {}
        self.const_alloc = {}
        self.const_mem = {}
        self.paths = []
        self.steps = 0
        self.forks = 0
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = deadline
        self.loop_feas = loop_feas
        self.executed = set()
        self.inputs = {}; self.slots = {}
        self.st = None

    # -- allocation
    def new(self, v, st=None):
        a = self.na
        self.na += 1
        (st or self.st).mem[a] = v
        return a
    def const_new(self, v):
        a = self.na
        self.na += 1
        self.const_mem[a] = v
        return a

    # -- path conditions
    def fork(self, b):
        if b is True or b is False:
            return b
        st = self.st
        if b in st.pcs: return True
        nb = T.neg(b)
        if nb in st.pcs: return False
        r = T.redecide(b, st.env)
        if r is True or r is False:
            return r
        if b.kind in ('and', 'or'):
            # decide componentwise: keeps path conditions conjunctive
            if b.kind == 'and':
                for x in b.args:
                    if not self.fork(x): return False
                return True
            for x in b.args:
                if self.fork(x): return True
            return False
        fr = st.frames[-1]
        site = (fr.fn.id, fr.blk, fr.idx)
        n = st.sites.get(site, 0) + 1
        st.sites[site] = n
        self.forks += 1
        check = self.feas is not None and not self.quiet and n > self.loop_feas * (4 if self.depth else 1)
        other = st.clone()
        if other.assume(nb) and not (check and not self.feas(other.pc)):
            self.work.append(other)
            if len(self.work) > self.max_paths:
                raise Unsupported('too many pending paths')
        if not st.assume(b) or (check and not self.feas(st.pc)):
            raise Infeasible()
        return True

    def concretize(self, t, limit=300):
        if type(t) is int: return t
        if t is True or t is False: return t
        lo, hi = T.bounds(t, self.st.env)
        if hi - lo > limit:
            raise Unsupported('symbolic value used where a concrete one is needed: %s' % (T.show(t)[:200]))
        self.quiet = True
        try:
            while lo < hi:
                mid = (lo + hi) // 2
                if self.fork(T.le(t, mid, self.st.env)): hi = mid
                else: lo = mid + 1
        finally: self.quiet = False
        # learn equality
        self.st.assume(T.eq(t, lo, self.st.env))
        return lo

    # -- memory
    def load_alloc(self, a):
        v = self.st.mem.get(a)
        if v is None:
            v = self.const_mem.get(a, UNINIT)
        return v

    def load(self, a, path):
        v = self.load_alloc(a)
        for s in path:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        if type(s) is int:
            tv = type(v)
            if tv is tuple:
                if s < len(v): return v[s]
                return UNINIT
            if tv is En:
                return v.f[s] if s < len(v.f) else UNINIT
            if tv is Limbs:
                return limb(v.t, s)
            if v is UNINIT:
                return UNINIT
            if tv is Un:
                if v.i == s: return v.v
            if v is OPAQUE:
                return OPAQUE
            raise Unsupported('field %s of %r' % (s, v))
        k = s[0]
        if k == 'u':
            if v is UNINIT: return UNINIT
            if type(v) is Un:
                if v.i == s[1]: return v.v
                if v.v is UNINIT: return UNINIT
                ut = self.types[s[2]]
                fl = ut['v'][0]['f']
                return self.transmute(v.v, fl[v.i], fl[s[1]])
            if type(v) is tuple:  # constant union: all fields
                return v[s[1]] if s[1] < len(v) else UNINIT
            raise Unsupported('union read of %r' % (v,))
        if k == 't':
            return self.transmute(v, s[1], s[2])
        if k == 'v':
            if v is UNINIT: return UNINIT
            if type(v) is Limbs: v = tuple(limb(v.t, i) for i in range(v.n))
            return v[s[1]:s[1] + s[2]]
        if k == 'd':
            return v
        raise Unsupported('step %r' % (s,))

    def store(self, a, path, nv):
        mem = self.st.mem
        if not path:
            mem[a] = nv
            return
        v = mem.get(a)
        if v is None:
            v = self.const_mem.get(a, UNINIT)
        mem[a] = self.put(v, path, 0, nv)

    def put(self, v, path, k, nv):
        if k == len(path):
            return nv
        s = path[k]
        if type(s) is int:
            tv = type(v)
            if tv is Limbs:
                v = tuple(limb(v.t, i) for i in range(v.n)); tv = tuple
            if tv is tuple:
                if s < len(v):
                    if k + 1 == len(path): n = nv
                    else: n = self.put(v[s], path, k + 1, nv)
                    return v[:s] + (n,) + v[s + 1:]
                return v + (UNINIT,) * (s - len(v)) + (self.put(UNINIT, path, k + 1, nv),)
            if v is UNINIT:
                return (UNINIT,) * s + (self.put(UNINIT, path, k + 1, nv),)
            if tv is En:
                f = v.f
                if s >= len(f): f = f + (UNINIT,) * (s + 1 - len(f))
                return En(v.v, f[:s] + (self.put(f[s], path, k + 1, nv),) + f[s + 1:])
            if tv is Un:
                if v.i == s:
                    return Un(s, self.put(v.v, path, k + 1, nv))
            raise Unsupported('store into %r' % (v,))
        kk = s[0]
        if kk == 'u':
            if k + 1 == len(path): return Un(s[1], nv)
            cur = UNINIT if v is UNINIT else self.step(v, s)
            return Un(s[1], self.put(cur, path, k + 1, nv))
        if kk == 't':
            if k + 1 == len(path):
                return self.transmute(nv, s[2], s[1])
            cur = self.transmute(v, s[1], s[2])
            return self.transmute(self.put(cur, path, k + 1, nv), s[2], s[1])
        if kk == 'd':
            if v is UNINIT: v = En(s[1], ())
            return self.put(v, path, k + 1, nv)
        if kk == 'v':
            cur = self.step(v, s)
            n = self.put(cur, path, k + 1, nv)
            if v is UNINIT: v = ()
            need = s[1] + s[2]
            if len(v) < need: v = v + (UNINIT,) * (need - len(v))
            if type(n) is Limbs: n = tuple(limb(n.t, i) for i in range(n.n))
            return v[:s[1]] + n + v[need:]
        raise Unsupported('store step %r' % (s,))

    # -- types
    def zst(self, ty):
        t = self.types[ty]
        k = t['k']
        if k in ('tuple', 'closure'): return tuple(self.zst(x) for x in t['f'])
        if k == 'struct': return tuple(self.zst(x) for x in t['v'][0]['f'])
        if k == 'array': return ()if t['len'] == 0 else tuple(self.zst(t['e']) for _ in range(t['len']))
        if k == 'enum':
            return En(0, tuple(self.zst(x) for x in t['v'][0]['f'])) if t['v'] else UNINIT
        if k == 'union': return UNINIT
        return ()

    def flatten(self, v, ty, out):
        t = self.types[ty]
        k = t['k']
        if t['sz'] == 0: return
        if k in ('tuple', 'closure', 'struct'):
            fs = t['f'] if k != 'struct' else t['v'][0]['f']
            if type(v) is not tuple:
                if v is UNINIT:
                    for f in fs: self.flatten(UNINIT, f, out)
                    return
                raise Unsupported('flatten %s %r' % (t['n'], v))
            for i, f in enumerate(fs):
                self.flatten(v[i] if i < len(v) else UNINIT, f, out)
        elif k == 'array':
            if type(v) is Limbs: v = tuple(limb(v.t, i) for i in range(v.n))
            for i in range(t['len']):
                self.flatten(v[i] if v is not UNINIT and i < len(v) else UNINIT, t['e'], out)
        elif k == 'union':
            fs = t['v'][0]['f']
            if type(v) is tuple:
                big = [i for i, f in enumerate(fs) if self.types[f]['sz'] == t['sz']]
                v = Un(big[0], v[big[0]])
            if v is UNINIT or v.v is UNINIT:
                big = [f for f in fs if self.types[f]['sz'] == t['sz']]
                self.flatten(UNINIT, big[0], out)
            elif self.types[fs[v.i]]['sz'] == t['sz']:
                self.flatten(v.v, fs[v.i], out)
            else:
                raise Unsupported('flatten union %s' % t['n'])
        elif k == 'pat':
            self.flatten(v, t['e'], out)
        elif k == 'enum':
            if v is UNINIT:
                out.append((t['sz'] * 8, 'x', UNINIT)); return
            if not any(x['f'] for x in t['v']):
                d = t['v'][v.v]['d'] & ((1 << (8 * t['sz'])) - 1)
                out.append((t['sz'] * 8, 'u', d))
            elif t['n'].startswith('std::option::Option<std::num::NonZero<'):
                if v.v == 0: out.append((t['sz'] * 8, 'u', 0))
                else: self.flatten(v.f[0], next(x['f'][0] for x in t['v'] if x['f']), out)
            else:
                out.append((t['sz'] * 8, ('enum', ty), v))
        elif k in ('int', 'uint', 'char'):
            out.append((t['bits'], 'i' if t['signed'] else 'u', v))
        elif k == 'bool':
            out.append((8, 'b', v))
        elif k in ('ptr', 'ref', 'fnptr'):
            out.append((t['sz'] * 8, 'p', v))
        else:
            raise Unsupported('flatten %s' % t['n'])

    def rebuild(self, ty, lv):
        t = self.types[ty]
        k = t['k']
        if t['sz'] == 0: return self.zst(ty)
        if k in ('tuple', 'closure', 'struct'):
            fs = t['f'] if k != 'struct' else t['v'][0]['f']
            return tuple(self.rebuild(f, lv) for f in fs)
        if k == 'array':
            return tuple(self.rebuild(t['e'], lv) for _ in range(t['len']))
        if k == 'union':
            fs = t['v'][0]['f']
            for i in reversed(range(len(fs))):
                if self.types[fs[i]]['sz'] == t['sz']:
                    return Un(i, self.rebuild(fs[i], lv))
        if k == 'pat':
            return self.rebuild(t['e'], lv)
        if k == 'enum':
            bits, kind, v = self.take(lv, t['sz'] * 8)
            if v is UNINIT: return UNINIT
            if isinstance(kind, tuple):
                if kind[0] == 'enum' and self.types[kind[1]]['n'] == t['n']: return v
                raise Unsupported('rebuild enum')
            if t['n'].startswith('std::option::Option<std::num::NonZero<'):
                if self.fork(T.eq(v, 0, self.st.env)): return NONE
                nz = next(x['f'][0] for x in t['v'] if x['f'])
                return some(self.rebuild(nz, [(bits, 'u', v)]))
            if not any(x['f'] for x in t['v']):
                v = self.concretize(v)
                m = (1 << (8 * t['sz'])) - 1
                for i, x in enumerate(t['v']):
                    if x['d'] & m == v & m: return En(i, ())
            raise Unsupported('rebuild enum %s' % t['n'])
        if k in ('int', 'uint', 'char'):
            bits, kind, v = self.take(lv, t['bits'])
            if v is UNINIT or kind == 'p': return v
            if kind == 'b': v = self.b2i(v); kind = 'u'
            if kind == 'i' and not t['signed'] or kind == 'u' and t['signed']:
                return self.wrap_to(v, t['bits'], t['signed'])
            return v
        if k == 'bool':
            bits, kind, v = self.take(lv, 8)
            if kind in ('i', 'u') and v is not UNINIT: return self.i2b(v)
            return v
        if k in ('ptr', 'ref', 'fnptr'):
            bits, kind, v = self.take(lv, t['sz'] * 8)
            return v
        raise Unsupported('rebuild %s' % t['n'])

    def take(self, lv, bits):
        b, k, v = lv.pop()
        if b == bits: return b, k, v
        if isinstance(k, tuple) or k == 'p':
            raise Unsupported('transmute splits a pointer or enum')
        # byte split / join (little endian)
        if b > bits:
            if v is UNINIT:
                lv.append((b - bits, k, UNINIT)); return bits, k, UNINIT
            if k == 'i': v = self.wrap_to(v, b, False)
            low = T.mod(v, 1 << bits); hi = T.div(v, 1 << bits)
            lv.append((b - bits, 'u', hi))
            return bits, 'u', low
        parts = [(b, k, v)]; tot = b
        while tot < bits:
            nb, nk, nv = self.take(lv, min(lv[-1][0], bits - tot))
            parts.append((nb, nk, nv)); tot += nb
        acc = 0; sh = 0
        for nb, nk, nv in parts:
            if nv is UNINIT: return bits, 'u', UNINIT
            if nk == 'b': nv = self.b2i(nv)
            if nk == 'i': nv = self.wrap_to(nv, nb, False)
            acc = T.add(acc, T.scale(nv, 1 << sh)); sh += nb
        return bits, 'u', self.rejoin(acc)

    def rejoin(self, t):
        """recognise sum of limbs of one term"""
        return t

    def transmute(self, v, a, b):
        if a == b or v is UNINIT or v is OPAQUE: return v
        ta = self.types[a]; tb = self.types[b]
        if ta['n'] == tb['n']: return v
        ka = ta['k']; kb = tb['k']
        if ka in ('ptr', 'ref') and kb in ('ptr', 'ref'):
            if type(v) is Ptr and 'e' in ta and 'e' in tb and self.types[ta['e']]['k'] == 'union': return self.cast_ptr(v, a, b)
            return v
        if ka == 'pat' and ta['e'] == b or kb == 'pat' and tb['e'] == a: return v
        if ta['sz'] == 0: return self.zst(b)
        out = []
        self.flatten(v, a, out)
        if all(x[2] is UNINIT for x in out): return UNINIT
        if ta.get('p') == tb.get('p') == 'std::boxed::Box':
            ea = ta['ta'][0]; eb = tb['ta'][0]
            if self.types[ea]['k'] == 'union' and self.types[eb]['k'] != 'union':
                d = self.inside_union(ea, eb)
                if d: out = [(x[0], x[1], Ptr(x[2].a, x[2].p + d, x[2].m) if type(x[2]) is Ptr else x[2]) for x in out]
        out.reverse()
        return self.rebuild(b, out)

    def b2i(self, b):
        if b is True: return 1
        if b is False: return 0
        if type(b) is int: return b
        return T.ite(b, 1, 0)
    def i2b(self, v):
        if type(v) is int: return v != 0
        if len(v.m) == 1 and v.c == 0 and v.m[0][1] == 1 and v.m[0][0].kind == 'ite' and v.m[0][0].args[1:] == (1, 0):
            return v.m[0][0].args[0]
        return T.neg(T.eq(v, 0, self.st.env))

    def rng(self, bits, signed):
        return (-HALF[bits], HALF[bits] - 1) if signed else (0, FULL[bits] - 1)

    def wrap_to(self, v, bits, signed):
        """two's complement reinterpretation; forks only when cheap"""
        if type(v) is int:
            v &= FULL[bits] - 1
            return v - FULL[bits] if signed and v >= HALF[bits] else v
        lo, hi = self.rng(bits, signed)
        l, h = T.bounds(v, self.st.env)
        if l >= lo and h <= hi: return v
        F = FULL[bits]
        if l >= lo - F and h <= hi + F:
            # one wrap at most: fork
            if l < lo and self.fork(T.lt(v, lo, self.st.env)): return T.add(v, F)
            if h > hi and self.fork(T.lt(hi, v, self.st.env)): return T.sub(v, F)
            return v
        if signed:
            m = T.mod(T.add(v, HALF[bits]), F, self.st.env)
            return T.sub(m, HALF[bits])
        return T.mod(v, F, self.st.env)

    # -- constants
    def const(self, ty, v):
        if type(v) is int:
            return (v != 0) if self.types[ty]['k'] == 'bool' else v
        k = v[0]
        t = self.types[ty]
        if k == 's':
            kk = t['k']
            if kk == 'array': return tuple(self.const(t['e'], x) for x in v[1])
            if kk in ('tuple', 'closure'): return tuple(self.const(f, x) for f, x in zip(t['f'], v[1]))
            if kk == 'struct': return tuple(self.const(f, x) for f, x in zip(t['v'][0]['f'], v[1]))
            if kk == 'union':
                fs = t['v'][0]['f']
                vals = [self.const(f, x) for f, x in zip(fs, v[1])]
                for i in reversed(range(len(fs))):
                    if vals[i] is not UNINIT and self.types[fs[i]]['sz'] == t['sz']: return Un(i, vals[i])
                return UNINIT
            if kk == 'pat': return self.const(t['e'], v)
        if k == 'e':
            return En(v[1], tuple(self.const(f, x) for f, x in zip(t['v'][v[1]]['f'], v[2])))
        if k == 'z': return self.zst(ty)
        if k == 'u': return UNINIT
        if k == 'r':
            key = id(v)
            a = self.const_alloc.get(key)
            if a is None:
                a = self.const_new(self.const(v[2], v[1]))
                self.const_alloc[key] = a
            return Ptr(a, ())
        if k == 'rs':
            key = id(v)
            a = self.const_alloc.get(key)
            if a is None:
                a = self.const_new(tuple(self.const(v[2], x) for x in v[1]))
                self.const_alloc[key] = a
            return Ptr(a, (0,), len(v[1]))
        if k == 'str':
            b = v[1].encode()
            a = self.const_alloc.get(b)
            if a is None:
                a = self.const_new(tuple(b))
                self.const_alloc[b] = a
            return Ptr(a, (0,), len(b))
        if k == 'fn': return FnV(v[1])
        if k == 'null': return v[1]
        if k == 'st':
            a = self.static_alloc.get(v[1])
            if a is None:
                s = self.P.statics[v[1]]
                a = self.na; self.na += 1
                self.static_alloc[v[1]] = a
                self.const_mem[a] = self.const(s['ty'], s['v'])
            return Ptr(a, ())
        if k == 'x' and v[1] == 'dyn': return OPAQUE
        if k == 'fl': return OPAQUE
        if k == 'x': return OPAQUE
        raise Unsupported('constant %r' % (v,))

    def strval(self, p):
        v = self.load_alloc(p.a)
        s = p.p[-1]
        return bytes(v[s:s + p.m]).decode()

    def mkstr(self, s):
        return self.const(-1, ['str', s])

    # -- places
    def place(self, pl):
        """-> (alloc, path, meta, ty)"""
        fr = self.st.frames[-1]
        a = fr.base + pl[0]
        path = ()
        meta = None
        ty = fr.fn.locals[pl[0]]
        types = self.types
        for i in range(1, len(pl)):
            e = pl[i]
            k = e[0]
            if k == '*':
                v = self.load(a, path)
                t = types[ty]
                while type(v) is tuple:  # Box-like wrapper
                    v = v[0]
                if type(v) is not Ptr:
                    if type(v) is int:
                        # dangling pointer to a zero-sized value
                        a = self.const_new(self.zst(t['e'])) if 'e' in t else 0
                        path = (); meta = None; ty = t.get('e', ty)
                        if types[ty]['k'] in ('slice', 'str'): path = (0,); meta = 0; self.const_mem[a] = ()
                        continue
                    raise Unsupported('deref of %r (%s)' % (v, t['n']))
                a = v.a; path = v.p; meta = v.m
                ty = t['e'] if 'e' in t else ty
            elif k == 'f':
                if types[ty]['k'] == 'union':
                    path = path + (('u', e[1], ty),)
                else:
                    path = path + (e[1],)
                ty = e[2]
            elif k == 'i':
                ix = self.load(fr.base + e[1], ())
                if type(ix) is not int: ix = self.concretize(ix)
                t = types[ty]
                path = self.elem(path, ix) if t['k'] in ('slice', 'str') else path + (ix,)
                ty = t.get('e', ty); meta = None
            elif k == 'ci':
                t = types[ty]
                if t['k'] == 'slice':
                    ix = meta - e[1] if e[3] else e[1]
                    path = self.elem(path, ix)
                else:
                    ix = t['len'] - e[1] if e[3] else e[1]
                    path = path + (ix,)
                ty = t['e']; meta = None
            elif k == 'ss':
                t = types[ty]
                if t['k'] == 'slice':
                    to = meta - e[2] if e[3] else e[2]
                    path = self.elem(path, e[1]); meta = to - e[1]
                else:
                    to = t['len'] - e[2] if e[3] else e[2]
                    path = path + (('v', e[1], to - e[1]),)
            elif k == 'd':
                v = self.load(a, path)
                if v is UNINIT: path = path + (('d', e[1]),)
                self._variant = e[1]
            elif k == 'o':
                ty = e[1]
            else:
                raise Unsupported('projection %r' % (e,))
        return a, path, meta, ty

    def elem(self, path, i):
        l = path[-1] if path else None
        if type(l) is int:
            return path[:-1] + (l + i,)
        if l is not None and l[0] == 't' and len(path) > 1:
            if type(path[-2]) is int:
                if self.types[l[1]]['sz'] == self.types[l[2]]['sz']:
                    return path[:-2] + (path[-2] + i, l)
                sa = self.types[l[1]]['sz']; sb = self.types[l[2]]['sz']
                if sa and (i * sb) % sa == 0:
                    return path[:-2] + (path[-2] + i * sb // sa, l)
        if i == 0: return path
        raise Unsupported('pointer offset %r by %d' % (path, i))

    def operand(self, o):
        k = o[0]
        if k == 'c' or k == 'm':
            pl = o[1]
            if len(pl) == 1:
                fr = self.st.frames[-1]
                v = self.st.mem.get(fr.base + pl[0])
                return UNINIT if v is None else v
            a, p, m, ty = self.place(pl)
            return self.load(a, p)
        if k == 'k':
            return self.const(o[1], o[2])
        if k == 'rc':
            return o[1] == 'OverflowChecks'
        raise Unsupported('operand')

    # -- rvalues
    def rvalue(self, r, ty):
        k = r[0]
        if k == 'use':
            return self.operand(r[1])
        if k == 'ref':
            pl = r[1]
            a, p, m, t = self.place(pl)
            return Ptr(a, p, m)
        if k == 'bin':
            return self.binop(r[1], self.operand(r[2]), self.operand(r[3]), r[4], r[5])
        if k == 'agg':
            kk = r[1]
            if kk == 'ptr':
                p, m = [self.operand(o) for o in r[3]]
                if m == (): return Ptr(p.a, p.p, None) if type(p) is Ptr else p
                if type(p) is int:
                    a = self.const_new(()); return Ptr(a, (0,), m)
                o = r[3][0]
                if o[0] in 'cm' and len(o[1]) == 1:   # the optimiser drops pointer casts before this
                    q = self.st.frames[-1].fn.locals[o[1][0]]
                    if q != ty: p = self.cast_ptr(p, q, ty)
                return Ptr(p.a, p.p, m)
            vs = tuple(self.operand(o) for o in r[3])
            if kk == 'enum': return En(r[2], vs)
            if kk == 'union': return Un(r[5], vs[0])
            return vs
        if k == 'chk':
            return self.checked(r[1], self.operand(r[2]), self.operand(r[3]), r[4])
        if k == 'un':
            return self.unop(r[1], self.operand(r[2]), r[3])
        if k == 'cast':
            return self.cast(r, ty)
        if k == 'disc':
            a, p, m, t = self.place(r[1])
            return self.disc(self.load(a, p), r[2], ty)
        if k == 'len':
            a, p, m, t = self.place(r[1])
            if m is not None: return m
            return self.types[t]['len']
        if k == 'rep':
            v = self.operand(r[1])
            return (v,) * r[2]
        raise Unsupported('rvalue %s' % (r[1] if len(r) > 1 else k))

    def disc(self, v, ety, rty):
        if v is UNINIT and self.types[ety]['k'] == 'enum' and self.types[ety]['sz'] == 0:
            # only one inhabited variant, without fields (Option<!>)
            vs = [i for i, x in enumerate(self.types[ety]['v']) if not x['f']]
            if len(vs) == 1: v = En(vs[0], ())
        if type(v) is not En:
            if self.types[ety]['k'] != 'enum': return 0
            raise Unsupported('discriminant of %r' % (v,))
        d = self.types[ety]['v'][v.v]['d']
        t = self.types[rty]
        if t['bits']: return self.wrap_to(d, t['bits'], t['signed'])
        return d

    def unop(self, op, x, ty):
        t = self.types[ty]
        if op == 'Not':
            if t['k'] == 'bool': return T.neg(x) if type(x) is not bool else not x
            if t['signed']: return T.sub(-1, x)
            return T.sub(FULL[t['bits']] - 1, x)
        if op == 'Neg':
            return self.wrap_to(T.scale(x, -1), t['bits'], True)
        if op == 'PtrMetadata':
            if type(x) is Ptr: return () if x.m is None else x.m
            return 0
        raise Unsupported('unop ' + op)

    def raw(self, op, x, y):
        if op == 'Add': return T.add(x, y)
        if op == 'Sub': return T.sub(x, y)
        return T.mul(x, y)

    def checked(self, op, x, y, ty):
        op = op.replace('WithOverflow', '')
        t = self.types[ty]
        if op in ('Shl', 'Shr'):
            return (self.binop(op, x, y, ty, ty), T.le(t['bits'], y, self.st.env))
        r = self.raw(op, x, y)
        lo, hi = self.rng(t['bits'], t['signed'])
        env = self.st.env
        if self.fork(T.le(r, hi, env)) and self.fork(T.le(lo, r, env)):
            return (r, False)
        if type(r) is int:
            return (self.wrap_to(r, t['bits'], t['signed']), True)
        F = FULL[t['bits']]
        if op != 'Mul':
            return (T.sub(r, F) if self.fork(T.lt(hi, r, env)) else T.add(r, F), True)
        if t['signed']:
            return (T.sub(T.mod(T.add(r, HALF[t['bits']]), F), HALF[t['bits']]), True)
        return (T.mod(r, F, env), True)

    def cmpop(self, op, x, y):
        env = self.st.env
        if op == 'Eq': return T.eq(x, y, env)
        if op == 'Ne': return T.neg(T.eq(x, y, env))
        if op == 'Lt': return T.lt(x, y, env)
        if op == 'Le': return T.le(x, y, env)
        if op == 'Gt': return T.lt(y, x, env)
        return T.le(y, x, env)

    def binop(self, op, x, y, ty, ty2):
        t = self.types[ty]
        if x is UNINIT or y is UNINIT:
            raise Unsupported('arithmetic on uninitialised value')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(x, (Ptr, FnV)) or isinstance(y, (Ptr, FnV)):
                if op in ('Eq', 'Ne'):
                    e = (x == y) if isinstance(x, Ptr) and isinstance(y, Ptr) else False
                    return e if op == 'Eq' else not e
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.a == y.a:
                    return self.cmpop(op, x.p[-1], y.p[-1])
                if isinstance(x, Ptr) and isinstance(y, int): # null-ness
                    return self.cmpop(op, 1 << 40, y)
                raise Unsupported('pointer comparison')
            if isinstance(x, (bool, B)) or isinstance(y, (bool, B)):
                if op in ('Eq', 'Ne'):
                    e = self.biff(x, y)
                    return e if op == 'Eq' else T.neg(e) if type(e) is not bool else not e
                x = self.b2i(x); y = self.b2i(y)
            if x == () and y == ():
                return op in ('Eq', 'Le', 'Ge')
            return self.cmpop(op, x, y)
        if t['k'] == 'bool':
            if op == 'BitAnd': return T.conj([x, y])
            if op == 'BitOr': return T.disj([x, y])
            if op == 'BitXor':
                e = self.biff(x, y)
                return (not e) if type(e) is bool else T.neg(e)
        if op in ('Add', 'Sub', 'Mul'):
            return self.checked(op, x, y, ty)[0]
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.raw(op[:3], x, y)
        if op in ('Div', 'Rem'):
            return self.divrem(op, x, y, t)
        if op == 'Offset':
            n = y if type(y) is int else self.concretize(y)
            if n == 0 or type(x) is not Ptr: return x
            if self.types[self.types[ty]['e']]['sz'] == 0: return x
            return Ptr(x.a, self.elem(x.p, n), x.m)
        if op == 'Cmp':
            if self.fork(self.cmpop('Lt', x, y)): return En(0, ())
            if self.fork(self.cmpop('Eq', x, y)): return En(1, ())
            return En(2, ())
        bits = t['bits']; signed = t['signed']
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            n = y if type(y) is int else self.concretize(y)
            n %= bits
            if op.startswith('Shr'):
                return T.div(x, 1 << n, self.st.env)
            r = T.scale(x, 1 << n)
            if type(r) is int or signed: return self.wrap_to(r, bits, signed)
            return T.mod(r, FULL[bits], self.st.env)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(op, x, y, bits, signed)
        raise Unsupported('binop ' + op)

    def biff(self, x, y):
        if x is True: return y
        if y is True: return x
        if x is False: return (not y) if type(y) is bool else T.neg(y)
        if y is False: return (not x) if type(x) is bool else T.neg(x)
        if x is y: return True
        return T.disj([T.conj([x, y]), T.conj([T.neg(x), T.neg(y)])])

    def divrem(self, op, x, y, t):
        env = self.st.env
        if not t['signed']:
            return T.div(x, y, env) if op == 'Div' else T.mod(x, y, env)
        if type(x) is int and type(y) is int:
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return q if op == 'Div' else x - q * y
        # truncating division by cases
        xn = self.fork(T.lt(x, 0, env)); yn = self.fork(T.lt(y, 0, env))
        q = T.div(T.scale(x, -1) if xn else x, T.scale(y, -1) if yn else y, env)
        if xn != yn: q = T.scale(q, -1)
        return q if op == 'Div' else T.sub(x, T.mul(q, y))

    def bitop(self, op, x, y, bits, signed):
        if type(x) is int and type(y) is int:
            return x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y
        if x is y or (type(x) is Lin and type(y) is Lin and x == y):
            return 0 if op == 'BitXor' else x
        if type(x) is int: x, y = y, x
        if op == 'BitAnd' and isinstance(x, Ptr) and type(y) is int: return 0  # alignment test: memory of the model is aligned
        env = self.st.env
        if signed:
            lx, hx = T.bounds(x, env); ly, hy = T.bounds(y, env)
            if lx < 0 or ly < 0:
                raise Unsupported('bit operation on negative value')
        if type(y) is int:
            if op == 'BitAnd': return self.mask(x, y, bits)
            if op == 'BitOr': return T.add(T.sub(x, self.mask(x, y, bits)), y)
            # xor with constant: x + y - 2*(x & y)
            return T.sub(T.add(x, y), T.scale(self.mask(x, y, bits), 2))
        # disjoint bit ranges
        for a, b in ((x, y), (y, x)):
            tz = self.trailing(a)
            l, h = T.bounds(b, env)
            if tz and 0 <= l and h < (1 << tz):
                return 0 if op == 'BitAnd' else T.add(a, b)
        lx, hx = T.bounds(x, env); ly, hy = T.bounds(y, env)
        if hx <= 1 and hy <= 1:
            bx = self.i2b(x); by = self.i2b(y)
            if op == 'BitAnd': r = T.conj([bx, by])
            elif op == 'BitOr': r = T.disj([bx, by])
            else:
                r = self.biff(bx, by); r = (not r) if type(r) is bool else T.neg(r)
            return self.b2i(r)
        m = (1 << max(hx, hy).bit_length()) - 1
        if x.id > y.id: x, y = y, x
        # atoms are shared between paths: bounds that hold on every path
        lx, hx = T.bounds(x, None); ly, hy = T.bounds(y, None)
        m = (1 << max(hx, hy).bit_length()) - 1
        if op == 'BitAnd': return T.opaque('and', x, y, 0, min(hx, hy))
        if op == 'BitOr': return T.opaque('or', x, y, max(lx, ly), m)
        return T.opaque('xor', x, y, 0, m)

    def trailing(self, t):
        g = t.c
        from math import gcd
        g = abs(g)
        for a, k in t.m: g = gcd(g, k)
        return (g & -g).bit_length() - 1 if g else 0

    def mask(self, x, m, bits):
        if m == 0: return 0
        env = self.st.env
        l, h = T.bounds(x, env)
        r = 0
        # contiguous runs of ones
        i = 0
        while (m >> i):
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1: j += 1
                part = T.div(x, 1 << i, env)
                if (h >> j) != 0:
                    part = T.mod(part, 1 << (j - i), env)
                r = T.add(r, T.scale(part, 1 << i))
                i = j
            else:
                i += 1
        return r

    def cast(self, r, ty):
        _, k, op, fty, tty, extra = r
        v = self.operand(op)
        if k == 'int':
            ft = self.types[fty]; tt = self.types[tty]
            if v is UNINIT: return v
            if type(v) is En:
                v = self.disc(v, fty, tty)
            if type(v) in (bool, B): v = self.b2i(v)
            if isinstance(v, Ptr): return v
            return self.wrap_to(v, tt['bits'], tt['signed'])
        if k == 'ptr':
            return self.cast_ptr(v, fty, tty)
        if k == 'trans':
            return self.transmute(v, fty, tty)
        if k == 'unsize':
            return self.unsize(v, fty, tty)
        if k == 'reify' or k == 'clofn':
            return FnV(extra)
        if k in ('expose', 'withexp'):
            return v
        raise Unsupported('cast ' + k)

    def unsize(self, v, fty, tty):
        ft = self.types[fty]; tt = self.types[tty]
        if ft['k'] in ('ref', 'ptr'):
            e = self.types[ft['e']]; te = self.types[tt['e']]
            if e['k'] == 'array' and te['k'] == 'slice':
                if type(v) is not Ptr: return Ptr(self.const_new(()), (0,), e['len'])
                return Ptr(v.a, v.p + (0,), e['len'])
            return v
        if ft['k'] == 'struct' and type(v) is tuple:
            fs = ft['v'][0]['f']; ts = tt['v'][0]['f']
            return tuple(self.unsize(x, f, t) if f != t else x for x, f, t in zip(v, fs, ts))
        if ft['k'] == 'pat':
            return self.unsize(v, ft['e'], tt['e'] if tt['k'] == 'pat' else tty)
        return v

    def inside_union(self, u, b):
        """path from a union to the value of type b that it wraps (MaybeUninit, ManuallyDrop)"""
        for i, f in enumerate(self.types[u]['v'][0]['f']):
            d = (('u', i, u),)
            while f != b and self.types[f]['n'] != self.types[b]['n']:
                t = self.types[f]
                if t['k'] == 'struct' and len(t['v'][0]['f']) == 1: d += (0,); f = t['v'][0]['f'][0]
                else: break
            else: return d
        return None

    def cast_ptr(self, v, fty, tty):
        if type(v) is not Ptr: return v
        ft = self.types[fty]; tt = self.types[tty]
        if 'e' not in ft or 'e' not in tt: return v
        a = ft['e']; b = tt['e']
        if a == b: return v
        A = self.types[a]; Bt = self.types[b]
        m = v.m
        fa = A['k'] in ('slice', 'str'); fb = Bt['k'] in ('slice', 'str')
        if A['k'] == 'dyn' or Bt['k'] == 'dyn': return v
        if A['k'] == 'struct' and A['sz'] == -1 or Bt['k'] == 'struct' and Bt['sz'] == -1:
            return v
        if fa and not fb: m = None
        u8 = None
        ea = A.get('e') if fa else a
        eb = Bt.get('e') if fb else b
        if A['k'] == 'str': ea = None
        if Bt['k'] == 'str': eb = None
        if ea is None or eb is None or ea == eb or self.types[ea]['n'] == self.types[eb]['n']:
            return Ptr(v.a, v.p, m)
        ta = self.types[ea]; tb = self.types[eb]
        path = v.p
        if ta['k'] == 'union' and not fa:
            d = self.inside_union(ea, eb)
            if d: return Ptr(v.a, path + d, m)
        l = path[-1] if path else None
        if type(l) is tuple and l[0] == 't':
            if l[1] == eb or self.types[l[1]]['n'] == tb['n']: return Ptr(v.a, path[:-1], m)
            return Ptr(v.a, path[:-1] + (('t', l[1], eb),), m)
        if type(l) is tuple and l[0] == 'v' and ta['k'] == 'array' and ta['e'] == eb:
            return Ptr(v.a, path[:-1] + (l[1],), m)
        if v.a in self.st.data and ta['n'] in ('u8', '()'):
            return Ptr(v.a, path, m)   # raw heap memory
        if ta['k'] == 'array' and ta['e'] == eb:
            return Ptr(v.a, path + (0,), m)
        if tb['k'] == 'array' and tb['e'] == ea and type(l) is int:
            return Ptr(v.a, path[:-1] + (('v', l, tb['len']),), m)
        return Ptr(v.a, path + (('t', ea, eb),), m)

    # -- running
    def run(self, root):
        fn = self.P.fns[self.P.roots[root]]
        st = State()
        st.mem = {}; st.frames = []; st.pc = []; st.pcs = {}; st.env = T.Env(); st.allow = False
        st.sites = {}; st.obs = []; st.labels = []; st.steps = 0; st.data = {}; st.reads = None; st.ghosts = (); st.given = (); st.hidden = (); st.apps = (); st.slots = (); st.marks = ()
        self.st = st
        self.push(fn, [], None, -1)
        self.work = [st]
        while self.work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('exploration deadline')
            st = self.work.pop()
            self.st = st
            try:
                while st.frames:
                    self.one(st)
                self.paths.append(('ok', st))
            except Infeasible:
                continue
            except PathEnd as e:
                self.paths.append((e.kind, st))
            except Panic as e:
                if st.allow:
                    self.paths.append(('quietpanic', st))
                else:
                    self.paths.append(('panic', st, e.msg))
                    if self.on_panic: self.on_panic(st, e.msg, self.where(st))
            if len(self.paths) > self.max_paths:
                raise Unsupported('too many paths')
        return self.paths

    def call_one(self, fn, args):
        """the result of one function on concrete arguments"""
        st = State()
        st.mem = {}; st.frames = []; st.pc = []; st.pcs = {}; st.env = T.Env(); st.allow = False
        st.sites = {}; st.obs = []; st.labels = []; st.steps = 0; st.data = {}; st.reads = None; st.ghosts = (); st.given = (); st.hidden = (); st.apps = (); st.slots = (); st.marks = ()
        self.st = st; self.work = [st]
        base = self.na
        self.push(fn, args, None, -1)
        v = None
        while st.frames:
            self.one(st)
            if len(st.frames) == 1 and st.frames[0].fn is fn: v = st.mem.get(base, v)
        return v

    def where(self, st):
        for f in reversed(st.frames):
            if '/repo/' in f.fn.file or 'hydra' in f.fn.name:
                return f.fn.name
        return st.frames[0].fn.name if st.frames else '?'

    def push(self, fn, args, dest, target):
        base = self.na
        self.na += len(fn.locals)
        st = self.st
        mem = st.mem
        if fn.cl and fn.sp < 0 and len(args) == 2:
            # closure called through Fn*: last argument is the argument tuple
            args = [args[0]] + list(args[1])
        elif fn.sp >= 0 and len(args) != fn.argc:
            raise Unsupported('spread call %s' % fn.name)
        elif fn.sp >= 0:
            pass
        if len(args) != fn.argc:
            raise Unsupported('arity of %s: %d vs %d' % (fn.name, len(args), fn.argc))
        for i, v in enumerate(args):
            mem[base + 1 + i] = v
        self.executed.add(fn.id)
        st.frames.append(Frame(fn, base, dest, target))
        if len(st.frames) > 200:
            raise Unsupported('call depth')

    def ret(self, v):
        """finish the current call terminator with value v"""
        raise NotImplementedError

    def one(self, st):
        fr = st.frames[-1]
        if self.cut is not None and fr.idx == 0:
            if fr.seen is not None:
                c = fr.seen.get('cut')
                if c is not None and fr.blk not in c[0]: self.left(fr)
            self.header(fr)
        ss, t = fr.fn.blocks[fr.blk]
        n = len(ss)
        mem = st.mem
        while fr.idx < n:
            s = ss[fr.idx]
            self.steps += 1
            k = s[0]
            if k == '=':
                pl = s[1]
                v = self.rvalue(s[2], s[3])
                if len(pl) == 1:
                    mem[fr.base + pl[0]] = v
                else:
                    a, p, m, ty = self.place(pl)
                    self.store(a, p, v)
            elif k == 'sd':
                a, p, m, ty = self.place(s[1])
                v = self.load(a, p)
                self.store(a, p, En(s[2], v.f if type(v) is En else v if type(v) is tuple else ()))
            elif k == 'cno':
                self.copy(self.operand(s[1]), self.operand(s[2]), self.operand(s[3]))
            fr.idx += 1
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step budget')
        if self.deadline and (self.steps & 1023) == 0 and time.time() > self.deadline:
            raise Unsupported('exploration deadline')
        k = t[0]
        if k == 'goto':
            fr.blk = t[1]; fr.idx = 0
        elif k == 'sw':
            self.switch(fr, t)
        elif k == 'ret':
            v = mem.get(fr.base, UNINIT)
            if self.types[fr.fn.locals[0]]['sz'] == 0 and v is UNINIT:
                v = self.zst(fr.fn.locals[0])
            for i in range(fr.base, fr.base + len(fr.fn.locals)):
                mem.pop(i, None)
            st.frames.pop()
            if st.frames:
                up = st.frames[-1]
                if fr.dest is not None:
                    a, p = fr.dest
                    self.store(a, p, v)
                up.blk = fr.target; up.idx = 0
        elif k == 'call':
            self.call(fr, t)
        elif k == 'assert':
            c = self.operand(t[1])
            if not t[2]: c = (not c) if type(c) is bool else T.neg(c)
            if self.fork(c):
                fr.blk = t[4]; fr.idx = 0
            else:
                raise Panic(t[3])
        elif k == 'drop':
            if t[4] >= 0:
                a, p, m, ty = self.place(t[3])
                fn = self.P.fns[t[4]]
                if fn.blocks is None: raise Unsupported('no body for ' + fn.name)
                self.push(fn, [Ptr(a, p, m)], None, t[1])
            else:
                fr.blk = t[1]; fr.idx = 0
        elif k == 'unr':
            raise Infeasible() if st.pc else Unsupported('unreachable reached in ' + fr.fn.name)
        else:
            raise Unsupported('terminator %s in %s' % (k, fr.fn.name))

    def switch(self, fr, t):
        v = self.operand(t[1])
        if type(v) is bool: v = int(v)
        if type(v) is int:
            ty = self.types[t[4]]
            if v < 0: v &= FULL[ty['bits']] - 1
            for c, b in t[2]:
                if c == v:
                    fr.blk = b; fr.idx = 0
                    return
            fr.blk = t[3]; fr.idx = 0
            return
        if type(v) is B:
            for c, b in t[2]:
                if c == 0:
                    if self.fork(v):
                        for c2, b2 in t[2]:
                            if c2 == 1: fr.blk = b2; break
                        else: fr.blk = t[3]
                    else: fr.blk = b
                    fr.idx = 0
                    return
            for c, b in t[2]:
                if c == 1:
                    fr.blk = b if self.fork(v) else t[3]
                    fr.idx = 0
                    return
            raise Unsupported('switch on bool')
        if isinstance(v, (Ptr,)):
            fr.blk = t[3]; fr.idx = 0
            return
        if type(v) is not Lin:
            raise Unsupported('switch on %r' % (v,))
        ty = self.types[t[4]]
        for c, b in t[2]:
            if ty['signed'] and c >= HALF[ty['bits']]: c -= FULL[ty['bits']]
            if self.fork(T.eq(v, c, self.st.env)):
                fr.blk = b; fr.idx = 0
                return
        fr.blk = t[3]; fr.idx = 0

    def call(self, fr, t):
        _, f, args, dest, target, name, dty, atys = t
        if f == -1:
            raise Panic(name)
        if f == -2:
            raise Unsupported(name)
        if type(f) is not int:
            fv = self.operand(f)
            if type(fv) is not FnV: raise Unsupported('indirect call of %r' % (fv,))
            f = fv.i
        fn = self.P.fns[f]
        av = [self.operand(o) for o in args]
        self.invoke(fr, fn, av, dest, target, dty, atys)

    def invoke(self, fr, fn, av, dest, target, dty, atys):
        if fn.model is not None:
            r = fn.model(self, fn, av, dty, atys)
            if r is not NotImplemented:
                if type(r) is Tail:
                    self.invoke(fr, r.fn, r.args, dest, target, dty, atys)
                    return
                if len(dest) == 1:
                    self.st.mem[fr.base + dest[0]] = r
                else:
                    a, p, m, ty = self.place(dest)
                    self.store(a, p, r)
                fr.blk = target; fr.idx = 0
                return
        if self.uf is not None and self.concrete is None:
            u = self._uffn.get(fn.id)
            if u is None: u = self._uffn[fn.id] = any(x.search(fn.name) for x in self.uf)
            if u:
                r = self.P.models.uninterpreted(self, fn, av, dty)
                a, p, m, ty = self.place(dest)
                self.store(a, p, r)
                fr.blk = target; fr.idx = 0
                return
        if self.merge is not None and self.concrete is None and fn.blocks is not None and self.merges(fn):
            if self.summarise(fn, av, dest, target): return
        if fn.blocks is None:
            r = self.ctor(fn, av, dty)
            a, p, m, ty = self.place(dest)
            self.store(a, p, r)
            fr.blk = target; fr.idx = 0
            return
        a, p, m, ty = self.place(dest)
        self.push(fn, av, (a, p), target)

    # -- cutting long loops: an arbitrary iteration from arbitrary loop variables
    def header(self, fr):
        fn = fr.fn
        c = self._cutfn.get(fn.id)
        if c is None:
            c = self._cutfn[fn.id] = headers(fn) if any(x.search(fn.name) for x in self.cut) else {}
        body = c.get(fr.blk)
        if body is None: return
        if fr.seen is None: fr.seen = {}
        k = fr.seen.get(fr.blk, 0) + 1
        fr.seen[fr.blk] = k
        if (fn.id, fr.blk) not in self.cut_at:
            if k > 7:
                if self.concrete is not None: self.long.add((fn.id, fr.blk))
                else: raise CutFound((fn.id, fr.blk))
            return
        if k == 1: self.havoc(fr, body)
        # the state of a second visit is one of those the first visit stood for
        else: raise Infeasible()

    def havoc(self, fr, body):
        mod = set()
        for b in body:
            ss, t = fr.fn.blocks[b]
            for s in ss:
                if s[0] in ('=', 'sd'): self.modified(s[1], mod)
                if s[0] == '=' and s[2][0] == 'ref' and self.types[self.place_ty(fr, s[1])]['n'].startswith(('&mut', '*mut')): self.modified(s[2][1], mod)
                if s[0] == 'cno': raise Unsupported('copy in a cut loop')
            if t[0] == 'call': self.modified(t[3], mod)
        mem = self.st.mem
        vars = {}
        for l in sorted(mod):
            v = mem.get(fr.base + l, UNINIT)
            if v is UNINIT: continue
            mem[fr.base + l] = vars[l] = self.arbitrary(v, fr.fn.locals[l])
        fr.seen['cut'] = (set(body), vars)

    def left(self, fr):
        """arriving outside of a cut loop: running out of iterations is outside the bound"""
        vars = fr.seen.pop('cut')[1]
        mem = self.st.mem
        big = [l for l in vars if self.types[fr.fn.locals[l]]['n'].endswith(('U256', 'U512'))]
        if all(mem.get(fr.base + l) is vars[l] or mem.get(fr.base + l) == vars[l] for l in big): raise Infeasible()

    def place_ty(self, fr, pl):
        if len(pl) == 1: return fr.fn.locals[pl[0]]
        e = pl[-1]
        if e[0] == 'f': return e[2]
        raise Unsupported('reference stored behind a pointer in a cut loop')

    def modified(self, pl, mod):
        if any(e[0] == '*' for e in pl[1:]): raise Unsupported('a cut loop writes through a pointer')
        mod.add(pl[0])

    def arbitrary(self, v, ty):
        t = self.types[ty]; k = t['k']
        if k in ('int', 'uint') and t['bits']:
            lo, hi = self.rng(t['bits'], t['signed'])
            return self.ghost(lo, hi)
        if k == 'bool':
            self.nghost += 1
            return T.bvar('ghost%d' % self.nghost)
        if type(v) is tuple and k == 'struct':
            if len(v) == 1 and (type(v[0]) is Limbs or t['n'].endswith(('U256', 'U512'))):
                n = v[0].n if type(v[0]) is Limbs else len(v[0])
                g = self.ghost(0, (1 << (64 * n)) - 1)
                self.st.ghosts = self.st.ghosts + (g,)
                return (Limbs(g, n),)
            return tuple(self.arbitrary(x, f) for x, f in zip(v, t['v'][0]['f']))
        if type(v) is tuple and k in ('tuple', 'closure'):
            return tuple(self.arbitrary(x, f) for x, f in zip(v, t['f']))
        return UNINIT

    def ghost(self, lo, hi):
        self.nghost += 1
        return T.var('ghost%d' % self.nghost, lo, hi)

    def merges(self, fn):
        r = self._merge.get(fn.id)
        if r is None:
            r = self._merge[fn.id] = any(x.search(fn.name) for x in self.merge)
        return r

    def summarise(self, fn, av, dest, target):
        """explore a pure callee in isolation and join its paths: one successor per result shape, values joined by ite"""
        base = self.st
        if base.frames[-1].fn is fn: return False
        outer = self.work
        n = len(base.frames); npc = len(base.pc)
        cell = self.na; self.na += 1
        sub = base.clone(); sub.sites = {}
        self.st = sub
        self.push(fn, av, (cell, ()), target)
        work = self.work = [sub]
        good = []; bad = []
        self.depth += 1
        try:
            while work:
                if self.deadline and time.time() > self.deadline: raise Unsupported('exploration deadline')
                st = work.pop(); self.st = st
                try:
                    while len(st.frames) > n: self.one(st)
                    good.append(st)
                except Infeasible:
                    continue
                except Panic as e:
                    bad.append((st, e.msg))
                if len(good) + len(bad) > self.max_paths: raise Unsupported('too many paths')
        finally:
            self.work = outer; self.st = base; self.depth -= 1
        def panics():
            for st, msg in bad:
                self.paths.append(('quietpanic' if st.allow else 'panic', st, msg))
                if not st.allow and self.on_panic:
                    self.st = st
                    self.on_panic(st, msg, self.where(st))
                    self.st = base
        if not good:
            panics()
            raise Infeasible()
        # purity: nothing that existed before the call has changed
        def pure(st):
            m = st.mem
            return all(m.get(k) is v for k, v in base.mem.items()) and all(c in base.mem or m[c] == NONE or type(m[c]) is En and m[c].v == 0 for c in st.slots) and len(st.marks) == len(base.marks) and all(x is y for x, y in zip(st.marks, base.marks)) and len(st.obs) == len(base.obs) and len(st.labels) == len(base.labels)
        groups = {}
        ok = True
        for st in good:
            v = st.mem.get(cell, UNINIT)
            if not pure(st): ok = False; break
            k = self.shape(v)
            if k is None: ok = False; break
            groups.setdefault(k, []).append((st, v))
        if not ok:
            # not joinable: go on with the separate paths
            panics()
            for st in good:
                a, p, m, ty = self.place_in(st, dest)
                self.st = st
                self.store(a, p, st.mem.pop(cell, UNINIT))
                outer.append(st)
            self.st = base
            raise Infeasible()
        panics()
        for s, _ in bad:
            for c in s.pc[npc:]: guard_bool(c, base.env)
        for s in good:
            for c in s.pc[npc:]: guard_bool(c, base.env)
        gs = list(groups.values())
        deltas_bad = [st.pc[npc:] for st, _ in bad]
        outs = []
        for g in gs:
            st = base.clone() if len(gs) > 1 or bad else base
            outs.append((st, g))
        for st, g in outs:
            rows = [(s.pc[npc:], v, s) for s, v in g]
            alive = True
            if len(gs) > 1 or bad:
                others = [s.pc[npc:] for gg in gs if gg is not g for s, _ in gg] + deltas_bad
                # common prefix, then the disjunction of what remains
                i = 0
                while all(len(r[0]) > i and r[0][i] is rows[0][0][i] for r in rows):
                    alive = st.assume(rows[0][0][i]) and alive
                    i += 1
                for o in others:
                    c = T.disj([T.neg(x) for x in o if x is not True])
                    if c is False: alive = False
                    elif c is not True: alive = st.assume(c) and alive
            st.sites = base.sites if st is base else st.sites
            if not alive: continue
            v = self.join(rows, 0, st)
            self.st = st
            fr = st.frames[-1]
            if len(dest) == 1: st.mem[fr.base + dest[0]] = v
            else:
                a, p, m, ty = self.place(dest)
                self.store(a, p, v)
            fr.blk = target; fr.idx = 0
            if st is not base: outer.append(st)
        self.st = base
        if outs and outs[0][0] is base: return True
        raise Infeasible()

    def place_in(self, st, dest):
        self.st = st
        # the caller frame is on top again
        return self.place(dest)

    def shape(self, v):
        tv = type(v)
        if tv in (int, Lin): return 'i'
        if tv in (bool, B): return 'b'
        if tv is tuple:
            r = tuple(self.shape(x) for x in v)
            return None if any(x is None for x in r) else r
        if tv is En:
            r = tuple(self.shape(x) for x in v.f)
            return None if any(x is None for x in r) else ('e', v.v) + r
        if tv is Limbs: return ('l', v.n)
        if tv is IntV: return 'I'
        if v is UNINIT: return 'u'
        if tv is Ptr and v.a in self.const_mem and v.a not in self.st.mem and (v.m is None or type(v.m) is int): return ('p', v.a, v.p, v.m)
        return None

    def join(self, rows, i, st):
        t = self.cond_tree(rows, i)
        v = self.pick(t, lambda x: x)
        self.bound(v, rows, st)
        return v

    def cond_tree(self, rows, i):
        if len(rows) == 1: return rows[0][1]
        while True:
            c = rows[0][0][i] if len(rows[0][0]) > i else None
            if c is None: return rows[0][1]
            A = [r for r in rows if len(r[0]) > i and r[0][i] is c]
            Bs = [r for r in rows if not (len(r[0]) > i and r[0][i] is c)]
            if not Bs: i += 1; continue
            break
        nc = T.neg(c)
        if all(len(r[0]) > i and r[0][i] is nc for r in Bs):
            return ('?', c, self.cond_tree(A, i + 1), self.cond_tree(Bs, i + 1))
        # fall back to a chain of full conditions
        head = rows[0]
        return ('?', T.conj(head[0][i:]), head[1], self.cond_tree(rows[1:], i))

    def pick(self, t, get):
        """value tree -> joined value"""
        leaf = t
        while type(leaf) is tuple and len(leaf) == 4 and leaf[0] == '?': leaf = leaf[2]
        if leaf is t: return get(t)
        def walk(t, get):
            if type(t) is tuple and len(t) == 4 and t[0] == '?':
                return ('?', t[1], walk(t[2], get), walk(t[3], get))
            return get(t)
        def build(t, f):
            if type(t) is tuple and len(t) == 4 and t[0] == '?': return f(t[1], build(t[2], f), build(t[3], f))
            return t
        v = leaf
        tv = type(v)
        if tv in (int, Lin): return build(t, T.ite)
        if tv in (bool, B):
            def bi(c, x, y): return T.disj([T.conj([c, x]), T.conj([T.neg(c), y])])
            return build(t, bi)
        if tv is tuple: return tuple(self.pick(walk(t, lambda x, j=j: x[j]), get) for j in range(len(v)))
        if tv is En: return En(v.v, tuple(self.pick(walk(t, lambda x, j=j: x.f[j]), get) for j in range(len(v.f))))
        if tv is Limbs: return Limbs(self.pick(walk(t, lambda x: x.t), get), v.n)
        if tv is IntV: return IntV(self.pick(walk(t, lambda x: x.t), get))
        if v is UNINIT or tv is Ptr: return v
        raise Unsupported('join of %r' % (v,))

    def bound(self, v, rows, st):
        """interval of every joined integer: union over the joined paths"""
        def go(v, parts):
            tv = type(v)
            if tv is Lin:
                bs = [T.bounds(p, e) for p, e in parts]
                lo = min(b[0] for b in bs); hi = max(b[1] for b in bs)
                k, g = T.formkey(v)
                st.assume_bounds(v, lo, hi)
                for a in smt_support(v):
                    if a.kind == 'div' and type(a.args[1]) is Lin and T.bounds(a.args[1], st.env)[0] < 1: T.GUARD.add(a)
            elif tv is tuple:
                for j, x in enumerate(v): go(x, [(p[j], e) for p, e in parts])
            elif tv is En:
                for j, x in enumerate(v.f): go(x, [(p.f[j], e) for p, e in parts])
            elif tv in (Limbs, IntV): go(v.t, [(p.t, e) for p, e in parts])
            elif tv is B:
                guard_bool(v, st.env)
        go(v, [(r[1], r[2].env) for r in rows])

    def ctor(self, fn, av, dty):
        """tuple struct / variant constructor used as a function"""
        t = self.types[dty]
        base = fn.name.split('::<')[0] if not fn.name.startswith('<') else fn.name
        last = (base if fn.name.endswith('>') else fn.name).rsplit('::', 1)[-1]
        if len(av) == 1 and type(av[0]) is tuple and t['k'] in ('struct', 'enum'):
            fs = [v['f'] for v in t['v'] if t['k'] == 'struct' or v['n'] == last]
            # called through Fn*: argument tuple
            if fs and self.ctor_tupled: av = list(av[0])
        if t['k'] == 'struct' and t['p'].rsplit('::', 1)[-1] == last: return tuple(av)
        if t['k'] == 'enum':
            for i, v in enumerate(t['v']):
                if v['n'] == last: return En(i, tuple(av))
        raise Unsupported('no body for %s' % fn.name)
    ctor_tupled = False

    def copy(self, src, dst, n):
        n = self.concretize(n)
        if n == 0 or type(src) is not Ptr: return
        vals = [self.load(src.a, self.elem(src.p, i) if i else src.p) for i in range(n)]
        for i in range(n):
            self.store(dst.a, self.elem(dst.p, i) if i else dst.p, vals[i])

class Tail:
    def __init__(self, fn, args): self.fn = fn; self.args = args
