"""Functions the executor does not run from their MIR: harness vocabulary, big integers, intrinsics, allocation,
formatting. Everything else is executed from the compiler's MIR."""
import re
import terms as T
from exec import *

EXACT = {}
RX = []
INTR = {}

def exact(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
            if n.startswith('symx::rt::'): EXACT['symx::' + n[10:]] = f
        return f
    return d
def rx(*pats):
    def d(f):
        for p in pats: RX.append((re.compile(p), f))
        return f
    return d
def intr(*names):
    def d(f):
        for n in names: INTR[n] = f
        return f
    return d

def lookup(fn):
    if fn.intr is not None:
        m = INTR.get(fn.intr)
        if m: return m
        if fn.blocks is None:
            return unsupported_intrinsic
    m = EXACT.get(fn.name)
    if m: return m
    for p, f in RX:
        if p.match(fn.name): return f
    return None

def unsupported_intrinsic(M, fn, a, dty, aty):
    raise Unsupported('intrinsic %s' % fn.name)

# ---------------------------------------------------------------- symx
@exact('symx::rt::raw_any')
def _(M, fn, a, dty, aty):
    name = M.strval(a[0]); idx = a[1]; bits = a[2]
    key = name if idx == 0 else '%s.%d' % (name, idx)
    M.inputs[key] = bits
    if M.concrete is not None:
        return M.concrete.get(key, 0)
    return T.var(key, 0, (1 << bits) - 1)

@exact('symx::rt::chosen')
def _(M, fn, a, dty, aty):
    if M.concrete is None: raise Unsupported('%s is not treated as any function' % M.strval(a[0]))
    return M.concrete.get('%s/%s/%d' % (M.strval(a[0]), ','.join('%d' % x for x in a[2:]), a[1]), 0)

@exact('symx::rt::assume')
def _(M, fn, a, dty, aty):
    b = a[0]
    if b is True: return ()
    if b is False: raise PathEnd('assume')
    b = T.redecide(b, M.st.env)
    if b is True: return ()
    if b is False or not M.st.assume(b): raise PathEnd('assume')
    return ()

@exact('symx::rt::check')
def _(M, fn, a, dty, aty):
    label = M.strval(a[1])
    b = a[0]
    M.st.labels.append(label)
    if M.concrete is not None:
        if b is not True: raise PathEnd('check:' + label)
        return ()
    M.on_check(M.st, label, b)
    if b is False: raise PathEnd('checkfail')
    if b is not True and not M.st.assume(b): raise Infeasible()
    return ()

@exact('symx::rt::observe')
def _(M, fn, a, dty, aty):
    M.st.obs.append((M.strval(a[0]), a[1]))
    return ()

@exact('symx::rt::allow_panics')
def _(M, fn, a, dty, aty):
    M.st.allow = a[0]
    return ()

def ival(M, p):
    v = M.load(p.a, p.p)
    return v.t
@exact('symx::rt::int_from', 'symx::rt::int_from_i')
def _(M, fn, a, dty, aty): return IntV(a[0])
@exact('symx::rt::int_from_u256', 'symx::rt::int_from_u512')
def _(M, fn, a, dty, aty): return IntV(big(a[0]))
@exact('symx::rt::int_add')
def _(M, fn, a, dty, aty): return IntV(T.add(ival(M, a[0]), ival(M, a[1])))
@exact('symx::rt::int_sub')
def _(M, fn, a, dty, aty): return IntV(T.sub(ival(M, a[0]), ival(M, a[1])))
@exact('symx::rt::int_mul')
def _(M, fn, a, dty, aty): return IntV(T.mul(ival(M, a[0]), ival(M, a[1])))
@exact('symx::rt::int_div')
def _(M, fn, a, dty, aty):
    d = ival(M, a[1])
    if T.bounds(d, M.st.env)[0] < 1:
        if not M.fork(T.le(1, d, M.st.env)): raise Panic('harness: division by a non-positive value')
    return IntV(T.div(ival(M, a[0]), d, M.st.env))
@exact('symx::rt::int_clone')
def _(M, fn, a, dty, aty): return IntV(ival(M, a[0]))
@exact('symx::rt::int_le')
def _(M, fn, a, dty, aty): return T.le(ival(M, a[0]), ival(M, a[1]), M.st.env)
@exact('symx::rt::int_eq')
def _(M, fn, a, dty, aty): return T.eq(ival(M, a[0]), ival(M, a[1]), M.st.env)
@exact('symx::rt::implies')
def _(M, fn, a, dty, aty):
    return T.disj([T.neg(a[0]) if type(a[0]) is not bool else not a[0], a[1]])
@exact('symx::rt::both')
def _(M, fn, a, dty, aty): return T.conj([a[0], a[1]])
@exact('symx::rt::either')
def _(M, fn, a, dty, aty): return T.disj([a[0], a[1]])
@exact('symx::rt::ite')
def _(M, fn, a, dty, aty):
    if type(a[0]) is bool: return a[1] if a[0] else a[2]
    return T.ite(a[0], a[1], a[2])

# ---------------------------------------------------------------- proof steps
@exact('symx::rt::symbolic')
def _(M, fn, a, dty, aty): return M.concrete is None
@exact('symx::rt::ghost')
def _(M, fn, a, dty, aty):
    g = M.st.ghosts
    if a[0] >= len(g): raise Unsupported('ghost %d of %d: no loop was cut here' % (a[0], len(g)))
    return IntV(g[a[0]])
@exact('symx::rt::given')
def _(M, fn, a, dty, aty):
    M.st.given = M.st.given + ((a[0],) if a[0] is not True else ())
    return ()
@exact('symx::rt::given_le')
def _(M, fn, a, dty, aty):
    b = T.le(ival(M, a[0]), ival(M, a[1]), None)
    if b is not True: M.st.given = M.st.given + (b,)
    return ()
@exact('symx::rt::hide')
def _(M, fn, a, dty, aty):
    M.st.hidden = M.st.hidden + (ival(M, a[0]),)
    return ()
@exact('symx::rt::amount')
def _(M, fn, a, dty, aty):
    t = ival(M, a[0])
    if type(t) is int:
        if 0 <= t < 1 << 128: return t
        raise PathEnd('assume')
    for b in (T.le(0, t, M.st.env), T.le(t, (1 << 128) - 1, M.st.env)):
        if not M.st.assume(b): raise PathEnd('assume')
    return t
@exact('symx::rt::alias')
def _(M, fn, a, dty, aty):
    t = ival(M, a[0])
    if type(t) is int: return IntV(t)
    lo, hi = T.bounds(t, M.st.env)
    M.nghost += 1
    g = T.var('alias%d' % M.nghost, lo, hi)
    M.st.pc.append(T.eq(g, t, None))
    return IntV(g)
@exact('symx::rt::qed')
def _(M, fn, a, dty, aty):
    g = a[0]; st = M.st
    giv, hid = st.given, st.hidden
    st.given = (); st.hidden = ()
    if g is True: return ()
    M.on_qed(st, M.strval(a[1]), g, giv, hid)
    if g is not False and not st.assume(g): raise Infeasible()
    return ()

# ---------------------------------------------------------------- uninterpreted functions (chosen per harness)
class Held:
    # what a pointer in an argument points to
    def __init__(self, v): self.v = v
def frozen(M, v):
    if type(v) is Ptr:
        if v.m is not None: raise Unsupported('slice')
        return Held(frozen(M, M.load(v.a, v.p)))
    if type(v) is tuple: return tuple(frozen(M, x) for x in v)
    if type(v) is En: return En(v.v, tuple(frozen(M, x) for x in v.f))
    if type(v) in (int, Lin, bool, B, Limbs): return v
    raise Unsupported('argument')
def real_result(prog, held, m):
    """what the function itself gives for its arguments in a model: (argument equalities, result equalities), or None"""
    fn, av, dty, n = held
    import exec as X
    memo = {}; eqs = []
    M = X.Machine(prog, concrete={}, max_steps=2000000)
    def value(v):
        if type(v) is Held: return Ptr(M.const_new(value(v.v)), (), None)
        if type(v) is tuple: return tuple(value(x) for x in v)
        if type(v) is En: return En(v.v, tuple(value(x) for x in v.f))
        if type(v) is Lin:
            r = T.evalt(v, m, memo); eqs.append(T.eq(v, r, None)); return r
        if type(v) is B:
            r = bool(T.evalb(v, m, memo)); eqs.append(v if r else T.neg(v)); return r
        if type(v) is Limbs:
            r = T.evalt(v.t, m, memo); eqs.append(T.eq(v.t, r, None)); return Limbs(r, v.n) if hasattr(v, 'n') else None
        return v
    args = [value(v) for v in av]
    out = M.call_one(fn, args)
    res = []
    def leaf(ty, i, v):
        t = prog.types[ty]
        if t['bits'] and t['k'] in ('int', 'uint'):
            lo, hi = M.rng(t['bits'], t['signed'])
            res.append(T.eq(T.var('uf%d.%d' % (n, i), lo, hi), v, None))
        elif t['k'] == 'bool': b = T.bvar('uf%d.%d' % (n, i)); res.append(b if v else T.neg(b))
        elif t['k'] in ('struct', 'tuple'):
            for j, (x, y) in enumerate(zip(t['f'] if t['k'] == 'tuple' else t['v'][0]['f'], v)): leaf(x, i * 10 + j, y)
        elif t['k'] == 'enum' and [len(w['f']) for w in t['v']] in ([0, 1], [1, 1]):
            b = T.bvar('uf%d.some' % n); first = len(t['v'][0]['f']) == 0
            some = v.v == (1 if first else 0)
            res.append(b if some else T.neg(b))
            if some: leaf(t['v'][1 if first else 0]['f'][0], i * 10 + 1, v.f[0])
            elif not first: leaf(t['v'][1]['f'][0], i * 10 + 2, v.f[0])
        elif t['k'] == 'enum' and all(not w['f'] for w in t['v']):
            for j in range(min(v.v + 1, len(t['v']) - 1)):
                b = T.bvar('uf%d.%d.v%d' % (n, i, j)); res.append(b if j == v.v else T.neg(b))
        else: raise Unsupported('result %r %r' % (t['n'], v))
    leaf(dty, 1, out)
    return eqs, res
def uninterpreted(M, fn, av, dty):
    key = [fn.name]
    def go(v):
        if type(v) is Ptr:
            if v.m is not None:
                n = M.concretize(v.m)
                key.append(('n', n))
                for i in range(n): go(M.load(v.a, M.elem(v.p, i) if i else v.p))
            else: go(M.load(v.a, v.p))
        elif type(v) in (tuple,):
            for x in v: go(x)
        elif type(v) is En:
            key.append(('e', v.v))
            for x in v.f: go(x)
        elif type(v) in (int, Lin, bool, B): key.append(v)
        elif type(v) is Limbs: key.append(v.t)
        else: raise Unsupported('argument of an uninterpreted function: %r' % (v,))
    for v in av: go(v)
    k = tuple(key)
    n = M.ufs.setdefault(k, len(M.ufs))
    if n not in M.ufargs:
        try: M.ufargs[n] = (fn, [frozen(M, v) for v in av], dty)
        except Unsupported: M.ufargs[n] = None
    for kk, r in M.st.apps:
        if kk == k: return r
    def fresh(ty, i):
        t = M.types[ty]
        if t['bits'] and t['k'] in ('int', 'uint'):
            lo, hi = M.rng(t['bits'], t['signed'])
            return T.var('uf%d.%d' % (n, i), lo, hi)
        if t['k'] == 'bool': return T.bvar('uf%d.%d' % (n, i))
        if t['k'] in ('struct', 'tuple'): return tuple(fresh(x, i * 10 + j) for j, x in enumerate(t['f'] if t['k'] == 'tuple' else t['v'][0]['f']))
        if t['k'] == 'enum' and [len(v['f']) for v in t['v']] in ([0, 1], [1, 1]):
            if M.fork(T.bvar('uf%d.some' % n)): return En(1, tuple(fresh(x, i * 10 + 1) for x in t['v'][1]['f'])) if len(t['v'][0]['f']) == 0 else En(0, tuple(fresh(x, i * 10 + 1) for x in t['v'][0]['f']))
            if len(t['v'][0]['f']) == 0: return En(0, ())
            return En(1, tuple(fresh(x, i * 10 + 2) for x in t['v'][1]['f']))
        if t['k'] == 'enum' and all(not v['f'] for v in t['v']):
            # any of the variants
            for j in range(len(t['v']) - 1):
                if M.fork(T.bvar('uf%d.%d.v%d' % (n, i, j))): return En(j, ())
            return En(len(t['v']) - 1, ())
        raise Unsupported('result of an uninterpreted function: %s' % t['n'])
    r = fresh(dty, 1)
    # equal arguments, equal results
    isnum = lambda v: type(v) in (int, Lin)
    for kk, q in M.st.apps:
        if len(kk) != len(k) or kk[0] != k[0] or any(isnum(x) != isnum(y) or not isnum(x) and x != y for x, y in zip(k, kk)): continue
        same = [T.eq(x, y, M.st.env) for x, y in zip(k, kk) if isnum(x)]
        if any(b is False for b in same): continue
        same = [b for b in same if b is not True]
        a = []; b = []
        def leaves(v, o):
            if type(v) is En:
                o.append(('e', v.v))
                for x in v.f: leaves(x, o)
            elif type(v) is tuple:
                for x in v: leaves(x, o)
            else: o.append(v)
        leaves(r, a); leaves(q, b)
        if len(a) != len(b) or any(type(x) is tuple and x != y for x, y in zip(a, b)): M.st.pc.append(T.neg(T.conj(same)))
        else:
            for x, y in zip(a, b):
                if isnum(x): M.st.pc.append(T.disj([T.neg(T.conj(same)), T.eq(x, y, None)]))
    M.st.apps = M.st.apps + ((k, r),)
    return r

# ---------------------------------------------------------------- U256 / U512
def big(v):
    """term of a U256/U512 value"""
    l = v[0]
    if type(l) is Limbs: return l.t
    r = 0
    for i, x in enumerate(l):
        r = T.add(r, T.scale(x, 1 << (64 * i)))
    return simp_limbs(r, l)

def simp_limbs(r, l):
    return r

NL = {'U256': 4, 'U512': 8, 'U128': 2}
def mkbig(t, n): return (Limbs(t, n),)

PT = r'(?:<?primitive_types::)(U256|U512)'

def bigname(fn):
    return 'U512' if 'U512' in fn.name.split('>::')[0].split(' as ')[0] and 'U512' in fn.name else 'U256'

def nofty(M, ty):
    n = M.types[ty]['n']
    return NL[n.rsplit('::', 1)[-1]]

def ref(M, p):
    v = M.load(p.a, p.p)
    while type(v) is Ptr: v = M.load(v.a, v.p)
    return v

def bits_of(n): return 64 * n

def arg_big(M, v, ty):
    """integer term of an argument that is U256/U512, a reference to one, or a primitive integer"""
    while type(v) is Ptr: v = M.load(v.a, v.p)
    if type(v) is tuple: return big(v)
    if type(v) in (bool, B): return M.b2i(v)
    return v

for _N, _n in (('U256', 4), ('U512', 8), ('U128', 2)):
    _P = 'primitive_types::' + _N
    def _reg(N=_N, n=_n, P=_P):
        F = 1 << (64 * n)
        for prim in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
            @exact('<%s as std::convert::From<%s>>::from' % (P, prim), 'primitive_types::<impl std::convert::From<%s> for %s>::from' % (prim, P))
            def _(M, fn, a, dty, aty): return mkbig(a[0], n)
            @exact('<%s as std::convert::TryFrom<%s>>::try_from' % (prim, P), 'primitive_types::<impl std::convert::TryFrom<%s> for %s>::try_from' % (P, prim))
            def _(M, fn, a, dty, aty, prim=prim):
                b = 64 if prim == 'usize' else int(prim[1:])
                t = big(a[0])
                if M.fork(T.lt(t, 1 << b, M.st.env)): return okv(t)
                return errv(M.mkstr('integer overflow when casting to ' + prim))
        for prim in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
            @exact('<%s as std::convert::From<%s>>::from' % (P, prim))
            def _(M, fn, a, dty, aty):
                if M.fork(T.le(0, a[0], M.st.env)): return mkbig(a[0], n)
                raise Panic('Unsigned integer can\'t be created from negative value')
        @exact('<%s as std::convert::From<primitive_types::U256>>::from' % P, '<%s as std::convert::From<&primitive_types::U256>>::from' % P)
        def _(M, fn, a, dty, aty): return mkbig(arg_big(M, a[0], 0), n)
        @exact('<primitive_types::U256 as std::convert::TryFrom<primitive_types::U512>>::try_from')
        def _(M, fn, a, dty, aty):
            t = big(a[0])
            if M.fork(T.lt(t, 1 << 256, M.st.env)): return okv(mkbig(t, 4))
            return errv(UNINIT)
        def op(name, raw, guard):
            # guard(x, y, r): term condition under which the exact result is representable
            @exact('%s::checked_%s' % (P, name))
            def _(M, fn, a, dty, aty):
                x = big(a[0]); y = big(a[1]); ok = guard(M, x, y)
                if not ok: return NONE
                r = raw(M, x, y)
                if M.fork(T.lt(r, F, M.st.env)): return some(mkbig(r, n))
                return NONE
            @exact('%s::overflowing_%s' % (P, name))
            def _(M, fn, a, dty, aty):
                x = big(a[0]); y = big(a[1])
                r = raw(M, x, y)
                if M.fork(T.lt(r, F, M.st.env)) and M.fork(T.le(0, r, M.st.env)): return (mkbig(r, n), False)
                return (mkbig(T.mod(r, F, M.st.env), n), True)
            @exact('%s::saturating_%s' % (P, name))
            def _(M, fn, a, dty, aty):
                x = big(a[0]); y = big(a[1])
                if not guard(M, x, y): return mkbig(0, n)
                r = raw(M, x, y)
                if M.fork(T.lt(r, F, M.st.env)): return mkbig(r, n)
                return mkbig(F - 1, n)
            cap = name.capitalize()
            def opf(M, fn, a, dty, aty):
                x = arg_big(M, a[0], 0); y = arg_big(M, a[1], 0)
                if name in ('div', 'rem'):
                    if M.fork(T.eq(y, 0, M.st.env)): raise Panic('division by zero')
                elif not guard(M, x, y): raise Panic('arithmetic operation overflow')
                r = raw(M, x, y)
                if M.fork(T.lt(r, F, M.st.env)): return mkbig(r, n)
                raise Panic('arithmetic operation overflow')
            RX.append((re.compile(r'^<&?(?:\'_ )?%s as std::ops::%s(<.*>)?>::%s$' % (re.escape(P), cap, name)), opf))
            def opassign(M, fn, a, dty, aty):
                p = a[0]
                r = opf(M, fn, [a[0], a[1]], dty, aty)
                M.store(p.a, p.p, r)
                return ()
            RX.append((re.compile(r'^<%s as std::ops::%sAssign(<.*>)?>::%s_assign$' % (re.escape(P), cap, name)), opassign))
        op('add', lambda M, x, y: T.add(x, y), lambda M, x, y: True)
        op('sub', lambda M, x, y: T.sub(x, y), lambda M, x, y: M.fork(T.le(y, x, M.st.env)))
        op('mul', lambda M, x, y: T.mul(x, y), lambda M, x, y: True)
        op('div', lambda M, x, y: T.div(x, y, M.st.env), lambda M, x, y: M.fork(T.le(1, y, M.st.env)))
        op('rem', lambda M, x, y: T.mod(x, y, M.st.env), lambda M, x, y: M.fork(T.le(1, y, M.st.env)))
        @exact('%s::div_mod' % P)
        def _(M, fn, a, dty, aty):
            x = big(a[0]); y = big(a[1])
            if not M.fork(T.le(1, y, M.st.env)): raise Panic('division by zero')
            q = T.div(x, y, M.st.env)
            return (mkbig(q, n), mkbig(T.sub(x, T.mul(q, y)), n))
        @exact('%s::is_zero' % P)
        def _(M, fn, a, dty, aty): return T.eq(arg_big(M, a[0], 0), 0, M.st.env)
        @exact('%s::zero' % P)
        def _(M, fn, a, dty, aty): return mkbig(0, n)
        @exact('%s::one' % P)
        def _(M, fn, a, dty, aty): return mkbig(1, n)
        @exact('%s::max_value' % P)
        def _(M, fn, a, dty, aty): return mkbig(F - 1, n)
        @exact('%s::low_u128' % P)
        def _(M, fn, a, dty, aty): return T.mod(arg_big(M, a[0], 0), 1 << 128, M.st.env)
        @exact('%s::low_u64' % P)
        def _(M, fn, a, dty, aty): return T.mod(arg_big(M, a[0], 0), 1 << 64, M.st.env)
        for nm, b in (('as_u128', 128), ('as_u64', 64), ('as_u32', 32), ('as_usize', 64)):
            @exact('%s::%s' % (P, nm))
            def _(M, fn, a, dty, aty, b=b):
                t = arg_big(M, a[0], 0)
                if M.fork(T.lt(t, 1 << b, M.st.env)): return t
                raise Panic('Integer overflow when casting')
        for nm, f in (('eq', lambda x, y, e: T.eq(x, y, e)), ('ne', lambda x, y, e: T.neg(T.eq(x, y, e)))):
            @exact('<%s as std::cmp::PartialEq>::%s' % (P, nm))
            def _(M, fn, a, dty, aty, f=f):
                r = f(arg_big(M, a[0], 0), arg_big(M, a[1], 0), M.st.env)
                return r
        @exact('<%s as std::cmp::Ord>::cmp' % P)
        def _(M, fn, a, dty, aty):
            return M.binop3(arg_big(M, a[0], 0), arg_big(M, a[1], 0))
        @exact('<%s as std::cmp::PartialOrd>::partial_cmp' % P)
        def _(M, fn, a, dty, aty):
            return some(M.binop3(arg_big(M, a[0], 0), arg_big(M, a[1], 0)))
        for nm, f in (('lt', lambda x, y, e: T.lt(x, y, e)), ('le', lambda x, y, e: T.le(x, y, e)), ('gt', lambda x, y, e: T.lt(y, x, e)), ('ge', lambda x, y, e: T.le(y, x, e))):
            @exact('<%s as std::cmp::PartialOrd>::%s' % (P, nm), 'std::cmp::PartialOrd::%s::<%s>' % (nm, P))
            def _(M, fn, a, dty, aty, f=f):
                return f(arg_big(M, a[0], 0), arg_big(M, a[1], 0), M.st.env)
        def shl(M, fn, a, dty, aty):
            k = M.concretize(arg_big(M, a[1], 0), 600)
            return mkbig(T.mod(T.scale(arg_big(M, a[0], 0), 1 << k), F, M.st.env), n) if k < 64 * n else mkbig(0, n)
        def shr(M, fn, a, dty, aty):
            k = M.concretize(arg_big(M, a[1], 0), 600)
            return mkbig(T.div(arg_big(M, a[0], 0), 1 << k, M.st.env), n) if k < 64 * n else mkbig(0, n)
        RX.append((re.compile(r'^<&?(?:\'_ )?%s as std::ops::Shl<.*>>::shl$' % re.escape(P)), shl))
        RX.append((re.compile(r'^<&?(?:\'_ )?%s as std::ops::Shr<.*>>::shr$' % re.escape(P)), shr))
        for nm, o in (('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor')):
            @exact('<%s as std::ops::%s>::%s' % (P, nm, o))
            def _(M, fn, a, dty, aty, nm=nm):
                return mkbig(M.bitop(nm, arg_big(M, a[0], 0), arg_big(M, a[1], 0), 64 * n, False), n)
        @exact('%s::bit' % P)
        def _(M, fn, a, dty, aty):
            k = M.concretize(a[1], 600)
            return T.eq(T.mod(T.div(arg_big(M, a[0], 0), 1 << k, M.st.env), 2, M.st.env), 1, M.st.env)
        @exact('%s::bits' % P)
        def _(M, fn, a, dty, aty): return bitlen(M, arg_big(M, a[0], 0), 64 * n)
        @exact('%s::leading_zeros' % P)
        def _(M, fn, a, dty, aty): return 64 * n - bitlen(M, arg_big(M, a[0], 0), 64 * n)
        @exact('%s::integer_sqrt' % P)
        def _(M, fn, a, dty, aty): return mkbig(isqrt(M, arg_big(M, a[0], 0)), n)
        @exact('%s::full_mul' % P)
        def _(M, fn, a, dty, aty): return mkbig(T.mul(big(a[0]), big(a[1])), 2 * n)
        for nm in ('pow', 'checked_pow', 'overflowing_pow'):
            @exact('%s::%s' % (P, nm))
            def _(M, fn, a, dty, aty, nm=nm):
                e = M.concretize(big(a[1]), 64)
                x = big(a[0]); r = 1
                for _i in range(e):
                    r = T.mul(r, x)
                if M.fork(T.lt(r, F, M.st.env)):
                    v = mkbig(r, n)
                    return v if nm == 'pow' else some(v) if nm == 'checked_pow' else (v, False)
                if nm == 'pow': raise Panic('arithmetic operation overflow')
                if nm == 'checked_pow': return NONE
                return (mkbig(T.mod(r, F, M.st.env), n), True)
    _reg()

def bitlen(M, t, width):
    if type(t) is int: return t.bit_length()
    lo, hi = T.bounds(t, M.st.env)
    if max(lo, 0).bit_length() == hi.bit_length(): return hi.bit_length()
    return T.bits(t)

def isqrt(M, t):
    import math
    if type(t) is int: return math.isqrt(t)
    lo, hi = T.bounds(t, None)
    return T.of_atom(T._atom('sqrt', (t,), math.isqrt(max(lo, 0)), math.isqrt(hi)))

@rx(r'^<usize as std::cmp::Ord>::max$', r'^std::cmp::impls::<impl std::cmp::Ord for (usize|u32)>::max$', r'^std::cmp::Ord::max$', r'^std::cmp::(?:Ord::)?max::<(usize|u32)>$')
def _(M, fn, a, dty, aty):
    # the longer of two bit lengths is the bit length of the larger number
    x, y = a
    def atom(t): return t.m[0][0] if type(t) is Lin and t.c == 0 and len(t.m) == 1 and t.m[0][1] == 1 and t.m[0][0].kind == 'bits' else None
    p, q = atom(x), atom(y)
    if p is None or q is None: return NotImplemented
    if M.fork(T.le(p.args[0], q.args[0], M.st.env)): return y
    return x

def binop3(self, x, y):
    if self.fork(T.lt(x, y, self.st.env)): return En(0, ())
    if self.fork(T.eq(x, y, self.st.env)): return En(1, ())
    return En(2, ())
Machine.binop3 = binop3

# ---------------------------------------------------------------- primitive integer helpers with data-dependent loops
@rx(r'^core::num::<impl (u\d+|usize)>::(leading_zeros|ilog2|isqrt|pow|checked_pow|saturating_pow)$')
def _(M, fn, a, dty, aty):
    m = re.match(r'^core::num::<impl (u\d+|usize)>::(\w+)$', fn.name)
    b = 64 if m.group(1) == 'usize' else int(m.group(1)[1:])
    op = m.group(2)
    if op == 'leading_zeros': return b - bitlen(M, a[0], b)
    if op == 'ilog2':
        if M.fork(T.le(a[0], 0, M.st.env)): raise Panic('ilog2 of zero')
        return bitlen(M, a[0], b) - 1
    if op == 'isqrt': return isqrt(M, a[0])
    e = M.concretize(a[1], 130)
    x = a[0]; r = 1
    if type(x) is int:
        r = x ** e
    else:
        for _i in range(e): r = T.mul(r, x)
    if M.fork(T.lt(r, 1 << b, M.st.env)):
        return some(r) if op == 'checked_pow' else r
    if op == 'checked_pow': return NONE
    if op == 'saturating_pow': return (1 << b) - 1
    raise Panic('attempt to multiply with overflow')

# ---------------------------------------------------------------- intrinsics
def tyinfo(M, fn, i=0): return M.types[fn.ta[i]]

@intr('size_of')
def _(M, fn, a, dty, aty): return max(tyinfo(M, fn)['sz'], 0)
@intr('align_of', 'min_align_of', 'pref_align_of')
def _(M, fn, a, dty, aty): return tyinfo(M, fn)['al']
@intr('align_of_val', 'min_align_of_val')
def _(M, fn, a, dty, aty): return max(tyinfo(M, fn)['al'], 1)
@intr('size_of_val')
def _(M, fn, a, dty, aty):
    t = tyinfo(M, fn)
    if t['k'] == 'slice': return M.types[t['e']]['sz'] * a[0].m
    if t['k'] == 'str': return a[0].m
    return max(t['sz'], 0)
@intr('needs_drop')
def _(M, fn, a, dty, aty): return False
@intr('type_id')
def _(M, fn, a, dty, aty): return NotImplemented
@intr('likely', 'unlikely', 'black_box')
def _(M, fn, a, dty, aty): return a[0]
@intr('cold_path', 'assume', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'forget', 'breakpoint', 'prefetch_read_data', 'prefetch_write_data')
def _(M, fn, a, dty, aty): return ()
@intr('ub_checks', 'contract_checks', 'is_val_statically_known')
def _(M, fn, a, dty, aty): return False
@intr('overflow_checks')
def _(M, fn, a, dty, aty): return True
@intr('select_unpredictable')
def _(M, fn, a, dty, aty): return a[1] if M.fork(a[0]) else a[2]

def arith(op):
    def f(M, fn, a, dty, aty):
        return M.checked(op, a[0], a[1], fn.ta[0])
    return f
INTR['add_with_overflow'] = arith('Add')
INTR['sub_with_overflow'] = arith('Sub')
INTR['mul_with_overflow'] = arith('Mul')
def wrapping(op):
    def f(M, fn, a, dty, aty): return M.checked(op, a[0], a[1], fn.ta[0])[0]
    return f
INTR['wrapping_add'] = wrapping('Add')
INTR['wrapping_sub'] = wrapping('Sub')
INTR['wrapping_mul'] = wrapping('Mul')
for _o in ('Add', 'Sub', 'Mul'):
    def _f(M, fn, a, dty, aty, o=_o): return M.raw(o, a[0], a[1])
    INTR['unchecked_' + _o.lower()] = _f
for _o in ('Div', 'Rem'):
    def _f(M, fn, a, dty, aty, o=_o): return M.binop(o, a[0], a[1], fn.ta[0], fn.ta[0])
    INTR['unchecked_' + _o.lower()] = _f
def _f(M, fn, a, dty, aty): return M.binop('Div', a[0], a[1], fn.ta[0], fn.ta[0])
INTR['exact_div'] = _f
for _o in ('Shl', 'Shr'):
    def _f(M, fn, a, dty, aty, o=_o): return M.binop(o, a[0], a[1], fn.ta[0], fn.ta[0])
    INTR['unchecked_' + _o.lower()] = _f
@intr('disjoint_bitor')
def _(M, fn, a, dty, aty): return M.binop('BitOr', a[0], a[1], fn.ta[0], fn.ta[0])
@intr('saturating_add')
def _(M, fn, a, dty, aty):
    t = tyinfo(M, fn); lo, hi = M.rng(t['bits'], t['signed']); r = T.add(a[0], a[1])
    if M.fork(T.lt(hi, r, M.st.env)): return hi
    if M.fork(T.lt(r, lo, M.st.env)): return lo
    return r
@intr('saturating_sub')
def _(M, fn, a, dty, aty):
    t = tyinfo(M, fn); lo, hi = M.rng(t['bits'], t['signed']); r = T.sub(a[0], a[1])
    if M.fork(T.lt(r, lo, M.st.env)): return lo
    if M.fork(T.lt(hi, r, M.st.env)): return hi
    return r
@intr('three_way_compare')
def _(M, fn, a, dty, aty): return M.binop3(a[0], a[1])
@intr('ctlz', 'ctlz_nonzero')
def _(M, fn, a, dty, aty):
    t = tyinfo(M, fn)
    return t['bits'] - bitlen(M, a[0], t['bits'])
@intr('cttz', 'cttz_nonzero')
def _(M, fn, a, dty, aty):
    t = tyinfo(M, fn)
    x = M.concretize(a[0])
    return (x & -x).bit_length() - 1 if x else t['bits']
@intr('ctpop')
def _(M, fn, a, dty, aty):
    x = M.concretize(a[0]); return bin(x & ((1 << tyinfo(M, fn)['bits']) - 1)).count('1')
@intr('bswap')
def _(M, fn, a, dty, aty):
    n = tyinfo(M, fn)['bits'] // 8
    x = a[0]
    r = 0
    for i in range(n):
        r = T.add(r, T.scale(T.mod(T.div(x, 1 << (8 * i)), 256), 1 << (8 * (n - 1 - i))))
    return r
@intr('rotate_left', 'rotate_right')
def _(M, fn, a, dty, aty):
    b = tyinfo(M, fn)['bits']; k = M.concretize(a[1]) % b
    if 'right' in fn.intr: k = (b - k) % b
    if k == 0: return a[0]
    hi = T.div(a[0], 1 << (b - k), M.st.env)
    return T.add(T.scale(T.sub(a[0], T.scale(hi, 1 << (b - k))), 1 << k), hi)
@intr('carrying_mul_add')
def _(M, fn, a, dty, aty):
    b = tyinfo(M, fn)['bits']
    r = T.add(T.add(T.mul(a[0], a[1]), a[2]), a[3])
    return (T.mod(r, 1 << b, M.st.env), T.div(r, 1 << b, M.st.env))
@intr('discriminant_value')
def _(M, fn, a, dty, aty):
    v = M.load(a[0].a, a[0].p)
    return M.disc(v, fn.ta[0], dty)
@intr('variant_count')
def _(M, fn, a, dty, aty): return len(tyinfo(M, fn)['v'])
@intr('transmute', 'transmute_unchecked')
def _(M, fn, a, dty, aty): return M.transmute(a[0], aty[0], dty)
@intr('read_via_copy', 'volatile_load', 'unaligned_volatile_load')
def _(M, fn, a, dty, aty):
    if type(a[0]) is not Ptr: return M.zst(dty)
    return M.load(a[0].a, a[0].p)
@intr('write_via_move', 'volatile_store')
def _(M, fn, a, dty, aty):
    if type(a[0]) is Ptr: M.store(a[0].a, a[0].p, a[1])
    return ()
@intr('copy_nonoverlapping', 'copy', 'volatile_copy_memory')
def _(M, fn, a, dty, aty):
    if tyinfo(M, fn)['sz'] != 0: M.copy(a[0], a[1], a[2])
    return ()
@intr('typed_swap_nonoverlapping')
def _(M, fn, a, dty, aty):
    x = M.load(a[0].a, a[0].p); y = M.load(a[1].a, a[1].p)
    M.store(a[0].a, a[0].p, y); M.store(a[1].a, a[1].p, x)
    return ()
@intr('write_bytes')
def _(M, fn, a, dty, aty):
    n = M.concretize(a[2]); t = tyinfo(M, fn)
    if a[1] != 0 and not t['bits']: raise Unsupported('write_bytes')
    for i in range(n):
        v = zero(M, fn.ta[0]) if a[1] == 0 else int.from_bytes(bytes([a[1]]) * (t['bits'] // 8), 'little')
        M.store(a[0].a, M.elem(a[0].p, i) if i else a[0].p, v)
    return ()
def zero(M, ty):
    t = M.types[ty]; k = t['k']
    if k in ('int', 'uint', 'char'): return 0
    if k == 'bool': return False
    if k in ('tuple', 'closure'): return tuple(zero(M, x) for x in t['f'])
    if k == 'struct': return tuple(zero(M, x) for x in t['v'][0]['f'])
    if k == 'array': return tuple(zero(M, t['e']) for _ in range(t['len']))
    if k == 'union':
        fs = t['v'][0]['f']
        for i in reversed(range(len(fs))):
            if M.types[fs[i]]['sz'] == t['sz']: return Un(i, zero(M, fs[i]))
    raise Unsupported('zero of %s' % t['n'])
@intr('offset', 'arith_offset')
def _(M, fn, a, dty, aty): return M.binop('Offset', a[0], a[1], aty[0], aty[1])
@intr('ptr_offset_from', 'ptr_offset_from_unsigned')
def _(M, fn, a, dty, aty):
    x, y = a
    if type(x) is not Ptr or type(y) is not Ptr: return 0
    xp = [s for s in x.p if not (type(s) is tuple and s[0] == 't')]
    yp = [s for s in y.p if not (type(s) is tuple and s[0] == 't')]
    if x.a != y.a or xp[:-1] != yp[:-1]: raise Unsupported('offset_from across objects')
    if not xp: return 0
    return xp[-1] - yp[-1]
@intr('ptr_metadata')
def _(M, fn, a, dty, aty):
    return a[0].m if type(a[0]) is Ptr and a[0].m is not None else () if type(a[0]) is Ptr else 0
@intr('aggregate_raw_ptr')
def _(M, fn, a, dty, aty):
    if a[1] == (): return a[0]
    if type(a[0]) is int: return Ptr(M.const_new(()), (0,), a[1])
    return Ptr(a[0].a, a[0].p, a[1])
@intr('slice_get_unchecked')
def _(M, fn, a, dty, aty):
    i = M.concretize(a[1])
    p = a[0]
    if type(p) is not Ptr: return p
    return Ptr(p.a, M.elem(p.p, i) if i else p.p, None)
@intr('ptr_guaranteed_cmp')
def _(M, fn, a, dty, aty): return 2
@intr('compare_bytes')
def _(M, fn, a, dty, aty):
    n = M.concretize(a[2])
    env = M.st.env; xs = []
    l = [q.p[-1] if type(q) is Ptr and q.p else None for q in a[:2]]
    if n and type(l[0]) is tuple and l[0] == l[1] and l[0][0] == 't' and M.types[l[0][2]]['sz'] == 1 and M.types[l[0][1]]['sz'] > 1:
        # slices of wider integers seen as bytes: only whether they are equal is asked
        sz = M.types[l[0][1]]['sz']; ps = [q.p[:-1] for q in a[:2]]
        if n % sz: raise Unsupported('compare_bytes')
        r = True
        for i in range(n // sz):
            x = M.load(a[0].a, M.elem(ps[0], i) if i else ps[0]); y = M.load(a[1].a, M.elem(ps[1], i) if i else ps[1])
            if type(x) is En or type(y) is En: raise Unsupported('compare_bytes')
            r = T.conj([r, T.eq(x, y, env)])
        return T.ite(r, 0, 1)
    for i in range(n):
        x = M.load(a[0].a, M.elem(a[0].p, i) if i else a[0].p); y = M.load(a[1].a, M.elem(a[1].p, i) if i else a[1].p)
        if type(x) in (bool, B): x = M.b2i(x)
        if type(y) in (bool, B): y = M.b2i(y)
        if type(x) is En: raise Unsupported('compare_bytes')
        xs.append((x, y))
        if T.eq(x, y, env) is False: break
    r = 0
    for x, y in reversed(xs): r = T.ite(T.eq(x, y, env), r, T.ite(T.lt(x, y, env), -1, 1))
    return r
@intr('raw_eq')
def _(M, fn, a, dty, aty):
    x = []; y = []
    M.flatten(M.load(a[0].a, a[0].p), fn.ta[0], x); M.flatten(M.load(a[1].a, a[1].p), fn.ta[0], y)
    cs = []
    for p, q in zip(x, y):
        if p[1] == 'b': cs.append(M.biff(p[2], q[2]))
        elif type(p[2]) in (int, Lin) and type(q[2]) in (int, Lin): cs.append(T.eq(p[2], q[2], M.st.env))
        else: raise Unsupported('raw_eq')
    return T.conj(cs)
@intr('const_eval_select')
def _(M, fn, a, dty, aty):
    # run-time alternative
    f = M.types[fn.ta[2]]
    if f['k'] != 'fndef' or f['i'] < 0: raise Unsupported('const_eval_select')
    return Tail(M.P.fns[f['i']], list(a[0]))
@intr('caller_location')
def _(M, fn, a, dty, aty): return OPAQUE
@intr('abort')
def _(M, fn, a, dty, aty): raise Panic('abort')
@intr('unreachable')
def _(M, fn, a, dty, aty): raise Infeasible()
@intr('type_name')
def _(M, fn, a, dty, aty): return M.mkstr('type')

# ---------------------------------------------------------------- allocation (never fails)
def alloc(M):
    a = M.new(())
    M.st.data[a] = True
    return Ptr(a, (0,))
@rx(r'^(std|alloc)::alloc::(alloc|alloc_zeroed|__rust_alloc|__rust_alloc_zeroed|exchange_malloc)$')
def _(M, fn, a, dty, aty): return alloc(M)
@rx(r'^<(std|alloc)::alloc::Global as (std|core)::alloc::Allocator>::(allocate|allocate_zeroed)$')
def _(M, fn, a, dty, aty):
    p = alloc(M)
    return okv((Ptr(p.a, p.p, 0),))
@rx(r'^<(std|alloc)::alloc::Global as (std|core)::alloc::Allocator>::deallocate$', r'^(std|alloc)::alloc::dealloc$')
def _(M, fn, a, dty, aty): return ()
@rx(r'^<(std|alloc)::alloc::Global as (std|core)::alloc::Allocator>::(grow|shrink|grow_zeroed)$')
def _(M, fn, a, dty, aty):
    p = a[1]
    while type(p) is tuple: p = p[0]
    if type(p) is not Ptr: p = alloc(M)
    path = p.p
    if path and type(path[-1]) is tuple and path[-1][0] == 't': path = path[:-1]
    return okv((Ptr(p.a, path, 0),))
@rx(r'^(std|alloc)::alloc::(__rust_)?realloc$')
def _(M, fn, a, dty, aty): return a[0]
@rx(r'^(alloc|std)::raw_vec::(RawVecInner.*|RawVec<.*>)::(grow_amortized|grow_exact|finish_grow)$')
def _(M, fn, a, dty, aty): return NotImplemented
@rx(r'^(alloc|std)::raw_vec::handle_error$', r'^(alloc|std)::raw_vec::capacity_overflow$')
def _(M, fn, a, dty, aty): raise Panic('capacity overflow')
@rx(r'^(std|alloc)::alloc::__rust_no_alloc_shim_is_unstable.*$')
def _(M, fn, a, dty, aty): return ()

# ---------------------------------------------------------------- pallet storage: one cell per table
@rx(r'^(?:\w+::)?frame_support::rt::slot(?:::<.*>)?$')
def _(M, fn, a, dty, aty):
    c = M.slots.get(a[0])
    if c is None:
        c = M.slots[a[0]] = M.na
        M.na += 1
    if c not in M.st.mem:
        M.st.mem[c] = En(0, ())
        M.st.slots = M.st.slots + (c,)
    return Ptr(c, ())
def reach(M, c, seen):
    """the cells that make up the value in cell c"""
    def walk(v):
        tv = type(v)
        if tv is tuple:
            for x in v: walk(x)
        elif tv is En:
            for x in v.f: walk(x)
        elif tv is Un: walk(v.v)
        elif tv is Ptr and v.a in M.st.data and v.a not in seen: reach(M, v.a, seen)
    v = seen[c] = M.st.mem[c]
    walk(v)
def deep(M, v, seen):
    tv = type(v)
    if tv is tuple: return tuple(deep(M, x, seen) for x in v)
    if tv is En: return En(v.v, tuple(deep(M, x, seen) for x in v.f))
    if tv is Un: return Un(v.i, deep(M, v.v, seen))
    if tv is Ptr and v.a in M.st.data:
        n = seen.get(v.a)
        if n is None:
            n = seen[v.a] = M.new(())
            M.st.data[n] = True
            M.st.mem[n] = deep(M, M.st.mem[v.a], seen)
        return Ptr(n, v.p, v.m)
    return v
@rx(r'^(?:\w+::)?frame_support::rt::dup(?:::<.*>)?$')
def _(M, fn, a, dty, aty): return deep(M, M.load(a[0].a, a[0].p), {})
@rx(r'^(?:\w+::)?frame_support::rt::recast(?:::<.*>)?$')
def _(M, fn, a, dty, aty):
    # the fields in the order of declaration
    out = []
    M.flatten(deep(M, a[0], {}), aty[0], out)
    out.reverse()
    return M.rebuild(dty, out)
@rx(r'^(?:\w+::)?frame_support::rt::mark(?:::<.*>)?$')
def _(M, fn, a, dty, aty):
    seen = {}
    for c in M.st.slots: reach(M, c, seen)
    M.st.marks = M.st.marks + (seen,)
    return ()
@rx(r'^(?:\w+::)?frame_support::rt::revert(?:::<.*>)?$')
def _(M, fn, a, dty, aty):
    m = M.st.marks[-1]; M.st.marks = M.st.marks[:-1]
    if M.fork(a[0]):
        for c in M.st.slots: M.st.mem[c] = En(0, ())
        M.st.mem.update(m)
    return ()

# ---------------------------------------------------------------- formatting: no semantics
@rx(r'^(core|std)::fmt::rt::.*$', r"^(core|std)::fmt::Arguments::.*$", r'^(alloc|std)::fmt::format.*$', r'^(core|std)::fmt::Formatter::.*$', r'^<.* as std::fmt::(Debug|Display|LowerHex|UpperHex)>::fmt$')
def _(M, fn, a, dty, aty): return OPAQUE

@rx(r'^std::ptr::drop_in_place(::<.*>)?$', r'^std::mem::drop(::<.*>)?$')
def _(M, fn, a, dty, aty): return ()

# ---------------------------------------------------------------- sp-arithmetic stand-in: same function, without forks for the rounding
@exact('sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding')
def _(M, fn, a, dty, aty):
    x, y, c, r = a
    env = M.st.env
    if M.fork(T.le(c, 0, env)): return NONE
    p = T.mul(x, y)
    names = [v['n'] for v in M.types[aty[3]]['v']]
    k = names[r.v]
    if k == 'Down': q = T.div(p, c, env)
    elif k == 'Up': q = T.div(T.sub(T.add(p, c), 1), c, env)
    elif k == 'NearestPrefUp': q = T.div(T.add(T.scale(p, 2), c), T.scale(c, 2), env)
    else: q = T.div(T.sub(T.add(T.scale(p, 2), c), 1), T.scale(c, 2), env)
    if M.fork(T.lt(q, 1 << 128, env)): return some(q)
    return NONE

# ---------------------------------------------------------------- characters: same functions, without forks
def within_any(M, c, rs): return T.disj([T.conj([T.le(l, c, M.st.env), T.le(c, h, M.st.env)]) for l, h in rs])
@exact('core::num::<impl u8>::to_ascii_uppercase')
def _(M, fn, a, dty, aty):
    c = M.load(a[0].a, a[0].p)
    return T.ite(within_any(M, c, [(97, 122)]), T.sub(c, 32), c)
@exact('std::char::methods::<impl char>::is_alphanumeric', 'core::char::methods::<impl char>::is_alphanumeric')
def _(M, fn, a, dty, aty):
    c = a[0]
    if type(c) is not int and T.base_bounds(c)[1] > 255: raise Unsupported('is_alphanumeric')
    if type(c) is int and c > 255: return chr(c).isalnum()
    rs = []
    for i in range(256):  # Latin-1; those of Python's isalnum are Rust's
        if chr(i).isalnum():
            if rs and rs[-1][1] == i - 1: rs[-1][1] = i
            else: rs.append([i, i])
    n = 0  # as a sum: a disjunction would be one path per range
    for r in rs: n = T.add(n, T.ite(within_any(M, c, [r]), 1, 0))
    return T.le(1, n, M.st.env)

# ---------------------------------------------------------------- fixed (unsigned 128-bit): exact semantics over the bits
def fbits(M, v):
    while type(v) is Ptr: v = M.load(v.a, v.p)
    return v[0]
FX = r'fixed::FixedU128<(\d+)>'
@rx(r"^fixed::cmp::<impl std::cmp::PartialOrd(?:<fixed::FixedU128<\d+>>)? for fixed::FixedU128<\d+>>::(lt|le|gt|ge|eq|ne|partial_cmp)$", r"^fixed::cmp::<impl std::cmp::PartialEq(?:<fixed::FixedU128<\d+>>)? for fixed::FixedU128<\d+>>::(eq|ne)$", r"^fixed::cmp::<impl std::cmp::Ord for fixed::FixedU128<\d+>>::(cmp)$")
def _(M, fn, a, dty, aty):
    fr = re.findall(r'FixedU128<(\d+)>', fn.name)
    if len(set(fr)) > 1: return NotImplemented
    x, y, e = fbits(M, a[0]), fbits(M, a[1]), M.st.env
    k = fn.name.rsplit('::', 1)[1]
    if k == 'lt': return T.lt(x, y, e)
    if k == 'le': return T.le(x, y, e)
    if k == 'gt': return T.lt(y, x, e)
    if k == 'ge': return T.le(y, x, e)
    if k == 'eq': return T.eq(x, y, e)
    if k == 'ne': return bneg(T.eq(x, y, e))
    r = M.binop3(x, y)
    return r if k == 'cmp' else some(r)
def bneg(b): return (not b) if type(b) is bool else T.neg(b)

@rx(r'^std::num::NonZero::<(?:u\d+|usize)>::new$')
def _(M, fn, a, dty, aty):
    if M.fork(T.eq(a[0], 0, M.st.env)): return NONE
    nz = M.types[dty]['v'][1]['f'][0]
    return some(M.transmute(a[0], aty[0], nz))

# ---------------------------------------------------------------- fixed (crate): widening multiplication and division
@rx(r'^<u128 as fixed::arith::OverflowingMulDiv>::overflowing_mul$')
def _(M, fn, a, dty, aty):
    r = T.div(T.mul(a[0], a[1]), 1 << a[2], M.st.env)
    if M.fork(T.lt(r, 1 << 128, M.st.env)): return (r, False)
    return (T.mod(r, 1 << 128, M.st.env), True)

@rx(r'^<u128 as fixed::arith::OverflowingMulDiv>::overflowing_div$')
def _(M, fn, a, dty, aty):
    if M.fork(T.eq(a[1], 0, M.st.env)): raise Panic('attempt to divide by zero')
    r = T.div(T.mul(a[0], 1 << a[2]), a[1], M.st.env)
    if M.fork(T.lt(r, 1 << 128, M.st.env)): return (r, False)
    return (T.mod(r, 1 << 128, M.st.env), True)
