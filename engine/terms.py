"""Hash-consed integer / boolean terms.

Integer terms are plain Python ints or `Lin` objects: c + sum(k_i * atom_i) over mathematical integers.
Atoms: var, mul (product of >=2 primitive Lins), div (floor division, divisor known positive on every path
that builds it), ite, and opaque bit operations.
Booleans are Python bools or `B` objects.
"""
from math import gcd

class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'name', 'key')
    def __repr__(self):
        return show_atom(self)

class Lin:
    __slots__ = ('c', 'm', 'id')
    def __repr__(self):
        return show(self)

class B:
    __slots__ = ('kind', 'args', 'id')
    def __repr__(self):
        return showb(self)

_atoms = {}
_lins = {}
_bs = {}
_cnt = [0]
GUARD = set()   # quotients whose divisor is positive only under a condition

def _nid():
    _cnt[0] += 1
    return _cnt[0]

def reset():
    _atoms.clear(); _lins.clear(); _bs.clear(); _cnt[0] = 0

def _atom(kind, args, lo, hi, name=None):
    k = (kind, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom(); a.id = _nid(); a.kind = kind; a.args = args; a.lo = lo; a.hi = hi; a.name = name
        a.key = ((a, 1),)
        _atoms[k] = a
    return a

def mklin(c, m):
    """m: tuple of (atom, coeff) sorted by atom id, no zero coeff."""
    if not m:
        return c
    k = (c, m)
    t = _lins.get(k)
    if t is None:
        t = Lin(); t.c = c; t.m = m; t.id = _nid()
        _lins[k] = t
    return t

def of_atom(a):
    return mklin(0, a.key)

def var(name, lo, hi):
    if lo == hi:
        return lo
    return of_atom(_atom('var', (name, lo, hi), lo, hi, name))

def add(x, y, ky=1):
    """x + ky*y"""
    if type(y) is int:
        if type(x) is int:
            return x + ky * y
        if y == 0:
            return x
        return mklin(x.c + ky * y, x.m)
    if type(x) is int:
        return mklin(x + ky * y.c, tuple((a, ky * k) for a, k in y.m))
    d = {}
    for a, k in x.m:
        d[a] = k
    for a, k in y.m:
        n = d.get(a, 0) + ky * k
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return mklin(x.c + ky * y.c, tuple(sorted(d.items(), key=_akey)))

def _akey(p):
    return p[0].id

def sub(x, y):
    return add(x, y, -1)

def scale(x, k):
    if type(x) is int:
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return mklin(x.c * k, tuple((a, q * k) for a, q in x.m))

def content(x):
    """(g, x/g) with leading coefficient of x/g positive."""
    g = abs(x.c)
    for _, k in x.m:
        g = gcd(g, k)
    if x.m[0][1] < 0:
        g = -g
    if g == 1:
        return 1, x
    return g, mklin(x.c // g, tuple((a, k // g) for a, k in x.m))

def factors(x):
    """primitive x -> tuple of factors"""
    if x.c == 0 and len(x.m) == 1 and x.m[0][1] == 1 and x.m[0][0].kind == 'mul':
        return x.m[0][0].args
    return (x,)

def mul(x, y):
    if type(x) is int:
        return scale(y, x)
    if type(y) is int:
        return scale(x, y)
    g1, x = content(x)
    g2, y = content(y)
    f = tuple(sorted(factors(x) + factors(y), key=lambda t: t.id))
    return scale(of_atom(_mulatom(f)), g1 * g2)

def _mulatom(f):
    lo, hi = 1, 1
    for t in f:
        l, h = base_bounds(t)
        lo, hi = imul(lo, hi, l, h)
    if len(f) == 2 and f[0] is f[1] and lo < 0:
        lo = 0
    return _atom('mul', f, lo, hi)

def mulf(fs):
    if not fs:
        return 1
    r = fs[0]
    for t in fs[1:]:
        r = mul(r, t)
    return r

def imul(a, b, c, d):
    p = (a * c, a * d, b * c, b * d)
    return min(p), max(p)

def base_bounds(x):
    return bounds(x, None)

def bounds(x, env):
    """interval of x; env: mapping from primitive linear forms (c == 0) to (lo, hi)"""
    if type(x) is int:
        return x, x
    lo = hi = x.c
    single = len(x.m) == 1
    for a, k in x.m:
        l, h = abounds(a, env)
        if k > 0:
            lo += k * l; hi += k * h
        else:
            lo += k * h; hi += k * l
    if env is not None and not single:
        k, g = formkey(x)
        e = env.get(k)
        if e is not None:
            l, h = e
            if g > 0:
                l2 = None if l is None else x.c + g * l
                h2 = None if h is None else x.c + g * h
            else:
                l2 = None if h is None else x.c + g * h
                h2 = None if l is None else x.c + g * l
            if l2 is not None and l2 > lo: lo = l2
            if h2 is not None and h2 < hi: hi = h2
    return lo, hi

def formkey(x):
    """(key, g) with x - x.c == g * form(key)"""
    g = 0
    for _, k in x.m:
        g = gcd(g, k)
    if x.m[0][1] < 0:
        g = -g
    if g == 1:
        return x.m, 1
    return tuple((a, k // g) for a, k in x.m), g

def abounds(a, env):
    if env is None:
        return a.lo, a.hi
    memo = env.memo
    r = memo.get(a)
    if r is not None:
        return r
    lo, hi = a.lo, a.hi
    if a.kind == 'mul':
        l, h = 1, 1
        for t in a.args:
            p, q = bounds(t, env)
            l, h = imul(l, h, p, q)
        if l > lo: lo = l
        if h < hi: hi = h
    elif a.kind == 'div':
        l, h = idiv(*bounds(a.args[0], env), *bounds(a.args[1], env))
        if l > lo: lo = l
        if h < hi: hi = h
    elif a.kind == 'bits':
        l, h = bounds(a.args[0], env)
        lo = max(lo, max(l, 0).bit_length()); hi = min(hi, max(h, 0).bit_length())
    elif a.kind == 'ite':
        c = redecide(a.args[0], env)
        if c is True: l, h = bounds(a.args[1], env)
        elif c is False: l, h = bounds(a.args[2], env)
        else:
            l1, h1 = bounds(a.args[1], env)
            l2, h2 = bounds(a.args[2], env)
            l = min(l1, l2); h = max(h1, h2)
        lo = max(lo, l); hi = min(hi, h)
    e = env.get(a.key)
    if e is not None:
        if e[0] is not None and e[0] > lo: lo = e[0]
        if e[1] is not None and e[1] < hi: hi = e[1]
    memo[a] = (lo, hi)
    return lo, hi

def idiv(nl, nh, dl, dh):
    if dl < 1:
        dl = 1
    if dh < 1:
        dh = 1
    lo = nl // dh if nl >= 0 else nl // dl
    hi = nh // dl if nh >= 0 else nh // dh
    return lo, hi

class Env(dict):
    """bounds of linear forms on a path"""
    __slots__ = ('memo', 'bad')
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.memo = {}
        self.bad = False
    def copy(self):
        e = Env(self)
        e.memo = dict(self.memo)
        e.bad = self.bad
        return e
    def learn(self, b):
        """record a path condition; returns False if it is contradictory with the intervals"""
        if b.kind == 'le':
            self._le(b.args)
        elif b.kind == 'eq':
            self._le(b.args)
            self._le(scale(b.args, -1))
        elif b.kind == 'ne':
            # trim an endpoint
            t = b.args
            if len(t.m) == 1:
                k, g = formkey(t)
                if t.c % g == 0:
                    v = -t.c // g
                    l, h = abounds(t.m[0][0], self)
                    if v == l:
                        self._set(k, l + 1, None)
                    elif v == h:
                        self._set(k, None, h - 1)
        elif b.kind == 'and':
            for x in b.args:
                self.learn(x)
    def _set(self, k, lo, hi):
        l, h = self.get(k, (None, None))
        if lo is not None and (l is None or lo > l): l = lo
        if hi is not None and (h is None or hi < h): h = hi
        self[k] = (l, h)
        self.memo.clear()
        if l is not None and h is not None and l > h:
            self.bad = True
        elif len(k) == 1:
            a = k[0][0]
            if (l is not None and l > a.hi) or (h is not None and h < a.lo):
                self.bad = True
    def _le(self, t):
        # t <= 0
        k, g = formkey(t)
        if g > 0:
            self._set(k, None, (-t.c) // g)
        else:
            self._set(k, -((-t.c) // (-g)), None)
        if len(t.m) > 1 and len(t.m) <= 6:
            los = []
            for a, q in t.m:
                l, h = abounds(a, self)
                los.append(q * l if q > 0 else q * h)
            tot = t.c + sum(los)
            for (a, q), m in zip(t.m, los):
                rest = tot - m  # q*a <= -rest
                if q > 0:
                    self._set(a.key, None, (-rest) // q)
                else:
                    self._set(a.key, -((-rest) // (-q)), None)

def div(n, d, env=None):
    """floor(n/d), d > 0"""
    if type(d) is int:
        assert d > 0
        if d == 1:
            return n
        if type(n) is int:
            return n // d
        q, rest = n.c // d, []
        qm = []
        for a, k in n.m:
            # keep the remainder part with the smaller representative only when it divides exactly
            if k % d == 0:
                qm.append((a, k // d))
            else:
                rest.append((a, k))
        r = mklin(n.c % d, tuple(rest))
        qt = mklin(q, tuple(qm))
        if type(r) is int:
            return add(qt, r // d)
        l, h = bounds(r, env)
        if l // d == h // d:
            return add(qt, l // d)
        # common factor of r's coefficients and d
        g = d
        for _, k in r.m:
            g = gcd(g, k)
        if g > 1:
            r = mklin(r.c // g, tuple((a, k // g) for a, k in r.m))
            d //= g
            if d == 1:
                return add(qt, r)
        if len(r.m) == 1 and r.m[0][1] == 1 and r.c == 0 and r.m[0][0].kind == 'div' and type(r.m[0][0].args[1]) is int:
            a = r.m[0][0]
            return add(qt, div(a.args[0], a.args[1] * d, env))
        l, h = bounds(r, None)
        return add(qt, of_atom(_atom('div', (r, d), l // d, h // d)))
    if type(n) is int and n == 0:
        return 0
    if n is d:
        return 1
    l, h = bounds(n, env)
    dl, dh = bounds(d, env)
    if l >= 0 and h < dl:
        return 0
    if type(n) is not int:
        gn, pn = content(n)
        gd, pd = content(d)
        g = gcd(gn, gd)
        fn = list(factors(pn)); fd = list(factors(pd))
        ch = False; flip = 1
        for f in list(fd):
            fl, fh = bounds(f, env)
            if f in fn and (fl >= 1 or fh <= -1):
                fn.remove(f); fd.remove(f); ch = True
                if fh <= -1: flip = -flip
        if ch or g > 1:
            n = scale(mulf(fn), flip * gn // g)
            d = scale(mulf(fd), flip * gd // g)
            return div(n, d, env)
    l, h = bounds(n, None)
    dl, dh = bounds(d, None)
    lo, hi = idiv(l, h, dl, dh)
    return of_atom(_atom('div', (n, d), lo, hi))

def mod(n, d, env=None):
    if type(n) is int and type(d) is int:
        return n % d
    return sub(n, mul(div(n, d, env), d))

def opaque(kind, x, y, lo, hi):
    return of_atom(_atom(kind, (x, y), lo, hi))

def bits(x):
    """bit length of x >= 0"""
    if type(x) is int: return x.bit_length()
    l, h = base_bounds(x)
    return of_atom(_atom('bits', (x,), max(l, 0).bit_length(), max(h, 0).bit_length()))

def ite(b, x, y):
    if b is True or b is False:
        return x if b else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    l1, h1 = base_bounds(x); l2, h2 = base_bounds(y)
    return of_atom(_atom('ite', (b, x, y), min(l1, l2), max(h1, h2)))

# ---- booleans

def _b(kind, args):
    k = (kind, args)
    b = _bs.get(k)
    if b is None:
        b = B(); b.kind = kind; b.args = args; b.id = _nid()
        _bs[k] = b
    return b

def _norm(t):
    """divide a Lin by the gcd of its coefficients (not the constant): for t <= 0"""
    g = 0
    for _, k in t.m:
        g = gcd(g, k)
    if g > 1:
        # sum/g <= -c/g  -> floor
        return mklin(-((-t.c) // g), tuple((a, k // g) for a, k in t.m))
    return t

def le(x, y, env=None):
    t = sub(x, y)
    if type(t) is int:
        return t <= 0
    l, h = bounds(t, env)
    if h <= 0:
        return True
    if l > 0:
        return False
    t = _norm(t)
    if len(t.m) == 1 and t.m[0][0].kind == 'bits':
        a, k = t.m[0]
        # k is 1 or -1 after normalisation
        if k == 1: return le(a.args[0], (1 << -t.c) - 1, env)
        return le(1 << (t.c - 1), a.args[0], env)
    return _b('le', t)

def lt(x, y, env=None):
    return le(add(x, 1), y, env)

def eq(x, y, env=None):
    t = sub(x, y)
    if type(t) is int:
        return t == 0
    l, h = bounds(t, env)
    if l > 0 or h < 0:
        return False
    if l == h:
        return l == 0
    g = 0
    for _, k in t.m:
        g = gcd(g, k)
    if t.c % g:
        return False
    if t.m[0][1] < 0:
        g = -g
    if g != 1:
        t = mklin(t.c // g, tuple((a, k // g) for a, k in t.m))
    if len(t.m) == 1 and t.m[0][0].kind == 'bits':
        a = t.m[0][0]; k = -t.c
        if k == 0: return eq(a.args[0], 0, env)
        return conj([le(1 << (k - 1), a.args[0], env), le(a.args[0], (1 << k) - 1, env)])
    return _b('eq', t)

def bvar(name):
    return _b('bvar', name)

def neg(b):
    if b is True: return False
    if b is False: return True
    if b.kind == 'le':
        return _b('le', _norm(sub(1, b.args)))
    if b.kind == 'eq':
        return _b('ne', b.args)
    if b.kind == 'ne':
        return _b('eq', b.args)
    if b.kind == 'not':
        return b.args
    if b.kind == 'and':
        return disj([neg(x) for x in b.args])
    if b.kind == 'or':
        return conj([neg(x) for x in b.args])
    return _b('not', b)

def conj(xs):
    out = {}
    for x in xs:
        if x is True: continue
        if x is False: return False
        if x.kind == 'and':
            for y in x.args: out[y] = 1
        else:
            out[x] = 1
    for x in out:
        if neg(x) in out:
            return False
    if not out: return True
    if len(out) == 1: return next(iter(out))
    return _b('and', tuple(sorted(out, key=lambda b: b.id)))

def disj(xs):
    out = {}
    for x in xs:
        if x is False: continue
        if x is True: return True
        if x.kind == 'or':
            for y in x.args: out[y] = 1
        else:
            out[x] = 1
    for x in out:
        if x.kind in ('le', 'eq', 'ne', 'bvar', 'not') and neg(x) in out:
            return True
    if not out: return False
    if len(out) == 1: return next(iter(out))
    return _b('or', tuple(sorted(out, key=lambda b: b.id)))

def redecide(b, env):
    """re-evaluate a comparison under path bounds"""
    if b is True or b is False:
        return b
    if b.kind == 'le':
        l, h = bounds(b.args, env)
        return True if h <= 0 else False if l > 0 else b
    if b.kind in ('eq', 'ne'):
        l, h = bounds(b.args, env)
        if l > 0 or h < 0:
            return b.kind == 'ne'
        if l == h == 0:
            return b.kind == 'eq'
        return b
    if b.kind == 'and':
        return conj([redecide(x, env) for x in b.args])
    if b.kind == 'or':
        return disj([redecide(x, env) for x in b.args])
    if b.kind == 'not':
        return neg(redecide(b.args, env))
    return b

# ---- evaluation under a concrete assignment (var name -> int)

def evalt(x, asg, memo):
    if type(x) is int:
        return x
    r = x.c
    for a, k in x.m:
        r += k * evala(a, asg, memo)
    return r

def evala(a, asg, memo):
    r = memo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k == 'var':
        r = asg.get(a.name, max(a.lo, min(0, a.hi)))
    elif k == 'mul':
        r = 1
        for t in a.args:
            r *= evalt(t, asg, memo)
    elif k == 'div':
        d = evalt(a.args[1], asg, memo)
        r = 0 if d <= 0 else evalt(a.args[0], asg, memo) // d
    elif k == 'bits':
        r = max(evalt(a.args[0], asg, memo), 0).bit_length()
    elif k == 'sqrt':
        import math
        r = math.isqrt(max(evalt(a.args[0], asg, memo), 0))
    elif k == 'ite':
        r = evalt(a.args[1] if evalb(a.args[0], asg, memo) else a.args[2], asg, memo)
    elif k == 'and':
        r = evalt(a.args[0], asg, memo) & evalt(a.args[1], asg, memo)
    elif k == 'or':
        r = evalt(a.args[0], asg, memo) | evalt(a.args[1], asg, memo)
    elif k == 'xor':
        r = evalt(a.args[0], asg, memo) ^ evalt(a.args[1], asg, memo)
    else:
        raise Exception('eval ' + k)
    memo[a] = r
    return r

def evalb(b, asg, memo):
    if b is True or b is False:
        return b
    k = b.kind
    if k == 'le': return evalt(b.args, asg, memo) <= 0
    if k == 'eq': return evalt(b.args, asg, memo) == 0
    if k == 'ne': return evalt(b.args, asg, memo) != 0
    if k == 'not': return not evalb(b.args, asg, memo)
    if k == 'and': return all(evalb(x, asg, memo) for x in b.args)
    if k == 'or': return any(evalb(x, asg, memo) for x in b.args)
    if k == 'bvar': return bool(asg.get(b.args, False))
    raise Exception(k)

# ---- display

def show(x):
    if type(x) is int:
        return str(x)
    s = [] if x.c == 0 else [str(x.c)]
    for a, k in x.m:
        s.append((str(k) + '*' if k != 1 else '') + show_atom(a))
    return '(' + ' + '.join(s) + ')'

def show_atom(a):
    if a.kind == 'var':
        return a.name
    if a.kind == 'ite':
        return 'ite(%s,%s,%s)' % (showb(a.args[0]), show(a.args[1]), show(a.args[2]))
    return a.kind + '[' + ', '.join(show(t) for t in a.args) + ']'

def showb(b):
    if b is True or b is False:
        return str(b)
    if b.kind in ('le', 'eq', 'ne'):
        return show(b.args) + {'le': '<=0', 'eq': '==0', 'ne': '!=0'}[b.kind]
    if b.kind == 'not':
        return '!' + showb(b.args)
    if b.kind == 'bvar':
        return b.args
    return b.kind + '(' + ', '.join(showb(x) for x in b.args) + ')'
