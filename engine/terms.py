"""Value domain of the dataflow engine: polynomials with rational coefficients over opaque atoms
(normal form = value number), boolean terms, pointers and aggregates."""
from fractions import Fraction
from functools import lru_cache


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    # ---- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else ZERO_

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    # ---- identity
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    def __ne__(self, o):
        return not self == o

    # ---- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def is_zero(self):
        return not self.t

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    # ---- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, c):
        if not c:
            return ZERO_
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO_
        if o.is_const():
            return self.scale(o.t[()])
        if self.is_const():
            return o.scale(self.t[()])
        r = {}
        fix = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        r = {m: c for m, c in r.items() if c}
        for m in r:
            for a, e in m:
                if e > 1 and type(a) is tuple and a[0] == 'sqrt':
                    fix = True
                if a.__class__ is tuple and a[0] == 'inv' :
                    fix = True
        p = Poly(r)
        return reduce_special(p) if fix else p

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __pow__(self, n):
        r = ONE_
        for _ in range(n):
            r = r * self
        return r

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n > 1 and type(a) is tuple and a[0] == 'ind':
            n = 1
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


_ak = {}


def akey(a):
    k = _ak.get(a)
    if k is None:
        k = _ak[a] = len(_ak)
    return k


ZERO_ = Poly({})
ONE_ = Poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(Fraction(repr(x)))
    if isinstance(x, B):
        return ind(x)
    if isinstance(x, Ptr) and x.loc is None:
        return ZERO_
    if isinstance(x, Ite):
        try:
            return mk_ite(x.c, P(x.a), P(x.b))
        except TypeError:
            pass
    return Poly.atom(x if isinstance(x, tuple) else ('val', x))


def ind(b):
    """0/1 indicator of a boolean term as a multilinear polynomial over atomic tests"""
    k = b.v[0]
    if k == 'T':
        return ONE_
    if k == 'F':
        return ZERO_
    if k == 'not' or k == 'le' or (k == 'lt' and len(b.v) > 2 and lead_neg(b.v[1])):
        return ONE_ - ind(neg(b))
    if k in ('and', 'or') and len(b.v[1]) > 7:
        return Poly.atom(('ind', b))
    if k == 'and':
        r = ONE_
        for x in b.v[1]:
            r = r * ind(x)
        return r
    if k == 'or':
        r = ONE_
        for x in b.v[1]:
            r = r * (ONE_ - ind(x))
        return ONE_ - r
    return Poly.atom(('ind', b))


def sym(*name):
    return Poly.atom(('sym',) + name)


def normalize_lead(p):
    """p = c * q with q having leading coefficient 1 (deterministic monomial order)."""
    m = min(p.t, key=lambda m: [(akey(a), e) for a, e in m])
    c = p.t[m]
    return c, p.scale(1 / c)


def inv(p):
    if p.is_zero():
        return Poly.atom(('inv', ZERO_))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return reduce_special(Poly({tuple((a, -e) for a, e in m): 1 / c}))
    c, q = normalize_lead(p)
    return Poly({((('inv', q), 1),): 1 / c})


def reduce_special(p):
    """sqrt(x)^2 -> x, inv(q)^-n -> q^n, 0/1 indicator atoms idempotent."""
    todo = None
    for m in p.t:
        for a, e in m:
            if type(a) is tuple:
                if a[0] == 'sqrt' and (e > 1 or e < 0):
                    todo = m
                elif a[0] == 'inv' and e < 0:
                    todo = m
        if todo is not None:
            break
    if todo is None:
        return p
    r = ZERO_
    for m, c in p.t.items():
        base = []
        extra = ONE_
        for a, e in m:
            if type(a) is tuple and a[0] == 'sqrt' and (e > 1 or e < 0):
                h, odd = divmod(e, 2)
                q = a[1]
                f = q if h > 0 else inv(q)
                for _ in range(abs(h)):
                    extra = extra * f
                if odd:
                    base.append((a, 1))
            elif type(a) is tuple and a[0] == 'inv' and e < 0:
                for _ in range(-e):
                    extra = extra * a[1]
            else:
                base.append((a, e))
        r = r + Poly({tuple(base): c}) * extra
    return r


def sqrt(p):
    if p.is_const():
        c = p.cval()
        if c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Poly.const(Fraction(n, d))
    return Poly.atom(('sqrt', p))


# ------------------------------------------------------------------------------------ booleans
class B:
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(('B', self.v))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, B) and hash(self) == hash(o) and self.v == o.v)

    def __getstate__(self):
        return self.v

    def __setstate__(self, v):
        self.v = v
        self._h = None

    def __repr__(self):
        return show_b(self)


TRUE = B(('T',))
FALSE = B(('F',))


def primitive(p):
    """scale p by a positive rational so that its coefficients are coprime integers"""
    from math import gcd
    if not p.t:
        return p
    l = 1
    for c in p.t.values():
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for c in p.t.values():
        g = gcd(g, abs(c.numerator * (l // c.denominator)))
    return p.scale(Fraction(l, g))


def lead_neg(p):
    ms = [m for m in p.t if m]
    if not ms:
        return False
    return p.t[min(ms, key=lambda m: [(akey(a), e) for a, e in m])] < 0


def lt(p, integral=False):      # p < 0
    if p.is_const():
        return TRUE if p.cval() < 0 else FALSE
    if integral:
        return B(('lt', p, 1))
    return B(('lt', primitive(p)))


def le(p, integral=False):
    if integral:
        return lt(p - 1, True)
    if p.is_const():
        return TRUE if p.cval() <= 0 else FALSE
    return B(('le', primitive(p)))


def eq(p):
    if p.is_const():
        return TRUE if p.is_zero() else FALSE
    inds = [a for a in p.atoms() if type(a) is tuple and a[0] == 'ind']
    if inds and len(inds) <= 3:
        # case split on the indicator atoms
        a = inds[0]
        p1, p0 = cofactor(p, a, 1), cofactor(p, a, 0)
        e1, e0 = eq(p1), eq(p0)
        return b_ite(a[1], e1, e0)
    _, p = normalize_lead(p)
    p = primitive(p)
    return B(('eq', p))


def cofactor(p, a, v):
    """p with indicator atom a set to v (0 or 1)"""
    r = ZERO_
    for m, c in p.t.items():
        d = dict(m)
        if a in d:
            if not v:
                continue
            del d[a]
            m = tuple(sorted(d.items(), key=lambda x: akey(x[0])))
        r = r + Poly({m: c})
    return r


def same(a, b):
    """equality of two opaque (non numeric) values"""
    if a == b:
        return TRUE
    if isinstance(a, Str) and isinstance(b, Str):
        return FALSE
    return B(('same', frozenset((a, b))))


def neg(b):
    k = b.v[0]
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'not':
        return b.v[1]
    if k == 'lt':
        p = b.v[1]
        if len(b.v) > 2:
            return lt(-p - 1, True)
        return B(('le', -p))
    if k == 'le':
        return B(('lt', -b.v[1]))
    if k == 'and':
        return disj([neg(x) for x in b.v[1]])
    if k == 'or':
        return conj([neg(x) for x in b.v[1]])
    return B(('not', b))


def conj(bs):
    out = []
    for b in bs:
        if b.v[0] == 'T':
            continue
        if b.v[0] == 'F':
            return FALSE
        if b.v[0] == 'and':
            out += b.v[1]
        else:
            out.append(b)
    s = []
    for b in out:
        if b not in s:
            s.append(b)
    for b in s:
        if neg1(b) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return B(('and', tuple(sorted(s, key=bkey))))


def disj(bs):
    out = []
    for b in bs:
        if b.v[0] == 'F':
            continue
        if b.v[0] == 'T':
            return TRUE
        if b.v[0] == 'or':
            out += b.v[1]
        else:
            out.append(b)
    s = []
    for b in out:
        if b not in s:
            s.append(b)
    for b in s:
        if neg1(b) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    # (c & x) | (~c & x) = x
    if len(s) == 2:
        parts = [set(x.v[1]) if x.v[0] == 'and' else {x} for x in s]
        common = parts[0] & parts[1]
        d0, d1 = parts[0] - common, parts[1] - common
        if not d0 or not d1:
            return conj(sorted(common, key=bkey)) if common else TRUE
        if len(d0) == 1 and len(d1) == 1 and neg1(next(iter(d0))) == next(iter(d1)):
            return conj(sorted(common, key=bkey)) if common else TRUE
        if len(d0) == 1 and neg1(next(iter(d0))) in d1:   # c | (~c & y) = c | y
            y = conj(sorted(d1 - {neg1(next(iter(d0)))}, key=bkey))
            r = disj([next(iter(d0)), y])
            return conj(sorted(common, key=bkey) + [r]) if common else r
        if len(d1) == 1 and neg1(next(iter(d1))) in d0:
            y = conj(sorted(d0 - {neg1(next(iter(d1)))}, key=bkey))
            r = disj([next(iter(d1)), y])
            return conj(sorted(common, key=bkey) + [r]) if common else r
    return B(('or', tuple(sorted(s, key=bkey))))


def neg1(b):
    k = b.v[0]
    if k in ('and', 'or'):
        return B(('not!', b))
    return neg(b)


_bk = {}


def bkey(b):
    k = _bk.get(b)
    if k is None:
        k = _bk[b] = len(_bk)
    return k


def bool_of(v):
    if isinstance(v, B):
        return v
    if isinstance(v, Ptr):
        if v.loc is None:
            return FALSE
        if isinstance(v.loc[0], tuple) and v.loc[0][:1] == ('*',):
            return neg(B(('isnull', v.loc)))
        return TRUE
    if isinstance(v, Ite):
        return b_ite(v.c, bool_of(v.a), bool_of(v.b))
    if isinstance(v, Poly):
        return neg(eq(v))
    return B(('test', v))


def b_ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    return disj([conj([c, a]), conj([neg(c), b])])


# ------------------------------------------------------------------------------------ other values
class Ptr:
    __slots__ = ("loc", "t")

    def __init__(self, loc, t=None):
        self.loc = loc
        self.t = t

    def __hash__(self):
        return hash(('Ptr', self.loc))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.loc == o.loc

    def __repr__(self):
        return '&' + show_loc(self.loc) if self.loc else 'nullptr'


class Ref:
    """value of class type: names the location that holds it"""
    __slots__ = ("loc", "t")

    def __init__(self, loc, t):
        self.loc = loc
        self.t = t

    def __hash__(self):
        return hash(('Ref', self.loc))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.loc == o.loc

    def __repr__(self):
        return 'ref:' + show_loc(self.loc)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(('Str', self.s))

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __repr__(self):
        return repr(self.s)


class Opq:
    """opaque non-numeric value"""
    __slots__ = ("k", "_h")

    def __init__(self, *k):
        self.k = k
        self._h = hash(('Opq', k))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Opq) and self._h == o._h and self.k == o.k

    def __repr__(self):
        return 'opq' + show_any(self.k)


class Ite:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __hash__(self):
        return hash(('Ite', self.c, self.a, self.b))

    def __eq__(self, o):
        return isinstance(o, Ite) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __repr__(self):
        return 'ite(%r,%r,%r)' % (self.c, self.a, self.b)


class Fn:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(('Fn', self.n))

    def __eq__(self, o):
        return isinstance(o, Fn) and self.n == o.n

    def __repr__(self):
        return 'fn:' + str(self.n)


def mk_ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return b_ite(c, a, b)
    if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)):
        a, b = P(a), P(b)
        d, i = a - b, ind(c)
        if len(d.t) * len(i.t) > 400:
            return Poly.atom(('ite', c, a, b))
        return b + d * i
    return Ite(c, a, b)


# ------------------------------------------------------------------------------------ substitution
def subst(v, m):
    """replace atoms (keys of m: atom -> Poly/value) everywhere inside v"""
    if not m:
        return v
    memo = {}
    return _sub(v, m, memo)


def _sub(v, m, memo):
    if isinstance(v, (int, str, Fraction, bool, Str, Fn, float)) or v is None:
        return v
    try:
        if v in memo:
            return memo[v]
    except TypeError:
        pass
    if isinstance(v, Poly):
        r = v
        for mono in v.t:
            if any(_needs(a, m, memo) for a, e in mono):
                break
        else:
            memo[v] = v
            return v
        r = ZERO_
        for mono, c in v.t.items():
            t = Poly.const(c)
            for a, e in mono:
                x = _sub_atom(a, m, memo)
                if e > 0:
                    for _ in range(e):
                        t = t * x
                else:
                    x = inv(x)
                    for _ in range(-e):
                        t = t * x
            r = r + t
    elif isinstance(v, B):
        r = _sub_b(v, m, memo)
    elif isinstance(v, Ptr):
        r = Ptr(_sub(v.loc, m, memo), v.t)
    elif isinstance(v, Ref):
        r = Ref(_sub(v.loc, m, memo), v.t)
    elif isinstance(v, Opq):
        r = Opq(*[_sub(x, m, memo) for x in v.k])
    elif isinstance(v, Ite):
        r = mk_ite(_sub(v.c, m, memo), _sub(v.a, m, memo), _sub(v.b, m, memo))
    elif isinstance(v, tuple):
        if v in m:
            return m[v]
        r = tuple(_sub(x, m, memo) for x in v)
    elif isinstance(v, frozenset):
        r = frozenset(_sub(x, m, memo) for x in v)
    else:
        r = v
    memo[v] = r
    return r


def _needs(a, m, memo):
    key = ('needs', a)
    if key in memo:
        return memo[key]
    r = a in m or any(_occurs(a, k) for k in m)
    memo[key] = r
    return r


_occ = {}


def _occurs(v, k):
    """does atom k occur inside v"""
    if v is None or isinstance(v, (int, str, Fraction, bool, Str, Fn, float)):
        return False
    if v == k:
        return True
    try:
        return k in atomset(v)
    except TypeError:
        return False


_as = {}
_EMPTY = frozenset()


def atomset(v):
    """all tuples (atoms and nested atoms) occurring in v"""
    if v is None or isinstance(v, (int, str, Fraction, bool, Str, Fn, float)):
        return _EMPTY
    r = _as.get(v)
    if r is not None:
        return r
    s = set()
    if isinstance(v, Poly):
        for mono in v.t:
            for a, e in mono:
                s |= atomset(a)
                s.add(a)
    elif isinstance(v, B):
        if v.v[0] in ('broke', 'returned', 'exists'):
            s.add(v.v)
        for x in v.v[1:]:
            s |= atomset(x)
    elif isinstance(v, (Ptr, Ref)):
        s |= atomset(v.loc)
    elif isinstance(v, Opq):
        s.add(v)
        for x in v.k:
            s |= atomset(x)
    elif isinstance(v, Ite):
        s |= atomset(v.c) | atomset(v.a) | atomset(v.b)
    elif isinstance(v, tuple):
        if v and isinstance(v[0], str):
            s.add(v)
        for x in v:
            s |= atomset(x)
    elif isinstance(v, frozenset):
        for x in v:
            s |= atomset(x)
    r = frozenset(s)
    _as[v] = r
    return r


def occurs(v, k):
    return k in atomset(v)


def _sub_atom(a, m, memo):
    if a in m:
        return P(m[a])
    if not _needs(a, m, memo):
        return Poly.atom(a)
    if type(a) is tuple:
        if a[0] == 'ind':
            return ind(_sub(a[1], m, memo))
        if a[0] == 'inv':
            return inv(_sub(a[1], m, memo))
        if a[0] == 'ite':
            return P(mk_ite(_sub(a[1], m, memo), _sub(a[2], m, memo), _sub(a[3], m, memo)))
        if a[0] == 'sqrt':
            return sqrt(_sub(a[1], m, memo))
        return Poly.atom(tuple(_sub(x, m, memo) for x in a))
    return P(_sub(a, m, memo))


def _sub_b(b, m, memo):
    k = b.v[0]
    if k in ('T', 'F'):
        return b
    if k == 'lt':
        return lt(_sub(b.v[1], m, memo), len(b.v) > 2)
    if k == 'le':
        return le(_sub(b.v[1], m, memo))
    if k == 'eq':
        return eq(_sub(b.v[1], m, memo))
    if k == 'not':
        return neg(_sub(b.v[1], m, memo))
    if k == 'and':
        return conj([_sub(x, m, memo) for x in b.v[1]])
    if k == 'or':
        return disj([_sub(x, m, memo) for x in b.v[1]])
    if k == 'test':
        x = _sub(b.v[1], m, memo)
        return x if isinstance(x, B) else B(('test', x) + b.v[2:])
    if k == 'same':
        xs = [_sub(x, m, memo) for x in b.v[1]]
        return same(xs[0], xs[-1]) if len(xs) > 1 else TRUE
    return B(tuple(_sub(x, m, memo) if not isinstance(x, str) else x for x in b.v))


# ------------------------------------------------------------------------------------ rational normal form
def collect(p, kind):
    return [a for a in p.atoms() if type(a) is tuple and a[0] == kind]


def clear_denominators(p, _depth=0):
    """multiply p by the denominators occurring in it; p == 0 iff result == 0 (denominators assumed nonzero)"""
    for _ in range(60):
        invs = collect(p, 'inv')
        negs = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
        if negs:
            mul = Poly({tuple(sorted(((a, e) for a, e in negs.items()), key=lambda x: akey(x[0]))): Fraction(1)})
            p = p * mul
            continue
        if not invs:
            return p
        # treat the outermost inv first: one that is not nested in others does not matter, process one by one
        a = invs[0]
        q = a[1]
        mx = max(dict(m).get(a, 0) for m in p.t)
        r = ZERO_
        qp = [ONE_]
        for _i in range(mx):
            qp.append(qp[-1] * q)
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            base = Poly({tuple(sorted(d.items(), key=lambda x: akey(x[0]))): c})
            r = r + base * qp[mx - e]
        p = r
    return p


def r_zero(p):
    """is p identically zero as a rational function (after clearing denominators, sqrt and trig reduction)"""
    p = P(p)
    if p.is_zero():
        return True
    p = clear_denominators(p)
    p = reduce_trig(p)
    return p.is_zero()


def r_eq(a, b):
    a, b = P(a), P(b)
    return a == b or r_zero(a - b)


def reduce_trig(p):
    """sin(x)^2 -> 1 - cos(x)^2"""
    for _ in range(40):
        hit = None
        for m in p.t:
            for a, e in m:
                if type(a) is tuple and a[0] == 'app' and a[1] == 'sin' and e > 1:
                    hit = a
        if hit is None:
            return p
        r = ZERO_
        c2 = Poly.const(1) - Poly.atom(('app', 'cos', hit[2])) * Poly.atom(('app', 'cos', hit[2]))
        for m, c in p.t.items():
            d = dict(m)
            e = d.get(hit, 0)
            if e > 1:
                d[hit] = e - 2
                if not d[hit]:
                    del d[hit]
                r = r + Poly({tuple(sorted(d.items(), key=lambda x: akey(x[0]))): c}) * c2
            else:
                r = r + Poly({m: c})
        p = r
    return p


def diff(p, a):
    """partial derivative of a polynomial term wrt atom a (a must not be nested inside other atoms, except
    inside inv/sqrt/pow atoms which are handled by the chain rule)"""
    r = ZERO_
    for m, c in p.t.items():
        for i, (x, e) in enumerate(m):
            dx = atom_diff(x, a)
            if dx is None:
                continue
            rest = list(m[:i]) + list(m[i + 1:])
            if e != 1:
                rest.append((x, e - 1))
            rest = tuple(sorted(rest, key=lambda z: akey(z[0])))
            r = r + Poly({rest: c * e}) * dx
    return r


def atom_diff(x, a):
    if x == a:
        return ONE_
    if type(x) is tuple:
        if x[0] == 'inv' and occurs(x[1], a):
            i = Poly.atom(x)
            return -(i * i) * diff(x[1], a)
        if x[0] == 'sqrt' and occurs(x[1], a):
            return diff(x[1], a) * inv(Poly.atom(x)).scale(Fraction(1, 2))
        if x[0] == 'pow' and occurs(x[1], a):
            return mkpow(x[1], x[2] - 1) * x[2] * diff(x[1], a)
        if x[0] == 'app' and x[1] == 'log' and occurs(x[2], a):
            return diff(x[2], a) * inv(x[2])
    return None


def mkpow(b, e):
    """b**e, normal form: integer exponents expanded, rational exponents over a single atom base"""
    if e.is_const():
        c = e.cval()
        if c.denominator == 1 and 0 <= c <= 12:
            return b ** int(c)
        if c.denominator == 1 and -12 <= c < 0:
            return inv(b ** int(-c))
        if c.denominator == 2:
            s = sqrt(b)
            n = c.numerator
            r = s ** abs(n)
            return r if n > 0 else inv(r)
        # x^(p/q) -> root(q,x)^p
        n, d = c.numerator, c.denominator
        if b.is_const() and b.cval() == 1:
            return ONE_
        base = Poly.atom(('pow', b, Poly.const(Fraction(1, d))))
        r = base ** abs(n)
        return reduce_root(r if n > 0 else inv(r))
    return Poly.atom(('pow', b, e))


def reduce_root(p):
    """pow(b,1/d)^k with |k| >= d -> b * ..."""
    for _ in range(20):
        hit = None
        for m in p.t:
            for a, e in m:
                if type(a) is tuple and a[0] == 'pow' and a[2].is_const() and a[2].cval().numerator == 1 and abs(e) >= a[2].cval().denominator:
                    hit = a
        if hit is None:
            return p
        d = hit[2].cval().denominator
        r = ZERO_
        for m, c in p.t.items():
            dd = dict(m)
            e = dd.get(hit, 0)
            f = ONE_
            if abs(e) >= d:
                s = 1 if e > 0 else -1
                f = hit[1] if s > 0 else inv(hit[1])
                e -= s * d
                if e:
                    dd[hit] = e
                else:
                    del dd[hit]
            r = r + Poly({tuple(sorted(dd.items(), key=lambda x: akey(x[0]))): c}) * f
        p = r
    return p


# ------------------------------------------------------------------------------------ naming of large values
_vn = {}


def name_value(p):
    """give a large value a name (value number): an atom standing for its definition"""
    a = _vn.get(p)
    if a is None:
        a = _vn[p] = ('vn', p)
    return Poly.atom(a)


def has_tag(a):
    """does the atom name a location whose content was lost in an unknown call"""
    if type(a) is tuple:
        return len(a) == 2 and a[0] == 'tag' or any(has_tag(x) for x in a)
    return False


class Eval:
    """evaluation of terms at one random point in multi-precision arithmetic (identity testing of terms)"""

    def __init__(self, seed=1, given=None, ranges=None, wild=False):
        import random
        self.wild = wild
        import sys
        if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
            sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import mpmath
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
        self.mp.dps = 60
        self.rng = random.Random(seed)
        self.memo = {}
        self.vars = {}
        self.given = given or {}
        self.ranges = ranges
        self.opaque = set()

    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            if a in self.given:
                v = self.given[a]
                v = self.mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else self.mp.mpf(v)
            elif self.wild:      # any sign and magnitude, sometimes zero
                q = self.rng.random()
                v = self.mp.mpf(0) if q < 0.08 else self.mp.mpf(10) ** self.mp.mpf(str(round(self.rng.uniform(-4, 4), 6))) * (-1 if q < 0.5 else 1)
            else:
                lo, hi = self.ranges(a) if self.ranges and self.ranges(a) else (1, 2)
                v = self.mp.mpf(lo) + (self.mp.mpf(hi) - lo) * self.mp.mpf(self.rng.randrange(1, 10 ** 15)) / 10 ** 15
            self.vars[a] = v
        return v

    def atom(self, a):
        v = self.memo.get(a)
        if v is not None:
            return v
        k = a[0] if type(a) is tuple and a else None
        if k == 'vn':
            v = self(a[1])
        elif k == 'inv':
            x = self(a[1])
            v = self.mp.mpf(1) / x if x != 0 else self.mp.nan
        elif k == 'sqrt':
            v = self.mp.sqrt(self(a[1]))
        elif k == 'pow':
            v = self.mp.power(self(a[1]), self(a[2]))
        elif k == 'ind':
            v = self.mp.mpf(1 if self.b(a[1]) else 0)
        elif k == 'ite':
            v = self(a[2]) if self.b(a[1]) else self(a[3])
        elif k == 'app' and len(a) == 3 and hasattr(self.mp, {'log': 'log', 'fabs': 'fabs', 'abs': 'fabs'}.get(str(a[1]), str(a[1]))):
            v = getattr(self.mp, {'abs': 'fabs'}.get(str(a[1]), str(a[1])))(self(a[2]))
        else:
            if k not in ('x', 'U', 'Ue', 'prm', 'nd', 'sym', 'init', 'c', 'eqN', 'eqE'):
                self.opaque.add(a)
            elif k == 'init' and has_tag(a):
                self.opaque.add(a)
            v = self.var(a)
        self.memo[a] = v
        return v

    def b(self, b):
        k = b.v[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'lt':
            return self(b.v[1]) < 0
        if k == 'le':
            return self(b.v[1]) <= 0
        if k == 'eq':
            return abs(self(b.v[1])) < self.mp.mpf(10) ** -40
        if k == 'not':
            return not self.b(b.v[1])
        if k == 'and':
            return all(self.b(x) for x in b.v[1])
        if k == 'or':
            return any(self.b(x) for x in b.v[1])
        self.opaque.add(b)
        return False

    def __call__(self, p):
        if not isinstance(p, Poly):
            p = P(p)
        v = self.memo.get(p)
        if v is not None:
            return v
        r = self.mp.mpf(0)
        for m, c in p.t.items():
            t = self.mp.mpf(c.numerator) / c.denominator
            for a, e in m:
                x = self.atom(a)
                t *= x ** e if e > 0 or x != 0 else self.mp.nan
            r += t
        self.memo[p] = r
        return r

    def close(self, x, y, tol=30, scale=None):
        d = abs(x - y)
        return d <= self.mp.mpf(10) ** -tol * (1 + abs(x) + abs(y) + (scale or 0))


# ------------------------------------------------------------------------------------ printing
def show_any(x):
    if isinstance(x, tuple):
        return '(' + ','.join(show_any(y) for y in x) + ')'
    return x if isinstance(x, str) else repr(x)


def show_obj(o):
    if isinstance(o, tuple):
        if o[0] == '*':
            return '*' + show_loc(o[1])
        if o[0] == 'L':
            return str(o[-1])
        if o[0] == 'G':
            return str(o[1]).split('::')[-1]
        if o[0] == 'H':
            return 'new@' + str(o[1])
        return show_any(o)
    return str(o)


def show_loc(l):
    if l is None:
        return 'null'
    if isinstance(l, tuple) and len(l) == 2 and isinstance(l[1], tuple):
        s = show_obj(l[0])
        for e in l[1]:
            s += '[%s]' % show(e[1]) if isinstance(e, tuple) and e[0] == 'i' else '.' + str(e)
        return s
    return show_any(l)


def show_atom(a):
    if type(a) is tuple and a:
        if a[0] == 'init':
            return show_loc(a[1])
        if a[0] == 'sym':
            return '.'.join(str(x) for x in a[1:])
        if a[0] == 'k':
            return 'k%s' % (a[1],)
        if a[0] == 'ind':
            return '[%s]' % show_b(a[1])
        if a[0] == 'inv':
            return '1/(%s)' % show(a[1])
        if a[0] == 'vn':
            return 'v%d' % akey(a)
        if a[0] == 'sum':
            return 'SUM[%s<%s](%s)' % (show_atom(a[1]), show(a[2]) if a[2] is not None else '?', show(a[3]))
        if a[0] == 'val':
            return repr(a[1])
        return a[0] + '(' + ','.join(show_loc(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else show_any(x) for x in a[1:]) + ')'
    return repr(a)


def show(p):
    if p is None:
        return 'None'
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: str([(akey(a), e) for a, e in x[0]])):
        s = '*'.join(show_atom(a) + ('^%d' % e if e != 1 else '') for a, e in m)
        if not s:
            s = str(c)
        elif c != 1:
            s = ('-' if c == -1 else str(c) + '*') + s
        out.append(s)
        if len(out) > 40:
            out.append('...')
            break
    return ' + '.join(out)


def show_b(b):
    if not isinstance(b, B):
        return repr(b)
    k = b.v[0]
    if k == 'T':
        return 'true'
    if k == 'F':
        return 'false'
    if k in ('lt', 'le', 'eq'):
        return '%s%s0' % (show(b.v[1]), {'lt': '<', 'le': '<=', 'eq': '=='}[k])
    if k == 'and':
        return '(' + ' && '.join(show_b(x) for x in b.v[1]) + ')'
    if k == 'or':
        return '(' + ' || '.join(show_b(x) for x in b.v[1]) + ')'
    if k == 'not':
        return '!' + show_b(b.v[1])
    if k == 'same':
        return ' == '.join(sorted(map(repr, b.v[1])))
    return show_any(b.v)


def conditions(terms, extra=()):
    """elementary conditions (comparisons) the value of the terms can depend on"""
    seen, out, todo = set(), set(), list(terms) + list(extra)
    while todo:
        v = todo.pop()
        if v is None or isinstance(v, (int, str, Fraction, bool, float)):
            continue
        try:
            if v in seen:
                continue
            seen.add(v)
        except TypeError:
            continue
        if isinstance(v, Poly):
            for mono in v.t:
                todo.extend(a for a, e in mono)
        elif isinstance(v, B):
            if v.v[0] in ('lt', 'le', 'eq'):
                if not (isinstance(v.v[1], Poly) and v.v[1].is_const()):
                    out.add(v)
            todo.extend(v.v[1:])
        elif isinstance(v, Ite):
            todo.extend((v.c, v.a, v.b))
        elif isinstance(v, (tuple, frozenset)):
            todo.extend(v)
    return out


def explore(conds, base, wild, n=120, limit=4):
    """evaluation points (made by wild(seed)) that exhibit truth values of the conditions the base points do not;
    returns (points, conditions of which one side was never seen)"""
    seen = {c: set() for c in conds}

    def look(E):
        new = False
        for c in conds:
            if len(seen[c]) == 2:
                continue
            try:
                t = E.b(c)
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            if t not in seen[c]:
                seen[c].add(t)
                new = True
        return new
    for E in base:
        look(E)
    out = []
    k = 0
    while k < n and len(out) < limit and any(len(s) < 2 for s in seen.values()):
        E = wild(1000 + k)
        k += 1
        if look(E):
            out.append(E)
    return out, [c for c, s in seen.items() if len(s) < 2]
