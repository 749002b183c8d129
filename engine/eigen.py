"""Model of the dense Eigen operations the library uses: matrices of constant size, every coefficient a term."""
from terms import *
from ai import *


def _dims(I, st, loc):
    if loc is None:
        return None
    r, c = st.get_raw(loc[0], loc[1] + ('$er',)), st.get_raw(loc[0], loc[1] + ('$ec',))
    if isinstance(r, Poly) and isinstance(c, Poly) and r.is_const() and c.is_const():
        return int(r.cval()), int(c.cval())
    return None


def _at(loc, r, c):
    return (loc[0], loc[1] + ('e', ('i', Poly.const(r)), ('i', Poly.const(c))))


def get(I, st, node):
    """matrix value of an expression as list of rows, or None"""
    v = I.val(st, node)
    loc = v.loc if isinstance(v, (Ref, Ptr)) else None
    return at(I, st, loc)


def at(I, st, loc):
    d = _dims(I, st, loc)
    if d is None:
        return None
    return [[I.num(I.read(st, _at(loc, r, c), 'double')) for c in range(d[1])] for r in range(d[0])]


def put(I, st, loc, m, t='Eigen::Matrix<double, -1, -1>'):
    o = st.objd(loc[0])
    o[loc[1] + ('$er',)] = Poly.const(len(m))
    o[loc[1] + ('$ec',)] = Poly.const(len(m[0]) if m else 0)
    for r, row in enumerate(m):
        for c, v in enumerate(row):
            I.write(st, _at(loc, r, c), v)


def forget(I, st, loc):
    o = st.objd(loc[0])
    o[loc[1] + ('$er',)] = Poly.atom(I.fresh('eigen'))


def tmp(I, st, e, m):
    loc = (I.fresh_obj('T', e), ())
    if m is None:
        forget(I, st, loc)
    else:
        put(I, st, loc, m)
    return Ref(loc, strip_cv(e['t']))


def mul(a, b):
    if a is None or b is None or len(a[0]) != len(b):
        return None
    out = []
    for r in a:
        row = []
        for j in range(len(b[0])):
            t = ZERO_
            for k, x in enumerate(r):
                if not x.is_zero():
                    t = t + x * b[k][j]
            row.append(t)
        out.append(row)
    return out


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    t = ZERO_
    for j in range(n):
        if m[0][j].is_zero():
            continue
        d = det([r[:j] + r[j + 1:] for r in m[1:]])
        t = t + m[0][j] * d if j % 2 == 0 else t - m[0][j] * d
    return t


def inverse(m):
    n = len(m)
    d = inv(det(m))
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            x = det(minor) if minor else ONE_
            row.append((x if (i + j) % 2 == 0 else -x) * d)
        out.append(row)
    return out


def is_scalar(node):
    return not strip_ref(node['t']).startswith(('Eigen', 'const Eigen'))


def ctor(I, st, e, loc):
    a = e['c']
    if a and not is_scalar(a[0]):
        m = get(I, st, a[0])
        if m is None:
            forget(I, st, loc)
        else:
            put(I, st, loc, m)
        return
    ds = []
    for x in a:
        v = I.num(I.val(st, x))
        if not v.is_const():
            forget(I, st, loc)
            return
        ds.append(int(v.cval()))
    if not ds:
        ds = [0, 0]
    if len(ds) == 1:
        ds = [ds[0], 1]
    I.clear_obj(st, loc[0]) if not loc[1] else None
    o = st.objd(loc[0])
    o[loc[1] + ('$er',)] = Poly.const(ds[0])
    o[loc[1] + ('$ec',)] = Poly.const(ds[1])


def recv(I, st, e):
    b = e['c'][0]
    if e.get('arrow'):
        return I.deref(st, I.val(st, b))
    v = I.val(st, b)
    return v.loc if isinstance(v, (Ref, Ptr)) else I.loc(st, b)


def set_zero(I, st, e):
    l = recv(I, st, e)
    d = _dims(I, st, l)
    if d:
        put(I, st, l, [[ZERO_] * d[1] for _ in range(d[0])])
    return Ref(l, strip_cv(strip_ref(e['t'])))


def zero(I, st, e):
    ds = [I.num(I.val(st, x)) for x in e['c']]
    if not all(d.is_const() for d in ds):
        return tmp(I, st, e, None)
    ds = [int(d.cval()) for d in ds]
    if len(ds) == 1:
        ds.append(1)
    return tmp(I, st, e, [[ZERO_] * ds[1] for _ in range(ds[0])])


def transpose(I, st, e):
    m = get(I, st, e['c'][0])
    return tmp(I, st, e, None if m is None else [list(x) for x in zip(*m)])


def determinant(I, st, e):
    m = get(I, st, e['c'][0])
    return det(m) if m is not None and len(m) <= 4 else Poly.atom(I.fresh('eigen'))


def inverse_(I, st, e):
    m = get(I, st, e['c'][0])
    return tmp(I, st, e, inverse(m) if m is not None and len(m) <= 4 else None)


def view(I, st, e):
    l = recv(I, st, e)
    t = e['t']
    mode = int(t.rstrip('>').rsplit(',', 1)[1])
    I.eigviews[l] = I.eigviews.get(l)
    o = (I.fresh_obj('T', e), ())
    st.objd(o[0])[('$tri',)] = Opq('tri', l, mode)
    return Ref(o, strip_cv(t))


def view_of(I, st, node):
    v = I.val(st, node)
    if isinstance(v, Ref):
        x = st.get_raw(v.loc[0], v.loc[1] + ('$tri',))
        if isinstance(x, Opq):
            return x.k[1], x.k[2]
    return None, None


def tri_assign(plus):
    def f(I, st, e):
        l, mode = view_of(I, st, e['c'][0])
        m = get(I, st, e['c'][1])
        if l is None:
            return NotImplemented
        d = _dims(I, st, l)
        if d is None or m is None:
            forget(I, st, l)
            return I.val(st, e['c'][0])
        for r in range(d[0]):
            for c in range(d[1]):
                if (mode & 2 and c >= r) or (mode & 1 and c <= r):
                    v = m[r][c]
                    if plus:
                        v = v + I.num(I.read(st, _at(l, r, c), 'double'))
                    I.write(st, _at(l, r, c), v)
        return ZERO_
    return f


def coeff(I, st, e):
    a = e['c']
    l, mode = view_of(I, st, a[0])
    if l is None:
        v = I.val(st, a[0])
        l = v.loc if isinstance(v, (Ref, Ptr)) else None
    ix = [I.num(I.val(st, x)) for x in a[1:]]
    if l is None or not all(x.is_const() for x in ix):
        return Poly.atom(I.fresh('eigen'))
    ix = [int(x.cval()) for x in ix]
    if len(ix) == 1:
        d = _dims(I, st, l)
        ix = [0, ix[0]] if d and d[0] == 1 and d[1] > 1 else [ix[0], 0]
    if mode is not None and len(ix) == 2 and ((mode & 2 and ix[0] > ix[1]) or (mode & 1 and ix[0] < ix[1])):
        ix = [ix[1], ix[0]]
    return RetLoc(_at(l, *ix))


def assign(I, st, e):
    v = I.val(st, e['c'][0])
    l = v.loc
    m = get(I, st, e['c'][1])
    if m is None:
        forget(I, st, l)
    else:
        put(I, st, l, m)
    return v


def op_mul(I, st, e):
    a, b = e['c']
    if is_scalar(a) or is_scalar(b):
        s, m = (a, b) if is_scalar(a) else (b, a)
        k = I.num(I.val(st, s))
        x = get(I, st, m)
        return tmp(I, st, e, None if x is None else [[k * v for v in r] for r in x])
    return tmp(I, st, e, mul(get(I, st, a), get(I, st, b)))


def op_div(I, st, e):
    k = inv(I.num(I.val(st, e['c'][1])))
    x = get(I, st, e['c'][0])
    return tmp(I, st, e, None if x is None else [[k * v for v in r] for r in x])


def zipm(sign):
    def f(I, st, e):
        a = get(I, st, e['c'][0])
        if len(e['c']) == 1:
            return tmp(I, st, e, None if a is None else [[v.scale(sign) for v in r] for r in a])
        b = get(I, st, e['c'][1])
        if a is None or b is None or len(a) != len(b) or len(a[0]) != len(b[0]):
            return tmp(I, st, e, None)
        return tmp(I, st, e, [[x + y.scale(sign) for x, y in zip(r, s)] for r, s in zip(a, b)])
    return f


def inplace(sign):
    def f(I, st, e):
        v = I.val(st, e['c'][0])
        a, b = at(I, st, v.loc), get(I, st, e['c'][1])
        if a is None or b is None or len(a) != len(b) or len(a[0]) != len(b[0]):
            forget(I, st, v.loc)
        else:
            put(I, st, v.loc, [[x + y.scale(sign) for x, y in zip(r, s)] for r, s in zip(a, b)])
        return v
    return f


def scale_in(div):
    def f(I, st, e):
        v = I.val(st, e['c'][0])
        k = I.num(I.val(st, e['c'][1]))
        if div:
            k = inv(k)
        a = at(I, st, v.loc)
        if a is None:
            forget(I, st, v.loc)
        else:
            put(I, st, v.loc, [[x * k for x in r] for r in a])
        return v
    return f


def comma(I, st, e):
    items = []
    n = e
    while n['k'] in ('cast', 'paren') and n.get('c'):
        n = n['c'][0]
    while n.get('op') == ',':
        items.append(n['c'][1])
        n = n['c'][0]
        while n['k'] in ('cast', 'paren', 'construct') and n.get('c'):
            n = n['c'][0]
    if n.get('op') != '<<':
        return NotImplemented
    items.append(n['c'][1])
    items.reverse()
    v = I.val(st, n['c'][0])
    l = v.loc
    d = _dims(I, st, l)
    row = col = 0
    blk = 1
    for x in items:
        if is_scalar(x):
            m = [[I.num(I.val(st, x))]]
        else:
            m = get(I, st, x)
        if m is None or d is None:
            forget(I, st, l)
            return Ref(l, strip_cv(strip_ref(e['t'])))
        if col == d[1]:
            row += blk
            col = 0
            blk = len(m)
        elif col == 0 and row == 0:
            blk = len(m)
        for i, r in enumerate(m):
            for j, y in enumerate(r):
                if row + i < d[0] and col + j < d[1]:
                    I.write(st, _at(l, row + i, col + j), y)
        col += len(m[0])
    return Ref(l, strip_cv(strip_ref(e['t'])))


def dim(which):
    def f(I, st, e):
        d = _dims(I, st, recv(I, st, e))
        return Poly.const(d[which]) if d else Poly.atom(I.fresh('eigen'))
    return f


def register(I):
    h = I.hooks
    I.eigviews = {}
    E = 'Eigen::'
    h[E + 'Matrix::Matrix'] = ctor
    h[E + 'Ref::Ref'] = ctor
    for b in ('DenseBase', 'MatrixBase', 'PlainObjectBase', 'Matrix'):
        h[E + b + '::setZero'] = set_zero
        h[E + b + '::transpose'] = transpose
        h[E + b + '::determinant'] = determinant
        h[E + b + '::inverse'] = inverse_
        h[E + b + '::triangularView'] = view
        h[E + b + '::selfadjointView'] = view
        h[E + b + '::operator*'] = op_mul
        h[E + b + '::operator/'] = op_div
        h[E + b + '::operator+'] = zipm(1)
        h[E + b + '::operator-'] = zipm(-1)
        h[E + b + '::operator+='] = inplace(1)
        h[E + b + '::operator-='] = inplace(-1)
        h[E + b + '::operator*='] = scale_in(False)
        h[E + b + '::operator/='] = scale_in(True)
        h[E + b + '::operator='] = assign
        h[E + b + '::operator<<'] = comma
        h[E + b + '::Zero'] = zero
    h[E + 'operator*'] = op_mul
    h[E + 'CommaInitializer::operator,'] = comma
    h[E + 'TriangularViewImpl::operator='] = tri_assign(False)
    h[E + 'TriangularViewImpl::operator+='] = tri_assign(True)
    h[E + 'TriangularBase::operator()'] = coeff
    h[E + 'DenseCoeffsBase::operator()'] = coeff
    for b in ('MapBase', 'PlainObjectBase', 'EigenBase', 'Matrix'):
        h[E + b + '::rows'] = dim(0)
        h[E + b + '::cols'] = dim(1)
