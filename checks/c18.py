"""Shape functions, Jacobians and quadrature tables of the isoparametric elements, as terms over symbolic local and node coordinates."""
import itertools
from formulas import *
import elmodels
from elements import Harness, concrete_elements

BASES = [('nla3d::ElementIsoParamLINE', 1), ('nla3d::ElementIsoParamQUAD', 2), ('nla3d::ElementIsoParamHEXAHEDRON', 3)]
# reference corners in the node order of the mesh formats (VTK line, quad, hexahedron)
CORN = {1: [(-1,), (1,)], 2: [(-1, -1), (1, -1), (1, 1), (-1, 1)],
        3: [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]}


def carrier(ck, base):
    """a concrete element class using this formulation"""
    for c in concrete_elements(ck.p):
        if base in ck.p.bases(c):
            return c
    return base


class Iso:
    def __init__(self, ck, base, dim, order=2, jac=False):
        self.ck, self.base, self.dim = ck, base, dim
        self.h = Harness(ck, carrier(ck, base), intorder=order, limit=2 if jac else 200)
        self.n = self.h.nn
        if jac:
            fn = ck.p.method(base, 'makeJacob', 0)
            if fn is None or not fn.get('body'):
                raise AnalysisBroken(base + '::makeJacob')
            self.mj = fn
            ck.run(self.h.I, fn, self.h.st, Ref(('el', ()), self.h.cls))

    def fn(self, m, types):
        for f in self.ck.p.fns.values():
            if f['n'] == self.base + '::' + m and f.get('body') and [strip_cv(q['t']) for q in f['params']] == types:
                return f
        raise AnalysisBroken('%s::%s(%s)' % (self.base, m, ','.join(types)))

    def call(self, m, types, args):
        fn = self.fn(m, types)
        self.last = fn
        _, r, _ = self.ck.run(self.h.I, fn, self.h.st, Ref(('el', ()), self.h.cls), args)
        return r

    def vec(self, r, n):
        return [self.h.I.num(self.h.I.read(self.h.st, (r.loc[0], r.loc[1] + ('data', ('i', Poly.const(i)))), 'double')) for i in range(n)]

    def mat(self, r, n, m):
        return self.matat(r.loc, n, m)

    def matat(self, loc, n, m):
        I, st = self.h.I, self.h.st
        return [[I.num(I.read(st, (loc[0], loc[1] + ('data', ('i', Poly.const(i)), 'data', ('i', Poly.const(j)))), 'double')) for j in range(m)] for i in range(n)]


def shapes(ck, base, dim):
    s = base.split('IsoParam')[-1]
    z = Iso(ck, base, dim)
    X = [('sym', 'rst'[k]) for k in range(dim)]
    R = [Poly.atom(x) for x in X]
    N = z.vec(z.call('formFunc', ['double'] * dim, R), z.n)
    w = ck.at(z.last)
    if z.n != len(CORN[dim]):
        raise AnalysisBroken('number of nodes of ' + s)
    und = any(opaque_atoms(v) for v in N)
    for i, c in enumerate(CORN[dim]):
        vals = [subst(v, {x: Poly.const(k) for x, k in zip(X, c)}) for v in N]
        ok = all(compare(v, ONE_ if i == j else ZERO_) for j, v in enumerate(vals))
        ck.ob('%s:N@%d' % (s, i), w, None if und else bool(ok), 'at reference corner %d (mesh node order) shape function %d is 1 and all others 0' % (i, i), '[%s]' % ', '.join(show(v) for v in vals))
    t = ZERO_
    for v in N:
        t = t + v
    ck.ob(s + ':sum', w, compare(t, ONE_), 'shape functions sum to one', show(t)[:200])
    # interpolate linear fields exactly
    for k in range(dim):
        t = ZERO_
        for v, c in zip(N, CORN[dim]):
            t = t + v.scale(Fraction(c[k]))
        ck.ob('%s:linear%d' % (s, k), w, compare(t, R[k]), 'shape functions reproduce the local coordinates', show(t)[:200])
    D = z.mat(z.call('formFuncDeriv', ['double'] * dim, R), z.n, dim)
    w2 = ck.at(z.last)
    for i in range(z.n):
        for k in range(dim):
            g = diff(N[i], X[k])
            ck.ob('%s:dN%d/d%s' % (s, i, 'rst'[k]), w2, None if opaque_atoms(N[i]) else compare(D[i][k], g), 'the derivative routine returns the derivative of the shape function', 'is %s, should be %s' % (show(D[i][k])[:150], show(g)[:150]))


def rule(ck, base, dim, order):
    s = base.split('IsoParam')[-1]
    n = min(max(order, 1), 3)
    z = Iso(ck, base, dim, order, jac=True)
    I, st, h = z.h.I, z.h.st, z.h
    np_ = I.num(z.call('nOfIntPoints', [], []))
    key = '%s:order%d' % (s, order)
    if not np_.is_const():
        ck.ob(key + ':points', ck.at(z.last), None, 'number of points', show(np_)[:100])
        return
    cnt = int(np_.cval())
    ck.ob(key + ':points', ck.at(z.last), cnt == n ** dim, 'an order-n rule has n points per direction (orders outside 1..3 are brought into it)', str(cnt))
    pts, wts, dets = [], [], []
    for k in range(cnt):
        o = 'xi%d' % k
        z.call('np2rst', ['unsigned short', 'double *'], [Poly.const(k), Ptr((o, (('i', ZERO_),)), 'double *')])
        fnp = z.last
        pts.append([I.num(I.read(st, (o, (('i', Poly.const(j)),)), 'double')) for j in range(dim)])
        wts.append(I.num(z.call('intWeight', ['unsigned short'], [Poly.const(k)])))
        fw = z.last
        dets.append(I.num(I.read(st, ('el', ('det',) if dim == 1 else ('det', ('i', Poly.const(k)))), 'double')))
    E = Eval(1)
    xs = [[E(v) for v in p] for p in pts]
    ws = [E(w) / E(d) for w, d in zip(wts, dets)]
    # the weight is (a constant) times the Jacobian determinant
    F = Eval(2)
    if E.opaque or F.opaque:
        ck.ob(key + ':weights', ck.at(fw), None, 'weights interpreted', repr(list(E.opaque)[:2]))
        return
    ok = all(F.close(F(w) / F(d), x, 25) for w, d, x in zip(wts, dets, ws))
    ck.ob(key + ':weight*det', ck.at(fw), ok, 'the integration weight is a tabulated constant times the Jacobian determinant of that point')
    bad = None
    cntm = 0
    for ex in itertools.product(range(2 * n), repeat=dim):
        got = sum(w * prod(x[j] ** e for j, e in enumerate(ex)) for w, x in zip(ws, xs))
        want = prod(E.mp.mpf(0) if e % 2 else E.mp.mpf(2) / (e + 1) for e in ex)
        cntm += 1
        if not E.close(got, want, 14):
            bad = 'integral of %s is %s, should be %s' % ('*'.join('%s^%d' % ('rst'[j], e) for j, e in enumerate(ex)), E.mp.nstr(got, 12), E.mp.nstr(want, 12))
            break
    ck.ob(key + ':exact', ck.at(fw), bad is None, 'the rule integrates every monomial up to degree %d in each variable over the reference element (%d monomials)' % (2 * n - 1, cntm), bad or '')
    # points used for the shape functions are those of the rule
    for k in range(cnt):
        a = z.vec(z.call('formFunc', ['unsigned short'], [Poly.const(k)]), z.n)
        b = z.vec(z.call('formFunc', ['double'] * dim, pts[k]), z.n)
        r = [compare(x, y) for x, y in zip(a, b)]
        if r.count(True) != z.n:
            ck.ob('%s:formFunc(np=%d)' % (key, k), ck.at(z.last), None if None in r else False, 'shape functions by point number are those of the point')
            break
    else:
        ck.ob('%s:formFunc(np)' % key, ck.at(fnp), True, 'shape functions by point number are those of the point')
    v = I.num(z.call('volume', [], []))
    fv = z.last
    def wild(seed):
        E = Eval(seed, wild=True)
        elmodels.place(E, z.n, {1: 'line', 2: 'quad', 3: 'hex'}[dim], wild=True)
        return E
    agree(ck, key + ':volume', ck.at(fv), 'the volume is the sum of all integration weights', lambda E: [('volume', E(v), sum(E(w) for w in wts))], Eval, terms=[v] + wts, wild=wild)
    if dim == 1:
        agree(ck, key + ':det', ck.at(z.mj), 'the Jacobian of a line is half its length',
              lambda E: [('det', E(dets[0]), E.mp.sqrt(sum((E(Poly.atom(('x', 1, k))) - E(Poly.atom(('x', 0, k)))) ** 2 for k in range(3))) / 2)], Eval, terms=dets, wild=wild)
        return

    def jac(E):
        out = []
        for q in range(cnt):
            D = z.mat(z.call('formFuncDeriv', ['double'] * dim, pts[q]), z.n, dim)
            G = z.matat(('el', ('NiXj', ('i', Poly.const(q)))), z.n, dim)
            x = [[E(Poly.atom(('x', i, k))) for k in range(dim)] for i in range(z.n)]
            J = [[sum(E(D[i][a]) * x[i][b] for i in range(z.n)) for b in range(dim)] for a in range(dim)]
            d = det3(J) if dim == 3 else J[0][0] * J[1][1] - J[0][1] * J[1][0]
            out.append(('det at point %d' % q, E(dets[q]), d))
            g = [[E(G[i][k]) for k in range(dim)] for i in range(z.n)]
            for i in range(z.n):
                for a in range(dim):
                    out.append(('dN%d/dx chain rule at point %d' % (i, q), sum(J[a][b] * g[i][b] for b in range(dim)), E(D[i][a])))
        return out
    agree(ck, key + ':jacobian', ck.at(z.mj), 'the determinant is that of dx/dr at the point and the global derivatives satisfy the chain rule dN/dr = dx/dr dN/dx', jac, Eval, seeds=(1, 2), wild=wild,
          terms=dets + [t for q in range(cnt) for r in z.matat(('el', ('NiXj', ('i', Poly.const(q)))), z.n, dim) for t in r])


def prod(it):
    r = 1
    for x in it:
        r = r * x
    return r


def tri_exact(E, a, b, c):
    """integral of L1^a L2^b L3^c over a triangle of unit area"""
    f = E.mp.factorial
    return 2 * f(a) * f(b) * f(c) / f(a + b + c + 2)


def monomials(E, pts, ws, deg, digits):
    for a, b, c in itertools.product(range(deg + 1), repeat=3):
        if a + b + c <= deg:
            got = sum(w * p[0] ** a * p[1] ** b * p[2] ** c for w, p in zip(ws, pts))
            if not E.close(got, tri_exact(E, a, b, c), digits):
                return 'mean of L1^%d L2^%d L3^%d is %s, should be %s' % (a, b, c, E.mp.nstr(got, 9), E.mp.nstr(tri_exact(E, a, b, c), 9))
    return None


def triangle(ck):
    """rules of the interface element: the conical product rule it integrates with, and the tabulated triangle rules"""
    cls = 'nla3d::ElementINTER3'
    h = Harness(ck, cls, limit=2)
    I, st = h.I, h.st
    call = lambda m, *a: I.num(h.call(m, [Poly.const(x) for x in a]))
    h.call('makeJacob', [])
    fj = h.last
    det = h.read(('det',))
    n = call('nOfIntPoints')
    if not n.is_const():
        raise AnalysisBroken('points of the interface rule')
    n = int(n.cval())
    pts, ws = [], []
    for i in range(n):
        for j in range(n):
            ws.append(call('radoIntWeight', i, j))
            pts.append((call('radoIntL1', i), call('radoIntL2', i, j), call('radoIntL3', i, j)))
    w = ck.at(h.last)
    E = Eval(1, ranges=lambda a: (-3, 3) if a[0] == 'x' else None)
    x = [[E(Poly.atom(('x', i, k))) for k in range(3)] for i in range(3)]
    u = [x[1][k] - x[0][k] for k in range(3)]
    v = [x[2][k] - x[0][k] for k in range(3)]
    cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    area = E.mp.sqrt(sum(c * c for c in cr)) / 2
    d = E(det)
    if E.opaque:
        raise AnalysisBroken('interface Jacobian: ' + show_any(list(E.opaque)[0])[:100])
    ck.ob('WEDGE:det', ck.at(fj), E.close(d, 2 * area, 12), 'the Jacobian of the interface triangle is twice its area', '%s, area %s' % (E.mp.nstr(d, 9), E.mp.nstr(area, 9)))
    wv = [E(q) / area for q in ws]
    pv = [[E(q) for q in p] for p in pts]
    bad = monomials(E, pv, wv, 4, 7)
    ck.ob('WEDGE:rule', w, None if E.opaque else bad is None, 'the rule the interface element integrates with has weights summing to its area and integrates polynomials up to degree 4', bad or '')
    ok = all(E.close(sum(p), 1, 12) for p in pv)
    ck.ob('WEDGE:points', w, ok, 'area coordinates of every point sum to one')
    nps = next((u for u, g in ck.p.globals.items() if g['n'] == 'nla3d::_np_triangle'), None)
    if nps is None:
        return
    for o, deg in enumerate((1, 2, 3, 3, 5)):
        c = I.num(I.read(st, (('G', 'nla3d::_np_triangle', nps), (('i', Poly.const(o)),)), 'int'))
        if not c.is_const():
            raise AnalysisBroken('_np_triangle')
        I.write(st, (h.obj, ('i_int',)), Poly.const(o))
        pv, wv = [], []
        for k in range(int(c.cval())):
            wv.append(E(call('intWeight', k)) / d)
            pv.append([E(call(m, k)) for m in ('intL1', 'intL2', 'intL3')])
        t = sum(wv)
        if not (E.close(t, 1, 6) or E.close(t, E.mp.mpf(1) / 2, 6)):
            bad = 'weights sum to %s' % E.mp.nstr(t, 9)
        else:
            bad = monomials(E, pv, [q / t for q in wv], deg, 6)
        ck.ob('triangle table %d' % (o + 1), ck.at(h.last), None if E.opaque else bad is None,
              'the tabulated triangle rule integrates polynomials up to degree %d' % deg, bad or '')


def run(ck):
    for b, d in BASES:
        s = b.split('IsoParam')[-1]
        ck.part(s + ':shapes', lambda ck, b=b, d=d: shapes(ck, b, d))
        for o in (0, 1, 2, 3, 4):
            ck.part('%s:order%d' % (s, o), lambda ck, b=b, d=d, o=o: rule(ck, b, d, o))
    ck.part('triangle', triangle)
    ck.assumptions.append('tabulated decimal constants are compared to 14 digits')
