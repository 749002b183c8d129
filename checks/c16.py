"""Result queries: what each query adds to the caller's value, as a term in scale, previous value and element state."""
from elmodels import *
import c29

KINDS = [('getScalar', 'scalarQuery', 1, [()]), ('getVector', 'vectorQuery', 3, [('data', ('i', Poly.const(k))) for k in range(3)]),
         ('getTensor', 'tensorQuery', 6, [('data', ('i', Poly.const(k))) for k in range(6)])]


def u_of(el, md, E, dim):
    return [[E.var(el.u(i, d)) for d in XYZ[:dim]] for i in range(el.nn)]


XYZ = c29.XYZ


# ---- quantities; q(el, E, pt) -> components.  pt: (N, G, det) of the point, None for elements without points
def q_pressure(el, E, pt):
    return [E.var(el.p())]


def kin(dim):
    def f(el, E, pt):
        F = fgrad(E, pt[1], u_of(el, None, E, dim))
        return F, cauchygreen(F)
    return f


def q_wp(dim):
    def f(el, E, pt):
        F, C = kin(dim)(el, E, pt)
        J = E.mp.sqrt(det3(C))
        return [E.var(('prm', 'K')) / 2 * (J - 1) ** 2]
    return f


def q_ic(dim):
    def f(el, E, pt):
        F, C = kin(dim)(el, E, pt)
        t = C[0][0] + C[1][1] + C[2][2]
        t2 = sum(C[i][k] * C[k][i] for i in range(3) for k in range(3))
        return [t, (t * t - t2) / 2, E.mp.sqrt(det3(C))]
    return f


def q_c(dim):
    return lambda el, E, pt: six(kin(dim)(el, E, pt)[1])


def q_e(dim):
    return lambda el, E, pt: [(c - int(i == j)) / 2 for c, (i, j) in zip(six(kin(dim)(el, E, pt)[1]), IJ)]


def q_pk2(dim):
    return lambda el, E, pt: six(stress_up(E, el, kin(dim)(el, E, pt)[1], E.var(el.p())))


def q_cauchy(dim):
    def f(el, E, pt):
        F, C = kin(dim)(el, E, pt)
        return six(push(F, stress_up(E, el, C, E.var(el.p())), det3(F)))
    return f


def q_vol(dim):
    def f(el, E, pt):
        return [sum(w for N, G, w in iso_points(E, E.X, dim, el.order))]
    return f


def q_tetvol(el, E, pt):
    return [tet_grad(E, E.X)[1]]


def q_tetstrain(el, E, pt):
    return voigt(strain(E, tet_grad(E, E.X)[0], u_of(el, None, E, 3)), 2)


def q_tetstress(el, E, pt):
    return six(hooke(E, strain(E, tet_grad(E, E.X)[0], u_of(el, None, E, 3)), *lame3(E, E.var(('prm', 'E')), E.var(('prm', 'my')))))


def q_tstrain(el, E, pt):
    x = E.var(('prm', 'alpha')) * E.var(('prm', 'T'))
    return [x if i == j else E.mp.mpf(0) for i, j in IJ]


def q_gradt(sign, withk):
    def f(el, E, pt):
        G, vol = tet_grad(E, E.X)
        k = E.var(('prm', 'k')) if withk else 1
        return [sign * k * sum(E.var(el.u(i, 'TEMP')) * G[i][a] for i in range(4)) for a in range(3)]
    return f


def diag(v, E):
    return [v[0], E.mp.mpf(0), E.mp.mpf(0), v[1], E.mp.mpf(0), v[2]]


def q_jump0(el, E, pt):
    u = u_of(el, None, E, 3)
    return diag([u[1][k] - u[0][k] for k in range(3)], E)


def q_inter3(stress):
    def f(el, E, pt):
        u, X = u_of(el, None, E, 3), E.X
        a = [X[1][k] - X[0][k] for k in range(3)]
        b = [X[2][k] - X[0][k] for k in range(3)]
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        L = E.mp.sqrt(sum(x * x for x in c))
        d = [L / 6 * sum(u[i + 3][k] - u[i][k] for i in range(3)) for k in range(3)]
        if stress:
            n = [x / L for x in c]
            dn = sum(d[k] * n[k] for k in range(3))
            d = [E.var(('prm', 'ks')) * (d[k] - dn * n[k]) + E.var(('prm', 'kn')) * dn * n[k] for k in range(3)]
        return diag(d, E)
    return f


TABLE = {
    'ElementSOLID81': dict(geo='hex', dim=3, dofs=XYZ, p=True, q={('getScalar', 'SP'): q_pressure, ('getScalar', 'WU'): None, ('getScalar', 'WP'): q_wp(3), ('getScalar', 'VOL'): q_vol(3),
                           ('getVector', 'IC'): q_ic(3), ('getTensor', 'COUCHY'): q_cauchy(3), ('getTensor', 'PK2'): q_pk2(3), ('getTensor', 'C'): q_c(3), ('getTensor', 'E'): q_e(3)}),
    'ElementPLANE41': dict(geo='quad', dim=2, dofs=XYZ[:2], p=True, q={('getScalar', 'SP'): q_pressure, ('getVector', 'IC'): q_ic(2), ('getTensor', 'COUCHY'): q_cauchy(2),
                           ('getTensor', 'PK2'): q_pk2(2), ('getTensor', 'C'): q_c(2), ('getTensor', 'E'): q_e(2)}),
    'ElementTETRA0': dict(geo='tet', dofs=XYZ, q={('getScalar', 'VOL'): q_tetvol, ('getTensor', 'C'): q_tetstrain, ('getTensor', 'E'): q_tetstress, ('getTensor', 'TSTRAIN'): q_tstrain}),
    'ElementTETRA1': dict(geo='tet', dofs=['TEMP'], q={('getScalar', 'VOL'): q_tetvol, ('getVector', 'FLUX'): q_gradt(-1, True), ('getVector', 'GRADT'): q_gradt(1, False)}),
    'ElementINTER0': dict(geo='bar', dofs=XYZ, q={('getTensor', 'C'): q_jump0}),
    'ElementINTER3': dict(geo='wedge', dofs=XYZ, tol=7, q={('getTensor', 'C'): q_inter3(False), ('getTensor', 'E'): q_inter3(True)}),
}


def gp_mean(ck):
    for u, g in ck.p.globals.items():
        if g['n'].endswith('GP_MEAN'):
            I = ck.interp()
            v = I.num(I.read(St(), (('G', g['n'], u), ()), 'unsigned short'))
            if v.is_const():
                return int(v.cval())
    raise AnalysisBroken('GP_MEAN')


def truth(E, r):
    if isinstance(r, Poly):
        return E(r) != 0
    if isinstance(r, B):
        return E.b(r)
    raise AnalysisBroken('result of the query')


def queries(ck, cls):
    short = cls.split('::')[-1]
    t = TABLE.get(short)
    multi = t is not None and 'dim' in t
    order = 2 if multi else None
    el = El(ck, cls, intorder=order)
    el.order = order
    I, st = el.I, el.st
    el.h.call('buildK')
    el.h.call('update')
    mean = gp_mean(ck)
    pts = [0]
    xi = {}
    if multi:
        n = int(I.num(el.h.call('nOfIntPoints')).cval())
        pts = [0, n - 1]
        for k in range(n):
            fn = next((f for b in [cls] + ck.p.bases(cls) for f in [ck.p.method(b, 'np2rst', 2)] if f is not None and f.get('body')), None)
            if fn is None:
                raise AnalysisBroken('np2rst')
            ck.run(I, fn, st, Ref(('el', ()), cls), [Poly.const(k), Ptr(('xi%d' % k, (('i', ZERO_),)), 'double *')])
            xi[k] = [I.num(I.read(st, ('xi%d' % k, (('i', Poly.const(j)),)), 'double')) for j in range(t['dim'])]
    scale = Poly.atom(('sym', 'scale'))
    cnt = 0
    for meth, enum, nc, paths in KINDS:
        fn = ck.p.method(cls, meth, 4)
        if fn is None or not fn.get('body'):
            continue
        en = enum_items(ck.p, 'nla3d::' + enum)
        for qn, qv in sorted(en.items(), key=lambda x: x[1]):
            if qn == 'LAST':
                continue
            orc = t['q'].get((meth, qn), False) if t else False
            for gp in pts + [mean]:
                if orc is False and gp != pts[0] and gp != mean:
                    continue
                cnt += 1
                o = 'res%d' % cnt
                old = [Poly.atom(('sym', o, k)) for k in range(nc)]
                for pth, v in zip(paths, old):
                    I.write(st, (o, pth), v)
                r = el.h.call(meth, [Ptr((o, ()), fn['params'][0]['t']), Poly.const(qv), Poly.const(gp), scale])
                new = [I.num(I.read(st, (o, pth), 'double')) for pth in paths]
                key = '%s:%s(%s,%s)' % (short, meth, qn, 'mean' if gp == mean else gp)
                judge(ck, el, t, key, ck.at(fn), r, old, new, orc, gp, mean, xi)


def judge(ck, el, t, key, w, r, old, new, orc, gp, mean, xi):
    md = dict(geo=t['geo'] if t else {3: 'tri', 2: 'bar', 4: 'quad', 8: 'hex', 6: 'wedge'}[el.nn], dofs=t['dofs'] if t else [], p=(t or {}).get('p'))
    tol = (t or {}).get('tol', 12)
    und = []
    done = {}

    def rec(k, ok, rule, detail=''):
        if done.get(k, (True,))[0] is True:
            done[k] = (ok, rule, detail)
    guards = [r] if isinstance(r, B) else []
    terms = new + ([r] if isinstance(r, Poly) else [])
    for E1 in c29.points(ck, key, el, md, (1,), terms, guards):
        judge1(el, t, key, r, old, new, orc, gp, mean, xi, E1, tol, rec, und)
        if und:
            ck.ob(key, w, None, 'query interpreted', ', '.join(show_any(x)[:80] for x in und[:3]))
            return
    for k, (ok, rule, detail) in done.items():
        ck.ob(k, w, ok, rule, detail)


def judge1(el, t, key, r, old, new, orc, gp, mean, xi, E1, tol, rec, und):
    E1.var(('sym', 'scale'))
    for v in old:
        E1.var(v.single_atom())
    E2 = Eval()
    E2.vars = dict(E1.vars)
    E2.vars[('sym', 'scale')] = E1.mp.mpf(3) * E1.var(('sym', 'scale'))
    for v in old:                       # another previous value
        E2.vars[v.single_atom()] = E1.var(v.single_atom()) * -2 + 7
    ret = truth(E1, r)
    d1 = [E1(n) - E1(o) for n, o in zip(new, old)]
    d2 = [E2(n) - E2(o) for n, o in zip(new, old)]
    if E1.opaque:
        und.extend(E1.opaque)
        return
    ns = lambda x: E1.mp.nstr(x, 10)
    if orc is False and not ret:
        rec(key, all(n == o for n, o in zip(new, old)) or all(E1.close(a, 0, 30) for a in d1), 'a query that is not answered returns false and leaves the value untouched', repr([ns(a) for a in d1]))
        return
    if orc is not False and not ret:
        rec(key, False, 'the element answers this query', 'returns false')
        return
    s = E1.var(('sym', 'scale'))
    lin = next((k for k in range(len(d1)) if not E1.close(d1[k] * 3, d2[k], 25)), None)
    rec(key + ':scale', lin is None, 'what is added is proportional to scale and does not depend on the previous value', 'component %s: adds %s for scale s, %s for 3s' % (lin, ns(d1[lin or 0]), ns(d2[lin or 0])))
    if orc is False:
        if all(E1.close(a, 0, 30) for a in d1):
            rec(key + ':added', False, 'a query that returns true has added its result', 'nothing was added')
        return
    if orc is None:
        return
    if 'dim' not in t:
        want = orc(el, E1, None)
    elif gp == mean:
        P_ = iso_points(E1, E1.X, t['dim'], el.order)
        V = sum(x[2] for x in P_)
        vs = [orc(el, E1, x) for x in P_]
        want = [sum(x[2] / V * v[k] for x, v in zip(P_, vs)) for k in range(len(d1))]
    else:
        want = orc(el, E1, iso_at(E1, E1.X, t['dim'], [E1(z) for z in xi[gp]]))
    bad = next((k for k in range(len(d1)) if not E1.close(d1[k], s * want[k], tol, max(abs(x) for x in want) * s)), None)
    rec(key + ':value', bad is None, 'scale times the requested quantity is added' + (' (volume-weighted mean)' if gp == mean and 'dim' in t else ''),
          'component %s: %s, should be %s' % (bad, ns(d1[bad or 0] / s), ns(want[bad or 0])))


def run(ck):
    for cls in concrete_elements(ck.p):
        ck.part(cls.split('::')[-1], lambda ck, cls=cls: queries(ck, cls))
    ck.assumptions.append('real arithmetic; term identities tested at random points with 60 digits; the TETRA0 strain result has engineering shear components; WU: value not judged')
