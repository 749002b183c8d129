"""Element equations: every contribution an element assembles against the derivative of the energy of its formulation."""
from elmodels import *


def params(E, *names):
    return [E.var(('prm', x)) for x in names]


# each model: (geometry, DoF names, has pressure, setup(E), functional(E, X, u, p) , linear?)
def m_truss(el, E, X, v):
    A, Ey = params(E, 'A', 'E')
    d = [X[1][k] - X[0][k] for k in range(3)]
    L = E.mp.sqrt(sum(x * x for x in d))
    el_ = sum((v[3 + k] - v[k]) * d[k] for k in range(3)) / L
    return Ey * A / L * el_ * el_ / 2


def split(v, n, dim):
    return [[v[i * dim + k] for k in range(dim)] for i in range(n)]


def m_tri(state):
    def f(el, E, X, v):
        Ey, nu = params(E, 'E', 'my')
        G, area = tri_grad(E, X)
        eps = strain(E, G, split(v, 3, 2))
        lam, mu = lame3(E, Ey, nu)
        if state == 'Stress':
            lam = 2 * lam * mu / (lam + 2 * mu)
        return area * ddot(eps, hooke(E, eps, lam, mu)) / 2
    return f


def m_tet(el, E, X, v):
    Ey, nu, al, T = params(E, 'E', 'my', 'alpha', 'T')
    G, vol = tet_grad(E, X)
    eps = strain(E, G, split(v, 4, 3))
    s = hooke(E, eps, *lame3(E, Ey, nu))
    e0 = [[al * T if i == j else E.mp.mpf(0) for j in range(3)] for i in range(3)]
    return vol * (ddot(eps, s) / 2 - ddot(e0, s))


def m_tet_th(el, E, X, v):
    k, = params(E, 'k')
    G, vol = tet_grad(E, X)
    g = [sum(v[i] * G[i][a] for i in range(4)) for a in range(3)]
    return vol * k * sum(x * x for x in g) / 2


def m_quadth(n):
    def f(el, E, X, v):
        k, q = params(E, 'k', 'volFlux')
        r = E.mp.mpf(0)
        for N, G, w in iso_points(E, X, 2, n):
            g = [sum(v[i] * G[i][a] for i in range(4)) for a in range(2)]
            r += w * (k * sum(x * x for x in g) / 2 - q * sum(v[i] * N[i] for i in range(4)))
        return r
    return f


def m_quadcap(n):
    def f(el, E, X, v):
        rho, c = params(E, 'rho', 'c')
        r = E.mp.mpf(0)
        for N, G, w in iso_points(E, X, 2, n):
            t = sum(v[i] * N[i] for i in range(4))
            r += w * rho * c * t * t / 2
        return r
    return f


def m_lineth(n):
    def f(el, E, X, v):
        q, h = params(E, 'flux', 'htc')
        e = [E.var(('prm', 'etemp', i)) for i in range(2)]
        if e[1] == 0:      # not given: equal to the first
            e[1] = e[0]
        r = E.mp.mpf(0)
        for N, G, w in iso_points(E, X, 1, n):
            t = sum(v[i] * N[i] for i in range(2))
            te = sum(e[i] * N[i] for i in range(2))
            r += w * (h * t * t / 2 - h * t * te - q * t)
        return r
    return f


def m_inter0(el, E, X, v):
    kn, ks = params(E, 'kn', 'ks')
    n = [E.var(('prm', 'n', k)) for k in range(3)]
    l2 = sum(x * x for x in n)
    d = [v[3 + k] - v[k] for k in range(3)]
    dn2 = sum(d[k] * n[k] for k in range(3)) ** 2 / l2
    return (kn * dn2 + ks * (sum(x * x for x in d) - dn2)) / 2


def m_inter3(el, E, X, v):
    """integral over the triangle of the jump energy, exactly (quadratic field)"""
    kn, ks = params(E, 'kn', 'ks')
    a = [X[1][k] - X[0][k] for k in range(3)]
    b = [X[2][k] - X[0][k] for k in range(3)]
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    l2 = sum(x * x for x in c)
    area = E.mp.sqrt(l2) / 2
    d = [[v[i * 3 + k] - v[(i + 3) * 3 + k] for k in range(3)] for i in range(3)]
    r = E.mp.mpf(0)
    for i in range(3):
        for j in range(3):
            w = area / (6 if i == j else 12)
            dn = sum(d[i][k] * c[k] for k in range(3)) * sum(d[j][k] * c[k] for k in range(3)) / l2
            r += w * (kn * dn + ks * (sum(d[i][k] * d[j][k] for k in range(3)) - dn))
    return r / 2


def m_up(dim, n):
    def f(el, E, X, v):
        if not hasattr(el, 'W'):
            el.W = Energy(el)
        K, = params(E, 'K')
        pts = E.__dict__.setdefault('pts', {})
        if n not in pts:
            pts[n] = iso_points(E, X, dim, n)
        nn = 2 ** dim
        u = split(v, nn, dim)
        p = v[nn * dim]
        r = E.mp.mpf(0)
        for N, G, w in pts[n]:
            W, J = el.W(E, cauchygreen(fgrad(E, G, u)))
            r += w * (W + p * (J - 1) - p * p / (2 * K))
        return r
    return f


def fields(p, cls):
    return {f['n']: f['t'] for f in p.all_fields(cls)}


XYZ = ['UX', 'UY', 'UZ']
# special directions a tangent construction can degenerate for
NORMALS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (0, -1, -1), (1, 1, 0), (1, 0, 1), (1, 1, 1), (0, 0, -2), (-1, 0, 0), (0, 1, -1)]
MODELS = {
    'ElementTRUSS3': [dict(geo='bar', dofs=XYZ, f=m_truss, req=['A', 'E'])],
    'ElementTRIANGLE4': [dict(geo='tri', dofs=XYZ[:2], f=m_tri(s), state=s, req=['E', 'my']) for s in ('Stress', 'Strain')],
    'ElementTETRA0': [dict(geo='tet', dofs=XYZ, f=m_tet, req=['E', 'my', 'alpha', 'T']),
                      dict(geo='tet', dofs=XYZ, f=m_tet, req=['E', 'my', 'alpha', 'T'], zero=['T']),
                      dict(geo='tet', dofs=XYZ, f=m_tet, req=['E', 'my', 'alpha', 'T'], zero=['alpha'])],
    'ElementTETRA1': [dict(geo='tet', dofs=['TEMP'], f=m_tet_th, req=['k'])],
    'ElementQUADTH': [dict(geo='quad', dofs=['TEMP'], f=m_quadth(n), order=n, req=['k', 'volFlux']) for n in (1, 2, 3)] +
                     [dict(geo='quad', dofs=['TEMP'], f=m_quadcap(n), order=n, m='buildC', mat='C', req=['rho', 'c']) for n in (1, 2, 3)] +
                     [dict(geo='quad', dofs=['TEMP'], f=m_quadth(2), order=2, req=['k', 'volFlux'], zero=['volFlux'])],
    'SurfaceLINETH': [dict(geo='line', dofs=['TEMP'], f=m_lineth(n), order=n, req=['flux', 'htc', 'etemp']) for n in (1, 2, 3)] +
                     [dict(geo='line', dofs=['TEMP'], f=m_lineth(2), order=2, zero=[z], req=['flux', 'htc', 'etemp']) for z in ('flux', 'htc', ('etemp', 1))],
    'ElementINTER0': [dict(geo='bar', dofs=XYZ, f=m_inter0, req=['kn', 'ks', 'n'], normal=q) for q in [None] + NORMALS],
    'ElementINTER3': [dict(geo='wedge', dofs=XYZ, f=m_inter3, req=['kn', 'ks'], tol=7)],
    'ElementPLANE41': [dict(geo='quad', dofs=XYZ[:2], p=True, f=m_up(2, n), order=n, nl=True, tol=12, req=[]) for n in (2, 1, 3)],
    'ElementSOLID81': [dict(geo='hex', dofs=XYZ, p=True, f=m_up(3, n), order=n, nl=True, tol=12, req=[]) for n in (2,)],
}


ZEROABLE = ('alpha', 'T', 'volFlux', 'flux', 'htc')


def point(el, md, seed, wild=False):
    E = Eval(seed)
    E.X = place(E, el.nn, md['geo'], wild)
    for f in fields(el.ck.p, el.cls):
        v = rnd(E, '0.5', '1.5') if f != 'my' else rnd(E, '0.05', '0.45')
        if wild and f != 'my':
            v = wide(E, -3, 4)
            if f in ZEROABLE:
                v = v * E.rng.choice([0, 1, 1, 1, -1, -1])
        E.vars.setdefault(('prm', f), v)
    for x in el.names:
        E.vars.setdefault(('prm', x), wide(E, -2, 3) if wild else rnd(E, '0.5', '1.5'))
    for k in range(3):
        E.vars[('prm', 'n', k)] = rnd(E, -1, 1) * (wide(E, -2, 2) if wild else 1)
    for k in range(2):
        E.vars[('prm', 'etemp', k)] = wide(E, -2, 4) * E.rng.choice([-1, 1]) if wild else rnd(E, 1, 2)
    for k, x in enumerate(md.get('normal') or ()):
        E.vars[('prm', 'n', k)] = E.mp.mpf(x)
    for z in md.get('zero', ()):
        E.vars[('prm',) + (z if isinstance(z, tuple) else (z,))] = E.mp.mpf(0)
    E.wildpt = wild
    return E


def values(el, md, E, tag=None):
    """current values of the element's DoFs, in the order of el.dofs"""
    v = []
    A = None
    if E.wildpt:      # a large deformation with positive volume change everywhere
        A = [[(wide(E, -0.7, 0.7) - 1 if a == b else rnd(E, '-0.2', '0.2') * E.rng.choice([0, 1])) for b in range(3)] for a in range(3)]
        L = max(abs(E.X[i][k] - E.X[0][k]) for i in range(el.nn) for k in range(3))
    for i in range(el.nn):
        for d in md['dofs']:
            a = el.u(i, d, tag)
            if A is None:
                x = rnd(E, '-0.15', '0.15')
            elif d not in XYZ:
                x = wide(E, -2, 4) * E.rng.choice([-1, 1])
            else:
                x = sum(A[XYZ.index(d)][b] * E.X[i][b] for b in range(3)) + L * rnd(E, '-0.01', '0.01')
            E.vars.setdefault(a, x)
            v.append(E.vars[a])
    if md.get('p'):
        E.vars.setdefault(el.p(tag), rnd(E, '-0.5', '0.5') if A is None else wide(E, -2, 3) * E.rng.choice([-1, 1]))
        v.append(E.vars[el.p(tag)])
    return v


def points(ck, key, el, md, seeds, terms, guards=(), tag=None):
    """evaluation points: the given seeds, and points that exhibit outcomes of conditions not seen otherwise"""
    def mk(s, wild=False):
        E = point(el, md, s, wild)
        values(el, md, E)
        if tag is not None:
            values(el, md, E, tag)
        return E
    base = [mk(s) for s in seeds]
    cs = conditions(terms, guards)
    more, never = explore(cs, base, lambda s: mk(s, True)) if cs else ([], [])
    for c in never:
        ck.notes.append('%s: only one outcome seen of %s' % (key, repr(c)[:150]))
    return base + more


def one(ck, cls, md):
    short = cls.split('::')[-1]
    key = ':'.join([short, md.get('m', 'buildK')] + ([md['state']] if md.get('state') else []) + (['order%d' % md['order']] if md.get('order') else []) + ['%s=0' % (z,) for z in md.get('zero', ())] + (['n=%s' % (md['normal'],)] if md.get('normal') else []))
    fl = fields(ck.p, cls)
    if any(r not in fl for r in md['req']):
        raise AnalysisBroken('%s: constants %s' % (short, [r for r in md['req'] if r not in fl]))
    ex = {}
    if md.get('state'):
        ex['state'] = Poly.const(enum_items(ck.p, 'PlaneState')[md['state']])
    el = El(ck, cls, intorder=md.get('order'), fields=ex)
    if md.get('nl'):
        el.h.call('update')
    out = el.assemble(md.get('m', 'buildK'))
    w = ck.at(el.asm)
    dofs = el.dofs(md['dofs'], md.get('p'))
    n = len(dofs)
    mat = md.get('mat', 'K')
    # what is touched at all
    bad = [k for k in 'KCMFR' if out[k] and k != mat and not (k == 'F' and mat == 'K')]
    stray = [k for k in out[mat] if not k <= set(dofs)] + [k for k in out['F'] if k not in dofs]
    if any(None in k for k in out[mat]) or None in out['F']:
        ck.ob(key + ':targets', w, None, 'equation of each contribution is known', '')
        return
    ck.ob(key + ':targets', w, not bad and not stray, 'the element contributes to matrix %s and to the load of its own DoFs only' % mat, repr((bad, stray))[:300])
    tol = md.get('tol', 12 if md.get('order') else 25)   # quadrature points are tabulated with double precision
    seeds = (1,) if md.get('nl') else (1, 2)
    res = {}
    und = None
    lst = [x for k in (mat, 'F') for l in out[k].values() for x in l]
    for E in points(ck, key, el, md, seeds, [v for _, v in lst], [g for gs, _ in lst for g in gs]):
        v0 = values(el, md, E) if md.get('nl') else [E.mp.mpf(0)] * n
        f = lambda v: md['f'](el, E, E.X, v)
        Kv = {}
        for k, l in out[mat].items():
            Kv[k] = total(E, l)
        Fv = {k: total(E, l) for k, l in out['F'].items()}
        if E.opaque:
            und = 'not interpreted: ' + ', '.join(show_any(x)[:60] for x in list(E.opaque)[:3])
            break
        z = E.mp.mpf(0)
        big = max([abs(x) for x in Kv.values()] + [z])
        bigF = max([abs(x) for x in Fv.values()] + [z])
        kk = lambda a, b: Kv.get(frozenset([dofs[a], dofs[b]]), z)

        def e_(*ix):
            v = list(v0)
            for i, h in ix:
                v[i] += h
            return v
        if md.get('nl'):
            h = E.mp.mpf(10) ** -11
            fd = [(f(e_((a, h))) - f(e_((a, -h)))) / (2 * h) for a in range(n)]
            # directional derivatives along random directions test all columns at once
            dirs = 2
            for r in range(dirs):
                d = [rnd(E, -1, 1) for _ in range(n)]
                up = [v0[i] + h * d[i] for i in range(n)]
                dn = [v0[i] - h * d[i] for i in range(n)]
                for a in range(n):
                    def at(base, s_):
                        q = list(base)
                        q[a] += s_
                        return f(q)
                    want = (at(up, h) - at(up, -h) - at(dn, h) + at(dn, -h)) / (4 * h * h)
                    got = sum(kk(a, b) * d[b] for b in range(n))
                    if not E.close(got, want, tol, big):
                        res.setdefault('matrix', 'row of %s: times a direction gives %s, should be %s' % (name(el, dofs[a]), E.mp.nstr(got, 12), E.mp.nstr(want, 12)))
            for a in range(n):
                got = Fv.get(dofs[a], z)
                if not E.close(got, -fd[a], tol, bigF):
                    res.setdefault('load', '%s receives %s, should be %s' % (name(el, dofs[a]), E.mp.nstr(got, 12), E.mp.nstr(-fd[a], 12)))
            continue
        f0 = f(v0)
        one_ = E.mp.mpf(1)
        fa = [f(e_((a, one_))) for a in range(n)]
        fm = [f(e_((a, -one_))) for a in range(n)]
        for a in range(n):
            for b in range(a, n):
                want = f(e_((a, one_), (b, one_))) - fa[a] - fa[b] + f0
                got = kk(a, b)
                if not E.close(got, want, tol, big):
                    res.setdefault('matrix', 'entry (%s, %s) is %s, should be %s' % (name(el, dofs[a]), name(el, dofs[b]), E.mp.nstr(got, 12), E.mp.nstr(want, 12)))
            got, want = Fv.get(dofs[a], z), (fm[a] - fa[a]) / 2
            if not E.close(got, want, tol, bigF):
                res.setdefault('load', '%s receives %s, should be %s' % (name(el, dofs[a]), E.mp.nstr(got, 12), E.mp.nstr(want, 12)))
    for what, rule in (('matrix', 'the assembled matrix is the second derivative of the energy of the formulation (so symmetric, blind to rigid translation, linear in the material constant)'),
                       ('load', 'the assembled load is minus the first derivative of the energy of the formulation')):
        if what == 'load' and mat != 'K':
            continue
        ck.ob(key + ':' + what, w, None if und else what not in res, rule, und or res.get(what, ''))


def name(el, k):
    d = {v: n for n, v in el.D.items()}
    return '%s of %s' % (d.get(k[2], show(k[2])), 'node %d' % k[1].single_atom()[1] if k[0] == 'eqN' else 'the element')


def run(ck):
    for cls in concrete_elements(ck.p):
        short = cls.split('::')[-1]
        if short not in MODELS:
            ck.notes.append('no reference formulation for ' + cls)
            continue
        for md in MODELS[short]:
            ck.part(short + ':' + md.get('m', 'buildK') + str(md.get('order', '')), lambda ck, cls=cls, md=md: one(ck, cls, md))
    ck.assumptions.append('real arithmetic; term identities tested at random points with 60 digits; non-degenerate geometry with positive orientation')
