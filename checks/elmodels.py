"""Reference models of the element kinds: the energy (or weighted-residual functional) whose derivatives an element has to assemble,
and harness runs that give the element's own contributions and results as terms."""
import re
from elements import *
from formulas import sym33, IJ, det3, inv3
import storage

HEX = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
QUAD = [(-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0)]
MATCLS = ['nla3d::Mat_Comp_MooneyRivlin', 'nla3d::Mat_Comp_Biderman']


def material(ck, I, st):
    """a compressible hyperelastic material, built by its own constructor, constants symbolic; storage->getMaterial() yields it"""
    cls = next((c for c in MATCLS if c in ck.p.records), None)
    if cls is None:
        raise AnalysisBroken('material class')
    I.dyn_types['mat'] = cls
    got = {}

    def reg(I, st, e):
        args = [I.val(st, a) for a in e['c'][1:]]
        n = I.num(args[0])
        if n.is_const():
            got['names'] = [a.s if isinstance(a, Str) else None for a in args[1:]]
        return ZERO_
    I.hooks['nla3d::Material::register_mat_const'] = reg
    I.default_ctor(st, ('mat', ()), cls)
    names = got.get('names')
    if not names or None in names:
        raise AnalysisBroken('constants registered by ' + cls)
    for i, x in enumerate(names):
        I.write(st, ('MC', (('i', Poly.const(i)),)), Poly.atom(('prm', x)))
    I.write(st, ('mat', ('MC',)), Ptr(('MC', (('i', ZERO_),)), 'double *'))
    I.write(st, ('mat', ('numC',)), Poly.const(len(names)))
    I.hooks[FS + '::getMaterial'] = lambda I, st, e: Ptr(('mat', ()), 'nla3d::Material *')
    return cls, names


class El:
    """an element of class cls after pre(), with symbolic geometry, constants and solution"""

    def __init__(self, ck, cls, intorder=None, limit=2, fields=None):
        self.ck, self.cls, self.short = ck, cls, cls.split('::')[-1]
        self.tag = None
        h = self.h = Harness(ck, cls, intorder=intorder, limit=limit)
        I, st = h.I, h.st
        self.I, self.st, self.nn = I, st, h.nn
        for f in ck.p.all_fields(cls):
            m = re.search(r'Vec<(\d+)>$', f['t'])
            if m and f['n'] in ('n', 'etemp'):
                for k in range(int(m.group(1))):
                    I.write(st, ('el', (f['n'], 'data', ('i', Poly.const(k)))), Poly.atom(('prm', f['n'], k)))
        self.matcls, self.names = material(ck, I, st)

        # the solution the storage reports can be switched: the k-th solution is U with tag k
        def tagged(kind):
            def hk(I, st, e):
                n, d = I.num(I.val(st, e['c'][1])), I.num(I.val(st, e['c'][2]))
                I.event(st, 'read' + kind, [n, d], node=e)
                return Poly.atom((kind, n, d) if self.tag is None else (kind, n, d, self.tag))
            return hk
        I.hooks[FS + '::getNodeDofSolution'] = tagged('U')
        I.hooks[FS + '::getElementDofSolution'] = tagged('Ue')
        for f, v in (fields or {}).items():
            I.write(st, ('el', (f,)), v)
        h.call('pre')
        e = dof_enum(ck.p)
        self.D = {k: Poly.const(v) for k, v in e.items()}
        self.num = I.num(h.call('getElNum'))

    def u(self, i, d, tag=None):
        a = ('U', node(i), self.D[d])
        return a if tag is None else a + (tag,)

    def p(self, tag=None):
        a = ('Ue', self.num, self.D['HYDRO_PRESSURE'])
        return a if tag is None else a + (tag,)

    def assemble(self, m='buildK'):
        n = len(self.I.events)
        self.h.call(m)
        self.asm = self.h.last
        return self.contrib(self.I.events[n:])

    def contrib(self, evs):
        out = {k: {} for k in 'KCMFR'}
        for e in evs:
            if not e.name.startswith('add') or e.name[3:] not in out:
                continue
            if e.loops:
                raise AnalysisBroken('symbolic loop at line %s' % e.line)
            a = e.args
            if e.name in ('addF', 'addR'):
                k, v = (('eqN', a[0], a[1]), a[2]) if len(a) == 3 else (a[0].single_atom(), a[1])
            elif len(a) == 5:
                k, v = frozenset([('eqN', a[0], a[1]), ('eqN', a[2], a[3])]), a[4]
            else:
                k, v = frozenset([a[0].single_atom(), a[1].single_atom()]), a[2]
            out[e.name[3:]].setdefault(k, []).append(([g for g in e.guards if not storage.notnull_only([g])], v))
        return out

    def dofs(self, names, pressure=False):
        return [('eqN', node(i), self.D[d]) for i in range(self.nn) for d in names] + ([('eqE', self.num, self.D['HYDRO_PRESSURE'])] if pressure else [])

    def read(self, path, t='double'):
        return self.I.num(self.I.read(self.st, ('el', path), t))


def total(E, lst):
    r = E.mp.mpf(0)
    for gs, v in lst:
        if all(E.b(g) for g in gs):
            r += E(v)
    return r


def rnd(E, lo, hi):
    return E.mp.mpf(lo) + (E.mp.mpf(hi) - E.mp.mpf(lo)) * E.rng.randrange(1, 10 ** 15) / 10 ** 15


def wide(E, lo, hi):
    """log-uniform magnitude"""
    return E.mp.mpf(10) ** E.mp.mpf(str(round(E.rng.uniform(lo, hi), 6)))


def place(E, nn, kind, wild=False):
    """random non-degenerate, positively oriented node positions (wild: of any size, aspect ratio and position)"""
    ref = {'quad': QUAD, 'hex': HEX, 'tri': [(0, 0, 0), (2, 0, 0), (0, 2, 0)], 'tet': [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2)],
           'wedge': [(0, 0, 0), (2, 0, 0), (0, 2, 0)] * 2, 'line': [(0, 0, 0), (2, 1, 1)], 'bar': [(0, 0, 0), (2, 1, -1)]}[kind]
    X = []
    a = E.mp.mpf('0.35')
    sh = [rnd(E, -3, 3) for _ in range(3)]
    for i in range(nn):
        X.append([E.mp.mpf(ref[i][k]) + rnd(E, -a, a) + sh[k] for k in range(3)])
    if wild:
        sz = wide(E, -3, 3)
        asp = [wide(E, -1, 1) for _ in range(3)]
        off = [rnd(E, -1, 1) * wide(E, -2, 3) * E.rng.choice([0, 1]) for _ in range(3)]
        X = [[x[k] * sz * asp[k] + off[k] for k in range(3)] for x in X]
    if kind == 'wedge':      # both faces coincide
        for i in range(3):
            X[i + 3] = list(X[i])
    for i in range(nn):
        for k in range(3):
            E.vars[('x', i, k)] = X[i][k]
    return X


def gauss(E, n):
    """Gauss-Legendre points and weights, from the roots of the Legendre polynomial"""
    mp = E.mp
    if n == 1:
        return [(mp.mpf(0), mp.mpf(2))]
    if n == 2:
        r = 1 / mp.sqrt(3)
        return [(-r, mp.mpf(1)), (r, mp.mpf(1))]
    r = mp.sqrt(mp.mpf(3) / 5)
    return [(-r, mp.mpf(5) / 9), (mp.mpf(0), mp.mpf(8) / 9), (r, mp.mpf(5) / 9)]


def iso_at(E, X, dim, xi):
    """(N, grad N, det J) at local coordinates xi of the isoparametric line / quad / hexahedron"""
    mp = E.mp
    corner = (HEX if dim == 3 else QUAD if dim == 2 else [(-1,), (1,)])
    N, dN = [], []
    for c in corner:
        f = [(1 + xi[k] * c[k]) / 2 for k in range(dim)]
        t = mp.mpf(1)
        for x in f:
            t *= x
        N.append(t)
        d = []
        for k in range(dim):
            t = mp.mpf(c[k]) / 2
            for m in range(dim):
                if m != k:
                    t *= f[m]
            d.append(t)
        dN.append(d)
    if dim == 1:
        return N, None, mp.sqrt(sum((X[1][k] - X[0][k]) ** 2 for k in range(3))) / 2
    J = [[sum(dN[i][a] * X[i][b] for i in range(len(corner))) for b in range(dim)] for a in range(dim)]
    if dim == 2:
        det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
        inv = [[J[1][1] / det, -J[0][1] / det], [-J[1][0] / det, J[0][0] / det]]
    else:
        det = det3(J)
        inv = inv3(J)
    return N, [[sum(inv[b][a] * d[a] for a in range(dim)) for b in range(dim)] for d in dN], det


def iso_points(E, X, dim, n):
    """[(N, grad N, weight*det)] at the Gauss points"""
    import itertools
    g = gauss(E, n)
    out = []
    for idx in itertools.product(range(n), repeat=dim):
        w = E.mp.mpf(1)
        for i in idx:
            w *= g[i][1]
        N, G, det = iso_at(E, X, dim, [g[i][0] for i in idx])
        out.append((N, G, w * det))
    return out


def tet_grad(E, X):
    mp = E.mp
    J = [[X[i + 1][k] - X[0][k] for k in range(3)] for i in range(3)]
    d = det3(J)
    iv = inv3(J)
    G = [[iv[k][i] for k in range(3)] for i in range(3)]
    return [[-sum(G[i][k] for i in range(3)) for k in range(3)]] + G, d / 6


def tri_grad(E, X):
    J = [[X[i + 1][k] - X[0][k] for k in range(2)] for i in range(2)]
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    iv = [[J[1][1] / d, -J[0][1] / d], [-J[1][0] / d, J[0][0] / d]]
    G = [[iv[k][i] for k in range(2)] for i in range(2)]
    return [[-sum(G[i][k] for i in range(2)) for k in range(2)]] + G, d / 2


def strain(E, G, u):
    dim = len(G[0])
    H = [[sum(u[i][a] * G[i][b] for i in range(len(G))) for b in range(dim)] for a in range(dim)]
    return [[(H[a][b] + H[b][a]) / 2 for b in range(dim)] for a in range(dim)]


def lame3(E, Ey, nu):
    return Ey * nu / ((1 + nu) * (1 - 2 * nu)), Ey / (2 * (1 + nu))


def hooke(E, eps, lam, mu):
    n = len(eps)
    t = sum(eps[i][i] for i in range(n))
    return [[2 * mu * eps[i][j] + (lam * t if i == j else 0) for j in range(n)] for i in range(n)]


def ddot(a, b):
    return sum(a[i][j] * b[i][j] for i in range(len(a)) for j in range(len(a)))


def fgrad(E, G, u):
    """3x3 deformation gradient from gradients and displacements (plane: F33 = 1)"""
    dim = len(G[0])
    F = [[E.mp.mpf(int(a == b)) for b in range(3)] for a in range(3)]
    for a in range(dim):
        for b in range(dim):
            F[a][b] += sum(u[i][a] * G[i][b] for i in range(len(G)))
    return F


def cauchygreen(F):
    return [[sum(F[k][i] * F[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


class Energy:
    """energy of the isochoric part from the material's own W term (its derivatives are the subject of C19)"""

    def __init__(self, el):
        self.el = el
        self.inv = [('sym', 'I%d' % k) for k in (1, 2, 3)]
        fn = el.ck.p.method(el.matcls, 'W', 3)
        if fn is None or not fn.get('body'):
            raise AnalysisBroken('W')
        _, r, _ = el.ck.run(el.I, fn, el.st, Ref(('mat', ()), el.matcls), [Poly.atom(x) for x in self.inv])
        self.W = el.I.num(r)

    def __call__(self, E, C):
        mp = E.mp
        t = C[0][0] + C[1][1] + C[2][2]
        t2 = sum(C[i][k] * C[k][i] for i in range(3) for k in range(3))
        J = mp.sqrt(det3(C))
        F = Eval()
        F.mp = mp
        for x in self.el.names:
            F.vars[('prm', x)] = E.var(('prm', x))
        F.vars[self.inv[0]] = t * mp.power(J, mp.mpf(-2) / 3)
        F.vars[self.inv[1]] = (t * t - t2) / 2 * mp.power(J, mp.mpf(-4) / 3)
        F.vars[self.inv[2]] = mp.mpf(1)
        return F(self.W), J


def stress_up(E, el, C, p):
    """second Piola-Kirchhoff stress of the displacement-pressure formulation: 2 dW/dC + p J C^-1"""
    if not hasattr(el, 'W'):
        el.W = Energy(el)
    mp = E.mp
    h = mp.mpf(10) ** -18
    J = mp.sqrt(det3(C))
    iv = inv3(C)
    S = [[None] * 3 for _ in range(3)]
    for i, j in IJ:
        up, dn = [list(r) for r in C], [list(r) for r in C]
        for a, b in {(i, j), (j, i)}:
            up[a][b] += h
            dn[a][b] -= h
        d = (el.W(E, up)[0] - el.W(E, dn)[0]) / (2 * h)
        S[i][j] = S[j][i] = 2 * d * (1 if i == j else mp.mpf(1) / 2) + p * J * iv[i][j]
    return S


def push(F, S, J):
    return [[sum(F[i][a] * S[a][b] * F[j][b] for a in range(3) for b in range(3)) / J for j in range(3)] for i in range(3)]


def six(M):
    return [M[i][j] for i, j in IJ]


def voigt(M, shear=1):
    """components in the order of the dense symmetric 3x3 storage; shear factor for engineering strains"""
    return [M[i][j] * (1 if i == j else shear) for i, j in IJ]
