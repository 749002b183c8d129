"""helpers for checks that compare closed formulas: call a routine on symbolic arrays and evaluate the resulting terms"""
from common import *


def free(ck, name, np):
    """the free function or method `name` with np parameters"""
    c = [f for f in ck.p.fns.values() if f['n'] == name and len(f['params']) == np and f.get('body')]
    if not c:
        raise AnalysisBroken(name)
    return c[0]


class Arrays:
    """one interpreter with named symbolic arrays: array 'C' has entries ('sym','C',i)"""

    def __init__(self, ck, limit=None):
        self.ck = ck
        self.I = ck.interp()
        self.I.keep_states = False
        if limit is not None:
            self.I.name_limit = limit
        self.st = St()

    def array(self, name, n, vals=None):
        out = []
        for i in range(n):
            v = vals[i] if vals is not None else Poly.atom(('sym', name, i))
            self.I.write(self.st, (name, (('i', Poly.const(i)),)), v)
            out.append(v)
        return out

    def ptr(self, name, t='double *'):
        return Ptr((name, (('i', ZERO_),)), t)

    def get(self, name, n):
        return [self.I.num(self.I.read(self.st, (name, (('i', Poly.const(i)),)), 'double')) for i in range(n)]

    def call(self, fn, args, this=None):
        _, r, _ = self.ck.run(self.I, fn, self.st, this, args)
        return r


def sym33(v):
    """six stored components -> 3x3"""
    return [[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]]


IJ = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv3(m):
    d = det3(m)
    c = lambda i, j: m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]
    return [[c(j, i) / d for j in range(3)] for i in range(3)]


def random_C(E, atoms, base=None):
    """symmetric positive definite tensor for the six component atoms"""
    r = lambda lo, hi: E.mp.mpf(lo) + (E.mp.mpf(hi) - lo) * E.rng.randrange(1, 10 ** 12) / 10 ** 12
    m = base or [r(1, 2), r(-0.4, 0.4), r(-0.4, 0.4), r(1, 2), r(-0.4, 0.4), r(1, 2)]
    for a, v in zip(atoms, m):
        E.vars[a.single_atom()] = v
    return m


def agree(ck, key, where, rule, pairs, mk, seeds=(1, 2, 3), tol=25, terms=(), wild=None):
    """pairs(E) -> [(label, got term value, expected value)] at evaluation point E made by mk(seed); where the terms depend on
    conditions, points made by wild(seed) are added that exhibit both outcomes"""
    pts = [mk(s) for s in seeds]
    cs = conditions(terms) if terms else ()
    never = ()
    if cs and wild:
        more, never = explore(cs, pts, wild)
        pts += more
    for E in pts:
        ps = pairs(E)
        if E.opaque:
            return ck.ob(key, where, None, rule, 'not interpreted: ' + ', '.join(show_any(x)[:60] for x in list(E.opaque)[:3]))
        for lab, g, w in ps:
            if not E.close(g, w, tol):
                return ck.ob(key, where, False, rule, '%s is %s, should be %s' % (lab, E.mp.nstr(g, 12), E.mp.nstr(w, 12)))
    for c in never:
        ck.notes.append('%s: only one outcome seen of %s' % (key, repr(c)[:150]))
    return ck.ob(key, where, True, rule)


def wild_C(E, atoms):
    """symmetric positive definite tensor with stretches far from one"""
    u = lambda lo, hi: E.mp.mpf(str(round(E.rng.uniform(lo, hi), 9)))
    F = [[(E.mp.mpf(10) ** u(-1, 1) if i == j else u(-1, 1) * E.rng.choice([0, 1])) for j in range(3)] for i in range(3)]
    C = [[sum(F[k][i] * F[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    m = [C[i][j] for i, j in IJ]
    for a, v in zip(atoms, m):
        E.vars[a.single_atom()] = v
    return m
