"""Tensor helpers: the terms the helpers compute for a symbolic tensor satisfy the defining identities."""
from formulas import *

SM = 'nla3d::solidmech::'


def exact(ck, key, fn, got, want, rule):
    r = compare(P(got), P(want))
    ck.ob(key, ck.at(fn), r, rule, 'computes %s, should be %s' % (show(P(got))[:200], show(P(want))[:200]))


def jac(ck):
    fn = free(ck, SM + 'J_C', 1)
    A = Arrays(ck)
    C = A.array('C', 6)
    r = A.call(fn, [A.ptr('C')])
    exact(ck, 'J_C', fn, A.I.num(r), sqrt(det3(sym33(C))), 'J is the positive root of det C')
    keep(ck, 'J_C', fn, A, C)


def keep(ck, key, fn, A, C):
    for i, v in enumerate(A.get('C', 6)):
        if v != C[i]:
            ck.ob(key + ':input', ck.at(fn), compare(v, C[i]), 'the tensor passed in is not changed', show(v)[:100])
            return
    ck.ob(key + ':input', ck.at(fn), True, 'the tensor passed in is not changed')


def inverse(ck):
    fn = free(ck, SM + 'invC_C', 3)
    A = Arrays(ck)
    C = A.array('C', 6)
    A.array('V', 6)
    J = Poly.atom(('sym', 'J'))
    A.call(fn, [A.ptr('C'), J, A.ptr('V')])
    V = sym33(A.get('V', 6))
    M = sym33(C)
    d = det3(M)
    for i in range(3):
        for j in range(3):
            s = ZERO_
            for k in range(3):
                s = s + V[i][k] * M[k][j]
            exact(ck, 'invC_C[%d%d]' % (i, j), fn, s * J * J, d if i == j else ZERO_, 'J^2 * invC * C is det C times the identity')
    keep(ck, 'invC_C', fn, A, C)


def strain(ck):
    fn = free(ck, SM + 'E_C', 2)
    A = Arrays(ck)
    C = A.array('C', 6)
    e0 = A.array('E', 6)
    A.call(fn, [A.ptr('C'), A.ptr('E')])
    for n, (v, (i, j)) in enumerate(zip(A.get('E', 6), IJ)):
        w = e0[n] + (C[n] - (ONE_ if i == j else ZERO_)).scale(Fraction(1, 2))
        exact(ck, 'E_C[%d%d]' % (i, j), fn, v, w, 'adds (C - I)/2 to the caller\'s tensor')
    keep(ck, 'E_C', fn, A, C)


def invariants(ck):
    fn = free(ck, SM + 'IC_C', 2)
    A = Arrays(ck)
    C = A.array('C', 6)
    A.array('IC', 3)
    A.call(fn, [A.ptr('C'), A.ptr('IC')])
    M = sym33(C)
    t = M[0][0] + M[1][1] + M[2][2]
    t2 = ZERO_
    for i in range(3):
        for k in range(3):
            t2 = t2 + M[i][k] * M[k][i]
    want = [t, (t * t - t2).scale(Fraction(1, 2)), sqrt(det3(M))]
    for k, (g, w) in enumerate(zip(A.get('IC', 3), want)):
        exact(ck, 'IC_C[%d]' % k, fn, g, w, 'the invariants are tr C, (tr^2 C - tr C^2)/2 and J')
    keep(ck, 'IC_C', fn, A, C)


def const(ck, A, name, path):
    g = next((u for u, g in ck.p.globals.items() if g['n'] == name), None)
    if g is None:
        raise AnalysisBroken(name)
    n = 0
    for i in path:
        n = 3 * n + i
    return A.I.read(A.st, (('G', name, g), (('i', Poly.const(n)),)), 'double')


def tables(ck):
    A = Arrays(ck)
    lc = lambda i, j, k: (i - j) * (j - k) * (k - i) // 2
    bad = []
    n = 0
    for name, f in ((SM + 'LeviCivita', lambda i, j, k: lc(i, j, k)), (SM + 'I', lambda i, j: int(i == j))):
        ar = f.__code__.co_argcount
        try:
            for ix in __import__('itertools').product(range(3), repeat=ar):
                v = const(ck, A, name, ix)
                n += 1
                r = compare(P(v), Poly.const(f(*ix)))
                if r is not True:
                    bad.append((name, ix, show(P(v)), r))
        except AnalysisBroken as ex:
            ck.notes.append('table not found: %s' % ex)
    if n:
        ck.ob('tables', 'src/lib/solidmech.h', True if not bad else (False if any(b[3] is False for b in bad) else None),
              'the permutation symbol and unit tensor tables hold the mathematical values', repr(bad[:3]))


def run(ck):
    for k, f in (('J_C', jac), ('invC_C', inverse), ('E_C', strain), ('IC_C', invariants), ('tables', tables)):
        ck.part(k, f)
