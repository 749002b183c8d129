"""Hyperelastic materials: derivative routines against the energy term, stress and tangent terms against derivatives of the energy."""
import itertools
import re
from formulas import *

BASE = 'nla3d::Mat_Hyper_Isotrop_General'


def materials(ck):
    out = [c for c in ck.p.derived(BASE) if c != BASE and ck.p.method(c, 'W', 3) is not None and ck.p.method(c, 'W', 3).get('body')]
    if not out:
        raise AnalysisBroken('materials derived from ' + BASE)
    return sorted(out)


class Mat:
    """a material object built by its own constructor; its constants are the symbols ('prm', registered name)"""

    def __init__(self, ck, cls, limit=None):
        self.ck, self.cls = ck, cls
        A = self.A = Arrays(ck, limit)
        I, st = A.I, A.st
        I.dyn_types['mat'] = cls
        self.names = None

        def reg(I, st, e):
            args = [I.val(st, a) for a in e['c'][1:]]
            n = I.num(args[0])
            if n.is_const():
                self.names = [a.s if isinstance(a, Str) else None for a in args[1:]]
                self.n = int(n.cval())
            return ZERO_
        I.hooks['nla3d::Material::register_mat_const'] = reg
        I.default_ctor(st, ('mat', ()), cls)
        if self.names is None or self.n != len(self.names) or None in self.names:
            raise AnalysisBroken('constants registered by ' + cls)
        A.array('MC', self.n, [Poly.atom(('prm', x)) for x in self.names])
        I.write(st, ('mat', ('MC',)), A.ptr('MC'))
        I.write(st, ('mat', ('numC',)), Poly.const(self.n))

    def call(self, m, args):
        fn = self.ck.p.method(self.cls, m, len(args))
        if fn is None or not fn.get('body'):
            raise AnalysisBroken('%s::%s' % (self.cls, m))
        self.last = fn
        return self.A.call(fn, args, Ref(('mat', ()), self.cls))


I1, I2, I3 = [('sym', 'I%d' % k) for k in (1, 2, 3)]
INV = [Poly.atom(x) for x in (I1, I2, I3)]


def energy(ck, cls, short):
    m = Mat(ck, cls)
    ns = [x for x in m.names]
    ck.ob(short + ':names', ck.at(ck.p.method(cls, 'W', 3)), len(set(ns)) == len(ns), 'the registered constant names are distinct', repr(ns))
    W = m.A.I.num(m.call('W', INV))
    fW = m.last
    want = ZERO_
    known = True
    for x in ns:
        c = Poly.atom(('prm', x))
        k = re.match(r'C(\d)(\d)$', x)
        if k:
            t = c
            for _ in range(int(k.group(1))):
                t = t * (INV[0] - 3)
            for _ in range(int(k.group(2))):
                t = t * (INV[1] - 3)
            want = want + t
        elif x == 'G':
            want = want + c.scale(Fraction(1, 2)) * (INV[0] - 3)
        elif x != 'K':
            known = False
    if known:
        ck.ob(short + ':W', ck.at(fW), compare(W, want), 'the energy is the polynomial in (I1-3), (I2-3) its constant names state', 'W = %s, should be %s' % (show(W)[:300], show(want)[:300]))
    if 'K' in ns:
        k = m.A.I.num(m.call('getK', []))
        ck.ob(short + ':getK', ck.at(m.last), compare(k, Poly.atom(('prm', 'K'))), 'the bulk modulus is the constant named K', show(k)[:100])
    d = {'1': diff(W, I1), '2': diff(W, I2)}
    d2 = {'11': diff(d['1'], I1), '12': diff(d['1'], I2), '22': diff(d['2'], I2)}
    en = {}
    for e, it in ck.p.enums.items():
        if e.endswith('mat_func_deriv'):
            en = {x['n']: int(x['v']) for x in it['c']}
    need = ['AL_1', 'AL_2', 'AL_11', 'AL_12', 'AL_22']
    if any(x not in en for x in need):
        raise AnalysisBroken('mat_func_deriv')
    ck.ob(short + ':slots', ck.at(fW), len({en[x] for x in need}) == 5 and {en['AL_1'], en['AL_2']} == {0, 1} and max(en[x] for x in need) == 4, 'derivatives have distinct slots, first derivatives first', repr(en))
    for meth, which in (('W_first_derivatives', ('1', '2')), ('W_second_derivatives', ('1', '2', '11', '12', '22'))):
        q = Mat(ck, cls)
        old = q.A.array('al', 5)
        q.call(meth, INV + [q.A.ptr('al')])
        got = q.A.get('al', 5)
        for x in which:
            w = dict(d, **d2)[x]
            g = got[en['AL_' + x]]
            ck.ob('%s:%s:%s' % (short, meth, x), ck.at(q.last), compare(g, w), 'the derivative routine returns the derivative of the energy in its invariants', 'AL_%s = %s, should be %s' % (x, show(g)[:200], show(w)[:200]))
        if meth == 'W_first_derivatives':
            bad = [i for i in range(2, 5) if got[i] != old[i]]
            ck.ob('%s:%s:rest' % (short, meth), ck.at(q.last), False if bad else True, 'the first-derivative routine writes only the two first derivatives (callers pass two slots)', repr(bad))


COMPS = [(0, 1, 2, 3, 4, 5), (0, 3, 1), (5, 4, 2, 0)]


def stress(ck, cls, short, comps):
    tag = ''.join('XX XY XZ YY YZ ZZ'.split()[c].lower() + ',' for c in comps)[:-1]
    n = len(comps)
    W = None
    for meth in ('getS_UP', 'getDdDp_UP'):
        m = Mat(ck, cls, limit=6)
        A = m.A
        C = A.array('C', 6)
        cp = A.array('comps', n, [Poly.const(c) for c in comps])
        p = Poly.atom(('sym', 'p'))
        if W is None:
            W = A.I.num(m.call('W', INV))
        nd = n * (n + 1) // 2
        A.array('S', n + 1)
        A.array('D', nd + 1)
        cptr = A.ptr('comps', 'const nla3d::solidmech::tensorComponents *')
        if meth == 'getS_UP':
            m.call(meth, [Poly.const(n), cptr, A.ptr('C'), p, A.ptr('S')])
            S = A.get('S', n + 1)
            fS = m.last
            oS = A
        else:
            m.call(meth, [Poly.const(n), cptr, A.ptr('C'), p, A.ptr('D'), A.ptr('S')])
            Dp, Dd = A.get('S', n + 1), A.get('D', nd + 1)
            fD = m.last
        for i, c in enumerate(A.get('C', 6)):
            if c != C[i]:
                ck.ob('%s:%s:C' % (short, meth), ck.at(m.last), compare(c, C[i]), 'the tensor passed in is not changed', show(c)[:100])

    names = m.names

    def mk(seed):
        E = Eval(seed)
        E.c = random_C(E, C)
        return E

    def mkw(seed):
        E = Eval(seed, wild=True)
        E.c = wild_C(E, C)
        for x in names:
            E.vars[('prm', x)] = E.mp.mpf(10) ** E.mp.mpf(str(round(E.rng.uniform(-3, 3), 6)))
        return E

    def What(E, c):
        """energy of the isochoric part, as a function of six components"""
        M = sym33(c)
        t = M[0][0] + M[1][1] + M[2][2]
        t2 = sum(M[i][k] * M[k][i] for i in range(3) for k in range(3))
        J = E.mp.sqrt(det3(M))
        F = Eval()
        F.mp = E.mp
        F.memo = {}
        F.vars = dict(E.vars)
        for x in names:
            F.vars[('prm', x)] = E.var(('prm', x))
        F.vars[I1] = t * E.mp.power(J, E.mp.mpf(-2) / 3)
        F.vars[I2] = (t * t - t2) / 2 * E.mp.power(J, E.mp.mpf(-4) / 3)
        return F(W)

    def Sfun(E, c, ij):
        """2 dW/dC_ij (tensor derivative) + p J C^-1, by complex-free central difference at 60+ digits"""
        h = E.mp.mpf(10) ** -18
        f = E.mp.mpf(1 if IJ[ij][0] == IJ[ij][1] else 0.5)
        up, dn = list(c), list(c)
        up[ij] += h
        dn[ij] -= h
        M = sym33(c)
        return 2 * f * (What(E, up) - What(E, dn)) / (2 * h) + E.var(('sym', 'p')) * E.mp.sqrt(det3(M)) * inv3(M)[IJ[ij][0]][IJ[ij][1]]

    agree(ck, '%s:getS_UP(%s)' % (short, tag), ck.at(fS), 'the stress is twice the derivative of the isochoric energy plus p J C^-1, component by component',
          lambda E: [('S[%d]' % k, E(S[k]), Sfun(E, E.c, ij)) for k, ij in enumerate(comps)], mk, tol=20, seeds=(1, 2), terms=S, wild=mkw)
    agree(ck, '%s:getDp(%s)' % (short, tag), ck.at(fD), 'the pressure derivative of the stress is J C^-1',
          lambda E: [('Dp[%d]' % k, E(Dp[k]), E.mp.sqrt(det3(sym33(E.c))) * inv3(sym33(E.c))[IJ[ij][0]][IJ[ij][1]]) for k, ij in enumerate(comps)], mk, seeds=(1, 2), terms=Dp, wild=mkw)

    def tang(E):
        out = []
        k = 0
        h = E.mp.mpf(10) ** -16
        Sat = lambda ij, c: E2(E, c, ij)
        for a in range(n):
            for b in range(a, n):
                ij, kl = comps[a], comps[b]
                f = E.mp.mpf(1 if IJ[kl][0] == IJ[kl][1] else 0.5)
                up, dn = list(E.c), list(E.c)
                up[kl] += h
                dn[kl] -= h
                out.append(('Dd[%d][%d]' % (a, b), E(Dd[k]), f * (Sat(ij, up) - Sat(ij, dn)) / (2 * h)))
                k += 1
        return out

    def E2(E, c, ij):
        """the code's own stress term (just shown to be the derivative of the energy) at another tensor"""
        F = Eval()
        F.mp = E.mp
        F.vars = {('sym', 'p'): E.var(('sym', 'p'))}
        for x in names:
            F.vars[('prm', x)] = E.var(('prm', x))
        for a, v in zip(C, c):
            F.vars[a.single_atom()] = v
        if ij not in comps:
            raise AnalysisBroken('component')
        key = (tuple(c),)
        ca = E.__dict__.setdefault('cache', {})
        if key in ca:
            F = ca[key]
        else:
            ca[key] = F
        return F(S[comps.index(ij)])
    agree(ck, '%s:getDd(%s)' % (short, tag), ck.at(fD), 'the tangent is the derivative of the stress in C, upper triangle in component order', tang, mk, tol=18, seeds=(1, 2), terms=Dd, wild=mkw)
    tail = [A.get('S', n + 1)[n] == Poly.atom(('sym', 'S', n)), oS.get('S', n + 1)[n] == Poly.atom(('sym', 'S', n)), Dd[nd] == Poly.atom(('sym', 'D', nd))]
    ck.ob('%s:extent(%s)' % (short, tag), ck.at(fD), all(tail), 'nothing is written past the requested components', repr(tail))


def units(ck):
    A = Arrays(ck)
    bad = []
    for name, n, f in (('nla3d::Material::I', 6, lambda k: int(IJ[k][0] == IJ[k][1])),
                       (BASE + '::II', 36, lambda k: Fraction(0) if k // 6 != k % 6 else (Fraction(1) if IJ[k % 6][0] == IJ[k % 6][1] else Fraction(1, 2)))):
        g = next((u for u, g in ck.p.globals.items() if g['n'] == name), None)
        if g is None:
            ck.notes.append(name + ' not found')
            continue
        for k in range(n):
            v = A.I.num(A.I.read(A.st, (('G', name, g), (('i', Poly.const(k)),)), 'double'))
            r = compare(v, Poly.const(f(k)))
            if r is not True:
                bad.append((name, k, show(v), r))
    ck.ob('unit tensors', 'src/lib/materials', True if not bad else (False if any(b[3] is False for b in bad) else None),
          'the unit tensor constants hold the components of the second- and fourth-order symmetric unit tensors', repr(bad[:3]))


def run(ck):
    for c in materials(ck):
        s = c.split('::')[-1]
        ck.part(s + ':energy', lambda ck, c=c, s=s: energy(ck, c, s))
        for cc in COMPS:
            ck.part('%s:stress%s' % (s, cc), lambda ck, c=c, s=s, cc=cc: stress(ck, c, s, cc))
    ck.part('units', units)
    ck.assumptions.append('real arithmetic; term identities tested at random points with 60 digits')
