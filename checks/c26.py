"""Constraint equations: value-flow of every coefficient into the global matrix, and of the rigid-body coefficients from the rigid rotation."""
import itertools
from world import *
from storage import analyse, recv_el, size_of, exactly_once, real_guards, recv

FS = 'nla3d::FEStorage'
RB = 'nla3d::RigidBodyMpc'
UX, UY, UZ, RX, RY, RZ = range(6)


def is_path(v, want):
    return isinstance(v, Poly) and show(v).replace(' ', '') == want


def assembly(ck):
    r = analyse(ck, 'assembleGlobalEqMatrices', 0)
    terms = [e for e in r.ev if e.name == 'bm:addValue']
    rhs = [e for e in r.ev if e.name == 'vec:write' and e.args[0] == 'vecF']
    nm = size_of('mpcs')

    def place(e, extra):
        """(index of the constraint, index of the term) the event is about, from its loops; None when the loops are not full ones"""
        if len(e.loops) != 1 + extra or any(n is None for k, n in e.loops):
            return None
        ks = [Poly.atom(k) for k, n in e.loops]
        return ks
    ok, why = None, ''
    if not terms:
        ok, why = False, 'no coefficient is added'
    elif len(terms) > 1:
        why = '%d places' % len(terms)
    else:
        e = terms[0]
        ks = place(e, 1)
        why = 'loops %r, adds %s' % (e.loops, ', '.join(show_any(a)[:120] for a in e.args))
        if ks:
            mpc = ('*', ('this', ('mpcs', ('i', ks[0]))))
            at = lambda *f: Poly.atom(('init', (mpc, f)))
            it = ('i', ks[1])
            node, typ, coef = at('eq', it, 'node'), at('eq', it, 'node_dof'), at('eq', it, 'coef')
            I = r.I
            row = at('eqNum')
            dof = I.typed_atom(('dof', 'nodeDofs', node, typ), 'nla3d::Dof *')
            col = I.num(I.read(r.st, (I.deref(r.st, dof)[0], ('eqNumber',)), 'unsigned int'))
            got = [I.num(a) if not isinstance(a, str) else a for a in e.args[1:4]]
            full = e.loops[0][1] == nm and e.loops[1][1] == at('eq', '$size') and not real_guards(e)
            ok = e.args[0] == 'matK' and full and got[2] == coef and got[:2] in ([row, col], [col, row])
            if not ok and any(opaque_atoms(g) for g in got):
                ok = None
    ck.ob('assembly:terms', ck.evat(terms[0]) if terms else ck.at(r.fn), ok,
          'each coefficient of each constraint is added once, at the equation of the constraint and the equation of its DoF', why)
    ok, why = None, ''
    if not rhs:
        ok, why = False, 'the constant is not stored'
    elif len(rhs) == 1:
        e = rhs[0]
        ks = place(e, 0)
        why = 'loops %r, writes %s' % (e.loops, ', '.join(show_any(a)[:120] for a in e.args[1:3]))
        if ks:
            mpc = ('*', ('this', ('mpcs', ('i', ks[0]))))
            at = lambda f: Poly.atom(('init', (mpc, (f,))))
            old = e.args[3]
            val = r.I.num(e.args[2])
            good = val == at('b') or isinstance(old, Poly) and val - old == at('b')
            ok = e.loops[0][1] == nm and not real_guards(e) and r.I.num(e.args[1]) == at('eqNum') - 1 and good
            if not ok and opaque_atoms(val):
                ok = None
    ck.ob('assembly:constant', ck.evat(rhs[0]) if rhs else ck.at(r.fn), ok, 'the constant of each constraint is the right-hand side of its equation', why)
    sub = [e for e in r.ev if e.name in ('bm:addValue',) and e.args[0] != 'matK']
    ck.ob('assembly:only-stiffness', ck.evat(sub[0]) if sub else ck.at(r.fn), not sub, 'constraints enter the stiffness matrix only', '%d other' % len(sub))


def registered(ck):
    r = analyse(ck, 'initDofs', 0)
    pre = [e for e in r.ev if e.name == 'vcall:nla3d::MpcCollection::pre']
    ok, why = exactly_once(pre, lambda e: recv_el(e.args[0], 'mpcCollections'), size_of('mpcCollections'))
    ck.ob('collections:prepared', ck.evat(pre[0]) if pre else ck.at(r.fn), ok, 'every constraint collection is prepared once', why)


class Rigid:
    def __init__(self, ck, slaves, dofs, master=7, zero=False):
        self.ck, self.slaves, self.dofs, self.master = ck, slaves, dofs, master
        self.W = W = World(ck, limit=3000)
        I = W.I
        self.step = 0

        def sol(I, st, e):
            n, t = I.num(I.val(st, e['c'][1])), I.num(I.val(st, e['c'][2]))
            if not (n.is_const() and t.is_const()):
                return Poly.atom(('u', 'sol', n, t))
            if zero and int(n.cval()) == master and int(t.cval()) >= RX:
                return ZERO_
            return Poly.atom(('sym', 'u', int(n.cval()), int(t.cval()), self.step))

        def pos(I, st, e):
            n = I.num(I.val(st, e['c'][1]))
            p = I.val(st, e['c'][2])
            d = I.val(st, e['c'][3]) if len(e['c']) > 3 else FALSE
            l = I.deref(st, p)
            cur = not (d == FALSE or isinstance(d, Poly) and d.is_zero())
            for k in range(3):
                v = Poly.atom(('sym', 'x', int(n.cval()), k))
                if cur:
                    v = v + Poly.atom(('sym', 'u', int(n.cval()), k, self.step))
                base = l[1][:-1] if l[1] and type(l[1][-1]) is tuple and l[1][-1][0] == 'i' else l[1]
                off = l[1][-1][1] if base != l[1] else ZERO_
                I.write(st, (l[0], base + (('i', off + k),)), v)
            return ZERO_
        self.added, self.mpcs = [], []

        def adddof(I, st, e):
            node = I.num(I.val(st, e['c'][1]))
            v = I.val(st, e['c'][2])
            k = 0
            if isinstance(v, Ref):
                sz = I.num(I.read(st, (v.loc[0], v.loc[1] + ('$size',)), 'unsigned int'))
                k = int(sz.cval()) if sz.is_const() else -1
            self.added.append((node, [I.num(I.read(st, (v.loc[0], v.loc[1] + (('i', Poly.const(i)),)), 'int')) for i in range(k)] if k >= 0 else None))
            return ZERO_

        def addmpc(I, st, e):
            self.mpcs.append(I.val(st, e['c'][1]))
            return ZERO_
        for n in ('getNodeDofSolution',):
            I.hooks[FS + '::' + n] = sol
        I.hooks[FS + '::getNodePosition'] = pos
        I.hooks[FS + '::addNodeDof'] = adddof
        I.hooks[FS + '::addMpc'] = addmpc
        self.r = self.s('rigidBody', Ptr(('@storage', ()), FS + ' *'), master)
        for n in slaves:
            self.s('rigidSlave', self.r, n)
        for d in dofs:
            self.s('rigidDof', self.r, d)
        self.s('rigidPre', self.r)

    def s(self, name, *a):
        return self.W.call(free(self.ck, 'verif_witness::' + name, len(a)), [c(x) for x in a])

    def n(self, name, *a):
        v = self.W.I.num(self.s(name, self.r, *a))
        if not v.is_const():
            raise AnalysisBroken('%s is %s' % (name, show(v)[:80]))
        return int(v.cval())

    def equations(self):
        """[( {(node, dof): coefficient}, constant )]"""
        out = []
        for k in range(self.n('rigidSize')):
            eq = {}
            for t in range(self.n('rigidTerms', k)):
                key = (self.n('rigidNode', k, t), self.n('rigidType', k, t))
                eq[key] = eq.get(key, ZERO_) + self.W.I.num(self.s('rigidCoef', self.r, k, t))
            out.append((eq, self.W.I.num(self.s('rigidConstant', self.r, k))))
        return out


def point(seed, R, norm, E=None):
    """solution and positions with a rotation vector of the given length"""
    E = E or Eval(seed, {}, {}, wild=False)
    u = lambda: E.mp.mpf(E.rng.randrange(-10 ** 9, 10 ** 9)) / 10 ** 9
    v = [u() for _ in range(3)]
    if E.rng.random() < .3:
        k = E.rng.randrange(3)
        v = [x if i == k else E.mp.mpf(0) for i, x in enumerate(v)]
    L = E.mp.sqrt(sum(x * x for x in v))
    E.th = [x / L * norm if L else x for x in v]
    E.w = [u() for _ in range(3)]
    E.us = {n: [u() for _ in range(3)] for n in R.slaves}
    E.x = {n: [u() * 3 for _ in range(3)] for n in R.slaves + [R.master]}
    for k in range(3):
        E.vars[('sym', 'u', R.master, k, R.step)] = E.w[k]
        E.vars[('sym', 'u', R.master, k + 3, R.step)] = E.th[k]
        for n in R.slaves:
            E.vars[('sym', 'u', n, k, R.step)] = E.us[n][k]
        for n in R.slaves + [R.master]:
            E.vars[('sym', 'x', n, k)] = E.x[n][k]
    return E


def rotation(mp, th):
    """rotation matrix of the rotation vector (Rodrigues) and its derivatives"""
    t = mp.sqrt(sum(x * x for x in th))
    K = [[mp.mpf(0), -th[2], th[1]], [th[2], mp.mpf(0), -th[0]], [-th[1], th[0], mp.mpf(0)]]
    a = mp.sin(t) / t if t else mp.mpf(1)
    b = (1 - mp.cos(t)) / t ** 2 if t else mp.mpf(1) / 2
    K2 = [[sum(K[i][m] * K[m][j] for m in range(3)) for j in range(3)] for i in range(3)]
    return [[(1 if i == j else 0) + a * K[i][j] + b * K2[i][j] for j in range(3)] for i in range(3)]


def gradient(mp, th):
    """dC[l][i][j] = d C_ij / d theta_l by the closed formula of the exponential map, checked against nothing in the code"""
    h = mp.mpf(10) ** -12
    out = []
    for l in range(3):
        p = [x + (h if k == l else 0) for k, x in enumerate(th)]
        m = [x - (h if k == l else 0) for k, x in enumerate(th)]
        P_, M_ = rotation(mp, p), rotation(mp, m)
        out.append([[(P_[i][j] - M_[i][j]) / (2 * h) for j in range(3)] for i in range(3)])
    return out


def rigid(ck, slaves, dofs, updates=1, zero=False):
    R = Rigid(ck, slaves, dofs, zero=zero)
    fpre, fup = ck.p.method(RB, 'pre', 0), ck.p.method(RB, 'update', 0)
    tag = 'rigid[%s;%s]%s' % (','.join(map(str, slaves)), ''.join('XYZ'[d] for d in dofs), ':again' if updates > 1 else '')
    for k in range(updates):
        R.step = k
        R.s('rigidUpdate', R.r)
    eqs = R.equations()
    seen = {}
    for eq, b in eqs:
        own = [q for q in eq if q[0] in slaves and q[0] != R.master]
        if len(own) != 1 or own[0] in seen:
            ck.ob(tag + ':one-equation', ck.at(fpre), False, 'one equation per slave node and DoF', 'terms at %r' % sorted(eq))
            return
        seen[own[0]] = (eq, b)
    want = {(n, d) for n in slaves for d in dofs}
    ck.ob(tag + ':one-equation', ck.at(fpre), set(seen) == want, 'one equation per slave node and DoF', repr(sorted(seen)))
    if set(seen) != want:
        return
    terms = [t for eq, b in eqs for t in list(eq.values()) + [b]]
    cols = sorted(set(q for eq, b in eqs for q in eq if q[0] == R.master))

    def coefs(E):
        C = rotation(E.mp, E.th)
        dC = gradient(E.mp, E.th)
        out = []
        for (n, d), (eq, b) in seen.items():
            p = [E.x[n][k] - E.x[R.master][k] for k in range(3)]
            exp = {(n, d): E.mp.mpf(1), (R.master, d): E.mp.mpf(-1)}
            for l in range(3):
                exp[(R.master, RX + l)] = -sum(dC[l][d][j] * p[j] for j in range(3))
            for q in sorted(set(exp) | set(eq)):
                out.append(('coefficient of DoF %d at node %d in the equation of DoF %d at node %d' % (q[1], q[0], d, n), E(eq.get(q, ZERO_)), exp.get(q, E.mp.mpf(0))))
            cst = E.w[d] + sum((C[d][j] - (1 if d == j else 0)) * p[j] for j in range(3)) - E.us[n][d]
            out.append(('constant of the equation of DoF %d at node %d' % (d, n), E(b), cst))
        return out
    if zero:
        agree(ck, tag + ':no-rotation', ck.at(fup), 'without rotation the equations are those of the infinitesimal rotation', coefs,
              lambda s: point(s, R, Eval(1, {}, {}, wild=False).mp.mpf(0)), seeds=range(1, 4), tol=9)
        return
    mp_ = Eval(1, {}, {}, wild=False).mp
    big = [mp_.mpf(x) for x in ('0.0012', '0.02', '0.3', '1.1', '2.9', '3.3', '6.5')]
    agree(ck, tag + ':kinematics', ck.at(fup), 'coefficients are the derivatives of the rigid rotation and the constant is its residual', coefs,
          lambda s: point(s, R, big[s % len(big)]), seeds=range(1, 15), tol=18, terms=terms, wild=lambda s: point(s, R, big[s % len(big)]))
    small = [mp_.mpf(x) for x in ('1e-9', '1e-6', '1e-4', '9e-4')]
    bad = und = ''
    for k in range(1, 13):
        E = point(k, R, small[k % len(small)])
        P3 = max(sum(abs(E.x[n][j] - E.x[R.master][j]) for j in range(3)) for n in slaves)
        tol = E.mp.mpf('0.35') * small[k % len(small)] ** 2 * P3 + E.mp.mpf(10) ** -12
        for lab, g, w in coefs(E):
            if not abs(g - w) <= tol:
                bad = bad or '%s is %s, should be %s for a rotation of %s' % (lab, E.mp.nstr(g, 12), E.mp.nstr(w, 12), E.mp.nstr(small[k % len(small)], 3))
        if E.opaque:
            und = ', '.join(show_any(x)[:60] for x in list(E.opaque)[:3])
    ck.ob(tag + ':small-rotation', ck.at(fup), None if und else not bad, 'for small rotations coefficients and constants agree with the rigid rotation to second order', und or bad)
    return R


def registration(ck):
    R = Rigid(ck, [3, 9], [UX, UZ])
    f = ck.p.method('nla3d::MpcCollection', 'registerMpcsInStorage', 0)
    n = R.n('rigidSize')
    R.s('rigidRegister', R.r)
    ev = [m for m in R.mpcs]
    ck.ob('rigid:registered', ck.at(f), len(ev) == n and len(set(x.loc for x in ev if isinstance(x, Ptr))) == n, 'every equation of the collection is registered once', '%d of %d' % (len(ev), n))
    used = set()
    for eq, b in R.equations():
        used |= {d for m, d in eq if m == R.master}
    got = set()
    for node, ts in R.added:
        if node == Poly.const(R.master) and ts:
            got |= {int(t.cval()) for t in ts if t.is_const()}
    ck.ob('rigid:master-dofs', ck.at(ck.p.method(RB, 'pre', 0)), used <= got if got else None, 'every master DoF used in the equations is registered', 'used %r registered %r' % (sorted(used), sorted(got)))


def run(ck):
    ck.assumptions += ['rigid-body constraints: DoF sets of UX, UY, UZ; up to three slave nodes; other DoFs end the program']
    ck.part('assembly', assembly)
    ck.part('collections', registered)
    sets = [[UX], [UY], [UZ], [UX, UY], [UZ, UX], [UX, UY, UZ]]
    for d in sets if ck.tier == 'quick' else [list(p) for k in (1, 2, 3) for p in itertools.permutations((UX, UY, UZ), k)]:
        ck.part('rigid', lambda ck, d=d: rigid(ck, [3, 9], d))
    ck.part('rigid', lambda ck: rigid(ck, [5], [UX, UY, UZ]))
    ck.part('rigid', lambda ck: rigid(ck, [5, 2, 8], [UY, UZ]))
    ck.part('rigid', lambda ck: rigid(ck, [3, 9], [UX, UY, UZ], 2))
    ck.part('rigid', lambda ck: rigid(ck, [3, 9], [UX, UY, UZ], zero=True))
    ck.part('registration', registration)
