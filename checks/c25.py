"""Value analysis of the transient solver: effective matrix, right-hand side and updates against the Newmark relations."""
from solver import *
from c05 import bad_vec


def mvs(r, M, row, vals):
    t = ZERO_
    for s, v in vals:
        t = t + r.vm.mv(M, None, row, s, v)
    return t


def zero(t):
    if t.is_zero():
        return True
    # group by vector atom, each coefficient must vanish identically
    lin = split_linear(t)
    if lin is None:
        return None if opaque_atoms(t, ('lh',)) else False
    for c, a in lin:
        if not r_zero(c):
            return None if opaque_atoms(c, ('lh',)) or (type(a) is tuple and a[0] == 'badvec') else False
    return True


def show_bad(t):
    lin = split_linear(t)
    if lin is None:
        return show(t)[:400]
    return '; '.join('(%s) * %s' % (show(c)[:150], show_atom(a)[:80]) for c, a in lin if not r_zero(c))[:600]


def tr(ck, cls, fn):
    name = cls.split('::')[-1]
    r = analyse(ck, cls, fn)
    if not r.transient:
        return
    ini = lambda f: Poly.atom(('init', ('this', (f,))))
    N, alpha, delta = ini('numberOfTimesteps'), ini('alpha'), ini('delta')
    dt = (ini('time1') - ini('time0')) * inv(N)
    a0, a1 = inv(alpha * dt * dt), delta * inv(alpha * dt)
    subs = r.evs('substituteEquations')
    facs = r.evs('factorizeEquations')
    ev = subs[0]
    w = ck.evat(ev)
    st = ev.extra['state']
    K, C, M = (r.base(st, g) for g in ('getK', 'getC', 'getM'))
    ck.ob(name + ':one-solution', w, len(subs) == 1 and len(facs) == 1 and not ev.guards, 'one factorization, one substitution per time step', '')
    A = facs[0].extra['A']
    ck.ob(name + ':same-matrix', w, isinstance(A, Ptr) and A == ev.extra['A'], 'the factorized matrix is the one substituted', '%s / %s' % (A, ev.extra['A']))
    # effective matrix, entry by entry
    fs = facs[0].extra['state']
    wf = ck.evat(facs[0])
    o = A.loc
    k = ('k', 'entry')
    gk = Poly.atom(k)
    size = Poly.atom(('nvalues', r.vm.sparsity_of(fs, o)))
    s2 = fs.copy()
    s2.assume = s2.assume + (lt(gk - size, True),)
    val = r.I.num(r.I.read(s2, (('vals', o), (('i', gk),)), 'double'))

    def blkval(m):
        return r.I.num(r.I.read(s2, (('vals', (('blk', m, (2, 2)), ())), (('i', gk),)), 'double'))
    want = a0 * blkval(M) + a1 * blkval(C) + blkval(K)
    d = settle(r.I, s2, val - want)
    ok = r_zero(d) or (None if opaque_atoms(val) else False)
    ck.ob(name + ':effective-matrix', wf, ok, 'every entry of the factorized matrix is a0*M + a1*C + K with a0 = 1/(alpha dt^2), a1 = delta/(alpha dt)', 'difference %s' % show(d)[:400])
    ck.ob(name + ':effective-sparsity', wf, r.vm.sparsity_of(fs, o) == (('blk', K, (2, 2)), ()),
          'the effective matrix has the sparsity of the unknown block', repr(r.vm.sparsity_of(fs, o)))
    asm = [e for e in r.evs('assembleGlobalEqMatrices') if e.seq < facs[0].seq and not e.loops and not e.guards]
    ck.ob(name + ':assembled', wf, bool(asm), 'matrices are assembled before the effective matrix is formed', '')
    # states
    upd = [u for u in r.evs('updateResults') if u.seq > ev.seq]
    if not upd:
        raise AnalysisBroken('no publication after substitution')
    us = upd[0].extra['state']
    old = {g: {s: resolve(r, r.seg(st, g, s)) for s in 'csl'} for g in ('getU', 'getDU', 'getDDU', 'getF', 'getR')}
    new = {g: {s: resolve(r, r.seg(us, g, s)) for s in 'csl'} for g in ('getU', 'getDU', 'getDDU')}
    wu = ck.evat(upd[0])
    for s in 'sl':
        ck.ob('%s:new-%s' % (name, s), wu, new['getU'][s] == Poly.atom(('x', ev.line, s)), 'the substituted solution is published as the new values', show(new['getU'][s])[:200])
    ck.ob('%s:new-c' % name, wu, zero(new['getU']['c'] - old['getU']['c']), 'prescribed values stay', show(new['getU']['c'])[:300])
    half = Poly.const(Fraction(1, 2))
    for s in 'csl':
        U, V, A_ = old['getU'][s], old['getDU'][s], old['getDDU'][s]
        Un, Vn, An = new['getU'][s], new['getDU'][s], new['getDDU'][s]
        d1 = U + dt * V + dt * dt * ((half - alpha) * A_ + alpha * An) - Un
        d2 = V + dt * ((ONE_ - delta) * A_ + delta * An) - Vn
        ck.ob('%s:newmark-u-%s' % (name, s), wu, zero(d1), 'U_new = U + dt V + dt^2 ((1/2 - alpha) A + alpha A_new)', 'off by %s' % show_bad(d1))
        ck.ob('%s:newmark-v-%s' % (name, s), wu, zero(d2), 'V_new = V + dt ((1 - delta) A + delta A_new)', 'off by %s' % show_bad(d2))
    if ev.extra['rhs'] is None:
        ck.ob(name + ':motion', w, None, 'rhs', '')
    else:
        for row, rhs in ev.extra['rhs']:
            rhs = resolve(r, rhs)
            x = [(s, new['getU'][s]) for s in 'sl']
            lhs = a0 * mvs(r, M, row, x) + a1 * mvs(r, C, row, x) + mvs(r, K, row, x) - rhs
            allv = lambda g: [(s, new[g][s]) for s in 'csl' if not new[g][s].is_zero()]
            res = mvs(r, M, row, allv('getDDU')) + mvs(r, C, row, allv('getDU')) + mvs(r, K, row, allv('getU')) - old['getF'][row] - old['getR'][row]
            d = lhs - res
            ck.ob('%s:motion-%s' % (name, row), w, zero(d), 'the solved system is M A_new + C V_new + K U_new = F + R on segment %s' % row, 'off by %s' % show_bad(d))
    # carried to the next step: state at loop end equals the published one
    lp = ev.loops[0][0][1] if ev.loops else None
    ls = r.I.loopstates.get(lp)
    if ls is None or ls['end'] is None:
        ck.ob(name + ':carried', w, None, 'loop state', '')
    else:
        for g in ('getU', 'getDU', 'getDDU'):
            for s in 'csl':
                v = resolve(r, r.seg(ls['end'], g, s))
                ck.ob('%s:carried-%s-%s' % (name, g[3:], s), wu, zero(v - new[g][s]), 'the next step starts from the published state', show(v)[:200])
        for g, want in (('getU', ini('initValue')), ('getDU', ZERO_), ('getDDU', ZERO_)):
            for s in 'sl':
                v = r.seg(ls['entry'], g, s)
                ww = want * Poly.atom(('one', s)) if not want.is_zero() else ZERO_
                ck.ob('%s:initial-%s-%s' % (name, g[3:], s), w, zero(v - ww), 'the first step starts from the initial value at rest', show(v)[:200])
    n = ev.loops[0][1] if ev.loops else None
    ck.ob(name + ':step-count', w, None if n is None else n == N and len(ev.loops) <= 2, 'exactly numberOfTimesteps steps are made', 'loop count %s' % (show(n) if n is not None else None))
    mm = r.evs('segment-mismatch', 'view-misaligned')
    ck.ob('%s:segments' % name, ck.evat(mm[0]) if mm else ck.at(fn), not mm, 'vector operations combine equal segments only', repr(mm)[:400])


def run(ck):
    for cls, fn in solvers(ck):
        ck.part(cls.split('::')[-1], tr, cls, fn)
    if not ck.obs:
        raise AnalysisBroken('no transient solver')
