"""Equation solvers: solution of the Gauss solver as a rational function of matrix and right-hand side per pivot order (identity A x = b), its failure exits, and the calls and error exits of the PARDISO solver."""
from c10 import *

ES, GS, PS = M + 'EquationSolver', M + 'GaussDenseEquationSolver', M + 'PARDISO_equationSolver'
# representative of one class of inputs: all matrices for which every comparison of the elimination has the same outcome
REGULAR = {
    1: [[5], [-2]],
    2: [[4, 1, 1], [1, 3, 4], [0, 1, 0], [-1, 2, 1]],
    3: [[4, 1, 1, 5, 1, 3], [1, 2, 3, 1, 1, 1], [0, 1, 2, 0, 3, 0], [1, 1, 4, 9, 2, 1], [0, 0, 1, 2, 0, 0], [-7, 2, 1, 1, 5, 2]],
    4: [[9, 1, 2, 1, 8, 1, 1, 7, 2, 5], [1, 2, 3, 4, 0, 1, 5, 2, 1, 0], [0, 0, 0, 1, 0, 1, 2, 1, 1, 0]],
}
SINGULAR = {
    1: [[0]],
    2: [[0, 0, 3], [1, 2, 4], [0, 0, 0], [5, 0, 0]],
    3: [[1, 2, 3, 4, 6, 9], [0, 0, 0, 1, 2, 4], [4, 2, 2, 1, 1, 1], [1, 0, 0, 1, 0, 0], [0, 1, 0, 0, 0, 0]],
    4: [[1, 0, 0, 0, 1, 0, 0, 1, 1, 1]],
}


def upper(n):
    return [(i, j) for i in range(1, n + 1) for j in range(i, n + 1)]


class Gauss:
    def __init__(self, ck, n, sparse=()):
        self.ck, self.n = ck, n
        self.ent = [p for p in upper(n) if p not in sparse]
        self.m = Mat(ck, True, n, n, self.ent)
        self.W = self.m.W
        self.W.I.name_limit = 12
        self.s = self.W.make('gaussSolver')
        self.val = {}
        self.rep = {}
        self.point = None
        self.W.I.partition = self.decide
        self.und = []

    def decide(self, b):
        E = Eval(1, dict(self.rep))
        r = E.b(b)
        if E.opaque - set(self.rep):
            self.und.append(b)
            return None
        return r

    def fill(self, tag, rep, m=None):
        m = m or self.m
        val = {}
        self.W.m(BASE, m.loc, 'zero')
        for k, (i, j) in enumerate(upper(m.n)):
            if m.has(i, j):
                v = sy(tag, i, j)
                val[(i, j)] = val[(j, i)] = v
                self.rep[v.single_atom()] = rep[k]
                m.add(i, j, v)
        return val

    def arrays(self, rhs, x, n):
        b = [sy(rhs, i) for i in range(n)]
        self.W.array(rhs, n, b)
        self.W.array(x, n + 1, [sy(x, i) for i in range(n + 1)])
        for k, v in enumerate(b):
            self.rep[v.single_atom()] = k + 2
        return b

    def call(self, name, rhs=None, x=None, m=None):
        W = self.W
        self.W.I.events.clear()
        a = [Ptr((m or self.m).loc, SYM + ' *')]
        if rhs:
            a += [W.ptr(rhs), W.ptr(x)]
        W.m(GS, self.s, name, *a)
        return fatal(W)


def solved(ck, g, tag, val, b, rhs, x, n, rule, m=None):
    """A x = b as an identity, inputs untouched"""
    m = m or g.m
    W = g.W
    at = ck.at(ck.p.method(GS, 'substituteEquations', 3))
    if W.st.dead:
        return ck.ob(tag, at, False, rule, 'the program ends with a fatal error for a regular matrix')
    xs = W.get(x, n)
    for seed in (3, 8):
        E = Eval(seed)
        xv = [E(t) for t in xs]
        res = [sum(E(val[(i + 1, j + 1)]) * xv[j] for j in range(n) if (i + 1, j + 1) in val) - E(b[i]) for i in range(n)]
        if E.opaque:
            return ck.ob(tag, at, None, rule, 'not interpreted: ' + ', '.join(show_any(q)[:60] for q in list(E.opaque)[:3]))
        bad = [i for i in range(n) if not E.close(res[i], 0, 25, E.mp.mpf(10) ** 3)]
        if bad:
            return ck.ob(tag, at, False, rule, 'equation %d is not satisfied: residual %s' % (bad[0] + 1, E.mp.nstr(res[bad[0]], 8)))
    ck.ob(tag, at, True, rule)
    table(ck, tag + ':inputs', at, 'matrix and right-hand side keep their values and nothing is written past the solution',
          [('value(%d,%d)' % p, m.value(*p), val.get(p, ZERO_)) for p in m.all()] + [('rhs[%d]' % i, v, b[i]) for i, v in enumerate(W.get(rhs, n))]
          + [('behind the solution', W.get(x, n + 1)[n], sy(x, n))])


def gauss(ck, n, k, rep):
    tag = 'gauss:%d.%d' % (n, k)
    g = Gauss(ck, n)
    val = g.fill('a', rep)
    b = g.arrays('b', 'x', n)
    f = g.call('solveEquations', 'b', 'x')
    solved(ck, g, tag, val, b, 'b', 'x', n, 'the computed values satisfy A x = b for every matrix with this pivot order')
    if g.W.st.dead or k > 1:
        return
    # factorize once, substitute twice
    b2 = g.arrays('b2', 'x2', n)
    g.call('factorizeEquations')
    g.call('substituteEquations', 'b2', 'x2')
    solved(ck, g, tag + ':factor', val, b2, 'b2', 'x2', n, 'substitution after factorization satisfies A x = b')
    g.arrays('b3', 'x3', n)
    g.call('substituteEquations', 'b2', 'x3')
    solved(ck, g, tag + ':again', val, b2, 'b2', 'x3', n, 'a further substitution with the same right-hand side satisfies A x = b')
    # other values, same solver
    reps = REGULAR[n]
    val2 = g.fill('c', reps[(k + 1) % len(reps)])
    b4 = g.arrays('b4', 'x4', n)
    g.call('solveEquations', 'b4', 'x4')
    solved(ck, g, tag + ':values', val2, b4, 'b4', 'x4', n, 'a second system solved by the same solver satisfies A x = b')


def resized(ck):
    """one solver, systems of different size, positions that are not stored"""
    g = Gauss(ck, 3, [(1, 2)])
    rep = [4, 0, 1, 5, 1, 3]
    val = g.fill('a', rep)
    b = g.arrays('b', 'x', 3)
    g.call('solveEquations', 'b', 'x')
    solved(ck, g, 'gauss:sparse', val, b, 'b', 'x', 3, 'positions that are not stored count as zero')
    W = g.W
    for k, n in enumerate((2, 4, 1)):
        loc = W.make('symmetric', n, n)
        m2 = Mat.__new__(Mat)
        m2.ck, m2.sym, m2.n, m2.m, m2.W, m2.cls, m2.loc = ck, True, n, n, W, SYM, loc
        for i, j in upper(n):
            W.m(SYM, loc, 'addEntry', i, j)
        W.m(BASE, loc, 'compress')
        m2.ent = set(upper(n))
        val = g.fill('m%d' % n, REGULAR[n][0], m2)
        b = g.arrays('b%d' % n, 'x%d' % n, n)
        g.call('solveEquations', 'b%d' % n, 'x%d' % n, m2)
        solved(ck, g, 'gauss:resized%d' % n, val, b, 'b%d' % n, 'x%d' % n, n, 'a system of another size solved by the same solver satisfies A x = b', m2)


def uninit(b):
    return any(type(a) is tuple and a and a[0] == 'uninit' or isinstance(a, Opq) and a.k and a.k[0] == 'uninit' for a in atomset(b))


def singular(ck):
    at = ck.at(ck.p.method(GS, 'substituteEquations', 3))
    rule = 'a matrix without an acceptable pivot ends the program with a fatal error'
    for n, reps in SINGULAR.items():
        for k, rep in enumerate(reps):
            for scale in (1, Fraction(1, 10 ** 12)):
                g = Gauss(ck, n)
                g.fill('a', [Fraction(v) * scale for v in rep])
                g.arrays('b', 'x', n)
                f = g.call('solveEquations', 'b', 'x')
                tag = 'gauss:singular:%d.%d.%d' % (n, k, 0 if scale == 1 else 1)
                if [e for e in f if not e.guards]:
                    ck.ob(tag, at, True, rule)
                elif any(uninit(b) for b in g.und):
                    ck.ob(tag, at, False, rule, 'singular matrix %r: the elimination continues with uninitialised variables' % (rep,))
                else:
                    ck.ob(tag, at, None if g.und or f else False, rule, 'singular matrix %r: no fatal error' % (rep,))


def limits(ck):
    """size and number of right-hand sides"""
    fn = ck.p.method(GS, 'factorizeEquations', 1)
    I = ck.interp()
    n = I.typed_atom(('sym', 'nRows'), 'unsigned int')
    I.hooks[BASE + '::nRows'] = lambda I, st, e: n
    st, r, v = ck.run(I, fn)
    at = ck.at(fn)
    f = [e for e in I.events if ends(e)]
    bad = []
    for k, want in ((1, False), (2, False), (500, False), (999, False), (1001, True), (5000, True), (65536, True), (70000, True), (200001, True)):
        E = Eval(1, {n.single_atom(): k})
        got = any(all(E.b(x) for x in e.guards) for e in f)
        if E.opaque:
            return ck.ob('gauss:size', at, None, 'size limit', repr(E.opaque)[:200])
        if got != want:
            bad.append('%d equations: %s' % (k, 'fatal' if got else 'accepted'))
    ck.ob('gauss:size', at, not bad, 'systems above the supported size of the dense solver end with a fatal error and smaller ones are accepted', '; '.join(bad))


def pardiso(ck, pos):
    W = World(ck)
    I = W.I
    calls = []

    def h(I, st, e):
        a = [I.val(st, x) for x in e['c']]

        def at(p, t):
            if not isinstance(p, Ptr) or p.loc is None:
                return None
            return I.num(I.read(st, p.loc, t))
        k = len(calls)
        c_ = dict(k=k, guards=st.guards + st.assume, args=a, line=e.get('l'), fatal=len(I.events))
        c_['mtype'], c_['phase'], c_['n'], c_['nrhs'] = at(a[3], 'int'), at(a[4], 'int'), at(a[5], 'int'), at(a[10], 'int')
        if isinstance(a[11], Ptr) and a[11].loc is not None:
            c_['iparm'] = [I.num(I.read(st, I.padd(a[11], Poly.const(q), 'int *').loc, 'int')) for q in range(64)]
        if isinstance(a[0], Ptr) and a[0].loc is not None:
            c_['pt'] = [I.read(st, I.padd(a[0], Poly.const(q), 'void **').loc, 'void *') for q in range(64)]
        c_['handle'] = a[0]
        err = I.typed_atom(('sym', 'err', k), 'int')
        c_['err'] = err
        I.write(st, a[15].loc, err)
        calls.append(c_)
        I.event(st, 'pardiso', [Poly.const(k)], node=e)
        return ZERO_
    for n in ('pardiso', 'PARDISO'):
        I.hooks[n] = h
    I.run_dtors = True
    return W, calls


def system(ck, W, n, ent):
    loc = W.make('symmetric', n, n)
    for i, j in ent:
        W.m(SYM, loc, 'addEntry', i, j)
    W.m(BASE, loc, 'compress')
    for i, j in sorted(set(ent) | {(i, i) for i in range(1, n + 1)}):
        W.m(SYM, loc, 'addValue', i, j, sy('a', i, j))
    return loc


def fatal_if(ck, W, calls, k, E):
    """is there a fatal exit between PARDISO call k and the next one at evaluation point E"""
    ev = W.I.events
    i = next((q for q, e in enumerate(ev) if e.name == 'pardiso' and e.args[0] == Poly.const(k)), None)
    if i is None:
        return None
    for e in ev[i + 1:]:
        if e.name == 'pardiso':
            return False
        if ends(e) and all(E.b(g) for g in e.guards):
            return True
    return False


def pardiso_run(ck):
    p = ck.p
    at = ck.at(p.method(PS, 'factorizeEquations', 1))
    if p.method(PS, 'factorizeEquations', 1) is None:
        raise AnalysisBroken(PS)
    for pos in (True, False):
        W, calls = pardiso(ck, pos)
        A = system(ck, W, 3, [(1, 2), (2, 3)])
        s = W.make('pardisoSolver')
        call = lambda n, *a: W.m(PS if n not in ('setPositive', 'setSymmetric') else ES, s, n, *a)
        call('setPositive', B(('T',)) if pos else B(('F',)))
        W.array('b', 3)
        W.array('x', 3, [sy('x', i) for i in range(3)])
        W.array('b2', 3)
        mp = Ptr(A, SYM + ' *')
        W.I.events.clear()
        call('solveEquations', mp, W.ptr('b'), W.ptr('x'))
        n1 = len(calls)
        # new values, same pattern
        call('factorizeEquations', mp)
        call('substituteEquations', mp, W.ptr('b2'), W.ptr('x'))
        call('substituteEquations', mp, W.ptr('b'), W.ptr('x'))
        n2 = len(calls)
        # another pattern of the same size, then another size
        A2 = system(ck, W, 3, [(1, 3)])
        call('solveEquations', Ptr(A2, SYM + ' *'), W.ptr('b'), W.ptr('x'))
        n3 = len(calls)
        A3 = system(ck, W, 2, [(1, 2)])
        call('solveEquations', Ptr(A3, SYM + ' *'), W.ptr('b'), W.ptr('x'))
        tag = 'pardiso:' + ('positive' if pos else 'indefinite')
        audit(ck, W, calls, tag, pos, (n1, n2, n3), (A, A2, A3), at)


def audit(ck, W, calls, tag, pos, marks, mats, at):
    ph = [c_['phase'] for c_ in calls]
    show_ph = [int(q.cval()) if isinstance(q, Poly) and q.is_const() else None for q in ph]
    live = [k for k, c_ in enumerate(calls)]
    n1, n2, n3 = marks
    und = [q for q in show_ph if q is None]
    segs = [show_ph[:n1], show_ph[n1:n2], show_ph[n2:n3], show_ph[n3:]]
    drop = lambda s: [q for q in s if q != -1 and q != 0]
    expand = lambda s: [z for q in s for z in ({13: (11, 22, 33), 12: (11, 22), 23: (22, 33)}.get(q, (q,)))]
    segs = [expand(drop(s)) for s in segs]
    rule = 'a new pattern is analysed, factorized and solved in this order; new values are factorized before substitution'
    bad = []
    for i, s in enumerate(segs):
        if i == 1:
            w = s == [22, 33, 33] or s == [11, 22, 33, 33] or s == [11, 22, 33, 11, 22, 33]
        else:
            w = s == [11, 22, 33]
        if not w:
            bad.append('%s: phases %r' % (['first system', 'new values', 'other pattern', 'other size'][i], s))
    ck.ob(tag + ':phases', at, None if und else not bad, rule, '; '.join(bad))
    # errors are fatal
    for k, c_ in enumerate(calls):
        if show_ph[k] in (None, -1, 0):
            continue
        res = []
        for errs in (-1, -4, 1):
            E = Eval(1, {d['err'].single_atom(): 0 for d in calls})
            E.given[c_['err'].single_atom()] = errs
            res.append((errs, fatal_if(ck, W, calls, k, E)))
        E = Eval(1, {d['err'].single_atom(): 0 for d in calls})
        ok = fatal_if(ck, W, calls, k, E)
        if E.opaque:
            ck.ob('%s:error%d' % (tag, k), at, None, 'error exits of PARDISO calls', 'not interpreted: %s' % show_any(list(E.opaque)[0])[:100])
            continue
        bad = ['error code %d is ignored' % e for e, r in res if not r]
        if ok:
            bad.append('a successful call ends the program')
        ck.ob('%s:error%d' % (tag, k), at, not bad, 'phase %s of PARDISO: an error code ends the program, success does not' % show_ph[k], '; '.join(bad))
    # arguments
    for k, c_ in enumerate(calls):
        if show_ph[k] in (None, -1, 0):
            continue
        A = mats[0] if k < n2 else mats[1] if k < n3 else mats[2]
        n = 2 if k >= n3 else 3
        a = c_['args']
        rows = [('mtype', c_['mtype'], Poly.const(2 if pos else -2)), ('number of equations', c_['n'], Poly.const(n)), ('number of right-hand sides', c_['nrhs'], Poly.const(1))]
        if 'iparm' in c_:
            rows.append(('iparm[0] (own parameters)', c_['iparm'][0], Poly.const(1)))
            rows.append(('iparm[5] (solution written to x)', c_['iparm'][5], Poly.const(0)))
            rows.append(('iparm[34] (one-based indices)', c_['iparm'][34], Poly.const(0)))
            rows.append(('iparm[27] (double precision)', c_['iparm'][27], Poly.const(0)))
            rows.append(('iparm[11] (not transposed)', c_['iparm'][11], Poly.const(0)))
        table(ck, '%s:args%d' % (tag, k), at, 'PARDISO is called with the settings of the system', rows)
        ptrs = [('values', a[6], 'getValuesArray'), ('row starts', a[7], 'getIofeirArray'), ('columns', a[8], 'getColumnsArray')]
        bad, und = [], []
        for lab, g, acc in ptrs:
            w = W.m(BASE, A, acc)
            if not isinstance(g, Ptr) or not isinstance(w, Ptr):
                und.append(lab)
            elif g.loc != w.loc:
                bad.append('%s are not those of the matrix' % lab)
        if show_ph[k] == 33:
            want_b = 'b2' if n1 <= k < n2 and [q for q in range(n1, k) if show_ph[q] == 33] == [] else 'b'
            for lab, g, w in (('right-hand side', a[13], W.ptr(want_b)), ('solution', a[14], W.ptr('x'))):
                if not isinstance(g, Ptr):
                    und.append(lab)
                elif g.loc != w.loc:
                    bad.append('%s is another array' % lab)
        ck.ob('%s:pointers%d' % (tag, k), at, False if bad else None if und else True, 'PARDISO works on the arrays of the matrix, the right-hand side and the solution of the caller', '; '.join(bad or und))


def pardiso_life(ck):
    """handle initialised before its first use; released only when used"""
    at = ck.at(ck.p.method(PS, 'factorizeEquations', 1))
    W, calls = pardiso(ck, False)
    A = system(ck, W, 2, [(1, 2)])
    s = W.make('pardisoSolver')
    W.m(PS, s, 'factorizeEquations', Ptr(A, SYM + ' *'))
    pt = calls[0].get('pt') if calls else None
    if not pt:
        ck.ob('pardiso:handle', at, None, 'handle', 'not found')
    else:
        bad = [k for k, v in enumerate(pt) if not (isinstance(v, Ptr) and v.loc is None or isinstance(v, Poly) and v == ZERO_)]
        ck.ob('pardiso:handle', at, not bad, 'the solver handle is zero before its first use', 'entry %s' % bad[:3])
    r = free(ck, 'verif_witness::deleteSolver', 1)
    n = len(calls)
    W.call(r, [Ptr(s, ES + ' *')])
    ck.ob('pardiso:release', at, len(calls) > n, 'a used solver is released when it is destroyed', '')
    W, calls = pardiso(ck, False)
    s = W.make('pardisoSolver')
    W.call(r, [Ptr(s, ES + ' *')])
    bad = [c_ for c_ in calls if any(not (isinstance(v, Ptr) and v.loc is None or isinstance(v, Poly) and v == ZERO_) for v in c_.get('pt', []))]
    ck.ob('pardiso:unused', at, not bad, 'a solver that was never used does not release an uninitialised handle', '')
    # non-symmetric systems are refused
    W, calls = pardiso(ck, False)
    A = system(ck, W, 2, [(1, 2)])
    s = W.make('pardisoSolver')
    W.m(ES, s, 'setSymmetric', B(('F',)))
    W.I.events.clear()
    W.m(PS, s, 'factorizeEquations', Ptr(A, SYM + ' *'))
    f = [e for e in W.I.events if ends(e) and not e.guards]
    ck.ob('pardiso:nonsymmetric', at, bool(f) and not calls, 'a non-symmetric system is refused with a fatal error', 'no fatal error before PARDISO is called')


def run(ck):
    for n, reps in REGULAR.items():
        for k, rep in enumerate(reps):
            ck.part('gauss:%d.%d' % (n, k), gauss, n, k, rep)
    ck.part('gauss:resized', resized)
    ck.part('gauss:singular', singular)
    ck.part('gauss:limits', limits)
    ck.part('pardiso', pardiso_run)
    ck.part('pardiso:life', pardiso_life)
