"""Sparse matrices: stored positions, accessors and products for concrete patterns with symbolic values, and the index search over all rows up to 13 entries."""
from world import *

M = 'nla3d::math::'
GEN, SYM, BASE, SI = M + 'SparseMatrix', M + 'SparseSymMatrix', M + 'BaseSparseMatrix', M + 'SparsityInfo'
DV = M + 'dVec'
# rows, columns, registered positions in order of registration
GENERAL = [
    (3, 4, [(1, 2), (1, 4), (2, 3), (3, 1), (1, 1), (2, 3), (3, 4)]),
    (4, 3, [(2, 3), (2, 1), (2, 2), (4, 2)]),
    (1, 1, [(1, 1)]),
    (2, 6, [(1, 6), (1, 5), (1, 3), (1, 2), (1, 1)]),
    (5, 2, [(5, 2), (3, 1), (1, 2)]),
    (3, 3, []),
    (2, 3, [(1, 3), (1, 1), (2, 2), (2, 1)]),
]
SYMMETRIC = [
    (4, [(1, 2), (3, 2), (4, 1), (3, 3), (2, 2), (1, 1), (4, 4)]),
    (3, [(3, 1), (1, 1), (2, 2), (3, 3)]),
    (1, [(1, 1)]),
    (3, [(1, 2), (2, 1), (1, 3), (2, 3), (1, 1)]),
]


def sy(*k):
    return Poly.atom(('sym',) + k)


def fatal(W):
    return [e for e in W.I.events if e.name in ('fatal', 'throw') or e.name.startswith('abort')]


class Mat:
    def __init__(self, ck, sym, n, m, ent, limit=None):
        self.ck, self.sym, self.n, self.m = ck, sym, n, m
        self.W = W = World(ck)
        self.cls = SYM if sym else GEN
        k = limit or max(1, max([sum(1 for p in range(1, m + 1) if (i, p) in ent or sym and ((p, i) in ent or p == i)) for i in range(1, n + 1)] or [1]))
        self.loc = W.make('symmetric', n, k) if sym else W.make('general', n, m, k)
        for i, j in ent:
            W.m(self.cls, self.loc, 'addEntry', i, j)
        W.m(BASE, self.loc, 'compress')
        self.ent = {(min(p), max(p)) if sym else p for p in ent} | ({(i, i) for i in range(1, n + 1)} if sym else set())

    def has(self, i, j):
        return ((min(i, j), max(i, j)) if self.sym else (i, j)) in self.ent

    def value(self, i, j):
        return self.W.I.num(self.W.m(self.cls, self.loc, 'value', i, j))

    def add(self, i, j, v):
        self.W.m(self.cls, self.loc, 'addValue', i, j, v)

    def all(self):
        return [(i, j) for i in range(1, self.n + 1) for j in range(1, self.m + 1)]


def table(ck, key, where, rule, rows):
    """rows: (label, got, want)"""
    bad, und = [], []
    for lab, g, w in rows:
        r = compare(P(g), P(w)) if isinstance(g, (Poly, B)) else None
        if r is False:
            bad.append('%s is %s, should be %s' % (lab, show(P(g))[:80], show(P(w))[:80]))
        elif r is None:
            und.append('%s: %s' % (lab, show_any(g)[:80]))
    return ck.ob(key, where, False if bad else None if und else True, rule + ' (%d comparisons)' % len(rows), '; '.join((bad or und)[:3]))


def canon(m, i, j):
    return (min(i, j), max(i, j)) if m.sym else (i, j)


def matrix(ck, sym, n, cols, ent, tag):
    m = Mat(ck, sym, n, cols, ent)
    W = m.W
    at = lambda name, k: ck.at(ck.p.method(m.cls, name, k))
    if fatal(W):
        ck.ob(tag + ':build', at('addEntry', 2), False if all(not e.guards for e in fatal(W)) else None, 'registering within the row limit succeeds', repr(fatal(W))[:200])
        return
    nv = W.I.num(W.m(BASE, m.loc, 'nValues'))
    table(ck, tag + ':count', ck.at(ck.p.method(BASE, 'nValues', 0)), 'as many values are stored as positions were registered', [('nValues', nv, Poly.const(len(m.ent)))])
    table(ck, tag + ':fresh', at('value', 2), 'a compressed matrix is zero', [('value(%d,%d)' % p, m.value(*p), ZERO_) for p in m.all()])
    want = {}
    for q, (i, j) in enumerate(sorted(m.ent) + sorted(m.ent)[::2]):
        if sym and q % 2:
            i, j = j, i
        v = sy('a', q)
        m.add(i, j, v)
        c_ = canon(m, i, j)
        want[c_] = want.get(c_, ZERO_) + v
    get = lambda i, j: want.get(canon(m, i, j), ZERO_)
    sure = [e for e in fatal(W) if not e.guards]
    ck.ob(tag + ':accepts', at('addValue', 3), False if sure else None if fatal(W) else True, 'values can be added at every registered position', repr(fatal(W))[:200])
    if sure:
        return
    csr(ck, m, get, tag)
    table(ck, tag + ':values', at('value', 2), 'every registered position holds the sum of what was added there and all others are zero',
          [('value(%d,%d)' % p, m.value(*p), get(*p)) for p in m.all()])
    # writing through the reference
    for i, j in list(m.all()):
        if m.has(i, j) and (i + j) % 2:
            v = sy('w', i, j)
            W.call(free(ck, 'verif_witness::' + ('setSymmetric' if sym else 'setGeneral'), 4), [Ptr(m.loc, m.cls + ' *'), c(i), c(j), v])
            want[canon(m, i, j)] = v
    table(ck, tag + ':reference', at('operator()', 2), 'writing through the reference changes that position and no other',
          [('value(%d,%d)' % p, m.value(*p), get(*p)) for p in m.all()])
    products(ck, m, get, tag)
    outside(ck, m, get, tag, at)
    W.m(BASE, m.loc, 'zero')
    table(ck, tag + ':zero', ck.at(ck.p.method(BASE, 'zero', 0)), 'zero() clears every value', [('value(%d,%d)' % p, m.value(*p), ZERO_) for p in m.all()])


def csr(ck, m, get, tag):
    """the arrays handed to equation solvers: 1-based row starts, ascending columns, values in that order"""
    W = m.W
    I_, C_, V_ = [W.m(BASE, m.loc, f) for f in ('getIofeirArray', 'getColumnsArray', 'getValuesArray')]
    if not all(isinstance(x, Ptr) and x.loc is not None for x in (I_, C_, V_)):
        raise AnalysisBroken('arrays of the sparse format')
    rd = lambda p, k, t: W.I.num(W.I.read(W.st, W.I.padd(p, Poly.const(k), t + ' *').loc, t))
    rs = []
    k = 0
    for i in range(1, m.n + 1):
        rs.append(('row start %d' % i, rd(I_, i - 1, 'unsigned int'), c(k + 1)))
        for j in sorted(q for p, q in m.ent if p == i):
            rs.append(('column %d' % k, rd(C_, k, 'unsigned int'), c(j)))
            rs.append(('value %d' % k, rd(V_, k, 'double'), get(i, j)))
            k += 1
    rs.append(('end', rd(I_, m.n, 'unsigned int'), c(k + 1)))
    table(ck, tag + ':csr', ck.at(ck.p.method(SI, 'compress', 0)), 'the arrays given to equation solvers list every row with ascending columns, counted from one', rs)


def outside(ck, m, get, tag, at):
    """adding to a position that is not registered ends the program and changes nothing"""
    miss = [p for p in m.all() if not m.has(*p)][:4]
    bad = []
    for i, j in miss:
        W = m.W
        keep = W.st
        W.st = keep.copy()
        W.I.events.clear()
        m.add(i, j, sy('x'))
        if not fatal(W):
            bad.append('(%d,%d)' % (i, j))
        W.st = keep
        W.I.events.clear()
    if miss:
        ck.ob(tag + ':absent', at('addValue', 3), not bad, 'adding to a position that was not registered is a fatal error', ', '.join(bad))


def vector(W, name, n):
    o = W.make('vector', max(n, 1), ZERO_)
    for i in range(n):
        W.call(free(W.ck, 'verif_witness::setEntry', 3), [Ptr(o, DV + ' *'), c(i), sy(name, i)])
    return o


def entry(W, o, i):
    f = next((f for f in W.ck.p.fns.values() if f['n'] == DV + '::operator[]' and f.get('const')), None)
    if f is None:
        raise AnalysisBroken('dVec::operator[]')
    return W.I.num(W.call(f, [c(i)], Ref(o, DV)))


def product_fns(ck):
    out = []
    for f in ck.p.fns.values():
        if f['n'] in (M + 'matBVprod', M + 'matBTVprod') and len(f['params']) == 4 and f.get('body'):
            t = strip_ref(f['params'][0]['t']).replace('const ', '')
            if t in (GEN, SYM):
                out.append((f, t, f['n'].endswith('BTVprod')))
    return out


def products(ck, m, get, tag):
    W = m.W
    for f, t, tr in product_fns(ck):
        if t != m.cls:
            continue
        rows, cols = (m.m, m.n) if tr else (m.n, m.m)
        V, R = vector(W, 'V', cols), vector(W, 'R', rows)
        k = sy('coef')
        W.call(f, [('lref', m.loc), ('lref', V), k, ('lref', R)])
        rule = 'adds coef times the %sproduct to the result' % ('transposed ' if tr else '')
        rs = []
        for i in range(rows):
            s = sy('R', i)
            for j in range(cols):
                s = s + k * (get(j + 1, i + 1) if tr else get(i + 1, j + 1)) * sy('V', j)
            rs.append((i, entry(W, R, i), s))
        key = '%s:%s' % (tag, 'transposed' if tr else 'product')
        approx(ck, key, ck.at(f), rule, rs)
        table(ck, key + ':inputs', ck.at(f), 'a product leaves the matrix and the vector alone',
              [('V[%d]' % j, entry(W, V, j), sy('V', j)) for j in range(cols)] + [('value(%d,%d)' % p, m.value(*p), get(*p)) for p in m.all()])


def approx(ck, key, where, rule, rows):
    """equality for all arguments of ordinary size (terms may skip factors that are zero or below 1e-20)"""
    ts = [g for _, g, _ in rows if isinstance(g, Poly)]
    if len(ts) != len(rows):
        return ck.ob(key, where, None, rule, 'not interpreted')

    def wild(seed):
        E = Eval(seed, {}, {}, wild=False)
        import random
        r = random.Random(seed)
        base = {}

        def var(a):
            if a not in base:
                base[a] = E.mp.mpf(r.choice([0, 0, -3, 1, 7])) + (E.mp.mpf(r.randrange(1, 10 ** 6)) / 10 ** 6 if r.random() < .7 else 0)
            return base[a]
        for t in ts + [P(w) for _, _, w in rows]:
            for a in atomset(t):
                if type(a) is tuple and a[0] == 'sym' and a not in E.vars:
                    E.vars[a] = var(a)
        return E
    pts = [wild(s) for s in range(8)]
    for E in pts:
        for i, g, w in rows:
            x, y = E(g), E(P(w))
            if E.opaque:
                return ck.ob(key, where, None, rule, 'not interpreted: ' + ', '.join(show_any(z)[:60] for z in list(E.opaque)[:3]))
            if not E.close(x, y, 15, 1):
                return ck.ob(key, where, False, rule, 'entry %d is %s, should be %s: %s' % (i, E.mp.nstr(x, 8), E.mp.nstr(y, 8), show(g)[:200]))
    return ck.ob(key, where, True, rule + ' (%d entries)' % len(rows))


def search(ck, top):
    """the index search compares column numbers only, so one row per length and every query between, at and around them decides it"""
    fn = ck.p.method(SI, 'getIndex', 2)
    if fn is None:
        raise AnalysisBroken('getIndex')
    for L in range(0, top + 1):
        m = Mat(ck, False, 3, 2 * L + 1, [(1, 1)] + [(2, 2 * k) for k in range(1, L + 1)] + [(3, 1)], limit=max(1, L))
        W = m.W
        rs = []
        for k in range(1, L + 1):
            m.add(2, 2 * k, sy('a', k))
        m.add(1, 1, sy('first'))
        m.add(3, 1, sy('last'))
        for j in range(1, 2 * L + 2):
            rs.append(('value(2,%d)' % j, m.value(2, j), sy('a', j // 2) if j % 2 == 0 else ZERO_))
        rs.append(('value(1,1)', m.value(1, 1), sy('first')))
        rs.append(('value(3,1)', m.value(3, 1), sy('last')))
        table(ck, 'search:%d' % L, ck.at(fn), 'every registered column of a row with %d entries is found and no other' % L, rs)


def shared(ck):
    """two matrices on one sparsity keep separate values"""
    for sym in (False, True):
        n, ent = 3, [(1, 1), (1, 3), (2, 2), (3, 3), (2, 3)]
        m = Mat(ck, sym, n, n, ent)
        W = m.W
        o2 = W.make('symmetricLike' if sym else 'generalLike', Ptr(m.loc, m.cls + ' *'))
        for q, (i, j) in enumerate(ent):
            m.add(i, j, sy('a', q))
        get = {canon(m, i, j): sy('a', q) for q, (i, j) in enumerate(ent)}
        tag = 'shared:' + ('sym' if sym else 'gen')
        w = ck.at(ck.p.method(BASE, 'setSparsityInfo', 1))
        v2 = lambda i, j: W.I.num(W.m(m.cls, o2, 'value', i, j))
        table(ck, tag + ':zero', w, 'a matrix made on existing sparsity is zero', [('value(%d,%d)' % p, v2(*p), ZERO_) for p in m.all()])
        W.m(m.cls, o2, 'addValue', 1, 3, sy('b'))
        table(ck, tag + ':own', w, 'its values are its own', [('value(%d,%d)' % p, m.value(*p), get.get(canon(m, *p), ZERO_)) for p in m.all()]
              + [('value(%d,%d)' % p, v2(*p), sy('b') if canon(m, *p) == (1, 3) else ZERO_) for p in m.all()])


def resparse(ck):
    """a matrix that already holds values takes over another, larger sparsity"""
    for sym in (False, True):
        tag = 'resparse:' + ('sym' if sym else 'gen')
        small = Mat(ck, sym, 2, 2, [(1, 1), (2, 2)], limit=1)
        W = small.W
        small.add(1, 1, sy('old'))
        small.add(2, 2, sy('old', 2))
        big = W.make('symmetric' if sym else 'general', *([3, 3] if sym else [3, 3, 3]))
        ent = [(i, j) for i in (1, 2, 3) for j in range(i if sym else 1, 4)]
        for p in ent:
            W.m(small.cls, big, 'addEntry', *p)
        W.m(BASE, big, 'compress')
        W.call(ck.p.method(BASE, 'setSparsityInfo', 1), [W.m(BASE, big, 'getSparsityInfo')], Ref(small.loc, small.cls))
        w = ck.at(ck.p.method(BASE, 'setSparsityInfo', 1))
        v = lambda i, j: W.I.num(W.m(small.cls, small.loc, 'value', i, j))
        table(ck, tag + ':shape', w, 'the matrix has the rows, columns and number of values of the new sparsity',
              [(k, W.I.num(W.m(BASE, small.loc, k)), c(q)) for k, q in (('nRows', 3), ('nColumns', 3), ('nValues', len(ent)))])
        table(ck, tag + ':zero', w, 'it holds zero values only', [('value(%d,%d)' % p, v(*p), ZERO_) for p in ent])
        for q, p in enumerate(ent):
            W.m(small.cls, small.loc, 'addValue', *p, sy('n', q))
        table(ck, tag + ':values', w, 'every new position holds its value', [('value(%d,%d)' % p, v(*p), sy('n', q)) for q, p in enumerate(ent)])


def entries(ck):
    """reinit from an entry list"""
    fn = [f for f in ck.p.fns.values() if f['n'] == BASE + '::reinit' and len(f['params']) == 3]
    if not fn:
        raise AnalysisBroken('BaseSparseMatrix::reinit')
    for cnt, E3 in ((3, ((1, 2), (2, 1), (1, 3))), (2, ((2, 3), (2, 1), (1, 1))), (1, ((2, 2), (1, 1), (1, 2))), (0, ((1, 1), (1, 2), (1, 3)))):
        W = World(ck)
        o = W.make('general', 4, 4, 2)
        W.m(GEN, o, 'addEntry', 4, 4)
        W.m(BASE, o, 'compress')
        W.m(GEN, o, 'addValue', 4, 4, sy('old'))
        a = [Ptr(o, GEN + ' *'), c(2), c(3), c(cnt)]
        for q, (i, j) in enumerate(E3):
            a += [c(i), c(j), sy('v', q)]
        W.call(free(ck, 'verif_witness::reinitGeneral', 13), a)
        want = {p: sy('v', q) for q, p in list(enumerate(E3))[:cnt]}
        rs = [('nRows', W.I.num(W.m(BASE, o, 'nRows')), c(2)), ('nColumns', W.I.num(W.m(BASE, o, 'nColumns')), c(3)), ('nValues', W.I.num(W.m(BASE, o, 'nValues')), c(cnt))]
        rs += [('value(%d,%d)' % (i, j), W.I.num(W.m(GEN, o, 'value', i, j)), want.get((i, j), ZERO_)) for i in (1, 2) for j in (1, 2, 3)]
        table(ck, 'entries:%d' % cnt, ck.at(fn[0]), 'the matrix made from an entry list has its shape, positions and values and nothing of the old one', rs)


def equal(ck):
    """compare(): same shape, same pattern, values within the threshold"""
    fn = ck.p.method(BASE, 'compare', 2)
    if fn is None:
        raise AnalysisBroken('BaseSparseMatrix::compare')

    def mk(W, n, m, ent, vals):
        o = W.make('general', n, m, 3)
        for p in ent:
            W.m(GEN, o, 'addEntry', *p)
        W.m(BASE, o, 'compress')
        for p, v in zip(ent, vals):
            W.m(GEN, o, 'addValue', *p, v)
        return o
    A, Z = [(1, 1), (1, 3), (2, 2)], [(1, 1), (1, 2), (2, 2)]
    S = [(1, 1), (1, 2), (2, 3)]
    k = Poly.const
    h = Fraction(1, 10 ** 3)
    for tag, b, th, want in (('same', (2, 3, A, (1, 2, 3)), h, True), ('near', (2, 3, A, (1, 2, 3 + h / 2)), h, True), ('far-last', (2, 3, A, (1, 2, 3 + 2 * h)), h, False),
                             ('far-first', (2, 3, A, (1 - 2 * h, 2, 3)), h, False), ('below', (2, 3, A, (1, 2 - 2 * h, 3)), h, False),
                             ('rows', (3, 3, A, (1, 2, 3)), h, False), ('columns', (2, 4, A, (1, 2, 3)), h, False),
                             ('pattern', (2, 3, Z, (1, 2, 3)), h, False), ('count', (2, 3, A + [(2, 3)], (1, 2, 3, 0)), h, False),
                             ('row-split', (2, 3, [(1, 1), (2, 2), (2, 3)], (1, 2, 3)), h, False),
                             ('row-pattern', (2, 3, [(1, 1), (2, 2), (2, 3)], (1, 2, 3)), h, False)):
        W = World(ck)
        a = S if tag == 'row-split' else A
        x = mk(W, 2, 3, a, [k(v) for v in (1, 2, 3)])
        y = mk(W, b[0], b[1], b[2], [k(v) for v in b[3]])
        r = W.call(fn, [('lref', y), k(th)], Ref(x, BASE))
        r = r if isinstance(r, B) else bool_of(r) if isinstance(r, Poly) else None
        ck.ob('compare:' + tag, ck.at(fn), None if r not in (TRUE, FALSE) else (r == TRUE) == want,
              'matrices compare equal exactly when shape, pattern and values (to the threshold) agree', repr(r))


def full(ck):
    """row overflow while registering is a fatal error"""
    fn = ck.p.method(SI, 'addEntry', 2)
    W = World(ck)
    o = W.make('general', 2, 5, 2)
    W.m(GEN, o, 'addEntry', 1, 1)
    W.m(GEN, o, 'addEntry', 1, 2)
    W.m(GEN, o, 'addEntry', 1, 1)
    ck.ob('full:room', ck.at(fn), not fatal(W), 'a row takes as many positions as declared, however often each is registered', repr(fatal(W))[:200])
    W.m(GEN, o, 'addEntry', 1, 3)
    ck.ob('full:overflow', ck.at(fn), bool(fatal(W)), 'registering more positions in a row than declared is a fatal error')


def run(ck):
    for n, (r, k, ent) in enumerate(GENERAL):
        ck.part('general%d' % n, matrix, False, r, k, ent, 'general%d' % n)
    for n, (r, ent) in enumerate(SYMMETRIC):
        ck.part('symmetric%d' % n, matrix, True, r, r, ent, 'symmetric%d' % n)
    ck.part('search', search, 13)
    ck.part('shared', shared)
    ck.part('resparse', resparse)
    ck.part('entries', entries)
    ck.part('compare', equal)
    ck.part('full', full)
    ck.assumptions = ['indices are in range', 'the symmetric product may skip vector entries below 1e-20 in size']
