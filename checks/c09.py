"""Block symmetric matrices: where entries of every index pair are stored, for two to four blocks."""
from world import *

M = 'nla3d::math::'
BS = M + 'BlockSparseSymMatrix<%d>'
SIZES = {2: ((2, 3), (1, 4), (3, 1), (1, 1), (0, 3), (2, 0)), 3: ((2, 3, 2), (1, 1, 3), (2, 0, 2)), 4: ((1, 2, 1, 2), (2, 1, 0, 1))}


def recorder(W):
    def rec(kind):
        def h(I, st, e):
            b = e['c'][0]
            l = I.deref(st, I.val(st, b)) if e.get('arrow') or is_ptr(b['t']) else I.loc(st, b)
            I.event(st, kind, [Ref(l, ''), ] + [I.val(st, a) for a in e['c'][1:]], node=e)
            return ZERO_
        return h
    for k in ('SparseMatrix', 'SparseSymMatrix'):
        W.I.hooks[M + k + '::addEntry'] = rec('entry')
        W.I.hooks[M + k + '::addValue'] = rec('value')


def blocks(W, cls, o, nb):
    out = {}
    for p in range(1, nb + 1):
        out[p, p] = W.m(cls, o, 'block', p).loc
        for q in range(1, nb + 1):
            if p != q:
                out[p, q] = W.m(cls, o, 'block', p, q).loc
    return out


def shape(W, loc):
    si = W.m(M + 'BaseSparseMatrix', loc, 'getSparsityInfo')
    si = W.field(si.loc, '$p', M + 'SparsityInfo *') if isinstance(si, Ref) else si
    if isinstance(si, Opq) and si.k[:1] == ('noreturn',):
        W.st.dead = False
        return [Poly.const(-1)] * 2, Ptr(None)
    if isinstance(si, Ptr) and si.loc is None:
        return [Poly.const(-1)] * 2, si
    if not isinstance(si, Ptr):
        raise AnalysisBroken('sparsity information of a block')
    return [W.I.num(W.m(M + 'BaseSparseMatrix', loc, f)) for f in ('nRows', 'nColumns')], si


def build(ck, nb, rows, tag):
    cls = BS % nb
    W = World(ck)
    fn = free(ck, 'verif_witness::block%d' % nb, nb + 1)
    o = W.make('block%d' % nb, *(rows + (5,)))
    w = next((ck.at(f) for f in ck.p.fns.values() if f.get('cls') == cls and f.get('ctor') and len(f['params']) == 2), ck.at(fn))
    B_ = blocks(W, cls, o, nb)
    ck.ob(tag + ':blocks', w, len(set(B_.values())) == nb * (nb + 1) // 2 and all(B_[p, q] == B_[q, p] for p, q in B_),
          'every unordered pair of blocks has a matrix of its own, the same for both orders', repr(sorted(B_.items(), key=repr))[:300])
    bad = []
    und = False
    for (p, q), l in B_.items():
        if p <= q:
            s, si = shape(W, l)
            r = [compare(s[0], Poly.const(rows[p - 1])), compare(s[1], Poly.const(rows[q - 1]))]
            if False in r:
                bad.append('block %d,%d is %s x %s' % (p, q, show(s[0]), show(s[1])))
            elif None in r:
                und = True
    ck.ob(tag + ':shape', w, False if bad else None if und else True, 'block (p,q) has the rows of block p and the columns of block q', '; '.join(bad))
    n = W.I.num(W.m(cls, o, 'nRows'))
    ck.ob(tag + ':rows', w, compare(n, Poly.const(sum(rows))), 'the number of rows is the sum over the blocks', show(n))
    return W, cls, o, B_


def route(ck, W, cls, o, B_, rows, pairs, tag):
    """every pair of global indices goes to one position of the right block"""
    recorder(W)
    at = {b: k for k, b in B_.items() if k[0] <= k[1]}
    off = [sum(rows[:i]) for i in range(len(rows) + 1)]
    blk = lambda i: next((k, i - off[k]) for k in range(len(rows)) if i <= off[k + 1])
    wE, wV = ck.at(ck.p.method(cls, 'addEntry', 2)), ck.at(ck.p.method(cls, 'addValue', 3))
    bad = {'entry': [], 'value': []}
    und = {'entry': [], 'value': []}
    v = Poly.atom(('sym', 'v'))
    for i, j in pairs:
        for kind, m, args in (('entry', 'addEntry', (i, j)), ('value', 'addValue', (i, j, v))):
            W.I.events.clear()
            W.m(cls, o, m, *args)
            ev = W.drain('entry', 'value')
            (p, a), (q, b) = sorted([blk(i), blk(j)])
            want = (p + 1, q + 1, a, b)
            if len(ev) != 1 or ev[0].guards or ev[0].loops or ev[0].name != kind:
                (und if any(e.guards for e in ev) else bad)[kind].append('(%d,%d): %s' % (i, j, [(e.name, e.args) for e in ev]))
                continue
            e = ev[0]
            l = e.args[0].loc
            x = [W.I.num(t) for t in e.args[1:3]]
            if not all(t.is_const() for t in x) or isinstance(l, Ite):
                und[kind].append('(%d,%d)' % (i, j))
                continue
            x = [int(t.cval()) for t in x]
            got = at.get(l, (None, None)) + tuple(sorted(x) if p == q else x)
            if p == q:
                want = want[:2] + tuple(sorted(want[2:]))
            if got != want:
                bad[kind].append('(%d,%d) goes to %s, should be %s' % (i, j, got, want))
            if kind == 'value' and W.I.num(e.args[3]) != v:
                bad[kind].append('(%d,%d) adds %s' % (i, j, show_any(e.args[3])))
    for kind, w in (('entry', wE), ('value', wV)):
        ck.ob('%s:%s' % (tag, kind), w, False if bad[kind] else None if und[kind] else True,
              'index pair (i,j) in either order is stored once, in the block of the two indices at their positions in it (%d pairs)' % len(pairs),
              '; '.join(bad[kind][:3] or und[kind][:3]))


def whole(ck, W, cls, o, B_, tag):
    """operations on the block matrix reach every block"""
    for m in ('zero', 'compress'):
        hit = []

        def h(I, st, e, m=m):
            b = e['c'][0]
            hit.append((I.deref(st, I.val(st, b)) if e.get('arrow') or is_ptr(b['t']) else I.loc(st, b), st.guards, tuple(I.loops)))
            return ZERO_
        for k in ('BaseSparseMatrix', 'SparseMatrix', 'SparseSymMatrix'):
            W.I.hooks[M + k + '::' + m] = h
        W.m(cls, o, m)
        got = {l for l, g, lp in hit if not g and not lp}
        ok = set(B_.values()) <= got
        ck.ob('%s:%s' % (tag, m), ck.at(ck.p.method(cls, m, 0)), True if ok else (None if any(g or lp for l, g, lp in hit) else False), '%s() reaches every block' % m,
              'not reached: %s' % [k for k, l in B_.items() if l not in got])
    r = W.m(cls, o, 'isCompressed')
    ck.ob('%s:isCompressed' % tag, ck.at(ck.p.method(cls, 'isCompressed', 0)), True if r == TRUE or r == ONE_ else compare(P(W.I.num(r)), ONE_), 'a compressed matrix says so', show_any(r))


def like(ck, W, cls, o, B_, nb, rows, tag):
    o2 = W.make('like%d' % nb, Ptr(o, cls + ' *'))
    B2 = blocks(W, cls, o2, nb)
    w = next((ck.at(f) for f in ck.p.fns.values() if f.get('cls') == cls and f.get('ctor') and len(f['params']) == 1 and is_ptr(f['params'][0]['t'])), '-')
    bad = []
    for k in B_:
        a, b = shape(W, B_[k])[1], shape(W, B2[k])[1]
        if a != b:
            bad.append('block %s shares %s instead of %s' % (k, b, a))
    ck.ob(tag + ':sparsity', w, not bad, 'a matrix made from another shares its sparsity block by block', '; '.join(bad)[:300])
    n = W.I.num(W.m(cls, o2, 'nRows'))
    ck.ob(tag + ':rows', w, compare(n, Poly.const(sum(rows))), 'a matrix made from another has as many rows', show(n))
    ck.ob(tag + ':own', w, not (set(B2.values()) & set(B_.values())), 'a matrix made from another has blocks of its own')
    return o2, B2


def case(ck, nb, rows):
    tag = '%s' % 'x'.join(map(str, rows))
    W, cls, o, B_ = build(ck, nb, rows, tag)
    o2, B2 = like(ck, W, cls, o, B_, nb, rows, tag + ':like')
    n = sum(rows)
    pairs = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1)]
    route(ck, W, cls, o, B_, rows, pairs, tag)
    route(ck, W, cls, o2, B2, rows, pairs[::2], tag + ':like')
    whole(ck, W, cls, o, B_, tag)


def large(ck, nb, rows):
    """positions beyond 16 bits"""
    tag = 'large%d' % nb
    cls = BS % nb
    W = World(ck)
    if not {'rows_in_block', 'total_rows'} <= {f['n'] for f in ck.p.records[cls]['fields']}:
        raise AnalysisBroken('block sizes of %s' % cls)
    o = W.make('block%d' % nb, *((2,) * nb + (2,)))
    B_ = blocks(W, cls, o, nb)
    for i, r in enumerate(rows):
        W.I.write(W.st, (o[0], o[1] + ('rows_in_block', ('i', Poly.const(i)))), Poly.const(r))
    W.I.write(W.st, (o[0], o[1] + ('total_rows',)), Poly.const(sum(rows)))
    marks = sorted({max(1, sum(rows[:k]) + d) for k in range(nb) for d in (1, 2, 65535, 65536, 65537)} | {sum(rows[:k]) for k in range(1, nb + 1)})
    pairs = [(i, j) for i in marks for j in marks if i <= sum(rows) and j <= sum(rows)]
    route(ck, W, cls, o, B_, rows, pairs, tag)


def run(ck):
    for nb, sizes in SIZES.items():
        for rows in sizes:
            ck.part('x'.join(map(str, rows)), case, nb, rows)
    ck.part('large2', large, 2, (70000, 200000))
    ck.part('large3', large, 3, (65536, 70001, 70000))
    ck.assumptions = ['indices are in the range of the matrix']
