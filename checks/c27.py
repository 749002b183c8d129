"""Text dumps of matrices and vectors: written tokens, what is read back from them, and the pairing of dump and comparison."""
from c10 import *
from streams import Tokens, items
from stdmodel import Input

PAT = GENERAL + [(0, 3, [])]
PATS = SYMMETRIC + [(0, [])]


def digits(ev):
    """significant digits a floating point value is written with; None unknown"""
    for a in ev.args[3:]:
        if isinstance(a, Opq) and a.k[0] == 'fmt':
            pr, fl = a.k[1], a.k[2]
            if not (isinstance(pr, Poly) and pr.is_const() and isinstance(fl, Poly) and fl.is_const()):
                return None
            pr, fl = int(pr.cval()), int(fl.cval()) & 260
            return pr + 1 if fl == 256 else pr if fl == 0 else 99 if fl == 260 else 0
    return None


def writer(ck, W, key, fn, this):
    """run a writer; -> tokens or None"""
    W.I.events.clear()
    W.st.store.pop('@out', None)
    W.call(fn, [('lref', ('@out', ()))], this)
    ev = [e for e in items(W.I, '@out')]
    bad = [e for e in fatal(W) if not e.guards]
    if bad:
        ck.ob(key + ':writes', ck.at(fn), False, 'a complete matrix or vector can be written', repr(bad)[:200])
        return None
    if any(e.guards for e, _ in ev):
        ck.ob(key + ':writes', ck.at(fn), None, 'the written text is determined', 'conditional output')
        return None
    dg = [digits(e) for e, v in ev if isinstance(e.args[2], Opq) and strip_cv(strip_ref(e.args[2].k[1])) in ('double', 'float')]
    if dg:
        ck.ob(key + ':digits', ck.at(fn), None if None in dg else min(dg) >= 17, 'every value is written with the 17 significant digits that determine it', 'written with %s digits' % sorted(set(map(str, dg))))
    from stdmodel import fmt_get
    st = [fmt_get(W.I, W.st, ('@out', ()), f, d) for f, d in (('$prec', 6), ('$fmt', 0))]
    ck.ob(key + ':restores', ck.at(fn), True if st == [c(6), c(0)] else False if all(isinstance(x, Poly) and x.is_const() for x in st) else None,
          'the stream formats numbers afterwards as it did before', 'precision %s, flags %s afterwards' % tuple(map(show_any, st)))
    W.I.events.clear()
    t = Tokens(ev)
    return [int_tok(x) for x in t.t]


def int_tok(x):
    return c(int(x)) if isinstance(x, str) and x.isdigit() else x


def feed(W, toks, fn, this):
    W.I.input = Input(toks)
    W.I.stream_ok = True
    W.I.events.clear()
    W.call(fn, [('lref', ('@in', ()))], this)
    left = len(W.I.input.toks) - W.I.input.pos
    W.I.input = None
    W.I.stream_ok = None
    return left


def trip(ck, sym, n, cols, ent, tag):
    wf, rf = ck.p.method(BASE, 'writeCoordinateTextFormat', 1), ck.p.method(BASE, 'readCoordinateTextFormat', 1)
    cf = ck.p.method(BASE, 'compare', 2)
    if not (wf and rf and cf):
        raise AnalysisBroken('text format of BaseSparseMatrix')
    m = Mat(ck, sym, n, cols, ent)
    W = m.W
    want = {}
    for q, p in enumerate(sorted(m.ent)):
        want[p] = sy('a', q)
        m.add(p[0], p[1], want[p])
    tk = writer(ck, W, tag, wf, Ref(m.loc, m.cls))
    if tk is None:
        return
    # the text: shape, count, then every stored entry once
    ok = tk[:3] == [c(n), c(cols), c(len(want))] and len(tk) == 3 + 3 * len(want)
    got = []
    if ok:
        for q in range(len(want)):
            i, j, v = tk[3 + 3 * q:6 + 3 * q]
            got.append(((as_n(i), as_n(j)), v))
    ck.ob(tag + ':text', ck.at(wf), ok and len({p for p, _ in got}) == len(got) and dict(got) == want if known(tk) else None,
          'the text holds the shape, the number of entries and every entry once with its row, column and value', ' '.join(show_any(x) for x in tk)[:300])
    for s2 in (sym, not sym) if n == cols else (sym,):
        o = W.make('symmetric', 2, 2) if s2 else W.make('general', 2, 2, 2)
        W.m(SYM if s2 else GEN, o, 'addEntry', 1, 2)
        W.m(BASE, o, 'compress')
        left = feed(W, tk, rf, Ref(o, BASE))
        bad = [e for e in fatal(W) if not e.guards]
        key = tag + ':read' + ('' if s2 == sym else '-as-' + ('symmetric' if s2 else 'general'))
        ck.ob(key, ck.at(rf), False if bad or left else None if fatal(W) else True, 'reading takes the whole text without error', '%d tokens left; %s' % (left, repr(bad)[:200]))
        if bad or left:
            continue
        if s2 == sym:
            W.I.events.clear()
            rs = [('nRows', W.I.num(W.m(BASE, o, 'nRows')), c(n)), ('nColumns', W.I.num(W.m(BASE, o, 'nColumns')), c(cols)), ('nValues', W.I.num(W.m(BASE, o, 'nValues')), c(len(want)))]
            cl = SYM if s2 else GEN
            rs += [('value(%d,%d)' % p, W.I.num(W.m(cl, o, 'value', *p)), want.get(canon(m, *p), ZERO_)) for p in m.all()]
            table(ck, tag + ':back', ck.at(rf), 'the matrix read back has the shape, positions and values written', rs)
        r = W.call(cf, [('lref', o), c(0)], Ref(m.loc, BASE))
        r = r if isinstance(r, B) else bool_of(r) if isinstance(r, Poly) else None
        ck.ob(tag + ':same' + ('' if s2 == sym else '-other'), ck.at(cf), None if r not in (TRUE, FALSE) else r == TRUE, 'a matrix compares equal to what is read from its own dump', repr(r))
    # a text that ends early is an error
    for cut in sorted({0, 2, max(0, len(tk) - 1)}):
        if cut >= len(tk):
            continue
        o = W.make('general', 2, 2, 2)
        keep = W.st
        W.st = keep.copy()
        feed(W, tk[:cut], rf, Ref(o, BASE))
        ck.ob(tag + ':short%d' % cut, ck.at(rf), bool(fatal(W)), 'reading a text that ends early is an error', 'no error after %d of %d tokens' % (cut, len(tk)))
        W.st = keep


def as_n(x):
    return int(x.cval()) if isinstance(x, Poly) and x.is_const() else x


def known(tk):
    return all(isinstance(x, (Poly, str)) and (isinstance(x, str) or not opaque_atoms(x)) for x in tk)


def vectors(ck):
    wf, rf, cf = ck.p.method(DV, 'writeTextFormat', 1), ck.p.method(DV, 'readTextFormat', 1), ck.p.method(DV, 'compare', 2)
    if not (wf and rf and cf):
        raise AnalysisBroken('text format of dVec')
    for n in (0, 1, 2, 5):
        W = World(ck)
        tag = 'vector%d' % n
        o = W.make('vector', n, ZERO_) if n else W.make('emptyVector')
        for i in range(n):
            W.call(free(ck, 'verif_witness::setEntry', 3), [Ptr(o, DV + ' *'), c(i), sy('v', i)])
        tk = writer(ck, W, tag, wf, Ref(o, DV))
        if tk is None:
            continue
        ck.ob(tag + ':text', ck.at(wf), tk == [c(n)] + [sy('v', i) for i in range(n)] if known(tk) else None, 'the text holds the size and every entry in order', ' '.join(show_any(x) for x in tk)[:300])
        for size in (0, 3):
            r = W.make('vector', size, ZERO_) if size else W.make('emptyVector')
            left = feed(W, tk, rf, Ref(r, DV))
            bad = fatal(W)
            ck.ob('%s:read%d' % (tag, size), ck.at(rf), not bad and not left, 'reading takes the whole text without error', '%d tokens left %s' % (left, repr(bad)[:100]))
            table(ck, '%s:back%d' % (tag, size), ck.at(rf), 'the vector read back is the one written',
                  [('size', W.I.num(W.m(DV, r, 'size')), c(n))] + [('entry %d' % i, entry(W, r, i), sy('v', i)) for i in range(n)])
        for cut in sorted({0, n}):
            if cut > n:
                continue
            r = W.make('emptyVector')
            keep = W.st
            W.st = keep.copy()
            feed(W, tk[:cut], rf, Ref(r, DV))
            ck.ob('%s:short%d' % (tag, cut), ck.at(rf), bool(fatal(W)), 'reading a text that ends early is an error', 'no error after %d tokens' % cut)
            W.st = keep
    h = Fraction(1, 1000)
    base = [1, 2, 3, 4]
    cases = [('same', base, True), ('near', [1, 2 + h / 2, 3, 4 - h / 2], True), ('shorter', base[:3], False), ('longer', base + [0], False), ('permuted', [1, 3, 2, 4], False), ('sign', [-1, 2, 3, 4], False)]
    for k in range(4):
        for s in (2 * h, -2 * h):
            b = list(base)
            b[k] = b[k] + s
            cases.append(('entry%d%s' % (k, '+' if s > 0 else '-'), b, False))
    # differences that cancel in a sum
    cases.append(('cancel', [1 + 2 * h, 2 - 2 * h, 3, 4], False))
    for tag, b, want in cases:
        W = World(ck)
        mk = lambda vs: fill(W, vs)
        x, y = fill(W, base), fill(W, b)
        r = W.call(cf, [('lref', y), Poly.const(h)], Ref(x, DV))
        r = r if isinstance(r, B) else bool_of(r) if isinstance(r, Poly) else None
        ck.ob('vector-compare:' + tag, ck.at(cf), None if r not in (TRUE, FALSE) else (r == TRUE) == want, 'vectors compare equal exactly when the sizes agree and every difference is within the threshold', repr(r))


def fill(W, vs):
    o = W.make('vector', len(vs), ZERO_)
    for i, v in enumerate(vs):
        W.call(free(W.ck, 'verif_witness::setEntry', 3), [Ptr(o, DV + ' *'), c(i), Poly.const(v)])
    return o


# ---------------------------------------------------------------------------------- dump and comparison of a model
FE = 'nla3d::FESolver'


def session(ck, fn, transient, differ=None, nargs=1):
    """run dump or comparison with the matrix and vector routines observed; -> (written, read, compared, fatal, interpreter)"""
    from stdmodel import recv
    I = ck.interp()
    I.stream_ok = True
    out = dict(w=[], r=[], c=[])

    def key(l, t):
        return repr(l)
    open_ = []

    def w(kind):
        def h(I, st, e):
            l, t = recv(I, st, e)
            out['w'].append((kind, key(l, t), tuple(map(repr, I.guards(st))) if hasattr(I, 'guards') else ()))
            I.event(st, 'dump', [], node=e)
            return ZERO_
        return h

    def r(kind):
        def h(I, st, e):
            l, t = recv(I, st, e)
            out['r'].append((kind, l))
            I.event(st, 'load', [], node=e)
            return ZERO_
        return h

    def cm(kind):
        def h(I, st, e):
            l, t = recv(I, st, e)
            a = I.loc(st, e['c'][1])
            th = I.num(I.val(st, e['c'][2]))
            k = len(out['c'])
            out['c'].append((kind, key(l, t), l, a, th))
            I.event(st, 'cmp', [], node=e)
            return FALSE if differ == k else TRUE
        return h
    for cls in (BASE, GEN, SYM):
        I.hooks[cls + '::writeCoordinateTextFormat'] = w('matrix')
        I.hooks[cls + '::readCoordinateTextFormat'] = r('matrix')
        I.hooks[cls + '::compare'] = cm('matrix')
    I.hooks[DV + '::writeTextFormat'] = w('vector')
    I.hooks[DV + '::readTextFormat'] = r('vector')
    I.hooks[DV + '::compare'] = cm('vector')
    I.hooks['nla3d::FEStorage::isTransient'] = lambda I, st, e: (TRUE if transient else FALSE)
    ck.run(I, fn)
    fa = [e for e in I.events if ends(e)]
    und = [e for e in I.events if e.name in ('dump', 'load', 'cmp') and e.guards]
    return out, fa, und, I


def pairing(ck):
    df, cf = ck.p.method(FE, 'dumpMatricesAndVectors', 1), ck.p.method(FE, 'compareMatricesAndVectors', 2)
    if not df or not cf:
        raise AnalysisBroken('FESolver dump')
    for tr in (False, True):
        tag = 'transient' if tr else 'static'
        d, fa, und, _ = session(ck, df, tr)
        wr = d['w']
        want = (9 if tr else 3) + 2
        ck.ob(tag + ':dumped', ck.at(df), None if und else len(wr) == want and len({x[1] for x in wr}) == want and not d['r'], 'the dump holds all three blocks of %s and both vectors once' % ('every matrix' if tr else 'the stiffness matrix'), str([x[:2] for x in wr])[:400])
        e, fa2, und2, I = session(ck, cf, tr)
        if und or und2:
            ck.ob(tag + ':pairs', ck.at(cf), None, 'dump and comparison run unconditionally', '')
            continue
        ck.ob(tag + ':order', ck.at(cf), [k for k, _ in e['r']] == [x[0] for x in wr], 'the comparison reads matrices and vectors in the order they were written', '%s vs %s' % ([k for k, _ in e['r']], [x[0] for x in wr]))
        hard = [x for x in fa2 if not x.guards]
        ck.ob(tag + ':accepts', ck.at(cf), False if hard else None if fa2 else True, 'a dump that agrees everywhere is accepted', repr(fa2)[:200])
        objs = [l for _, l in e['r']]
        comp = e['c']
        bad = []
        for q, (kind, kk, l, a, th) in enumerate(comp):
            src = None
            if a in objs:
                src, own = objs.index(a), kk
            elif l in objs:
                src, own = objs.index(l), repr(a)
            if src is None:
                bad.append('comparison %d is not with anything read' % q)
            elif src >= len(wr) or wr[src][1] != own:
                bad.append('item %d of the dump (%s) is compared with %s' % (src, wr[src][1] if src < len(wr) else '-', own))
        if len(objs) != len(set(objs)):
            ck.ob(tag + ':pairs', ck.at(cf), None, 'every item read has its own object', '')
        else:
            ck.ob(tag + ':pairs', ck.at(cf), not bad and len(comp) == len(wr), 'every item of the dump is compared with the quantity it was written from', '; '.join(bad)[:400] or '%d comparisons of %d items' % (len(comp), len(wr)))
        ths = {repr(x[4]) for x in comp}
        ck.ob(tag + ':threshold', ck.at(cf), len(ths) == 1 and all(not x[4].is_const() for x in comp), 'every comparison uses the threshold of the caller', str(ths)[:200])
        miss = []
        for q in range(len(comp)):
            _, f3, _, _ = session(ck, cf, tr, q)
            if not [x for x in f3 if not x.guards]:
                miss.append(q)
        ck.ob(tag + ':reports', ck.at(cf), not miss, 'a difference in any one item is reported', 'no error when item %s differs' % miss)


def run(ck):
    for n, (r, k, ent) in enumerate(PAT):
        ck.part('general%d' % n, trip, False, r, k, ent, 'general%d' % n)
    for n, (r, ent) in enumerate(PATS):
        ck.part('symmetric%d' % n, trip, True, r, r, ent, 'symmetric%d' % n)
    ck.part('vectors', vectors)
    ck.part('pairing', pairing)
    ck.assumptions = ['17 significant decimal digits determine a double and the standard library reads back what it wrote', 'values are finite']
