"""History independence of element state: the state after an update as a term in the solutions seen so far."""
from elmodels import *
import c16
import c29


def numeric_fields(p, cls):
    """fields that hold floating point data (directly or inside math types)"""
    out = set()
    for f in p.all_fields(cls):
        if re.search(r'double|real|Vec<|Mat<|MatSym<|dVec|dMat', f['t']):
            out.add(f['n'])
    return out


def snapshot(el):
    """{location: term} of the numeric state"""
    names = numeric_fields(el.ck.p, el.cls)
    out = {}
    for path, v in el.st.objd('el').items():
        if not path or path[0] not in names or (isinstance(path[-1], str) and path[-1].startswith('$')):
            continue
        if isinstance(v, Poly):
            out[path] = v
        elif isinstance(v, Log):
            for ix in {i for e in v.ents for i in (e if isinstance(e, dict) else [e.idx])}:
                if len(ix) == path.count('[]') and all(isinstance(x, Poly) and x.is_const() for x in ix):
                    it = iter(ix)
                    full = tuple(('i', next(it)) if x == '[]' else x for x in path)
                    out[full] = el.read(full)
    return out


HIST = [('update(U); update(U)', ['u2']), ('update(U1); update(U)', ['u1', 'u2']), ('update(U1); assembly; update(U)', ['u1', 'K', 'u2'])]


def play(el, seq):
    for s in seq:
        if s == 'K':
            el.h.call('buildK')
        else:
            el.tag = {'u1': 1, 'u2': None}[s]
            el.h.call('update')
    el.tag = None


def one(ck, cls, order=None, withK=True):
    short = cls.split('::')[-1]
    md = c29.MODELS.get(short, [None])[0]
    t = c16.TABLE.get(short)
    nn = Harness(ck, cls).nn
    geo = md['geo'] if md else {3: 'tri', 2: 'bar', 4: 'quad', 8: 'hex', 6: 'wedge'}.get(nn)
    dofs = md['dofs'] if md else []
    tag = '%s/order%d' % (short, order) if order else short
    a = b = El(ck, cls, intorder=order)
    if withK:
        a.h.call('buildK')
    play(a, ['u2'])
    fn = ck.p.method(cls, 'update', 0)
    w = ck.at(fn)
    A = snapshot(a)
    q = dict(geo=geo, dofs=dofs, p=(md or {}).get('p'))
    for label, seq in HIST:
        if 'K' in seq and not withK:
            continue
        play(b, seq)
        Bs = snapshot(b)
        bad, und = None, None
        diffs = []
        for path in sorted(set(A) | set(Bs), key=repr):
            va, vb = A.get(path), Bs.get(path)
            # written by one history only: compare with what is read there otherwise
            va = Poly.atom(('init', ('el', path))) if va is None else va
            vb = b.read(path) if vb is None else vb
            if va != vb:
                diffs.append((path, va, vb))
        for E in c29.points(ck, tag, a, q, (1,), [x for d in diffs for x in d[1:]], tag=1) if diffs else ():
            for path, va, vb in diffs:
                x, y = E(va), E(vb)
                if E.opaque:
                    und = 'not interpreted: ' + ', '.join(show_any(z)[:60] for z in list(E.opaque)[:3])
                    break
                if not E.close(x, y, 25):
                    bad = '%s is %s, but %s when the solution is seen the first time' % (show_any(path), E.mp.nstr(y, 12), E.mp.nstr(x, 12))
                    break
        ck.ob('%s:%s' % (tag, label), w, None if und else bad is None, 'after an update every stored result is a function of the current solution alone', und or bad or '')
    # the results themselves, after a history
    res = RESULTS.get(short)
    if res:
        for name, (paths, orc) in res.items():
            bad, und = None, None
            got = [b.read(pth) for pth in paths]
            for E in c29.points(ck, tag + ':' + name, b, q, (1,), got, tag=1):
                want = orc(b, E)
                sc = max(abs(x) for x in want)
                for k, wv in enumerate(want):
                    g = E(got[k])
                    if E.opaque:
                        und = repr(list(E.opaque)[:2])[:200]
                    elif not E.close(g, wv, 7 if short == 'ElementINTER3' else 20, sc):
                        bad = bad or '%s[%d] is %s, should be %s' % (name, k, E.mp.nstr(g, 12), E.mp.nstr(wv, 12))
            ck.ob('%s:%s' % (short, name), w, None if und else bad is None, 'the stored %s is that of the current solution' % name, bad or und or '')


def D(n, k):
    return [(n, 'data', ('i', Poly.const(i))) for i in range(k)]


def r_truss(el, E):
    X = E.X
    d = [X[1][k] - X[0][k] for k in range(3)]
    L2 = sum(x * x for x in d)
    u = c16.u_of(el, None, E, 3)
    return [E.var(('prm', 'E')) * sum((u[1][k] - u[0][k]) * d[k] for k in range(3)) / L2]


def r_tri(stress):
    def f(el, E):
        G, area = tri_grad(E, E.X)
        e = strain(E, G, c16.u_of(el, None, E, 2))
        if not stress:
            return [e[0][0], e[1][1], 2 * e[0][1]]
        lam, mu = lame3(E, E.var(('prm', 'E')), E.var(('prm', 'my')))
        s = hooke(E, e, 2 * lam * mu / (lam + 2 * mu), mu)
        return [s[0][0], s[1][1], s[0][1]]
    return f


def r_tet(fn):
    def f(el, E):
        s = fn(el, E, None)          # storage order XX XY XZ YY YZ ZZ -> stored order XX YY ZZ XY YZ XZ
        return [s[i] for i in (0, 3, 5, 1, 4, 2)]
    return f


RESULTS = {
    'ElementTRUSS3': {'S': ([('S',)], r_truss)},
    'ElementTRIANGLE4': {'strains': (D('strains', 3), r_tri(False)), 'stress': (D('stress', 3), r_tri(True))},
    'ElementTETRA0': {'strains': (D('strains', 6), r_tet(c16.q_tetstrain)), 'stress': (D('stress', 6), r_tet(c16.q_tetstress))},
    'ElementTETRA1': {'flux': (D('flux', 3), lambda el, E: c16.q_gradt(-1, True)(el, E, None))},
    'ElementINTER0': {'strains': (D('strains', 3), lambda el, E: [c16.q_jump0(el, E, None)[k] for k in (0, 3, 5)])},
    'ElementINTER3': {'strains': (D('strains', 3), lambda el, E: [c16.q_inter3(False)(el, E, None)[k] for k in (0, 3, 5)]),
                      'stress': (D('stress', 3), lambda el, E: [c16.q_inter3(True)(el, E, None)[k] for k in (0, 3, 5)])},
}


def tangent(ck, cls):
    """elements whose assembly uses the solution: what they assemble after an update does not depend on earlier solutions"""
    short = cls.split('::')[-1]
    md = c29.MODELS[short][0]
    order = 1      # one integration point: every point goes through the same loop body
    a, b = El(ck, cls, intorder=order), El(ck, cls, intorder=order)
    a.h.call('update')
    b.tag = 1
    b.h.call('update')
    b.h.call('buildK')
    b.tag = None
    b.h.call('update')
    oa, ob = a.assemble(), b.assemble()
    lst = [x for o in (oa, ob) for k in 'KF' for l in o[k].values() for x in l]
    bad, und = None, None
    for E in c29.points(ck, short + ':assembly', a, md, (1,), [v for _, v in lst], [g for gs, _ in lst for g in gs], tag=1):
        for k in 'KF':
            for d in sorted(set(oa[k]) | set(ob[k]), key=repr):
                x, y = total(E, oa[k].get(d, [])), total(E, ob[k].get(d, []))
                if not E.close(x, y, 25):
                    bad = bad or 'entry %s of %s is %s, but %s without the history' % (show_any(tuple(d) if isinstance(d, frozenset) else d)[:80], k, E.mp.nstr(y, 12), E.mp.nstr(x, 12))
        if E.opaque:
            und = repr(list(E.opaque)[:2])[:200]
    ck.ob(short + ':assembly', ck.at(a.asm), None if und else bad is None, 'what is assembled after an update depends on the current solution alone', bad or und or '')


def run(ck):
    for cls in concrete_elements(ck.p):
        short = cls.split('::')[-1]
        fn = ck.p.method(cls, 'update', 0)
        if fn is None or not fn.get('body'):
            continue
        big = c29.MODELS.get(short, [{}])[0]
        if not big.get('order'):
            ck.part(short, lambda ck, cls=cls: one(ck, cls))
        else:      # isoparametric: several points for the update, one point when assemblies lie between updates
            ck.part(short, lambda ck, cls=cls: one(ck, cls, 2, big['geo'] != 'hex'))
            if big['geo'] == 'hex':
                ck.part(short, lambda ck, cls=cls: one(ck, cls, 1))
        if c29.MODELS.get(short, [{}])[0].get('nl'):
            ck.part(short + ':assembly', lambda ck, cls=cls: tangent(ck, cls))
    ck.assumptions.append('real arithmetic; term identities tested at random points with 60 digits')
