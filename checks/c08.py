"""Assembly routing: which global entry receives each local value, from the element's assembly templates to the storage's matrices."""
import re
from elements import *
import storage
import eigen


def same_or_zero_guard(ev, val):
    gs = storage.real_guards(ev)
    return all(g == neg(eq(val)) or g == neg(eq(-val)) for g in gs) if gs else True


# ---------------------------------------------------------------- FEStorage::addValueX
def routing(ck):
    fes = 'nla3d::FEStorage'

    def arg(i):
        return Poly.atom(('init', ('@%d' % i, ())))

    def node_eq(r, n, d):
        return Poly.atom(('init', (('*', ('dof', 'nodeDofs', n, d)), ('eqNumber',))))
    sets = [('addValue' + k, 'mat' + k, n) for k in 'KCM' for n in (5, 3)] + [('addValueMPC', 'matK', 4), ('addValueMPC', 'matK', 3)] + \
           [('addValueF', 'vecF', 3), ('addValueF', 'vecF', 2), ('addValueR', 'vecR', 3), ('addValueR', 'vecR', 2)]
    for m, target, n in sets:
        key = '%s/%d' % (m, n)

        def one(ck):
            fn = ck.p.method(fes, m, n)
            if fn is None or not fn.get('body'):
                raise AnalysisBroken(key)
            r = storage.analyse(ck, m, n, fn=fn)
            w = ck.at(fn)
            evs = [e for e in r.ev if e.name in ('bm:addValue', 'vec:write')]
            other = [e for e in r.ev if e.name.startswith(('bm:', 'vec:')) and e.name not in ('bm:addValue', 'vec:write')]
            # equation number of a nodal DoF: whatever getNodeDofEqNumber returns for these arguments
            q = storage.analyse(ck, 'getNodeDofEqNumber', 2)

            def eqn(i, j):
                m0 = {('init', ('@0', ())): arg(i), ('init', ('@1', ())): arg(j)}
                return subst(subst(q.ret, {k: Poly.atom(('tmp', k)) for k in m0}), {('tmp', k): v for k, v in m0.items()})
            if n == 5:
                idx = [eqn(0, 1), eqn(2, 3)]
            elif m == 'addValueMPC':
                idx = [arg(0), eqn(1, 2)] if n == 4 else [arg(0), arg(1)]
            elif target.startswith('mat'):
                idx = [arg(0), arg(1)]
            else:
                idx = [eqn(0, 1)] if n == 3 else [arg(0)]
            val = arg(n - 1)
            if not target.startswith('mat'):
                idx = [idx[0] - 1]
            ok = len(evs) == 1 and not other and evs[0].args[0] == target and not evs[0].loops and same_or_zero_guard(evs[0], val)
            if ok and target.startswith('mat'):
                a = [r.I.num(x) for x in evs[0].args[1:3]]
                ok = (a == idx or a == idx[::-1]) and r.I.num(evs[0].args[3]) == val
            elif ok:
                ok = evs[0].args[1] == idx[0] and P(evs[0].args[2]) - P(evs[0].args[3]) == val
            ck.ob(key, w, ok, 'adds its value once, at %s, to %s and to nothing else' % (', '.join(show(x) for x in idx), target), repr(evs + other)[:400])
        ck.part(key, one)


# ---------------------------------------------------------------- assembly functions
def dofkey(I, x):
    a = x.single_atom() if isinstance(x, Poly) else None
    return a


def collect(h, evs, kind):
    """events -> {unordered pair of DoFs or single DoF: sum}"""
    out = {}
    for e in evs:
        a = e.args
        if e.loops:
            return None, 'symbolic loop at line %s' % e.line
        if kind == 'F':
            if len(a) == 3:
                k, v = ('eqN', a[0], a[1]), a[2]
            else:
                k, v = a[0].single_atom(), a[1]
        elif len(a) == 5:
            k, v = frozenset([('eqN', a[0], a[1]), ('eqN', a[2], a[3])]), a[4]
        else:
            k, v = frozenset([a[0].single_atom(), a[1].single_atom()]), a[2]
        gs = [g for g in e.guards if g not in (TRUE,)]
        if any(g != neg(eq(v)) for g in gs if not storage.notnull_only([g])):
            return None, 'line %s depends on %r' % (e.line, gs)
        out[k] = out.get(k, ZERO_) + v
    return out, ''


def compare_maps(ck, key, where, got, want, why, txt):
    if got is None:
        ck.ob(key, where, None, txt, why)
        return
    for k in sorted(set(got) | set(want), key=repr):
        g, w = got.get(k, ZERO_), want.get(k, ZERO_)
        r = compare(g, w)
        if r is not True:
            ck.ob(key, where, r, txt, 'for %s: receives %s, should receive %s' % (show_any(tuple(k) if isinstance(k, frozenset) else k), show(g)[:200], show(w)[:200]))
            return
    ck.ob(key, where, True, txt)


def symval(I, st, o, t, t0):
    """symbolic contents of a matrix / vector argument; accessor for its mathematical entries"""
    m = re.search(r'MatSym<(\d+)>', t)
    if m:
        n = int(m.group(1))

        def at(i, j):
            fn = I.prog.method(strip_cv(strip_ref(t)), 'comp', 2)
            r = I.inline(st, fn, [Poly.const(i), Poly.const(j)], Ref((o, ()), strip_cv(strip_ref(t))), None)
            return P(I.read(st, r.loc, 'double') if isinstance(r, (Ref, RetLoc)) else r)
        return n, at
    m = re.search(r'::Mat<(\d+), *(\d+)>', t)
    if m:
        n = int(m.group(1))
        return n, lambda i, j: P(I.read(st, (o, ('data', ('i', Poly.const(i)), 'data', ('i', Poly.const(j)))), 'double'))
    m = re.search(r'::Vec<(\d+)>', t)
    if m:
        return int(m.group(1)), lambda i: P(I.read(st, (o, ('data', ('i', Poly.const(i)))), 'double'))
    return None, None


def by_nnodes(ck):
    out = {}
    for c in concrete_elements(ck.p):
        try:
            out.setdefault(Harness(ck, c).nn, c)
        except AnalysisBroken:
            pass
    return out


def tmpl(ck, fn, cls):
    """generic assembly template: matrix (and vector) argument and the list of nodal DoFs"""
    ts = [q['t'] for q in fn['params']]
    kind = fn['n'].split('::')[-1][-1]
    h = Harness(ck, cls)
    I, st = h.I, h.st
    I.name_limit = 0
    args = [None] * len(ts)
    if ts[0].startswith('Eigen'):
        dim = 2
        n = h.nn * dim
        sy = {}
        for i in range(n):
            for j in range(n):
                sy[i, j] = Poly.atom(('sym', 'Ke', i, j))
        eigen.put(I, st, ('@0', ()), [[sy[i, j] for j in range(n)] for i in range(n)])
        args[0] = Ref(('@0', ()), ts[0])
        acc = [(n, lambda i, j: sy[min(i, j), max(i, j)])]
    else:
        acc = []
        for i, t in enumerate(ts[:-1]):
            args[i] = ('lref', ('@%d' % i, ()))
            acc.append(symval(I, st, '@%d' % i, t, None))
        n = acc[0][0]
        if n % h.nn:
            return False
        dim = n // h.nn
    dofs = [Poly.atom(('sym', 'dof', k)) for k in range(dim)]
    lo = ('dofs', ())
    for k, d in enumerate(dofs):
        I.write(st, (lo[0], (('i', Poly.const(k)),)), d)
    st.objd('dofs')[('$size',)] = Poly.const(dim)
    args[-1] = Ref(lo, 'std::initializer_list<nla3d::Dof::dofType>')
    ck.run(I, fn, st, Ref(('el', ()), cls), args)
    key = '%s<%s>%s' % (fn['n'].split('::')[-1], n, '+F' if len(ts) == 3 else '/Eigen' if ts[0].startswith('Eigen') else '')
    names = [('eqN', node(i), d) for i in range(h.nn) for d in dofs]
    want = {}
    for a in range(n):
        for b in range(a, n):
            want[frozenset([names[a], names[b]])] = acc[0][1](a, b)
    got, why = collect(h, h.events('add' + kind), kind)
    compare_maps(ck, key, ck.at(fn), got, want, why, 'every entry (a,b) of the local matrix is added exactly once to matrix %s at the equations of local DoFs a and b' % kind)
    rest = [e for k in 'KCM' if k != kind for e in h.events('add' + k)] + h.events('addR') + (h.events('addF') if len(ts) == 2 else [])
    ck.ob(key + ':only', ck.at(fn), not rest, 'nothing else is changed', repr(rest)[:300])
    if len(ts) == 3:
        got, why = collect(h, h.events('addF'), 'F')
        compare_maps(ck, key + ':F', ck.at(fn), got, {names[a]: acc[1][1](a) for a in range(n)}, why, 'entry a of the local force vector is added exactly once at the equation of local DoF a')
    return True


def mixed(ck, fn, cls):
    """assembly of the displacement-pressure elements: (Kuu,Kup,Kpp,Fu,Fp) or one matrix and vector over all DoFs"""
    ts = [q['t'] for q in fn['params']]
    h = Harness(ck, cls)
    I, st = h.I, h.st
    I.name_limit = 0
    args = [('lref', ('@%d' % i, ())) if is_ref(t) else None for i, t in enumerate(ts)]
    acc = [symval(I, st, '@%d' % i, t, None) for i, t in enumerate(ts)]
    e = dof_enum(ck.p)
    el = I.num(h.call('getElNum'))
    st, r, vals = ck.run(I, fn, st, Ref(('el', ()), cls), args)
    key = '%s::%s' % (cls.split('::')[-1], fn['n'].split('::')[-1])
    if len(ts) == 5 and acc[0][0] and acc[1][0] and acc[3][0] and ts[2] == ts[4] == 'double':
        n = n0 = acc[0][0]
        pp, fp = vals[2], vals[4]
        K = lambda a, b: acc[0][1](a, b) if b < n0 else acc[1][1](a) if a < n0 else pp
        F = lambda a: acc[3][1](a) if a < n0 else fp
        n += 1
    elif len(ts) == 2 and acc[0][0] and acc[1][0]:
        n = acc[0][0]
        K, F = acc[0][1], acc[1][1]
    else:
        raise AnalysisBroken('signature of ' + fn['n'])
    dim = (n - 1) // h.nn
    names = [('eqN', node(i), Poly.const(e[d])) for i in range(h.nn) for d in ('UX', 'UY', 'UZ')[:dim]] + [('eqE', el, Poly.const(e['HYDRO_PRESSURE']))]
    got, why = collect(h, h.events('addK'), 'K')
    if got is not None and len(names) != n:
        raise AnalysisBroken('number of DoFs in ' + key)
    want, alt = {}, {}
    for a in range(n):
        for b in range(a, n):
            k = frozenset([names[a], names[b]])
            want[k] = P(K(a, b))
            # a full square matrix is symmetric, either triangle may be used
            if len(ts) == 2 and got is not None and got.get(k) == P(K(b, a)):
                want[k] = P(K(b, a))
    compare_maps(ck, key, ck.at(fn), got, want, why, 'every entry of the local matrix is added exactly once at the equations of its DoFs')
    rest = [x for k in 'CM' for x in h.events('add' + k)] + h.events('addR')
    ck.ob(key + ':only', ck.at(fn), not rest, 'nothing else is changed', repr(rest)[:300])
    got, why = collect(h, h.events('addF'), 'F')
    compare_maps(ck, key + ':F', ck.at(fn), got, {names[a]: P(F(a)) for a in range(n)}, why, 'entry a of the local force vector is added exactly once at the equation of DoF a')


def assembly(ck):
    nn = by_nnodes(ck)
    els = set(ck.p.derived(EL)) | {EL}
    done = set()
    for fn in sorted((f for f in ck.p.fns.values() if f.get('cls') in els and re.match(r'assemble\w*$', f['n'].split('::')[-1]) and f.get('body') and f['file'].startswith(ck.p.repo)), key=lambda f: f['id']):
        ts = [q['t'] for q in fn['params']]
        if fn['cls'] == EL and 'initializer_list' in ts[-1]:
            m = re.search(r'MatSym<(\d+)>', ts[0])
            used = 0
            for k in sorted(nn):
                if m is None and k != 3:
                    continue
                if m is not None and (int(m.group(1)) % k or not 1 <= int(m.group(1)) // k <= 3):
                    continue
                if used == 2:
                    break
                used += 1
                ck.part('%s<%s>' % (fn['n'], m.group(1) if m else 'Eigen'), lambda ck, fn=fn, c=nn[k]: tmpl(ck, fn, c))
        elif fn['cls'] in concrete_elements(ck.p):
            ck.part(fn['n'], lambda ck, fn=fn: mixed(ck, fn, fn['cls']))


def run(ck):
    routing(ck)
    assembly(ck)
    ck.assumptions.append('the local matrix of PLANE41 is symmetric (checked under C29), so either triangle may be assembled')
