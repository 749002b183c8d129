"""Value analysis of the applied loads and prescribed values at every solution of an equation system."""
from solver import *


def idx_field(v, container, field):
    a = v.single_atom() if isinstance(v, Poly) else None
    if a is None or a[0] != 'init':
        return None
    o, path = a[1]
    if o == 'this' and len(path) == 3 and path[0] == container and path[2] == field and type(path[1]) is tuple:
        return path[1][1]
    return None


def is_value(v, container, k, T):
    """v == container[k].value * T"""
    want = Poly.atom(('init', ('this', (container, ('i', k), 'value')))) * T
    return v == want


def bcs(ck, cls, fn):
    name = cls.split('::')[-1]
    r = analyse(ck, cls, fn)
    nl = Poly.atom(('init', ('this', ('loads', '$size'))))
    nf = Poly.atom(('init', ('this', ('fixs', '$size'))))
    for ev in r.evs('solveEquations', 'substituteEquations'):
        st = ev.extra['state']
        T = current_time(r, ev)
        w = ck.evat(ev)
        for s in 'sl':
            v = resolve(r, r.seg(st, 'getR', s))
            ok = None if bad_vec(v) else False
            a = v.single_atom() if isinstance(v, Poly) else None
            if a is not None and a[0] == 'sum' and v == Poly.atom(a):
                n, body = a[-2], a[-1]
                b = body.single_atom() if isinstance(body, Poly) else None
                if n == nl and b is not None and body == Poly.atom(b) and b[0] == 'scat' and b[1] == s and b[2] == 'R':
                    node, dof, val = b[3]
                    k = idx_field(node, 'loads', 'node')
                    if k is not None and idx_field(dof, 'loads', 'node_dof') == k and k.single_atom() is not None \
                            and type(k.single_atom()) is tuple and k.single_atom()[0] == 'bv':
                        ok = is_value(val, 'loads', k, T)
            ck.ob('%s:loads-%s' % (name, s), w, ok,
                  'the applied forces are the sum over all loads of value * load factor at the DoF of the load (segment %s)' % s,
                  'applied: %s; load factor %s' % (show(v)[:400], show(T)))
        v = resolve(r, r.seg(st, 'getU', 'c'))
        ok = None if bad_vec(v) else False
        a = v.single_atom() if isinstance(v, Poly) else None
        if a is not None and v == Poly.atom(a) and a[0] == 'scat':
            _, s, base, idx, val, q, g = a
            idx = idx if isinstance(idx, Poly) else idx[0]
            e = (idx + 1).single_atom()
            if e is not None and e[0] == 'eqn' and idx + 1 == Poly.atom(e) and g == TRUE and len(q) == 1 and q[0][1] == nf:
                k = idx_field(e[1], 'fixs', 'node')
                ok = k is not None and idx_field(e[2], 'fixs', 'node_dof') == k and is_value(val, 'fixs', k, T) \
                    and (k == Poly.atom(q[0][0]) or k == nf - 1 - Poly.atom(q[0][0]))
        ck.ob('%s:fixs' % name, w, ok, 'every prescribed DoF takes value * load factor of its entry', 'constrained values: %s; load factor %s' % (show(v)[:400], show(T)))
    ck.assumptions = ['addValueR and getNodeDofEqNumber address the DoF they are given (decided by C06/C08)',
                      'assertions are not relied on']


def bad_vec(v):
    return bool(opaque_atoms(v, ('lh',))) or any(type(a) is tuple and a[0] == 'badvec' for a in atomset(v))


def adders(ck):
    for m, cont in (('addFix', 'fixs'), ('addLoad', 'loads')):
        fn = ck.p.method(FE, m, 3)
        if fn is None:
            raise AnalysisBroken('%s::%s' % (FE, m))
        I = ck.interp()
        st, ret, vals = ck.run(I, fn)
        sz = st.get_raw('this', (cont, '$size'))
        old = Poly.atom(('init', ('this', (cont, '$size'))))
        w = ck.at(fn)
        ck.ob(m + ':count', w, isinstance(sz, Poly) and sz == old + 1, 'one entry is appended', repr(sz))
        for f, a, t in (('node', 0, 'int'), ('node_dof', 1, 'int'), ('value', 2, 'double')):
            got = I.read(st, ('this', (cont, ('i', old), f)), t)
            ck.ob('%s:%s' % (m, f), w, compare(got, vals[a]), 'the appended entry stores argument %d in %s' % (a, f), '%s instead of %s' % (show_any(got), show_any(vals[a])))


def timefactor(ck):
    """the normalized load factor"""
    fn = ck.p.method(TC, 'getCurrentNormalizedTime', 0)
    if fn is None:
        raise AnalysisBroken('getCurrentNormalizedTime')


def run(ck):
    for cls, fn in solvers(ck):
        ck.part(cls.split('::')[-1], bcs, cls, fn)
    ck.part('adders', adders)
