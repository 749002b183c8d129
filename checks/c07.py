"""Coverage analysis of the sparsity registration: loops and guards of every addEntry against the pairs assembly writes."""
from storage import *

TR = B(('test', ('init', ('this', ('transient',)))))


def ini(*path, o='this'):
    return ('init', (o, tuple(path)))


def run_init(ck):
    def setup(I):
        def ctor(I, st, e, loc):
            vs = []
            for a in e['c']:
                v = I.val(st, a)
                if isinstance(v, Ref) and ('init' == a['k'] or 'initializer_list' in a['t'] or arr(strip_cv(a['t']))):
                    n = I.read(st, (v.loc[0], v.loc[1] + ('$size',)), 'unsigned int')
                    if isinstance(n, Poly) and n.is_const():
                        v = tuple(I.read(st, (v.loc[0], v.loc[1] + (('i', Poly.const(i)),)), 'unsigned int') for i in range(int(n.cval())))
                vs.append(v)
            I.event(st, 'bm:ctor', [Ref(loc, BM)] + vs, node=e)
            return None
        I.hooks[BM + '::BlockSparseSymMatrix'] = ctor
    return analyse(ck, 'initSolutionData', 0, setup=setup)


# ---------------------------------------------------------------- shapes of the registered pairs
def dof_of(v):
    """(collection, entity index (0-based), offset poly) of coll.dofs[coll.dofPos[E] + off].eqNumber; or ('dof', coll, n, t)"""
    a = v.single_atom() if isinstance(v, Poly) else None
    if a is None or a[0] != 'init':
        return None
    o, path = a[1]
    if type(o) is tuple and o[0] == '*' and type(o[1]) is tuple and o[1][0] == 'dof' and path == ('eqNumber',):
        return ('one', o[1][1], o[1][2], o[1][3])
    if o == 'this' and len(path) == 4 and path[1] == 'dofs' and path[3] == 'eqNumber':
        coll, idx = path[0], path[2][1]
        for m in idx.atoms():
            if m[0] == 'init' and m[1][0] == 'this' and len(m[1][1]) == 3 and m[1][1][:2] == (coll, 'dofPos'):
                off = idx - Poly.atom(m)
                if m not in off.atoms():
                    return ('range', coll, m[1][1][2][1], off)
    return None


def count_of(coll, E):
    return Poly.atom(ini(coll, 'dofPos', ('i', E + 1))) - Poly.atom(ini(coll, 'dofPos', ('i', E)))


def elem_of_node(E):
    """(element index, local index) when E = elements[X]->nodes[j] - 1"""
    a = (E + 1).single_atom() if isinstance(E, Poly) else None
    if a is None or a[0] != 'init':
        return None
    o, path = a[1]
    if len(path) == 1 and type(path[0]) is tuple and type(o) is tuple and o[0] == '*' and o[1][1:] == (('nodes',),):
        x = o[1][0]
        if type(x) is tuple and x[0] == '*' and x[1][0] == 'this' and len(x[1][1]) == 2 and x[1][1][0] == 'elements':
            return x[1][1][1][1], path[0][1]
    return None


def topo_of(X):
    """node index n when X = topology[n][j] - 1; returns (n, j)"""
    a = (X + 1).single_atom() if isinstance(X, Poly) else None
    if a and a[0] == 'init' and a[1][0] == 'this' and len(a[1][1]) == 3 and a[1][1][0] == 'topology':
        return a[1][1][1][1], a[1][1][2][1]
    return None


class Shape:
    """what one addEntry call covers"""

    def __init__(self, e):
        self.e = e
        self.loops = dict(e.loops)
        self.used = set()
        self.why = ''

    def full(self, idx, want=None):
        """idx runs over a whole range with one of the loops; the range must be `want` if given"""
        for k, n in self.e.loops:
            if n is None or k in self.used:
                continue
            if idx == Poly.atom(k) or idx == n - 1 - Poly.atom(k):
                if want is None or n == want:
                    self.used.add(k)
                    return True
        return False

    def elem_source(self, X, node=None):
        """X runs over all elements ('all'), or all elements attached to a node that runs over all nodes ('topo', node)"""
        if self.full(X, size_of('elements')):
            return ('all', None)
        t = topo_of(X)
        if t:
            n, j = t
            kn = j.single_atom()
            if kn in self.loops and self.loops[kn] is not None and 'topology' in repr(self.loops[kn]) and repr(self.loops[kn]).rstrip(')').endswith('$size'):
                self.used.add(kn)
                if self.full(n, size_of('nodes')):
                    return ('topo', n)
        return None


def nnodes(X):
    return lambda n: isinstance(n, Poly) and '_shape_nnodes' in repr(n) and repr(X) in repr(n)


def classify(ck, e):
    """('ee'|'en'|'nn'|'mpc', verdict, guard, explanation)"""
    a, b = dof_of(e.args[1]), dof_of(e.args[2])
    s = Shape(e)
    # constraint rows
    for r, d in ((e.args[1], b), (e.args[2], a)):
        at = r.single_atom() if isinstance(r, Poly) else None
        if at and at[0] == 'init' and at[1][1] == ('eqNum',) and d and d[0] == 'one':
            return 'mpc', None, conj(real_guards(e)), ''
    if a is None or b is None or a[0] != 'range' or b[0] != 'range':
        return None
    kind = ''.join(sorted({'elementDofs': 'e', 'nodeDofs': 'n'}[x[1]] for x in (a, b)))
    # the DoF loops are complete
    ok = True
    if kind == 'ee' and a[2] == b[2]:
        X = a[2]
        c = count_of('elementDofs', X)
        f1 = s.full(a[3], c)
        f2 = s.full(b[3], c) if f1 else False
        if not f2:
            # triangle of the same range
            for p, q in ((a[3], b[3]), (b[3], a[3])):
                s.used = set()
                if s.full(p, c):
                    k = p.single_atom()
                    rest = q - p
                    if k and s.full(rest, c - p):
                        f2 = True
                        break
        src = s.elem_source(X) if f2 else None
        if not f2 or src is None:
            return kind, False, conj(real_guards(e)), 'loops %s do not cover every pair of DoFs of every element' % loops_str(e)
        return kind, True, conj(real_guards(e)), ''
    if kind == 'ee':
        return kind, False, conj(real_guards(e)), 'DoFs of different elements'
    for x in (a, b):
        if not s.full(x[3], count_of(x[1], x[2])):
            ok = False
    if not ok:
        return kind, False, conj(real_guards(e)), 'DoF loops %s are not complete' % loops_str(e)
    if kind == 'en':
        el, nd = (a, b) if a[1] == 'elementDofs' else (b, a)
        src = s.elem_source(el[2])
        if src is None:
            return kind, False, conj(real_guards(e)), 'element index %s does not cover all elements' % show_any(el[2])
        if src[0] == 'topo' and src[1] == nd[2]:
            return kind, True, conj(real_guards(e)), ''
        en = elem_of_node(nd[2])
        if en and en[0] == el[2] and any(k not in s.used and nnodes(en[0])(n) and s.full(en[1], n) for k, n in e.loops if n is not None):
            return kind, True, conj(real_guards(e)), ''
        return kind, False, conj(real_guards(e)), 'node %s does not cover the nodes of element %s' % (show_any(nd[2]), show_any(el[2]))
    # node x node
    ea, eb = elem_of_node(a[2]), elem_of_node(b[2])
    for p, q in ((a, b), (b, a)):
        ep, eq_ = elem_of_node(p[2]), elem_of_node(q[2])
        if ep is None:
            continue
        s2 = Shape(e)
        s2.used = set(s.used)
        if not any(n is not None and nnodes(ep[0])(n) and s2.full(ep[1], n) for k, n in e.loops):
            continue
        src = s2.elem_source(ep[0])
        if src is None:
            continue
        if src[0] == 'topo' and src[1] == q[2]:
            return kind, True, conj(real_guards(e)), ''
        if eq_ and eq_[0] == ep[0] and any(n is not None and nnodes(ep[0])(n) and s2.full(eq_[1], n) for k, n in e.loops):
            return kind, True, conj(real_guards(e)), ''
    return kind, False, conj(real_guards(e)), 'node indices %s, %s over loops %s do not cover all node pairs of all elements' % (show_any(a[2]), show_any(b[2]), loops_str(e))


def loops_str(e):
    return ', '.join('%s<%s' % (show_any(Poly.atom(k)), show_any(n)[:80] if n is not None else '?') for k, n in e.loops)


def pattern(ck):
    r = run_init(ck)
    ev = r.ev
    ents = [e for e in ev if e.name == 'bm:addEntry']
    comp = [e for e in ev if e.name == 'bm:compress']
    w = ck.at(r.fn)
    groups = {}
    und = []
    for e in ents:
        c = classify(ck, e)
        if c is None:
            und.append(e)
            continue
        groups.setdefault(c[0], []).append((e, c))
    for e in und:
        ck.ob('entry:form', ck.evat(e), None, 'every registered pair is of a known form', '%s, %s' % (show_any(e.args[1])[:150], show_any(e.args[2])[:150]))
    text = {'ee': 'every pair of DoFs of one element', 'en': 'every element DoF with every nodal DoF of that element',
            'nn': 'every pair of nodal DoFs of every two nodes of an element'}
    for kind in ('ee', 'en', 'nn'):
        g = groups.get(kind, [])
        good = [(e, c) for e, c in g if c[1] is True]
        ok, why, wh = None, '', w
        if not good:
            bad = [(e, c) for e, c in g if c[1] is False]
            ok = False if (bad or not und) else None
            why = bad[0][1][3] if bad else 'never registered'
            wh = ck.evat(bad[0][0]) if bad else w
        else:
            tot = disj([c[2] for e, c in good])
            wh = ck.evat(good[0][0])
            ok = tot == TRUE
            if not ok and kind == 'nn':
                e = good[0][0]
                a, b = dof_of(e.args[1])[2], dof_of(e.args[2])[2]
                for x in (neg(lt(a - b, True)), neg(lt(b - a, True))):
                    if tot == x:
                        ok = True
            if not ok:
                ok = None if any(opaque_atoms(tot)) else False
                why = 'only when %r' % (tot,)
        ck.ob('covers:' + kind, wh, ok, text[kind] + ' is registered', why)
    # constraints: same coordinates as the assembly
    g = groups.get('mpc', [])
    okm, why = (False, 'never registered') if not und else (None, '')
    for e, c in g:
        lo = e.loops
        okm, why = None, loops_str(e)
        if len(lo) == 2 and None not in (lo[0][1], lo[1][1]):
            mo = ('*', ('this', ('mpcs', ('i', Poly.atom(lo[0][0])))))
            o = 'nodeDofs'
            K = ('i', Poly.atom(lo[1][0]))
            row = Poly.atom(('init', (mo, ('eqNum',))))
            d = ('*', ('dof', o, Poly.atom(('init', (mo, ('eq', K, 'node')))), Poly.atom(('init', (mo, ('eq', K, 'node_dof'))))))
            col = Poly.atom(('init', (d, ('eqNumber',))))
            okm = {e.args[1], e.args[2]} == {row, col} and lo[0][1] == size_of('mpcs') and lo[1][1] == Poly.atom(('init', (mo, ('eq', '$size')))) and c[2] == TRUE
            why = '%s, %s over %s when %r' % (show_any(e.args[1])[:120], show_any(e.args[2])[:120], loops_str(e), c[2])
    ck.ob('covers:mpc', ck.evat(g[0][0]) if g else w, okm, 'every constraint equation is registered with every DoF of its terms', why)
    # all entries go to the matrix that is then frozen, before it is frozen
    ctors = [e for e in ev if e.name == 'bm:ctor']
    kobj = None
    try:
        kobj = r.I.deref(r.st, r.I.read(r.st, ('this', ('matK',)), 'nla3d::math::BlockSparseSymMatrix<2> *'))
    except Exception:
        pass
    okk = bool(ents) and all(same_obj(e.args[0], kobj, 'matK') for e in ents)
    ck.ob('entry:matrix', w, okk, 'entries are registered in the stiffness matrix', repr({str(e.args[0]) for e in ents})[:300])
    kc = [e for e in comp if same_obj(e.args[0], kobj, 'matK')]
    ck.ob('frozen:matK', ck.evat(kc[0]) if kc else w, len(kc) >= 1 and conj(real_guards(kc[0])) == TRUE and all(e.seq < kc[0].seq for e in ents),
          'the stiffness matrix is frozen once, after every registration', 'entries after the freeze or freeze missing/conditional: %r' % [(c.line, c.guards) for c in kc])
    sizes(ck, r)
    for m in ('matC', 'matM'):
        obj = None
        v = r.I.read(r.st, ('this', (m,)), 'nla3d::math::BlockSparseSymMatrix<2> *')
        mk = [e for e in ctors if mentions(v, e.args[0].loc)]
        cc = [e for e in comp if any(mentions_obj(e.args[0], e2.args[0].loc) for e2 in mk) or e.args[0] == m]
        ok = bool(mk) and all(e.args[1:] and isinstance(e.args[1], Ptr) and e.args[1].loc is not None and same_loc(e.args[1].loc, kobj) for e in mk)
        ck.ob('shares:' + m, ck.evat(mk[0]) if mk else w, ok if mk else False, '%s is built on the sparsity of the stiffness matrix' % m, 'built from %s' % [show_any(x) for e in mk for x in e.args[1:]])
        g = disj([conj(real_guards(e)) for e in mk])
        ck.ob('exists:' + m, ck.evat(mk[0]) if mk else w, g in (TR, TRUE), '%s exists in every transient analysis' % m, repr(g))
        g2 = disj([conj(real_guards(e)) for e in cc]) if cc else FALSE
        ck.ob('frozen:' + m, ck.evat(cc[0]) if cc else w, g2 in (TR, TRUE) and all(kc and e.seq > kc[0].seq for e in cc),
              '%s is frozen in every transient analysis, after the stiffness matrix' % m, repr(g2))
    # topology
    topo(ck, r)


def same_obj(name, obj, field):
    return name == field or (obj is not None and name == repr(obj))


def same_loc(l, obj):
    return l == obj or (obj is not None and l[0] == obj[0])


def mentions(v, loc):
    if isinstance(v, Ite):
        return mentions(v.a, loc) or mentions(v.b, loc)
    return isinstance(v, (Ptr, Ref)) and v.loc is not None and v.loc[0] == loc[0]


def mentions_obj(name, loc):
    return isinstance(name, str) and repr(loc[0]) in name


def sizes(ck, r):
    ev = r.ev
    nD, nC, nU = [Poly.atom(ini(x)) for x in ('_nDofs', '_nConstrainedDofs', '_nUnknownDofs')]
    nM = size_of('mpcs')
    kc = [e for e in ev if e.name == 'bm:ctor' and type(e.args[1]) is tuple]
    w = ck.at(r.fn)
    ok = None
    if kc:
        got = kc[0].args[1]
        ok = len(got) == 2 and got[0] == nC and got[1] in (nU + nM, nD - nC + nM) and len(kc) == 1
    ck.ob('blocks', ck.evat(kc[0]) if kc else w, ok, 'the stiffness matrix is split into constrained equations and all others (unknowns and constraint equations)',
          repr([show_any(x) for x in kc[0].args[1]]) if kc else 'not built from block sizes')
    for v in ('vecU', 'vecR', 'vecF', 'vecDU', 'vecDDU'):
        c = [e for e in ev if e.name == 'vec:reinit' and e.args[0] == v]
        g = disj([conj(real_guards(e)) for e in c]) if c else FALSE
        want = (TRUE,) if v in ('vecU', 'vecR', 'vecF') else (TR, TRUE)
        tot = (nD + nM, nC + nU + nM)
        ck.ob('size:' + v, ck.evat(c[0]) if c else w, bool(c) and all(e.args[1] in tot for e in c) and g in want,
              '%s has one entry per DoF and constraint equation' % v, repr([(show_any(e.args[1]), e.guards) for e in c]))


def topo(ck, r):
    ins = [e for e in r.ev if e.name == 'cont:insert' and isinstance(e.args[0], Ref) and e.args[0].loc[0] == 'this' and e.args[0].loc[1][:1] == ('topology',)]
    ents = [e for e in r.ev if e.name == 'bm:addEntry']
    uses = any('topology' in repr(e.args[1:]) for e in ents)
    if not uses:
        return
    w = ck.at(r.fn)
    ok, why = False, 'no insertion'
    for e in ins:
        s = Shape(e)
        n = e.args[0].loc[1][1][1]
        en = elem_of_node(n)
        if en is None:
            ok, why = None, show_any(n)
            continue
        good = any(x is not None and nnodes(en[0])(x) and s.full(en[1], x) for k, x in e.loops) and s.full(en[0], size_of('elements')) and conj(real_guards(e)) == TRUE
        val = e.args[1]
        num = Poly.atom(('init', (('*', ('this', ('elements', ('i', en[0])))), ('elNum',))))
        good = good and val in (num, en[0] + 1)
        ok, why = good, '%s into node %s over %s' % (show_any(val), show_any(n), loops_str(e))
        ok = ok and all(e.seq < x.seq for x in ents)
        if ok:
            break
    ck.ob('topology', ck.evat(ins[0]) if ins else w, ok, 'before registration every element is listed at each of its nodes', why)


def numbering_of_elements(ck):
    """element i of the table carries number i + 1 (and belongs to this storage)"""
    p = ck.p
    fn = p.method(FS, 'addElement', 1)
    I = ck.interp()
    st, _, vals = ck.run(I, fn)
    el = vals[0]
    loc = el.loc if isinstance(el, Ptr) else I.deref(st, el)
    v = I.read(st, (loc[0], ('elNum',)), 'unsigned int')
    n0 = size_of('elements')
    ck.ob('addElement:number', ck.at(fn), compare(v, n0 + 1), 'an added element gets the next number', show_any(v))
    n1 = I.read(st, ('this', ('elements', '$size')), 'unsigned int')
    ck.ob('addElement:size', ck.at(fn), compare(n1, n0 + 1), 'an added element is appended to the table', show_any(n1))
    x = I.read(st, ('this', ('elements', ('i', n0))), 'nla3d::Element *')
    ck.ob('addElement:stored', ck.at(fn), compare(x, el), 'the element itself is what is appended', show_any(x))
    s = I.read(st, (loc[0], ('storage',)), 'nla3d::FEStorage *')
    ck.ob('addElement:storage', ck.at(fn), isinstance(s, Ptr) and s.loc == ('this', ()), 'the element knows its storage', show_any(s))


def numbering_of_created(ck):
    p = ck.p
    fn = next((f for f in p.fns.values() if f['n'] == FS + '::createElements' and f.get('body') and 'ElementType' in f['params'][1]['t']), None)
    if fn is None:
        raise AnalysisBroken('FEStorage::createElements')
    I = ck.interp()
    M = Poly.atom(('sym', 'created'))
    n0 = size_of('elements')

    def fac(I, st, e):
        args = [I.val(st, a) for a in e['c']]
        for a in args:
            if isinstance(a, Ref) and a.loc == ('this', ('elements',)):
                I.write(st, ('this', ('elements', '$size')), n0 + M)
                I.event(st, 'factory', args, node=e)
        return ZERO_
    I.hooks['nla3d::ElementFactory::createElements'] = fac

    def onw(st, l, v):
        if type(l) is tuple and l[1] and l[1][-1] in ('elNum', 'storage'):
            I.event(st, 'set:' + l[1][-1], [Ref(l, ''), v])
    I.on_write = onw
    st, _, vals = ck.run(I, fn)
    f = [e for e in I.events if e.name == 'factory']
    ck.ob('createElements:factory', ck.at(fn), len(f) == 1 and f[0].args[0] == vals[1] and f[0].args[1] == vals[0],
          'the requested number of elements of the requested kind is created', repr([[show_any(x) for x in e.args] for e in f]))
    for what in ('elNum', 'storage'):
        ev = [e for e in I.events if e.name == 'set:' + what]
        ok, why = (False if f else None), 'never set'
        for e in ev:
            X = recv_el(e.args[0], 'elements')
            if X is None or not e.loops or e.loops[-1][1] is None:
                ok, why = None, show_any(e.args[0])
                continue
            k, n = e.loops[-1]
            K = Poly.atom(k)
            cov = (n == M and X in (n0 + K, n0 + M - 1 - K)) or (n == n0 + M and X in (K, n0 + M - 1 - K))
            val = e.args[1] == X + 1 if what == 'elNum' else isinstance(e.args[1], Ptr) and e.args[1].loc == ('this', ())
            ok, why = cov and val and not real_guards(e), '%s = %s over %s' % (show_any(e.args[0]), show_any(e.args[1]), loops_str(e))
        ck.ob('createElements:' + what, ck.evat(ev[0]) if ev else ck.at(fn), ok, 'every created element gets its %s' % {'elNum': 'position + 1 as number', 'storage': 'storage'}[what], why)


def entry_functions(ck):
    """registration helpers address the equations they are given"""
    p = ck.p
    for m in ('addEntryK', 'addEntryMPC'):
        fn = p.method(FS, m, 2)
        if fn is None:
            continue
        r = analyse(ck, m, 2)
        ev = [e for e in r.ev if e.name == 'bm:addEntry']
        ok = len(ev) == 1 and ev[0].args[0] == 'matK' and {ev[0].args[1], ev[0].args[2]} == {r.vals[0], r.vals[1]} and not real_guards(ev[0])
        ck.ob(m, ck.at(fn), ok, 'the pair given is registered in the stiffness matrix', repr([(e.args[0], [show_any(x) for x in e.args[1:]], e.guards) for e in ev]))


def run(ck):
    ck.part('pattern', pattern)
    ck.part('elements', numbering_of_elements)
    ck.part('created', numbering_of_created)
    ck.part('entry', entry_functions)
    ck.assumptions = ['elements assemble only at DoFs of their own nodes and of themselves (C15)',
                      'block matrices register an entry at the position they later add to (C09)']
