"""Counter and effect analysis of DoF registration, constraint marking and equation numbering."""
from storage import *


# ---------------------------------------------------------------- numbering
def numbering(ck):
    p = ck.p
    fn = p.method(FS, 'assignEquationNumbers', 0)
    if fn is None:
        raise AnalysisBroken('assignEquationNumbers')
    I = ck.interp()

    def getdof(I, st, e):
        o = recv(I, st, e)
        return I.typed_atom(('dof', name_of(o) or repr(o), I.num(I.val(st, e['c'][1])), I.num(I.val(st, e['c'][2]))), 'nla3d::Dof *')
    I.hooks[DC + '::getDof'] = getdof

    def onw(st, l, v):
        if type(l) is tuple and l[1] and l[1][-1] in ('eqNumber', 'eqNum'):
            I.event(st, 'number', [Ref(l, ''), v])
    I.on_write = onw
    st, _, _ = ck.run(I, fn)
    ev = [e for e in I.events if e.name == 'number']
    w = ck.at(fn)
    nD, nC = Poly.atom(('init', ('this', ('_nDofs',)))), Poly.atom(('init', ('this', ('_nConstrainedDofs',))))
    got = I.read(st, ('this', ('_nUnknownDofs',)), 'unsigned int')
    ck.ob('unknown-count', w, compare(got, nD - nC), 'unknown DoFs = all DoFs - constrained DoFs', show_any(got))
    ntypes = ck.p.enum_size('nla3d::Dof::dofType') if hasattr(ck.p, 'enum_size') else None
    seqs = {'c': [], 's': []}
    cover = {}
    mpc = []
    for e in ev:
        loc = e.args[0].loc
        o = loc[0]
        if type(o) is tuple and o[0] == '*' and type(o[1]) is tuple and o[1][0] == 'dof':
            _, coll, n, t = o[1]
            con = B(('test', ('init', (o, ('isConstrained',)))))
            nul = B(('isnull', (o, ())))
            g = conj(e.guards)
            if g == conj([neg(nul), con]):
                cls = 'c'
            elif g == conj([neg(nul), neg(con)]):
                cls = 's'
            elif g == neg(nul):
                cls = 'cs'
            else:
                cls = None
            if cls is None or len(e.loops) != 1 or e.loops[0][1] is None or not t.is_const():
                und = cls is None and not (entails(g, con) or entails(g, neg(con)))
                ck.ob('numbered-when', ck.evat(e), None if und or cls is not None else False,
                      'every registered DoF is numbered once, in the range of its kind', 'guards %r loops %r' % (e.guards, e.loops))
                continue
            for c in cls:
                g = conj([neg(nul), con if c == 'c' else neg(con)])
                v = force(e.args[1], con, c == 'c') if len(cls) == 2 else e.args[1]
                cover.setdefault((coll, int(t.cval())), []).append((c, n, e))
                seqs[c].append((e, ind(g), v))
        elif recv_el(e.args[0], 'mpcs') is not None:
            mpc.append(e)
            seqs['s'].append((e, ONE_, e.args[1]))
            ok = len(e.loops) == 1 and full_iteration(e, recv_el(e.args[0], 'mpcs'), size_of('mpcs')) and not real_guards(e)
            ck.ob('mpc:every', ck.evat(e), bool(ok), 'every multi-point constraint gets one number', 'loops %r guards %r' % (e.loops, e.guards))
        else:
            ck.ob('number:target', ck.evat(e), None, 'numbers are given to DoFs and constraints', show_any(e.args[0]))
    # coverage of all registered DoFs
    from elements import dof_enum
    nt = dof_enum(ck.p)['UNDEFINED']
    for coll, cont in (('elementDofs', 'elements'), ('nodeDofs', 'nodes')):
        ok, why = True, ''
        for t in range(nt):
            c = cover.get((coll, t), [])
            kinds = sorted(x[0] for x in c)
            if kinds != ['c', 's']:
                ok, why = (False if not any(o[2] is None for o in ck.obs) else None), 'type %d is numbered %s' % (t, kinds)
                break
            for cls, n, e in c:
                k, N = e.loops[0]
                if not (N == size_of(cont) and (n == Poly.atom(k) + 1 or n == N - Poly.atom(k))):
                    ok, why = False, 'loop over %s of %s, entity %s' % (show_any(N), cont, show_any(n))
        ck.ob('covers:' + coll, w, ok, 'every DoF type of every entity is numbered once, whether constrained or not', why)
    unclear = any(o[2] is None for o in ck.obs)
    for cls, base in (('c', ONE_), ('s', nC + 1)):
        run_ = base
        i = 0
        seq = seqs[cls]
        bad = None
        while i < len(seq):
            L = seq[i][0].loops
            j = i
            while j < len(seq) and seq[j][0].loops == L:
                j += 1
            k, N = L[0]
            body = ZERO_
            for e, x, _ in seq[i:j]:
                body = body + x
            pre = Poly.atom(('psum', k, body)) if occurs(body, k) else body * Poly.atom(k)
            part = ZERO_
            for e, x, v in seq[i:j]:
                want = run_ + pre + part
                if v != want and bad is None:
                    bad = (e, 'number %s instead of first + count of earlier ones' % show_any(v)[:300])
                part = part + x
            run_ = run_ + mk_sum(k, N, body)
            i = j
        name = {'c': 'constrained', 's': 'unknown'}[cls]
        ck.ob('consecutive:' + name, ck.evat(bad[0]) if bad else w, bad is None and bool(seq) or (None if unclear else False),
              '%s equations are numbered consecutively from %s without gaps' % (name, show_any(base)), bad[1] if bad else '')
    last = [e for e, _, _ in seqs['s']]
    ck.ob('mpc:last', w, bool(mpc) and all(e.seq < m.seq for m in mpc for e in last if e not in mpc), 'constraint equations come after all unknown DoFs', '')


# ---------------------------------------------------------------- constraint marking
def marking(ck):
    for m, coll in (('setConstrainedNodeDof', 'nodeDofs'), ('setConstrainedElementDof', 'elementDofs')):
        r = analyse(ck, m, 2)
        o = ('*', ('dof', coll, r.vals[0], r.vals[1]))
        w = ck.at(r.fn)
        flag = r.I.read(r.st, (o, ('isConstrained',)), 'bool')
        con = B(('test', ('init', (o, ('isConstrained',)))))
        # marked afterwards in either case
        okf = True if flag == TRUE or disj([flag, neg(con)]) == TRUE and subst_b(flag, con, True) == TRUE and subst_b(flag, con, False) == TRUE else None
        if okf is None:
            a, b = subst_b(flag, con, True), subst_b(flag, con, False)
            okf = True if a == TRUE and b == TRUE else False if a in (TRUE, FALSE) and b in (TRUE, FALSE) else None
        ck.ob(m + ':flag', w, okf, 'the DoF asked for is marked as constrained', repr(flag))
        cnt = r.I.read(r.st, ('this', ('_nConstrainedDofs',)), 'unsigned int')
        old = Poly.atom(('init', ('this', ('_nConstrainedDofs',))))
        ck.ob(m + ':count', w, compare(cnt, old + 1 - ind(con)), 'the count grows by one exactly when the DoF was not marked before', show_any(cnt))


def subst_b(b, lit, val):
    """truth value of b when literal lit has the given value"""
    if b == lit:
        return TRUE if val else FALSE
    k = b.v[0]
    if k == 'not':
        return neg(subst_b(b.v[1], lit, val))
    if k == 'and':
        return conj([subst_b(x, lit, val) for x in b.v[1]])
    if k == 'or':
        return disj([subst_b(x, lit, val) for x in b.v[1]])
    return b


# ---------------------------------------------------------------- DoF tables
def tables(ck):
    p = ck.p
    this = lambda *q: ('this', q)
    a = lambda *q: Poly.atom(('init', ('this', q)))
    # look-up
    for m in ('getDof', 'isDofUsed'):
        fn = p.method(DC, m, 2)
        if fn is None:
            raise AnalysisBroken(m)
        I = ck.interp()
        st, ret, vals = ck.run(I, fn)
        n, t = vals
        lo = a('dofPos', ('i', n - 1))
        hi = a('dofPos', ('i', n))
        N = hi - lo
        k = ('k', -1)
        c = eq(Poly.atom(('init', ('this', ('dofs', ('i', lo + Poly.atom(k)), 'type')))) - t)
        ex, first = exists(k, N, c)
        w = ck.at(fn)
        opq = bool(opaque_atoms(ret)) if not isinstance(ret, RetLoc) else True
        if m == 'getDof':
            ok = isinstance(ret, Ite) and ret.c == ex and isinstance(ret.a, Ptr) and ret.a.loc == ('this', ('dofs', ('i', lo + first))) \
                and isinstance(ret.b, Ptr) and ret.b.loc is None
            if not ok and isinstance(ret, Ite) and ret.c == neg(ex):
                ok = isinstance(ret.b, Ptr) and ret.b.loc == ('this', ('dofs', ('i', lo + first))) and isinstance(ret.a, Ptr) and ret.a.loc is None
            rule = 'the DoF found is the one of the entity with that type, null when there is none'
        else:
            emp = eq(N)
            tt = [subst_b(subst_b(ret, emp, e_), ex, x_) for e_, x_ in ((True, False), (False, True), (False, False))]
            ok = tt == [FALSE, TRUE, FALSE]
            opq = opq or any(x not in (TRUE, FALSE) for x in tt)
            rule = 'a DoF is used exactly when the entity has one of that type'
        ck.ob(m, w, ok or (None if opq else False), rule, show_any(ret)[:500])
    # reset
    fn = p.method(DC, 'initDofTable', 1)
    I = ck.interp()
    st, _, vals = ck.run(I, fn)
    n = vals[0]
    w = ck.at(fn)
    for f, want in ((('numberOfEntities',), n), (('numberOfUsedDofs',), ZERO_), (('dofs', '$size'), ZERO_), (('dofPos', '$size'), n + 1), (('uniqueDofTypes', '$size'), ZERO_)):
        got = I.read(st, ('this', f), 'unsigned int')
        ck.ob('initDofTable:' + f[0], w, compare(got, want), 'the table is reset to %s = %s' % ('.'.join(f), show_any(want)), show_any(got))
    v = generic_elem(I, st, 'this', n + 1, ('dofPos',), 'unsigned int')
    ck.ob('initDofTable:positions', w, compare(v, ZERO_), 'all positions start at zero', show_any(v)[:200])
    # registration
    fn = p.method(DC, 'addDof', 2)
    I = ck.interp()
    st = St()
    # what the reset establishes and every registration keeps: one position more than entities, as many entries as used DoFs
    I.write(st, ('this', ('dofPos', '$size')), a('numberOfEntities') + 1)
    I.write(st, ('this', ('dofs', '$size')), a('numberOfUsedDofs'))
    st, _, vals = ck.run(I, fn, st)
    n = vals[0]
    w = ck.at(fn)
    N = a('dofPos', ('i', n)) - a('dofPos', ('i', n - 1))
    ins = [e for e in I.events if e.name == 'cont:insert' and e.args[0].loc == ('this', ('dofs',))]
    ok = len(ins) == 1 and isinstance(ins[0].args[1], Ptr) and ins[0].args[1].loc == ('this', ('dofs', ('i', a('dofPos', ('i', n)))))
    ck.ob('addDof:where', ck.evat(ins[0]) if ins else w, ok if len(ins) == 1 else None, 'new DoFs are put at the end of the range of their entity',
          show_any(ins[0].args[1]) if ins else 'no insertion found')
    used = I.read(st, ('this', ('numberOfUsedDofs',)), 'unsigned int')
    cnt = None
    if len(ins) == 1 and len(ins[0].args) >= 4 and all(isinstance(x, Ptr) and x.loc for x in ins[0].args[2:4]):
        b_, e_ = ins[0].args[2].loc, ins[0].args[3].loc
        cnt = e_[1][-1][1] - b_[1][-1][1]
        g = conj(ins[0].guards)
        # when nothing is inserted the count is zero
        u = used - Poly.atom(('init', ('this', ('numberOfUsedDofs',))))
        ck.ob('addDof:used', w, eq_under(u, cnt, g), 'the number of used DoFs grows by the number of new DoFs', '%s instead of %s' % (show_any(u)[:250], show_any(cnt)[:250]))
        k = Poly.atom(('sym', 'k'))
        nE = a('numberOfEntities')
        old = st.assume
        st.assume = st.assume + (neg(lt(k - n, True)), neg(lt(nE - k, True)))
        v = I.num(I.read(st, ('this', ('dofPos', ('i', k))), 'unsigned int')) - a('dofPos', ('i', k))
        st.assume = old + (lt(k - n, True), neg(lt(k, True)))
        v0 = I.num(I.read(st, ('this', ('dofPos', ('i', k))), 'unsigned int')) - a('dofPos', ('i', k))
        st.assume = old
        ck.ob('addDof:shift-later', w, eq_under(v, cnt, g), 'positions of this entity\'s end and of all later entities move by the number of new DoFs', show_any(v)[:400])
        ck.ob('addDof:keep-earlier', w, compare(v0, ZERO_), 'positions of earlier entities stay', show_any(v0)[:400])
        # which types are new
        pb = [e for e in I.events if e.name == 'push_back' and e.seq < ins[0].seq]
        sz = Poly.atom(('init', ('@1', ('$size',))))
        k = ('k', -1)
        ty = lambda i: Poly.atom(('init', ('@1', (('i', i),))))
        kk = Poly.atom(('bv', 9))
        emp = eq(N)
        res = []
        for e in pb:
            if len(e.loops) < 1 or e.loops[0][1] != sz:
                res.append(None)
                continue
            kap = Poly.atom(e.loops[0][0])
            c = eq(a('dofs', ('i', a('dofPos', ('i', n - 1)) + Poly.atom(k)), 'type') - ty(kap))
            ex, _ = exists(k, N, c)
            g = conj(e.guards)
            tt = [subst_b(subst_b(g, emp, e1), ex, x1) for e1, x1 in ((True, False), (False, True), (False, False))]
            res.append(tuple(tt))
        if res and None not in res:
            comb = [disj([x[i] for x in res]) for i in range(3)]
            dbl = any(sum(x[i] == TRUE for x in res) > 1 for i in range(3))
            dec = all(x in (TRUE, FALSE) for x in comb)
            ck.ob('addDof:new', w, (comb == [TRUE, FALSE, TRUE] and not dbl) if dec else None,
                  'a type becomes a new DoF exactly when the entity has none of that type yet', repr(res)[:400])
        else:
            ck.ob('addDof:new', w, None, 'a type becomes a new DoF exactly when the entity has none of that type yet', repr(res)[:300])
    else:
        ck.ob('addDof:used', w, None, 'the number of used DoFs grows by the number of new DoFs', '')
    # the range of an entity
    fn = p.method(DC, 'getEntityDofs', 1)
    I = ck.interp()
    st, ret, vals = ck.run(I, fn)
    n = vals[0]
    if isinstance(ret, Ref):
        for f, i in (('first', n - 1), ('second', n)):
            v = I.read(st, (ret.loc[0], ret.loc[1] + (f,)), 'nla3d::Dof *')
            want = ('this', ('dofs', ('i', a('dofPos', ('i', i)))))
            ok = v.loc == want if isinstance(v, Ptr) else None
            ck.ob('getEntityDofs:' + f, ck.at(fn), ok, 'the range of an entity runs from its position to the next one', show_any(v)[:200])
    else:
        ck.ob('getEntityDofs', ck.at(fn), None, 'returns a pair', show_any(ret)[:200])


def eq_under(u, cnt, g):
    """u == cnt when g, and u == 0 == cnt when not g (the count itself is zero then)"""
    if u == cnt:
        return True
    if u == ind(g) * cnt:
        return True
    if r_eq(ind(g) * u, ind(g) * cnt):
        return True
    if opaque_atoms(u):
        return None
    # compare under g by forcing the indicator literals of g
    for lits in (g.v[1] if g.v[0] == 'and' else (g,)),:
        pass
    # split on the literals of the guard
    import itertools
    L = literals(g)
    if len(L) > 6:
        return None
    for vals in itertools.product((True, False), repeat=len(L)):
        gg, uu, cc = g, u, cnt
        for l, v in zip(L, vals):
            gg = subst_b(gg, l, v)
            uu = force(uu, l, v)
            cc = force(cc, l, v)
        if gg == TRUE:
            if uu != cc:
                return False
        elif gg == FALSE:
            if uu != ZERO_:
                return False
        else:
            return None
    return True


def literals(b):
    k = b.v[0]
    if k in ('T', 'F'):
        return []
    if k == 'not':
        return literals(b.v[1])
    if k in ('and', 'or'):
        out = []
        for x in b.v[1]:
            for y in literals(x):
                if y not in out:
                    out.append(y)
        return out
    return [b]


def force(p, lit, val):
    """polynomial with the indicator of a literal replaced by its value"""
    if not isinstance(p, Poly):
        return p
    # prefix sums bind the loop variable: the literal inside them is about other iterations
    held = [a for a in p.atoms() if type(a) is tuple and a[0] == 'psum' and occurs(lit, a[1])]
    if held:
        out = subst(p, {a: Poly.atom(('held', i)) for i, a in enumerate(held)})
        return subst(force(out, lit, val), {('held', i): Poly.atom(a) for i, a in enumerate(held)})
    m = {}
    for a in p.atoms():
        if type(a) is tuple and a[0] in ('ind', 'b') and len(a) == 2 and isinstance(a[1], B):
            m[a] = ind(subst_b(a[1], lit, val))
    return subst(p, m) if m else p


# ---------------------------------------------------------------- registration order and sizes
def registration(ck):
    r = analyse(ck, 'initDofs', 0, real_dof=True)
    # the tables are primitives here
    p = ck.p
    I = ck.interp()
    I.hooks[DC + '::initDofTable'] = lambda I, st, e: (I.event(st, 'table', [name_of(recv(I, st, e)), I.num(I.val(st, e['c'][1]))], node=e), ZERO_)[1]

    def used(I, st, e):
        nm = name_of(recv(I, st, e))
        I.event(st, 'used', [nm], node=e)
        return Poly.atom(('used', nm, len([x for x in I.events if x.name.startswith('vcall:nla3d::') and x.name.endswith('::pre')]) if not I.muted else 0))
    I.hooks[DC + '::getNumberOfUsedDofs'] = used
    I.hooks[DC + '::getUniqueDofTypes'] = lambda I, st, e: Ref((('unique', I.nuid()), ()), 'std::set<nla3d::Dof::dofType>')
    fn = p.method(FS, 'initDofs', 0)
    st, _, _ = ck.run(I, fn)
    w = ck.at(fn)
    tabs = [e for e in I.events if e.name == 'table']
    pres = [e for e in I.events if e.name == 'vcall:nla3d::Element::pre']
    mp = [e for e in I.events if e.name == 'vcall:nla3d::MpcCollection::pre']
    reg = [e for e in I.events if e.name.endswith('registerMpcsInStorage')]
    for nm, cont in (('nodeDofs', 'nodes'), ('elementDofs', 'elements')):
        t = [e for e in tabs if e.args[0] == nm]
        ok = len(t) == 1 and not t[0].loops and not real_guards_log(t[0]) and t[0].args[1] == size_of(cont) and all(t[0].seq < x.seq for x in pres + mp)
        ck.ob('initDofs:table-' + nm, ck.evat(t[0]) if t else w, ok, 'the %s table is reset for all %s before anything registers DoFs' % (nm, cont),
              repr([(show_any(x.args[1]), x.guards) for x in t]))
    ok, why = exactly_once([strip_log(e) for e in pres], lambda e: recv_el(e.args[0], 'elements'), size_of('elements'))
    ck.ob('initDofs:elements', ck.evat(pres[0]) if pres else w, ok, 'every element registers its DoFs once', why)
    ok, why = exactly_once([strip_log(e) for e in mp], lambda e: recv_el(e.args[0], 'mpcCollections'), size_of('mpcCollections'))
    ck.ob('initDofs:collections', ck.evat(mp[0]) if mp else w, ok, 'every constraint collection registers its DoFs once', why)
    v = I.read(st, ('this', ('_nDofs',)), 'unsigned int')
    ats = sorted(a for a in atomset(v) if type(a) is tuple and a[0] == 'used') if isinstance(v, Poly) else []
    npre = len(pres) + len(mp)
    want = Poly.atom(('used', 'elementDofs', npre)) + Poly.atom(('used', 'nodeDofs', npre))
    ck.ob('initDofs:total', w, compare(v, want), 'the number of DoFs is that of both tables after all registrations', show_any(v))


def strip_log(e):
    return e


def real_guards_log(e):
    return real_guards(e)


def accessors(ck):
    """FEStorage accessors address the table entry of their arguments"""
    p = ck.p
    for m, coll in (('getNodeDofEqNumber', 'nodeDofs'), ('getElementDofEqNumber', 'elementDofs')):
        r = analyse(ck, m, 2)
        want = Poly.atom(('init', (('*', ('dof', coll, r.vals[0], r.vals[1])), ('eqNumber',))))
        ck.ob(m, ck.at(r.fn), compare(r.ret, want), 'the equation number is that of the DoF asked for', show_any(r.ret))
    for m, coll in (('addNodeDof', 'nodeDofs'), ('addElementDof', 'elementDofs')):
        fn = p.method(FS, m, 2)
        I = ck.interp()
        I.hooks[DC + '::addDof'] = lambda I, st, e: (I.event(st, 'addDof', [name_of(recv(I, st, e))] + [I.val(st, a) for a in e['c'][1:]], node=e), ZERO_)[1]
        st, _, vals = ck.run(I, fn)
        ev = [e for e in I.events if e.name == 'addDof']
        ok = len(ev) == 1 and ev[0].args[0] == coll and ev[0].args[1] == vals[0] and not real_guards(ev[0])
        ck.ob(m, ck.at(fn), ok, 'DoFs are registered in the %s table for the entity given' % coll, repr([(e.args[0], show_any(e.args[1]), e.guards) for e in ev]))
    for m, f in (('nDofs', '_nDofs'), ('nConstrainedDofs', '_nConstrainedDofs'), ('nUnknownDofs', '_nUnknownDofs')):
        r = analyse(ck, m, 0)
        ck.ob(m, ck.at(r.fn), compare(r.ret, Poly.atom(('init', ('this', (f,))))), '%s reports the stored count' % m, show_any(r.ret))
    r = analyse(ck, 'nMpc', 0)
    ck.ob('nMpc', ck.at(r.fn), compare(r.ret, size_of('mpcs')), 'the number of constraint equations is the number of constraints', show_any(r.ret))
    for m, vec, coll in (('getNodeDofSolution', 'vecU', 'nodeDofs'), ('getElementDofSolution', 'vecU', 'elementDofs')):
        r = analyse(ck, m, 2)
        eqn = Poly.atom(('init', (('*', ('dof', coll, r.vals[0], r.vals[1])), ('eqNumber',))))
        want = Poly.atom(('init', (('*', ('this', (vec, 'data'))), (('i', eqn - 1),))))
        ck.ob(m, ck.at(r.fn), compare(r.ret, want), 'the solution of a DoF is the vector entry of its equation', show_any(r.ret))


def storage_sizes(ck):
    import c07
    c07.sizes(ck, c07.run_init(ck))


def run(ck):
    ck.part('sizes', storage_sizes)
    ck.part('numbering', numbering)
    ck.part('marking', marking)
    ck.part('tables', tables)
    ck.part('registration', registration)
    ck.part('accessors', accessors)
    ck.assumptions = ['one analysis per storage object (initDofs starts from a storage whose constrained count is zero)', 'dofPos is monotone with dofPos[0] = 0 (established by initDofTable, preserved by addDof)']
