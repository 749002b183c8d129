"""Reaction post-processing: the series recorded and the text written for instances of 0..4 nodes and 1..3 DoFs with symbolic numbers."""
from streams import *

RP = 'nla3d::ReactionProcessor'
FS = 'nla3d::FEStorage::'


def reac(n, d):
    return Poly.atom(('reac', n, d))


def machine(ck, nn, nd, name, table=None):
    """ReactionProcessor with nn selected nodes, nd selected DoFs; table(n, d) -> (used, constrained)"""
    I = ck.interp()
    I.stream_ok = True
    st = St()

    def getReaction(I, st, e):
        a = [I.num(I.val(st, x)) for x in e['c'][1:]]
        if len(a) == 1:
            q = a[0].single_atom()
            if q is not None and type(q) is tuple and q[0] == 'eqN':
                return reac(q[1], q[2])
        elif len(a) == 2:
            return reac(*a)
        return NotImplemented
    I.hooks[FS + 'getReaction'] = getReaction
    I.hooks[FS + 'getNodeDofEqNumber'] = lambda I, st, e: Poly.atom(('eqN',) + tuple(I.num(I.val(st, x)) for x in e['c'][1:]))
    W = lambda path, v: I.write(st, ('this', path), v)
    W(('nodes', '$size'), Poly.const(nn))
    for i in range(nn):
        W(('nodes', ('i', Poly.const(i))), node(i))
    W(('dofs', '$size'), Poly.const(nd))
    W(('filename',), Str(name))
    if table is not None:
        def used(I, st, e):
            n, d = [I.num(I.val(st, x)) for x in e['c'][1:3]]
            return TRUE if table(n, d)[0] else FALSE

        def dof(I, st, e):
            n, d = [I.num(I.val(st, x)) for x in e['c'][1:3]]
            o = ('dofobj', n, d)
            I.write(st, (o, ('isConstrained',)), TRUE if table(n, d)[1] else FALSE)
            return Ptr((o, ()), 'nla3d::Dof *')
        I.hooks[FS + 'isNodeDofUsed'] = used
        I.hooks[FS + 'getNodeDof'] = dof
    return I, st


def node(i):
    return Poly.atom(('sym', 'node', i))


def dof(i):
    return Poly.atom(('init', ('this', ('dofs', ('i', Poly.const(i))))))


def series(d, *more):
    return ('this', ('sumOfDofsReactions', ('i', Poly.const(d))) + more)


def meth(ck, n, np):
    fn = ck.p.method(RP, n, np)
    if fn is None:
        raise AnalysisBroken(RP + '::' + n)
    return fn


def process(ck, nn, nd, name):
    fn = meth(ck, 'process', 1)
    key = 'process:%dx%d%s' % (nn, nd, ':file' if name else '')
    w = ck.at(fn)
    I, st = machine(ck, nn, nd, name)
    I.write(st, ('this', ('sumOfDofsReactions', '$size')), Poly.const(nd))
    _, r, vals = ck.run(I, fn, st)
    want = []
    for d in range(nd):
        s = ZERO_
        for n in range(nn):
            s = s + reac(node(n), dof(d))
        want.append(s)
        o = Poly.atom(('init', series(d, '$size')))
        sz = I.num(I.read(st, series(d, '$size'), 'unsigned long'))
        ck.ob('%s:count%d' % (key, d), w, compare(sz, o + 1), 'one value per selected DoF is recorded per step', show(sz)[:200])
        v = I.num(I.read(st, series(d, ('i', o)), 'double'))
        ck.ob('%s:sum%d' % (key, d), w, compare(v, s), 'the recorded value is the sum of the reactions of all selected nodes in that DoF', show(v)[:300])
        k = Poly.atom(('sym', 'k'))
        st.assume = st.assume + (neg(lt(k, True)), lt(k - o, True))
        v = I.num(I.read(st, series(d, ('i', k)), 'double'))
        ck.ob('%s:kept%d' % (key, d), w, compare(v, Poly.atom(('init', series(d, ('i', k))))), 'earlier steps are kept', show(v)[:200])
    if name:
        T = Tokens(items(I))
        ck.ob(key + ':line', w, match(T.lines, [[vals[0]] + want]), 'one line is appended: step number and the sums in DoF order', repr(T.lines)[:300])
        op = [e for e in I.events if e.name == 'ctor:std::basic_ofstream']
        ck.ob(key + ':append', w, True if op and all('app' in repr(e.args[2:]) for e in op) else None,
              'the line is appended to the file', repr([e.args for e in op])[:200])
    fs = [e for e in I.events if ends(e)]
    if fs:
        ck.ob(key + ':fatal', w, None, 'recording reactions does not end the program', repr(fs)[:200])


def match(lines, want):
    if len(lines) != len(want):
        return False if all(not opaque_tok(t) for l in lines for t in l) else None
    for a, b in zip(lines, want):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            r = tok_eq(x, y)
            if r is not True:
                return r
    return True


def opaque_tok(t):
    return isinstance(t, Poly) and bool(opaque_atoms(t)) or isinstance(t, Opq)


def tok_eq(x, y):
    if isinstance(x, str) and isinstance(y, Poly) and y.is_const():
        try:
            return Fraction(x) == y.cval()
        except ValueError:
            return False
    if isinstance(y, str) and isinstance(x, Poly):
        return tok_eq(y, x)
    if isinstance(x, str) or isinstance(y, str):
        return x == y if isinstance(x, str) and isinstance(y, str) else (None if opaque_tok(x) else False)
    if isinstance(x, Poly) and isinstance(y, Poly):
        return compare(x, y)
    return x == y or None


def pre(ck, scen, nn, given, table, want, name=''):
    fn = meth(ck, 'pre', 0)
    w = ck.at(fn)
    key = 'pre:' + scen
    I, st = machine(ck, nn, len(given), name, table)
    for i, d in enumerate(given):
        I.write(st, ('this', ('dofs', ('i', Poly.const(i)))), Poly.const(d))
    ck.run(I, fn, st)
    sure = [e for e in I.events if ends(e) and not e.guards]
    if want == 'fatal':
        ck.ob(key, w, bool(sure) or st.dead or (None if any(ends(e) for e in I.events) else False), 'nodes with different constrained DoFs are rejected', repr(I.events)[:200])
        return
    n = I.num(I.read(st, ('this', ('dofs', '$size')), 'unsigned long'))
    ck.ob(key + ':dofs', w, compare(n, Poly.const(len(want))), 'the DoFs reported are those selected, or the constrained DoFs of the nodes when none were selected', show(n)[:200])
    for i, d in enumerate(want):
        v = I.num(I.read(st, ('this', ('dofs', ('i', Poly.const(i)))), 'int'))
        ck.ob('%s:dof%d' % (key, i), w, compare(v, Poly.const(d)), 'the DoFs reported are those selected or constrained', show(v)[:100])
    ns = I.num(I.read(st, ('this', ('sumOfDofsReactions', '$size')), 'unsigned long'))
    ck.ob(key + ':series', w, compare(ns, Poly.const(len(want))), 'there is one series per DoF', show(ns)[:100])
    for i in range(len(want)):
        sz = I.num(I.read(st, series(i, '$size'), 'unsigned long'))
        ck.ob('%s:start%d' % (key, i), w, compare(sz, ONE_), 'a series starts with the unloaded state', show(sz)[:200])
        v = I.num(I.read(st, series(i, ('i', ZERO_)), 'double'))
        ck.ob('%s:zero%d' % (key, i), w, compare(v, ZERO_), 'the unloaded state has no reaction', show(v)[:200])
    if name:
        T = Tokens(items(I))
        ck.ob(key + ':head', w, True if len(T.lines) == 2 and len(T.lines[0]) == len(want) and len(T.lines[1]) == len(want) + 1 and
              all(tok_eq(x, ZERO_) for x in T.lines[1]) else (False if len(T.lines) == 2 else None), 'the file starts with a label per DoF and a zero line', repr(T.lines)[:300])


def get(ck, sel, ask):
    fn = meth(ck, 'getReactions', 1)
    w = ck.at(fn)
    I, st = machine(ck, 1, len(sel), '')
    for i, d in enumerate(sel):
        I.write(st, ('this', ('dofs', ('i', Poly.const(i)))), Poly.const(d))
        I.write(st, series(i, '$size'), Poly.const(2 + i))
        for k in range(2 + i):
            I.write(st, series(i, ('i', Poly.const(k))), Poly.atom(('sym', 's', i, k)))
    I.write(st, ('this', ('sumOfDofsReactions', '$size')), Poly.const(len(sel)))
    _, r, _ = ck.run(I, fn, st, None, [Poly.const(ask)])
    key = 'getReactions:%s:%d' % ('-'.join(map(str, sel)), ask)
    if not isinstance(r, Ref):
        ck.ob(key, w, None, 'returns the series of the DoF asked for', repr(r)[:200])
        return
    n = I.num(I.read(st, (r.loc[0], r.loc[1] + ('$size',)), 'unsigned long'))
    i = sel.index(ask) if ask in sel else None
    ck.ob(key + ':length', w, compare(n, Poly.const(2 + i if i is not None else 0)), 'the complete series of the DoF asked for is returned (nothing for a DoF that is not reported)', show(n)[:200])
    if i is not None:
        for k in range(2 + i):
            v = I.num(I.read(st, (r.loc[0], r.loc[1] + (('i', Poly.const(k)),)), 'double'))
            ck.ob('%s:%d' % (key, k), w, compare(v, Poly.atom(('sym', 's', i, k))), 'the values returned are those of the DoF asked for', show(v)[:200])


def whole(ck):
    """symbolic sizes: every selected node and DoF is visited"""
    fn = meth(ck, 'process', 1)
    I = ck.interp()
    I.stream_ok = True

    def getReaction(I, st, e):
        a = [I.num(I.val(st, x)) for x in e['c'][1:]]
        I.event(st, 'getReaction', a, node=e)
        return reac(*a) if len(a) == 2 else NotImplemented
    I.hooks[FS + 'getReaction'] = getReaction
    ck.run(I, fn)
    ev = [e for e in I.events if e.name == 'getReaction' and len(e.args) == 2]
    nn, nd = [Poly.atom(('init', ('this', (f, '$size')))) for f in ('nodes', 'dofs')]
    full = [e for e in ev if {n for k, n in e.loops} == {nn, nd} and len(e.loops) == 2 and not e.guards]
    if len(ev) == 1 and len(ev[0].loops) == 2 and len(full) != 1 and all(n is not None for k, n in ev[0].loops):
        g = ev[0]
        ck.ob('process:all', ck.evat(g), False if not opaque_atoms(conj(list(g.guards))) else None, 'the reactions of all selected nodes are summed whatever their number',
              'loops %s, condition %s' % ([show(n) for k, n in g.loops], [show_b(x) for x in g.guards]))
    elif full:
        ck.ob('process:all', ck.evat(full[0]), True, 'the reactions of all selected nodes are summed whatever their number')
    else:
        ck.notes.append('process: the loop over all nodes has another shape; decided on instances only')


def run(ck):
    for nn, nd in ((1, 1), (2, 3), (4, 2), (3, 3)):
        for name in ('', 'out'):
            ck.part('process:%dx%d' % (nn, nd), process, nn, nd, name)
    ck.part('process:all', whole)
    ids = {node(i).single_atom(): i for i in range(8)}
    D = lambda d: int(d.cval())

    def tab(con, extra=(), unused=()):
        def t(n, d):
            i = ids[n.single_atom()]
            u = (i, D(d)) not in unused
            return u, u and (D(d) in con or (i, D(d)) in extra)
        return t
    for nm in ('', 'out'):
        s = ':file' if nm else ''
        ck.part('pre:auto' + s, pre, 'auto' + s, 3, [], tab((0, 2)), [0, 2], nm)
        ck.part('pre:given' + s, pre, 'given' + s, 2, [1, 3], tab((0,)), [1, 3], nm)
        ck.part('pre:last' + s, pre, 'last' + s, 2, [], tab((len_dofs(ck) - 1,)), [len_dofs(ck) - 1], nm)
    ck.part('pre:mixed1', pre, 'mixed1', 3, [], tab((0,), extra=((0, 1), (2, 1))), 'fatal')
    ck.part('pre:mixed', pre, 'mixed', 3, [], tab((0,), extra=((0, 1), (1, 1))), 'fatal')
    ck.part('pre:superset', pre, 'superset', 3, [], tab((0,), extra=((2, 1),)), [0])
    ck.part('pre:unused', pre, 'unused', 2, [], tab((0, 1), unused=((0, 1), (1, 1))), [0])
    for sel in ((0, 1, 2), (2, 0)):
        for ask in (0, 1, 2, 5):
            ck.part('getReactions', get, list(sel), ask)
    ck.assumptions = ['FEStorage::getReaction returns the reaction of the DoF it is given (C03, C06)', 'the output file can be opened']


def len_dofs(ck):
    for n, e in ck.p.enums.items():
        if n.endswith('Dof::dofType'):
            for c in e['c']:
                if c['n'] == 'UNDEFINED':
                    return int(c['v'])
    raise AnalysisBroken('Dof::dofType')
