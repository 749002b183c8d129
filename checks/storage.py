"""Shared FEStorage-level analysis: runs an FEStorage method with the matrix, vector and DoF-table primitives kept symbolic."""
from common import *
from solver import full_iteration, notnull_only, entails

FS = 'nla3d::FEStorage'
BM = 'nla3d::math::BlockSparseSymMatrix'
DV = 'nla3d::math::dVec'
DC = 'nla3d::DofCollection'


def recv(I, st, e):
    b = e['c'][0]
    if e.get('arrow') or is_ptr(b['t']):
        l = I.deref(st, I.val(st, b))
    else:
        l = I.loc(st, b)
    return l


def name_of(loc):
    """field of FEStorage that a receiver location denotes (this->X or *this->X)"""
    if not (type(loc) is tuple and len(loc) == 2):
        return None
    o, p = loc
    if type(o) is tuple and o and o[0] == '*' and type(o[1]) is tuple and len(o[1]) == 2 and o[1][0] == 'this' and len(o[1][1]) == 1 and not p:
        return o[1][1][0]
    if o == 'this' and len(p) == 1:
        return p[0]
    return None


def recv_el(v, container):
    """index expression of this->container[idx] when v is (a reference to) *this->container[idx]"""
    loc = v.loc if isinstance(v, (Ref, Ptr)) else None
    if loc is None or not (type(loc) is tuple and len(loc) == 2):
        return None
    o = loc[0]
    if type(o) is tuple and o[0] == '*' and type(o[1]) is tuple and o[1][0] == 'this':
        path = o[1][1]
        if len(path) == 2 and path[0] == container and type(path[1]) is tuple:
            return path[1][1]
    return None


def size_of(container):
    return Poly.atom(('init', ('this', (container, '$size'))))


def analyse(ck, method, np=0, cls=FS, fn=None, real_dof=False, args=None, setup=None):
    p = ck.p
    fn = fn or p.method(cls, method, np)
    if fn is None:
        raise AnalysisBroken('%s::%s' % (cls, method))
    I = ck.interp()
    I.keep_states = True

    def ev(n):
        def h(I, st, e):
            o = recv(I, st, e)
            if o is None:
                return NotImplemented
            I.event(st, n, [name_of(o) or repr(o)] + [I.val(st, a) for a in e['c'][1:]], node=e)
            return ZERO_
        return h
    for n in ('zero', 'addValue', 'addEntry', 'compress'):
        I.hooks[BM + '::' + n] = ev('bm:' + n)
    I.hooks[BM + '::isCompressed'] = lambda I, st, e: B(('test', ('isCompressed', repr(recv(I, st, e)))))

    def vzero(I, st, e):
        o = recv(I, st, e)
        I.event(st, 'vec:zero', [name_of(o) or repr(o)], node=e)
        return ZERO_
    I.hooks[DV + '::zero'] = vzero

    def vreinit(I, st, e):
        o = recv(I, st, e)
        I.event(st, 'vec:reinit', [name_of(o) or repr(o)] + [I.val(st, a) for a in e['c'][1:]], node=e)
        return ZERO_
    I.hooks[DV + '::reinit'] = vreinit
    I.hooks[DV + '::clear'] = ev('vec:clear')
    if not real_dof:
        def getdof(I, st, e):
            o = recv(I, st, e)
            n = I.num(I.val(st, e['c'][1]))
            t = I.num(I.val(st, e['c'][2]))
            return I.typed_atom(('dof', name_of(o) or repr(o), n, t), 'nla3d::Dof *')
        I.hooks[DC + '::getDof'] = getdof
        I.hooks[DC + '::isDofUsed'] = lambda I, st, e: neg(B(('isnull', getdof(I, st, e)))) if False else \
            B(('test', ('used', name_of(recv(I, st, e)), I.num(I.val(st, e['c'][1])), I.num(I.val(st, e['c'][2])))))
    w0 = I.on_write

    def onw(st, l, v):
        if type(l) is tuple and len(l) == 2:
            o, path = l
            if type(o) is tuple and o[0] == '*' and type(o[1]) is tuple and o[1][0] == 'this' and len(o[1][1]) == 2 and o[1][1][1] == 'data':
                idx = path[-1][1] if path and type(path[-1]) is tuple else None
                old = None
                try:
                    old = I.read(st, l, 'double')
                except Exception:
                    pass
                I.event(st, 'vec:write', [o[1][1][0], idx, v, old])
    I.on_write = onw
    if setup:
        setup(I)
    st, ret, vals = ck.run(I, fn, args=args)
    r = type('Run', (), {})()
    r.I, r.st, r.ret, r.vals, r.fn, r.ev = I, st, ret, vals, fn, I.events
    return r


def real_guards(ev, I=None):
    """guards of an event other than null tests"""
    return [g for g in ev.guards if not notnull_only([g])]


def exactly_once(events, index_of, size, want=TRUE):
    """(verdict, explanation): every element of a container is visited exactly once, under exactly the condition `want`"""
    if not events:
        return False, 'no such call'
    gs = []
    for e in events:
        idx = index_of(e)
        if idx is None or not e.loops or e.loops[-1][1] is None:
            return None, 'receiver %s, loops %r' % (show_any(e.args[0]), e.loops)
        if len(e.loops) != 1 or full_iteration(e, idx, size) is not True:
            return False, 'line %s: receiver %s, loops %r do not visit every element once' % (e.line, show_any(e.args[0]), e.loops)
        gs.append(conj(real_guards(e)))
        if any(('lh' == a[0] or 'lo' == a[0]) for a in atomset(gs[-1]) if type(a) is tuple and a) or e.loops[-1][0] in atomset(gs[-1]):
            if gs[-1] != TRUE:
                return False, 'line %s: skipped for some elements: %r' % (e.line, gs[-1])
    for i in range(len(gs)):
        for j in range(i):
            if conj([gs[i], gs[j]]) != FALSE:
                return False, 'lines %s and %s both visit it' % (events[j].line, events[i].line)
    tot = disj(gs)
    if tot == want:
        return True, ''
    return False, 'condition %r instead of %r' % (tot, want)
