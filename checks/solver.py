"""Shared solver-level analysis: every class derived from FESolver that defines solve()."""
from common import *
from vecmodel import VecModel, split_linear, is_vec_atom

TC = 'nla3d::TimeControl'
FE = 'nla3d::FESolver'


def solvers(ck):
    p = ck.p
    out = []
    for c in p.derived(FE):
        f = p.method(c, 'solve', 0)
        if f is not None and f.get('cls') == c:
            out.append((c, f))
    if len(out) < 3:
        raise AnalysisBroken('solver classes found: %d' % len(out))
    return sorted(out, key=lambda x: x[0])


class Run:
    def evs(self, *names):
        return [e for e in self.ev if e.name in names]

    def base(self, st, getter):
        return self.vm.getter(st, getter)

    def seg(self, st, getter, s):
        return self.vm.getseg(st, self.base(st, getter), s)


def analyse(ck, cls, fn):
    I = ck.interp()
    I.keep_states = True
    r = Run()
    r.I = I
    st = St()
    this = Ref(('this', ()), cls)
    sp = I.default(st, 'this', ('storage',), 'nla3d::FEStorage *')
    r.vm = VecModel(I, sp.loc, ck.p)

    def tc_next(I, st, e):
        o = r.vm.obj(I, st, e)
        d = I.num(I.val(st, e['c'][1]))
        I.event(st, 'nextStep', [d], node=e)
        st.objd(o[0])[o[1] + ('$tver',)] = Poly.const(I.nuid())
        return B(('test', ('nextStep', e['l'])))

    def tc_equil(I, st, e):
        o = r.vm.obj(I, st, e)
        I.event(st, 'nextEquilibriumStep', [], node=e)
        st.objd(o[0])[o[1] + ('$ever',)] = Poly.const(I.nuid())
        return ZERO_

    def tc_time(I, st, e):
        o = r.vm.obj(I, st, e)
        v = st.get_raw(o[0], o[1] + ('$tver',))
        return Poly.atom(('normtime', v if v is not None else ZERO_))

    def tc_estep(I, st, e):
        o = r.vm.obj(I, st, e)
        v = st.get_raw(o[0], o[1] + ('$ever',))
        return Poly.atom(('eqstep', v if v is not None else ZERO_))

    def tc_step(I, st, e):
        o = r.vm.obj(I, st, e)
        v = st.get_raw(o[0], o[1] + ('$tver',))
        return Poly.atom(('loadstep', v if v is not None else ZERO_))
    I.hooks[TC + '::nextStep'] = tc_next
    I.hooks[TC + '::nextEquilibriumStep'] = tc_equil
    I.hooks[TC + '::getCurrentNormalizedTime'] = tc_time
    I.hooks[TC + '::getCurrentEquilibriumStep'] = tc_estep
    I.hooks[TC + '::getCurrentStep'] = tc_step
    orig = I.opaque_virtual

    def ov(st, e, this, args):
        res = orig(st, e, this, args)
        if I.events and not I.muted and I.events[-1].name == 'vcall:' + e['n']:
            I.events[-1].extra = dict(state=st.copy())
        return res
    I.opaque_virtual = ov
    r.st, _, _ = ck.run(I, fn, st, this)
    r.fn, r.cls = fn, cls
    r.ev = I.events
    r.nonlinear = any(e.name == 'nextStep' for e in r.ev)
    r.transient = bool(r.evs('substituteEquations'))
    return r


def current_time(r, ev):
    """the load factor that belongs to this point of the analysis"""
    if not r.nonlinear:
        return ONE_
    st = ev.extra['state']
    tv = None
    for o, d in st.store.items():
        for k, v in d.items():
            if k and k[-1] == '$tver':
                tv = v
    return Poly.atom(('normtime', tv if tv is not None else ZERO_))


def notnull_only(guards):
    for g in guards:
        x = g.v[1] if g.v[0] == 'not' else g
        if x.v[0] not in ('isnull', 'same') and not (x.v[0] == 'test' and 'isnull' in repr(x.v)):
            return False
    return True


def full_iteration(ev, idx, size):
    """does the innermost loop of the event visit every index 0..size-1 exactly once"""
    if not ev.loops:
        return False
    k, n = ev.loops[-1]
    if n is None:
        return None
    K = Poly.atom(k)
    if n == size and (idx == K or idx == size - 1 - K):
        return True
    return False


def recv_index(ev, container):
    """index of the element of `this->container` that the receiver pointer/first argument denotes"""
    v = ev.args[0]
    loc = v.loc if isinstance(v, (Ref, Ptr)) else None
    if loc is None:
        return None
    o = loc[0]
    if type(o) is tuple and o[0] == '*' and type(o[1]) is tuple and o[1][0] == 'this':
        path = o[1][1]
        if path[0] == container and len(path) == 2:
            return path[1][1]
    return None


def resolve(r, v, depth=6):
    """replace loop-carried atoms that the loop leaves unchanged by their value at loop entry"""
    for _ in range(depth):
        m = {}
        for a in atomset(v):
            if type(a) is not tuple or a[0] != 'lh' or len(a) != 4:
                continue
            ls = r.I.loopstates.get(a[1])
            if ls is None:
                continue
            same_ = True
            if a[3] and isinstance(a[3][-1], str) and a[3][-1].startswith('seg:'):
                r.vm.fold(ls['entry'], (a[2], a[3][:-1]))
            for nm in ('end',):
                s = ls[nm]
                if s is None:
                    continue
                if a[3] and isinstance(a[3][-1], str) and a[3][-1].startswith('seg:'):
                    r.vm.fold(s, (a[2], a[3][:-1]))
                x = s.get_raw(a[2], a[3])
                if x is not None and x != Poly.atom(a) and x != B(('test', a)):
                    same_ = False
            ent = ls['entry'].get_raw(a[2], a[3])
            if same_ and isinstance(ent, (Poly, B)) and a not in atomset(ent):
                m[a] = ent
        if not m:
            return v
        v = subst(v, m)
        fix = {a: r.vm.mv(a[1], None, a[2], a[3], a[4]) for a in atomset(v) if type(a) is tuple and a[0] == 'mv' and isinstance(a[4], Poly)}
        v = subst(v, fix)
    return v


def entails(bs, goal):
    """do the assumptions imply goal (unit propagation over and/or only)"""
    b = conj(bs) if isinstance(bs, (list, tuple)) else bs
    if b == FALSE or b == goal:
        return True
    if b.v[0] == 'and':
        return any(entails(x, goal) for x in b.v[1])
    if b.v[0] == 'or':
        return all(entails(x, goal) for x in b.v[1])
    return False
