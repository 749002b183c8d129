"""Element harness: an element object built by its own constructor, with the storage it talks to kept symbolic."""
from common import *

EL = 'nla3d::Element'
FS = 'nla3d::FEStorage'


def concrete_elements(p):
    """element classes that can be instantiated (derive from Element, implement buildK)"""
    out = []
    for name in p.derived(EL):
        if p.method(name, 'buildK', 0) is not None and p.method(name, 'buildK', 0).get('body'):
            if p.method(name, 'buildK', 0).get('cls') != EL:
                out.append(name)
    return sorted(out)


def node(i):
    return Poly.atom(('nd', i))


def pos(i, k):
    return Poly.atom(('x', i, k))


class Harness:
    """one element under analysis"""

    def __init__(self, ck, cls, fields=None, intorder=None, limit=2):
        self.ck, self.cls, self.p = ck, cls, ck.p
        self.obj = 'el'
        self.I = I = ck.interp()
        I.keep_states = False
        I.name_limit = limit
        self.st = st = St()
        I.dyn_types[self.obj] = cls
        self.install(I)
        I.default_ctor(st, (self.obj, ()), cls)
        self.nn = self.nnodes()
        np_ = I.read(st, (self.obj, ('nodes',)), 'unsigned int *')
        if isinstance(np_, Ptr) and np_.loc is not None:
            for i in range(self.nn):
                I.write(st, I.index_loc(np_.loc, Poly.const(i), 'unsigned int'), node(i))
        I.write(st, (self.obj, ('storage',)), Ptr(('fes', ()), FS + ' *'))
        I.dyn_types['fes'] = FS
        if any(f['n'] == 'elNum' for f in self.p.all_fields(cls)):
            I.write(st, (self.obj, ('elNum',)), Poly.atom(('sym', 'elNum')))
        if intorder is not None:
            I.write(st, (self.obj, ('intOrder',)), Poly.const(intorder))
        self.params = {}
        for cn in [cls] + self.p.bases(cls):
            for fd in (self.p.records.get(cn) or {}).get('fields', []):
                if fd.get('t') in ('double', 'nla3d::math::real') and I.read(st, (self.obj, (fd['n'],)), 'double') == ZERO_:
                    self.params[fd['n']] = Poly.atom(('prm', fd['n']))
                    I.write(st, (self.obj, (fd['n'],)), self.params[fd['n']])
        for f, v in (fields or {}).items():
            I.write(st, (self.obj, (f,) if isinstance(f, str) else f), v)

    def install(self, I):
        H = I.hooks
        E = lambda I, st, e, i: I.num(I.val(st, e['c'][i]))

        def add(kind):
            def h(I, st, e):
                vs = [I.num(I.val(st, a)) for a in e['c'][1:]]
                I.event(st, kind, vs, node=e)
                return ZERO_
            return h
        for k in 'KCM':
            H[FS + '::addValue' + k] = add('add' + k)
        H[FS + '::addValueF'] = add('addF')
        H[FS + '::addValueR'] = add('addR')

        def getnode(I, st, e):
            n = I.num(I.val(st, e['c'][1]))
            o = ('node', n)
            a = n.single_atom()
            if a and a[0] == 'nd':
                for k in range(3):
                    l = (o, ('pos', 'data', ('i', Poly.const(k))))
                    if o not in st.store or k == 0:
                        pass
                if o not in st.store:
                    for k in range(3):
                        I.write(st, (o, ('pos', 'data', ('i', Poly.const(k)))), pos(a[1], k))
            return Ref((o, ()), 'nla3d::Node')
        H[FS + '::getNode'] = getnode

        def getpos(I, st, e):
            n = I.num(I.val(st, e['c'][1]))
            ptr = I.val(st, e['c'][2])
            a = n.single_atom()
            for k in range(3):
                I.write(st, I.index_loc(ptr.loc, Poly.const(k), 'double'), pos(a[1], k) if a and a[0] == 'nd' else Poly.atom(('xq', n, k)))
            return ZERO_
        H[FS + '::getNodePosition'] = getpos

        def getu(I, st, e):
            n, d = I.num(I.val(st, e['c'][1])), I.num(I.val(st, e['c'][2]))
            I.event(st, 'readU', [n, d], node=e)
            return Poly.atom(('U', n, d))
        H[FS + '::getNodeDofSolution'] = getu

        def getue(I, st, e):
            n, d = I.num(I.val(st, e['c'][1])), I.num(I.val(st, e['c'][2]))
            I.event(st, 'readUe', [n, d], node=e)
            return Poly.atom(('Ue', n, d))
        H[FS + '::getElementDofSolution'] = getue

        def eqn(kind):
            def h(I, st, e):
                n, d = I.num(I.val(st, e['c'][1])), I.num(I.val(st, e['c'][2]))
                I.event(st, 'eq' + kind, [n, d], node=e)
                return Poly.atom(('eq' + kind, n, d))
            return h
        H[FS + '::getNodeDofEqNumber'] = eqn('N')
        H[FS + '::getElementDofEqNumber'] = eqn('E')

        def reg(kind):
            def h(I, st, e):
                n = I.num(I.val(st, e['c'][1]))
                l = I.val(st, e['c'][2])
                ds = None
                if isinstance(l, Ref):
                    sz = I.read(st, (l.loc[0], l.loc[1] + ('$size',)), 'unsigned int')
                    if isinstance(sz, Poly) and sz.is_const():
                        ds = tuple(I.read(st, (l.loc[0], l.loc[1] + (('i', Poly.const(i)),)), 'nla3d::Dof::dofType') for i in range(int(sz.cval())))
                I.event(st, 'reg' + kind, [n, ds if ds is not None else l], node=e)
                return ZERO_
            return h
        H[FS + '::addNodeDof'] = reg('N')
        H[FS + '::addElementDof'] = reg('E')

    def nnodes(self):
        r = self.call('getNNodes')
        if isinstance(r, Poly) and r.is_const():
            return int(r.cval())
        raise AnalysisBroken('number of nodes of ' + self.cls)

    def call(self, m, args=None, np=None):
        fn = self.p.method(self.cls, m, np if np is not None else len(args or []))
        if fn is None or not fn.get('body'):
            raise AnalysisBroken('%s::%s' % (self.cls, m))
        st, r, vals = self.ck.run(self.I, fn, self.st, Ref((self.obj, ()), self.cls), args)
        self.vals = vals
        self.last = fn
        return r

    def events(self, name):
        return [e for e in self.I.events if e.name == name]

    def read(self, path, t='double'):
        return self.I.read(self.st, (self.obj, path), t)


def dof_enum(p):
    return enum_items(p, 'Dof::dofType')


def enum_items(p, suffix):
    for en, items in p.enums.items():
        if en.endswith(suffix):
            return {x['n']: int(x['v']) for x in items['c']}
    raise AnalysisBroken('enum ' + suffix)
