"""Name tables and factories: every lookup is evaluated for every code, its name, and names near to it."""
from world import *

EF, MF, DOF, FC = 'nla3d::ElementFactory', 'nla3d::MaterialFactory', 'nla3d::Dof', 'nla3d::FEComponent'
ALIAS = {'NEO_HOOKEAN_COMP': 'Neo-Hookean', 'BIDERMAN_COMP': 'Biderman', 'MOONEYRIVLIN_COMP': 'Mooney-Rivlin', 'ELEMENTS': 'ELEM', 'NODES': 'NODE', 'SP': 'S_P'}
SENTINEL = ('UNDEFINED', 'UNDEF', 'NOT_DEFINED', 'LAST')
SHAPES = {'TRUSS3': (2, 1), 'PLANE41': (4, 2), 'SOLID81': (8, 3), 'TETRA0': (4, 3), 'TETRA1': (4, 3), 'QUADTH': (4, 2), 'SurfaceLINETH': (2, 1),
          'TRIANGLE4': (3, 2), 'INTER0': (2, 0), 'INTER3': (6, 3)}
ELCLASS = {k: 'nla3d::' + ('' if k.startswith('Surface') else 'Element') + k for k in SHAPES}
MATCLASS = {'NEO_HOOKEAN_COMP': 'nla3d::Mat_Comp_Neo_Hookean', 'BIDERMAN_COMP': 'nla3d::Mat_Comp_Biderman', 'MOONEYRIVLIN_COMP': 'nla3d::Mat_Comp_MooneyRivlin'}


def codes(ck, enum):
    e = ck.p.enums.get(enum)
    if e is None:
        raise AnalysisBroken(enum)
    return {x['n']: int(x['v']) for x in e['c']}


def name(k):
    return ALIAS.get(k, k)


def near(n):
    """names that are not n: prefixes, extensions, neighbours"""
    return [n[:-1], n + 'X', n + ' ', 'X' + n, n[1:], '']


def const(v):
    return int(v.cval()) if isinstance(v, Poly) and v.is_const() else None


def lookup(ck, tag, fn, enum, undef, skip=()):
    """name -> code is the inverse of the naming, and unknown names give the undefined code"""
    cs = codes(ck, enum)
    if undef not in cs:
        raise AnalysisBroken('%s::%s' % (enum, undef))
    real = {k: v for k, v in cs.items() if k not in SENTINEL}
    names = {name(k) for k in real}

    def ask(s):
        W = World(ck)
        W.I.write(W.st, ('@name', ()), Str(s))
        r = W.call(fn, [('lref', ('@name', ())) if is_ref(fn['params'][0]['t']) else Str(s)])
        if any(ends(e) and not e.guards for e in W.I.events):
            return 'rejected', r
        return const(r), r
    for k, v in real.items():
        g, r = ask(name(k))
        ck.ob('%s:%s' % (tag, k), ck.at(fn), None if g is None else g == v, 'the name "%s" is found as the code %s (%d)' % (name(k), k, v), 'gives %s' % show_any(r)[:80])
    bad, und, n = [], [], 0
    for s in sorted({x for k in real for x in near(name(k))} - names - {'UNDEFINED'}):
        g, r = ask(s)
        n += 1
        if g is None:
            und.append('%r gives %s' % (s, show_any(r)[:60]))
        elif g != 'rejected' and g != cs[undef]:
            bad.append('%r gives %d' % (s, g))
    ck.ob(tag + ':unknown', ck.at(fn), False if bad else None if und else True, 'a name that belongs to no code is not taken for one (%d names)' % n, '; '.join((bad or und)[:3]))


def labels(ck, tag, fn, enum):
    cs = codes(ck, enum)
    seen = {}
    for k, v in cs.items():
        if k in SENTINEL:
            continue
        W = World(ck)
        r = W.call(fn, [c(v)])
        g = r.s if isinstance(r, Str) else None
        ck.ob('%s:%s' % (tag, k), ck.at(fn), None if g is None else g == name(k), 'the code %s (%d) prints as "%s"' % (k, v, name(k)), 'prints %s' % show_any(r)[:80])
        if g is not None:
            seen.setdefault(g, []).append(k)
    dup = [x for x in seen.values() if len(x) > 1]
    ck.ob(tag + ':distinct', ck.at(fn), not dup, 'distinct codes print as distinct names', repr(dup))


def meth(ck, cls, n, np):
    f = ck.p.method(cls, n, np)
    if f is None:
        raise AnalysisBroken('%s::%s' % (cls, n))
    return f


def elements(ck):
    fn = meth(ck, EF, 'createElements', 3)
    cs = codes(ck, 'nla3d::ElementType')
    for k, v in cs.items():
        if k in SENTINEL:
            continue
        for n, old in ((0, 0), (1, 0), (3, 0), (2, 2)):
            W = World(ck)
            I = W.I
            I.write(W.st, ('@v', ('$size',)), c(old))
            for i in range(old):
                I.write(W.st, ('@v', (('i', c(i)),)), Ptr((('@old', i), ()), 'nla3d::Element *'))
            W.call(fn, [c(v), c(n), ('lref', ('@v', ()))])
            sz = I.num(I.read(W.st, ('@v', ('$size',)), 'unsigned int'))
            key = 'create:%s:%d+%d' % (k, old, n)
            rule = 'the factory appends %d new elements of class %s' % (n, ELCLASS.get(k, k))
            if const(sz) is None:
                ck.ob(key, ck.at(fn), None, rule, show(sz)[:100])
                continue
            els = [I.read(W.st, ('@v', (('i', c(i)),)), 'nla3d::Element *') for i in range(const(sz))]
            bad = []
            if len(els) != old + n:
                bad.append('%d elements' % len(els))
            if [e.loc for e in els[:old]] != [(('@old', i), ()) for i in range(old)]:
                bad.append('earlier elements changed')
            new = els[old:]
            if len({e.loc for e in new if isinstance(e, Ptr)}) != len(new):
                bad.append('an element is stored twice')
            for e in new[:2]:
                t = I.dyn_types.get(e.loc[0]) if isinstance(e, Ptr) and e.loc else None
                if k in ELCLASS and t != ELCLASS[k] and ELCLASS[k] in ck.p.records:
                    bad.append('created %s' % t)
                ty = const(I.num(W.m('nla3d::Element', e.loc, 'getType')))
                if ty != v:
                    bad.append('getType() is %s' % ty)
                nn = const(I.num(W.m('nla3d::Element', e.loc, 'getNNodes')))
                dim = const(I.num(W.m('nla3d::Element', e.loc, 'getDim')))
                if k in SHAPES and (nn, dim) != SHAPES[k]:
                    bad.append('%s nodes in %s dimensions' % (nn, dim))
                nodes(W, ck, e, nn or 0, bad)
            ck.ob(key, ck.at(fn), not bad, rule, '; '.join(bad[:3]))
    W = World(ck)
    W.I.write(W.st, ('@v', ('$size',)), ZERO_)
    W.call(fn, [c(cs['UNDEFINED']), c(2), ('lref', ('@v', ()))])
    f = [e for e in W.I.events if ends(e) and not e.guards]
    sz = const(W.I.num(W.I.read(W.st, ('@v', ('$size',)), 'unsigned int')))
    ck.ob('create:UNDEFINED', ck.at(fn), bool(f) or sz == 0, 'the undefined kind creates no element', '%s created' % sz)


def nodes(W, ck, e, n, bad):
    """the element has its own slot for each of its nodes"""
    put, get = free(ck, 'verif_witness::setElementNode', 3), free(ck, 'verif_witness::elementNode', 2)
    for i in range(n):
        W.call(put, [e, c(i), c(100 + i)])
    v = [const(W.I.num(W.call(get, [e, c(i)]))) for i in range(n)]
    if v != [100 + i for i in range(n)]:
        bad.append('node numbers stored as %r' % v)
    for a in [a for a in W.I.events if a.name == 'new']:
        if a.args[0] == Opq('type', 'unsigned int') and isinstance(a.args[1], Poly) and a.args[1].is_const() and int(a.args[1].cval()) < n:
            bad.append('room for %s of %d node numbers' % (show(a.args[1]), n))


def materials(ck):
    mk, put, get = free(ck, 'verif_witness::makeMaterial', 1), free(ck, 'verif_witness::setConstant', 3), free(ck, 'verif_witness::constant', 2)
    fn = meth(ck, MF, 'createMaterial', 1)
    cs = codes(ck, MF + '::matId')

    def make(s):
        W = World(ck)
        W.I.write(W.st, ('@name', ()), Str(s))
        return W, W.call(mk, [('lref', ('@name', ()))])
    for k, v in cs.items():
        if k in SENTINEL:
            continue
        W, m = make(name(k))
        if not isinstance(m, Ptr):
            ck.ob('material:' + k, ck.at(fn), None, 'creates the class of the code', show_any(m)[:80])
            continue
        if m.loc is None:
            ck.ob('material:' + k, ck.at(fn), False, 'the name "%s" creates a material' % name(k), 'null')
            continue
        t = W.I.dyn_types.get(m.loc[0])
        bad = []
        if k in MATCLASS and MATCLASS[k] in ck.p.records and t != MATCLASS[k]:
            bad.append('created %s' % t)
        nm = W.m('nla3d::Material', m.loc, 'getName')
        if isinstance(nm, Str) and nm.s != name(k):
            bad.append('named %s' % nm.s)
        cd = const(W.I.num(W.m('nla3d::Material', m.loc, 'getCode')))
        if cd != v:
            bad.append('code %s' % cd)
        ck.ob('material:' + k, ck.at(fn), not bad, 'the name "%s" creates class %s with that name and code' % (name(k), MATCLASS.get(k, '?')), '; '.join(bad))
        # constants by name are the constants the model reads by index
        en = next((e for n, e in ck.p.enums.items() if n.startswith(str(t) + '::')), None)
        if en is None:
            raise AnalysisBroken('constants of %s' % t)
        con = {x['n'][2:]: int(x['v']) for x in en['c'] if x['n'].startswith('C_')}
        nc = const(W.I.num(W.m('nla3d::Material', m.loc, 'getNumC')))
        ck.ob('constants:%s:count' % k, ck.at(fn), None if nc is None else nc == len(con), 'the material has %d constants' % len(con), 'has %s' % nc)
        bad, und = [], []
        for cn, ci in con.items():
            W, m = make(name(k))
            n0 = len(W.I.events)
            W.I.write(W.st, ('@name', ()), Str(cn))
            W.call(put, [m, ('lref', ('@name', ())), Poly.atom(('sym', cn))])
            if any(ends(e) and not e.guards for e in W.I.events[n0:]):
                bad.append('constant %s is unknown' % cn)
                continue
            for j in range(len(con)):
                v_ = W.I.num(W.call(get, [m, c(j)]))
                if (v_ == Poly.atom(('sym', cn))) != (j == ci):
                    (bad if not opaque_atoms(v_) else und).append('constant %s is stored at %d' % (cn, j))
        ck.ob('constants:' + k, ck.at(meth(ck, 'nla3d::Material', 'register_mat_const', 1)), False if bad else None if und else True,
              'a constant set by name is the one the model uses under that name', '; '.join((bad or und)[:3]))
        W, m = make(name(k))
        n0 = len(W.I.events)
        W.I.write(W.st, ('@name', ()), Str('no such constant'))
        r = W.call(put, [m, ('lref', ('@name', ())), Poly.atom(('sym', 'x'))])
        f = [e for e in W.I.events[n0:] if e.name in ('fatal', 'throw') and not e.guards]
        ck.ob('constants:%s:unknown' % k, ck.at(next(f for f in ck.p.fns.values() if f['n'] == 'nla3d::Material::Ci' and is_ref(f['params'][0]['t']))), bool(f),
              'an unknown constant name is rejected', 'accepted')
    bad = []
    und = []
    for s in ['', 'UNDEFINED', 'LAST'] + [x for k in cs if k not in SENTINEL for x in near(name(k))]:
        W, m = make(s)
        if any(ends(e) and not e.guards for e in W.I.events):
            continue
        if not isinstance(m, Ptr):
            und.append('%r gives %s' % (s, show_any(m)[:60]))
        elif m.loc is not None:
            bad.append('%r creates a material' % s)
    ck.ob('material:unknown', ck.at(fn), False if bad else None if und else True, 'an unknown material name creates nothing', '; '.join((bad or und)[:3]))


def q2l(t):
    def f(ck):
        fn = next((f for f in ck.p.fns.values() if f['n'] == 'nla3d::query2label' and f['params'][0]['t'].endswith(t)), None)
        if fn is None:
            raise AnalysisBroken('query2label(%s)' % t)
        labels(ck, t, fn, 'nla3d::' + t)
    return f


def run(ck):
    ck.assumptions += ['names are compared exactly (case sensitive); unknown names are sampled as prefixes, extensions and neighbours of known ones']
    ck.part('element-names', lambda ck: lookup(ck, 'element', meth(ck, EF, 'elName2elType', 1), 'nla3d::ElementType', 'UNDEFINED'))
    ck.part('dof-names', lambda ck: lookup(ck, 'dof', meth(ck, DOF, 'label2dofType', 1), DOF + '::dofType', 'UNDEFINED'))
    ck.part('dof-labels', lambda ck: labels(ck, 'dof-label', meth(ck, DOF, 'dofType2label', 1), DOF + '::dofType'))
    ck.part('material-names', lambda ck: lookup(ck, 'material-name', meth(ck, MF, 'matName2matId', 1), MF + '::matId', 'NOT_DEFINED'))
    ck.part('component-names', lambda ck: lookup(ck, 'component', meth(ck, FC, 'typeFromString', 1), FC + '::typeOfComponent', 'NOT_DEFINED'))
    for t in ('scalarQuery', 'vectorQuery', 'tensorQuery'):
        ck.part(t, q2l(t))
    ck.part('elements', elements)
    ck.part('materials', materials)
