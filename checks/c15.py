"""Effect summaries of element kinds: DoFs touched by assembly and result update versus DoFs registered before numbering."""
from elements import *

METHODS = ('buildK', 'buildC', 'buildM', 'update')


def keyset(e):
    a = e.args
    if e.name in ('readU', 'eqN'):
        return [('N', a[0], a[1])]
    if e.name in ('readUe', 'eqE'):
        return [('E', a[0], a[1])]
    if e.name in ('addF', 'addR') and len(a) == 3:
        return [('N', a[0], a[1])]
    if e.name in ('addK', 'addC', 'addM') and len(a) == 5:
        return [('N', a[0], a[1]), ('N', a[2], a[3])]
    return []


def one(ck, cls):
    name = cls.split('::')[-1]
    h = Harness(ck, cls)
    I = h.I
    h.call('pre')
    reg = {}
    names = {v: k for k, v in dof_enum(ck.p).items()}
    for e in h.events('regN') + h.events('regE'):
        if not isinstance(e.args[1], tuple):
            ck.ob(name + ':registration', ck.evat(e), None, 'registered DoFs are known', show_any(e.args[1]))
            return
        for d in e.args[1]:
            k = (e.name[-1], e.args[0], P(d))
            reg[k] = disj([reg.get(k, FALSE), conj(list(e.guards))])
    n0 = len(I.events)
    pre_used = [(e, k) for e in I.events for k in keyset(e)]
    used = {}
    for m in METHODS:
        fn = ck.p.method(cls, m, 0)
        if fn is None or not fn.get('body') or fn.get('cls') == EL:
            continue
        h.call(m)
        for e in I.events[n0:]:
            for k in keyset(e):
                used.setdefault((m, k), e)
        n0 = len(I.events)
    for q, np in (('getScalar', 4), ('getVector', 4), ('getTensor', 4)):
        fn = ck.p.method(cls, q, np)
        if fn is None or not fn.get('body') or fn.get('cls') == EL:
            continue
        args = [Ptr(('res', ()), fn['params'][0]['t']), None, Poly.const(0), Poly.atom(('sym', 'scale'))]
        try:
            h.call(q, args)
        except (Unsupported, AnalysisBroken):
            continue
        for e in I.events[n0:]:
            for k in keyset(e):
                used.setdefault((q, k), e)
        n0 = len(I.events)
    bym = {}
    for (m, k), e in used.items():
        bym.setdefault(m, []).append((k, e))
    if not reg:
        raise AnalysisBroken(cls + ' registers nothing')
    for m, ks in sorted(bym.items()):
        bad = und = None
        for k, e in ks:
            if not k[2].is_const() or (k[0] == 'N' and not (k[1].single_atom() and k[1].single_atom()[0] == 'nd')):
                und = und or (k, e)
            elif reg.get(k, FALSE) != TRUE:
                bad = bad or (k, e)
        x = bad or und
        ck.ob('%s::%s' % (name, m), ck.evat(x[1]) if x else ck.at(ck.p.method(cls, 'pre', 0)), False if bad else None if und else True,
              'every DoF used is registered unconditionally by pre()',
              '%s of %s %s' % (names.get(int(x[0][2].cval()), x[0][2]) if x[0][2].is_const() else x[0][2], 'node' if x[0][0] == 'N' else 'element', show(x[0][1])) if x else '%d DoFs' % len(ks))
    for e, k in pre_used:
        ck.ob('%s::pre' % name, ck.evat(e), False, 'equation numbers and solution are not used before numbering', repr(e)[:200])


def run(ck):
    for cls in concrete_elements(ck.p):
        ck.part(cls, lambda ck, cls=cls: one(ck, cls))
    ck.assumptions.append('an element is not asked for damping or mass matrices its kind does not provide (fatal error otherwise)')
