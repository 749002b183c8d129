"""Value analysis of the reaction vector after each static solve."""
from solver import *
from c02 import strip_mv, check_prev, bad


def run(ck):
    for cls, fn in solvers(ck):
        r = analyse(ck, cls, fn)
        if r.transient:
            continue
        name = cls.split('::')[-1]
        for ev in r.evs('solveEquations'):
            st0 = ev.extra['state']
            for u in [x for x in r.evs('updateResults') if x.seq > ev.seq][:1]:
                st = u.extra['state']
                w = ck.evat(u)
                K = r.base(st, 'getK')
                F, Uc = r.seg(st, 'getF', 'c'), r.seg(st0, 'getU', 'c')
                got = r.seg(st, 'getR', 'c')
                want = r.vm.mv(K, None, 'c', 'c', Uc) - F
                for s in ('s', 'l'):
                    want = want + Poly.atom(('mv', K, 'c', s, ('x', ev.line, s)))
                rest = got - want
                if not r.nonlinear:
                    ok = rest.is_zero() or (None if bad(got) else False)
                    ck.ob('%s:reaction' % name, w, ok, 'Rc = Kcc*Uc + Kcs*Us + Kcl*Ul - Fc', 'difference: %s' % show(rest)[:500])
                else:
                    p = strip_mv(-rest, K, 'c', 'c')
                    ok = True if p is not None else None if bad(got) else False
                    ck.ob('%s:reaction' % name, w, ok, 'Rc = Kcc*dUc + Kcs*dUs + Kcl*Ul - Fc', 'difference: %s' % show(rest)[:500])
                    if p is not None:
                        check_prev(ck, r, ev, p, name, w)
                for s in ('s', 'l'):
                    a, b = r.seg(st, 'getR', s), r.seg(st0, 'getR', s)
                    ck.ob('%s:applied-%s' % (name, s), w, a == b or (None if bad(a) else False), 'unconstrained equations keep their applied load', show(a - b)[:300])
            for q in r.evs('vcall:nla3d::PostProcessor::process'):
                if q.seq < ev.seq or not q.extra:
                    continue
                st = q.extra['state']
                us = [x for x in r.evs('updateResults') if x.seq > ev.seq]
                if us:
                    a = r.seg(st, 'getR', 'c')
                    b = r.seg(us[0].extra['state'], 'getR', 'c')
                    if not opaque_atoms(a, ('lh',)) or a == b:
                        ck.ob('%s:kept-until-process' % name, ck.evat(q), a == b, 'reactions reach post-processing unchanged', show(a - b)[:300])
