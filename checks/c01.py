"""Typestate of solve(): phase order, pairing and multiplicity of the phase calls of every solver class."""
from solver import *


def ctx(ev):
    return tuple(k for k, n in ev.loops)


def run(ck):
    for cls, fn in solvers(ck):
        r = analyse(ck, cls, fn)
        name = cls.split('::')[-1]
        w = ck.at(fn)

        def one(evname, what):
            es = r.evs(evname)
            ok = len(es) == 1 and not es[0].guards and not es[0].loops
            ck.ob('%s:%s-once' % (name, evname), ck.evat(es[0]) if es else w, ok,
                  '%s happens exactly once, unconditionally, outside all loops' % what,
                  '%d calls: %s' % (len(es), ['%s guards=%s loops=%d' % (e.where(), e.guards, len(e.loops)) for e in es]))
            return es[0] if es else None

        init = one('initDofs', 'DoF registration')
        num = one('assignEquationNumbers', 'equation numbering')
        alloc = one('initSolutionData', 'allocation of the equation system')
        con = r.evs('setConstrainedNodeDof')
        okc = len(con) >= 1 and all(not c.guards for c in con)
        if okc:
            a = con[0].args
            idx = field_index(a[0], 'fixs', 'node')
            idx2 = field_index(a[1], 'fixs', 'node_dof')
            size = Poly.atom(('init', ('this', ('fixs', '$size'))))
            okc = idx is not None and idx == idx2 and full_iteration(con[0], idx, size) and len(con) == 1
        ck.ob('%s:constraints-marked' % name, ck.evat(con[0]) if con else w, bool(okc),
              'every prescribed DoF is marked constrained, unconditionally', repr(con)[:300])
        seq = [('DoF registration', init), ('marking constrained DoFs', con[0] if con else None), ('equation numbering', num), ('allocation', alloc)]
        for (na, a), (nb, b) in zip(seq, seq[1:]):
            ck.ob('%s:order:%s<%s' % (name, na, nb), ck.evat(b) if b else w, a is not None and b is not None and a.seq < b.seq,
                  '%s precedes %s' % (na, nb), '')
        asm = r.evs('assembleGlobalEqMatrices')
        solves = r.evs('solveEquations', 'substituteEquations')
        facts = r.evs('factorizeEquations')
        upd = r.evs('updateResults')
        ck.ob('%s:solves' % name, w, bool(solves), 'the solver solves its equation system', '')
        for a in asm:
            ck.ob('%s:allocated-before-assembly' % name, ck.evat(a), alloc is not None and alloc.seq < a.seq, 'allocation precedes assembly', '')
        for s in solves + facts:
            if s.name == 'substituteEquations':
                f = [x for x in facts if x.seq < s.seq and not x.guards and ctx(s)[:len(ctx(x))] == ctx(x)]
                ck.ob('%s:factorized' % name, ck.evat(s), bool(f), 'a factorization of the system precedes substitution', '')
                continue
            a = [x for x in asm if x.seq < s.seq and ctx(x) == ctx(s) and not x.guards]
            ck.ob('%s:assembled-before-solve' % name, ck.evat(s), bool(a),
                  'each solution of the equation system is preceded by an assembly in the same iteration', 'solve at %s has no assembly in its iteration' % s.where())
        bcs = r.evs('addValueR')
        for s in solves:
            need = ctx(s) if s.name == 'solveEquations' else ctx(s)[:0]
            b = [x for x in bcs if x.seq < s.seq and ctx(x)[:len(need)] == need and not x.guards]
            ck.ob('%s:loads-before-solve' % name, ck.evat(s), bool(b), 'loads are applied (in the same iteration) before the system is solved', '')
            u = [x for x in upd if x.seq > s.seq and not x.guards and ctx(x) == ctx(s)]
            ck.ob('%s:published' % name, ck.evat(s), bool(u), 'each solution is published to the elements in the same iteration', '')
        for u in upd:
            ok = any(s.seq < u.seq and ctx(s) == ctx(u) for s in solves)
            ck.ob('%s:publish-after-solve' % name, ck.evat(u), ok, 'results are published only after the system of this iteration was solved', '')
        # post-processors
        size = Poly.atom(('init', ('this', ('postProcessors', '$size'))))

        def pp(which):
            es = r.evs('vcall:nla3d::PostProcessor::' + which)
            ok = len(es) == 1
            res = False
            if ok:
                e = es[0]
                idx = recv_index(e, 'postProcessors')
                if idx is None:
                    res = None
                else:
                    res = full_iteration(e, idx, size)
                    if res and not notnull_only(e.guards):
                        res = False
            ck.ob('%s:pp-%s' % (name, which), ck.evat(es[0]) if es else w, res,
                  'PostProcessor::%s is called exactly once for every post-processor' % which, repr(es)[:400])
            return es[0] if es else None
        pre, pro, post = pp('pre'), pp('process'), pp('post')
        if pre and alloc:
            first = min([x.seq for x in asm + solves] or [10 ** 9])
            ck.ob('%s:pre-before' % name, ck.evat(pre), alloc.seq < pre.seq < first and len(pre.loops) == 1,
                  'pre() runs after allocation and before the first assembly/solution', '')
        if pro:
            us = [u for u in upd if u.seq < pro.seq]
            outer = ctx(pro)[:-1]
            ok = bool(us) and all(ctx(u)[:len(outer)] == outer for u in us)
            ck.ob('%s:process-after-publish' % name, ck.evat(pro), ok, 'process() follows publication of its step', '')
            ck.ob('%s:process-per-step' % name, ck.evat(pro), not any(u.seq > pro.seq for u in upd) and not [s for s in solves if s.seq > pro.seq],
                  'no solution or publication follows process() within a step', '')
            steploop = ctx(solves[0]) if solves else ()
            want = 0 if not (r.nonlinear or r.transient) else 1
            ck.ob('%s:process-depth' % name, ck.evat(pro), len(outer) == want and outer == steploop[:want],
                  'process() is called once per step (not per iteration, not only at the end)', 'loop depth %d' % len(outer))
        if post:
            ck.ob('%s:post-last' % name, ck.evat(post), bool(pro) and post.seq > pro.seq and len(post.loops) == 1,
                  'post() runs once after the last step', '')


def field_index(v, container, field):
    """k when v is this->container[k].field"""
    a = v.single_atom() if isinstance(v, Poly) else None
    if a is None or a[0] != 'init':
        return None
    o, path = a[1]
    if o == 'this' and len(path) == 3 and path[0] == container and path[2] == field:
        return path[1][1]
    return None
