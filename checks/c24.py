"""Convergence typestate of the incremental solver: what is known at publication, and which failures are fatal."""
from solver import *


def nl(ck, cls, fn):
    name = cls.split('::')[-1]
    r = analyse(ck, cls, fn)
    if not r.nonlinear:
        return
    crit = Poly.atom(('init', ('this', ('convergenceCriteria',))))
    ss = dict(r.vm.sizes(r.st))
    nU, nC = ss['s'], ss['c']
    solves = r.evs('solveEquations')
    last = solves[-1]
    # the measure: mean absolute increment of the unknown DoFs over the criterion
    measures = set()
    outs = r.evs('vcall:nla3d::PostProcessor::process')
    if not outs:
        raise AnalysisBroken('no publication')
    for e in outs:
        w = ck.evat(e)
        asm = [resolve(r, b) for b in e.assume] + [resolve(r, b) for b in e.guards]
        cands = {x for b in asm for x in lts(b)}
        good = None
        for b in cands:
            p = b.v[1]
            m = p + crit
            mm = measure(r, m, nU, nC, last)
            if mm is not None:
                measures.add(m)
                if entails(asm, b):
                    good = mm
        dec = any(opaque_atoms(b, ('lh', 'test', 'nextStep')) for b in asm)
        ck.ob(name + ':published-converged', w, True if good == 1 else None if dec and good is None and not measures else False,
              'a load step reaches the post-processors only when mean|increment of unknowns|/criterion < criterion in its last iteration',
              'known at this point: %s' % '; '.join(show_b(b)[:300] for b in asm))
    fat = r.evs('fatal')
    for m in measures:
        def fatal_when(key, cond, txt, depth):
            """some fatal is reached whenever cond holds (together with not converged)"""
            notconv = neg(lt(m - crit))
            ok = False
            for f in fat:
                if f.loops != last.loops:
                    continue
                g = conj([resolve(r, b) for b in f.guards])
                if entails2([notconv, cond], g):
                    ok = True
            ck.ob('%s:%s' % (name, key), ck.evat(fat[0]) if fat else ck.at(fn), ok, txt, 'fatal errors under: %s' % '; '.join(show_b(conj([resolve(r, b) for b in f.guards]))[:300] for f in fat))
        fatal_when('diverged-fatal', lt(Poly.const(1000000) - m), 'a convergence measure above 1e6 ends the analysis', 2)
        fatal_when('nan-fatal', B(('isnan', m)), 'a NaN convergence measure ends the analysis', 2)
    # an iteration without convergence either repeats, or ends in a fatal error
    lim = Poly.atom(('init', ('this', ('numberOfIterations',))))
    # new iterations happen only within the limit, and each starts a new equilibrium step
    es = r.evs('nextEquilibriumStep')
    ck.ob(name + ':iteration-counted', ck.evat(es[0]) if es else ck.at(fn), len(es) == 1 and not es[0].guards and es[0].loops == last.loops,
          'every iteration is counted by the time control', repr(es)[:200])
    it = last.loops[-1][0][1]
    ls = r.I.loopstates.get(it)
    end = ls['end'] if ls else None
    if end is None:
        ck.ob(name + ':iteration-limit', ck.evat(last), None, 'iteration limit', 'no loop state')
    else:
        asm = [resolve(r, b) for b in end.assume] + [resolve(r, b) for b in end.guards]
        if ls['cond'] is not None and isinstance(ls['cond'], B):
            asm.append(resolve(r, ls['cond']))
        tv = end_eqstep(end)
        want = [lt(Poly.atom(('eqstep', tv)) - lim), lt(Poly.atom(('eqstep', tv)) - lim, True)]
        ok = any(entails(asm, x) for x in want)
        if not ok:
            ok = None if any(opaque_atoms(b, ('lh',)) for b in asm) else False
        ck.ob(name + ':iteration-limit', ck.evat(last), ok, 'another iteration is started only while the number of iterations is below the limit',
              '; '.join(show_b(b)[:200] for b in asm))


def end_eqstep(st):
    for o, d in st.store.items():
        for k, v in d.items():
            if k and k[-1] == '$ever':
                return v
    return ZERO_


def lts(b):
    if b.v[0] == 'lt':
        return {b}
    if b.v[0] in ('and', 'or'):
        return {y for x in b.v[1] for y in lts(x)}
    if b.v[0] == 'not':
        return lts(b.v[1])
    return set()


def measure(r, m, nU, nC, last):
    """1 when m is mean|increment of unknowns| / criterion, 0 when it is that shape over something else, None otherwise"""
    crit = Poly.atom(('init', ('this', ('convergenceCriteria',))))
    x = m * crit * nU
    a = x.single_atom()
    if a is None or type(a) is not tuple or a[0] != 'sum' or x != Poly.atom(a):
        return None
    n, body = a[-2], a[-1]
    f = body.single_atom() if isinstance(body, Poly) else None
    if n != nU or f is None or body != Poly.atom(f) or f[0] != 'app' or f[1] not in ('fabs', 'abs'):
        return 0
    arg = f[2][0] if isinstance(f[2], tuple) else f[2]
    e = arg.single_atom()
    if e is None:
        return 0
    if e[0] != 'init' or type(e[1][0]) is not tuple or e[1][0][0] != 'vel':
        return 0
    vo, path = e[1]
    snap = r.vm.vsnap.get(vo)
    if snap is None or snap[1] is None:
        return None
    off = path[0][1]
    bv = [q for q in atomset(off) if type(q) is tuple and q[0] == 'bv']
    if len(bv) != 1:
        return 0
    off = off - Poly.atom(bv[0])
    pos = ZERO_
    for s, z in snap[1]:
        if pos == off:
            v = snap[2][s]
            return 1 if v == Poly.atom(('x', last.line, s)) and s == 's' else 0
        pos = pos + z
    return 0


def entails2(bs, g):
    """bs imply g, for g a conjunction of (disjunctions of) literals"""
    if g == TRUE or g in bs:
        return True
    if g.v[0] == 'and':
        return all(entails2(bs, x) for x in g.v[1])
    if g.v[0] == 'or':
        return any(entails2(bs, x) for x in g.v[1])
    # a NaN measure is not below anything: every comparison with it is false
    return False


def run(ck):
    for cls, fn in solvers(ck):
        ck.part(cls.split('::')[-1], nl, cls, fn)
