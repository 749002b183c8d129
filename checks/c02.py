"""Value analysis of the right-hand side and of the solution update over the segments c|s|l."""
from solver import *


def previous_values(r, ev, resid):
    """resid maps segment -> term that must be K*(previous prescribed values); returns (loc key, ok, why)"""
    return None


def strip_mv(term, matloc, r, c):
    """vector v with term == K[r,c] * v, or None"""
    lin = split_linear(term)
    if lin is None:
        return None
    out = ZERO_
    for k, a in lin:
        if a[0] != 'mv' or a[1] != matloc or a[2] != r or a[3] != c:
            return None
        out = out + k * Poly.atom(a[4])
    return out


def split_prev(v):
    """a loop-carried vector (its storage location) or None"""
    lin = split_linear(v)
    if lin is None or len(lin) != 1 or lin[0][0] != ONE_:
        return None
    a = lin[0][1]
    if a[0] == 'lh':
        return a[1], (a[2], a[3])
    return None


def check_prev(ck, r, ev, v, key, w):
    """v: the loop-carried previous prescribed values.  Invariant: it starts as zero and equals the prescribed values of
    the latest solve at the end of every iteration of every enclosing loop."""
    x = split_prev(v)
    if x is None:
        ck.ob(key + ':previous', w, False if not opaque_atoms(v, ('lh',)) else None,
              'the increment of the prescribed values is taken against the values of the previous iteration', 'subtracts %s' % show(v)[:300])
        return
    uid, loc = x
    seg = 'seg:c'
    loops = [k[1] for k, n in ev.loops]
    ubase = r.base(ev.extra['state'], 'getU')
    uk = (ubase[0], ubase[1] + (seg,))
    for d, l in enumerate(loops):
        ls = r.I.loopstates.get(l)
        if ls is None:
            ck.ob(key + ':previous', w, None, 'loop state', '')
            return
        ent = ls['entry'].get_raw(*loc)
        if d == 0:
            ok = isinstance(ent, Poly) and ent.is_zero()
            ck.ob(key + ':previous-starts-zero', w, ok, 'before the first iteration the previous prescribed values are zero', repr(ent)[:200])
        for nm in ('end', 'brk'):
            s = ls[nm]
            if s is None:
                continue
            b = s.get_raw(*loc)
            r.vm.fold(s, ubase)
            u = s.get_raw(*uk)
            ok = b is not None and u is not None and b == u
            if not ok and (u is None or b is None):
                ok = None
            ck.ob(key + ':previous-updated(%s,%d)' % (nm, d), w, ok, 'after an iteration the stored previous prescribed values equal the ones just applied',
                  'stored %s, applied %s' % (show(b)[:200] if isinstance(b, Poly) else b, show(u)[:200] if isinstance(u, Poly) else u))


def bad(v):
    return any(type(a) is tuple and a[0] in ('badvec', 'u') for a in atomset(v))


def run(ck):
    for cls, fn in solvers(ck):
        r = analyse(ck, cls, fn)
        if r.transient:
            continue
        name = cls.split('::')[-1]
        for n, ev in enumerate(r.evs('solveEquations')):
            w = ck.evat(ev)
            x = ev.extra
            st = x['state']
            K = r.base(st, 'getK')
            ck.ob('%s:matrix' % name, w, isinstance(x['A'], Ptr) and x['A'].loc == (('blk', K, (2, 2)), ()),
                  'the matrix solved is the unknown/constraint block of the stiffness matrix', repr(x['A']))
            if x['rhs'] is None:
                ck.ob('%s:rhs' % name, w, None, 'right-hand side', 'not interpreted')
                continue
            prevs = []
            for s, v in x['rhs']:
                F, R, Uc = r.seg(st, 'getF', s), r.seg(st, 'getR', s), r.seg(st, 'getU', 'c')
                want0 = F + R
                rest = v - want0 + r.vm.mv(K, None, s, 'c', Uc)
                if not r.nonlinear:
                    ok = rest.is_zero()
                    if not ok and bad(v):
                        ok = None
                    ck.ob('%s:rhs-%s' % (name, s), w, ok, 'rhs = F + R - Kcs^T * prescribed values on segment %s' % s, 'difference: %s' % show(rest)[:500])
                else:
                    p = strip_mv(rest, K, s, 'c')
                    ok = p is not None
                    if not ok and bad(v):
                        ok = None
                    ck.ob('%s:rhs-%s' % (name, s), w, ok, 'rhs = F + R - Kcs^T * (increment of prescribed values) on segment %s' % s, 'difference: %s' % show(rest)[:500])
                    if p is not None:
                        prevs.append(p)
            if r.nonlinear and prevs:
                ck.ob('%s:rhs-same-increment' % name, w, all(p == prevs[0] for p in prevs), 'the same increment is used in all segments', '')
                check_prev(ck, r, ev, prevs[0], name, w)
            # the unknowns
            ups = [u for u in r.evs('updateResults') if u.seq > ev.seq]
            for u in ups[:1]:
                us = u.extra['state']
                for s in ('s', 'l'):
                    got = r.seg(us, 'getU', s)
                    new = Poly.atom(('x', ev.line, s))
                    if r.nonlinear and s == 's':
                        want = r.seg(st, 'getU', s) + new
                        txt = 'unknown values are increased by the solved increment'
                    else:
                        want = new
                        txt = 'the solved values are stored as the current values of segment ' + s
                    ok = got == want
                    if not ok and bad(got):
                        ok = None
                    ck.ob('%s:update-%s' % (name, s), ck.evat(u), ok, txt, 'stored %s' % show(got)[:300])
                got = r.seg(us, 'getU', 'c')
                ck.ob('%s:update-c' % name, ck.evat(u), got == r.seg(st, 'getU', 'c'), 'prescribed values are published unchanged', show(got)[:300])
        mm = r.evs('segment-mismatch', 'view-misaligned')
        ck.ob('%s:segments' % name, ck.evat(mm[0]) if mm else ck.at(fn), not mm, 'vector operations combine equal segments only', repr(mm)[:400])
