"""Event-order and effect analysis of the global assembly."""
import re
from storage import *

BUILD = {'buildK': ('matK', 'vecF'), 'buildC': ('matC',), 'buildM': ('matM',)}


def assembly(ck):
    r = analyse(ck, 'assembleGlobalEqMatrices', 0)
    ev = r.ev
    tr = B(('test', ('init', ('this', ('transient',)))))
    zero = {}
    for e in ev:
        if e.name in ('bm:zero', 'vec:zero') and not e.loops:
            zero.setdefault(e.args[0], e)

    def before_ok(z, e):
        """z happens before e, and whenever e happens"""
        if z is None:
            return False
        return z.seq < e.seq and all(g in e.guards for g in real_guards(z))

    n = size_of('elements')
    for b, targets in BUILD.items():
        calls = [e for e in ev if e.name == 'vcall:nla3d::Element::' + b]
        w = ck.evat(calls[0]) if calls else ck.at(r.fn)
        ok, why = exactly_once(calls, lambda e: recv_el(e.args[0], 'elements'), n, TRUE if b == 'buildK' else tr)
        ck.ob(b + ':once', w, ok, 'every element is asked exactly once for its %s contribution%s' % (b, '' if b == 'buildK' else ' in transient analyses'), why)
        for t in targets:
            z = zero.get(t)
            for e in calls:
                ck.ob('%s:zeroed-before-%s' % (t, b), ck.evat(e), before_ok(z, e), '%s is zeroed before the first element contributes to it' % t,
                      'no zeroing found before' if z is None else 'zeroed at line %s under %r' % (z.line, z.guards))
    # nothing is zeroed (or overwritten) after the first contribution
    for t, first in (('matK', 'buildK'), ('vecF', 'buildK'), ('matC', 'buildC'), ('matM', 'buildM')):
        fs = [e.seq for e in ev if e.name == 'vcall:nla3d::Element::' + first]
        late = [e for e in ev if e.name in ('bm:zero', 'vec:zero') and e.args[0] == t and fs and e.seq > fs[0]]
        inl = [e for e in ev if e.name in ('bm:zero', 'vec:zero') and e.args[0] == t and e.loops]
        bad = (late + inl)
        ck.ob('%s:not-zeroed-later' % t, ck.evat(bad[0]) if bad else ck.at(r.fn), not bad, '%s is not zeroed after contributions were added' % t, '%d later zeroings' % len(bad))
    # constraints
    upd = [e for e in ev if e.name == 'vcall:nla3d::MpcCollection::update']
    terms = [e for e in ev if e.name == 'bm:addValue']
    rhs = [e for e in ev if e.name == 'vec:write' and e.args[0] == 'vecF']
    w = ck.evat(upd[0]) if upd else ck.at(r.fn)
    ok, why = exactly_once(upd, lambda e: recv_el(e.args[0], 'mpcCollections'), size_of('mpcCollections'))
    ck.ob('mpc:update', w, ok, 'every constraint collection is updated once', why)
    ck.ob('mpc:update-first', w, bool(upd) and bool(terms) and all(u.seq < t.seq for u in upd for t in terms + rhs),
          'constraint coefficients are updated before they are added', '')
    bk = [e for e in ev if e.name == 'vcall:nla3d::Element::buildK']
    z = zero.get('matK')
    for e in terms:
        ck.ob('mpc:after-zero', ck.evat(e), before_ok(z, e), 'constraint terms are added after the matrix was zeroed', '')
        ok = None
        if len(e.loops) == 2 and None not in (e.loops[0][1], e.loops[1][1]):
            ok = e.loops[0][1] == size_of('mpcs') and not real_guards(e)
        ck.ob('mpc:all', ck.evat(e), ok, 'every constraint contributes once', 'loops %r guards %r' % (e.loops, e.guards))
    ck.ob('mpc:terms', ck.at(r.fn), len(terms) == 1 if len(terms) < 2 else None, 'constraint terms are added at one place', '%d' % len(terms))


def zeroing(ck):
    """zero() of the block matrix reaches every block and clears every stored value"""
    p = ck.p
    SP = 'nla3d::math::'
    cls = sorted(c for c in p.records if c.startswith('nla3d::math::BlockSparseSymMatrix<'))
    found = 0

    def z(I, st, e):
        l = recv(I, st, e)
        I.event(st, 'zero', [Ref(l, '')], node=e)
        return ZERO_
    for c in cls:
        fn = p.method(c, 'zero', 0)
        if fn is None:
            continue
        found += 1
        n = int(re.search(r'<(\d+)', c).group(1))
        I = ck.interp()
        for k in ('BaseSparseMatrix', 'SparseMatrix', 'SparseSymMatrix'):
            I.hooks[SP + k + '::zero'] = z
        ck.run(I, fn)
        got = set()
        for e in I.events:
            if e.name == 'zero':
                got.add((show_any(e.args[0]), bool(e.loops), bool(e.guards)))
        ck.ob('block-zero-%d' % n, ck.at(fn), len(got) == n * (n + 1) // 2 and not any(x[1] or x[2] for x in got), 'all stored blocks are zeroed', repr(sorted(got)))
    if not found:
        raise AnalysisBroken('BlockSparseSymMatrix::zero')
    for c in ('BaseSparseMatrix', 'SparseSymMatrix', 'SparseMatrix'):
        f = p.method(SP + c, 'zero', 0)
        if f is None or f.get('cls') != SP + c:
            continue
        I = ck.interp()
        st, _, _ = ck.run(I, f)
        n = I.read(st, (('*', ('this', ('si', '$p'))), ('numberOfValues',)), 'unsigned int')
        v = generic_elem(I, st, ('*', ('this', ('values',))), n)
        ck.ob(c + '::zero', ck.at(f), compare(v, ZERO_), 'every stored value becomes zero', show_any(v)[:300])
        return


def run(ck):
    ck.part('assembly', assembly)
    ck.part('zeroing', zeroing)
