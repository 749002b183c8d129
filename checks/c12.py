"""Dense kernels: the value every kernel instantiation leaves in every entry, as polynomials in the operand entries, against the definition."""
import re
from common import *

MA = 'nla3d::math::'


def shape(t):
    t = strip_cv(strip_ref(t))
    m = re.match(r'nla3d::math::(Vec|MatSym)<(\d+)>$', t)
    if m:
        return m.group(1), int(m.group(2))
    m = re.match(r'nla3d::math::Mat<(\d+), *(\d+)>$', t)
    if m:
        return 'Mat', int(m.group(1)), int(m.group(2))
    return None


class Run:
    """one instantiation interpreted on symbolic operands"""

    def __init__(self, ck, fn, scal=()):
        self.ck, self.fn = ck, fn
        self.I = I = ck.interp()
        self.st = st = St()
        self.objs = {}
        if fn.get('cls'):
            self.objs['this'] = shape(fn['cls'])
            I.dyn_types['this'] = fn['cls']
        args = []
        self.scal = []
        for i, q in enumerate(fn['params']):
            s = shape(q['t'])
            if s:
                self.objs['@%d' % i] = s
                args.append(('lref', ('@%d' % i, ())) if is_ref(q['t']) else Ref(('@%d' % i, ()), strip_cv(q['t'])))
            elif i < len(scal) and scal[i] is not None:
                args.append(scal[i])
                self.scal.append(scal[i])
            else:
                v = Poly.atom(('sym', 'a%d' % i))
                args.append(v)
                self.scal.append(v)
        self.before = {o: self.get(o, s) for o, s in self.objs.items()}
        st, self.ret, _ = ck.run(I, fn, st, Ref(('this', ()), fn['cls']) if fn.get('cls') else None, args)
        self.after = {o: self.get(o, s) for o, s in self.objs.items()}

    def get(self, o, s, path=()):
        I, st = self.I, self.st
        rd = lambda p: I.num(I.read(st, (o, path + p), 'double'))
        ix = lambda k: ('i', Poly.const(k))
        if s[0] == 'Vec':
            return [rd(('data', ix(i))) for i in range(s[1])]
        if s[0] == 'Mat':
            return [[rd(('data', ix(i), 'data', ix(j))) for j in range(s[2])] for i in range(s[1])]
        n = s[1]
        out = [[None] * n for _ in range(n)]
        k = 0
        for i in range(n):
            for j in range(i, n):
                out[i][j] = out[j][i] = rd(('data', ix(k)))
                k += 1
        return out

    def result(self):
        r = self.ret
        s = shape(self.fn['rt'])
        if s and isinstance(r, (Ref, RetLoc)):
            return self.get(r.loc[0], s, r.loc[1])
        if isinstance(r, RetLoc):
            return self.I.num(self.I.read(self.st, r.loc, 'double'))
        return r

    def ret_is(self, o):
        l = getattr(self.ret, 'loc', None)
        return l is not None and l[0] == o and l[1] == ()


def lin(a, b, f):
    if isinstance(a, list):
        return [lin(x, y, f) for x, y in zip(a, b)]
    return f(a, b)


def mp(a, f):
    return [mp(x, f) for x in a] if isinstance(a, list) else f(a)


def mm(a, b):
    r = []
    for row in a:
        out = []
        for j in range(len(b[0])):
            t = ZERO_
            for k, x in enumerate(row):
                t = t + x * b[k][j]
            out.append(t)
        r.append(out)
    return r


def tr(a):
    return [list(x) for x in zip(*a)]


def col(v):
    return [[x] for x in v]


def flat(v):
    return [x[0] for x in v]


def det(m):
    if len(m) == 1:
        return m[0][0]
    t = ZERO_
    for j in range(len(m)):
        d = m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
        t = t + d if j % 2 == 0 else t - d
    return t


def adj(m):
    n = len(m)
    if n == 1:
        return [[ONE_]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            d = det([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i])
            out[j][i] = d if (i + j) % 2 == 0 else -d
    return out


def same_all(a, b):
    """True / False / None, with first difference"""
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return None, 'shape'
        und = None
        for i, (x, y) in enumerate(zip(a, b)):
            r, w = same_all(x, y)
            if r is False:
                return False, '[%d]%s' % (i, w)
            if r is None:
                und = '[%d]%s' % (i, w)
        return (True, '') if und is None else (None, und)
    r = compare(P(a), P(b))
    return r, ' is %s, should be %s' % (show(P(a))[:150], show(P(b))[:150])


def spec(name, R):
    """-> (expected result or None, {object: expected contents}, returned object or None)"""
    T = R.before.get('this')
    A = R.before.get('@0')
    Bm = R.before.get('@1')
    s = R.scal[0] if R.scal else None
    ps = R.fn['params']
    sh = R.objs.get('this')
    n = len(ps)
    if sh is None:
        if name in ('matBTDBprod', 'matABprod', 'matATBprod', 'matBTVprod', 'matBVprod') and n == 4:
            old = R.before['@3']
            c = R.scal[0]
            if name == 'matBTDBprod':
                v = mm(tr(A), mm(Bm, A))
            elif name == 'matABprod':
                v = mm(A, Bm)
            elif name == 'matATBprod':
                v = mm(tr(A), Bm)
            elif name == 'matBTVprod':
                v = flat(mm(tr(A), col(Bm)))
            else:
                v = flat(mm(A, col(Bm)))
            return None, {'@3': lin(old, v, lambda x, y: x + c * y)}, None
        if name == 'operator*' and n == 2 and R.objs.get('@0') and R.objs.get('@1'):
            if R.objs['@1'][0] == 'Vec':
                return flat(mm(A, col(Bm))), {}, None
            return mm(A, Bm), {}, None
        return None
    k = sh[0]
    z = lambda v: mp(v, lambda x: ZERO_)
    if name == 'operator+' and n == 1:
        return lin(T, A, lambda x, y: x + y), {}, None
    if name == 'operator-' and n == 1:
        return lin(T, A, lambda x, y: x - y), {}, None
    if name == 'operator-' and n == 0:
        return mp(T, lambda x: -x), {}, None
    if name == 'operator*' and n == 1:
        if R.objs.get('@0'):
            t = ZERO_
            for x, y in zip(T, A):
                t = t + x * y
            return t, {}, None
        return mp(T, lambda x: x * s), {}, None
    if name == 'operator+=' and n == 1:
        return None, {'this': lin(T, A, lambda x, y: x + y)}, 'this'
    if name == 'operator=' and n == 1 and R.objs.get('@0') == sh:
        return None, {'this': A}, 'this'
    if name == 'zero' and n == 0:
        return None, {'this': z(T)}, None
    if k == 'Vec':
        if name == 'qlength':
            return sum((x * x for x in T), ZERO_), {}, None
        if name == 'length':
            return sqrt(sum((x * x for x in T), ZERO_)), {}, None
        if name == 'operator[]':
            return T[int(s.cval())], {}, None
    if k == 'Mat':
        if name == 'transpose':
            return tr(T), {}, None
        if name == 'Identity' and sh[1] == sh[2]:
            return None, {'this': [[ONE_ if i == j else ZERO_ for j in range(sh[2])] for i in range(sh[1])]}, None
        if name == 'det' and sh[1] == sh[2]:
            return det(T), {}, None
        if name == 'inv' and sh[1] == sh[2]:
            return mp(adj(T), lambda x: x * inv(s)), {}, None
        if name == 'cross_cut':
            i, j = [int(x.cval()) for x in R.scal]
            return [r[:j] + r[j + 1:] for q, r in enumerate(T) if q != i], {}, None
        if name == 'operator[]':
            return T[int(s.cval())], {}, None
    if k == 'MatSym':
        if name == 'toMat':
            return T, {}, None
        if name == 'comp':
            i, j = [int(x.cval()) for x in R.scal]
            return T[i][j], {}, None
        if name == 'getLength':
            return Poly.const(sh[1] * (sh[1] + 1) // 2), {}, None
    return None


def size_label(fn):
    ss = [shape(fn['cls'])] if fn.get('cls') else []
    ss += [shape(q['t']) for q in fn['params'] if shape(q['t'])]
    return ','.join('x'.join(map(str, s[1:])) for s in ss if s)


def cost(fn):
    c = 1
    for q in fn['params']:
        s = shape(q['t'])
        if s:
            for d in s[1:]:
                c *= d
    return c


NAMES = ('matBTDBprod', 'matABprod', 'matATBprod', 'matBTVprod', 'matBVprod', 'operator*', 'operator+', 'operator-', 'operator+=', 'operator=', 'zero',
         'qlength', 'length', 'operator[]', 'transpose', 'Identity', 'det', 'inv', 'cross_cut', 'toMat', 'comp', 'getLength')


def kernel(ck, fn, scal, tag=''):
    name = fn['n'].split('::')[-1]
    R = Run(ck, fn, scal)
    sp = spec(name, R)
    if sp is None:
        return
    res, eff, ret = sp
    key = '%s(%s)%s' % (name if not fn.get('cls') else shape(fn['cls'])[0] + '::' + name, size_label(fn), tag)
    w = ck.at(fn)
    if name == 'inv' and R.objs['this'][1] == 1 or (name == 'inv'):
        # inv(d) is adj/d; for 1x1 with d = det
        if R.objs['this'][1] == 1:
            return
    if res is not None:
        r, why = same_all(R.result(), res)
        ck.ob(key + ':value', w, r, 'the returned value is the defined one, entry by entry', why)
    if ret is not None:
        ck.ob(key + ':ref', w, R.ret_is(ret), 'returns the object itself', show_any(R.ret))
    for o in R.objs:
        r, why = same_all(R.after[o], eff.get(o, R.before[o]))
        what = 'operand %s ends with exactly the defined entries' % o if o in eff else 'operand %s is not changed' % o
        ck.ob('%s:%s' % (key, o), w, r, what, why)


def cmp_spec(ck, fn):
    """compare(): false exactly when some pair of entries differs by more than eps"""
    R = Run(ck, fn)
    eps = R.scal[0]
    fl = lambda v: sum((fl(x) for x in v), []) if isinstance(v, list) else [v]
    a, b = R.before['this'], R.before['@0']
    if R.objs['this'][0] == 'MatSym':
        up = lambda m: [m[i][j] for i in range(len(m)) for j in range(i, len(m))]
        a, b = up(a), up(b)
    a, b = fl(a), fl(b)
    ret = R.ret if isinstance(R.ret, B) else bool_of(R.ret)
    key = '%s::compare(%s)' % (R.objs['this'][0], size_label(fn))
    res = True
    why = ''
    # evaluated at witnesses: equal operands; one entry off by less / more than eps, either sign
    def at(delta):
        sub = {('sym', 'a1'): Poly.const(1)}
        for i, y in enumerate(b):
            sub[y.single_atom()] = Poly.const(7 * i)
        for i, x in enumerate(a):
            sub[x.single_atom()] = Poly.const(7 * i) + delta.get(i, ZERO_)
        E = Eval()
        v = subst(ret, sub)
        if v == TRUE or v == FALSE:
            return v == TRUE
        try:
            r = E.b(v)
        except Exception:
            return None
        return None if E.opaque else r
    tests = [({}, True)]
    for i in range(len(a)):
        for d, want in ((Fraction(1, 2), True), (Fraction(-1, 2), True), (Fraction(3, 2), False), (Fraction(-3, 2), False)):
            tests.append(({i: Poly.const(d)}, want))
    for d, want in tests:
        g = at(d)
        if g is None:
            res, why = None, 'cannot evaluate %s' % show_any(ret)[:200]
            break
        if g != want:
            res, why = False, 'entries %s off by %s with eps 1: %s' % (list(d), [show(x) for x in d.values()], g)
            break
    ck.ob(key, ck.at(fn), res, 'returns false exactly when some pair of entries differs by more than eps', why)


def eigen(ck, fn):
    R = Run(ck, fn)
    res = R.result()
    T = R.before['this']
    key = 'Mat::eigenvalues'
    if not isinstance(res, list):
        raise AnalysisBroken(key)
    for seed in (1, 2, 3):
        E = Eval(seed)
        g = {}
        for i in range(3):
            for j in range(i, 3):
                v = E.mp.mpf(E.rng.randrange(-1000, 1000)) / 300
                E.vars[T[i][j].single_atom()] = E.vars[T[j][i].single_atom()] = v
        m = [[E(T[i][j]) for j in range(3)] for i in range(3)]
        tre = m[0][0] + m[1][1] + m[2][2]
        x = [E(v) for v in res]
        i2 = sum(m[i][i] * m[j][j] - m[i][j] * m[j][i] for i, j in ((0, 1), (1, 2), (0, 2)))
        d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
        ok = E.close(sum(x), tre, 12) and E.close(x[0] * x[1] + x[1] * x[2] + x[0] * x[2], i2, 12) and E.close(x[0] * x[1] * x[2], d, 12) and x[0] >= x[1] >= x[2]
        if E.opaque:
            ck.ob(key, ck.at(fn), None, '', repr(list(E.opaque)[:3]))
            return
        if not ok:
            ck.ob(key, ck.at(fn), False, 'the returned values are the roots of the characteristic polynomial of the symmetric matrix, largest first',
                  'sum %s (trace %s), product %s (determinant %s)' % (E.mp.nstr(sum(x), 8), E.mp.nstr(tre, 8), E.mp.nstr(x[0] * x[1] * x[2], 8), E.mp.nstr(d, 8)))
            return
    ck.ob(key, ck.at(fn), True, 'the returned values are the roots of the characteristic polynomial of the symmetric matrix, largest first')


def run(ck):
    lim = 3000 if ck.tier == 'quick' else 200000
    n = 0
    for fn in sorted(ck.p.fns.values(), key=lambda f: f['id']):
        if not fn.get('body') or not fn['file'].startswith(ck.p.repo):
            continue
        name = fn['n'].split('::')[-1]
        cls = fn.get('cls')
        if cls:
            if not shape(cls):
                continue
        elif not fn['n'].startswith(MA) or not any(shape(q['t']) for q in fn['params']):
            continue
        label = '%s(%s)' % (fn['n'], size_label(fn))
        if name == 'compare':
            ck.part(label, lambda ck, fn=fn: cmp_spec(ck, fn))
            continue
        if name == 'eigenvalues':
            ck.part(label, lambda ck, fn=fn: eigen(ck, fn))
            continue
        if name not in NAMES or cost(fn) > lim:
            continue
        n += 1
        sh = shape(cls) if cls else None
        if name in ('comp', 'cross_cut') and len(fn['params']) == 2:
            m, k = sh[1], sh[2] if len(sh) > 2 else sh[1]
            for i in range(m):
                for j in range(k):
                    if m > 6 and (i + j) % 3:
                        continue
                    ck.part(label, lambda ck, fn=fn, i=i, j=j: kernel(ck, fn, [Poly.const(i), Poly.const(j)], '[%d,%d]' % (i, j)))
        elif name == 'operator[]':
            for i in range(sh[1]):
                ck.part(label, lambda ck, fn=fn, i=i: kernel(ck, fn, [Poly.const(i)], '[%d]' % i))
        else:
            ck.part(label, lambda ck, fn=fn: kernel(ck, fn, []))
    ck.notes.append('%d kernel instantiations interpreted' % n)
    ck.assumptions.append('real arithmetic: rounding is not modelled')
