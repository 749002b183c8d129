"""Abstract domain for the solver level: global vectors as linear terms over the segments
c (constrained), s (unknown), l (constraint equations); sparse products as linear operators.

A dense vector object is a view (base, offset, size); every base keeps one linear term per segment.  Element-wise
writes (operator[], raw pointers) go to an element log of the base and are folded back when they cover the view."""
from terms import *
from ai import *
from stdmodel import base_name

D = 'nla3d::math::dVec'
BM = 'nla3d::math::BlockSparseSymMatrix'
FS = 'nla3d::FEStorage'


def is_vec_atom(a):
    if type(a) is not tuple:
        return False
    if a[0] in ('vec', 'mv', 'x', 'one', 'scat', 'scatadd', 'scat?', 'badvec'):
        return True
    if a[0] in ('sum', 'psum'):
        return any(is_vec_atom(x) for x in atomset(a[-1]))
    if a[0] in ('lh', 'lo') and len(a) > 3 and type(a[3]) is tuple and a[3] and isinstance(a[3][-1], str) and a[3][-1].startswith('seg:'):
        return True
    return False


def split_linear(p):
    """Poly -> list of (scalar coefficient Poly, vector atom) or None when not linear in vector atoms"""
    out = {}
    for m, c in p.t.items():
        va = [(a, e) for a, e in m if is_vec_atom(a)]
        if len(va) != 1 or va[0][1] != 1:
            return None
        rest = Poly({tuple((a, e) for a, e in m if not is_vec_atom(a)): c})
        out[va[0][0]] = out.get(va[0][0], ZERO_) + rest
    return [(c, a) for a, c in out.items()]


class VecModel:
    def __init__(self, I, storage_loc, prog):
        self.I = I
        self.prog = prog
        self.storage = storage_loc
        self.hooks = {}
        self.velseg = {}
        self.vsnap = {}
        h = I.hooks
        h[D + '::dVec'] = self.ctor
        for n in ('reinit', 'zero', 'fill', 'ptr', 'size', 'operator[]', 'operator+', 'operator-', 'operator*', 'operator/',
                  'operator+=', 'operator-=', 'operator=', 'isInit', 'clear', '~dVec'):
            h[D + '::' + n] = getattr(self, 'm_' + {'operator[]': 'at', 'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul',
                                                     'operator/': 'div', 'operator+=': 'iadd', 'operator-=': 'isub', 'operator=': 'assign',
                                                     '~dVec': 'clear'}.get(n, n))
        h['nla3d::math::operator*'] = self.f_mul
        h['nla3d::math::matBVprod'] = lambda I, st, e: self.prod(I, st, e, False)
        h['nla3d::math::matBTVprod'] = lambda I, st, e: self.prod(I, st, e, True)
        h[BM + '::block'] = self.block
        for n in ('solveEquations', 'factorizeEquations', 'substituteEquations'):
            h['nla3d::math::EquationSolver::' + n] = (lambda n: lambda I, st, e: self.eqsolve(I, st, e, n))(n)
        h['nla3d::math::BaseSparseMatrix::getValuesArray'] = self.values_array
        h['nla3d::math::BaseSparseMatrix::nValues'] = self.n_values
        h['nla3d::math::SparseSymMatrix::SparseSymMatrix'] = self.sym_ctor
        h['nla3d::math::BaseSparseMatrix::zero'] = self.mat_zero
        for n in ('assembleGlobalEqMatrices', 'initDofs', 'assignEquationNumbers', 'initSolutionData', 'updateResults', 'setConstrainedNodeDof',
                  'addValueR', 'getNodeDofEqNumber', 'deleteSolutionData'):
            h[FS + '::' + n] = (lambda n: lambda I, st, e: self.storage_call(I, st, e, n))(n)
        self.segsize = None
        I.on_loop = self.fold_all

    def fold_all(self, st):
        for vo in [o for o in st.store if type(o) is tuple and o and o[0] == 'vel']:
            if st.store[vo].get(('[]',)) is not None and self.vel(st, vo[1]) == vo:
                self.fold(st, vo[1])

    # ------------------------------------------------------------------ layout
    def sizes(self, st):
        if self.segsize is None:
            r = []
            for n in ('nConstrainedDofs', 'nUnknownDofs', 'nMpc'):
                f = self.prog.fn(FS + '::' + n)
                r.append(('csl'[len(r)], self.I.num(self.I.inline(st.copy(), f, [], Ref(self.storage, FS), None))))
            self.segsize = r
        return self.segsize

    def layout_for(self, st, size):
        ss = self.sizes(st)
        for i in range(3):
            for j in range(i + 1, 4):
                t = ZERO_
                for _, n in ss[i:j]:
                    t = t + n
                if t == size:
                    return ss[i:j]
        return None

    def view(self, st, loc):
        """(base loc, offset, size)"""
        obj, path = loc
        v = st.get_raw(obj, path + ('$view',))
        if isinstance(v, Opq) and v.k[0] == 'view':
            return v.k[1], v.k[2], v.k[3]
        if obj == self.storage[0]:
            t = ZERO_
            for _, n in self.sizes(st):
                t = t + n
            return loc, ZERO_, t
        return loc, ZERO_, None

    def setview(self, st, loc, base, off, size):
        st.objd(loc[0])[loc[1] + ('$view',)] = Opq('view', base, off, size)

    def base_layout(self, st, base):
        if base[0] == self.storage[0]:
            return self.sizes(st)
        v = st.get_raw(base[0], base[1] + ('$bsize',))
        if v is None:
            return None
        return self.layout_for(st, v)

    def segs(self, st, base, off, size):
        lay = self.base_layout(st, base)
        if lay is None or size is None:
            return None
        pos = ZERO_
        for i in range(len(lay)):
            if pos == off:
                t = ZERO_
                for j in range(i, len(lay)):
                    t = t + lay[j][1]
                    if t == size:
                        return [n for n, _ in lay[i:j + 1]]
                return None
            pos = pos + lay[i][1]
        return None

    # ------------------------------------------------------------------ values
    def vel(self, st, base):
        v = st.get_raw(base[0], base[1] + ('$ver',))
        return ('vel', base, v if v is not None else ZERO_)

    def raw(self, st, base, s):
        v = st.get_raw(base[0], base[1] + ('seg:' + s,))
        return v if isinstance(v, Poly) else Poly.atom(('vec', self.bname(base), s))

    def bname(self, base):
        return base

    def getseg(self, st, base, s):
        self.fold(st, base)
        return self.raw(st, base, s)

    def get(self, st, loc):
        b, o, n = self.view(st, loc)
        return self.getv(st, b, o, n)

    def getv(self, st, base, off, size):
        sg = self.segs(st, base, off, size)
        if sg is None:
            return None
        return [(s, self.getseg(st, base, s)) for s in sg]

    def setsegs(self, st, base, vals):
        self.fold(st, base)
        d = st.objd(base[0])
        for s, v in vals:
            d[base[1] + ('seg:' + s,)] = v
        d[base[1] + ('$ver',)] = Poly.const(self.I.nuid())

    def setbad(self, st, base, why):
        lay = self.base_layout(st, base)
        if lay is None:
            lay = [('c', 0), ('s', 0), ('l', 0)]
        self.setsegs(st, base, [(s, Poly.atom(('badvec', why, self.I.nuid(), s))) for s, _ in lay])

    def fold(self, st, base):
        """element-wise writes to the base become segment terms"""
        vo = self.vel(st, base)
        d = st.store.get(vo)
        log = d.get(('[]',)) if d else None
        if log is None:
            return
        del st.objd(vo)[('[]',)]
        lay = self.base_layout(st, base)
        ents = []
        for e in log.ents:
            if type(e) is dict:
                ents += [Entry('w', k, v) for k, v in e.items()]
            else:
                ents.append(e)
        dd = st.objd(base[0])
        for e in ents:
            done = False
            if lay is not None and e.kind in ('w', 'accum') and len(e.q) == 1 and e.guard == TRUE and e.q[0][1] is not None and len(e.idx) == 1:
                k, n = e.q[0]
                if lin_coeff(e.idx[0], k) == 1:
                    off = e.idx[0] - Poly.atom(k)
                    sg = self.segs(st, base, off, n)
                    if sg is not None and isinstance(e.val, Poly):
                        new = []
                        for s in sg:
                            v = self.elementwise(st, e.val, k, base, off, sg, s)
                            if v is None:
                                new = None
                                break
                            new.append((s, v))
                        if new is not None:
                            for s, v in new:
                                key = base[1] + ('seg:' + s,)
                                dd[key] = v + self.raw(st, base, s) if e.kind == 'accum' else v
                            done = True
            if not done:
                touched = self.velseg.get(vo) or ([s for s, _ in lay] if lay else ['c', 's', 'l'])
                for s in touched:
                    key = base[1] + ('seg:' + s,)
                    dd[key] = Poly.atom(({'w': 'scat', 'wx': 'scat', 'accum': 'scatadd'}.get(e.kind, 'scat?'), s, self.raw(st, base, s), e.idx, e.val, tuple((k, n) for k, n in e.q), e.guard))
        dd[base[1] + ('$ver',)] = Poly.const(self.I.nuid())

    def elementwise(self, st, v, k, base, off, sg, s):
        """value of segment s of a vector whose element (off + k) is v(k)"""
        r = ZERO_
        lay0 = self.base_layout(st, base)
        pos = sg.index(s)
        for m, c in v.t.items():
            el = [(a, x) for a, x in m if type(a) is tuple and a[0] == 'init' and type(a[1]) is tuple and type(a[1][0]) is tuple and a[1][0] and a[1][0][0] == 'vel']
            if any(occurs(a, k) for a, x in m if (a, x) not in el):
                return None
            rest = Poly({tuple(y for y in m if y not in el): c})
            if not el:
                r = r + rest * Poly.atom(('one', s))
                continue
            if len(el) != 1 or el[0][1] != 1:
                return None
            a = el[0][0]
            vo, path = a[1]
            idx = path[0][1]
            if lin_coeff(idx, k) != 1 or vo not in self.vsnap:
                return None
            o2 = idx - Poly.atom(k)
            b2, lay, vals = self.vsnap[vo]
            if lay is None:
                return None
            p = ZERO_
            for i, (n2, z2) in enumerate(lay):
                if p == o2:
                    if i + pos >= len(lay) or [x for x, _ in lay[i:i + len(sg)]] != sg:
                        return None
                    r = r + rest * vals[lay[i + pos][0]]
                    break
                p = p + z2
            else:
                return None
        return r

    # ------------------------------------------------------------------ dVec methods
    def ctor(self, I, st, e, loc):
        args = e['c']
        if e.get('copy') or e.get('move'):
            src = I.loc(st, args[0])
            b, o, n = self.view(st, src)
            vals = self.getv(st, b, o, n)
            self.fresh(st, loc, n, vals)
            return
        if not args:
            self.setview(st, loc, loc, ZERO_, ZERO_)
            return
        self.init(I, st, loc, args)

    def fresh(self, st, loc, n, vals):
        self.setview(st, loc, loc, ZERO_, n)
        if n is not None:
            st.objd(loc[0])[loc[1] + ('$bsize',)] = n
        if vals is None:
            self.setbad(st, loc, 'unknown content')
        else:
            self.setsegs(st, loc, vals)

    def init(self, I, st, loc, args):
        if 'dVec' in args[0]['t']:
            src = I.loc(st, args[0])
            b, o, n = self.view(st, src)
            off = I.num(I.val(st, args[1]))
            size = I.num(I.val(st, args[2]))
            if b == loc:
                return
            self.setview(st, loc, b, o + off, size)
            if self.segs(st, b, o + off, size) is None:
                I.event(st, 'view-misaligned', [Ref(loc, D), Ref(b, D), o + off, size])
            return
        n = I.num(I.val(st, args[0]))
        v = I.num(I.val(st, args[1])) if len(args) > 1 else ZERO_
        st.objd(loc[0])[loc[1] + ('$bsize',)] = n
        lay = self.layout_for(st, n)
        self.fresh(st, loc, n, None if lay is None else [(s, v * Poly.atom(('one', s)) if not v.is_zero() else ZERO_) for s, _ in lay])

    def obj(self, I, st, e):
        b = e['c'][0]
        if e.get('arrow') or is_ptr(b['t']):
            return I.deref(st, I.val(st, b))
        return I.loc(st, b)

    def m_reinit(self, I, st, e):
        self.init(I, st, self.obj(I, st, e), e['c'][1:])
        return ZERO_

    def write(self, I, st, loc, vals, what, e):
        b, o, n = self.view(st, loc)
        sg = self.segs(st, b, o, n)
        if sg is None or vals is None:
            self.setbad(st, b, what)
            return
        if [s for s, _ in vals] != sg and len(vals) == len(sg) and what == 'fill':
            vals = list(zip(sg, [v for _, v in vals]))
        if [s for s, _ in vals] != sg:
            I.event(st, 'segment-mismatch', [Str(what), Str(''.join(sg)), Str(''.join(s for s, _ in vals))], node=e)
            self.setbad(st, b, what)
            return
        self.setsegs(st, b, vals)

    def m_zero(self, I, st, e):
        l = self.obj(I, st, e)
        b, o, n = self.view(st, l)
        sg = self.segs(st, b, o, n)
        self.write(I, st, l, None if sg is None else [(s, ZERO_) for s in sg], 'fill', e)
        return ZERO_

    def m_fill(self, I, st, e):
        l = self.obj(I, st, e)
        v = I.num(I.val(st, e['c'][1]))
        b, o, n = self.view(st, l)
        sg = self.segs(st, b, o, n)
        self.write(I, st, l, None if sg is None else [(s, v * Poly.atom(('one', s))) for s in sg], 'fill', e)
        return ZERO_

    def m_clear(self, I, st, e):
        return ZERO_

    def m_isInit(self, I, st, e):
        return TRUE

    def m_size(self, I, st, e):
        b, o, n = self.view(st, self.obj(I, st, e))
        return n if n is not None else Poly.atom(I.fresh('size'))

    def m_ptr(self, I, st, e):
        return self.elem(I, st, self.obj(I, st, e), ZERO_)

    def elem(self, I, st, loc, i):
        b, o, n = self.view(st, loc)
        vo = self.vel(st, b)
        sg = self.segs(st, b, o, n)
        if sg is not None and vo in self.velseg and set(sg) != set(self.velseg[vo]) and not I.loops:
            d = st.store.get(vo)
            if d and d.get(('[]',)) is not None:
                self.fold(st, b)
                vo = self.vel(st, b)
        self.velseg.setdefault(vo, [])
        for s in sg or [s for s, _ in (self.base_layout(st, b) or [('c', 0), ('s', 0), ('l', 0)])]:
            if s not in self.velseg[vo]:
                self.velseg[vo].append(s)
        if vo not in self.vsnap:
            lay = self.base_layout(st, b)
            self.vsnap[vo] = (b, lay, {s: self.raw(st, b, s) for s, _ in lay} if lay else None)
        return Ptr((vo, (('i', o + i),)), 'double *')

    def m_at(self, I, st, e):
        l = self.obj(I, st, e)
        i = I.num(I.val(st, e['c'][1]))
        p = self.elem(I, st, l, i)
        if not is_ref(e['t']) and not e.get('lv'):
            return RetLoc(p.loc)
        return RetLoc(p.loc)

    def operand(self, I, st, node):
        return self.get(st, I.loc(st, node))

    def result(self, I, st, e, vals):
        t = (I.fresh_obj('T', e), ())
        n = None
        if vals is not None:
            n = ZERO_
            for s, z in self.sizes(st):
                if s in [x for x, _ in vals]:
                    n = n + z
        self.fresh(st, t, n, vals)
        return Ref(t, D)

    def zipv(self, I, st, e, a, b, f, what):
        if a is None or b is None:
            return None
        if [s for s, _ in a] != [s for s, _ in b]:
            I.event(st, 'segment-mismatch', [Str(what), Str(''.join(s for s, _ in a)), Str(''.join(s for s, _ in b))], node=e)
            return None
        return [(s, f(x, y)) for (s, x), (_, y) in zip(a, b)]

    def m_add(self, I, st, e):
        a, b = self.operand(I, st, e['c'][0]), self.operand(I, st, e['c'][1])
        return self.result(I, st, e, self.zipv(I, st, e, a, b, lambda x, y: x + y, '+'))

    def m_sub(self, I, st, e):
        a = self.operand(I, st, e['c'][0])
        if len(e['c']) == 1:
            return self.result(I, st, e, None if a is None else [(s, -x) for s, x in a])
        b = self.operand(I, st, e['c'][1])
        return self.result(I, st, e, self.zipv(I, st, e, a, b, lambda x, y: x - y, '-'))

    def m_mul(self, I, st, e):
        a = self.operand(I, st, e['c'][0])
        k = I.num(I.val(st, e['c'][1]))
        return self.result(I, st, e, None if a is None else [(s, x * k) for s, x in a])

    def m_div(self, I, st, e):
        a = self.operand(I, st, e['c'][0])
        k = I.num(I.val(st, e['c'][1]))
        return self.result(I, st, e, None if a is None else [(s, x * inv(k)) for s, x in a])

    def f_mul(self, I, st, e):
        if 'dVec' not in e['c'][1]['t']:
            return NotImplemented
        k = I.num(I.val(st, e['c'][0]))
        a = self.operand(I, st, e['c'][1])
        return self.result(I, st, e, None if a is None else [(s, x * k) for s, x in a])

    def inplace(self, I, st, e, f, what):
        l = I.loc(st, e['c'][0])
        a = self.get(st, l)
        b = self.operand(I, st, e['c'][1])
        self.write(I, st, l, self.zipv(I, st, e, a, b, f, what), what, e)
        return Ref(l, D)

    def m_iadd(self, I, st, e):
        return self.inplace(I, st, e, lambda x, y: x + y, '+=')

    def m_isub(self, I, st, e):
        return self.inplace(I, st, e, lambda x, y: x - y, '-=')

    def m_assign(self, I, st, e):
        l = I.loc(st, e['c'][0])
        src = e['c'][1]
        if 'dVec' not in src['t']:
            return NotImplemented
        s = I.loc(st, src)
        b, o, n = self.view(st, l)
        b2, o2, n2 = self.view(st, s)
        vals = self.getv(st, b2, o2, n2)
        if n is not None and n2 is not None and n != n2:
            # a vector of another size is re-created (a view loses its target)
            self.fresh(st, l, n2, vals)
            return Ref(l, D)
        self.write(I, st, l, vals, '=', e)
        return Ref(l, D)

    # ------------------------------------------------------------------ matrices
    def block(self, I, st, e):
        m = self.obj(I, st, e)
        ix = [I.num(I.val(st, a)) for a in e['c'][1:]]
        if len(ix) == 1:
            ix = [ix[0], ix[0]]
        if not all(x.is_const() for x in ix):
            return Ptr((('blk', m, tuple(ix)), ()), e['t'])
        a, b = sorted(int(x.cval()) for x in ix)
        return Ptr((('blk', m, (a, b)), ()), e['t'])

    def mat(self, loc):
        """(matrix loc, rows, cols) of a block object"""
        o, p = loc
        if type(o) is tuple and o and o[0] == 'blk' and not p and all(isinstance(x, int) for x in o[2]):
            sg = {1: ['c'], 2: ['s', 'l']}
            if all(x in sg for x in o[2]):
                return o[1], sg[o[2][0]], sg[o[2][1]]
        return None

    def mver(self, st, m):
        v = st.get_raw(m[0], m[1] + ('$mver',))
        return v if v is not None else ZERO_

    def mv(self, m, ver, r, c, v):
        lin = split_linear(v)
        if lin is None:
            return Poly.atom(('badvec', 'nonlinear', r, v))
        out = ZERO_
        for k, a in lin:
            out = out + k * Poly.atom(('mv', m, r, c, a))
        return out

    def prod(self, I, st, e, transposed):
        if len(e['c']) < 4 or 'Sparse' not in e['c'][0]['t']:
            return NotImplemented
        ml = I.loc(st, e['c'][0])
        v = self.operand(I, st, e['c'][1])
        k = I.num(I.val(st, e['c'][2]))
        rl = I.loc(st, e['c'][3])
        r = self.get(st, rl)
        m = self.mat(ml)
        I.event(st, 'prod', [Ref(ml, ''), Str('T' if transposed else 'N')], node=e)
        if m is None or v is None or r is None:
            self.write(I, st, rl, None, 'product', e)
            return ZERO_
        mm, rows, cols = m
        if transposed:
            rows, cols = cols, rows
        if [s for s, _ in v] != cols or [s for s, _ in r] != rows:
            I.event(st, 'segment-mismatch', [Str('product'), Str(''.join(cols) + '->' + ''.join(rows)),
                                             Str(''.join(s for s, _ in v) + '->' + ''.join(s for s, _ in r))], node=e)
            self.write(I, st, rl, None, 'product', e)
            return ZERO_
        ver = self.mver(st, mm)
        out = []
        for rs, rv in r:
            t = rv
            for cs, cv in v:
                t = t + k * self.mv(mm, ver, rs, cs, cv)
            out.append((rs, t))
        self.write(I, st, rl, out, 'product', e)
        return ZERO_

    def values_array(self, I, st, e):
        o = self.obj(I, st, e)
        return Ptr((('vals', o), (('i', ZERO_),)), 'double *')

    def sym_ctor(self, I, st, e, loc):
        if len(e['c']) == 1 and 'shared_ptr' in e['c'][0]['t']:
            n = e['c'][0]
            while n['k'] in ('construct', 'cast') and n['c']:
                n = n['c'][0]
            if n['k'] == 'mcall' and n['n'].endswith('::getSparsityInfo'):
                o = self.obj(I, st, n)
                st.objd(loc[0])[loc[1] + ('$si',)] = Opq('siof', o)
                return
            st.objd(loc[0])[loc[1] + ('$si',)] = Opq(*I.fresh('si'))
            return
        return NotImplemented

    def mat_zero(self, I, st, e):
        o = self.obj(I, st, e)
        I.clear_obj(st, ('vals', o))
        I.zero_obj(st, (('vals', o), ()))
        return ZERO_

    def n_values(self, I, st, e):
        o = self.obj(I, st, e)
        return Poly.atom(('nvalues', self.sparsity_of(st, o)))

    def sparsity_of(self, st, o):
        v = st.get_raw(o[0], o[1] + ('$si',))
        return v.k[1] if isinstance(v, Opq) and v.k[0] == 'siof' else v if v is not None else o

    # ------------------------------------------------------------------ equation solver and storage
    def vec_at(self, st, p, segs):
        """segment terms of the raw array p points to"""
        if not (isinstance(p, Ptr) and p.loc and type(p.loc[0]) is tuple and p.loc[0][0] == 'vel'):
            return None, None
        base = p.loc[0][1]
        off = p.loc[1][0][1]
        lay = self.base_layout(st, base)
        if lay is None:
            return None, None
        pos = ZERO_
        for i, (n, z) in enumerate(lay):
            if pos == off and [x for x, _ in lay[i:i + len(segs)]] == segs:
                return base, [(s, self.getseg(st, base, s)) for s in segs]
            pos = pos + z
        return base, None

    def eqsolve(self, I, st, e, n):
        args = [I.val(st, a) for a in e['c'][1:]]
        A = args[0]
        snap = None
        if n != 'factorizeEquations' and len(args) >= 3:
            m = self.mat(A.loc) if isinstance(A, Ptr) and A.loc else None
            rows = m[1] if m else ['s', 'l']
            rb, rhs = self.vec_at(st, args[1], rows)
            xb, _ = self.vec_at(st, args[2], rows)
            snap = dict(A=A, rhs=rhs, xbase=xb, rows=rows, state=st.copy(), xok=_ is not None)
            if xb is not None:
                if _ is None:
                    self.setbad(st, xb, 'solution into misaligned view')
                else:
                    self.setsegs(st, xb, [(s, Poly.atom(('x', e['l'], s))) for s in rows])
        else:
            snap = dict(A=A, state=st.copy())
        I.event(st, n, args, extra=snap, node=e)
        return ZERO_

    def storage_call(self, I, st, e, n):
        this = self.obj(I, st, e)
        args = [I.val(st, a) for a in e['c'][1:]]
        I.event(st, n, args, node=e, extra=dict(state=st.copy()))
        if n == 'assembleGlobalEqMatrices':
            for g in ('getF',):
                b = self.getter(st, g)
                if b is not None:
                    self.setsegs(st, b, [(s, Poly.atom(('vec', ('asm', 'F'), s))) for s, _ in self.sizes(st)])
            for g in ('getK', 'getC', 'getM'):
                b = self.getter(st, g)
                if b is not None:
                    st.objd(b[0])[b[1] + ('$mver',)] = Poly.const(I.nuid())
        elif n == 'initSolutionData':
            pass
        elif n == 'addValueR':
            b = self.getter(st, 'getR')
            if b is not None:
                self.setsegs(st, b, [(s, self.getseg(st, b, s) + Poly.atom(('scat', s, 'R', tuple(args)))) for s, _ in self.sizes(st)])
        elif n == 'getNodeDofEqNumber':
            return Poly.atom(('eqn',) + tuple(args))
        return ZERO_

    def getter(self, st, name):
        f = self.prog.fn(FS + '::' + name)
        m = self.I.muted
        self.I.muted = 1
        try:
            r = self.I.inline(st.copy(), f, [], Ref(self.storage, FS), None)
        finally:
            self.I.muted = m
        return r.loc if isinstance(r, Ptr) else None
