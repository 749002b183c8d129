"""VTK files: the written token sequence parsed by the grammar of the format and compared with the model, for models with every element shape and symbolic numbers."""
from world import *
from streams import Tokens, items

VP = 'nla3d::VtkProcessor'
FS = 'nla3d::FEStorage'
EL = 'nla3d::Element'
# shape -> nodes, VTK cell type code
SHAPES = {'VERTEX': (1, 1), 'TWIN_VERTEX': (2, 2), 'LINE': (2, 3), 'TRIANGLE': (3, 5), 'QUAD': (4, 9), 'TETRA': (4, 10), 'HEXAHEDRON': (8, 12), 'WEDGE': (6, 13)}
U = ('UX', 'UY', 'UZ')


def sy(*k):
    return Poly.atom(('sym',) + k)


def enum(ck, *names):
    for n in names:
        e = ck.p.enums.get(n)
        if e:
            return {x['n']: int(x['v']) for x in e['c']}
    raise AnalysisBroken(names[0])


class Model(World):
    """symbolic model: `shapes` per element, nodal and element DoFs in use, answers of the elements to result queries"""

    def __init__(self, ck, nn, shapes, nodal=(), elemental=(), unused=(), answers=None, types=None):
        super().__init__(ck)
        self.nn, self.shapes, self.nodal, self.elemental, self.unused = nn, shapes, nodal, elemental, set(unused)
        self.dofs = enum(ck, 'nla3d::Dof::dofType')
        self.shape = enum(ck, 'nla3d::ElementShape')
        self.answers = answers or (lambda el, kind, q: True)
        self.types = types
        I = self.I
        I.stream_ok = True
        I.keep_states = False
        self.bad = []
        n1 = lambda I, st, e, k=1: as_int(I.num(I.val(st, e['c'][k])))

        def hook(cls, name, f):
            I.hooks[cls + '::' + name] = f
        hook(FS, 'nNodes', lambda I, st, e: c(nn))
        hook(FS, 'nElements', lambda I, st, e: c(len(shapes)))

        def element(I, st, e):
            k = n1(I, st, e)
            if k is None or not 1 <= k <= len(shapes):
                self.bad.append('element %s' % k)
                return Ref((('El', k), ()), EL)
            return Ref((('El', k), ()), EL)
        hook(FS, 'getElement', element)
        self.deformed = set()

        def position(I, st, e):
            k = n1(I, st, e)
            if k is None or not 1 <= k <= nn:
                self.bad.append('position of node %s' % k)
            p = I.val(st, e['c'][2])
            d = bool_of(I.val(st, e['c'][3])) if len(e['c']) > 3 else FALSE
            for i in range(3):
                I.store_to(st, I.padd(p, Poly.const(i), 'double *').loc, sy('x', k, i, repr(d)))
            return ZERO_
        hook(FS, 'getNodePosition', position)

        def used(kind, pool):
            def f(I, st, e):
                k, d = n1(I, st, e), n1(I, st, e, 2)
                return TRUE if (kind, k, self.dofname(d)) not in self.unused and self.dofname(d) in pool else FALSE
            return f
        hook(FS, 'isNodeDofUsed', used('n', nodal))
        hook(FS, 'isElementDofUsed', used('e', elemental))

        def sol(kind, pool, what):
            def f(I, st, e):
                if len(e['c']) < 3:
                    return NotImplemented
                k, d = n1(I, st, e), self.dofname(n1(I, st, e, 2))
                if what == 'U' and (d not in pool or (kind, k, d) in self.unused):
                    self.bad.append('solution of an unused DoF %s at %s' % (d, k))
                if what == 'R' and (d not in pool or (kind, k, d) in self.unused):
                    return ZERO_
                return sy(what, kind, k, d)
            return f
        hook(FS, 'getNodeDofSolution', sol('n', nodal, 'U'))
        hook(FS, 'getElementDofSolution', sol('e', elemental, 'U'))
        hook(FS, 'getReaction', sol('n', nodal, 'R'))

        def unique(pool):
            def f(I, st, e):
                o = ('uniq', I.nuid())
                v = sorted(self.dofs[d] for d in pool)
                for i, x in enumerate(v):
                    I.write(st, (o, (('i', c(i)),)), c(x))
                I.write(st, (o, ('$size',)), c(len(v)))
                return Ref((o, ()), 'std::set<nla3d::Dof::dofType>')
            return f
        hook(FS, 'getUniqueNodeDofTypes', unique(nodal))
        hook(FS, 'getUniqueElementDofTypes', unique(elemental))
        el = lambda I, st, e: self.elem(I.loc(st, e['c'][0]) if not e.get('arrow') else I.deref(st, I.val(st, e['c'][0])))
        hook(EL, 'getNNodes', lambda I, st, e: c(SHAPES[shapes[el(I, st, e) - 1]][0]))
        hook(EL, 'getShape', lambda I, st, e: c(self.shape[shapes[el(I, st, e) - 1]]))
        hook(EL, 'getType', lambda I, st, e: c(self.type(el(I, st, e))))

        def number(I, st, e):
            k, j = el(I, st, e), n1(I, st, e)
            if j is None or not 0 <= j < SHAPES[shapes[k - 1]][0]:
                self.bad.append('node %s of element %d' % (j, k))
            o = (('ndno', k, j), ())
            I.write(st, o, sy('node', k, j))
            return RetLoc(o)
        hook(EL, 'getNodeNumber', number)

        def query(kind, cnt):
            def f(I, st, e):
                k = el(I, st, e)
                p = I.val(st, e['c'][1])
                q = n1(I, st, e, 2)
                if q is None:
                    return NotImplemented
                sc = I.num(I.val(st, e['c'][4])) if len(e['c']) > 4 else ONE_
                if self.answers(k, kind, q):
                    l = I.deref(st, p)
                    for i in range(cnt):
                        x = l if cnt == 1 else (l[0], l[1] + ('data', ('i', c(i))))
                        I.store_to(st, x, I.num(I.read(st, x, 'double')) + sc * sy(kind, k, q, i))
                    return TRUE
                return FALSE
            return f
        hook(EL, 'getScalar', query('scalar', 1))
        hook(EL, 'getVector', query('vector', 3))
        hook(EL, 'getTensor', query('tensor', 6))
        self.st_ = Ptr(('S', ()), FS + ' *')
        self.v = self.make('vtk', self.st_)

    def type(self, k):
        return (self.types[k - 1] if self.types else sorted(SHAPES).index(self.shapes[k - 1]))

    def dofname(self, d):
        return next((n for n, v in self.dofs.items() if v == d), '?')

    def elem(self, l):
        o = l[0] if type(l) is tuple else None
        if type(o) is tuple and o and o[0] == 'El':
            return o[1]
        raise AnalysisBroken('element of the model')

    def go(self, site, *a):
        return self.call(free(self.ck, 'verif_witness::' + site, 1 + len(a)), [Ptr(self.v, VP + ' *')] + [c(x) for x in a])

    def label(self, d):
        fn = self.ck.p.method('nla3d::Dof', 'dofType2label', 1)
        r = self.call(fn, [c(self.dofs[d])])
        return r.s if isinstance(r, Str) else None

    def qlabel(self, t, q):
        fn = next((f for f in self.ck.p.fns.values() if f['n'] == 'nla3d::query2label' and f['params'][0]['t'].endswith(t)), None)
        r = self.call(fn, [c(q)])
        return r.s if isinstance(r, Str) else None

    def written(self):
        """[(file name, tokens)]; None when the output is conditional"""
        files = {e.args[0].loc[0] for e in opened(self) if isinstance(e.args[0], Ref)}
        its = [(e, v) for e, v in items(self.I) if isinstance(e.args[0], Ref) and e.args[0].loc[0] in files]
        if any(e.guards for e, _ in its):
            return None
        order = []
        by = {}
        for e, v in its:
            o = e.args[0].loc[0]
            if o not in by:
                by[o] = []
                order.append(o)
            by[o].append((e, v))
        return [(o, Tokens(by[o])) for o in order]


def as_int(x):
    return int(x.cval()) if isinstance(x, Poly) and x.is_const() else None


def opened(M):
    """file names opened for writing"""
    return [e for e in M.I.events if e.name in ('ctor:std::basic_ofstream', 'std:basic_ofstream::open')]


class Bad(Exception):
    pass


def parse(T):
    """legacy VTK file -> dict(points=[..], cells=[[..]], types=[..], point={name: (comp, rows)}, cell={...})"""
    L = T.lines
    if len(L) < 4 or not L[0] or L[0][:2] != ['#', 'vtk'] or 'Version' not in L[0]:
        raise Bad('the first line is not the format header')
    if L[2] != ['ASCII']:
        raise Bad('the third line is not ASCII')
    if L[3] != ['DATASET', 'UNSTRUCTURED_GRID']:
        raise Bad('the data set is not an unstructured grid')
    t = [x for l in L[4:] for x in l]
    i = 0

    def nx(what):
        nonlocal i
        if i >= len(t):
            raise Bad('the file ends where %s is expected' % what)
        i += 1
        return t[i - 1]

    def word(w):
        x = nx(w)
        if x != w:
            raise Bad('%s where %s is expected' % (show_any(x), w))

    def count(what):
        x = nx(what)
        x = int(x) if isinstance(x, str) and x.isdigit() else as_int(x)
        if x is None:
            raise Bad('%s where the %s is expected' % (show_any(t[i - 1]), what))
        return x

    def value(what):
        x = nx(what)
        if isinstance(x, Poly):
            return x
        if isinstance(x, str):
            try:
                return Poly.const(Fraction(x))
            except ValueError:
                pass
        raise Bad('%s where %s is expected' % (show_any(x), what))
    out = dict(point={}, cell={})
    word('POINTS')
    n = count('number of points')
    if nx('type') not in ('float', 'double'):
        raise Bad('type of the points')
    out['points'] = [[value('a coordinate') for _ in range(3)] for _ in range(n)]
    word('CELLS')
    m, size = count('number of cells'), count('size of the cell list')
    out['cells'] = []
    used = 0
    for _ in range(m):
        k = count('number of nodes of a cell')
        out['cells'].append([value('a node of a cell') for _ in range(k)])
        used += k + 1
    if used != size:
        raise Bad('the cell list declares %d entries and has %d' % (size, used))
    word('CELL_TYPES')
    k = count('number of cell types')
    if k != m:
        raise Bad('%d cell types for %d cells' % (k, m))
    out['types'] = [count('cell type') for _ in range(m)]
    where, rows = None, 0
    seen = []
    while i < len(t):
        w = nx('section')
        if w in ('POINT_DATA', 'CELL_DATA'):
            if w in seen:
                raise Bad('two sections %s' % w)
            seen.append(w)
            where = 'point' if w == 'POINT_DATA' else 'cell'
            rows = count('number of tuples')
            if rows != (n if where == 'point' else m):
                raise Bad('%s declares %d tuples for %d' % (w, rows, n if where == 'point' else m))
        elif w in ('SCALARS', 'VECTORS') and where:
            name = nx('name')
            if isinstance(name, tuple) and name[0] == 'glued' and all(isinstance(x, (str, Str)) for x in name[1]):
                name = ''.join(x if isinstance(x, str) else x.s for x in name[1])
            if not isinstance(name, str):
                raise Bad('name of a data array: %s' % show_any(name))
            if name in out[where]:
                raise Bad('two data arrays %s' % name)
            if nx('type') not in ('float', 'double'):
                raise Bad('type of %s' % name)
            k = 3
            if w == 'SCALARS':
                k = 1
                if i < len(t) and t[i] != 'LOOKUP_TABLE':
                    k = count('number of components')
                word('LOOKUP_TABLE')
                nx('lookup table')
            out[where][name] = (w, [[value('value %d of %s' % (r, name)) for _ in range(k)] for r in range(rows)])
        else:
            raise Bad('%s where a section or data array is expected' % show_any(w))
    return out


def rows_equal(a, b):
    if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)):
        return False
    r = True
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            k = compare(p, q)
            if k is False:
                return False
            if k is None:
                r = None
    return r


def deny(rows):
    return str([[show_any(x) for x in r] for r in rows])[:300]


def check_file(ck, M, key, where, T, queries=(), deformed=FALSE):
    try:
        d = parse(T)
    except Bad as ex:
        known = all(isinstance(x, str) or isinstance(x, Poly) and not opaque_atoms(x) for x in T.t)
        ck.ob(key + ':format', where, False if known or isinstance(ex, Bad) and 'value' not in str(ex) else None, 'the file follows the VTK format', str(ex))
        return
    ck.ob(key + ':format', where, True, 'the file follows the VTK format')
    ck.ob(key + ':points', where, rows_equal(d['points'], [[sy('x', i + 1, j, repr(deformed)) for j in range(3)] for i in range(M.nn)]),
          'one point per node with its %s position, in order' % ('deformed' if deformed == TRUE else 'initial'), deny(d['points']))
    ck.ob(key + ':cells', where, rows_equal(d['cells'], [[sy('node', k + 1, j) - 1 for j in range(SHAPES[s][0])] for k, s in enumerate(M.shapes)]),
          'one cell per element with its nodes counted from zero', deny(d['cells']))
    ck.ob(key + ':types', where, d['types'] == [SHAPES[s][1] for s in M.shapes], 'every cell has the code of its shape', '%s for %s' % (d['types'], M.shapes))
    pd, cd = {}, {}
    if any(u in M.nodal for u in U):
        pd['disp'] = ('VECTORS', [[sy('U', 'n', i, u) if u in M.nodal and ('n', i, u) not in M.unused else ZERO_ for u in U] for i in range(1, M.nn + 1)])
        pd['reaction'] = ('VECTORS', [[sy('R', 'n', i, u) if u in M.nodal and ('n', i, u) not in M.unused else ZERO_ for u in U] for i in range(1, M.nn + 1)])
    for dn in M.nodal:
        if dn not in U:
            pd[M.label(dn)] = ('SCALARS', [[sy('U', 'n', i, dn) if ('n', i, dn) not in M.unused else ZERO_] for i in range(1, M.nn + 1)])
    ne = len(M.shapes)
    for dn in M.elemental:
        cd[M.label(dn)] = ('SCALARS', [[sy('U', 'e', i, dn) if ('e', i, dn) not in M.unused else ZERO_] for i in range(1, ne + 1)])
    comp = ('XX', 'XY', 'XZ', 'YY', 'YZ', 'ZZ')
    for kind, q in queries:
        lab = M.qlabel(kind + 'Query', q)
        v = lambda e, i: sy(kind, e, q, i) if M.answers(e, kind, q) else ZERO_
        if kind == 'scalar':
            cd[lab] = ('SCALARS', [[v(e, 0)] for e in range(1, ne + 1)])
        elif kind == 'vector':
            cd[lab] = ('VECTORS', [[v(e, i) for i in range(3)] for e in range(1, ne + 1)])
        else:
            for i, s in enumerate(comp):
                cd['%s_%s' % (lab, s)] = ('SCALARS', [[v(e, i)] for e in range(1, ne + 1)])
    for sec, want in (('point', pd), ('cell', cd)):
        got = d[sec]
        ck.ob('%s:%s-arrays' % (key, sec), where, set(got) == set(want), 'the %s data arrays are those of the model' % sec, 'written %s, should be %s' % (sorted(got), sorted(map(str, want))))
        for nme in want:
            if nme in got:
                ck.ob('%s:%s:%s' % (key, sec, nme), where, got[nme][0] == want[nme][0] and rows_equal(got[nme][1], want[nme][1]),
                      'one tuple per %s, holding its value' % ('node' if sec == 'point' else 'element'), deny(got[nme][1]))
    if M.bad:
        ck.ob(key + ':access', where, False, 'only existing nodes, elements and DoFs in use are asked for', '; '.join(M.bad[:3]))


ALL = list(SHAPES)


def scenario(ck, key, nn, shapes, nodal, elemental, unused=(), queries=(), answers=None):
    M = Model(ck, nn, shapes, nodal, elemental, unused, answers)
    for kind, q in queries:
        M.go('vtk' + kind.capitalize(), q)
    names = []
    for site, a, w in (('vtkPre', (), 'pre'), ('vtkStep', (7,), 'process'), ('vtkStep', (12,), 'process')):
        M.I.events.clear()
        M.go(site, *a)
        fn = ck.p.method(VP, w, len(a))
        where = ck.at(fn) if fn else '-'
        fs = M.written()
        tag = key + ':' + w + (str(a[0]) if a else '')
        if fs is None or not fs:
            ck.ob(tag, where, None, 'the written text is determined', 'conditional output')
            continue
        ck.ob(tag + ':one', where, len(fs) == 1, 'one file is written per step', '%d streams' % len(fs))
        op = opened(M)
        names.append(repr(op[-1].args[1:2]) if op else None)
        check_file(ck, M, tag, where, fs[0][1], queries)
        hard = [e for e in M.I.events if ends(e) and not e.guards]
        if hard:
            ck.ob(tag + ':fatal', where, False, 'writing results does not end the program', repr(hard)[:200])
    want = ["('out%d.vtk',)" % k for k in (0, 7, 12)]
    ck.ob(key + ':names', '-', True if names == want else False if len(names) == 3 and None not in names and not any('opq' in n for n in names) else None,
          'the files are numbered by step, starting with 0 for the initial state', str(names)[:300])


def deformed(ck):
    fn = ck.p.method(VP, 'write_geometry', 2)
    if fn is None:
        raise AnalysisBroken('write_geometry')
    for d in (FALSE, TRUE):
        M = Model(ck, 3, ['QUAD', 'LINE'], U, ())
        M.I.events.clear()
        hdr = ck.p.method(VP, 'write_header', 1)
        if hdr is None:
            raise AnalysisBroken('write_header')
        M.call(hdr, [('lref', ('@f', ()))], Ref(M.v, VP))
        M.call(fn, [('lref', ('@f', ())), d], Ref(M.v, VP))
        T = Tokens(items(M.I, '@f'))
        try:
            p = parse(T)
        except Bad as ex:
            ck.ob('geometry:%s:format' % d, ck.at(fn), False, 'the geometry follows the VTK format', str(ex))
            continue
        ck.ob('geometry:%s:points' % d, ck.at(fn), rows_equal(p['points'], [[sy('x', i + 1, j, repr(d)) for j in range(3)] for i in range(3)]),
              'the points are the %s node positions' % ('deformed' if d == TRUE else 'initial'), deny(p['points']))


def reveal(ck):
    """writeAllResults: every result some element can give is written, and no other"""
    qs = {k: [v for n, v in enum(ck, 'nla3d::%sQuery' % k).items() if n not in ('UNDEF', 'LAST')] for k in ('scalar', 'vector', 'tensor')}
    shapes = ['QUAD', 'LINE', 'QUAD', 'TETRA']
    types = [3, 5, 3, 1]
    sel = lambda k, q: [1] if q == qs[k][-1] else [5] if q == qs[k][0] else [t for t in (3, 5) if (q + t // 2) % 3]
    ans = lambda e, k, q: types[e - 1] in sel(k, q)
    M = Model(ck, 2, shapes, ('TEMP',), (), (), ans, types)
    M.go('vtkAll')
    want = [(k, q) for k in ('scalar', 'vector', 'tensor') for q in qs[k] if sel(k, q)]
    for site, a, w in (('vtkPre', (), 'pre'), ('vtkStep', (1,), 'process')):
        M.I.events.clear()
        M.go(site, *a)
        fn = ck.p.method(VP, w, len(a))
        fs = M.written()
        if not fs:
            ck.ob('all-results:' + w, ck.at(fn), None, 'the written text is determined', 'conditional output')
            continue
        check_file(ck, M, 'all-results:' + w, ck.at(fn), fs[0][1], want)


def again(ck):
    """a processor used for a second analysis describes the second model"""
    M = Model(ck, 2, ['LINE'], ('UX', 'TEMP', 'ROTX'), ('HYDRO_PRESSURE',))
    M.go('vtkPre')
    M.I.events.clear()
    N = Model(ck, 2, ['LINE'], ('TEMP',), ())
    M.nodal, M.elemental = N.nodal, N.elemental
    for f in ('isNodeDofUsed', 'isElementDofUsed', 'getNodeDofSolution', 'getElementDofSolution', 'getReaction', 'getUniqueNodeDofTypes', 'getUniqueElementDofTypes'):
        M.I.hooks[FS + '::' + f] = N.I.hooks[FS + '::' + f]
    M.go('vtkPre')
    fs = M.written()
    fn = ck.p.method(VP, 'pre', 0)
    if not fs:
        raise AnalysisBroken('second run')
    M.bad += N.bad
    check_file(ck, M, 'again', ck.at(fn), fs[-1][1])


def run(ck):
    q = {k: [v for n, v in enum(ck, 'nla3d::%sQuery' % k).items() if n not in ('UNDEF', 'LAST')] for k in ('scalar', 'vector', 'tensor')}
    ck.part('mechanics', scenario, 'mechanics', 4, ALL, ('UX', 'UY', 'UZ'), (), (), [('tensor', q['tensor'][0]), ('vector', q['vector'][0])])
    ck.part('plane', scenario, 'plane', 3, ['TRIANGLE', 'QUAD', 'LINE'], ('UX', 'UY', 'TEMP'), ('HYDRO_PRESSURE',), [('n', 2, 'UY'), ('n', 1, 'TEMP'), ('e', 2, 'HYDRO_PRESSURE')],
            [('scalar', q['scalar'][0]), ('scalar', q['scalar'][-1]), ('tensor', q['tensor'][-1])], lambda e, k, x: e != 2)
    ck.part('thermal', scenario, 'thermal', 3, ['QUAD', 'TRIANGLE'], ('TEMP',), ())
    ck.part('depth', scenario, 'depth', 2, ['VERTEX', 'TWIN_VERTEX'], ('UZ',), ('HYDRO_PRESSURE',), [('n', 1, 'UZ')])
    ck.part('rotations', scenario, 'rotations', 2, ['LINE'], ('UY', 'ROTX', 'ROTZ'), (), [('n', 2, 'ROTZ')], [('vector', q['vector'][-1])])
    for kind in ('scalar', 'vector', 'tensor'):
        ck.part('only-' + kind, scenario, 'only-' + kind, 2, ['TRIANGLE', 'QUAD'], ('UX', 'UY'), (), (), [(kind, q[kind][0])])
    ck.part('only-element-dof', scenario, 'only-element-dof', 2, ['TRIANGLE', 'QUAD'], ('UX', 'UY'), ('HYDRO_PRESSURE',))
    ck.part('empty', scenario, 'empty', 0, [], ('UX',), ())
    ck.part('all-results', reveal)
    ck.part('geometry', deformed)
    ck.part('again', again)
    ck.assumptions = ['element shapes are those elements of the library have', 'results that contain NaN or infinities are not considered']
