"""Ownership: histories of creating, handing over, clearing and destroying objects, interpreted with destructors of the dynamic type; every
allocation is released exactly once, in its own form, and never used afterwards. Deletes through base classes and copies of owning classes."""
import random
import time
from world import *

FS = 'nla3d::FEStorage'
KINDS = ('PLANE41', 'SOLID81', 'TRUSS3', 'TRIANGLE4', 'TETRA0', 'TETRA1', 'QUADTH', 'INTER0', 'INTER3')


def smart(p):
    """classes owned through smart pointers: not released by an explicit delete"""
    out = set()
    for r in p.records.values():
        for f in r['fields']:
            m = re.match(r'^std::(?:shared|unique)_ptr<(.*?)>$', strip_cv(f['t']))
            if m:
                out.add(strip_cv(m.group(1)))
    return out


class Stop(Exception):
    pass


class Life:
    def __init__(self, ck, key, direct=()):
        self.ck, self.key = ck, key
        self.W = World(ck)
        I = self.W.I
        I.run_dtors = True
        I.step_limit = 600000
        I.deadline = time.time() + 60
        I.freed = set()
        self.live, self.gone = {}, {}
        self.bad, self.und = [], []
        self.counted = []
        self.n = 0
        self.shared = smart(ck.p) - set(direct)
        self.log = []
        self.stop = False
        self.late = []

    def __call__(self, site, *a):
        I = self.W.I
        I.events.clear()
        self.log.append(site)
        r = self.W.call(free(self.ck, 'verif_witness::' + site, len(a)), [c(x) for x in a])
        self.scan()
        if self.W.st.dead:
            raise Stop
        return r

    def __enter__(self):
        return self

    def __exit__(self, kind, e, tb):
        if kind is Stop or kind is None:
            self.stop = kind is Stop
            self.end()
            return True
        if kind is Unsupported and self.bad:
            self.stop = True
            self.end()
            return True

    def ours(self, e, t):
        if t in self.shared:
            return False
        return not any(s[0].rsplit('::', 1)[0] in self.shared for s in e.stack)

    def scan(self):
        for e in self.W.I.events:
            cond = conj(e.guards) != TRUE
            if e.name == 'new':
                t = strip_cv(e.args[0].k[1] if e.args[0].k[0] == 'type' else '')
                if not self.ours(e, t) or t.startswith('el::'):
                    continue
                own = e.extra
                local = type(own) is tuple and type(own[0]) is tuple and own[0][:1] in (('L',), ('T',))
                self.live[e.args[2].loc[0]] = (e.args[1] != Opq('single'), t, e, cond, local)
                self.n += 1
            elif e.name in ('delete', 'delete[]'):
                v = e.args[0]
                where = self.ck.evat(e)
                if isinstance(v, Ptr) and v.loc is None:
                    continue
                if not isinstance(v, Ptr) or type(v.loc[0]) is not tuple or not v.loc[0] or v.loc[0][0] != 'H':
                    txt = show_any(v)
                    if isinstance(v, Ptr) and type(v.loc[0]) is tuple and v.loc[0][:1] in (('L',), ('T',)):
                        self.bad.append((where, 'releases an object that is not on the heap: %s' % txt))
                    else:
                        self.und.append((where, 'releases %s' % txt[:120]))
                    continue
                o = v.loc[0]
                if o in self.gone:
                    (self.und if cond else self.bad).append((where, '%s is released again (first at %s)' % (show_any(v)[:80], self.gone[o])))
                    continue
                if o not in self.live:
                    continue
                array, t, ne, _, _ = self.live[o]
                inner = [k for k in v.loc[1] if k != ('i', ZERO_)]
                if array != (e.name == 'delete[]'):
                    self.bad.append((where, 'allocated with new%s at line %s, released with %s' % ('[]' if array else '', ne.line, e.name)))
                if inner:
                    self.bad.append((where, 'releases an address inside the object: %s' % show_any(v)[:100]))
                if cond:
                    self.und.append((where, 'releases %s under a condition' % show_any(v)[:80]))
                self.gone[o] = where
                del self.live[o]
            elif e.name == 'use-after-free':
                x = e.args[0]
                (self.und if cond else self.bad).append((self.ck.evat(e), 'uses %s after its release at %s' % (show_any(x)[:80], self.gone.get(x.loc[0], 'this point'))))
            elif e.name in ('fatal', 'throw') or e.name.startswith('abort'):
                self.und.append((self.ck.evat(e), 'the history ends the program'))
        if self.bad or self.und:
            raise Stop  # nothing after the first defect is certain

    def count(self, site, obj, want):
        r = self.W.I.num(self(site, obj))
        if r != c(want):
            (self.und if opaque_atoms(r) else self.counted).append((self.ck.at(free(self.ck, 'verif_witness::' + site, 1)), '%s gives %s, should be %d' % (site[4:], show(r), want)))

    def end(self):
        """everything handed over must be gone by now"""
        ck = self.ck
        leak = [(ck.evat(e), '%s%s allocated here is never released' % (t, '[]' if a else '')) for a, t, e, cond, local in self.live.values() if not cond and not local]
        for a, t, e, cond, local in self.live.values():
            if cond and not local:
                self.und.append((ck.evat(e), '%s allocated under a condition' % t))
        where = ck.at(free(ck, 'verif_witness::' + self.log[0], None) if False else ck.p.method(FS, 'deleteMesh', 0) or next(iter(ck.p.fns.values())))
        hist = ' > '.join(x[4:] if x.startswith('life') else x for x in self.log)[:220]
        for tag, rule, lst in (('once', 'every object is released at most once, in the form it was allocated, and not used afterwards', self.bad),
                               ('leak', 'every object handed over is released', leak), ('count', 'a cleared container is empty and counts what it is given later', self.counted)):
            if tag == 'count' and not any('N' in x for x in self.log if x.startswith('lifeN')):
                continue
            ok = True if not lst else False
            if tag == 'leak' and self.stop:
                ok = None
            if ok and self.und and not (tag == 'count'):
                ok = None
            w = (lst or self.und or [(where, '')])[0]
            ck.ob('%s:%s' % (self.key, tag), w[0], ok, rule, '%s; history: %s' % (w[1], hist) if (lst or self.und) else '%d objects; history: %s' % (self.n, hist))


def enum(ck, n):
    e = ck.p.enums.get(n)
    if not e:
        raise AnalysisBroken(n)
    return {x['n']: int(x['v']) for x in e['c']}


FILL = {
    'nodes': lambda L, s: L('lifeNodes', s, 3),
    'node': lambda L, s: L('lifeNode', s),
    'elements': lambda L, s: L('lifeElements', s, 2, L.types['TRUSS3']),
    'element': lambda L, s: L('lifeElement', s),
    'mpc': lambda L, s: L('lifeMpc', s, 1, 2),
    'component': lambda L, s: L('lifeComponent', s),
    'collection': lambda L, s: L('lifeRigid', s, 1, 2),
}
COUNT = {'nodes': ('n', 3), 'node': ('n', 1), 'elements': ('e', 2), 'element': ('e', 1), 'mpc': ('m', 1)}
CLEAR = {'lifeDeleteNodes': 'n', 'lifeDeleteElements': 'e', 'lifeDeleteMpcs': 'm', 'lifeDeleteMesh': 'nem', 'lifeDeleteCollections': '', 'lifeDeleteComponents': '', 'lifeDeleteSolution': ''}


def life(ck, key, **kw):
    L = Life(ck, key, **kw)
    L.types = enum(ck, 'nla3d::ElementType')
    return L


class Store:
    """a storage with the counts it should have"""

    def __init__(self, L):
        self.L = L
        self.s = self.L('lifeStorage')
        self.n = {'n': 0, 'e': 0, 'm': 0}

    def op(self, what):
        if what in FILL:
            FILL[what](self.L, self.s)
            if what in COUNT:
                k, d = COUNT[what]
                self.n[k] += d
        else:
            self.L(what, self.s)
            for k in CLEAR[what]:
                self.n[k] = 0

    def counts(self):
        for k, site in (('n', 'lifeNNodes'), ('e', 'lifeNElements'), ('m', 'lifeNMpc')):
            self.L.count(site, self.s, self.n[k])


def history(ck, key, ops):
    with life(ck, key) as L:
        S = Store(L)
        for o in ops:
            if o == 'count':
                S.counts()
            else:
                S.op(o)
        S.counts()
        L('lifeDeleteStorage', S.s)


ALL = ('nodes', 'node', 'elements', 'element', 'mpc', 'component', 'collection')


def kinds(ck):
    t = enum(ck, 'nla3d::ElementType')
    for k in sorted(t, key=t.get):
        if k == 'UNDEFINED':
            continue
        with life(ck, 'kind:' + k) as L:
            s = L('lifeStorage')
            L('lifeElements', s, 2, t[k])
            L.count('lifeNElements', s, 2)
            L('lifeDeleteElements', s)
            L('lifeElements', s, 1, t[k])
            L('lifeDeleteStorage', s)
    for k in KINDS:
        with life(ck, 'like:' + k) as L:
            s = L('lifeStorage')
            L('lifeLike' + k, s, 2)
            L('lifeDeleteMesh', s)
            L('lifeLike' + k, s, 1)
            L.count('lifeNElements', s, 1)
            L('lifeDeleteStorage', s)


def materials(ck):
    m = enum(ck, 'nla3d::MaterialFactory::matId')
    for k in sorted(m, key=m.get):
        if k in ('NOT_DEFINED', 'LAST'):
            continue
        with life(ck, 'material:%s' % k) as L:
            x = L('lifeMaterial', m[k])
            L('lifeDeleteMaterial', x)
            s = L('lifeStorage')
            L('lifeGive', s, L('lifeMaterial', m[k]))
            L('lifeDeleteMesh', s)
            L('lifeDeleteStorage', s)


def truss(L, s, rigid=False, mpc=False):
    """three nodes, two bars, optionally constraints"""
    L('lifeNodes', s, 3)
    L('lifeElements', s, 2, L.types['TRUSS3'])
    for e in (1, 2):
        for i in (0, 1):
            L('lifeConnect', s, e, i, e + i)
    if mpc:
        L('lifeMpc', s, 1, 3)
    if rigid:
        L('lifeRigid', s, 1, 3)


def solution(ck, key, transient, rigid, mpc, ops):
    with life(ck, key) as L:
        s = L('lifeStorage')
        truss(L, s, rigid, mpc)
        L('lifeTransient', s, TRUE if transient else FALSE)
        nm = 1 if mpc else 0
        for o in ops:
            if o == 'solve':
                for x in ('lifeDofs', 'lifeNumbers', 'lifeSolution'):
                    L(x, s)
                nm += 2 if rigid else 0
                L.count('lifeNMpc', s, nm)
            elif o == 'drop':
                L('lifeDeleteSolution', s)
                L.count('lifeNDofs', s, 0)
            elif o == 'mesh':
                L('lifeDeleteMesh', s)
                nm = 0
                L.count('lifeNMpc', s, 0)
                rigid = mpc = False
                truss(L, s)
            else:
                L(o, s)
                if o == 'lifeDeleteMpcs':
                    nm = 0
        L('lifeDeleteStorage', s)


def solvers(ck):
    for kind in ('Linear', 'Nonlinear', 'TransientSolver'):
        with life(ck, 'solver:%s' % kind) as L:
            s = L('lifeStorage')
            for h in range(2):
                v = L('life' + kind)
                L('lifeAttach', v, s)
                L('lifeVtk', v, s)
                L('lifeReaction', v, s)
                L.count('lifeNPost', v, 2)
                L('lifeDeletePost', v)
                L.count('lifeNPost', v, 0)
                if h:
                    L('lifeReaction', v, s)
                    L('lifeVtk', v, s)
                    L('lifeVtk', v, s)
                    L.count('lifeNPost', v, 3)
                else:
                    L('lifeDeletePost', v)
                L('lifeDeleteSolver', v)
            L('lifeDeleteStorage', s)
            v = L('life' + kind)
            L('lifeDeleteSolver', v)
    for which in ('gaussSolver', 'chosenSolver'):
        with life(ck, 'solver:keeps-' + which) as L:
            v = L('lifeLinear')
            g = L(which)
            L('lifeSolver', v, g)
            L('lifeDeleteSolver', v)
            if isinstance(g, Ptr) and g.loc and type(g.loc[0]) is tuple and g.loc[0][0] == 'H' and which == 'gaussSolver':
                L('deleteSolver', g)


def matrices(ck):
    for sym in (False, True):
        a = [4] if sym else [4, 4]
        mk, nm, dl, cls = ('symmetric', 'lifeNoSymmetric', 'deleteSymmetric', 'nla3d::math::SparseSymMatrix') if sym else ('general', 'lifeNoGeneral', 'deleteGeneral', 'nla3d::math::SparseMatrix')
        tag = 'sym' if sym else 'gen'

        def entries(L, o):
            for i, j in ((1, 1), (1, 3), (2, 2), (3, 3), (4, 4)):
                L.W.m(cls, o.loc, 'addEntry', i, j)
            L.log.append('addEntry')
        for name, ops in (('plain', 'c'), ('unused', ''), ('reused', 'crc'), ('twice', 'cc'), ('emptied', 'cr'), ('start-empty', 'nrc'), ('start-empty-unused', 'n'), ('shared', 'cs'), ('resparse', 'cx')):
            with life(ck, 'matrix:%s:%s' % (tag, name)) as L:
                o = None
                if 'n' in ops:
                    o = L(nm)
                else:
                    o = L(mk, *a, 3)
                    entries(L, o)
                other = []
                for k in ops:
                    L.W.I.events.clear()
                    if k == 'c':
                        L.W.m('nla3d::math::BaseSparseMatrix', o.loc, 'compress')
                    elif k == 'r':
                        L.W.m(cls, o.loc, 'reinit', *a, 3)
                        entries(L, o)
                    elif k == 's':
                        other.append(L('symmetricLike' if sym else 'generalLike', o))
                        continue
                    elif k == 'x':
                        q = L(mk, *[2] * len(a), 2)
                        L.W.m(cls, q.loc, 'addEntry', 1, 2)
                        L.W.I.events.clear()
                        L.W.m('nla3d::math::BaseSparseMatrix', q.loc, 'compress')
                        L.scan()
                        L.W.I.events.clear()
                        fn = ck.p.method('nla3d::math::BaseSparseMatrix', 'setSparsityInfo', 1)
                        L.W.call(fn, [L.W.m('nla3d::math::BaseSparseMatrix', q.loc, 'getSparsityInfo')], Ref(o.loc, cls))
                        other.append(q)
                    L.log.append({'c': 'compress', 'r': 'reinit', 'x': 'setSparsityInfo'}.get(k, k))
                    L.scan()
                for x in [o] + other:
                    L(dl, x)
    with life(ck, 'matrix:block') as L:
        b = L('block2', 2, 3, 4)
        for i, j in ((1, 1), (1, 4), (3, 5), (5, 5)):
            L.W.m('nla3d::math::BlockSparseSymMatrix<2>', b.loc, 'addEntry', i, j)
        L('like2', b)
        L.W.I.events.clear()
        L.W.m('nla3d::math::BlockSparseSymMatrix<2>', b.loc, 'compress')
        L.scan()
        d = L('like2', b)
        L('lifeDeleteBlock', b)
        L('lifeDeleteBlock', d)
        for o in [o for o, (arr_, t, e, cd, lc) in L.live.items() if e.stack and any('like2' in x[0] for x in e.stack) and not arr_]:
            if o != d.loc[0]:
                L('lifeDeleteBlock', Ptr((o, ()), 'nla3d::math::BlockSparseSymMatrix<2> *'))
    SI = 'nla3d::math::SparsityInfo'
    for name, ops in (('plain', 'aac'), ('unused', ''), ('reused', 'acia'), ('reused-compressed', 'aciac'), ('empty', 'n'), ('empty-used', 'nic'), ('twice', 'acc'), ('reinit-raw', 'aia'), ('no-entries', 'c')):
        with life(ck, 'pattern:' + name, direct=(SI,)) as L:
            o = L('lifeNoPattern') if 'n' in ops else L('lifePattern', 3, 4, 2)
            k = 0
            for x in ops:
                if x == 'a':
                    k += 1
                    L('lifePatternAdd', o, 1, 1 + k % 2)
                elif x == 'c':
                    L('lifePatternCompress', o)
                elif x == 'i':
                    L('lifePatternInit', o, 2, 5, 2)
            L('lifeDeletePattern', o)


def dense(ck):
    """vectors that own their values, views of them, copies, moves; dynamic matrices"""
    n = 3
    V = {'new': lambda L, v: v.append(L('lifeVec', n)), 'none': lambda L, v: v.append(L('lifeNoVec')), 'like': lambda L, v: v.append(L('lifeVecLike', v[0])),
         'view': lambda L, v: v.append(L('lifeVecView', v[0], 1, 2)), 'from': lambda L, v: v.append(L('lifeVecFrom', v[0])), 'assign': lambda L, v: L('lifeVecAssign', v[-1], v[0]),
         'back': lambda L, v: L('lifeVecAssign', v[0], v[-1]), 'reinit': lambda L, v: L('lifeVecReinit', v[-1], n), 'review': lambda L, v: L('lifeVecReview', v[-1], v[0], 0, 2),
         'add': lambda L, v: L('lifeVecAdd', v[0], v[-1]), 'clear': lambda L, v: L('lifeVecClear', v[-1]), 'clear0': lambda L, v: L('lifeVecClear', v[0]), 'end': lambda L, v: L('lifeDeleteVec', v.pop())}
    for h in ('new', 'none', 'new assign', 'new like', 'new view', 'new from', 'new none assign', 'new new assign add', 'none like', 'new reinit', 'new clear', 'new clear clear reinit', 'new new review', 'new none review',
              'new view reinit', 'new view clear', 'new view assign', 'new view like end like add', 'new from reinit', 'none from', 'new like back add', 'new new clear assign', 'new view end view end add',
              'new none review reinit review', 'new new review end', 'none new back reinit', 'new from clear0 assign'):
        with life(ck, 'vector:' + h.replace(' ', '-')) as L:
            v = []
            for o in h.split():
                V[o](L, v)
            while v:
                L('lifeDeleteVec', v.pop())
    M = {'new': lambda L, v: v.append(L('lifeMat', 2, 3)), 'none': lambda L, v: v.append(L('lifeMat', 0, 0)), 'like': lambda L, v: v.append(L('lifeMatLike', v[0])),
         'assign': lambda L, v: L('lifeMatAssign', v[-1], v[0]), 'resize': lambda L, v: L('lifeMatResize', v[-1], 3, 2)}
    for h in ('new', 'none', 'new like', 'new none assign', 'new new assign', 'new resize', 'none resize resize', 'new like resize assign'):
        with life(ck, 'matrix:dense:' + h.replace(' ', '-')) as L:
            v = []
            for o in h.split():
                M[o](L, v)
            while v:
                L('lifeDeleteMat', v.pop())


# ---------------------------------------------------------------- program-wide rules
def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def derived(p):
    out = {}
    for r in p.records.values():
        for b in r['bases']:
            out.setdefault(strip_cv(b['t'] if isinstance(b, dict) else b), set()).add(r['n'])
    return out


def deletes(ck):
    """a class with derived classes is deleted through a virtual destructor"""
    p = ck.p
    der = derived(p)
    n = 0
    for f in p.fns.values():
        if '/witness/' in f['file'] or not f.get('body'):
            continue
        for x in walk(f['body']):
            if x.get('k') == 'delete' and not x.get('array'):
                t = strip_cv(x.get('dt', ''))
                r = p.records.get(t)
                if r is None or t not in der:
                    continue
                n += 1
                ok = bool(r.get('vdtor'))
                ck.ob('virtual:%s:%s' % (f['n'].split('::')[-1], t.split('::')[-1]), ck.at(f, x.get('l')), ok,
                      'an object that may be of a derived class is deleted through a virtual destructor', '%s has derived classes %s' % (t, sorted(der[t])[:3]))
    ck.ob('virtual', '-', True if n else None, 'deletes of base classes were found', '%d delete expressions' % n)


def owners(ck):
    """classes whose destructor releases one of their own members"""
    p = ck.p
    out = {}
    for r in p.records.values():
        if not r['n'].startswith('nla3d::'):
            continue
        for m in r['methods']:
            if not m.get('dtor') or m['id'] not in p.fns or not p.fns[m['id']].get('body'):
                continue
            f = p.fns[m['id']]
            seen, todo, hit = set(), [f], False
            while todo:
                g = todo.pop()
                if g['id'] in seen or not g.get('body'):
                    continue
                seen.add(g['id'])
                for x in walk(g['body']):
                    if x.get('k') == 'delete':
                        hit = True
                    i = x.get('fn') or x.get('id') if x.get('k') in ('call', 'mcall') else None
                    if i in p.fns and p.fns[i].get('cls') == r['n']:
                        todo.append(p.fns[i])
            if hit:
                out[r['n']] = f
    return out


def copies(ck):
    """classes that release memory of their own are copied by their own copy operations only"""
    p = ck.p
    own = owners(ck)
    if not own:
        raise AnalysisBroken('classes that own memory')

    def defined(m):
        return not m.get('implicit') and m['id'] in p.fns

    def has(r, kind):
        for m in r['methods']:
            if kind == 'copy' and m.get('ctor') and m.get('copy') and defined(m):
                return True
            if kind == 'assign' and m['n'] == 'operator=' and defined(m):
                return True
        return False
    memo = {}

    def unsafe(t, kind):
        """the owning class an implicit copy of t would share memory of, or None"""
        t = strip_cv(t)
        if (t, kind) in memo:
            return memo[t, kind]
        memo[t, kind] = None
        r = p.records.get(t)
        if r is None or has(r, kind):
            return None
        out = t if t in own else None
        for b in r['bases']:
            out = out or unsafe(b['t'] if isinstance(b, dict) else b, kind)
        for f in r['fields']:
            if not is_ptr(f['t']) and not is_ref(f['t']):
                out = out or unsafe(arr(f['t'])[0] if arr(f['t']) else f['t'], kind)
        memo[t, kind] = out
        return out
    n, bad = 0, []
    for f in p.fns.values():
        if '/witness/' in f['file']:
            continue
        for x in walk([f.get('body'), f.get('inits')]):
            k = t = None
            if x.get('k') == 'construct' and (x.get('copy') or x.get('move')) and not x.get('elid') and x.get('fn') not in p.fns:
                k, t = 'copy', x.get('t', '')
            elif str(x.get('n', '')).endswith('::operator=') and x.get('fn') and x['fn'] not in p.fns:
                k, t = 'assign', x['n'].rsplit('::', 1)[0]
            elif x.get('k') == 'assign' and strip_ref(x['c'][0].get('t', '')) in p.records:
                k, t = 'assign', strip_ref(x['c'][0]['t'])
            if k is None or not strip_cv(t).startswith('nla3d'):
                continue
            n += 1
            u = unsafe(t, k)
            if u:
                bad.append((f, x, u, k))
    for f, x, u, k in bad:
        ck.ob('copy:%s:%s' % (f['n'].split('::')[-1], u.split('::')[-1]), ck.at(f, x.get('l')), False,
              'an object that releases memory of its own is not copied member by member', '%s has no %s of its own' % (u, 'copy constructor' if k == 'copy' else 'assignment'))
    ck.ob('copies', '-', True, 'copies of objects were examined', '%d copies; owning classes %s' % (n, sorted(own)))


def run(ck):
    ck.part('kinds', kinds)
    ck.part('materials', materials)
    for i, k in enumerate(ALL):
        ck.part('only:' + k, lambda ck, k=k: history(ck, 'only:' + k, [k, 'count', k]))
    ck.part('all', lambda ck: history(ck, 'all', ALL))
    ck.part('nothing', lambda ck: history(ck, 'nothing', ['lifeDeleteMesh', 'lifeDeleteSolution', 'count']))
    for k in CLEAR:
        ck.part('clear:' + k[10:], lambda ck, k=k: history(ck, 'clear:' + k[10:], list(ALL) + [k, 'count', k, 'count'] + list(ALL) + ['count', k]))
    r = random.Random(14)
    for h in range(24):
        ops = []
        for _ in range(r.randrange(6, 12)):
            ops.append(r.choice(ALL) if r.random() < .65 else r.choice(list(CLEAR)))
        ck.part('generated:%d' % h, lambda ck, h=h, ops=ops: history(ck, 'generated:%d' % h, ops))
    for name, a in (('static', (False, False, False, ['solve', 'drop', 'solve'])), ('static-end', (False, False, False, ['solve'])), ('transient', (True, False, False, ['solve', 'drop', 'drop', 'solve', 'drop'])),
                    ('transient-end', (True, False, True, ['solve'])), ('mpc', (False, False, True, ['solve', 'drop', 'drop'])), ('rigid', (False, True, True, ['solve', 'drop', 'solve', 'drop'])),
                    ('rigid-cleared', (False, True, False, ['solve', 'drop', 'lifeDeleteMpcs', 'solve'])), ('remeshed', (False, True, True, ['solve', 'drop', 'mesh', 'solve'])),
                    ('clear-after', (True, True, True, ['solve', 'lifeDeleteCollections', 'lifeDeleteMpcs', 'lifeDeleteElements', 'lifeDeleteNodes'])),):
        ck.part('solution:' + name, lambda ck, name=name, a=a: solution(ck, 'solution:' + name, *a))
    ck.part('solvers', solvers)
    ck.part('matrices', matrices)
    ck.part('dense', dense)
    ck.part('deletes', deletes)
    ck.part('copies', copies)
