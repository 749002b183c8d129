"""Interprocedural forward abstract interpreter over the extracted AST.

Domain: every scalar location holds a value number (terms.Poly / B / Ptr / Str / Opq); control-flow joins
produce guarded values (ite), loops with a compile-time trip count are unrolled, all other loops are
summarised: linear induction variables and sums get a closed form over the iteration symbol, array writes
become quantified write-log entries, everything else is widened to an opaque symbol.  No solver, no path
enumeration, nothing is executed."""
import re
import time
from functools import lru_cache
import sys
from terms import *

sys.setrecursionlimit(20000)


class Dead(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------------ types
@lru_cache(None)
def strip_cv(t):
    t = t.strip()
    while True:
        n = t
        if n.startswith('const '):
            n = n[6:]
        if n.startswith('volatile '):
            n = n[9:]
        if n.endswith(' const') or n.endswith('*const'):
            n = n[:-5].rstrip()
        if n == t:
            return t
        t = n


@lru_cache(None)
def strip_ref(t):
    t = strip_cv(t)
    if t.endswith('&&'):
        t = t[:-2]
    elif t.endswith('&'):
        t = t[:-1]
    return strip_cv(t)


@lru_cache(None)
def is_ref(t):
    return t.rstrip().endswith('&')


@lru_cache(None)
def is_ptr(t):
    t = strip_ref(t)
    return t.endswith('*') or bool(re.search(r'\(\*\)(\[\d+\])*$', t))


@lru_cache(None)
def pointee(t):
    t = strip_ref(t)
    m = re.search(r'\(\*\)((\[\d+\])*)$', t)
    if m:
        return strip_cv(t[:m.start()].strip() + m.group(1))
    return strip_cv(t[:-1])


_arr = re.compile(r'^(.*?)\s*((?:\[\d*\])+)$')


@lru_cache(None)
def arr(t):
    t = strip_ref(t)
    m = _arr.match(t)
    if not m or '(' in m.group(2):
        return None
    dims = [int(x) if x else 0 for x in re.findall(r'\[(\d*)\]', m.group(2))]
    return m.group(1).strip(), dims


def arr_elem(t):
    b, d = arr(t)
    return b + ''.join('[%d]' % x for x in d[1:])


@lru_cache(None)
def nscal(t):
    a = arr(t)
    if not a:
        return 1
    n = 1
    for d in a[1]:
        n *= d
    return n


INTS = {'int', 'unsigned int', 'short', 'unsigned short', 'long', 'unsigned long', 'long long', 'unsigned long long',
        'char', 'signed char', 'unsigned char', '__int128', 'wchar_t', 'char16_t', 'char32_t'}
UNSIGNED = {'unsigned int', 'unsigned short', 'unsigned long', 'unsigned long long', 'unsigned char'}
FLOATS = {'double', 'float', 'long double'}
NARROW = {'unsigned short': (16, False), 'short': (16, True), 'unsigned char': (8, False), 'signed char': (8, True), 'char': (8, True), 'unsigned int': (32, False)}


def wrap(v, t):
    """a constant converted to a narrower integer type"""
    w = NARROW.get(t)
    if w is None or not isinstance(v, Poly) or not v.is_const():
        return v
    c = v.cval()
    n, sgn = w
    if c.denominator != 1 or (n == 32 and c < 2 ** 32) or (0 <= c < 2 ** (n - 1)):
        return v
    c = int(c) % (1 << n)
    return Poly.const(c - (1 << n) if sgn and c >= 1 << (n - 1) else c)

STRINGS = ('std::basic_string<char>', 'std::string')


@lru_cache(None)
def is_string(t):
    return strip_ref(t).startswith(STRINGS)


class Log:
    __slots__ = ("ents", "owner")

    def __init__(self, ents, owner):
        self.ents = ents
        self.owner = owner


class Entry:
    """one (possibly quantified, possibly guarded) array write"""
    __slots__ = ("kind", "idx", "val", "guard", "q", "line")

    def __init__(self, kind, idx, val, guard=TRUE, q=(), line=None):
        self.kind, self.idx, self.val, self.guard, self.q, self.line = kind, idx, val, guard, q, line

    def key(self):
        return (self.kind, self.idx, self.val, self.guard, self.q)

    def __eq__(self, o):
        return isinstance(o, Entry) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s[%s]=%r%s%s' % (self.kind, ','.join(show(i) for i in self.idx), self.val,
                                  '' if self.guard == TRUE else ' if %r' % self.guard,
                                  ''.join(' forall %s<%s' % (show_atom(k), show(n)) for k, n in self.q))


def split_path(path):
    shape, idx = [], []
    for e in path:
        if isinstance(e, tuple):
            shape.append('[]')
            idx.append(e[1])
        else:
            shape.append(e)
    return tuple(shape), tuple(idx)


class St:
    def __init__(self):
        self.store = {}
        self.own = set()
        self.tok = object()
        self.guards = ()
        self.assume = ()
        self.fb = {}
        self.zero = ()
        self.tag = {}
        self.dead = False
        self.ret = None

    def copy(self):
        n = St()
        n.store = dict(self.store)
        self.own = set()
        self.tok = object()
        n.guards, n.assume, n.zero, n.dead, n.ret = self.guards, self.assume, self.zero, self.dead, self.ret
        n.fb = dict(self.fb)
        n.tag = dict(self.tag)
        return n

    def become(self, o):
        self.store, self.own, self.tok = o.store, o.own, o.tok
        self.guards, self.assume, self.fb, self.zero, self.tag, self.dead, self.ret = o.guards, o.assume, o.fb, o.zero, o.tag, o.dead, o.ret

    def objd(self, obj):
        d = self.store.get(obj)
        if d is None:
            d = self.store[obj] = {}
            self.own.add(obj)
        elif obj not in self.own:
            d = self.store[obj] = dict(d)
            self.own.add(obj)
        return d

    def log_for_write(self, obj, shape):
        d = self.objd(obj)
        l = d.get(shape)
        if l is None:
            l = d[shape] = Log([], self.tok)
        elif l.owner is not self.tok:
            l = d[shape] = Log([dict(e) if type(e) is dict else e for e in l.ents], self.tok)
        return l

    def get_raw(self, obj, shape):
        d = self.store.get(obj)
        return None if d is None else d.get(shape)


class Frame:
    def __init__(self, fn, this):
        self.fn = fn
        self.this = this
        self.env = {}
        self.uid = None
        self.va = None


class Ev:
    __slots__ = ("name", "args", "guards", "assume", "loops", "stack", "file", "line", "seq", "extra")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        return '%s(%s) @%s g=%r loops=%s' % (self.name, ', '.join(map(repr, self.args)), self.line, self.guards,
                                             [(show_atom(k), show(n) if n is not None else '?') for k, n in self.loops])


class Interp:
    def __init__(self, prog, hooks=None, unroll_limit=5000, max_depth=60):
        self.prog = prog
        self.hooks = dict(hooks or {})
        self.events = []
        self.muted = 0
        self.loops = []
        self.stack = []
        self.uid = 0
        self.unroll_limit = unroll_limit
        self.max_depth = max_depth
        self.notes = []
        self.loopinfo = {}
        self.frames = []
        self.steps = 0
        self.functions_seen = set()
        self.step_limit = 6000000
        self.deadline = None
        self.line = 0
        self.dyn_types = {}
        self.unknown_calls = {}
        self.pending_va = None
        self.keep_states = False
        self.name_limit = 0
        self.stream_ok = None
        self.input = None
        self.closures = {}
        self.freed = None
        self._ucopy = {}
        self.stride = {}
        self.loopstates = {}
        self.on_loop = None
        self.loop_mods = {}
        self._scal = {}
        import eigen
        caller = self.hooks
        self.hooks = {}
        eigen.register(self)
        self.hooks.update(caller)

    # ------------------------------------------------------------------ utils
    partition = None    # outcome of an undecided condition inside one class of inputs (trace partitioning), or None

    def fresh(self, *k):
        self.uid += 1
        return ('u',) + k + (self.uid,)

    def nuid(self):
        self.uid += 1
        return self.uid

    def event(self, st, name, args, extra=None, node=None):
        if self.muted:
            return
        fn = self.frames[-1].fn if self.frames else None
        self.events.append(Ev(name=name, args=tuple(args), guards=st.guards, assume=st.assume,
                              loops=tuple((k, n) for k, n in self.loops), stack=tuple(self.stack),
                              file=fn['file'] if fn else '?', line=(node or {}).get('l', self.line), seq=len(self.events), extra=extra))

    def facts(self, st):
        f = list(st.guards) + list(st.assume)
        for k, n in self.loops:
            if n is not None:
                f.append(lt(Poly.atom(k) - n, True))
        return f

    def simp(self, st, b):
        if b.v[0] in ('T', 'F'):
            return b
        fs = self.facts(st)
        s = set()
        for f in fs:
            if f.v[0] == 'and':
                s.update(f.v[1])
            else:
                s.add(f)
        if b in s:
            return TRUE
        if neg1(b) in s:
            return FALSE
        if b.v[0] == 'and':
            r = conj([self.simp(st, x) for x in b.v[1]])
            return r
        if b.v[0] == 'or':
            return disj([self.simp(st, x) for x in b.v[1]])
        if b.v[0] == 'lt' and len(b.v) > 2:
            p = b.v[1]
            if self.prove_nonneg(-p - 1, s):
                return TRUE
            if self.prove_nonneg(p, s):
                return FALSE
        if b.v[0] == 'eq':
            p = b.v[1]
            if self.prove_nonneg(p - 1, s) or self.prove_nonneg(-p - 1, s):
                return FALSE
        if self.partition is not None:
            r = self.partition(b)
            if r is not None:
                return TRUE if r else FALSE
        return b

    def nonneg_atom(self, a):
        return type(a) is tuple and (a[0] == 'k' or a[0] == 'size' or (a[0] == 'init' and len(a[1][1]) and a[1][1][-1] == '$size') or a[0] == 'uns')

    def prove_nonneg(self, q, facts=()):
        """q >= 0 from nonnegativity of iteration symbols/sizes and at most two integer facts"""
        def triv(q):
            for m, c in q.t.items():
                if c < 0:
                    return False
                if m and not all(self.nonneg_atom(a) and e > 0 for a, e in m):
                    return False
            return True
        if triv(q):
            return True
        lin = []
        for f in facts:
            if f.v[0] == 'lt' and len(f.v) > 2:
                lin.append(-f.v[1] - 1)
            elif f.v[0] == 'eq':
                lin.append(f.v[1])
                lin.append(-f.v[1])
        ats = q.atoms()
        lin = [l for l in lin if l.atoms() & ats][:12]
        for l in lin:
            if triv(q - l):
                return True
        for i, l in enumerate(lin):
            for l2 in lin[i + 1:]:
                if triv(q - l - l2):
                    return True
        return False

    # ------------------------------------------------------------------ memory
    def default(self, st, obj, path, t):
        """value of a location never written in this analysis"""
        t = strip_ref(t) if t else t
        # copied aggregates: fall back to the source's initial content
        if st.fb:
            for n in range(len(path), -1, -1):
                k = (obj, path[:n])
                if k in st.fb:
                    so, sp, stg = st.fb[k]
                    return self.default(st, so, sp + path[n:], t)
        for zo, zp in st.zero:
            if zo == obj and path[:len(zp)] == zp:
                if t and is_ptr(t):
                    return Ptr(None, t)
                if t == 'bool':
                    return FALSE
                if t and is_string(t):
                    return Str('')
                return ZERO_
        loc = (obj, path)
        kind = obj[0] if isinstance(obj, tuple) else None
        if path and path[-1] == '$size':
            pre = path[:-1]
            if kind in ('L', 'H', 'T') and not self.under_sym(obj):
                return ZERO_
            return Poly.atom(('init', loc) + self.tags(st, obj))
        if kind == 'G':
            g = self.prog.globals.get(obj[2]) if len(obj) > 2 else None
            v = self.global_init(st, g, path, t) if g else None
            if v is not None:
                return v
        un = kind in ('L', 'H', 'T')
        tagd = self.tags(st, obj)
        tag = 'uninit' if un and not tagd else 'init'
        if t is None:
            return Poly.atom((tag, loc) + tagd)
        if t == 'bool':
            return B(('test', (tag, loc) + tagd))
        if is_ptr(t):
            if un and not tagd:
                return Opq('uninit', loc)
            pt = pointee(t)
            o = ('*', loc) + tagd
            self.dyn_types.setdefault(o, pt)
            if self.prog.is_class(pt) and not is_string(pt):
                return Ptr((o, ()), t)
            return Ptr((o, (('i', ZERO_),)), t)
        if is_string(t):
            return Opq(tag, loc, *tagd)
        return Poly.atom((tag, loc) + tagd)

    def under_sym(self, obj):
        return False

    def tags(self, st, obj):
        return (('tag', st.tag[obj]),) if obj in st.tag else ()

    def global_init(self, st, g, path, t):
        """value of a global before main: what its initializer does is not part of any history"""
        self.muted += 1
        try:
            return self.global_value(st, g, path, t)
        finally:
            self.muted -= 1

    def global_value(self, st, g, path, t):
        init = g.get('init')
        if init is None:
            return None
        cache = g.setdefault('_cache', {})
        shape, idx = split_path(path)
        if any(not i.is_const() for i in idx):
            return None
        key = (path, t)
        if key in cache:
            return cache[key]
        v = None
        if not path:
            if init['k'] in ('init', 'construct') and (arr(g['t']) or self.prog.is_class(g['t'])):
                v = None
            else:
                fr = Frame({'file': g['file'], 'n': 'global', 'id': 'global'}, None)
                self.frames.append(fr)
                try:
                    v = self.val(St(), init)
                finally:
                    self.frames.pop()
        else:
            node = init
            a = arr(g['t'])
            if a and shape == ('[]',) and node['k'] == 'init':
                flat = int(idx[0].cval())
                v = self.init_elem(node, g['t'], flat, g)
            elif a and shape[:1] == ('[]',) and node['k'] == 'init':
                flat = int(idx[0].cval())
                # array of structs with brace init: navigate
                el = self.init_node(node, g['t'], flat)
                if el is not None and el['k'] == 'init' and len(shape) == 2:
                    rec = self.prog.records.get(a[0])
                    names = [f['n'] for f in rec['fields']] if rec else []
                    if shape[1] in names and names.index(shape[1]) < len(el['c']):
                        fr = Frame({'file': g['file'], 'n': 'global', 'id': 'global'}, None)
                        self.frames.append(fr)
                        try:
                            v = self.val(St(), el['c'][names.index(shape[1])])
                        finally:
                            self.frames.pop()
        cache[key] = v
        return v

    def init_node(self, node, t, flat):
        a = arr(t)
        while a:
            et = arr_elem(t)
            n = nscal(et)
            i = flat // n
            flat = flat % n
            if node['k'] != 'init':
                return node
            if i >= len(node['c']):
                return node.get('filler')
            node = node['c'][i]
            t = et
            a = arr(t)
        return node

    def init_elem(self, node, t, flat, g):
        el = self.init_node(node, t, flat)
        if el is None:
            return None
        fr = Frame({'file': g['file'], 'n': 'global', 'id': 'global'}, None)
        self.frames.append(fr)
        try:
            return self.val(St(), el)
        finally:
            self.frames.pop()

    def read(self, st, loc, t):
        obj, path = loc
        if self.freed and obj in self.freed:
            self.event(st, 'use-after-free', [Ref(loc, t)])
        shape, idx = split_path(path)
        if idx and any(type(x) is tuple and len(x) > 2 for x in path):
            path = fill(shape, idx)
            loc = (obj, path)
        if not idx:
            d = st.store.get(obj)
            if d is not None:
                v = d.get(shape)
                if v is not None:
                    return v
            v = self.default(st, obj, path, t)
            return v
        d = st.store.get(obj)
        log = d.get(shape) if d else None
        if log is None:
            return self.default(st, obj, path, t)
        return self.read_log(st, log, loc, shape, idx, t)

    def read_log(self, st, log, loc, shape, idx, t, upto=None):
        conds = []
        const = all(i.is_const() for i in idx)
        ents = log.ents if upto is None else log.ents[:upto]
        res = None
        for e in reversed(ents):
            if type(e) is dict:
                if const:
                    if idx in e:
                        res = e[idx]
                        break
                else:
                    # symbolic read over constant writes
                    hit = [(k, v) for k, v in e.items()]
                    if len(hit) > 64:
                        res = self.opaque_val('rd', loc, t)
                        break
                    for k, v in reversed(hit):
                        c = self.simp(st, conj([eq(a - b) for a, b in zip(idx, k)]))
                        if c == TRUE:
                            res = v
                            break
                        if c != FALSE:
                            conds.append((c, v))
                    if res is not None:
                        break
                continue
            if e.kind == 'havoc':
                g = e.guard
                hv = self.typed_atom(('lh', e.val, loc[0], shape, idx), t)
                if g == TRUE:
                    res = hv
                    break
                conds.append((g, hv))
                continue
            c, v = self.match_entry(st, e, idx)
            if c is None:
                res = self.typed_atom(('rdq', e.key(), loc), t)
                break
            c = self.simp(st, c)
            if c == FALSE:
                continue
            if c == TRUE:
                res = v
                break
            conds.append((c, v))
        if res is None:
            res = self.default(st, loc[0], loc[1], t)
        for c, v in reversed(conds):
            res = mk_ite(c, v, res)
        return res

    def typed_atom(self, a, t):
        t = strip_ref(t) if t else t
        if t == 'bool':
            return B(('test', a))
        if t and is_ptr(t):
            pt = pointee(t)
            o = ('*', a)
            self.dyn_types.setdefault(o, pt)
            if self.prog.is_class(pt) and not is_string(pt):
                return Ptr((o, ()), t)
            return Ptr((o, (('i', ZERO_),)), t)
        if t and is_string(t):
            return Opq(*a)
        return Poly.atom(a)

    def opaque_val(self, tag, loc, t):
        return self.typed_atom(self.fresh(tag, loc), t)

    def match_entry(self, st, e, idx):
        """condition under which entry e covers idx, and the value then"""
        if e.kind == 'accum':
            return None, None
        if not e.q:
            return conj([e.guard] + [eq(a - b) for a, b in zip(idx, e.idx)]), e.val
        m = {}
        conds = []
        rest = list(zip(idx, e.idx))
        for k, n in e.q:
            done = False
            for a, b in rest:
                co = lin_coeff(b, k)
                if co is None or co == 0:
                    continue
                # b = co*k + r ; a = b -> k = (a - r)/co
                r = b - Poly.atom(k).scale(co)
                if any(occurs(r, k2) for k2, _ in e.q if k2 not in m and k2 != k):
                    continue
                kk = subst((a - r).scale(1 / co), m)
                if abs(co) != 1 and not all(c.denominator == 1 for c in kk.t.values()):
                    if kk.is_const():
                        return FALSE, None
                    return None, None
                m[k] = kk
                if n is not None:
                    nn = subst(n, m)
                    conds.append(self.simp(st, le(-kk, True)))
                    conds.append(self.simp(st, lt(kk - nn, True)))
                else:
                    conds.append(B(('inloop', k, kk)))
                done = True
                break
            if not done:
                return None, None
        for a, b in rest:
            conds.append(eq(a - subst(b, m)))
        conds.append(subst(e.guard, m))
        return conj(conds), subst(e.val, m)

    def write(self, st, loc, v, t=None):
        if v is None:
            raise Unsupported('write of None to %s' % show_loc(loc))
        if self.name_limit and isinstance(v, Poly) and len(v.t) > self.name_limit:
            v = name_value(v)
        obj, path = loc
        if self.freed and obj in self.freed:
            self.event(st, 'use-after-free', [Ref(loc, t or '')])
        shape, idx = split_path(path)
        if not idx:
            st.objd(obj)[shape] = v
            return
        log = st.log_for_write(obj, shape)
        if all(i.is_const() for i in idx):
            if not log.ents or type(log.ents[-1]) is not dict:
                log.ents.append({})
            log.ents[-1][idx] = v
        else:
            if log.ents and isinstance(log.ents[-1], Entry) and log.ents[-1].idx == idx and log.ents[-1].kind == 'w' and not log.ents[-1].q and log.ents[-1].guard == TRUE:
                log.ents[-1] = Entry('w', idx, v, line=self.line)
            else:
                log.ents.append(Entry('w', idx, v, line=self.line))

    def clear_obj(self, st, obj, path=()):
        """forget everything stored below obj/path (object begins its lifetime)"""
        shape, idx = split_path(path)
        if not path:
            st.store.pop(obj, None)
            st.own.discard(obj)
            st.zero = tuple(z for z in st.zero if z[0] != obj)
            for k in [k for k in st.fb if k[0] == obj]:
                del st.fb[k]
            return
        if obj in st.store:
            d = st.objd(obj)
            for s in [s for s in d if s[:len(shape)] == shape]:
                if not idx:
                    del d[s]

    def copy_obj(self, st, dst, src, t=None):
        """memberwise copy of everything below src to dst"""
        so, sp = src
        do, dp = dst
        if src == dst:
            return
        ss, si = split_path(sp)
        ds, di = split_path(dp)
        # drop old content
        if do in st.store:
            d = st.objd(do)
            for s in [s for s in d if s[:len(ds)] == ds]:
                v = d[s]
                if not di:
                    del d[s]
        items = []
        if so in st.store:
            for s, v in st.store[so].items():
                if s[:len(ss)] == ss:
                    items.append((s, v))
        for s, v in items:
            rest = s[len(ss):]
            if not isinstance(v, Log):
                self.write(st, (do, dp + rest), v)
                continue
            # arrays below (or source inside an array)
            if not si:
                if not di:
                    st.objd(do)[ds + rest] = Log([dict(e) if type(e) is dict else e for e in v.ents], st.tok)
                else:
                    for e in v.ents:
                        if type(e) is dict:
                            for k, x in e.items():
                                self.write(st, (do, dp + fill(rest, k)), x)
                        else:
                            l = st.log_for_write(do, ds + rest)
                            l.ents.append(Entry(e.kind, di + e.idx, e.val, e.guard, e.q, e.line))
            else:
                n = len(si)
                nrest = sum(1 for x in rest if x == '[]')
                if nrest == 0:
                    val = self.read_log(st, v, (so, fill(s, si)), s, si, self.field_type(t, rest))
                    self.write(st, (do, dp + rest), val)
                else:
                    for e in v.ents:
                        if type(e) is dict:
                            for k, x in e.items():
                                if k[:n] == si:
                                    self.write(st, (do, dp + fill(rest, k[n:])), x)
                        elif e.idx[:n] == si:
                            l = st.log_for_write(do, ds + rest)
                            if len(di) + len(e.idx) - n:
                                l.ents.append(Entry(e.kind, di + e.idx[n:], e.val, e.guard, e.q, e.line))
        f = (so, sp, None)
        if st.fb:
            for n in range(len(sp), -1, -1):
                k = (so, sp[:n])
                if k in st.fb:
                    o2, p2, _ = st.fb[k]
                    f = (o2, p2 + sp[n:], None)
                    break
        for k in [k for k in st.fb if k[0] == do and k[1][:len(dp)] == dp]:
            del st.fb[k]
        if self.zeroed(st, so, sp):
            st.zero = st.zero + ((do, dp),)
        else:
            st.zero = tuple(z for z in st.zero if not (z[0] == do and z[1][:len(dp)] == dp))
            st.fb[(do, dp)] = f

    def zeroed(self, st, obj, path):
        return any(zo == obj and path[:len(zp)] == zp for zo, zp in st.zero)

    def field_type(self, t, rest):
        for r in rest:
            if t is None:
                return None
            rec = self.prog.find_record(t)
            f = rec and self.prog.field(rec, r)
            t = f['t'] if f else None
        return t

    def zero_obj(self, st, loc):
        obj, path = loc
        shape, idx = split_path(path)
        if obj in st.store:
            d = st.objd(obj)
            for s in [s for s in d if s[:len(shape)] == shape]:
                if not idx:
                    del d[s]
        if (obj, path) not in st.zero:
            st.zero = st.zero + ((obj, path),)
        for k in [k for k in st.fb if k[0] == obj and k[1][:len(path)] == path]:
            del st.fb[k]

    def havoc_obj(self, st, obj):
        st.store.pop(obj, None)
        st.own.discard(obj)
        st.zero = tuple(z for z in st.zero if z[0] != obj)
        for k in [k for k in st.fb if k[0] == obj]:
            del st.fb[k]
        st.tag[obj] = self.nuid()

    # ------------------------------------------------------------------ merge
    def merge(self, a, b):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        n = 0
        while n < len(a.guards) and n < len(b.guards) and a.guards[n] == b.guards[n]:
            n += 1
        ga, gb = conj(a.guards[n:]), conj(b.guards[n:])
        if ga == TRUE and gb != TRUE:
            c = neg(gb)
        else:
            c = ga
        # prefer the shorter description
        r = St()
        r.guards = a.guards[:n]
        g = disj([ga, gb])
        if g != TRUE:
            r.guards = r.guards + (g,)
        if a.assume == b.assume:
            r.assume = a.assume
        else:
            r.assume = tuple(x for x in a.assume if x in b.assume)
        r.zero = a.zero if a.zero == b.zero else tuple(z for z in a.zero if z in b.zero)
        r.fb = dict(a.fb)
        for k, v in b.fb.items():
            if r.fb.get(k, v) == v:
                r.fb[k] = v
        r.tag = dict(a.tag)
        for k, v in b.tag.items():
            if r.tag.get(k) != v:
                r.tag[k] = v if k not in a.tag else self.nuid()
        if a.ret is not None or b.ret is not None:
            r.ret = self.merge_val(c, a.ret, b.ret)
        a.own = set()
        b.own = set()
        for o in a.store.keys() | b.store.keys():
            da, db = a.store.get(o), b.store.get(o)
            if da is db:
                r.store[o] = da
                continue
            if da is None or db is None:
                # object created on one side only (locals/temporaries of that branch): keep
                one = da if db is None else db
                kind = o[0] if isinstance(o, tuple) else None
                if kind in ('T', 'L', 'H'):
                    r.store[o] = one
                    continue
                da = da or {}
                db = db or {}
            d = {}
            for s in da.keys() | db.keys():
                va, vb = da.get(s), db.get(s)
                if va is vb:
                    d[s] = va
                    continue
                if isinstance(va, Log) or isinstance(vb, Log):
                    d[s] = self.merge_log(a, b, c, o, s, va, vb, r)
                else:
                    if va is None:
                        va = self.missing_like(a, o, s, vb)
                    if vb is None:
                        vb = self.missing_like(b, o, s, va)
                    d[s] = self.merge_val(c, va, vb)
            r.store[o] = d
        return r

    def missing_like(self, st, o, s, other):
        t = None
        if isinstance(other, B):
            t = 'bool'
        elif isinstance(other, Ptr):
            t = other.t or 'void *'
        elif isinstance(other, (Str, Opq)):
            t = STRINGS[0]
        v = self.default(st, o, s, t)
        return v

    def merge_val(self, c, va, vb):
        if va is None or vb is None:
            return va if vb is None else vb
        return mk_ite(c, va, vb) if va != vb else va

    def merge_log(self, a, b, c, o, s, la, lb, r):
        ea = la.ents if la else []
        eb = lb.ents if lb else []
        n = 0
        while n < len(ea) and n < len(eb) and (ea[n] is eb[n] or ea[n] == eb[n]):
            n += 1
        out = [dict(e) if type(e) is dict else e for e in ea[:n]]
        ra, rb = ea[n:], eb[n:]
        if all(type(e) is dict for e in ra) and all(type(e) is dict for e in rb):
            ks = []
            for e in ra + rb:
                for k in e:
                    if k not in ks:
                        ks.append(k)
            d = {}
            for k in ks:
                va = self._ck(ra, k)
                vb = self._ck(rb, k)
                if va is None:
                    va = self._rd(a, la, out, o, s, k, vb)
                if vb is None:
                    vb = self._rd(b, lb, out, o, s, k, va)
                d[k] = self.merge_val(c, va, vb)
            if d:
                out.append(d)
        else:
            for es, g in ((ra, c), (rb, neg(c))):
                for e in es:
                    if type(e) is dict:
                        for k, v in e.items():
                            out.append(Entry('w', k, v, g, line=self.line))
                    else:
                        out.append(Entry(e.kind, e.idx, e.val, conj([g, e.guard]), e.q, e.line))
        return Log(out, r.tok)

    def _ck(self, es, k):
        for e in reversed(es):
            if k in e:
                return e[k]
        return None

    def _rd(self, st, log, common, o, s, k, other):
        t = 'bool' if isinstance(other, B) else (other.t or 'void *') if isinstance(other, Ptr) else STRINGS[0] if isinstance(other, (Str, Opq)) else 'double'
        return self.read_log(st, Log(common, None), (o, fill(s, k)), s, k, t)

    # ------------------------------------------------------------------ expressions
    def val(self, st, e):
        """r-value: scalars -> value, class types/arrays -> Ref"""
        self.steps += 1
        if self.steps > self.step_limit or self.deadline and not self.steps & 255 and time.time() > self.deadline:
            raise Unsupported('step limit')
        k = e['k']
        self.line = e.get('l', self.line)
        v = e.get('v')
        if v is not None and k not in ('str', 'float', 'assign', 'cassign', 'call', 'mcall', 'opcall') and k != 'ref':
            return self.const_val(e, v)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expr ' + k + ' ' + str(e.get('cls', '')))
        r = m(st, e)
        if isinstance(r, RetLoc) or isinstance(r, Ite):
            r = self.rv(st, r, e['t'])
        return r

    def rv(self, st, r, t):
        if isinstance(r, RetLoc):
            return self.rd(st, r.loc, t)
        if isinstance(r, Ite) and (isinstance(r.a, (RetLoc, Ite)) or isinstance(r.b, (RetLoc, Ite))):
            return mk_ite(r.c, self.rv(st, r.a, t), self.rv(st, r.b, t))
        return r

    def const_val(self, e, v):
        if strip_cv(e.get('t', '')) == 'bool':
            return TRUE if v not in ('0', 'false') else FALSE
        return Poly.const(int(v))

    def e_int(self, st, e):
        return Poly.const(int(e['v']))

    e_char = e_int

    def e_bool(self, st, e):
        return TRUE if e['v'] == '1' else FALSE

    def e_float(self, st, e):
        return Poly.const(Fraction(repr(float(e['v']))))

    def e_str(self, st, e):
        return Str(e['v'])

    def e_null(self, st, e):
        return Ptr(None, e.get('t'))

    def e_enum(self, st, e):
        return Poly.const(int(e['v']))

    def e_fref(self, st, e):
        return Fn(e['fn'])

    def e_mref(self, st, e):
        return Fn(e['fn'])

    def scalar_t(self, t):
        r = self._scal.get(t)
        if r is None:
            r = self._scal[t] = self._scalar_t(t)
        return r

    def _scalar_t(self, t):
        t = strip_ref(t)
        if arr(t):
            return False
        if is_ptr(t) or is_string(t):
            return True
        return not self.prog.is_class(t)

    def rd(self, st, loc, t):
        if self.scalar_t(t):
            if isinstance(loc, Ite):
                return mk_ite(loc.c, self.rd(st, loc.a, t), self.rd(st, loc.b, t))
            return self.read(st, loc, t)
        if isinstance(loc, Ite):
            return mk_ite(loc.c, Ref(loc.a, strip_ref(t)), Ref(loc.b, strip_ref(t)))
        return Ref(loc, strip_ref(t))

    def e_ref(self, st, e):
        return self.rd(st, self.loc(st, e), e.get('dt') or e['t'])

    def e_gref(self, st, e):
        return self.rd(st, self.loc(st, e), e.get('dt') or e['t'])

    def e_field(self, st, e):
        return self.rd(st, self.loc(st, e), e['dt'])

    def e_sub(self, st, e):
        return self.rd(st, self.loc(st, e), e['t'])

    def e_decay(self, st, e):
        s = e['c'][0]
        if s['k'] == 'str':
            return Str(s['v'])
        l = self.loc(st, s)
        t = strip_ref(s.get('dt') or s['t'])
        if not arr(t):
            t = strip_ref(s['t'])
        et = arr_elem(t)
        if isinstance(l, Ite):
            return Ite(l.c, Ptr(self.arr_index(l.a, t, ZERO_, et), e['t']), Ptr(self.arr_index(l.b, t, ZERO_, et), e['t']))
        r = self.arr_index(l, t, ZERO_, et)
        self.note_stride(r, t)
        return Ptr(r, e['t'])

    def e_this(self, st, e):
        return Ptr(self.frames[-1].this, e['t'])

    def e_un(self, st, e):
        op = e['op']
        s = e['c'][0]
        if op == '*':
            return self.rd(st, self.loc(st, e), e['t'])
        if op == '&':
            if s['k'] in ('fref', 'mref'):
                return Fn(s['fn'])
            l = self.loc(st, s)
            return Ptr(l, e['t'])
        if op in ('++', '--', 'p++', 'p--'):
            l = self.loc(st, s)
            old = self.read(st, l, s['t'])
            new = self.padd(old, 1 if '+' in op else -1, s['t'])
            self.write(st, l, new)
            return old if op[0] == 'p' else new
        v = self.val(st, s)
        if op == '-':
            return -self.num(v)
        if op == '+':
            return v
        if op == '!':
            return neg(bool_of(v))
        if op == '~':
            return Poly.atom(('app', '~', self.num(v)))
        if op in ('__extension__', '__real', '__imag'):
            return v
        raise Unsupported('un ' + op)

    def num(self, v):
        if isinstance(v, Poly):
            return v
        return P(v)

    def padd(self, v, n, t):
        n = self.num(n)
        if isinstance(v, Ptr):
            if v.loc is None:
                return v
            return Ptr(self.index_loc(v.loc, n, pointee(t) if is_ptr(t) else None), v.t)
        if isinstance(v, Ite):
            return mk_ite(v.c, self.padd(v.a, n, t), self.padd(v.b, n, t))
        if isinstance(v, Opq):
            return Opq('padd', v, n)
        return self.num(v) + n

    def index_loc(self, loc, n, et):
        """advance loc by n elements of type et"""
        if n.is_zero():
            return loc
        if isinstance(loc, Ite):
            return Ite(loc.c, self.index_loc(loc.a, n, et), self.index_loc(loc.b, n, et))
        n = n.scale(nscal(et)) if et else n
        obj, path = loc
        if path and isinstance(path[-1], tuple):
            return self.carry((obj, path[:-1] + (('i', path[-1][1] + n),)))
        return (obj, path + (('i', n),))

    def carry(self, loc):
        """a pointer running over the end of a row continues in the next row of the enclosing array"""
        if not self.stride:
            return loc
        obj, path = loc
        i = path[-1][1]
        if not i.is_const():
            return loc
        n = self.stride.get((obj, split_path(path)[0]))
        if n is None or 0 <= i.cval() < n:
            return loc
        for k in range(len(path) - 2, -1, -1):
            if isinstance(path[k], tuple):
                q, r = divmod(i.cval(), n)
                return (obj, path[:k] + (('i', path[k][1] + q),) + path[k + 1:-1] + (('i', Poly.const(r)),))
        return loc

    def note_stride(self, loc, t):
        """loc is element 0 of an array member (type t) of an object that itself sits in an array"""
        a = arr(t)
        if a and len(a[1]) == 1 and isinstance(loc, tuple) and len(loc) == 2 and self.scalar_t(a[0]):
            sh, ix = split_path(loc[1])
            if len(ix) > 1:
                self.stride[loc[0], sh] = a[1][0]

    def descend(self, loc, t):
        """first scalar of the object of class t at loc, when the class is a plain array of scalars"""
        rec = self.prog.find_record(t)
        if not rec or len(rec['fields']) != 1 or rec.get('poly'):
            return None
        f = rec['fields'][0]
        a = arr(f['t'])
        if not a or len(a[1]) != 1:
            return None
        if self.scalar_t(a[0]):
            l = (loc[0], loc[1] + (f['n'], ('i', ZERO_)))
            self.note_stride(l, f['t'])
            return l
        return self.descend((loc[0], loc[1] + (f['n'], ('i', ZERO_))), a[0])

    def user_copy(self, t):
        """user-provided copy constructor of t, and the bases and members (path, type) an implicit one would have to copy with such a constructor"""
        c = self._ucopy.get(t)
        if c is not None:
            return c
        self._ucopy[t] = (None, ())
        r = self.prog.records.get(t)
        own, sub = None, []
        if r:
            for m in r['methods']:
                if m.get('ctor') and m.get('copy') and not m.get('implicit') and m['id'] in self.prog.fns:
                    own = self.prog.fns[m['id']]
            if own is None:
                for b in r['bases']:
                    b = strip_cv(b['t'] if isinstance(b, dict) else b)
                    if self.user_copy(b) != (None, ()):
                        sub.append(((), b))
                for f in r['fields']:
                    if not is_ptr(f['t']) and not is_ref(f['t']) and self.user_copy(strip_cv(f['t'])) != (None, ()):
                        sub.append(((f['n'],), strip_cv(f['t'])))
        self._ucopy[t] = (own, tuple(sub))
        return self._ucopy[t]

    def member_copies(self, st, dst, src, t, e):
        own, sub = self.user_copy(strip_cv(t))
        if own is not None:
            self.inline(st, own, [Ref(src, t)], Ref(dst, t), e)
        for path, b in sub:
            self.member_copies(st, (dst[0], dst[1] + path), (src[0], src[1] + path), b, e)

    def e_assign(self, st, e):
        lhs, rhs = e['c']
        if self.scalar_t(lhs['t']):
            v = self.val(st, rhs)
            v = self.conv(v, lhs['t'])
            l = self.loc(st, lhs)
            self.store_to(st, l, v)
            return v
        r = self.val(st, rhs)
        l = self.loc(st, lhs)
        if isinstance(r, Ref):
            self.copy_obj(st, l, r.loc, strip_ref(lhs['t']))
        else:
            self.store_to(st, l, r)
        return Ref(l, strip_ref(lhs['t']))

    def store_to(self, st, l, v):
        if isinstance(l, Ite):
            s1, s2 = l.a, l.b
            o1 = None
            self.store_cond(st, l.c, s1, v)
            self.store_cond(st, neg(l.c), s2, v)
            return
        self.on_write(st, l, v)
        self.write(st, l, v)

    def on_write(self, st, l, v):
        pass

    def store_cond(self, st, c, l, v):
        if isinstance(l, Ite):
            self.store_cond(st, conj([c, l.c]), l.a, v)
            self.store_cond(st, conj([c, neg(l.c)]), l.b, v)
            return
        t = 'bool' if isinstance(v, B) else (v.t or 'void *') if isinstance(v, Ptr) else STRINGS[0] if isinstance(v, (Str, Opq)) else 'double'
        self.write(st, l, mk_ite(c, v, self.read(st, l, t)))

    def conv(self, v, t):
        t = strip_ref(t)
        if t == 'bool':
            return bool_of(v)
        if t in FLOATS or t in INTS:
            if isinstance(v, B):
                return P(v)
            return wrap(v, t)
        return v

    def e_cassign(self, st, e):
        lhs, rhs = e['c']
        r = self.val(st, rhs)
        l = self.loc(st, lhs)
        old = self.rd(st, l, lhs['t'])
        new = self.arith(e['op'][:-1], old, r, e.get('ct') or e['t'], lhs['t'], rhs['t'])
        self.store_to(st, l, self.conv(new, lhs['t']))
        return new

    def arith(self, op, a, b, t, ta, tb):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or (isinstance(a, Ite) and is_ptr(ta)):
            if op == '+':
                return self.padd(a, b, ta) if not isinstance(b, Ptr) else self.padd(b, a, tb)
            if op == '-':
                if isinstance(b, Ptr) and isinstance(a, Ptr):
                    if a.loc and b.loc and a.loc[0] == b.loc[0]:
                        sa, ia = split_path(a.loc[1])
                        sb, ib = split_path(b.loc[1])
                        if sa == sb and ia[:-1] == ib[:-1] and ia:
                            return ia[-1] - ib[-1]
                    return Poly.atom(('pdiff', a, b))
                return self.padd(a, -self.num(b), ta)
        integral = strip_ref(t) in INTS
        a, b = self.num(a), self.num(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if integral:
                if a.is_const() and b.is_const() and not b.is_zero():
                    q = abs(a.cval()) // abs(b.cval())
                    return Poly.const(q if (a.cval() < 0) == (b.cval() < 0) else -q)
                if b.is_const() and b.cval() == 1:
                    return a
                return Poly.atom(('idiv', a, b))
            return a * inv(b)
        if op == '%':
            if a.is_const() and b.is_const() and not b.is_zero():
                r = abs(a.cval()) % abs(b.cval())
                return Poly.const(r if a.cval() >= 0 else -r)
            return Poly.atom(('mod', a, b))
        if op in ('&', '|', '^', '<<', '>>'):
            if a.is_const() and b.is_const():
                x, y = int(a.cval()), int(b.cval())
                return Poly.const({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y < 64 else 0, '>>': x >> y if y < 64 else 0}[op])
            return Poly.atom(('bit' + op, a, b))
        raise Unsupported('arith ' + op)

    def e_bin(self, st, e):
        op = e['op']
        l, r = e['c']
        if op in ('&&', '||'):
            a = self.simp(st, bool_of(self.val(st, l)))
            if op == '&&' and a == FALSE:
                return FALSE
            if op == '||' and a == TRUE:
                return TRUE
            g = a if op == '&&' else neg(a)
            sg = st.guards
            if g != TRUE:
                st.guards = st.guards + (g,)
            try:
                b = bool_of(self.val(st, r))
                b = self.simp(st, b)
            finally:
                st.guards = sg
            return conj([a, b]) if op == '&&' else disj([a, b])
        if op == ',':
            self.val(st, l)
            return self.val(st, r)
        a = self.val(st, l)
        b = self.val(st, r)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.simp(st, self.compare(op, a, b, l['t']))
        return self.arith(op, a, b, e['t'], l['t'], r['t'])

    def compare(self, op, a, b, t):
        if isinstance(a, Ite) and not isinstance(b, Ite):
            return b_ite(a.c, self.compare(op, a.a, b, t), self.compare(op, a.b, b, t))
        if isinstance(b, Ite):
            return b_ite(b.c, self.compare(op, a, b.a, t), self.compare(op, a, b.b, t))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Poly) and a.is_zero():
                a = Ptr(None)
            if isinstance(b, Poly) and b.is_zero():
                b = Ptr(None)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.loc is None and b.loc is None:
                    r = TRUE
                elif a.loc is None or b.loc is None:
                    r = neg(bool_of(a if a.loc else b))
                elif a.loc == b.loc:
                    if op in ('<', '>', '<=', '>='):
                        return TRUE if '=' in op else FALSE
                    r = TRUE
                elif a.loc[0] == b.loc[0]:
                    sa, ia = split_path(a.loc[1])
                    sb, ib = split_path(b.loc[1])
                    if sa == () and sb == ('[]',):
                        sa, ia = sb, (ZERO_,)
                    if sb == () and sa == ('[]',):
                        sb, ib = sa, (ZERO_,)
                    if sa == sb and ia:
                        if op in ('<', '>', '<=', '>='):
                            return self.compare(op, ia[-1], ib[-1], 'int')
                        r = conj([eq(x - y) for x, y in zip(ia, ib)])
                    else:
                        r = FALSE
                elif self.is_alloc(a.loc[0]) and self.is_alloc(b.loc[0]):
                    r = FALSE
                else:
                    r = B(('same', frozenset((a, b))))
            else:
                r = same(a, b)
            return r if op == '==' else neg(r) if op == '!=' else B(('cmp', op, a, b))
        if not isinstance(a, (Poly, B)) or not isinstance(b, (Poly, B)):
            if isinstance(a, Opq) and isinstance(b, Poly):
                a = P(a)
            elif isinstance(b, Opq) and isinstance(a, Poly):
                b = P(b)
            else:
                if op in ('==', '!='):
                    r = same(a, b)
                    return r if op == '==' else neg(r)
                return B(('cmp', op, a, b))
        if isinstance(a, B) and isinstance(b, B) and op in ('==', '!='):
            r = disj([conj([a, b]), conj([neg(a), neg(b)])])
            return r if op == '==' else neg(r)
        integral = strip_ref(t) not in FLOATS
        a, b = self.num(a), self.num(b)
        d = a - b
        if op == '<':
            return lt(d, integral)
        if op == '>':
            return lt(-d, integral)
        if op == '<=':
            return le(d, integral)
        if op == '>=':
            return le(-d, integral)
        if op == '==':
            return eq(d)
        return neg(eq(d))

    def e_cond(self, st, e):
        c = self.simp(st, bool_of(self.val(st, e['c'][0])))
        if c == TRUE:
            return self.val(st, e['c'][1])
        if c == FALSE:
            return self.val(st, e['c'][2])
        s1 = st.copy()
        s1.guards += (c,)
        s2 = st.copy()
        s2.guards += (neg(c),)
        a = self.val(s1, e['c'][1])
        b = self.val(s2, e['c'][2])
        g = st.guards
        if s1.dead and s2.dead:
            st.dead = True
            return a
        if s1.dead:
            st.become(s2)
            st.guards = g
            st.assume += (neg(c),)
            return b
        if s2.dead:
            st.become(s1)
            st.guards = g
            st.assume += (c,)
            return a
        m = self.merge(s1, s2)
        st.become(m)
        st.guards = g
        if a is None or b is None:
            return a
        return mk_ite(c, a, b)

    def e_cast(self, st, e):
        s = e['c'][0]
        v = self.val(st, s)
        ck = e['ck']
        t = strip_cv(e['t'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return bool_of(v)
        if ck == 'FloatingToIntegral':
            v = self.num(v)
            if v.is_const():
                c = v.cval()
                n = abs(c).numerator // abs(c).denominator
                return Poly.const(n if c >= 0 else -n)
            return Poly.atom(('trunc', v))
        if ck in ('IntegralToFloating', 'IntegralCast', 'FloatingCast'):
            if isinstance(v, B):
                v = P(v)
            return wrap(v, t)
        if ck == 'BitCast' and isinstance(v, Ptr) and v.loc is not None and not isinstance(v.loc, Ite) and is_ptr(s['t']) and self.prog.is_class(pointee(s['t'])) \
                and is_ptr(t) and not self.prog.is_class(pointee(t)):
            l = self.descend(v.loc, strip_cv(pointee(s['t'])))
            if l is not None:
                return Ptr(l, e['t'])
        return v

    def e_construct(self, st, e):
        t = strip_cv(e['t'])
        if len(e['c']) == 1 and iter_t(t) and iter_t(strip_ref(e['c'][0]['t'])):
            return self.val(st, e['c'][0])
        loc = (self.fresh_obj('T', e), ())
        self.construct_into(st, loc, t, e)
        if is_string(t):
            return self.read(st, loc, t)
        return Ref(loc, t)

    def fresh_obj(self, kind, e):
        self.uid += 1
        return (kind, '%s:%s' % (e.get('l'), self.uid))

    def construct_into(self, st, loc, t, e):
        """run the initializer expression e for an object of class type t at loc"""
        a = arr(t)
        k = e['k']
        if k == 'construct':
            n = e['n']
            if n in self.hooks:
                r = self.hooks[n](self, st, e, loc)
                if r is not NotImplemented:
                    return
            args = e['c']
            if is_string(t):
                self.write(st, loc, self.string_ctor(st, e))
                return
            if e.get('elid') and args[0]['k'] in ('construct', 'init') and not t.startswith('std::'):
                # the object is made in place, no copy exists
                self.construct_into(st, loc, t, args[0])
                return
            if e.get('copy') or e.get('move'):
                src = self.val(st, args[0])
                if e.get('elid') and isinstance(src, Ref) and type(src.loc) is tuple and self.is_temp(src.loc):
                    self.copy_obj(st, loc, src.loc, t)
                    return
                fn = self.prog.fns.get(e['fn'])
                if fn is None:
                    if isinstance(src, Ref):
                        self.copy_obj(st, loc, src.loc, t)
                        self.member_copies(st, loc, src.loc, t, e)
                    elif src is not None:
                        self.write(st, loc, src)
                    return
                self.inline(st, fn, [src], Ref(loc, t), e, arg_nodes=None)
                return
            fn = self.prog.fns.get(e['fn'])
            if fn is None:
                if t.startswith('std::'):
                    self.std_ctor(st, loc, t, e)
                    return
                if e.get('dflt') and e.get('impl'):
                    self.default_init(st, loc, t)
                    return
                self.ext_ctor(st, loc, t, e)
                return
            if a and self.prog.is_class(a[0]) and nscal(t) <= 1024:
                for i in range(nscal(t)):
                    self.call_fn(st, fn, args, Ref((loc[0], loc[1] + (('i', Poly.const(i)),)), a[0]), e)
                return
            self.call_fn(st, fn, args, Ref(loc, t), e)
            return
        if k == 'init':
            if a:
                et = arr_elem(t)
                n = nscal(et)
                for i, c in enumerate(e['c']):
                    self.init_into(st, self.index_loc(loc, Poly.const(i), et) if i else (loc[0], loc[1] + (('i', ZERO_),)) if not (loc[1] and isinstance(loc[1][-1], tuple)) else loc, et, c)
                if e.get('filler') is not None and len(e['c']) < a[1][0]:
                    for i in range(len(e['c']), min(a[1][0], 4096)):
                        self.init_into(st, self.index_loc((loc[0], loc[1] + (('i', ZERO_),)), Poly.const(i), et), et, e['filler'])
                return
            rec = self.prog.find_record(t)
            if rec:
                fs = rec['fields']
                for f, c in zip(fs, e['c']):
                    self.init_into(st, (loc[0], loc[1] + (f['n'],)), f['t'], c)
                return
            # std::initializer_list / container
            for i, c in enumerate(e['c']):
                self.init_into(st, (loc[0], loc[1] + (('i', Poly.const(i)),)), self.prog.elem_type(t) or c['t'], c)
            self.write(st, (loc[0], loc[1] + ('$size',)), Poly.const(len(e['c'])))
            return
        if k == 'zeroinit':
            self.zero_obj(st, loc)
            return
        v = self.val(st, e)
        if isinstance(v, Ref):
            self.copy_obj(st, loc, v.loc, t)
        elif isinstance(v, Ite) and isinstance(v.a, Ref) and isinstance(v.b, Ref):
            s1, s2 = st.copy(), st.copy()
            s1.guards += (v.c,)
            s2.guards += (neg(v.c),)
            self.copy_obj(s1, loc, v.a.loc, t)
            self.copy_obj(s2, loc, v.b.loc, t)
            g = st.guards
            st.become(self.merge(s1, s2))
            st.guards = g
        elif v is not None:
            self.write(st, loc, v)

    def init_into(self, st, loc, t, e):
        if self.scalar_t(t):
            self.write(st, loc, self.conv(self.val(st, e), t))
        else:
            self.construct_into(st, loc, strip_cv(t), e)

    def default_init(self, st, loc, t):
        """implicit default constructor: in-class initialisers and member default construction"""
        a = arr(t)
        if a:
            b, dims = a
            if self.prog.is_class(b) and nscal(t) <= 256 and self.prog.find_record(b):
                for i in range(nscal(t)):
                    self.default_ctor(st, (loc[0], loc[1] + (('i', Poly.const(i)),)), b)
            return
        rec = self.prog.find_record(t)
        if rec is None:
            if t.startswith('std::'):
                self.std_ctor(st, loc, t, None)
            return
        for b in rec['bases']:
            self.default_ctor(st, loc, b)
        for f in rec['fields']:
            fl = (loc[0], loc[1] + (f['n'],))
            if f.get('init') is not None:
                self.init_into(st, fl, f['t'], f['init'])
            elif not self.scalar_t(f['t']):
                self.default_ctor(st, fl, strip_cv(f['t']))
            elif is_string(f['t']):
                self.write(st, fl, Str(''))

    def default_ctor(self, st, loc, t):
        a = arr(t)
        if not a:
            rec = self.prog.find_record(t)
            if rec:
                for m in rec['methods']:
                    if m.get('ctor') and m['id'] in self.prog.fns and not self.prog.fns[m['id']]['params']:
                        self.inline(st, self.prog.fns[m['id']], [], Ref(loc, t), None)
                        return
        self.default_init(st, loc, t)

    def e_init(self, st, e):
        t = strip_cv(e['t'])
        if self.scalar_t(t):
            if not e['c']:
                return ZERO_
            return self.val(st, e['c'][0])
        loc = (self.fresh_obj('T', e), ())
        self.construct_into(st, loc, t, e)
        if arr(t):
            # an array temporary may back a std::initializer_list
            self.write(st, (loc[0], ('$size',)), Poly.const(arr(t)[1][0]))
        return Ref(loc, t)

    def e_zeroinit(self, st, e):
        t = strip_cv(e['t'])
        if not self.scalar_t(t):
            loc = (self.fresh_obj('T', e), ())
            self.zero_obj(st, loc)
            return Ref(loc, t)
        if is_ptr(t):
            return Ptr(None, t)
        if t == 'bool':
            return FALSE
        return ZERO_

    def e_sizeof(self, st, e):
        return Poly.atom(('sizeof', e['arg']))

    def e_new(self, st, e):
        self.uid += 1
        fn = self.frames[-1].fn
        o = ('H', '%s:%s' % (fn['n'].split('::')[-1], e['l']), self.uid) + tuple(Poly.atom(k) for k, n in self.loops)
        t = e['at']
        self.dyn_types[o] = t
        size = self.val(st, e['size']) if e.get('size') else None
        self.event(st, 'new', [Opq('type', t), size if size is not None else Opq('single'), Ptr((o, ()), e['t'])],
                   extra=self.frames[-1].this, node=e)
        if e.get('array'):
            self.write(st, (o, ('$n',)), self.num(size))
            init = e['c'][0] if e['c'] else None
            if init is not None and init['k'] in ('zeroinit',):
                self.zero_obj(st, (o, ()))
            elif init is not None and init['k'] == 'init':
                if not init['c']:
                    self.zero_obj(st, (o, ()))
                else:
                    for i, c in enumerate(init['c']):
                        self.init_into(st, (o, (('i', Poly.const(i)),)), t, c)
            return Ptr((o, (('i', ZERO_),)), e['t'])
        if e['c'] and e['c'][0]:
            if self.scalar_t(t):
                self.write(st, (o, (('i', ZERO_),)), self.conv(self.val(st, e['c'][0]), t))
                return Ptr((o, (('i', ZERO_),)), e['t'])
            self.construct_into(st, (o, ()), t, e['c'][0])
        if self.scalar_t(t):
            return Ptr((o, (('i', ZERO_),)), e['t'])
        return Ptr((o, ()), e['t'])

    @staticmethod
    def is_alloc(o):
        """an object that exists exactly once: a heap or local object not created inside a summarised loop"""
        return type(o) is tuple and o and (o[0] == "H" or o[0] == "T")

    @staticmethod
    def is_temp(loc):
        return type(loc[0]) is tuple and loc[0][:1] == ('T',) and not loc[1]

    def destroy(self, st, loc, t):
        """destructor of t at loc: body, members, bases"""
        r = self.prog.records.get(strip_cv(t))
        if not r:
            return
        for m in r['methods']:
            if m.get('dtor') and m['id'] in self.prog.fns and self.prog.fns[m['id']].get('body'):
                self.inline(st, self.prog.fns[m['id']], [], Ref(loc, r['n']), None)
        for f in reversed(r['fields']):
            if is_ptr(f['t']) or is_ref(f['t']):
                continue
            if strip_cv(f['t']) in self.prog.records:
                self.destroy(st, (loc[0], loc[1] + (f['n'],)), strip_cv(f['t']))
            elif arr(f['t']) and strip_cv(arr(f['t'])[0]) in self.prog.records:
                n = 1
                for d in arr(f['t'])[1]:
                    n *= d
                for i in reversed(range(n)):
                    self.destroy(st, (loc[0], loc[1] + (f['n'], ('i', Poly.const(i)))), strip_cv(arr(f['t'])[0]))
        for b in r['bases']:
            self.destroy(st, loc, b['t'] if isinstance(b, dict) else b)

    def e_delete(self, st, e):
        v = self.val(st, e['c'][0])
        if getattr(self, 'run_dtors', False) and isinstance(v, Ptr) and v.loc is not None and not e.get('array'):
            t = strip_cv(e.get("dt", ""))
            rec = self.prog.records.get(t)
            if rec and rec.get('vdtor'):
                t = self.dynamic_type(st, Ref(v.loc, t)) or t
            self.destroy(st, v.loc, t)
        self.event(st, 'delete[]' if e.get('array') else 'delete', [v, Opq('type', e.get('dt', ''))], node=e)
        if self.freed is not None and isinstance(v, Ptr) and v.loc is not None and not conj(st.guards) != TRUE:
            self.freed.add(v.loc[0])
        return ZERO_

    def e_lambda(self, st, e):
        """a closure: the body with the variables it captures; copies are taken now, references are shared"""
        fr = self.frames[-1]
        env = dict(fr.env)
        for c in e.get('caps', ()):
            if not c['ref'] and c['id'] in env:
                src = env[c['id']]
                o = ('L', fr.uid, c['id'], 'captured', id(e))
                self.clear_obj(st, o)
                self.copy_obj(st, (o, ()), src)
                if src[0] in self.dyn_types:
                    self.dyn_types[o] = self.dyn_types[src[0]]
                env[c['id']] = (o, ())
        key = ('closure', e['fn'], fr.uid)
        self.closures[key] = (e, env, fr)
        return Opq(*key)

    def closure_at(self, st, this):
        """the closure held by the object `this`, if it is one"""
        if isinstance(this, Opq) and this.k in self.closures:
            return this
        if not isinstance(this, Ref) or type(this.loc) is not tuple or this.loc[0] not in st.store:
            return None
        v = st.store[this.loc[0]].get(split_path(this.loc[1])[0])
        return v if isinstance(v, Opq) and v.k in self.closures else None

    def call_closure(self, st, cl, args, e, vals=None):
        node, env, fr = self.closures[cl.k]
        fn = {'id': node['fn'], 'n': fr.fn['n'] + '::lambda', 'params': node['params'], 'body': node['body'], 'rt': e['t'], 'file': fr.fn['file'], 'l': node.get('l')}
        if vals is None:
            vals = [self.arg(st, a, q['t']) for a, q in zip(args, node['params'])]
        this = Ref(fr.this, fr.fn.get('cls', '')) if fr.this is not None else None
        return self.inline(st, fn, vals, this, e, env=env)

    def e_throw(self, st, e):
        self.event(st, 'throw', [], node=e)
        st.dead = True
        return ZERO_

    def e_stmtexpr(self, st, e):
        fl = self.exec(st, e['body'])
        return ZERO_

    def e_arrinitloop(self, st, e):
        return self.val(st, e['c'][0])

    def e_expr(self, st, e):
        c = e.get('cls')
        if c in ('CXXTypeidExpr', 'TypeTraitExpr'):
            return Opq('typeid')
        if c == 'VAArgExpr':
            fr = self.frames[-1]
            o = (('va', fr.uid), ())
            pos = st.get_raw(o[0], ())
            pos = pos if pos is not None else ZERO_
            st.objd(o[0])[()] = pos + 1
            if pos.is_const() and fr.va is not None and 0 <= int(pos.cval()) < len(fr.va):
                return fr.va[int(pos.cval())]
            if pos.is_const() and fr.va is not None:
                self.event(st, 'va-overrun', [pos], node=e)
            return self.typed_atom(('vaarg', fr.uid, pos), e.get('t', 'double'))
        raise Unsupported('expr class %s line %s' % (c, e.get('l')))

    def e_icall(self, st, e):
        f = self.val(st, e['c'][0])
        args = [self.val(st, a) for a in e['c'][1:]]
        return Poly.atom(('icall', f) + tuple(args))

    # ------------------------------------------------------------------ l-values
    def loc(self, st, e):
        k = e['k']
        self.line = e.get('l', self.line)
        if k == 'ref':
            fr = self.frames[-1]
            b = fr.env.get(e['id'])
            if b is None:
                for f in reversed(self.frames):
                    if e['id'] in f.env:
                        b = f.env[e['id']]
                        break
                else:
                    return (('L', 'undef', e['n']), ())
            return b
        if k == 'gref':
            return (('G', e['n'], e['u']), ())
        if k == 'field':
            base = e['c'][0]
            if e.get('arrow'):
                p = self.val(st, base)
                return self.field_of(self.deref(st, p), e['n'])
            if base['k'] in ('ref', 'gref', 'field', 'sub', 'un', 'cond', 'cast', 'this', 'opcall', 'mcall', 'call', 'construct', 'assign', 'init'):
                return self.field_of(self.loc(st, base), e['n'])
            v = self.val(st, base)
            return self.field_of(v.loc, e['n'])
        if k == 'sub':
            b, i = e['c']
            if i['k'] == 'decay' or is_ptr(i['t']):
                b, i = i, b
            if b['k'] == 'decay' and b['c'][0]['k'] != 'str':
                b = b['c'][0]
            bt = strip_ref(b['t'])
            if not (is_ptr(bt) or arr(bt)):
                b, i = i, b
                bt = strip_ref(b['t'])
            iv = self.num(self.val(st, i))
            if arr(bt):
                l = self.loc(st, b)
                self.check_bounds(st, bt, iv, e)
                et = arr_elem(bt)
                if isinstance(l, Ite):
                    return Ite(l.c, self.arr_index(l.a, bt, iv, et), self.arr_index(l.b, bt, iv, et))
                return self.arr_index(l, bt, iv, et)
            p = self.val(st, b)
            l = self.deref(st, p)
            return self.index_loc(l, iv, pointee(bt))
        if k == 'un':
            op = e['op']
            if op == '*':
                p = self.val(st, e['c'][0])
                return self.deref(st, p)
            if op in ('++', '--'):
                self.val(st, e)
                return self.loc(st, e['c'][0])
            if op == '__extension__':
                return self.loc(st, e['c'][0])
        if k in ('assign', 'cassign'):
            self.val(st, e)
            return self.loc_again(st, e['c'][0])
        if k == 'cond':
            c = self.simp(st, bool_of(self.val(st, e['c'][0])))
            if c == TRUE:
                return self.loc(st, e['c'][1])
            if c == FALSE:
                return self.loc(st, e['c'][2])
            a, b = self.loc(st, e['c'][1]), self.loc(st, e['c'][2])
            return a if a == b else Ite(c, a, b)
        if k == 'cast' and e['ck'] in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic', 'ConstructorConversion', 'UserDefinedConversion'):
            if is_ptr(e['t']):
                pass
            else:
                return self.loc(st, e['c'][0])
        if k in ('call', 'mcall', 'opcall'):
            v = getattr(self, 'e_' + k)(st, e)
        else:
            v = self.val(st, e)
        l = self.as_loc(v)
        if l is not None:
            return l
        # materialise a temporary
        o = (self.fresh_obj('T', e), ())
        self.write(st, o, v)
        return o

    def as_loc(self, v):
        if isinstance(v, (Ref, RetLoc)):
            return v.loc
        if isinstance(v, Ite):
            x, y = self.as_loc(v.a), self.as_loc(v.b)
            if x is not None and y is not None:
                return x if x == y else Ite(v.c, x, y)
        return None

    def loc_again(self, st, e):
        m = self.muted
        self.muted = 1
        try:
            return self.loc(st, e)
        finally:
            self.muted = m

    def check_bounds(self, st, bt, iv, e):
        d = arr(bt)[1][0]
        if d and iv.is_const() and not (0 <= iv.cval() < d):
            self.event(st, 'oob', [iv, Poly.const(d)], node=e)

    def arr_index(self, l, bt, iv, et):
        obj, path = l
        n = nscal(et)
        # class-typed elements get their own index level, scalars are flattened
        dims = arr(bt)[1]
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'i' and len(path[-1]) > 2:
            # continue flattening of the same array
            return (obj, path[:-1] + ((('i', path[-1][1] + iv.scale(n)) + path[-1][2:]) if len(dims) > 1 else ('i', path[-1][1] + iv.scale(n)),))
        idx = iv.scale(n)
        if len(dims) > 1:
            return (obj, path + (('i', idx, 'part'),))
        return (obj, path + (('i', idx),))

    def field_of(self, l, n):
        if isinstance(l, Ite):
            return Ite(l.c, self.field_of(l.a, n), self.field_of(l.b, n))
        return (l[0], l[1] + (n,))

    def deref(self, st, p):
        if isinstance(p, Ptr):
            if p.loc is None:
                self.event(st, 'nullderef', [])
                return (('null',), ())
            return p.loc
        if isinstance(p, Ref):
            return p.loc
        if isinstance(p, Ite):
            # a null arm of a conditional pointer is not dereferenced (that would be undefined behaviour)
            a, b = p.a, p.b
            if isinstance(a, Ptr) and a.loc is None:
                return self.deref(st, b)
            if isinstance(b, Ptr) and b.loc is None:
                return self.deref(st, a)
            la, lb = self.deref(st, a), self.deref(st, b)
            return la if la == lb else Ite(p.c, la, lb)
        if isinstance(p, Opq):
            return (('*', p), ())
        if isinstance(p, Poly):
            return (('*', p), ())
        return (('*', p), ())

    # ------------------------------------------------------------------ calls
    def arg(self, st, node, pt):
        """evaluate an argument for a parameter of type pt"""
        if is_ref(pt):
            l = self.loc(st, node)
            return ('lref', l)
        t = strip_cv(pt)
        if self.scalar_t(t):
            return self.conv(self.val(st, node), t)
        v = self.val(st, node)
        return v

    def e_call(self, st, e):
        return self.do_call(st, e, None, e['c'])

    def e_opcall(self, st, e):
        if e.get('meth') and not e.get('static'):
            if 'fn' in e:
                h = self.hook_for(e)
                if h:
                    r = h(self, st, e)
                    if r is not NotImplemented:
                        return r
                if e['fn'] not in self.prog.fns and not e.get('virt') and e.get('n', '').startswith(('std::', '__gnu_cxx::')) and not e['n'].startswith('std::function'):
                    return self.ext_call(st, e, None, e['c'][1:])   # evaluates the object operand itself
                this = self.this_of(st, e['c'][0], False)
                return self.do_call(st, e, this, e['c'][1:], hooked=True)
        return self.do_call(st, e, None, e['c'])

    def this_of(self, st, node, arrow):
        if arrow:
            p = self.val(st, node)
            l = self.deref(st, p)
            t = pointee(node['t']) if is_ptr(node['t']) else strip_ref(node['t'])
            return Ref(l, t) if not isinstance(l, Ite) else Ite(l.c, Ref(l.a, t), Ref(l.b, t))
        l = self.loc(st, node)
        t = strip_ref(node['t'])
        if isinstance(l, Ite):
            return Ite(l.c, Ref(l.a, t), Ref(l.b, t))
        return Ref(l, t)

    def hook_for(self, e):
        n = e.get('n')
        h = self.hooks.get(n)
        return h

    def e_mcall(self, st, e):
        h = self.hook_for(e)
        if h:
            r = h(self, st, e)
            if r is not NotImplemented:
                return r
        base = e['c'][0]
        if is_string(base['t'] if not e.get('arrow') else pointee(base['t'])) or e.get('cls', '').startswith(STRINGS):
            return self.string_method(st, e)
        if e.get('n', '').startswith('std::'):
            return self.std_method(st, e)
        this = self.this_of(st, base, e.get('arrow') or is_ptr(base['t']))
        return self.do_call(st, e, this, e['c'][1:], hooked=True)

    def do_call(self, st, e, this, args, hooked=False):
        n = e.get('n')
        if not hooked:
            h = self.hook_for(e)
            if h:
                r = h(self, st, e)
                if r is not NotImplemented:
                    return r
        fid = e.get('fn')
        if e.get('virt') and this is not None:
            return self.virtual_call(st, e, this, args)
        fn = self.prog.fns.get(fid)
        if fn is None:
            if n and n.endswith('operator()'):
                cl = self.closure_at(st, this)
                if cl is not None:
                    return self.call_closure(st, cl, args, e)
            return self.ext_call(st, e, this, args)
        return self.call_fn(st, fn, args, this, e)

    def virtual_call(self, st, e, this, args):
        fid = e['fn']
        if isinstance(this, Ref):
            dt = self.dynamic_type(st, this)
            if dt is not None:
                f = self.prog.resolve_virtual(dt, fid)
                if f is not None:
                    return self.call_fn(st, f, args, this, e)
        return self.opaque_virtual(st, e, this, args)

    def dynamic_type(self, st, ref):
        o, p = ref.loc
        if not p and isinstance(o, tuple) and o[0] in ('H', 'T', 'L'):
            return self.dyn_types.get(o, ref.t)
        if not p and isinstance(o, str):
            return self.dyn_types.get(o)
        return None

    def opaque_virtual(self, st, e, this, args):
        vs = []
        for a in args:
            try:
                vs.append(self.val(st, a))
            except Unsupported:
                vs.append(Opq('?'))
        self.event(st, 'vcall:' + e['n'], [this] + vs, node=e)
        return self.ret_opaque(st, e, ('vcall', e['n'], this) + tuple(vs))

    def ret_opaque(self, st, e, key):
        t = e['t']
        if strip_cv(t) == 'void':
            return ZERO_
        if not self.scalar_t(t):
            return Ref((key, ()), strip_ref(t))
        return self.typed_atom(key, t)

    def call_fn(self, st, fn, args, this, e):
        ps = fn['params']
        vals = []
        for i, p in enumerate(ps):
            if i < len(args):
                vals.append(self.arg(st, args[i], p['t']))
            elif p.get('def') is not None:
                vals.append(self.arg(st, p['def'], p['t']))
            else:
                vals.append(Opq('missing'))
        self.pending_va = [self.val(st, a) for a in args[len(ps):]]
        if isinstance(this, Ite):
            # receiver depends on a condition: analyse both receivers
            s1, s2 = st.copy(), st.copy()
            s1.guards += (this.c,)
            s2.guards += (neg(this.c),)
            a = self.inline(s1, fn, vals, this.a, e)
            b = self.inline(s2, fn, vals, this.b, e)
            g = st.guards
            m = self.merge(s1, s2)
            if m is None:
                st.dead = True
                return a
            st.become(m)
            st.guards = g
            return mk_ite(this.c, a, b) if a is not None and b is not None else a
        return self.inline(st, fn, vals, this, e)

    def inline(self, st, fn, vals, this, e, arg_nodes=None, env=None):
        self.functions_seen.add(fn['id'])
        if self.freed and isinstance(this, Ref) and type(this.loc) is tuple and this.loc[0] in self.freed:
            self.event(st, 'use-after-free', [this], node=e)
        if len(self.frames) > self.max_depth or sum(1 for f in self.frames if f.fn is fn) > 3:
            self.notes.append('recursion limit in ' + fn['n'])
            return self.ret_opaque(st, {'t': fn['rt']}, self.fresh('rec', fn['n']))
        fr = Frame(fn, this.loc if isinstance(this, Ref) else this)
        self.uid += 1
        fr.uid = self.uid
        fr.va, self.pending_va = self.pending_va, None
        if env:
            fr.env.update(env)
        for p, v in zip(fn['params'], vals):
            self.bind(st, fr, p['id'], p['n'], p['t'], v)
        self.frames.append(fr)
        self.stack.append((fn['n'], (e or {}).get('l')))
        sg, sa = st.guards, st.assume
        st.ret = None
        try:
            if fn.get('ctor'):
                self.ctor_inits(st, fn, this)
            fl = self.exec(st, fn['body'])
        finally:
            self.frames.pop()
            self.stack.pop()
        end = self.merge(fl.get('next'), fl.get('ret'))
        if end is None:
            st.dead = True
            return Opq('noreturn')
        ret = end.ret
        st.become(end)
        st.guards = sg
        st.ret = None
        if getattr(self, 'run_dtors', False):
            for p in fn['params']:
                t = strip_cv(p['t'])
                if t in self.prog.records and not is_ptr(t) and not is_ref(p['t']) and p['id'] in fr.env:
                    self.destroy(st, fr.env[p['id']], t)
        if ret is None:
            if strip_cv(fn['rt']) != 'void' and not fn.get('ctor'):
                return self.ret_opaque(st, {'t': fn['rt']}, self.fresh('noret', fn['n']))
            return ZERO_
        return ret

    def bind(self, st, fr, pid, name, t, v):
        if isinstance(v, tuple) and v and v[0] == 'lref':
            fr.env[pid] = v[1]
            return
        if is_ref(t):
            if isinstance(v, Ref):
                fr.env[pid] = v.loc
            else:
                o = (self.fresh_obj('T', {'l': name}), ())
                self.write(st, o, v)
                fr.env[pid] = o
            return
        o = ('L', fr.uid, pid, name)
        self.dyn_types[o] = strip_cv(t)
        self.clear_obj(st, o)
        if isinstance(v, Ref):
            # by-value aggregate parameter
            self.copy_obj(st, (o, ()), v.loc, strip_cv(t))
        else:
            self.write(st, (o, ()), v)
        fr.env[pid] = (o, ())

    def ctor_inits(self, st, fn, this):
        loc = this.loc
        for i in fn.get('inits', []):
            if 'field' in i:
                fl = (loc[0], loc[1] + (i['field'],))
                if i['e'] is None:
                    continue
                self.init_into(st, fl, i['t'], i['e'])
            elif 'base' in i:
                self.construct_into(st, loc, strip_cv(i['base']), i['e'])
            elif 'deleg' in i:
                self.construct_into(st, loc, fn['cls'], i['e'])

    def ext_call(self, st, e, this, args):
        from stdmodel import ext_call
        return ext_call(self, st, e, this, args)

    def std_method(self, st, e):
        from stdmodel import std_method
        return std_method(self, st, e)

    def string_method(self, st, e):
        from stdmodel import string_method
        return string_method(self, st, e)

    def string_ctor(self, st, e):
        from stdmodel import string_ctor
        return string_ctor(self, st, e)

    def std_ctor(self, st, loc, t, e):
        from stdmodel import std_ctor
        return std_ctor(self, st, loc, t, e)

    def ext_ctor(self, st, loc, t, e):
        args = [self.val(st, a) for a in e['c']]
        if e['n'] == 'el::base::Writer::Writer' and e['c'] and e['c'][0].get('n') == 'el::Fatal':
            self.event(st, 'fatal', [], node=e)
            st.dead = True
            return
        st.objd(loc[0])[split_path(loc[1])[0] + ('$ext',)] = Opq('ctor', e['n'], *args)

    # ------------------------------------------------------------------ statements
    def exec(self, st, s):
        """-> flow dict"""
        if s is None:
            return {'next': st}
        if st.dead:
            return {}
        k = s['k']
        self.line = s.get('l', self.line)
        return getattr(self, 's_' + k)(st, s)

    def fin(self, st):
        return {} if st.dead else {'next': st}

    def s_expr_stmt(self, st, s):
        self.val(st, s['e'])
        return self.fin(st)

    def s_null_stmt(self, st, s):
        return {'next': st}

    def s_block(self, st, s):
        out = {}
        cur = st
        for c in s['c']:
            fl = self.exec(cur, c)
            for k in ('ret', 'break', 'cont'):
                if fl.get(k) is not None:
                    out[k] = self.merge(out.get(k), fl[k])
            cur = fl.get('next')
            if cur is None:
                break
        if cur is not None:
            out['next'] = cur
        return out

    def s_decl(self, st, s):
        for v in s['c']:
            self.declare(st, v)
            if st.dead:
                return {}
        return {'next': st}

    def declare(self, st, v):
        fr = self.frames[-1]
        t = v['t']
        if is_ref(t):
            fr.env[v['id']] = self.loc(st, v['init'])
            return
        o = ('L', fr.uid, v['id'], v['n'])
        if v.get('static'):
            o = ('G', fr.fn['n'] + '::' + v['n'], ('static', fr.fn['id'], v['id']))
            self.prog.globals.setdefault(o[2], {'init': v.get('init'), 't': t, 'file': fr.fn['file'], 'n': o[1]})
            fr.env[v['id']] = (o, ())
            return
        self.dyn_types[o] = strip_cv(t)
        init = v.get('init')
        if self.scalar_t(t):
            if init is not None:
                val = self.conv(self.val(st, init), t)
                self.clear_obj(st, o)
                fr.env[v['id']] = (o, ())
                self.write(st, (o, ()), val)
            else:
                self.clear_obj(st, o)
                fr.env[v['id']] = (o, ())
            return
        if init is not None:
            # evaluate into a temporary name first when the initializer may mention the variable (loops)
            self.clear_obj(st, o)
            fr.env[v['id']] = (o, ())
            self.construct_into(st, (o, ()), strip_cv(t), init)
        else:
            self.clear_obj(st, o)
            fr.env[v['id']] = (o, ())

    def branch(self, st, c, f1, f2):
        """execute f1 under c and f2 under not c; merge the flows"""
        c = self.simp(st, c)
        if c == TRUE:
            return f1(st)
        if c == FALSE:
            return f2(st)
        g0 = st.guards
        s1, s2 = st.copy(), st.copy()
        s1.guards += (c,)
        s2.guards += (neg(c),)
        r1, r2 = f1(s1), f2(s2)
        out = {}
        live1, live2 = any(x is not None for x in r1.values()), any(x is not None for x in r2.values())
        if live1 and not live2:
            for x in r1.values():
                if x is not None:
                    x.assume += (c,)
                    x.guards = drop_guard(x.guards, len(g0), c)
            return r1
        if live2 and not live1:
            for x in r2.values():
                if x is not None:
                    x.assume += (neg(c),)
                    x.guards = drop_guard(x.guards, len(g0), neg(c))
            return r2
        for k in set(r1) | set(r2):
            m = self.merge(r1.get(k), r2.get(k))
            if m is not None:
                out[k] = m
        return out

    def s_if(self, st, s):
        if s.get('init'):
            self.exec(st, s['init'])
        if s.get('cv'):
            self.declare(st, s['cv'])
        c = bool_of(self.val(st, s['cond']))
        if st.dead:
            return {}
        return self.branch(st, c, lambda x: self.exec(x, s['then']), lambda x: self.exec(x, s['else']))

    def s_return(self, st, s):
        if s.get('e') is not None:
            rt = self.frames[-1].fn['rt']
            if is_ref(rt):
                l = self.loc(st, s['e'])
                v = Ref(l, strip_ref(rt)) if not isinstance(l, Ite) else Ite(l.c, Ref(l.a, strip_ref(rt)), Ref(l.b, strip_ref(rt)))
                if self.scalar_t(rt):
                    v = RetLoc(l)
            else:
                v = self.val(st, s['e'])
                v = self.conv(v, rt)
                if isinstance(v, Ref) and isinstance(v.loc, tuple) and isinstance(v.loc[0], tuple) and v.loc[0][0] not in ('T',):
                    # by-value return of a named object: copy out
                    o = (self.fresh_obj('T', s), ())
                    fake = {'k': 'construct'}
                    self.copy_obj(st, o, v.loc, strip_cv(rt))
                    v = Ref(o, strip_cv(rt))
            if st.dead:
                return {}
            st.ret = v
        return {'ret': st}

    def s_break(self, st, s):
        return {'break': st}

    def s_continue(self, st, s):
        return {'cont': st}

    def s_label(self, st, s):
        return self.exec(st, s['body'])

    def s_try(self, st, s):
        return self.exec(st, s['body'])

    def s_other_stmt(self, st, s):
        raise Unsupported('stmt ' + s['cls'])

    def s_switch(self, st, s):
        v = self.num(self.val(st, s['cond']))
        body = s['body']['c'] if s['body']['k'] == 'block' else [s['body']]
        # flatten case labels: list of (labels, stmt)
        seq = []
        for b in body:
            labels = []
            while b is not None and b['k'] in ('case', 'default'):
                labels.append(self.num(self.val(st, b['e'])) if b['k'] == 'case' else None)
                b = b['body']
            seq.append((labels, b))
        alls = [l for ls, _ in seq for l in ls if l is not None]
        out = {}
        pend = None      # fallthrough state
        nomatch = st
        rest = TRUE
        for labels, b in seq:
            if labels:
                conds = []
                for l in labels:
                    if l is None:
                        conds.append(conj([neg(eq(v - x)) for x in alls]))
                    else:
                        conds.append(eq(v - l))
                c = self.simp(st, disj(conds))
                if c != FALSE:
                    ent = st.copy()
                    if c != TRUE:
                        ent.guards += (c,)
                    pend = self.merge(pend, ent)
            if pend is None or b is None:
                continue
            fl = self.exec(pend, b)
            pend = fl.get('next')
            for k in ('ret', 'cont'):
                if fl.get(k) is not None:
                    out[k] = self.merge(out.get(k), fl[k])
            if fl.get('break') is not None:
                out['next'] = self.merge(out.get('next'), fl['break'])
        if pend is not None:
            out['next'] = self.merge(out.get('next'), pend)
        if not any(None in ls for ls, _ in seq):
            c = self.simp(st, conj([neg(eq(v - x)) for x in alls]))
            if c != FALSE:
                n = st.copy()
                if c != TRUE:
                    n.guards += (c,)
                out['next'] = self.merge(out.get('next'), n)
        return out

    def s_case(self, st, s):
        return self.exec(st, s['body'])

    s_default = s_case

    # ------------------------------------------------------------------ loops
    def s_for(self, st, s):
        if s.get('init'):
            fl = self.exec(st, s['init'])
            st = fl.get('next')
            if st is None:
                return {}
        cond = (lambda x: bool_of(self.val(x, s['cond']))) if s.get('cond') is not None else None
        inc = (lambda x: self.val(x, s['inc'])) if s.get('inc') is not None else None
        return self.loop(st, cond, lambda x: self.exec(x, s['body']), inc, s)

    def s_while(self, st, s):
        def cond(x):
            if s.get('cv'):
                self.declare(x, s['cv'])
            return bool_of(self.val(x, s['cond']))
        return self.loop(st, cond, lambda x: self.exec(x, s['body']), None, s)

    def s_do(self, st, s):
        def cond(x):
            return bool_of(self.val(x, s['cond']))
        return self.loop(st, cond, lambda x: self.exec(x, s['body']), None, s, post=True)

    def s_rangefor(self, st, s):
        r = self.val(st, s['range'])
        if isinstance(r, Ref):
            rl = r.loc
        else:
            rl = self.loc(st, s['range'])
        rt = strip_ref(s['range']['t'])
        a = arr(rt)
        fr = self.frames[-1]
        et = s['var']['t']
        cnt = ('L', fr.uid, 'rf', id(s))
        self.write(st, (cnt, ()), ZERO_)
        if a:
            n = Poly.const(a[1][0])
        else:
            n = None

        def size(x):
            return n if n is not None else self.num(self.read(x, (rl[0], rl[1] + ('$size',)), 'unsigned long'))

        def cond(x):
            return lt(self.num(self.read(x, (cnt, ()), 'int')) - size(x), True)

        def body(x):
            i = self.num(self.read(x, (cnt, ()), 'int'))
            if a:
                el = self.arr_index(rl, rt, i, arr_elem(rt))
            else:
                el = (rl[0], rl[1] + (('i', i),))
            v = s['var']
            if is_ref(v['t']):
                fr.env[v['id']] = el
            else:
                o = ('L', fr.uid, v['id'], v['n'])
                fr.env[v['id']] = (o, ())
                self.clear_obj(x, o)
                if self.scalar_t(v['t']):
                    self.write(x, (o, ()), self.read(x, el, v['t']))
                else:
                    self.copy_obj(x, (o, ()), el, strip_cv(v['t']))
            return self.exec(x, s['body'])

        def inc(x):
            self.write(x, (cnt, ()), self.num(self.read(x, (cnt, ()), 'int')) + 1)
        return self.loop(st, cond, body, inc, s)

    def loop(self, st, cond, body, inc, s, post=False):
        if self.on_loop is not None:
            self.on_loop(st)
        # 1. try complete unrolling when the condition is decided at every head
        ev0 = len(self.events)
        ok = False
        probe = st.copy()
        first = self.simp(probe, cond(probe)) if (cond and not post) else None
        if first == FALSE:
            st.become(probe)
            return {'next': st}
        if first == TRUE or post or cond is None:
            r = self.try_unroll(st, cond, body, inc, post, cond is None or self.lit_true(s))
            if r is not None:
                return r
        del self.events[ev0:]
        return self.generic(st, cond, body, inc, s, post)

    def lit_true(self, s):
        c = s.get('cond')
        while c is not None and c['k'] == 'cast':
            c = c['c'][0]
        return c is not None and str(c.get('v')) not in ('None', '0', 'False') and c['k'] in ('bool', 'int')

    def try_unroll(self, st, cond, body, inc, post, infinite):
        cur = st.copy()
        out = {}
        ev0 = len(self.events)
        n = 0
        limit = 1 if infinite else self.unroll_limit
        g0 = st.guards
        while True:
            if not (post and n == 0) and cond is not None:
                c = self.simp(cur, cond(cur))
                if c == FALSE:
                    break
                if c != TRUE:
                    if post and n == 1 and False:
                        pass
                    del self.events[ev0:]
                    return None
            n += 1
            if n > limit:
                del self.events[ev0:]
                return None
            fl = body(cur)
            if infinite and n < 300 and fl.get('ret') is None and fl.get('break') is None:
                # an endless loop is followed as long as each pass has a single outcome
                m = self.merge(fl.get('next'), fl.get('cont'))
                if m is not None and m.guards == g0:
                    limit = n + 1
            if fl.get('ret') is not None:
                out['ret'] = self.merge(out.get('ret'), fl['ret'])
            if fl.get('break') is not None:
                out['next'] = self.merge(out.get('next'), fl['break'])
            cur = self.merge(fl.get('next'), fl.get('cont'))
            if cur is None:
                break
            if n > 40 and len(cur.guards) > 60:
                del self.events[ev0:]
                return None
            if inc:
                inc(cur)
        if cur is not None:
            out['next'] = self.merge(out.get('next'), cur)
        return out

    def diffkeys(self, a, b):
        """scalar and array locations whose content differs between states"""
        sc, ar = [], []
        for o, db in b.store.items():
            da = a.store.get(o)
            if da is db:
                continue
            for s, vb in db.items():
                va = da.get(s) if da else None
                if va is vb:
                    continue
                if isinstance(vb, Log):
                    if va is None or va.ents != vb.ents:
                        ar.append((o, s))
                elif va != vb:
                    sc.append((o, s))
        return sc, ar

    def generic(self, st, cond, body, inc, s, post):
        uid = self.nuid()
        kap = ('k', uid)
        K = Poly.atom(kap)
        sc, ar = set(), set()
        nf = len(self.frames)

        def havoc(base, closed, N=None):
            h = base.copy()
            for (o, sh) in sc:
                old = base.get_raw(o, sh)
                if (o, sh) in closed:
                    h.objd(o)[sh] = closed[(o, sh)]
                else:
                    h.objd(o)[sh] = self.lh_val(uid, o, sh, old)
            for (o, sh) in ar:
                l = h.log_for_write(o, sh)
                l.ents.append(Entry('havoc', (), uid))
            return h

        def run(head, record):
            """one generic iteration; returns flows, end state, condition"""
            c = None
            if cond is not None and not post:
                c = self.simp(head, cond(head))
                if c != TRUE:
                    head.assume += (c,)
            fl = body(head)
            end = self.merge(fl.get('next'), fl.get('cont'))
            if end is not None and inc:
                inc(end)
            if cond is not None and post and end is not None:
                c = cond(end)
            return fl, end, c

        self.muted += 1
        self.loops.append((kap, None))
        try:
            for _ in range(4):
                n0 = len(sc) + len(ar)
                head = havoc(st, {})
                h0 = head.copy()
                fl, end, c = run(head, False)
                for x in [end] + [fl.get(k) for k in ('break', 'ret')]:
                    if x is not None:
                        a, b = self.diffkeys(h0, x)
                        sc.update(k for k in a if not made_after(k[0], uid))
                        ar.update(k for k in b if not made_after(k[0], uid))
                if len(sc) + len(ar) == n0:
                    break
            # locals declared inside the body need no induction treatment, but are harmless
            closed = {}
            steps = {}
            invar = set()
            if end is not None:
                for key in sorted(sc, key=repr):
                    old = st.get_raw(*key)
                    hv = h0.get_raw(*key)
                    ev = end.get_raw(*key)
                    stp = self.step_of(hv, ev)
                    if old is not None and ev is not None and hv == ev and not isinstance(old, Log):
                        # unchanged along the back edge: the value at the head is the value at entry
                        closed[key] = old
                        invar.add(key)
                        continue
                    if self.can_advance(old) and stp is not None and not self.has_lh(stp, uid) and not occurs(stp, kap):
                        closed[key] = self.advance(old, K * stp)
                        steps[key] = stp
            # second pass: inductions closed; look for the trip count and sums
            head = havoc(st, closed)
            h1 = head.copy()
            fl, end, c = run(head, False)
            N, exact = self.trip(c, kap) if not post else self.trip_post(c, kap)
            if N is not None and not exact:
                N = None if post else self.trip_search(c, kap, uid, N)
            c_head = c
            sums = {}
            self.loops[-1] = (kap, N)
            if end is not None:
                for key in sorted(sc, key=repr):
                    if key in closed:
                        continue
                    old, hv, ev = st.get_raw(*key), h1.get_raw(*key), end.get_raw(*key)
                    stp = self.step_of(hv, ev)
                    if stp is not None and not self.has_lh(stp, uid) and isinstance(old, Poly):
                        sums[key] = stp
                        closed[key] = old + Poly.atom(('psum', kap, stp))
        finally:
            self.muted -= 1
            self.loops.pop()
        # final, recorded pass
        self.loops.append((kap, N))
        again = not (self.muted and not sums and not self.keep_states)
        self.loopinfo[kap] = {'line': s.get('l'), 'N': N, 'exact': exact, 'cond': c, 'fn': self.frames[-1].fn['n'], 'file': self.frames[-1].fn['file']}
        try:
            if again:
                head = havoc(st, closed)
                h2 = head.copy()
                g0 = head.guards
                fl, end, c = run(head, True)
            else:
                h2, g0 = h1, h1.guards
        finally:
            self.loops.pop()
        self.loop_mods[kap] = (frozenset(sc), frozenset(ar))
        if self.keep_states:
            self.loopstates[uid] = dict(entry=st.copy(), head=h2, end=end.copy() if end is not None else None,
                                        brk=fl['break'].copy() if fl.get('break') is not None else None,
                                        cond=c, muted=self.muted, line=s.get('l'))
        outs = {}
        has_break = fl.get('break') is not None
        # normal exit
        never = cond is None or (c_head is not None and c_head == TRUE)
        c = c_head
        if not never:
            ex = st.copy()
            for key in sc:
                o, sh = key
                old = st.get_raw(o, sh)
                endv = end.get_raw(o, sh) if end is not None else None
                if key in invar:
                    v = old
                elif key in steps and N is not None:
                    v = self.advance(old, steps[key] * N)
                elif key in sums and N is not None:
                    v = old + mk_sum(kap, N, sums[key])
                else:
                    v = self.exit_val(st, uid, kap, N, key, old, h2.get_raw(o, sh), endv)
                ex.objd(o)[sh] = v
            for key in ar:
                self.exit_array(st, ex, h2, end, key, uid, kap, N, K)
            if c is not None and not has_break and not post:
                # negated condition at exit, expressed over exit values: re-evaluate
                pass
            outs['next'] = ex
        single = has_break != (fl.get('ret') is not None)
        if has_break:
            br = fl['break']
            b2 = self.leave(st, br, g0, kap, uid, 'broke', sc, ar)
            if 'next' in outs:
                bc = self.search(b2, br.guards[len(g0):], kap, uid, N, sc, ar) if single else None
                bc = bc if bc is not None else B(('broke', uid))
                b2.guards = st.guards + (bc,)
                outs['next'].guards = st.guards + (neg(bc),)
                outs['next'] = self.merge(b2, outs['next'])
                outs['next'].guards = st.guards
                self.last_break = uid
            else:
                b2.guards = st.guards
                outs['next'] = b2
        if fl.get('ret') is not None:
            r = self.leave(st, fl['ret'], g0, kap, uid, 'returned', sc, ar)
            if 'next' in outs:
                rc = self.search(r, fl['ret'].guards[len(g0):], kap, uid, N, sc, ar) if single else None
                rc = rc if rc is not None else B(('returned', uid))
                r.guards = st.guards + (rc,)
                outs['next'].guards = st.guards + (neg(rc),)
            else:
                r.guards = st.guards
            outs['ret'] = r
        return outs

    def search(self, x, extra, kap, uid, N, sc, ar):
        """a loop left early in the first iteration that satisfies a condition on that iteration alone: name that iteration"""
        c = conj(extra)
        if N is None or c == TRUE or self.has_lh(c, uid) or any(t[0] in ('broke', 'returned') for t in atomset(c) if type(t) is tuple and t):
            return None
        ex, first = exists(kap, N, c)
        m = {kap: first}
        for o, sh in sc:
            v = x.get_raw(o, sh)
            if v is not None and not isinstance(v, Log) and occurs(v, kap):
                x.objd(o)[sh] = subst(v, m)
        for o, sh in ar:
            v = x.get_raw(o, sh)
            if isinstance(v, Log):
                ents = []
                for e in v.ents:
                    if type(e) is dict:
                        ents.append({subst(k2, m): subst(v2, m) for k2, v2 in e.items()})
                    else:
                        ents.append(Entry(e.kind, subst(e.idx, m), subst(e.val, m), subst(e.guard, m), e.q, e.line))
                x.objd(o)[sh] = Log(ents, v.owner)
        if x.ret is not None:
            x.ret = RetLoc(subst(x.ret.loc, m)) if isinstance(x.ret, RetLoc) else subst(x.ret, m)
        x.assume = tuple(subst(a, m) for a in x.assume)
        return ex

    def trip_search(self, c, kap, uid, N):
        cs = c.v[1] if c.v[0] == 'and' else (c,)
        rest = []
        used = False
        for y in cs:
            n, ok = self.trip(y, kap)
            if ok and n == N and not used:
                used = True
            else:
                rest.append(y)
        stop = neg(conj(rest))
        if not rest or self.has_lh(stop, uid) or not occurs(stop, kap):
            return None
        ex, first = exists(kap, N, stop)
        return mk_ite(ex, first, N)

    def leave(self, st, br, g0, kap, uid, why, sc, ar):
        """state leaving a summarised loop by break/return: the iteration symbol becomes 'the leaving iteration'"""
        extra = br.guards[len(g0):]
        br.assume = br.assume + tuple(extra)
        self.loopinfo[kap].setdefault('exits', []).append((why, conj(extra)))
        return br

    def exit_val(self, st, uid, kap, N, key, old, hv, endv):
        if endv is None:
            return old if old is not None else Opq('lo', uid, key)
        o, sh = key
        if not self.has_lh(endv, uid) and not occurs(endv, kap) and old is not None:
            if N is not None:
                c = self.simp(st, lt(-N, True))
                return mk_ite(c, endv, old) if type(endv) == type(old) or isinstance(endv, (Poly, B)) else endv
        a = ('lo', uid, o, sh)
        self.loopinfo[kap].setdefault('last', {})[a] = (endv, hv, old)
        if isinstance(endv, B) or isinstance(old, B):
            return B(('test', a))
        if isinstance(endv, Ptr) or isinstance(old, Ptr):
            t = (endv.t if isinstance(endv, Ptr) else old.t)
            return self.typed_atom(a, t or 'void *')
        if isinstance(endv, Poly) or isinstance(old, Poly):
            return Poly.atom(a)
        return Opq(*a)

    def exit_array(self, st, ex, h2, end, key, uid, kap, N, K):
        o, sh = key
        if end is None:
            return
        el = end.get_raw(o, sh)
        hl = h2.get_raw(o, sh)
        if el is None:
            # object vanished (local redeclared)
            return
        base = st.get_raw(o, sh)
        nb = len(hl.ents) if hl else 0
        if el.ents[:nb] != (hl.ents if hl else []):
            # object was re-created inside the loop: content is per-iteration only
            l = ex.log_for_write(o, sh)
            l.ents.append(Entry('havoc', (), ('lo', uid)))
            return
        new = el.ents[nb:]
        flat = []
        for e in new:
            if type(e) is dict:
                for k2, v in e.items():
                    flat.append(Entry('w', k2, v))
            else:
                flat.append(e)
        l = ex.log_for_write(o, sh)
        # classify
        var = [e for e in flat if any(occurs(i, kap) for i in e.idx)]
        inv_ = [e for e in flat if not any(occurs(i, kap) for i in e.idx)]
        inj = None
        if var and not inv_:
            for pos in range(len(var[0].idx)):
                cs = [lin_coeff(e.idx[pos], kap) for e in var]
                if any(c is None or c == 0 for c in cs) or len(set(cs)) != 1:
                    continue
                rs = [e.idx[pos] - Poly.atom(kap).scale(cs[0]) for e in var]
                if any(self.has_lh(r, uid) for r in rs):
                    continue
                ok = True
                for r in rs[1:]:
                    d = (r - rs[0])
                    if d.is_const() and abs(d.cval()) < abs(cs[0]):
                        continue
                    if d.is_const() and d.is_zero():
                        continue
                    # distinct residues required
                    if d.is_const() and (d.cval() / cs[0]).denominator != 1:
                        continue
                    ok = False
                if ok:
                    inj = pos
                    break
        if inj is not None:
            okset = {e.idx[inj] for e in var}
            def fix(v):
                m = {}
                for a in atomset(v):
                    if type(a) is tuple and a[0] == 'lh' and a[1] == uid and len(a) == 5 and a[2] == o and a[3] == sh:
                        if a[4][inj] in okset:
                            t = 'double'
                            m[a] = self.read(st, (o, fill(sh, a[4])), t)
                return subst(v, m)
            for e in flat:
                l.ents.append(Entry(e.kind, e.idx, fix(e.val), fix(e.guard), e.q + ((kap, N),), e.line))
            return
        # accumulations on loop-invariant or data dependent indices
        for e in flat:
            lhat = ('lh', uid, o, sh, e.idx)
            if isinstance(e.val, Poly) and not e.q:
                d = e.val - Poly.atom(lhat)
                if not self.has_lh(d, uid):
                    if not any(occurs(i, kap) for i in e.idx) and len([f for f in flat if f.idx == e.idx]) == 1 and N is not None and e.guard == TRUE \
                            and all(not any(occurs(i, kap) for i in f.idx) for f in flat):
                        old = self.read(st, (o, fill(sh, e.idx)), 'double')
                        if all(i.is_const() for i in e.idx):
                            if not l.ents or type(l.ents[-1]) is not dict:
                                l.ents.append({})
                            l.ents[-1][e.idx] = self.num(old) + mk_sum(kap, N, d)
                        else:
                            l.ents.append(Entry('w', e.idx, self.num(old) + mk_sum(kap, N, d), line=e.line))
                        continue
                    l.ents.append(Entry('accum', e.idx, d, e.guard, e.q + ((kap, N),), e.line))
                    continue
            if e.kind == 'accum':
                l.ents.append(Entry('accum', e.idx, e.val, e.guard, e.q + ((kap, N),), e.line))
                continue
            if not self.has_lh(e.val, uid) and not any(occurs(i, kap) for i in e.idx) and not occurs(e.val, kap) and e.guard == TRUE and not e.q and N is not None:
                c = self.simp(st, lt(-N, True))
                t = 'bool' if isinstance(e.val, B) else 'void *' if isinstance(e.val, Ptr) else 'double'
                old = self.read(st, (o, fill(sh, e.idx)), t) if c != TRUE else e.val
                v = mk_ite(c, e.val, old)
                if all(i.is_const() for i in e.idx):
                    if not l.ents or type(l.ents[-1]) is not dict:
                        l.ents.append({})
                    l.ents[-1][e.idx] = v
                else:
                    l.ents.append(Entry('w', e.idx, v, line=e.line))
                continue
            l.ents.append(Entry('wx', e.idx, e.val, e.guard, e.q + ((kap, N),), e.line))

    def lh_val(self, uid, o, sh, old):
        a = ('lh', uid, o, sh)
        if isinstance(old, B):
            return B(('test', a))
        if isinstance(old, Ptr):
            if old.loc is not None and old.loc[1] and isinstance(old.loc[1][-1], tuple):
                return Ptr((old.loc[0], old.loc[1][:-1] + (('i', Poly.atom(a)),)), old.t)
            return self.typed_atom(a, old.t or 'void *')
        if isinstance(old, (Str, Opq)):
            return Opq(*a)
        if isinstance(old, Ite):
            x = old
            while isinstance(x, Ite):
                x = x.a
            return self.lh_val(uid, o, sh, x)
        return Poly.atom(a)

    def has_lh(self, v, uid):
        for a in atomset(v):
            if (type(a) is tuple and a[0] in ('lh', 'lo', 'psum') and (a[1] == uid)) or (isinstance(a, Opq) and a.k and a.k[0] == 'lh' and a.k[1] == uid):
                return True
            if type(a) is tuple and a[0] == 'psum' and a[1] == ('k', uid):
                return True
        if isinstance(v, Opq) and v.k and v.k[0] == 'lh' and v.k[1] == uid:
            return True
        return False

    def step_of(self, hv, ev):
        if isinstance(hv, Poly) and isinstance(ev, Poly):
            return ev - hv
        if isinstance(hv, Ptr) and isinstance(ev, Ptr) and hv.loc and ev.loc and hv.loc[0] == ev.loc[0] and hv.loc[1] and ev.loc[1] \
                and isinstance(hv.loc[1][-1], tuple) and isinstance(ev.loc[1][-1], tuple) and hv.loc[1][:-1] == ev.loc[1][:-1]:
            return ev.loc[1][-1][1] - hv.loc[1][-1][1]
        return None

    def can_advance(self, old):
        return isinstance(old, Poly) or (isinstance(old, Ptr) and old.loc is not None and bool(old.loc[1])
                                         and isinstance(old.loc[1][-1], tuple))

    def advance(self, old, d):
        if isinstance(old, Ptr):
            return Ptr((old.loc[0], old.loc[1][:-1] + (('i', old.loc[1][-1][1] + d),)), old.t)
        return old + d

    def trip(self, c, kap):
        """number of iterations from the loop condition over the iteration symbol"""
        if c is None:
            return None, False
        cs = c.v[1] if c.v[0] == 'and' else (c,)
        N = None
        for x in cs:
            n = None
            if x.v[0] == 'lt':
                p = x.v[1]
                co = lin_coeff(p, kap)
                if co is not None and co > 0:
                    r = p - Poly.atom(kap).scale(co)
                    n = (-r).scale(1 / co)
                    if co != 1:
                        n = Poly.const(-(-n.cval().numerator // n.cval().denominator)) if n.is_const() else Poly.atom(('ceil', n))
            elif x.v[0] == 'not' and x.v[1].v[0] == 'eq':
                p = x.v[1].v[1]
                co = lin_coeff(p, kap)
                if co:
                    r = p - Poly.atom(kap).scale(co)
                    n = (-r).scale(1 / co)
            if n is not None and not occurs(n, kap):
                N = n
                break
        return N, len(cs) == 1 and N is not None

    def trip_post(self, c, kap):
        if c is None:
            return None, False
        # condition is tested after iteration kap with values of kap+1: shift
        N, ex = self.trip(subst(c, {kap: Poly.atom(kap)}), kap)
        return (N + 1 if N is not None else None), ex


class RetLoc:
    """returned reference to a scalar"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __hash__(self):
        return hash(('RetLoc', self.loc))

    def __eq__(self, o):
        return isinstance(o, RetLoc) and self.loc == o.loc


def iter_t(t):
    return t.startswith(('std::_Rb_tree', 'std::_List', '__gnu_cxx::__normal_iterator', 'std::__detail::_Node')) and 'iterator' in t


def made_after(o, uid):
    """locals and temporaries of calls made inside a loop body are created anew in every iteration"""
    if type(o) is tuple:
        if o[0] == 'L':
            return o[1] > uid
        if o[0] == 'T':
            return int(o[1].rsplit(':', 1)[1]) > uid
    return False


def drop_guard(gs, n, c):
    return tuple(g for i, g in enumerate(gs) if not (i == n and g == c))


def fill(shape, idx):
    out = []
    it = iter(idx)
    for s in shape:
        out.append(('i', next(it)) if s == '[]' else s)
    return tuple(out)


def lin_coeff(p, k):
    """coefficient of atom k if p is linear in k with a constant coefficient, 0 if absent, None otherwise"""
    c = Fraction(0)
    for m, v in p.t.items():
        for a, e in m:
            if a == k:
                if e != 1 or len(m) != 1:
                    return None
                c = v
            elif occurs(a, k):
                return None
    return c


def mk_sum(kap, N, f):
    if not occurs(f, kap):
        return f * N
    bv = ('bv', sum_depth(f))
    g = subst(f, {kap: Poly.atom(bv)})
    # pull out constant factors for a canonical form
    return Poly.atom(('sum', bv, N, g))


def exists(kap, N, c):
    """(some iteration k < N satisfies c(k), the first such iteration)"""
    bv = ('bv', sum_depth(c))
    g = subst(c, {kap: Poly.atom(bv)})
    return B(('exists', bv, N, g)), Poly.atom(('first', bv, N, g))


def sum_depth(f):
    d = 0
    for a in atomset(f):
        if type(a) is tuple and a[0] in ('sum', 'first', 'exists'):
            d = max(d, a[1][1] + 1)
    return d
