"""Dense vectors: every operation is interpreted on scripted histories with symbolic entries and compared with a reference model of
buffers, owners and views (typestate of ownership, value-flow of entries)."""
import random
from world import *

DV = 'nla3d::math::dVec'


def sy(*k):
    return Poly.atom(('sym',) + k)


class Hist:
    """a history of operations on named vectors, next to a reference model: name -> (buffer, start, length, owner) or None"""

    def __init__(self, ck):
        self.ck, self.W = ck, World(ck)
        self.W.I.run_dtors = True
        self.loc, self.ref, self.buf = {}, {}, {}
        self.real = {}          # reference buffer -> heap object of the implementation
        self.freed = set()      # reference buffers whose owner has gone
        self.nb = self.nv = 0
        self.log, self.bad, self.und = [], [], []
        self.dead = set()       # heap objects already released
        self.line = None

    # ---- reference model
    def fresh(self, vals):
        self.nb += 1
        self.buf[self.nb] = list(vals)
        return (self.nb, 0, len(vals), True)

    def vals(self, n):
        r = self.ref[n]
        return None if r is None else self.buf[r[0]][r[1]:r[1] + r[2]]

    def release(self, n):
        r = self.ref[n]
        if r and r[3]:
            self.freed.add(r[0])
        self.ref[n] = None

    def valid(self, n):
        r = self.ref[n]
        return r is None or r[0] not in self.freed

    def users(self, b):
        return [n for n, r in self.ref.items() if r and r[0] == b]

    # ---- operations
    def site(self, name, *a):
        fn = free(self.ck, 'verif_witness::' + name, len(a))
        return self.W.call(fn, [c(x) for x in a])

    def p(self, n):
        return Ptr(self.loc[n], DV + ' *')

    def lref(self, n):
        return ('lref', self.loc[n])

    def m(self, n, name, *a):
        fn = next((f for f in self.ck.p.fns.values() if f['n'] == DV + '::' + name and len(f['params']) == len(a) and f.get('body')), None)
        if fn is None:
            raise AnalysisBroken('dVec::' + name)
        return self.W.call(fn, [c(x) for x in a], Ref(self.loc[n], DV))

    def op(self, *o):
        self.log.append(' '.join(str(x) for x in o))
        k, n = o[0], o[1]
        if k == 'new':
            v = sy(n, 'v')
            self.loc[n] = self.site('vector', o[2], v).loc
            self.ref[n] = self.fresh([v] * o[2])
        elif k == 'empty':
            self.loc[n] = self.site('emptyVector').loc
            self.ref[n] = None
        elif k == 'view':
            self.loc[n] = self.site('view', self.p(o[2]), o[3], o[4]).loc
            r = self.ref[o[2]]
            self.ref[n] = (r[0], r[1] + o[3], o[4], False)
        elif k == 'copy':
            self.loc[n] = self.site('copyVector', self.p(o[2])).loc
            v = self.vals(o[2])
            self.ref[n] = None if v is None else self.fresh(v)
        elif k == 'move':
            self.loc[n] = self.site('moveVector', self.p(o[2])).loc
            self.ref[n], self.ref[o[2]] = self.ref[o[2]], None
        elif k == 'assign':
            self.site('assignVector', self.p(n), self.p(o[2]))
            if n != o[2]:
                v = self.vals(o[2])
                if v is None:
                    self.release(n)
                else:
                    r = self.ref[n]
                    if (r[2] if r else 0) != len(v):
                        self.release(n)
                        self.ref[n] = self.fresh(v)
                    else:
                        self.put(n, v)
        elif k == 'reinit':
            v = sy(n, 'r', len(self.log))
            self.m(n, 'reinit', o[2], v)
            self.release(n)
            self.ref[n] = self.fresh([v] * o[2])
        elif k == 'reinit-view':
            self.m(n, 'reinit', self.lref(o[2]), o[3], o[4])
            r = self.ref[o[2]]
            self.release(n)
            self.ref[n] = (r[0], r[1] + o[3], o[4], False)
        elif k == 'clear':
            self.m(n, 'clear')
            self.release(n)
        elif k == 'zero':
            self.m(n, 'zero')
            self.put(n, [ZERO_] * self.ref[n][2])
        elif k == 'fill':
            v = sy(n, 'f', len(self.log))
            self.m(n, 'fill', v)
            self.put(n, [v] * self.ref[n][2])
        elif k == 'set':
            v = sy(n, 's', len(self.log))
            self.site('setEntry', self.p(n), o[2], v)
            self.put(n, [v if i == o[2] else x for i, x in enumerate(self.vals(n))])
        elif k == 'mark':
            for i in range(self.ref[n][2]):
                v = sy(n, i, len(self.log))
                self.site('setEntry', self.p(n), i, v)
                self.put(n, [v if j == i else x for j, x in enumerate(self.vals(n))])
        elif k in ('+=', '-='):
            self.m(n, 'operator' + k, self.lref(o[2]))
            a = self.vals(n)
            for i in range(len(a)):                 # entry by entry, as the views may overlap
                x, y = self.vals(n)[i], self.vals(o[2])[i]
                w = self.vals(n)
                w[i] = x + y if k == '+=' else x - y
                self.put(n, w)
        elif k == 'del':
            self.site('deleteVector', self.p(n))
            self.release(n)
            del self.ref[n], self.loc[n]
        self.check()

    def put(self, n, v):
        r = self.ref[n]
        self.buf[r[0]][r[1]:r[1] + r[2]] = v

    # ---- comparison
    def note(self, msg, und=False):
        if not self.bad:
            k = self.log[-1].split()[0]
            n = {'new': 'dVec', 'empty': 'dVec', 'view': 'reinit', 'copy': 'dVec', 'move': 'dVec', 'assign': 'operator=', 'reinit-view': 'reinit', 'set': 'operator[]',
                 'mark': 'operator[]', '+=': 'operator+=', '-=': 'operator-=', 'del': '~dVec'}.get(k, k)
            f = [f for f in self.ck.p.fns.values() if f['n'] == DV + '::' + n and f.get('body')]
            if k in ('new', 'empty', 'copy', 'move'):
                np, mark = {'new': (2, ''), 'empty': (0, ''), 'copy': (1, 'const'), 'move': (1, '&&')}[k]
                f = [x for x in f if len(x['params']) == np and (not np or mark in x['params'][0]['t'])] or f
            if k in ('view', 'reinit-view', 'reinit'):
                f = [x for x in f if len(x['params']) == (2 if k == 'reinit' else 3)] or f
            self.line = self.ck.at(f[0]) if f else None
        (self.und if und else self.bad).append('after [%s]: %s' % ('; '.join(self.log[-4:]), msg))

    def check(self):
        I = self.W.I
        for e in [e for e in I.events if e.name in ('delete[]', 'delete', 'new', 'fatal')]:
            if e.name == 'new':
                continue
            if e.guards or e.loops:
                self.note('conditional %s' % e.name, True)
                continue
            if ends(e):
                self.note('the operation ends the program')
                continue
            v = e.args[0]
            if not isinstance(v, Ptr):
                self.note('release of %s' % show_any(v)[:60], True)
                continue
            if v.loc is None:
                continue
            o = v.loc[0]
            if o in {l[0] for l in self.loc.values()} or I.dyn_types.get(o) == DV:
                continue                    # the vector object itself
            if e.name == 'delete':
                self.note('a buffer made by new[] is released by delete')
            ix = split_path(v.loc[1])[1]
            if ix and not all(isinstance(x, Poly) and x.is_zero() for x in ix):
                self.note('released from the middle of the buffer')
            if o in self.dead:
                self.note('the same buffer is released twice')
            self.dead.add(o)
        I.events.clear()
        for b, o in list(self.real.items()):
            us = self.users(b)
            if b not in self.freed and len(us) == 1 and self.ref[us[0]][3] and o in self.dead:
                q = self.m(us[0], 'ptr')            # an owner without views may move to another buffer
                if isinstance(q, Ptr) and q.loc is not None and q.loc[0] not in self.dead and q.loc[0] not in self.real.values():
                    self.real[b] = q.loc[0]
        for b, o in self.real.items():
            if o in self.dead and b not in self.freed:
                us = self.users(b)
                if us:
                    self.note('the buffer of %s is released while its owner lives' % ', '.join(us))
                else:
                    self.note('buffer released early')
            if b in self.freed and o not in self.dead:
                self.note('the buffer is not released although its owner has gone')
        for n in list(self.ref):
            r = self.ref[n]
            sz = I.num(self.m(n, 'size'))
            ini = self.m(n, 'isInit')
            if self.valid(n):
                self.eq(n + '.size()', sz, Poly.const(r[2] if r else 0))
                w = TRUE if r else FALSE
                if isinstance(ini, B) and ini in (TRUE, FALSE) or isinstance(ini, Poly) and ini.is_const():
                    if (ini if isinstance(ini, B) else (TRUE if not ini.is_zero() else FALSE)) != w:
                        self.note('%s.isInit() is %s' % (n, show_any(ini)))
                else:
                    self.note('%s.isInit() is %s' % (n, show_any(ini)[:80]), True)
            if r is None or not self.valid(n) or not (isinstance(sz, Poly) and sz.is_const() and int(sz.cval()) == r[2]):
                continue
            if r[2]:
                q = self.m(n, 'ptr')
                if not isinstance(q, Ptr) or q.loc is None:
                    self.note('%s.ptr() is %s' % (n, show_any(q)), not isinstance(q, Ptr))
                    continue
                o = q.loc[0]
                if self.real.setdefault(r[0], o) != o:
                    self.note('%s uses another buffer than the vectors it shares with' % n)
                if any(b != r[0] and x == o and self.users(b) for b, x in self.real.items()):
                    self.note('%s shares its buffer with an unrelated vector' % n)
                if o in self.dead:
                    self.note('%s uses a released buffer' % n)
            for i, w in enumerate(self.vals(n)):
                for g in ('getEntry', 'getEntryConst'):
                    self.eq('%s[%d]' % (n, i), I.num(self.site(g, self.p(n), i)), w)
        I.events.clear()

    def eq(self, lab, g, w):
        r = compare(P(g), P(w))
        if r is False:
            self.note('%s is %s, should be %s' % (lab, show(P(g))[:80], show(P(w))[:80]))
        elif r is None:
            self.note('%s is %s' % (lab, show(P(g))[:80]), True)

    def end(self, key, rule):
        for n in sorted(self.ref, key=lambda n: self.ref[n] is not None and self.ref[n][3]):
            self.op('del', n)
        at = self.line or self.ck.at(free(self.ck, DV + '::reinit', 2))
        self.ck.ob(key, at, False if self.bad else None if self.und else True, rule + ' (%d operations)' % len(self.log), '; '.join((self.bad or self.und)[:3]))


SCRIPTS = {
    'own': [('new', 'a', 3), ('mark', 'a'), ('set', 'a', 1), ('fill', 'a'), ('zero', 'a')],
    'copy': [('new', 'a', 3), ('mark', 'a'), ('copy', 'b', 'a'), ('set', 'a', 0), ('set', 'b', 2), ('del', 'a'), ('set', 'b', 1)],
    'copy of empty': [('empty', 'a'), ('copy', 'b', 'a'), ('reinit', 'b', 2), ('mark', 'b')],
    'copy of view': [('new', 'a', 5), ('mark', 'a'), ('view', 'v', 'a', 1, 3), ('copy', 'b', 'v'), ('set', 'a', 2), ('set', 'b', 1), ('del', 'v'), ('del', 'b')],
    'view': [('new', 'a', 5), ('mark', 'a'), ('view', 'v', 'a', 1, 3), ('set', 'v', 0), ('set', 'a', 3), ('fill', 'v'), ('zero', 'v'), ('del', 'v'), ('set', 'a', 1)],
    'view of view': [('new', 'a', 6), ('mark', 'a'), ('view', 'v', 'a', 1, 4), ('view', 'w', 'v', 2, 2), ('set', 'w', 1), ('del', 'v'), ('set', 'w', 0), ('zero', 'w')],
    'full view': [('new', 'a', 3), ('mark', 'a'), ('view', 'v', 'a', 0, 3), ('mark', 'v'), ('clear', 'v'), ('mark', 'a')],
    'move owner': [('new', 'a', 3), ('mark', 'a'), ('move', 'b', 'a'), ('set', 'b', 1), ('reinit', 'a', 2), ('mark', 'a')],
    'move view': [('new', 'a', 4), ('mark', 'a'), ('view', 'v', 'a', 1, 2), ('move', 'b', 'v'), ('set', 'b', 1), ('del', 'v'), ('del', 'b'), ('mark', 'a')],
    'move empty': [('empty', 'a'), ('move', 'b', 'a'), ('del', 'a')],
    'assign same size': [('new', 'a', 3), ('new', 'b', 3), ('mark', 'a'), ('assign', 'b', 'a'), ('set', 'a', 0), ('set', 'b', 1)],
    'assign larger': [('new', 'a', 4), ('new', 'b', 2), ('mark', 'a'), ('assign', 'b', 'a'), ('set', 'a', 0), ('set', 'b', 3)],
    'assign smaller': [('new', 'a', 2), ('new', 'b', 4), ('mark', 'a'), ('assign', 'b', 'a'), ('set', 'b', 1)],
    'assign to empty': [('new', 'a', 3), ('empty', 'b'), ('mark', 'a'), ('assign', 'b', 'a'), ('set', 'b', 1), ('del', 'a')],
    'assign empty': [('new', 'a', 3), ('empty', 'b'), ('assign', 'a', 'b'), ('assign', 'a', 'b')],
    'assign empty to view': [('new', 'a', 4), ('mark', 'a'), ('view', 'v', 'a', 1, 2), ('empty', 'b'), ('assign', 'v', 'b'), ('mark', 'a')],
    'self assign': [('new', 'a', 3), ('mark', 'a'), ('assign', 'a', 'a'), ('set', 'a', 1)],
    'self assign view': [('new', 'a', 3), ('mark', 'a'), ('view', 'v', 'a', 0, 2), ('assign', 'v', 'v'), ('set', 'a', 1)],
    'assign into view': [('new', 'a', 5), ('new', 'b', 2), ('mark', 'a'), ('mark', 'b'), ('view', 'v', 'a', 2, 2), ('assign', 'v', 'b'), ('set', 'v', 0), ('set', 'b', 1)],
    'assign view resized': [('new', 'a', 5), ('new', 'b', 3), ('mark', 'a'), ('mark', 'b'), ('view', 'v', 'a', 2, 2), ('assign', 'v', 'b'), ('mark', 'a'), ('set', 'v', 0)],
    'assign from view': [('new', 'a', 5), ('new', 'b', 2), ('mark', 'a'), ('view', 'v', 'a', 2, 2), ('assign', 'b', 'v'), ('set', 'v', 0), ('set', 'b', 1)],
    'reinit owner': [('new', 'a', 2), ('reinit', 'a', 4), ('mark', 'a'), ('reinit', 'a', 4), ('reinit', 'a', 1)],
    'reinit view': [('new', 'a', 4), ('mark', 'a'), ('view', 'v', 'a', 1, 2), ('reinit', 'v', 2), ('mark', 'v'), ('del', 'v'), ('mark', 'a')],
    'owner becomes view': [('new', 'a', 4), ('new', 'b', 3), ('mark', 'a'), ('reinit-view', 'b', 'a', 1, 2), ('set', 'b', 0), ('del', 'b'), ('mark', 'a')],
    'view moves on': [('new', 'a', 4), ('new', 'b', 3), ('mark', 'a'), ('mark', 'b'), ('view', 'v', 'a', 1, 2), ('reinit-view', 'v', 'b', 0, 3), ('mark', 'v'), ('mark', 'a'), ('reinit-view', 'v', 'a', 3, 1)],
    'clear': [('new', 'a', 3), ('clear', 'a'), ('clear', 'a'), ('reinit', 'a', 2), ('mark', 'a'), ('clear', 'a')],
    'clear view': [('new', 'a', 3), ('mark', 'a'), ('view', 'v', 'a', 1, 2), ('clear', 'v'), ('mark', 'a'), ('reinit-view', 'v', 'a', 0, 1)],
    'accumulate': [('new', 'a', 4), ('new', 'b', 4), ('mark', 'a'), ('mark', 'b'), ('+=', 'a', 'b'), ('-=', 'b', 'a'), ('+=', 'a', 'a'), ('-=', 'b', 'b')],
    'accumulate view': [('new', 'a', 5), ('new', 'b', 2), ('mark', 'a'), ('mark', 'b'), ('view', 'v', 'a', 1, 2), ('+=', 'v', 'b'), ('-=', 'b', 'v'), ('view', 'w', 'a', 3, 2), ('-=', 'v', 'w')],
    'segments': [('new', 'a', 6), ('view', 'c', 'a', 0, 2), ('view', 's', 'a', 2, 3), ('view', 'l', 'a', 5, 1), ('mark', 'c'), ('mark', 's'), ('mark', 'l'), ('zero', 's'), ('del', 'a')],
}


def scripted(ck):
    for k, s in SCRIPTS.items():
        def one(ck, k=k, s=s):
            h = Hist(ck)
            for o in s:
                h.op(*o)
            h.end('history:' + k.replace(' ', '-'), 'every buffer has one owner that releases it once, views never release, all entries and sizes follow the reference model')
        ck.part('history:' + k.replace(' ', '-'), one)


def generated(ck, seed, length):
    """a generated history over up to five vectors; operations on views of released buffers are not generated (they are misuse)"""
    r = random.Random(seed)
    h = Hist(ck)
    h.op('new', 'n0', r.randrange(1, 5))
    k = 1
    for _ in range(length):
        live = [n for n in h.ref if h.valid(n)]
        full = [n for n in live if h.ref[n] and h.ref[n][2]]
        w = r.choice(['new', 'empty', 'view', 'view', 'copy', 'move', 'assign', 'assign', 'assign', 'reinit', 'reinit-view', 'clear', 'zero', 'fill', 'set', 'mark', '+=', '-=', 'del'])
        if w in ('new', 'empty', 'view', 'copy', 'move') and len(h.ref) >= 5:
            w = 'del'
        n = 'n%d' % k
        pair = [(a, b) for a in full for b in full if a != b and h.ref[a][2] == h.ref[b][2] and not overlap(h, a, b)]
        if w == 'new':
            h.op('new', n, r.randrange(1, 5))
        elif w == 'empty':
            h.op('empty', n)
        elif w == 'view' and full:
            a = r.choice(full)
            s = r.randrange(h.ref[a][2])
            h.op('view', n, a, s, r.randrange(1, h.ref[a][2] - s + 1))
        elif w in ('copy', 'move') and live:
            h.op(w, n, r.choice(live))
        elif w == 'assign' and live:
            a, b = r.choice(live), r.choice(live)
            if a != b and h.ref[a] and h.ref[b] and (overlap(h, a, b) or h.ref[a][3] and h.ref[b][0] == h.ref[a][0]):
                continue
            h.op('assign', a, b)
        elif w == 'reinit' and h.ref:
            h.op('reinit', r.choice(sorted(h.ref)), r.randrange(1, 5))
        elif w == 'reinit-view' and full:
            a, b = r.choice(full), r.choice(sorted(h.ref))
            if a == b or h.ref[b] and h.ref[b][3] and h.ref[b][0] == h.ref[a][0]:
                continue
            s = r.randrange(h.ref[a][2])
            h.op('reinit-view', b, a, s, r.randrange(1, h.ref[a][2] - s + 1))
        elif w in ('clear', 'del') and h.ref:
            h.op(w, r.choice(sorted(h.ref)))
        elif w in ('zero', 'fill', 'mark') and full:
            h.op(w, r.choice(full))
        elif w == 'set' and full:
            a = r.choice(full)
            h.op('set', a, r.randrange(h.ref[a][2]))
        elif w in ('+=', '-=') and pair:
            h.op(w, *r.choice(pair))
        else:
            continue
        k += 1
        if h.bad:
            break
    h.end('generated:%d' % seed, 'every buffer has one owner that releases it once, views never release, all entries and sizes follow the reference model')


def overlap(h, a, b):
    x, y = h.ref[a], h.ref[b]
    return x[0] == y[0] and x[1] < y[1] + y[2] and y[1] < x[1] + x[2]


OPS = {
    'sumVector': ('a + b', 2, lambda a, b, s: a + b),
    'differenceVector': ('a - b', 2, lambda a, b, s: a - b),
    'negateVector': ('-a', 1, lambda a, b, s: -a),
    'scaleVector': ('a * s', 's', lambda a, b, s: a * s),
    'scaleLeftVector': ('s * a', 's', lambda a, b, s: a * s),
    'divideVector': ('a / s', 's', lambda a, b, s: a / s),
}


def arithmetic(ck, tier):
    for name, (txt, kind, f) in OPS.items():
        for n in range(1, 14 if tier != 'quick' else 10):
            def one(ck, n=n):
                h = Hist(ck)
                for v in 'ab':
                    h.op('new', v, n)
                    h.op('mark', v)
                h.op('new', 'r', n)
                s = sy('s')
                a = [h.p('a')] + ([h.p('b')] if kind == 2 else [s] if kind == 's' else []) + [h.p('r')]
                h.site(name, *a)
                h.log.append(txt)
                h.put('r', [f(x, y, s) for x, y in zip(h.vals('a'), h.vals('b'))])
                h.check()
                fn = free(ck, 'verif_witness::' + name, len(a))
                ck.ob('%s:%d' % (name, n), h.line or 'src/lib/math/Vec.cpp (operator in %s)' % txt, False if h.bad else None if h.und else True,
                      '%s acts on every entry and leaves the operands unchanged' % txt, '; '.join((h.bad or h.und)[:3]))
            ck.part('%s:%d' % (name, n), one)


def run(ck):
    ck.assumptions += ['lengths 0..6 in histories, 1..9 in arithmetic; entries are symbolic', 'a view is not used after its owner released the buffer']
    scripted(ck)
    n, L = (60, 14) if ck.tier == 'quick' else (400, 25)
    for s in range(n):
        ck.part('generated:%d' % s, lambda ck, s=s: generated(ck, s, L))
    arithmetic(ck, ck.tier)
