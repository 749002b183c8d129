"""Time stepping: the terms TimeControl computes for a symbolic state and step satisfy the laws of the time axis."""
from formulas import *

TC = 'nla3d::TimeControl'
FIELDS = ('currentTime', 'endTime', 'startTime', 'currentTimeDelta', 'currentEquilibriumStep', 'totalNumberOfEquilibriumSteps')
INT = ('currentEquilibriumStep', 'totalNumberOfEquilibriumSteps')


def meth(ck, name, np=0):
    fn = ck.p.method(TC, name, np)
    if fn is None:
        raise AnalysisBroken('%s::%s' % (TC, name))
    return fn


def field(I, st, f):
    return I.num(I.read(st, ('this', (f,)), 'unsigned short' if f in INT else 'double'))


def old(f):
    return Poly.atom(('init', ('this', (f,))))


def point(seed, arg, kind=None):
    """an evaluation point with start <= current <= end (kind 'done': current >= end)"""
    E = Eval(seed, {}, {}, wild=False)
    r = E.rng
    k = kind or r.choice(['first', 'mid', 'near', 'done', 'past', 'big', 'exact'])
    s = Fraction(r.randrange(-50, 50), 8) if r.random() < .5 else Fraction(0)
    L = Fraction(r.randrange(1, 4000), 16)
    e = s + L
    d = L * Fraction(r.randrange(1, 100), r.choice([100, 300, 1000, 10000]))
    c = {'first': s, 'mid': s + L * Fraction(r.randrange(1, 99), 100), 'near': e - d * Fraction(r.randrange(1, 250), 100),
         'done': e, 'past': e + d * Fraction(r.randrange(0, 99), 100), 'big': s, 'exact': e - d * r.choice([1, 2, 3])}[k]
    if k == 'big':
        d = L * r.randrange(1, 5)
    if c < s:
        c = s
    q = lambda x: E.mp.mpf(x.numerator) / x.denominator
    V = dict(currentTime=c, endTime=e, startTime=s, currentTimeDelta=Fraction(r.randrange(0, 100), 64),
             currentEquilibriumStep=Fraction(r.choice([0, 1, 1, 2, 3, 17])), totalNumberOfEquilibriumSteps=Fraction(r.randrange(0, 100)))
    for f, v in V.items():
        E.vars[old(f).single_atom()] = q(v)
    if arg is not None:
        E.vars[arg.single_atom()] = q(d)
    E.V = {f: q(v) for f, v in V.items()}
    E.d = q(d)
    return E


def law(ck, key, where, rule, terms, holds, arg=None, n=60):
    """holds(E, values of terms) -> None or a description of the failure, at points covering both outcomes of every condition"""
    ts = [t if isinstance(t, (Poly, B)) else P(t) for t in terms]
    pts = [point(s, arg) for s in range(n)]
    cs = conditions(ts)
    never = ()
    if cs:
        more, never = explore(cs, pts, lambda s: point(s + 1000, arg))
        pts = pts + more
    for E in pts:
        vals = [E.b(t) if isinstance(t, B) else E(t) for t in ts]
        if E.opaque:
            return ck.ob(key, where, None, rule, 'not interpreted: ' + ', '.join(show_any(x)[:60] for x in list(E.opaque)[:3]))
        w = holds(E, vals)
        if w:
            st = ', '.join('%s=%s' % (k, E.mp.nstr(v, 8)) for k, v in E.V.items())
            return ck.ob(key, where, False, rule, '%s [%s, step %s]' % (w, st, E.mp.nstr(E.d, 8)))
    for c in never:
        ck.notes.append('%s: only one outcome seen of %s' % (key, repr(c)[:150]))
    return ck.ob(key, where, True, rule)


def run_m(ck, name, np=0):
    fn = meth(ck, name, np)
    I = ck.interp()
    st, r, vals = ck.run(I, fn)
    return fn, I, st, r, vals


def truth(v):
    return v if isinstance(v, B) else None


def step(ck):
    fn, I, st, ret, vals = run_m(ck, 'nextStep', 1)
    w = ck.at(fn)
    d = vals[0]
    if not isinstance(d, Poly) or d.single_atom() is None:
        raise AnalysisBroken('nextStep argument')
    r = I.num(ret)
    new = field(I, st, 'currentTime')
    dl = field(I, st, 'currentTimeDelta')
    es = field(I, st, 'currentEquilibriumStep')
    T = [r, new, dl, es]
    eps = lambda E: E.mp.mpf(10) ** -30

    def runs(E, v):
        more = E.V['currentTime'] < E.V['endTime']
        if bool(v[0]) != more:
            return 'returns %s' % bool(v[0])
    law(ck, 'nextStep:continues', w, 'another step is started exactly as long as the current time is before the end time', T, runs, d)

    def mono(E, v):
        c, e = E.V['currentTime'], E.V['endTime']
        if c >= e:
            return None if abs(v[1] - c) < eps(E) else 'time moves to %s after the end' % E.mp.nstr(v[1], 10)
        if not v[1] > c:
            return 'time does not advance: %s' % E.mp.nstr(v[1], 10)
        if v[1] > e + eps(E):
            return 'time runs past the end: %s' % E.mp.nstr(v[1], 10)
    law(ck, 'nextStep:bounds', w, 'time advances and never passes the end time', T, mono, d)

    def exact(E, v):
        c, e = E.V['currentTime'], E.V['endTime']
        if c < e and c + E.d >= e and abs(v[1] - e) > eps(E):
            return 'lands on %s' % E.mp.nstr(v[1], 10)
    law(ck, 'nextStep:lands', w, 'a step that would reach or pass the end time lands on it exactly', T, exact, d)

    def size(E, v):
        c, e = E.V['currentTime'], E.V['endTime']
        if c < e:
            s = v[1] - c
            if s > E.d + eps(E):
                return 'step %s is larger than asked for' % E.mp.nstr(s, 10)
            if s < min(E.d, (e - c) / 2) - eps(E):
                return 'step %s is smaller than half the way to the end' % E.mp.nstr(s, 10)
            if abs(v[2] - s) > eps(E):
                return 'the recorded increment is %s' % E.mp.nstr(v[2], 10)
    law(ck, 'nextStep:size', w, 'the step is the requested one unless the remaining interval is divided, and is recorded as the time increment', T, size, d)

    def reset(E, v):
        if E.V['currentTime'] < E.V['endTime'] and v[3] != 0:
            return 'iteration counter is %s' % v[3]
    law(ck, 'nextStep:iterations', w, 'a new step starts at iteration zero', T, reset, d)

    # converged steps
    for cont, val in (('convergedTimeInstances', 'currentTime'), ('equilibriumSteps', 'currentEquilibriumStep')):
        sz = st.get_raw('this', (cont, '$size'))
        o = Poly.atom(('init', ('this', (cont, '$size'))))
        if sz is None:
            sz = o

        def cnt(E, v):
            w_ = 1 if E.V['currentEquilibriumStep'] > 0 else 0
            if v[0] != w_:
                return '%s entries are appended' % v[0]
        law(ck, 'nextStep:' + cont, w, 'a step that was iterated is recorded once', [I.num(sz) - o], cnt, d)
        st2 = st
        got = I.num(I.read(st2, ('this', (cont, ('i', o))), 'double'))

        def ent(E, v):
            if E.V['currentEquilibriumStep'] > 0 and abs(v[0] - E.V[val]) > eps(E):
                return 'recorded value is %s' % E.mp.nstr(v[0], 10)
        law(ck, 'nextStep:%s:value' % cont, w, 'what is recorded is the finished step\'s %s' % val, [got], ent, d)
    for f in ('endTime', 'startTime', 'totalNumberOfEquilibriumSteps'):
        ck.ob('nextStep:keeps-' + f, w, compare(field(I, st, f), old(f)), 'a new step leaves %s alone' % f, show(field(I, st, f))[:100])


def iteration(ck):
    fn, I, st, ret, vals = run_m(ck, 'nextEquilibriumStep')
    for f in FIELDS:
        d = 1 if f in INT else 0

        def h(E, v):
            if abs(v[0] - E.V[f] - d) > E.mp.mpf(10) ** -30:
                return '%s becomes %s' % (f, E.mp.nstr(v[0], 10))
        law(ck, 'nextEquilibriumStep:' + f, ck.at(fn), 'an iteration counts one in the step and in total and does not move time', [field(I, st, f)], h)


def getters(ck):
    G = dict(getCurrentTime=lambda V: V['currentTime'], getEndTime=lambda V: V['endTime'], getStartTime=lambda V: V['startTime'],
             getCurrentNormalizedTime=lambda V: (V['currentTime'] - V['startTime']) / (V['endTime'] - V['startTime']),
             getCurrentTimeDelta=lambda V: V['currentTimeDelta'] if V['currentEquilibriumStep'] == 1 else 0,
             getCurrentNormalizedTimeDelta=lambda V: V['currentTimeDelta'] / (V['endTime'] - V['startTime']) if V['currentEquilibriumStep'] == 1 else 0,
             getCurrentEquilibriumStep=lambda V: V['currentEquilibriumStep'],
             getTotalNumberOfEquilibriumSteps=lambda V: V['totalNumberOfEquilibriumSteps'])
    for g, f in G.items():
        def one(ck, g, f):
            fn, I, st, ret, _ = run_m(ck, g)

            def h(E, v):
                if not E.close(v[0], E.mp.mpf(f(E.V)), 30):
                    return 'returns %s instead of %s' % (E.mp.nstr(v[0], 10), E.mp.nstr(E.mp.mpf(f(E.V)), 10))
            law(ck, g, ck.at(fn), {'getCurrentNormalizedTime': 'normalized time is 0 at the start time, 1 at the end time and linear between'}
                .get(g, 'the accessor returns what it names (an increment is only reported in the first iteration)'), [I.num(ret)], h)
        ck.part(g, one, g, f)
    n = Poly.atom(('init', ('this', ('convergedTimeInstances', '$size'))))
    for g, k in (('getCurrentStep', 1), ('getNumberOfConvergedSteps', 0)):
        def two(ck, g, k):
            fn, I, st, ret, _ = run_m(ck, g)
            ck.ob(g, ck.at(fn), same(I.num(ret), n + k), 'the step number counts the recorded steps', show(P(I.num(ret)))[:100])
        ck.part(g, two, g, k)


def same(a, b):
    """equality decided by evaluation where normal forms differ"""
    r = compare(P(a), P(b))
    if r is not False:
        return r
    for s in range(8):
        E = Eval(s, {}, {}, wild=False)
        x, y = E(P(a)), E(P(b))
        if E.opaque:
            return None
        if not E.close(x, y, 30):
            return False
    return True


def setters(ck):
    for m, want in (('setEndTime', dict(endTime='arg')), ('setStartTime', dict(startTime='arg', currentTime='arg'))):
        def one(ck, m, want):
            fn, I, st, ret, vals = run_m(ck, m, 1)
            for f in ('currentTime', 'endTime', 'startTime'):
                w = vals[0] if f in want else old(f)

                def h(E, v):
                    if not E.close(v[0], E(P(w)), 30):
                        return '%s becomes %s' % (f, E.mp.nstr(v[0], 10))
                law(ck, '%s:%s' % (m, f), ck.at(fn), 'setting the start time also places the current time there; the end time only moves the end',
                    [field(I, st, f)], h, vals[0])
        ck.part(m, one, m, want)


def init(ck):
    I = ck.interp()
    st = St()
    I.default_init(st, ('tc', ()), TC)
    v = {f: I.num(I.read(st, ('tc', (f,)), 'unsigned short' if f in INT else 'double')) for f in FIELDS}
    w = 'src/lib/FESolver.h (%s)' % TC
    ck.ob('initial:current', w, compare(v['currentTime'], v['startTime']), 'a new time control stands at its start time', '%s / %s' % (show(v['currentTime']), show(v['startTime'])))
    for f in INT:
        ck.ob('initial:' + f, w, compare(v[f], ZERO_), 'a new time control has made no iteration', show(v[f]))
    d = v['endTime'] - v['startTime']
    c = Eval(1, {}, {})(d) if d.is_const() else None
    ck.ob('initial:interval', w, None if c is None else c > 0, 'the end time lies after the start time', show(d))


def run(ck):
    ck.part('nextStep', step)
    ck.part('nextEquilibriumStep', iteration)
    ck.part('getters', getters)
    ck.part('setters', setters)
    ck.part('initial', init)
    ck.assumptions = ['time arithmetic is exact (floating point rounding of sums of time steps is not modelled)', 'the requested step is positive']
