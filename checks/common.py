"""Shared runner: loads the extracted program, collects obligations, writes evidence, prints verdicts."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, VERIF + '/engine')
import prog as P_          # noqa: E402
from prog import AnalysisBroken  # noqa: E402
from terms import *        # noqa: E402,F403
from ai import *           # noqa: E402,F403


class TimeUp(BaseException):
    """raised by the watchdog in a part that does not come to an end"""


class Watchdog:
    """interrupts the innermost part of a check after its share of the time; what it decided so far stands"""
    TOTAL = 560

    def __init__(self):
        import threading
        self.tid = threading.get_ident()
        self.end = time.time() + self.TOTAL
        self.stack = [self.end]
        self.off = False
        self.lock = threading.Lock()
        threading.stack_size(1 << 20)
        t = threading.Thread(target=self.watch, daemon=True)
        t.start()

    def watch(self):
        import ctypes
        while True:
            time.sleep(0.5)
            with self.lock:
                if self.off:
                    return
                if self.stack and time.time() > min(self.stack):
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(TimeUp))
                    self.stack[-1] = time.time() + 5

    def push(self):
        now = time.time()
        with self.lock:
            left = max(min(self.stack) - now, 0) if self.stack else 0
            self.stack.append(now + max(left * .4, 2))

    def pop(self):
        with self.lock:
            self.stack.pop()
            self.stack[:1] = [self.end]

    def stop(self):
        with self.lock:
            self.off = True


class Check:
    def __init__(self, pid, tier='quick'):
        self.dog = None
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obs = []          # (key, where, ok, rule, detail)
        self.fns = set()
        self.notes = []
        self._p = None
        self.assumptions = []

    @property
    def p(self):
        if self._p is None:
            pk = os.environ.get('NLA_PROG_PICKLE')
            if pk and os.path.exists(pk):
                import pickle
                self._p = pickle.load(open(pk, 'rb'))
            else:
                self._p = P_.load()
        return self._p

    # ---- obligations
    def ob(self, key, where, ok, rule, detail=''):
        """ok: True discharged, False violated, None undecided"""
        self.obs.append((key, where, ok, rule, detail))
        return ok

    def rel(self, path):
        r = getattr(self.p, 'repo', '/repo')
        return path[len(r) + 1:] if path and path.startswith(r + '/') else path

    def at(self, f, line=None):
        return '%s:%s (%s)' % (self.rel(f['file']), line or f.get('l') or f.get('line'), f['n'])

    def evat(self, ev):
        fn = ev.stack[-1][0] if ev.stack else '?'
        return '%s:%s (%s)' % (self.rel(ev.file), ev.line, fn)

    # ---- interpretation helpers
    def interp(self, hooks=None, **kw):
        I = Interp(self.p, hooks, **kw)
        return I

    def run(self, I, fn, st=None, this=None, args=None):
        """interpret fn with symbolic receiver/arguments; returns (state, return value, argument values)"""
        st = st if st is not None else St()
        if this is None and fn.get('cls'):
            this = Ref(('this', ()), fn['cls'])
        vals = []
        for i, q in enumerate(fn['params']):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
                continue
            t = q['t']
            o = '@%d' % i
            if is_ref(t):
                vals.append(('lref', (o, ())))
                I.dyn_types.setdefault(o, strip_ref(t))
            elif I.scalar_t(t):
                vals.append(I.default(st, o, (), t))
            else:
                vals.append(Ref((o, ()), strip_cv(t)))
        r = I.inline(st, fn, vals, this, None)
        self.fns |= I.functions_seen
        return st, r, vals

    def part(self, key, f, *a):
        """run one part of a check; a part whose code cannot be interpreted is reported as undecided"""
        n = len(self.obs)
        self.p
        if self.dog is None:
            self.dog = Watchdog()
        self.dog.push()
        try:
            return f(self, *a)
        except TimeUp:
            self.ob(key, '-', None, 'the analysis comes to an end', 'out of time')
        except AnalysisBroken as ex:
            self.ob(key, '-', None, 'the analysis finds its anchors', str(ex))
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError, ArithmeticError) as ex:
            if os.environ.get('NLA_DEBUG'):
                traceback.print_exc()
            self.ob(key, '-', None, 'the analysis interprets the code', repr(ex)[:300])
        finally:
            self.dog.pop()

    # ---- end of run
    def renamed(self):
        """names this check refers to that existed on the base tree and no longer exist: the check then misreads the code"""
        import re
        try:
            base = json.load(open(VERIF + '/engine/names.json'))
        except (OSError, ValueError):
            return []
        used = set()
        for m in list(sys.modules.values()):
            f = getattr(m, '__file__', None) or ''
            if f.startswith(VERIF + '/checks/') and os.path.exists(f):
                used |= set(re.findall(r"'([A-Za-z_][A-Za-z0-9_:]*)'", open(f).read()))
        short = {u.split('::')[-1] for u in used}
        out = []
        for c, fs in base['fields'].items():
            r = self.p.records.get(c)
            if r is None:
                if c in used or c.split('::')[-1] in used:
                    out.append(c)
                continue
            now = {f['n'] for f in r['fields']}
            for b in self.p.bases(c) if hasattr(self.p, 'bases') else ():
                rb = self.p.records.get(b)
                now |= {f['n'] for f in rb['fields']} if rb else set()
            out += ['%s::%s' % (c, f) for f in fs if f not in now and f in used]
        now = {f['n'] for f in self.p.fns.values()}
        out += [n for n in base['fns'] if n not in now and n.split('::')[-1] in short]
        return out

    def finish(self):
        known = load_findings()
        if any(o[2] is False for o in self.obs):
            gone = self.renamed()
            if gone:
                self.notes.append('names no longer present: %s' % ', '.join(gone[:10]))
                self.obs = [(k, w, None if ok is False else ok, r, ('%s no longer exists; ' % gone[0] + d) if ok is False else d) for k, w, ok, r, d in self.obs]
        viol, kn, und, ok = [], [], [], 0
        for key, where, res, rule, detail in self.obs:
            if res is True:
                ok += 1
            elif res is None:
                und.append((key, where, rule, detail))
            else:
                f = next((k for k in known if k.get('status') == 'open' and k['property'] == self.pid and k['key'] == key), None)
                if f:
                    kn.append((key, f))
                else:
                    viol.append((key, where, rule, detail))
        wall = time.time() - self.t0
        samples = [dict(obligation=k, where=w, rule=r, verdict={True: 'holds', False: 'violated', None: 'undecided'}[o])
                   for k, w, o, r, d in self.obs[:8]]
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(explanation='Static analysis of the type-checked AST of /repo\'s current sources (clang plugin, nothing executed): '
                                            'abstract interpretation with value numbering; each obligation below was decided on this run.',
                                obligations=len(self.obs), discharged=ok, undecided=len(und), known_findings=len(kn),
                                functions_interpreted=len(self.fns),
                                functions=sorted({self.p.fns[u]['n'] for u in self.fns if u in self.p.fns})[:200],
                                translation_units=len(getattr(self.p, 'tus', []) or []),
                                functions_in_program=len(self.p.fns),
                                undecided_list=[dict(obligation=k, where=w, rule=r, detail=d[:400]) for k, w, r, d in und][:40],
                                samples=samples, notes=self.notes[:40]),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(viol))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
        for key, f in kn:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        print('%s: %d obligations, %d hold, %d undecided, %d known, %d violated; %d functions interpreted; %.1fs'
              % (self.pid, len(self.obs), ok, len(und), len(kn), len(viol), len(self.fns), wall))
        for k, w, r, d in und:
            print('  undecided: %s at %s: %s' % (k, w, d[:200]))
        if viol:
            os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
            rp = VERIF + '/evidence/replay/%s.txt' % self.pid
            with open(rp, 'w') as f:
                for k, w, r, d in viol:
                    f.write('obligation: %s\nwhere: %s\nrule: %s\nfound: %s\n\n' % (k, w, r, d))
            for k, w, r, d in viol:
                print('  %s: %s\n     rule: %s\n     found: %s' % (w, k, r, d[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if not self.obs or ok + len(kn) == 0:
            print('ANALYSIS-BROKEN: no obligation could be decided')
            return 3
        return 0


def generic_elem(I, st, obj, n, path=(), t='double', k=None):
    """value of element k (0 <= k < n) of an array, k symbolic"""
    k = k if k is not None else Poly.atom(('sym', 'k'))
    old = st.assume
    st.assume = st.assume + (neg(lt(k, True)), lt(k - n, True))
    try:
        return I.read(st, (obj, path + (('i', k),)), t)
    finally:
        st.assume = old


def load_findings():
    p = VERIF + '/known-findings.json'
    return json.load(open(p)) if os.path.exists(p) else []


def opaque_atoms(v, allowed=()):
    """atoms that make a term not fully interpreted"""
    bad = []
    for a in atomset(v):
        if isinstance(a, Opq):
            if a.k and a.k[0] in ('init',):
                continue
            bad.append(a)
            continue
        if a[0] == 'init' and has_tag(a):
            bad.append(a)
            continue
        if a[0] in ('lh', 'lo', 'u', 'rdq', 'ext', 'vcall', 'psum', 'icall', 'vaarg', 'rec', 'noret', 'inloop', 'broke', 'returned'):
            if a[0] in allowed:
                continue
            bad.append(a)
    return bad


def compare(a, b, allowed=()):
    """True equal, False provably different, None undecided"""
    try:
        if a == b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            if r_eq(a, b):
                return True
        if opaque_atoms(a, allowed) or opaque_atoms(b, allowed):
            return None
        return False
    except RecursionError:
        return None


def ends(ev):
    """does the event end the program"""
    return ev.name in ('fatal', 'throw') or ev.name.startswith('abort')


def settle(I, st, p):
    """polynomial with every indicator decided by the facts of the state replaced by its value"""
    if not isinstance(p, Poly):
        return p
    for _ in range(3):
        m = {}
        for a in p.atoms():
            if type(a) is tuple and a[0] in ('ind', 'b') and len(a) == 2 and isinstance(a[1], B):
                b = I.simp(st, a[1])
                if b != a[1]:
                    m[a] = ind(b)
        if not m:
            break
        p = subst(p, m)
    return p
