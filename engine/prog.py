"""Loads the extracted program (all translation units, merged)."""
import json, os, subprocess, sys, glob, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from ai import strip_ref, strip_cv, is_ptr, arr, is_string, INTS, FLOATS

ENG = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENG)
REPO = os.environ.get('NLA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnalysisBroken(Exception):
    pass


def plugin():
    """compile the extractor when missing or stale"""
    src = os.path.join(ENG, 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, 'extract-%s.so' % h)
    if not os.path.exists(so):
        tmp = so + '.%d.tmp' % os.getpid()
        r = subprocess.run(['clang++', '-std=c++17', '-O0', '-fno-rtti', '-fPIC', '-shared', '-I/usr/lib/llvm-18/include',
                            '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS',
                            '-w', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
        os.replace(tmp, so)
    return so


FLAGS = ['-std=gnu++11', '-fsyntax-only', '-w', '-DELPP_FEATURE_PERFORMANCE_TRACKING', '-I/usr/include/eigen3', '-I/usr/include/mkl']


def extract_tu(so, src, out, repo, mkl=True, extra=()):
    cmd = ['clang++'] + FLAGS + (['-DNLA3D_USE_MKL'] if mkl else []) + ['-I' + repo + '/src', '-I' + repo + '/src/lib'] + list(extra) + [
        '-fplugin=' + so, '-fplugin-arg-nlaextract-root=' + repo + '/src', '-fplugin-arg-nlaextract-root=' + VERIF + '/witness',
        '-fplugin-arg-nlaextract-out=' + out, src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisBroken('cannot analyse %s: %s' % (src, r.stderr[-1500:]))
    return json.load(open(out))


class Program:
    def __init__(self):
        self.fns, self.records, self.enums, self.globals = {}, {}, {}, {}
        self.by_name = {}
        self.tus = []
        self.broken = []
        self.elem_cache = {}

    def add(self, d, tu):
        self.tus.append(tu)
        for f in d['functions']:
            if f['id'] not in self.fns:
                self.fns[f['id']] = f
                self.by_name.setdefault(f['n'], []).append(f)
        for r in d['records']:
            self.records.setdefault(r['id'], r)
        for e in d['enums']:
            self.enums.setdefault(e['n'], e)
        for g in d['globals']:
            old = self.globals.get(g['u'])
            if old is None or (old.get('init') is None and g.get('init') is not None):
                self.globals[g['u']] = g

    # ---- types
    def is_class(self, t):
        t = strip_ref(t)
        if is_ptr(t) or arr(t):
            return False
        if t in INTS or t in FLOATS or t in ('bool', 'void', 'std::nullptr_t', 'nullptr_t'):
            return False
        if t in self.records:
            return True
        if t in self.enum_types():
            return False
        if t.startswith('el::Level') or t.startswith('el::base::DispatchAction') or t.startswith('std::_Ios') or t == 'std::ios_base::openmode':
            return False
        if t.startswith('__gnu_cxx::__normal_iterator') or t.startswith(('std::_Rb_tree', 'std::_List_', 'std::_Bit_')):
            return False
        return True

    def enum_types(self):
        if not hasattr(self, '_et'):
            self._et = {e['t'] for e in self.enums.values()}
        return self._et

    def find_record(self, t):
        return self.records.get(strip_ref(t))

    def field(self, rec, name):
        for f in rec['fields']:
            if f['n'] == name:
                return f
        for b in rec['bases']:
            r = self.records.get(b)
            f = r and self.field(r, name)
            if f:
                return f
        return None

    def all_fields(self, t):
        rec = self.find_record(t)
        if not rec:
            return []
        out = []
        for b in rec['bases']:
            out += self.all_fields(b)
        return out + rec['fields']

    def elem_type(self, t):
        t = strip_ref(t)
        if t in self.elem_cache:
            return self.elem_cache[t]
        r = None
        for p in ('std::vector<', 'std::list<', 'std::set<', 'std::initializer_list<', 'std::deque<', 'std::stack<', 'std::array<'):
            if t.startswith(p):
                r = template_args(t)[0]
        if t.startswith('std::map<'):
            a = template_args(t)
            r = 'std::pair<const %s, %s>' % (a[0], a[1])
        self.elem_cache[t] = r
        return r

    # ---- hierarchy
    def bases(self, t):
        r = self.records.get(t)
        if not r:
            return []
        out = []
        for b in r['bases']:
            out.append(b)
            out += self.bases(b)
        return out

    def derived(self, t):
        return [r['id'] for r in self.records.values() if t in self.bases(r['id'])]

    def method(self, t, name, nparams=None):
        """definition of a method by name, searching t then its bases"""
        for c in [t] + self.bases(t):
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['n'] == name and m['id'] in self.fns:
                    f = self.fns[m['id']]
                    if nparams is None or len(f['params']) == nparams:
                        return f
        return None

    def overrides(self, mid, fid, seen=None):
        """does method mid override fid (transitively)"""
        if mid == fid:
            return True
        m = self.method_info().get(mid)
        return bool(m) and any(self.overrides(o, fid) for o in m['over'])

    def method_info(self):
        if not hasattr(self, '_mi'):
            self._mi = {m['id']: m for r in self.records.values() for m in r['methods']}
        return self._mi

    def resolve_virtual(self, dt, fid):
        for c in [dt] + self.bases(dt):
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if self.overrides(m['id'], fid):
                    return self.fns.get(m['id'])
        return None

    def fn(self, name, nparams=None, cls=None, pred=None):
        fs = [f for f in self.by_name.get(name, []) if (nparams is None or len(f['params']) == nparams) and (cls is None or f.get('cls') == cls) and (pred is None or pred(f))]
        if len(fs) != 1:
            raise AnalysisBroken('anchor %s: %d definitions' % (name, len(fs)))
        return fs[0]


def template_args(t):
    i = t.index('<')
    depth = 0
    out, cur = [], ''
    for ch in t[i + 1:]:
        if ch == '<' or ch == '(':
            depth += 1
        if ch in '>)':
            if depth == 0 and ch == '>':
                break
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def load(repo=None, apps=True):
    repo = os.path.realpath(repo or REPO)
    so = plugin()
    srcs = sorted(glob.glob(repo + '/src/lib/*.cpp') + glob.glob(repo + '/src/lib/*/*.cpp'))
    if apps:
        srcs += sorted(glob.glob(repo + '/src/*.cpp'))
    wit = sorted(glob.glob(VERIF + '/witness/*.cpp'))
    if len(srcs) < 20:
        raise AnalysisBroken('only %d sources found below %s/src' % (len(srcs), repo))
    tmp = tempfile.mkdtemp(prefix='nla-extract-')
    prog = Program()
    try:
        with ThreadPoolExecutor(8) as ex:
            jobs = []
            for i, s in enumerate(srcs + wit):
                jobs.append((s, ex.submit(extract_tu, so, s, '%s/%d.json' % (tmp, i), repo)))
            for s, j in jobs:
                try:
                    prog.add(j.result(), s)
                except AnalysisBroken:
                    if s not in wit:
                        raise
                    prog.broken.append(s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog.repo = repo
    return prog
