"""Models of the library functions the project calls (standard library, easylogging++, libc)."""
import re
from prog import template_args
from terms import *
from ai import *

MATH1 = {'sqrt', 'fabs', 'abs', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'ceil', 'floor', 'isnan', 'isinf', 'cbrt'}


def app(name, *a):
    return Poly.atom(('app', name) + a)


def base_name(n):
    return n.split('::')[-1]


def size_loc(l):
    return (l[0], l[1] + ('$size',))


def elem_loc(l, i):
    return (l[0], l[1] + (('i', i),))


def ext_call(I, st, e, this, args):
    n = e.get('n') or '?'
    b = base_name(n)
    if n.startswith('el::') or (e.get('cls') or '').startswith('el::'):
        for a in args:
            # operands of log statements are evaluated for their effects only
            if a['k'] in ('call', 'mcall', 'opcall', 'un', 'assign', 'cassign'):
                try:
                    I.val(st, a)
                except Unsupported:
                    pass
        if e['k'] == 'mcall' and e['c']:
            I.val(st, e['c'][0])
        elif e['k'] == 'opcall':
            pass
        if b == 'checkNotNull':
            return I.val(st, args[0])
        return I.ret_opaque(st, e, ('ext', n))
    if n in ('std::isnan', 'isnan', '__builtin_isnan'):
        v = I.num(I.val(st, args[0]))
        return B(('isnan', v))
    if b in MATH1 and len(args) == 1 and (n == b or n.startswith('std::')):
        v = I.num(I.val(st, args[0]))
        if b == 'sqrt':
            return sqrt(v)
        if b in ('fabs', 'abs'):
            if v.is_const():
                return Poly.const(abs(v.cval()))
            return app('fabs', absnorm(v))
        return app(b, v)
    if b == 'pow' and len(args) == 2:
        x, y = I.num(I.val(st, args[0])), I.num(I.val(st, args[1]))
        return mkpow(x, y)
    if b in ('atan2', 'fmod', 'hypot') and len(args) == 2:
        return app(b, I.num(I.val(st, args[0])), I.num(I.val(st, args[1])))
    if n in ('std::max', 'std::min'):
        if len(args) == 2:
            a, c = I.num(I.val(st, args[0])), I.num(I.val(st, args[1]))
            if a.is_const() and c.is_const():
                f = max if n == 'std::max' else min
                return Poly.const(f(a.cval(), c.cval()))
            if a == c:
                return a
            fl = strip_ref(args[0]['t']) in FLOATS
            k = lt(a - c, not fl)
            return mk_ite(k, c, a) if n == 'std::max' else mk_ite(k, a, c)
    if n == 'std::swap' and len(args) == 2:
        t = strip_ref(args[0]['t'])
        if I.scalar_t(t):
            la, lb = I.loc(st, args[0]), I.loc(st, args[1])
            va, vb = I.read(st, la, t), I.read(st, lb, t)
            I.store_to(st, la, vb)
            I.store_to(st, lb, va)
            return ZERO_
        if t.startswith('std::') and not I.user_copy(t):
            la, lb = I.loc(st, args[0]), I.loc(st, args[1])
            if la is not None and lb is not None:
                I.event(st, 'std:swap', [Ref(la, t), Ref(lb, t)], node=e)
                exchange(I, st, e, la, lb, t)
                return ZERO_
    if n in ('std::move', 'std::forward', 'std::addressof'):
        l = I.loc(st, args[0])
        return Ref(l, strip_ref(args[0]['t'])) if not I.scalar_t(args[0]['t']) else RetLoc(l)
    if n in ('std::next', 'std::prev', 'std::begin', 'std::end'):
        if n in ('std::next', 'std::prev'):
            p = I.val(st, args[0])
            d = I.num(I.val(st, args[1])) if len(args) > 1 else ONE_
            return I.padd(p, d if n == 'std::next' else -d, 'int *')
        t = strip_ref(args[0]['t'])
        l = I.loc(st, args[0])
        a = arr(t)
        if a:
            l = I.arr_index(l, t, ZERO_, arr_elem(t))
            return Ptr(l, 'int *') if n == 'std::begin' else I.padd(Ptr(l, 'int *'), Poly.const(a[1][0]), 'int *')
        return Ptr(elem_loc(l, ZERO_ if n == 'std::begin' else I.num(I.read(st, size_loc(l), 'unsigned long'))), 'int *')
    if n in ('std::copy_n',) and len(args) == 3:
        f, k, d = [I.val(st, a) for a in args]
        copy_range(I, st, d, f, I.num(k))
        return I.padd(d, I.num(k), 'int *')
    if b in ('memset', 'bzero') or n == 'memset':
        p = I.val(st, args[0])
        v = I.num(I.val(st, args[1])) if len(args) > 1 else ZERO_
        sz = I.num(I.val(st, args[2])) if len(args) > 2 else None
        mem_fill(I, st, p, v, sz, args)
        return p
    if b in ('memcpy', 'memmove'):
        d, s = I.val(st, args[0]), I.val(st, args[1])
        sz = I.num(I.val(st, args[2]))
        mem_copy(I, st, d, s, sz, e)
        return d
    if n in ('std::copy',) and len(args) == 3:
        f, l, d = [I.val(st, a) for a in args]
        cnt = I.arith('-', l, f, 'long', 'int *', 'int *')
        copy_range(I, st, d, f, cnt)
        return I.padd(d, cnt, 'int *')
    if n in ('std::fill',) and len(args) == 3:
        f, l, v = [I.val(st, a) for a in args]
        cnt = I.arith('-', l, f, 'long', 'int *', 'int *')
        fill_range(I, st, f, cnt, v)
        return ZERO_
    if n == 'std::swap_ranges' and len(args) == 3:
        f, l, d = [I.val(st, a) for a in args]
        cnt = I.num(I.arith('-', l, f, 'long', 'int *', 'int *'))
        if cnt.is_const() and all(isinstance(x, Ptr) and x.loc is not None for x in (f, d)):
            fl, dl = with_idx(f.loc), with_idx(d.loc)
            for i in range(int(cnt.cval())):
                x, y = I.index_loc(fl, Poly.const(i), None), I.index_loc(dl, Poly.const(i), None)
                vx, vy = I.read(st, x, 'double'), I.read(st, y, 'double')
                I.store_to(st, x, vy)
                I.store_to(st, y, vx)
            return I.padd(d, cnt, 'int *')
    if n in ('std::fill_n',) and len(args) == 3:
        f, cnt, v = [I.val(st, a) for a in args]
        fill_range(I, st, f, I.num(cnt), v)
        return ZERO_
    if n in ('assert', '__assert_fail', '__assert', 'abort', 'exit', 'std::exit', 'std::abort', '__assert_rtn', 'std::terminate', '_exit', 'std::quick_exit', 'quick_exit'):
        I.event(st, 'abort:' + n, [], node=e)
        st.dead = True
        return ZERO_
    if n == '__builtin_expect':
        return I.val(st, args[0])
    if e.get('noret'):
        st.dead = True
        return ZERO_
    # comparison / arithmetic operators on iterators and strings
    op = e.get('op')
    if e['k'] == 'opcall':
        allargs = e['c']
        t0 = strip_ref(allargs[0]['t'])
        if op in ('<<', '>>'):
            return stream_op(I, st, e, op, allargs)
        if is_string(t0) or (len(allargs) > 1 and is_string(allargs[1]['t'])):
            return string_op(I, st, e, op, allargs)
        if is_iter(t0):
            return iter_op(I, st, e, op, allargs)
        if t0.startswith('std::'):
            return std_op(I, st, e, op, allargs)
        if t0.startswith('Eigen::'):
            return eigen_like(I, st, e, allargs)
    if n == 'std::to_string' and len(args) == 1 and strip_cv(strip_ref(args[0]['t'])) not in FLOATS:
        v = I.num(I.val(st, args[0]))
        if v.is_const() and v.cval().denominator == 1:
            return Str(str(int(v.cval())))
        return I.ret_opaque(st, e, ('ext', n, v))
    if n == 'std::setprecision' and len(args) == 1:
        return Opq('setprecision', I.num(I.val(st, args[0])))
    if n.startswith('std::') and args and e['k'] == 'call':
        return std_algo(I, st, e, n, args)
    vs = []
    for a in args:
        vs.append(I.val(st, a))
    I.unknown_calls[n] = I.unknown_calls.get(n, 0) + 1
    I.event(st, 'ext:' + n, ([this] if this is not None else []) + vs, node=e)
    if n not in PURE and 'va_' not in n:
        written(I, st, args, vs)
    return I.ret_opaque(st, e, ('ext', n) + tuple(vs) + ((I.nuid(),) if n not in PURE else ()))


def written(I, st, args, vs):
    """an unknown function may write everything it gets by pointer, iterator or reference to non-const"""
    for a, v in zip(args, vs):
        t = a['t']
        if isinstance(v, Ptr) and v.loc is not None and not isinstance(v.loc, Ite):
            if is_ptr(t) and pointee(t).startswith('const ') or 'const_iterator' in t or '_iterator<const ' in t or 'FILE' in t or 'function' in t or '(' in t:
                continue
            I.havoc_obj(st, v.loc[0])
        elif a['k'] in ('ref', 'field', 'sub', 'un', 'deref', 'opcall') and not strip_ref(t).startswith('const ') and not t.startswith('const '):
            if isinstance(v, Ref) and type(v.loc) is tuple:
                if not v.t.startswith('std::basic_'):
                    I.havoc_obj(st, v.loc[0])
            elif isinstance(v, Poly) and not v.is_const() and a['k'] == 'ref':
                try:
                    l = I.loc(st, a)
                except (Unsupported, KeyError, TypeError):
                    continue
                if type(l) is tuple:
                    I.havoc_obj(st, l[0])


READONLY = {'find', 'find_if', 'find_if_not', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'count', 'count_if', 'equal', 'distance', 'binary_search', 'search',
            'all_of', 'any_of', 'none_of', 'accumulate', 'inner_product', 'mismatch', 'is_sorted', 'min', 'max', 'abs', 'next', 'prev', 'begin', 'end', 'make_pair', 'make_tuple', 'tie',
            'setw', 'setprecision', 'setfill', 'isnan', 'isinf', 'isfinite', 'minmax_element', 'lexicographical_compare', 'make_shared', 'make_unique', 'move', 'forward', 'ref', 'cref',
            'advance', 'getline', 'to_string', 'static_pointer_cast', 'dynamic_pointer_cast', 'adjacent_find', 'equal_range', 'includes', 'inserter', 'back_inserter', 'operator|', 'operator&'}
PURE = {'strlen', 'strcmp', 'strncmp', 'atoi', 'atof', 'strtod', 'stoi', 'std::stoi', 'std::stod', 'std::to_string', 'strcasecmp', 'toupper', 'tolower', 'isspace', 'isdigit', 'isalpha', 'std::make_pair', 'getenv', 'clock', 'time'}


def absnorm(v):
    return -v if lead_neg(v) else v


def sizeof_factor(sz):
    """sz = n * sizeof(T) -> n"""
    for a in sz.atoms():
        if type(a) is tuple and a[0] == 'sizeof':
            return sz * inv(Poly.atom(a))
    return None


SZ = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'unsigned short': 2, 'short': 2, 'unsigned long': 8, 'long': 8, 'char': 1, 'bool': 1, 'long long': 8, 'unsigned char': 1, 'unsigned long long': 8}


def elem_count(I, sz, ptrt):
    n = sizeof_factor(sz)
    if n is not None:
        return n
    t = pointee(ptrt) if ptrt and is_ptr(ptrt) else None
    a = arr(t) if t else None
    if a:
        t = a[0]
    while t and t not in SZ and I.prog.is_class(t):
        rec = I.prog.find_record(t)
        if not rec or len(rec['fields']) != 1:
            return None
        a = arr(rec['fields'][0]['t'])
        if not a:
            return None
        t = a[0]
    if t in SZ:
        return sz.scale(Fraction(1, SZ[t]))
    return None


def ptr_type(node):
    while node['k'] == 'cast':
        node = node['c'][0]
    return node['t']


def mem_fill(I, st, p, v, sz, args):
    n = elem_count(I, sz, ptr_type(args[0])) if sz is not None else None
    if isinstance(p, Ptr) and p.loc is not None and n is not None and v.is_zero():
        fill_range(I, st, p, n, ZERO_)
    elif isinstance(p, Ptr) and p.loc is not None:
        I.havoc_obj(st, p.loc[0])


def fill_range(I, st, p, n, v):
    n = I.num(n)
    if not isinstance(p, Ptr) or p.loc is None:
        return
    if n.is_const() and n.cval().denominator == 1:
        for i in range(int(n.cval())):
            I.store_to(st, I.index_loc(p.loc, Poly.const(i), None) if i else with_idx(p.loc), v)
        return
    k = ('k', I.nuid())
    I.loopinfo[k] = {'N': n, 'exact': True, 'line': I.line, 'fn': 'fill', 'file': ''}
    obj, path = with_idx(p.loc)
    sh, ix = split_path(path)
    l = st.log_for_write(obj, sh)
    l.ents.append(Entry('w', ix[:-1] + (ix[-1] + Poly.atom(k),), v, TRUE, ((k, n),), I.line))


def grow(I, st, l, et, old, n, val):
    """elements old..n-1 of the container at l (elements of type et) come into being, copied from val or value-initialised"""
    if not et:
        return
    v = I.val(st, val) if val is not None else None
    const = lambda p: p.is_const() and p.cval().denominator == 1
    if const(old) and const(n) and n.cval() - old.cval() <= 256:
        for i in range(int(old.cval()), int(n.cval())):
            el = elem_loc(l, Poly.const(i))
            if I.scalar_t(et):
                z = I.conv(v, et) if v is not None else (Ptr(None, et) if is_ptr(et) else FALSE if et == 'bool' else ZERO_)
                I.store_to(st, el, z)
            elif is_string(et):
                I.store_to(st, el, v if v is not None else Str(''))
            elif isinstance(v, Ref):
                I.copy_obj(st, el, v.loc, et)
            elif v is None and et.startswith(CONT) and not et.startswith('std::array'):
                I.write(st, size_loc(el), ZERO_)
            elif v is None and I.prog.find_record(et):
                I.default_ctor(st, el, et)
        return
    if I.scalar_t(et) and old.is_zero():
        if v is not None:
            fill_range(I, st, Ptr(elem_loc(l, ZERO_)), n, I.conv(v, et))
        else:
            st.zero = st.zero + (l,)


def with_idx(loc):
    if loc[1] and isinstance(loc[1][-1], tuple):
        return loc
    return (loc[0], loc[1] + (('i', ZERO_),))


def mem_copy(I, st, d, s, sz, e):
    n = elem_count(I, sz, ptr_type(e['c'][0])) or elem_count(I, sz, ptr_type(e['c'][1]))
    if n is None:
        if isinstance(d, Ptr) and d.loc:
            I.havoc_obj(st, d.loc[0])
        return
    copy_range(I, st, d, s, n, pointee(ptr_type(e['c'][0])))


def copy_range(I, st, d, s, n, t='double'):
    n = I.num(n)
    if not (isinstance(d, Ptr) and isinstance(s, Ptr) and d.loc and s.loc):
        return
    a = arr(t) if t else None
    t = a[0] if a else t
    dl, sl = with_idx(d.loc), with_idx(s.loc)
    if n.is_const() and n.cval().denominator == 1:
        vals = [I.read(st, I.index_loc(sl, Poly.const(i), None), t) for i in range(int(n.cval()))]
        for i, v in enumerate(vals):
            I.store_to(st, I.index_loc(dl, Poly.const(i), None), v)
        return
    k = ('k', I.nuid())
    I.loopinfo[k] = {'N': n, 'exact': True, 'line': I.line, 'fn': 'copy', 'file': ''}
    I.loops.append((k, n))
    try:
        v = I.read(st, I.index_loc(sl, Poly.atom(k), None), t)
    finally:
        I.loops.pop()
    obj, path = dl
    sh, ix = split_path(path)
    l = st.log_for_write(obj, sh)
    l.ents.append(Entry('w', ix[:-1] + (ix[-1] + Poly.atom(k),), v, TRUE, ((k, n),), I.line))


# ---------------------------------------------------------------------------------- iterators
def is_iter(t):
    return 'iterator' in t or t.startswith(('std::_Rb_tree', 'std::_List', '__gnu_cxx::__normal_iterator'))


def iter_op(I, st, e, op, args):
    if op == '*':
        p = I.val(st, args[0])
        l = I.deref(st, p)
        return Ref(l, strip_ref(e['t'])) if not I.scalar_t(e['t']) else RetLoc(l)
    if op == '->':
        p = I.val(st, args[0])
        return p
    if op in ('++', '--'):
        l = I.loc(st, args[0])
        old = I.read(st, l, 'int *')
        new = I.padd(old, 1 if op == '++' else -1, 'int *')
        I.store_to(st, l, new)
        return old if len(args) > 1 else new
    if op in ('==', '!=', '<', '>', '<=', '>='):
        a, b = I.val(st, args[0]), I.val(st, args[1])
        return I.simp(st, I.compare(op, a, b, 'int'))
    if op in ('+', '-'):
        a, b = I.val(st, args[0]), I.val(st, args[1])
        return I.arith(op, a, b, 'long', 'int *', 'int *')
    if op in ('+=', '-='):
        l = I.loc(st, args[0])
        a, b = I.read(st, l, 'int *'), I.num(I.val(st, args[1]))
        I.store_to(st, l, I.padd(a, b if op == '+=' else -b, 'int *'))
        return RetLoc(l)
    if op == '=':
        l = I.loc(st, args[0])
        v = I.val(st, args[1])
        I.store_to(st, l, v)
        return v
    if op == '[]':
        p = I.padd(I.val(st, args[0]), I.val(st, args[1]), 'int *')
        l = I.deref(st, p)
        return Ref(l, strip_ref(e['t'])) if not I.scalar_t(e['t']) else RetLoc(l)
    raise Unsupported('iterator op ' + op)


# ---------------------------------------------------------------------------------- strings
def string_ctor(I, st, e):
    args = [a for a in e['c']]
    if not args:
        return Str('')
    v = I.val(st, args[0])
    if len(args) == 1 or (len(args) == 2 and 'allocator' in args[1]['t']):
        return v if isinstance(v, (Str, Opq)) else Opq('str', v)
    return Opq('strctor', v, *[I.val(st, a) for a in args[1:]])


def string_op(I, st, e, op, args):
    if op in ('=', '+='):
        l = I.loc(st, args[0])
        v = I.val(st, args[1])
        if op == '+=':
            old = I.read(st, l, STRINGS[0])
            v = cat(old, v)
        if isinstance(v, Poly):
            v = Opq('chr', v)
        I.store_to(st, l, v)
        return RetLoc(l)
    vs = [I.val(st, a) for a in args]
    if op == '+':
        return cat(vs[0], vs[1])
    if op in ('==', '!='):
        r = same(vs[0], vs[1])
        return I.simp(st, r if op == '==' else neg(r))
    if op == '[]':
        return I.typed_atom(('chr', vs[0], vs[1]), 'char')
    return B(('cmp', op, vs[0], vs[1]))


def cat(a, b):
    if isinstance(a, Str) and isinstance(b, Str):
        return Str(a.s + b.s)
    return Opq('cat', a, b)


def concrete_string(b, s, args):
    """read-only string operations on constants"""
    a = []
    for x in args:
        if isinstance(x, Str):
            a.append(x.s)
        elif isinstance(x, Poly) and x.is_const():
            a.append(int(x.cval()))
        else:
            return None
    num = [x for x in a if isinstance(x, int)]
    if any(x < 0 for x in num):
        return None
    if b == 'compare' and len(a) == 3 and isinstance(a[2], str) and isinstance(a[0], int):
        x, y = s[a[0]:a[0] + a[1]], a[2]
        return Poly.const((x > y) - (x < y))
    if b == 'substr' and 1 <= len(a) <= 2 and all(isinstance(x, int) for x in a) and a[0] <= len(s):
        return Str(s[a[0]:] if len(a) == 1 else s[a[0]:a[0] + a[1]])
    if b in ('find', 'rfind') and a and (len(a) == 1 or a[1:] == [0]):
        t = a[0] if isinstance(a[0], str) else chr(a[0])
        if len(a) == 2 and b == 'rfind':
            k = 0 if s.startswith(t) else -1
        else:
            k = s.find(t) if b == 'find' else s.rfind(t)
        return Poly.const(k if k >= 0 else 2 ** 64 - 1)
    if b in ('at', 'operator[]', 'front', 'back') and len(a) <= 1:
        k = a[0] if a else (0 if b == 'front' else len(s) - 1)
        if 0 <= k < len(s):
            return Poly.const(ord(s[k]))
    return None


def string_method(I, st, e):
    b = base_name(e['n'])
    base = e['c'][0]
    arrow = e.get('arrow')
    l = I.deref(st, I.val(st, base)) if arrow and is_ptr(base['t']) else I.loc(st, base)
    v = I.rd(st, l, STRINGS[0])
    args = [I.val(st, a) for a in e['c'][1:]]
    if b in ('c_str', 'data', 'str', 'operator basic_string'):
        return v
    if b in ('length', 'size'):
        return Poly.const(len(v.s)) if isinstance(v, Str) else Poly.atom(('size', v))
    if b == 'empty':
        return (TRUE if not v.s else FALSE) if isinstance(v, Str) else eq(Poly.atom(('size', v)))
    if b in ('clear',):
        I.store_to(st, l, Str(''))
        return ZERO_
    if b == 'compare' and len(args) == 1:
        r = same(v, args[0])
        return ONE_ - ind(r)
    if isinstance(v, Str):
        r = concrete_string(b, v.s, args)
        if r is not None:
            return r
    if b in ('append', 'push_back', 'insert', 'erase', 'assign', 'replace', 'resize'):
        I.store_to(st, l, Opq('strop', b, v, *args))
        return RetLoc(l)
    return I.typed_atom(('strm', b, v) + tuple(args), e['t']) if I.scalar_t(e['t']) else Ref((('strm', b, v) + tuple(args), ()), e['t'])


# ---------------------------------------------------------------------------------- streams
def stream_state(I, b, l):
    if I.input is not None and I.stream_ok is not None:
        good = b in ('is_open', 'good', 'operator bool', 'bool')
        if b == 'eof':
            return TRUE if I.input.pos >= len(I.input.toks) else FALSE
        return TRUE if good != (I.input.failed and b != 'is_open') else FALSE
    if I.stream_ok is not None and b != 'eof':
        good = b in ('is_open', 'good', 'operator bool', 'bool')
        return TRUE if good == I.stream_ok else FALSE
    return B(('stream', b, l, I.nuid()))


FMT = {'scientific': 256, 'fixed': 4, 'floatfield': 260, 'dec': 2, 'hex': 8, 'oct': 64, 'basefield': 74, 'boolalpha': 1, 'showpoint': 1024, 'showpos': 2048, 'uppercase': 16384, 'left': 32, 'right': 128}


def is_string(t):
    return strip_cv(t).startswith(('std::string', 'std::basic_string<', 'std::__cxx11::basic_string<'))


class Input:
    """tokens delivered by >> of one stream; .failed once more was asked for than there is"""

    def __init__(self, toks):
        self.toks, self.pos, self.failed = list(toks), 0, False

    def take(self, t):
        if self.failed or self.pos >= len(self.toks):
            self.failed = True
            return None
        self.pos += 1
        return self.toks[self.pos - 1]


def fmt_get(I, st, l, f, default):
    loc = (l[0], l[1] + (f,))
    d = st.objd(loc[0]) if loc[0] in st.store else None
    if d is None or all(k != split_path(loc[1])[0] for k in d):
        return Poly.const(default)
    return I.num(I.read(st, loc, 'long'))


def fmt_num(v):
    """a format flag value as a number where it is one of the standard constants"""
    if isinstance(v, Poly):
        s = show_any(v)
        if s in FMT:
            return Poly.const(FMT[s])
    return v


def as_int(v):
    return int(v.cval()) if isinstance(v, Poly) and v.is_const() else None


def manipulate(I, st, l, v):
    """stream manipulators that change how numbers are written"""
    n = str(v.n).split('::')[-1] if isinstance(v, Fn) else None
    if n in ('scientific', 'fixed', 'defaultfloat'):
        old = as_int(fmt_get(I, st, l, '$fmt', 0))
        new = {'scientific': 256, 'fixed': 4, 'defaultfloat': 0}[n]
        I.write(st, (l[0], l[1] + ('$fmt',)), Poly.const((old & ~260) | new) if old is not None else Poly.atom(('fmt', I.nuid())))
        return True
    if isinstance(v, Opq) and v.k[0] == 'setprecision':
        I.write(st, (l[0], l[1] + ('$prec',)), v.k[1])
        return True
    return False


def ios_format(I, st, b, l, vs):
    """precision / setf / unsetf / flags of a stream: the value returned, or None if it is another member"""
    if b == 'precision':
        old = fmt_get(I, st, l, '$prec', 6)
        if vs:
            I.write(st, (l[0], l[1] + ('$prec',)), I.num(vs[0]))
        return old
    if b in ('setf', 'unsetf', 'flags'):
        old = fmt_get(I, st, l, '$fmt', 0)
        a = [as_int(fmt_num(x)) for x in vs]
        o = as_int(old)
        if b == 'flags':
            if vs:
                I.write(st, (l[0], l[1] + ('$fmt',)), fmt_num(vs[0]))
            return old
        if o is None or any(x is None for x in a):
            new = Poly.atom(('fmt', I.nuid()))
        elif b == 'unsetf':
            new = Poly.const(o & ~a[0])
        else:
            new = Poly.const((o & ~a[1]) | (a[0] & a[1]) if len(a) > 1 else o | a[0])
        I.write(st, (l[0], l[1] + ('$fmt',)), new)
        return old
    return None


def stream_op(I, st, e, op, args):
    lhs, rhs = args[0], args[1]
    # chain: evaluate the left operand first
    l = I.loc(st, lhs)
    if op == '<<':
        if rhs['k'] in ('fref',):
            v = Fn(rhs['n'])
        else:
            v = I.val(st, rhs)
            if isinstance(v, Ref) and I.prog.find_record(rhs['t']):
                pass
        ar = [Ref(l, lhs['t']), v, Opq('type', rhs['t'])]
        if manipulate(I, st, l, v):
            pass
        elif strip_cv(strip_ref(rhs['t'])) in ('double', 'float', 'long double'):
            ar.append(Opq('fmt', fmt_get(I, st, l, '$prec', 6), fmt_get(I, st, l, '$fmt', 0)))
        I.event(st, '<<', ar, node=rhs)
    else:
        if not (rhs['k'] in ('fref',)):
            rl = I.loc(st, rhs)
            t = strip_ref(rhs['t'])
            if I.scalar_t(t) or is_string(t) and I.input is not None:
                v = I.input.take(t) if I.input is not None else None
                if v is None:
                    v = I.typed_atom(('in', I.nuid()), t) if I.scalar_t(t) else Opq('in', I.nuid())
                I.store_to(st, rl, v)
                I.event(st, '>>', [Ref(l, lhs['t']), v, Opq('type', t), Ptr(rl)], node=rhs)
            else:
                I.event(st, '>>', [Ref(l, lhs['t']), Ref(rl, t), Opq('type', t), Ptr(rl)], node=rhs)
    return Ref(l, strip_ref(lhs['t']))


# ---------------------------------------------------------------------------------- containers
SMART = ('std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr<', 'std::__shared_ptr_access<')


def smart_elem(t):
    from prog import template_args
    return template_args(t)[0]


def smart_get(I, st, l, t):
    return I.read(st, (l[0], l[1] + ('$p',)), smart_elem(t) + ' *')


def smart_method(I, st, e, b, l, t, args):
    if b in ('get', 'operator->'):
        return smart_get(I, st, l, t)
    if b == 'operator bool':
        return neg(I.compare('==', smart_get(I, st, l, t), Ptr(None), 'void *'))
    if b == 'operator*':
        return Ref(I.deref(st, smart_get(I, st, l, t)), smart_elem(t))
    if b == 'reset':
        I.write(st, (l[0], l[1] + ('$p',)), I.val(st, args[0]) if args else Ptr(None))
        return ZERO_
    return None


def std_ctor(I, st, loc, t, e):
    if t.startswith(SMART) and 'el::base' not in t:
        args = [a for a in (e['c'] if e else [])]
        v = I.val(st, args[0]) if args else Ptr(None)
        if isinstance(v, Ref):
            I.copy_obj(st, loc, v.loc, t)
        else:
            I.write(st, (loc[0], loc[1] + ('$p',)), v)
        return
    if t.startswith('std::function<'):
        v = I.val(st, e['c'][0]) if e and e['c'] else None
        if isinstance(v, Ref):
            v = I.closure_at(st, v) or v
        if isinstance(v, Opq):
            I.write(st, loc, v)
        return
    args = [a for a in (e['c'] if e else []) if not ('allocator' in a['t'])]
    if t.startswith(('std::vector<', 'std::list<', 'std::deque<', 'std::set<', 'std::map<', 'std::array<', 'std::stack<')):
        sh = split_path(loc[1])[0]
        if loc[0] in st.store:
            d = st.objd(loc[0])
            if not split_path(loc[1])[1]:
                for s in [s for s in d if s[:len(sh)] == sh]:
                    del d[s]
        if not args:
            I.write(st, size_loc(loc), ZERO_)
            return
        if len(args) == 1 and args[0]['k'] == 'init' or (len(args) >= 1 and 'initializer_list' in args[0]['t']):
            v = I.val(st, args[0])
            if isinstance(v, Ref):
                I.copy_obj(st, loc, v.loc, t)
                return
        if t.startswith('std::vector<') or t.startswith('std::deque<') or t.startswith('std::list<'):
            if strip_ref(args[0]['t']) in INTS or args[0].get('v') is not None:
                n = I.num(I.val(st, args[0]))
                et = I.prog.elem_type(t)
                I.write(st, size_loc(loc), n)
                grow(I, st, loc, et, ZERO_, n, args[1] if len(args) > 1 else None)
                return
        vs = [I.val(st, a) for a in args]
        if len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
            n = I.arith('-', vs[1], vs[0], 'long', 'int *', 'int *')
            I.write(st, size_loc(loc), n)
            copy_range(I, st, Ptr(elem_loc(loc, ZERO_)), vs[0], n)
            return
        I.havoc_obj(st, loc[0])
        return
    if t.startswith('std::pair<') and len(args) == 2:
        ts = [a for a in pair_types(t)]
        for nme, a, tt in zip(('first', 'second'), args, ts):
            I.init_into(st, (loc[0], loc[1] + (nme,)), tt, a)
        return
    vs = [I.val(st, a) for a in args]
    I.write(st, (loc[0], loc[1] + ('$ext',)), Opq('ctor', t, *vs))
    if e is not None:
        I.event(st, 'ctor:' + t.split('<')[0], [Ref(loc, t)] + vs, node=e)


def pair_types(t):
    from prog import template_args
    return template_args(t)


CONT = ('std::vector', 'std::initializer_list', 'std::list', 'std::deque', 'std::set', 'std::map', 'std::array', 'std::stack', 'std::unordered_map')


def recv(I, st, e):
    base = e['c'][0]
    if e.get('arrow') or is_ptr(base['t']):
        return I.deref(st, I.val(st, base)), strip_ref(pointee(base['t']) if is_ptr(base['t']) else base['t'])
    return I.loc(st, base), strip_ref(base['t'])


def stream_text(I, l):
    """the text in a string stream when everything written to it is constant"""
    out = []
    for ev in I.events:
        if ev.name != '<<' or not isinstance(ev.args[0], Ref) or ev.args[0].loc != l:
            continue
        v = ev.args[1]
        t = strip_cv(strip_ref(ev.args[2].k[1])) if isinstance(ev.args[2], Opq) else ''
        if ev.guards or getattr(ev, 'loops', None):
            return None
        if isinstance(v, Str):
            out.append(v.s)
        elif isinstance(v, Poly) and v.is_const() and v.cval().denominator == 1 and t not in FLOATS:
            out.append(chr(int(v.cval())) if t in ('char', 'unsigned char', 'signed char') else str(int(v.cval())))
        else:
            return None
    return ''.join(out) if out else None


def std_method(I, st, e):
    n = e['n']
    b = base_name(n)
    base = e['c'][0]
    args = e['c'][1:]
    bt = strip_ref(pointee(base['t']) if is_ptr(base['t']) else base['t'])
    if is_iter(bt) and not bt.startswith(CONT):
        return I.val(st, base)
    l, t = recv(I, st, e)
    if isinstance(l, Ite):
        vs = [I.val(st, a) for a in args]
        I.event(st, 'std:' + b, [Ref(l.a, t), Ref(l.b, t)] + vs, node=e)
        return I.ret_opaque(st, e, I.fresh('stdite', n))
    if t.startswith(SMART) and 'el::base' not in t:
        r = smart_method(I, st, e, b, l, t, args)
        if r is not None:
            return r
    cls = '::'.join(n.split('::')[:-1])
    if t.startswith(CONT) or cls in CONT:
        return cont_method(I, st, e, b, l, t, args)
    vs = [I.val(st, a) for a in args]
    I.event(st, 'std:' + '::'.join(n.split('::')[-2:]), [Ref(l, t)] + vs, node=e)
    if cls in ('std::ios_base', 'std::basic_ios'):
        r = ios_format(I, st, b, l, vs)
        if r is not None:
            return r
    if b in ('is_open', 'good', 'fail', 'eof', 'bad', 'operator bool', 'operator!'):
        return stream_state(I, b, l)
    if b in ('getline', 'get', 'read'):
        return Ref(l, t)
    if b == 'str' and strip_cv(e['t']) != 'void':
        x = stream_text(I, l)
        if x is not None:
            return Str(x)
        return Opq('sstr', l, I.nuid())
    return I.ret_opaque(st, e, ('std', n, l) + tuple(vs) + (I.nuid(),))


def cont_method(I, st, e, b, l, t, args):
    et = I.prog.elem_type(t)
    size = lambda: I.num(I.read(st, size_loc(l), 'unsigned long'))
    ret = lambda loc: (RetLoc(loc) if I.scalar_t(e['t']) else Ref(loc, strip_ref(e['t'])))
    if t.startswith('std::array<'):
        from prog import template_args
        if b in ('size', 'max_size'):
            return Poly.const(int(''.join(ch for ch in template_args(t)[1] if ch.isdigit())))
    if b == 'size':
        return size()
    if b == 'empty':
        return I.simp(st, eq(size()))
    if b in ('begin', 'cbegin'):
        return Ptr(elem_loc(l, ZERO_), 'int *')
    if b in ('end', 'cend'):
        return Ptr(elem_loc(l, size()), 'int *')
    if b in ('rbegin', 'rend'):
        return Opq(b, l)
    if b in ('at', 'operator[]') and not t.startswith(('std::map', 'std::unordered_map')):
        i = I.num(I.val(st, args[0]))
        if b == 'at':
            I.event(st, 'at', [i, Ref(l, t)], node=e)
        else:
            I.event(st, 'index', [i, Ref(l, t), size()], node=e)
        return ret(elem_loc(l, i))
    if b == 'data':
        return Ptr(elem_loc(l, ZERO_), e['t'])
    if b == 'front':
        return ret(elem_loc(l, ZERO_))
    if b in ('back', 'top'):
        return ret(elem_loc(l, size() - 1))
    if b in ('emplace_back', 'emplace_front') and et and not I.scalar_t(et) and not t.startswith('std::stack') and (b == 'emplace_back' or size().is_zero()):
        made = emplace_ctor(I, et, args)
        if made is not None:
            n = size()
            o = elem_loc(l, n)
            I.event(st, 'push_back', [Ref(l, t)], node=e)
            if made == 'pair':
                for f, ft, a in zip(('first', 'second'), template_args(et), args):
                    I.store_to(st, (o[0], o[1] + (f,)), I.conv(I.val(st, a), ft))
            else:
                I.call_fn(st, made, args, Ref(o, et), e)
            I.write(st, size_loc(l), n + 1)
            return Ref(o, et)
    if b in ('push_back', 'emplace_back', 'push') and len(args) <= 1:
        n = size()
        I.event(st, 'push_back', [Ref(l, t)], node=e)
        if args:
            if I.scalar_t(et):
                v = I.conv(I.val(st, args[0]), et)
                I.store_to(st, elem_loc(l, n), v)
            else:
                v = I.val(st, args[0])
                if isinstance(v, Ref):
                    I.copy_obj(st, elem_loc(l, n), v.loc, et)
        I.write(st, size_loc(l), n + 1)
        return ZERO_
    if b == 'emplace_back':
        vs = [I.val(st, a) for a in args]
        n = size()
        I.event(st, 'push_back', [Ref(l, t)] + vs, node=e)
        I.write(st, size_loc(l), n + 1)
        return ZERO_
    if b in ('pop_back', 'pop'):
        I.write(st, size_loc(l), size() - 1)
        return ZERO_
    if b == 'clear':
        I.event(st, 'clear', [Ref(l, t)], node=e)
        I.write(st, size_loc(l), ZERO_)
        return ZERO_
    if b in ('reserve', 'shrink_to_fit'):
        for a in args:
            I.val(st, a)
        return ZERO_
    if b in ('resize', 'assign') and strip_ref(args[0]['t']) in INTS:
        n = I.num(I.val(st, args[0]))
        old = size()
        I.write(st, size_loc(l), n)
        grow(I, st, l, et, ZERO_ if b == 'assign' else old, n, args[1] if len(args) > 1 else None)
        I.event(st, 'resize', [Ref(l, t), n], node=e)
        return ZERO_
    if b == 'assign' and len(args) == 2:
        f, la = I.val(st, args[0]), I.val(st, args[1])
        n = I.arith('-', la, f, 'long', 'int *', 'int *')
        I.write(st, size_loc(l), n)
        copy_range(I, st, Ptr(elem_loc(l, ZERO_)), f, n, et or 'double')
        return ZERO_
    vs = [I.val(st, a) for a in args]
    if b == 'swap':
        I.event(st, 'std:swap', [Ref(l, t)] + vs, node=e)
        if len(vs) == 1 and isinstance(vs[0], Ref) and vs[0].loc is not None:
            exchange(I, st, e, l, vs[0].loc, t)
            return ZERO_
    if t.startswith('std::set<') and b in ('insert', 'emplace', 'find', 'count', 'erase'):
        r = concrete_set(I, st, e, b, l, t, vs)
        if r is not None:
            I.event(st, 'cont:' + b, [Ref(l, t)] + vs, node=e)
            return r
    if b in ('insert', 'emplace', 'push_front', 'erase', 'remove', 'sort', 'unique', 'merge', 'splice', 'remove_if', 'reverse'):
        I.event(st, 'cont:' + b, [Ref(l, t)] + vs, node=e)
        r = concrete_splice(I, st, e, b, l, t, et, vs)
        if r is not None:
            return r
        if b in ('insert', 'emplace') and t.startswith(('std::vector', 'std::list')) and len(vs) == 3:
            # range insert at the end
            f, la = vs[1], vs[2]
            if isinstance(vs[0], Ptr) and isinstance(f, Ptr) and isinstance(la, Ptr) and vs[0].loc == elem_loc(l, size()):
                n = I.arith('-', la, f, 'long', 'int *', 'int *')
                copy_range(I, st, vs[0], f, n, et or 'double')
                I.write(st, size_loc(l), size() + n)
                return vs[0]
            if isinstance(vs[0], Ptr) and isinstance(f, Ptr) and isinstance(la, Ptr):
                n = I.arith('-', la, f, 'long', 'int *', 'int *')
                I.write(st, size_loc(l), size() + n)
                return vs[0]
        I.write(st, size_loc(l), Poly.atom(('size', I.fresh('cont', b))))
        if e['t'] != 'void':
            if not I.scalar_t(e['t']):
                return Ref((I.fresh('cont', b), ()), strip_ref(e['t']))
            return Ptr(elem_loc(l, Poly.atom(I.fresh('pos'))), 'int *')
        return ZERO_
    if b in ('find', 'lower_bound', 'upper_bound'):
        return Ptr(elem_loc(l, Poly.atom(('find', b, l) + tuple(vs))), 'int *')
    if b == 'count':
        return Poly.atom(('count', l) + tuple(vs))
    if b in ('at', 'operator[]'):     # map
        k = vs[0]
        I.event(st, 'mapidx:' + b, [Ref(l, t), k], node=e)
        from prog import template_args
        vt = template_args(t)[1]
        loc = (l[0], l[1] + (('i', I.num(k) if isinstance(k, (Poly, B)) else P(('mapkey', k))), 'second'))
        return RetLoc(loc) if I.scalar_t(vt) else Ref(loc, vt)
    I.event(st, 'cont:' + b, [Ref(l, t)] + vs, node=e)
    return I.ret_opaque(st, e, ('std', e['n'], l) + tuple(vs) + (I.nuid(),))


def emplace_ctor(I, et, args):
    """the constructor of class et that takes these arguments, None for copies and whatever is not certain"""
    if et.startswith('std::pair<') and len(args) == 2:
        return 'pair' if all(I.scalar_t(x) for x in template_args(et)) else None
    if len(args) == 1 and strip_cv(strip_ref(args[0]['t'])) == et:
        return None
    rec = I.prog.find_record(et)
    if not rec:
        return None
    name = re.sub(r'<.*', '', et).split('::')[-1]
    out = []
    for f in I.prog.fns.values():
        if not f.get('ctor') or f.get('cls') != rec['id'] or len(f['params']) < len(args) or any(q.get('def') is None for q in f['params'][len(args):]):
            continue
        if all(bool(I.scalar_t(strip_ref(q['t']))) == bool(I.scalar_t(strip_ref(a['t']))) for q, a in zip(f['params'], args)):
            out.append(f)
    return out[0] if len(out) == 1 else None


def exchange(I, st, e, a, b, t):
    """swap the contents of two objects"""
    if a == b:
        return
    o = (I.fresh_obj('T', e), ())
    I.copy_obj(st, o, a, t)
    I.copy_obj(st, a, b, t)
    I.copy_obj(st, b, o, t)


def concrete_splice(I, st, e, b, l, t, et, vs):
    """insert, erase, push_front and reverse on a sequence whose size and position are known"""
    if not t.startswith(('std::vector', 'std::deque', 'std::list')) or b not in ('insert', 'erase', 'push_front', 'reverse'):
        return None
    n = I.num(I.read(st, size_loc(l), 'unsigned long'))
    if not n.is_const() or not 0 <= n.cval() <= 5000:
        return None
    n = int(n.cval())

    def index(v):
        if not isinstance(v, Ptr) or v.loc is None or isinstance(v.loc, Ite) or v.loc[0] != l[0] or v.loc[1][:-1] != l[1]:
            return None
        k = v.loc[1][-1]
        return int(k[1].cval()) if type(k) is tuple and k[0] == 'i' and k[1].is_const() else None

    def get(loc):
        if I.scalar_t(et):
            return I.read(st, loc, et)
        o = (I.fresh_obj('T', e), ())
        I.copy_obj(st, o, loc, et)
        return Ref(o, et)

    def put(loc, v):
        if isinstance(v, Ref):
            I.copy_obj(st, loc, v.loc, et)
        else:
            I.store_to(st, loc, v)
    at = lambda k: elem_loc(l, Poly.const(k))
    if b == 'reverse':
        cur = [get(at(k)) for k in range(n)]
        for k, v in enumerate(reversed(cur)):
            put(at(k), v)
        return ZERO_
    if b == 'push_front':
        pos, new = 0, [vs[0]]
    else:
        pos = index(vs[0]) if vs else None
        if pos is None or not 0 <= pos <= n:
            return None
        if t.startswith('std::list') and pos != n and b == 'insert':
            return None         # iterators of a list stay on their element
    if b == 'erase':
        end = index(vs[1]) if len(vs) == 2 else pos + 1
        if end is None or not pos <= end <= n:
            return None
        for k in range(end, n):
            put(at(pos + k - end), get(at(k)))
        I.write(st, size_loc(l), Poly.const(n - (end - pos)))
        return Ptr(at(pos), 'int *')
    if b == 'insert':
        if len(vs) == 2:
            if isinstance(vs[1], Ref) and strip_ref(vs[1].t or '').startswith('std::initializer_list'):
                return None
            new = [vs[1]]
        elif len(vs) == 3 and isinstance(vs[1], Ptr) and isinstance(vs[2], Ptr):
            c = I.num(I.arith('-', vs[2], vs[1], 'long', 'int *', 'int *'))
            if not c.is_const() or not 0 <= c.cval() <= 5000:
                return None
            new = []
            for k in range(int(c.cval())):
                q = I.padd(vs[1], Poly.const(k), 'int *')
                if q.loc is None or isinstance(q.loc, Ite):
                    return None
                new.append(q.loc)
            new = [get(x) for x in new]
        else:
            return None
        new = [get(v.loc) if isinstance(v, Ref) else I.conv(v, et) if I.scalar_t(et) else v for v in new]
    else:
        new = [get(v.loc) if isinstance(v, Ref) else I.conv(v, et) if I.scalar_t(et) else v for v in new]
    if not I.scalar_t(et) and not all(isinstance(v, Ref) for v in new):
        return None
    for k in range(n - 1, pos - 1, -1):
        put(at(k + len(new)), get(at(k)))
    for k, v in enumerate(new):
        put(at(pos + k), v)
    I.write(st, size_loc(l), Poly.const(n + len(new)))
    return Ptr(at(pos), 'int *') if strip_cv(e['t']) != 'void' else ZERO_


def set_items(I, st, l, et):
    """constants of a set whose contents are known, or None"""
    n = I.num(I.read(st, size_loc(l), 'unsigned long'))
    if not n.is_const() or not 0 <= n.cval() <= 300:
        return None
    v = [I.num(I.read(st, elem_loc(l, Poly.const(k)), et)) for k in range(int(n.cval()))]
    return [x.cval() for x in v] if all(x.is_const() for x in v) else None


def concrete_set(I, st, e, b, l, t, vs):
    """sets of constants, kept in ascending order"""
    et = I.prog.elem_type(t)
    if not I.scalar_t(et):
        return None
    cur = set_items(I, st, l, et)
    if cur is None or not vs:
        return None
    new = None
    v = vs[0]
    if isinstance(v, B):
        v = I.num(v)
    if isinstance(v, Ref):
        new = set_items(I, st, v.loc, et)       # initializer list
        if new is None or b != 'insert':
            return None
    elif len(vs) == 2 and all(isinstance(x, Ptr) for x in vs):
        f, q = vs
        if not (f.loc and q.loc and f.loc[0] == q.loc[0] and f.loc[1][:-1] == q.loc[1][:-1]):
            return None
        n = I.num(q.loc[1][-1][1] - f.loc[1][-1][1])
        if not n.is_const() or not 0 <= n.cval() <= 300:
            return None
        new = [I.num(I.read(st, I.padd(f, Poly.const(k), 'int *').loc, et)) for k in range(int(n.cval()))]
        if not all(x.is_const() for x in new):
            return None
        new = [x.cval() for x in new]
    elif isinstance(v, Poly) and v.is_const():
        k = v.cval()
        if b == 'count':
            return Poly.const(1 if k in cur else 0)
        if b == 'find':
            return Ptr(elem_loc(l, Poly.const(cur.index(k) if k in cur else len(cur))), 'int *')
        new = [k]
    else:
        return None
    if b == 'erase':
        out = [k for k in cur if k not in new]
    else:
        out = sorted(set(cur) | set(new))
    for i, k in enumerate(out):
        I.write(st, elem_loc(l, Poly.const(i)), Poly.const(k))
    I.write(st, size_loc(l), Poly.const(len(out)))
    if e['t'] == 'void':
        return ZERO_
    if b == 'erase':
        return Poly.const(len(cur) - len(out))
    o = I.fresh_obj('tmp', e)
    I.write(st, (o, ('first',)), Ptr(elem_loc(l, Poly.const(out.index(new[0]) if new else 0)), 'int *'))
    I.write(st, (o, ('second',)), FALSE if new and new[0] in cur else TRUE)
    return Ref((o, ()), strip_ref(e['t']))


def std_op(I, st, e, op, args):
    t0 = strip_ref(args[0]['t'])
    if t0.startswith(SMART) and 'el::base' not in t0 and op in ('->', '*', 'bool', '!', '='):
        l = I.loc(st, args[0])
        if op == '=':
            v = I.val(st, args[1])
            if isinstance(v, Ref):
                I.copy_obj(st, l, v.loc, t0)
            else:
                I.write(st, (l[0], l[1] + ('$p',)), Ptr(None))
            return Ref(l, t0)
        r = smart_method(I, st, e, {'->': 'get', '*': 'operator*', 'bool': 'operator bool', '!': 'operator bool'}[op], l, t0, args[1:])
        return neg(r) if op == '!' else r
    if op in ('==', '!=') and any(strip_ref(a['t']).startswith(SMART) for a in args):
        ps = []
        for a in args:
            t = strip_ref(a['t'])
            if t.startswith(SMART):
                v = I.val(st, a)
                ps.append(smart_get(I, st, v.loc, t) if isinstance(v, Ref) and not isinstance(v.loc, Ite) else None)
            else:
                ps.append(Ptr(None))
        if None not in ps:
            return I.simp(st, I.compare(op, ps[0], ps[1], 'void *'))
    if t0.startswith(CONT):
        l = I.loc(st, args[0])
        if op == '[]':
            return cont_method(I, st, e, 'operator[]', l, t0, args[1:])
        if op == '=':
            v = I.val(st, args[1])
            if isinstance(v, Ref):
                I.copy_obj(st, l, v.loc, t0)
            return Ref(l, t0)
        vs = [I.val(st, a) for a in args]
        return B(('cmp', op) + tuple(vs))
    if op == '=':
        l = I.loc(st, args[0])
        v = I.val(st, args[1])
        if isinstance(v, Ref):
            I.copy_obj(st, l, v.loc, t0)
        return Ref(l, t0)
    if op == '!' or op == 'bool':
        l = I.loc(st, args[0])
        return stream_state(I, op, l)
    vs = [I.val(st, a) for a in args]
    return I.ret_opaque(st, e, ('stdop', op) + tuple(vs) + (I.nuid(),))


def eigen_like(I, st, e, args):
    vs = [I.val(st, a) for a in args]
    return I.ret_opaque(st, e, ('eigen', e.get('op')) + tuple(vs))


def concrete_algo(I, st, b, p, q):
    """algorithms on a range of known length with constant entries"""
    if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc and q.loc and p.loc[0] == q.loc[0] and p.loc[1] and type(p.loc[1][-1]) is tuple
            and q.loc[1] and p.loc[1][:-1] == q.loc[1][:-1] and type(q.loc[1][-1]) is tuple):
        return None
    f, n = p.loc[1][-1][1], I.num(q.loc[1][-1][1] - p.loc[1][-1][1])
    if not n.is_const() or not 0 <= n.cval() <= 400:
        return None
    n = int(n.cval())
    L = [(p.loc[0], p.loc[1][:-1] + (('i', f + k),)) for k in range(n)]
    v = [I.num(I.read(st, l, 'int')) for l in L]
    if b != 'reverse' and not all(x.is_const() for x in v):
        return None
    if b in ('max_element', 'min_element'):
        if not n:
            return None
        best = 0
        for k in range(1, n):
            if (v[k].cval() > v[best].cval()) if b == 'max_element' else (v[k].cval() < v[best].cval()):
                best = k
        return Ptr(L[best], 'int *')
    v = v[::-1] if b == 'reverse' else sorted(v, key=lambda x: x.cval())
    for l, x in zip(L, v):
        I.write(st, l, x)
    return ZERO_


def concrete_search(I, st, b, vs):
    """searches in a range of known length whose entries and key are known"""
    if len(vs) != 3 or not all(isinstance(x, Ptr) and type(x.loc) is tuple for x in vs[:2]):
        return None
    p, q = vs[:2]
    if p.loc == q.loc:
        return FALSE if b == 'binary_search' else q
    if not (p.loc[0] == q.loc[0] and p.loc[1] and type(p.loc[1][-1]) is tuple and q.loc[1] and p.loc[1][:-1] == q.loc[1][:-1] and type(q.loc[1][-1]) is tuple):
        return None
    f, n = p.loc[1][-1][1], I.num(q.loc[1][-1][1] - p.loc[1][-1][1])
    if not n.is_const() or not 0 <= n.cval() <= 400:
        return None
    n = int(n.cval())
    at = lambda k: (p.loc[0], p.loc[1][:-1] + (('i', f + k),))
    fn = I.closure_at(st, vs[2]) if b in ('find_if', 'find_if_not') else None
    if b in ('find_if', 'find_if_not'):
        if fn is None:
            return None
        q0 = I.closures[fn.k][0]['params'][0]['t']
        for k in range(n):
            a = ('lref', at(k)) if is_ref(q0) else I.read(st, at(k), strip_cv(q0)) if I.scalar_t(q0) else Ref(at(k), strip_cv(q0))
            v = bool_of(I.call_closure(st, fn, None, dict(t='bool', l=0), [a]))
            v = neg(v) if b == 'find_if_not' else v
            if v not in (TRUE, FALSE):
                return None
            if v == TRUE:
                return Ptr(at(k), 'int *')
        return q
    key = vs[2]
    if isinstance(key, Ref):
        key = I.read(st, key.loc, 'int')
    if isinstance(key, (Str, Opq, Ptr, Ite)):
        return None
    key = I.num(key)
    lo, hi = 0, n
    if b == 'find':
        for k in range(n):
            c = eq(I.num(I.read(st, at(k), 'int')) - key)
            if c not in (TRUE, FALSE):
                return None
            if c == TRUE:
                return Ptr(at(k), 'int *')
        return q
    while lo < hi:
        m = (lo + hi) // 2
        v = I.num(I.read(st, at(m), 'int'))
        c = lt(v - key, True) if b != 'upper_bound' else neg(lt(key - v, True))
        if c not in (TRUE, FALSE):
            return None
        if c == TRUE:
            lo = m + 1
        else:
            hi = m
    if b == 'binary_search':
        return eq(I.num(I.read(st, at(lo), 'int')) - key) if lo < n else FALSE
    return Ptr(at(lo), 'int *')


FUNCTORS = {'std::plus': lambda a, b: a + b, 'std::minus': lambda a, b: a - b, 'std::multiplies': lambda a, b: a * b, 'std::divides': lambda a, b: a * inv(b)}


def looped_algo(I, st, e, b, vs):
    """algorithms that are a plain loop over [first, last): interpreted as that loop"""
    if b not in ('for_each', 'accumulate', 'inner_product', 'transform', 'any_of', 'all_of', 'none_of', 'count_if', 'iota', 'count') or len(vs) < 3:
        return None
    vs = [Ptr(with_idx(p.loc), p.t) if isinstance(p, Ptr) and type(p.loc) is tuple else p for p in vs]
    if any(not isinstance(p, Ptr) or type(p.loc) is not tuple or not p.loc[1] or not isinstance(p.loc[1][-1], tuple) for p in vs[:2]):
        return None
    if vs[0].loc[0] != vs[1].loc[0] or vs[0].loc[1][:-1] != vs[1].loc[1][:-1]:
        return None
    first, last = vs[0], vs[1]
    n = last.loc[1][-1][1] - first.loc[1][-1][1]
    f = I.closure_at(st, vs[-1])
    binop = FUNCTORS.get(re.sub(r'<.*', '', strip_cv(strip_ref(e['c'][-1]['t'])))) if f is None else None
    two = b == 'transform' and len(vs) == 5
    if two and not (isinstance(vs[2], Ptr) and type(vs[2].loc) is tuple):
        return None
    need = {'for_each': 3, 'any_of': 3, 'all_of': 3, 'none_of': 3, 'count_if': 3, 'transform': 5 if two else 4}.get(b)
    if need is not None and (f is None and not (two and binop) or len(vs) != need) or b == 'accumulate' and len(vs) == 4 and f is None and binop is None or b == 'inner_product' and len(vs) != 4:
        return None
    fr = I.frames[-1]
    cnt = (('L', fr.uid, 'alg', id(e)), ())
    acc = (('L', fr.uid, 'algacc', id(e)), ())
    et = strip_cv(e['t'])
    I.write(st, cnt, ZERO_)
    at = lambda p, i: (p.loc[0], p.loc[1][:-1] + (('i', p.loc[1][-1][1] + i),))

    def elem(x, p, i):
        return ('lref', at(p, i))

    def call(x, vals, t):
        node, _, _ = I.closures[f.k]
        out = []
        for v, q in zip(vals, node['params']):
            if isinstance(v, tuple) and not is_ref(q['t']):
                v = I.read(x, v[1], strip_cv(q['t'])) if I.scalar_t(q['t']) else Ref(v[1], strip_cv(q['t']))
            out.append(v)
        return I.call_closure(x, f, None, dict(t=t, l=e.get('l')), out)

    def rd(x, p, i):
        return I.num(I.read(x, at(p, i), et if I.scalar_t(et) else 'double'))
    if b == 'accumulate' or b == 'inner_product':
        if not I.scalar_t(et):
            return None
        I.write(st, acc, I.conv(vs[2] if b == 'accumulate' else vs[3], et))
    elif b in ('any_of', 'all_of', 'none_of'):
        I.write(st, acc, FALSE if b != 'all_of' else TRUE)
    elif b in ('count_if', 'count'):
        I.write(st, acc, ZERO_)
    elif b == 'iota':
        I.write(st, acc, vs[2])

    def body(x):
        i = I.num(I.read(x, cnt, 'int'))
        if b == 'for_each':
            call(x, [elem(x, first, i)], 'void')
        elif b == 'accumulate':
            a = I.num(I.read(x, acc, et))
            v = call(x, [a, elem(x, first, i)], et) if f is not None else (binop or FUNCTORS['std::plus'])(a, rd(x, first, i))
            I.write(x, acc, I.conv(v, et))
        elif b == 'inner_product':
            I.write(x, acc, I.conv(I.num(I.read(x, acc, et)) + rd(x, first, i) * rd(x, vs[2], i), et))
        elif two:
            out = at(vs[3], i)
            if f is None:
                I.store_to(x, out, binop(I.num(I.read(x, at(first, i), 'double')), I.num(I.read(x, at(vs[2], i), 'double'))))
            else:
                I.store_to(x, out, call(x, [elem(x, first, i), elem(x, vs[2], i)], I.closures[f.k][0].get('rt', 'double')))
        elif b == 'transform':
            I.store_to(x, at(vs[2], i), call(x, [elem(x, first, i)], I.closures[f.k][0].get('rt', 'double')))
        elif b in ('any_of', 'all_of', 'none_of'):
            v = bool_of(call(x, [elem(x, first, i)], 'bool'))
            old = bool_of(I.read(x, acc, 'bool'))
            I.write(x, acc, conj([old, v]) if b == 'all_of' else disj([old, v]))
        elif b == 'count_if':
            v = bool_of(call(x, [elem(x, first, i)], 'bool'))
            I.write(x, acc, I.num(I.read(x, acc, 'int')) + mk_ite(v, Poly.const(1), ZERO_))
        elif b == 'count':
            I.write(x, acc, I.num(I.read(x, acc, 'int')) + mk_ite(eq(rd(x, first, i) - I.num(vs[2])), Poly.const(1), ZERO_))
        elif b == 'iota':
            a = I.num(I.read(x, acc, 'int'))
            I.store_to(x, at(first, i), a)
            I.write(x, acc, a + 1)
        return {'next': x} if not x.dead else {}

    def inc(x):
        I.write(x, cnt, I.num(I.read(x, cnt, 'int')) + 1)
    fl = I.loop(st, lambda x: lt(I.num(I.read(x, cnt, 'int')) - n, True), body, inc, e)
    end = fl.get('next') if fl else None
    if end is None:
        st.dead = True
        return ZERO_
    if end is not st:
        st.become(end)
    if b in ('for_each', 'iota'):
        return ZERO_
    if b == 'transform':
        return Ptr(at(vs[3 if two else 2], n), vs[2].t if hasattr(vs[2], 't') else 'int *')
    r = I.read(st, acc, et)
    return neg(bool_of(r)) if b == 'none_of' else r


def std_algo(I, st, e, n, args):
    if base_name(n) == 'make_pair' and len(args) == 2:
        o = I.fresh_obj('tmp', e)
        t = strip_cv(e['t'])
        ts = pair_types(t) if t.startswith('std::pair<') else None
        if ts and len(ts) >= 2:
            for nme, a, tt in zip(('first', 'second'), args, ts):
                I.init_into(st, (o, (nme,)), tt, a)
            return Ref((o, ()), t)
    vs = [I.val(st, a) for a in args]
    b = base_name(n)
    r = looped_algo(I, st, e, b, vs)
    if r is not None:
        return r
    if b in ('lower_bound', 'upper_bound', 'binary_search', 'find', 'find_if', 'find_if_not'):
        r = concrete_search(I, st, b, vs)
        if r is not None:
            return r
    I.event(st, 'algo:' + n, vs, node=e)
    if len(vs) == 2 and b in ('sort', 'stable_sort', 'reverse', 'max_element', 'min_element'):
        r = concrete_algo(I, st, b, vs[0], vs[1])
        if r is not None:
            return r
    if b in ('sort', 'stable_sort', 'reverse', 'unique'):
        p = vs[0]
        if isinstance(p, Ptr) and p.loc:
            obj, path = p.loc
            sh, ix = split_path(path)
            l = st.log_for_write(obj, sh)
            l.ents.append(Entry('havoc', (), ('sorted', I.nuid())))
        return ZERO_ if e['t'] == 'void' else I.ret_opaque(st, e, I.fresh('algo', n))
    if b in ('find', 'lower_bound', 'upper_bound', 'max_element', 'min_element'):
        p = vs[0]
        if isinstance(p, Ptr) and p.loc and p.loc[1] and isinstance(p.loc[1][-1], tuple):
            return Ptr((p.loc[0], p.loc[1][:-1] + (('i', Poly.atom(('algo', b) + tuple(vs))),)), 'int *')
    if n not in PURE and b not in READONLY:
        written(I, st, args, vs)
    return I.ret_opaque(st, e, ('algo', n) + tuple(vs) + ((I.nuid(),) if n not in PURE else ()))
