"""Contracts of everything outside the analysed sources: harness intrinsics, libm, allocation, exceptions, strings."""
import re
from fractions import Fraction
import terms as TM
from terms import *
import logic as L
import engine as EN
from engine import Ptr, NULL, Unsupported, Infeasible, Throw, Cases, CALLPUSHED, Packed
import icomp

PI = rvar('pi')


def cstr(E, st, p):
    """concrete C string at p"""
    out = []
    o = E.obj(st, p.o)
    off = p.off
    while True:
        e = o.d.get(off)
        if e is None:
            v = E.load_scalar(st, p.o, off, 1, 'i')
        else:
            v = e[1]
        if type(v) is not int:
            raise Unsupported('symbolic C string')
        if v == 0:
            return ''.join(out)
        out.append(chr(v & 255))
        off += 1


def inp(E, name, t):
    E.inputs[name] = t
    return t


# ------------------------------------------------------------------ harness intrinsics
def i_real(E, st, a):
    n = cstr(E, st, a[0])
    return inp(E, n, rvar(n))


def i_real_any(E, st, a):
    n = cstr(E, st, a[0])
    icomp.NONFIN.add(n)
    return inp(E, n, rvar(n))


def idxname(n, idx):
    return n + ''.join('[%s]' % i for i in idx)


def i_real_i(E, st, a):
    n = cstr(E, st, a[0])
    idx = [icomp.toint(x) for x in a[1:]]
    if all(type(i) is int for i in idx):
        nm = idxname(n, idx)
        inp(E, nm, ruf(n, idx))
    else:
        E.families.setdefault(n, []).append((tuple(idx), 'R'))
    return ruf(n, idx)


def i_real_any_i(E, st, a):
    n = cstr(E, st, a[0])
    icomp.NONFIN.add(n)
    return i_real_i(E, st, a)


def i_int(E, st, a):
    n = cstr(E, st, a[0])
    lo, hi = a[1], a[2]
    v = ivar(n, lo if type(lo) is int else None, hi if type(hi) is int else None)
    if type(lo) is not int:
        st.pc.append(ile(lo, v))
    if type(hi) is not int:
        st.pc.append(ile(v, hi))
    if type(lo) is int and lo == hi:
        return lo
    return inp(E, n, v)


def i_increasing(E, st, a):
    """vp_increasing(name, i, lo, hi): a strictly increasing function of i"""
    L.INCREASING.add(cstr(E, st, a[0]))
    return i_int_i(E, st, a)


def i_int_i(E, st, a):
    n = cstr(E, st, a[0])
    i, lo, hi = icomp.toint(a[1]), a[2], a[3]
    v = iuf(n, (i,), lo if type(lo) is int else None, hi if type(hi) is int else None)
    t = TM.as_single_atom(v)
    fs = []
    if type(lo) is not int:
        fs.append(('lo', lo))
    if type(hi) is not int:
        fs.append(('hi', hi))
    if fs and n not in L.uf_fact_gen:
        L.uf_fact_gen[n] = lambda t, fs=fs: [ile(b, iatom(t)) if k == 'lo' else ile(iatom(t), b) for k, b in fs]
    if type(i) is int:
        inp(E, idxname(n, [i]), v)
    else:
        E.families.setdefault(n, []).append(((i,), 'I'))
    return v


def i_bool(E, st, a):
    n = cstr(E, st, a[0])
    return inp(E, n, bvar(n))


def i_bool_i(E, st, a):
    n = cstr(E, st, a[0])
    idx = [icomp.toint(x) for x in a[1:]]
    v = TM.buf(n, idx)
    if all(type(i) is int for i in idx):
        inp(E, idxname(n, idx), v)
    return v


def i_len(E, st, a):
    n = cstr(E, st, a[0])
    lo, hi = a[1], a[2]
    if E.mode == 'bounded':
        v = E.lens.get(n)
        if v is None:
            v = lo
        v = max(v, lo)
        E.lens_used[n] = v
        E.len_bounds[n] = (lo, hi)
        E.inputs[n] = v
        return v
    E.len_bounds[n] = (lo, hi)
    # hi only bounds native sampling; in the proof a length is any number that fits an int
    return inp(E, n, ivar(n, lo, 2**31 - 1))


def i_any_index(E, st, a):
    n = cstr(E, st, a[0])
    hi = a[1]
    v = ivar(n, 0, None)
    c = ilt(v, hi)
    if c is False:
        raise Infeasible()
    st.pc.append(c)
    if type(hi) is int and hi == 1:
        return 0
    st.idx.append(v)
    return inp(E, n, v)


def i_assume(E, st, a):
    c = icomp.TB(a[0])
    if c is False:
        raise Infeasible()
    if c is True:
        return
    if not L.feasible(st.pc, c):
        raise Infeasible()
    st.pc.append(c)


def i_ensure(E, st, a):
    E.oblige(st, cstr(E, st, a[1]), icomp.TB(a[0]))
    if a[0] is False:
        raise Infeasible()


def i_eq(E, st, a):
    E.oblige_eq(st, cstr(E, st, a[-1]), a[0], a[1])


def i_ieq(E, st, a):
    E.oblige_eq(st, cstr(E, st, a[-1]), icomp.toint(a[0]), icomp.toint(a[1]))


def i_cover(E, st, a):
    if not E.pilot:
        E.covers.add(cstr(E, st, a[0]))


def i_unit4(E, st, a):
    """four reals with unit Euclidean norm written to a[1]"""
    n = cstr(E, st, a[0])
    vs = [inp(E, '%s.%s' % (n, c), rvar('%s.%s' % (n, c))) for c in 'xyzw']
    x, y, z, w = vs
    L.declare_square(w, rsub(rsub(rsub(ONE, rmul(x, x)), rmul(y, y)), rmul(z, z)))
    L.var_facts.setdefault(w.id, [req(radd(radd(rmul(x, x), rmul(y, y)), radd(rmul(z, z), rmul(w, w))), ONE)])
    for i, v in enumerate(vs):
        E.store_scalar(st, a[1].o, iadd(a[1].off, 8 * i), 8, v)


def i_unit3(E, st, a):
    n = cstr(E, st, a[0])
    vs = [inp(E, '%s.%s' % (n, c), rvar('%s.%s' % (n, c))) for c in 'xyz']
    x, y, z = vs
    L.declare_square(z, rsub(rsub(ONE, rmul(x, x)), rmul(y, y)))
    L.var_facts.setdefault(z.id, [req(radd(radd(rmul(x, x), rmul(y, y)), rmul(z, z)), ONE)])
    for i, v in enumerate(vs):
        E.store_scalar(st, a[1].o, iadd(a[1].off, 8 * i), 8, v)


def pixel(E, name, i, j):
    v = iuf('img_' + name, (i, j), 0, 255)
    if type(i) is int and type(j) is int:
        inp(E, idxname(name, [i, j]), v)
    return v


def i_pixel(E, st, a):
    return pixel(E, cstr(E, st, a[0]), icomp.toint(a[1]), icomp.toint(a[2]))


def i_image_data(E, st, a):
    """vp_image_data(name, rows, cols, step): storage of an image; pixel (r, c) is at r * step + c"""
    n = cstr(E, st, a[0])
    o = E.new_obj(st, None, 'heap', 'img_' + n)
    o.img = (n, a[1], a[2], a[3], None)
    return Ptr(o.id, 0)


def i_note(E, st, a):
    t = cstr(E, st, a[0])
    if t == 'loops over symbolic lengths are always summarised':
        E.eager = True       # also where a path condition happens to fix the length
    else:
        E.assumptions.add(t)


def i_finite(E, st, a):
    return icomp.is_finite(a[0])


def i_print(E, st, a):
    print('   vp_print', cstr(E, st, a[0]), a[1])


def i_same(E, st, a):
    """same real / bit pattern: used for 'left untouched' on possibly non-finite values"""
    E.oblige_eq(st, cstr(E, st, a[-1]), a[0], a[1])


def i_opaque(E, st, a):
    """vp_fn1(name, x): an arbitrary (uninterpreted) real function"""
    n = cstr(E, st, a[0])
    return ruf(n, tuple(a[1:]))


def i_map(E, st, a):
    """vp_map(name, in, n, out, m): m arbitrary functions of n reals"""
    n = cstr(E, st, a[0])
    args = tuple(E.load_scalar(st, a[1].o, iadd(a[1].off, 8 * i), 8, 'f') for i in range(a[2]))
    for j in range(a[4]):
        E.store_scalar(st, a[3].o, iadd(a[3].off, 8 * j), 8, ruf('%s_%d' % (n, j), args))


def i_ifn3(E, st, a):
    """vp_ifn3(name, x, y, z, lo, hi): an arbitrary function of three reals with integer values in [lo, hi]"""
    n = cstr(E, st, a[0])
    lo, hi = a[4], a[5]
    v = iuf(n, tuple(a[1:4]), lo if type(lo) is int else None, hi if type(hi) is int else None)
    fs = [(k, b) for k, b in (('lo', lo), ('hi', hi)) if type(b) is not int]
    if fs and n not in L.uf_fact_gen:
        L.uf_fact_gen[n] = lambda t, fs=fs: [ile(b, iatom(t)) if k == 'lo' else ile(iatom(t), b) for k, b in fs]
    return v


# ------------------------------------------------------------------ libm
def m_sqrt(E, st, a):
    return rsqrt(a[0])


def m_fn(name):
    def f(E, st, a):
        x = a[0]
        if isinstance(x, Fraction) and x == 0:
            if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh'):
                return ZERO
            if name in ('cos', 'cosh', 'exp'):
                return ONE
        if isinstance(x, Fraction) and x == 1 and name in ('acos', 'log'):
            return ZERO
        if isinstance(x, T) and x.op == 'neg':
            if name in ('sin', 'tan', 'asin', 'atan'):
                return rneg(f(E, st, [x.args[0]]))
            if name == 'cos':
                return f(E, st, [x.args[0]])
        return ruf(name, (x,))
    return f


def m_atan2(E, st, a):
    y, x = a
    if isinstance(y, Fraction) and y == 0 and isinstance(x, Fraction) and x > 0:
        return ZERO
    return ruf('atan2', (y, x))


def m_pow(E, st, a):
    x, y = a
    if isinstance(y, Fraction) and y.denominator == 1 and 0 <= y <= 8:
        r = ONE
        for _ in range(int(y)):
            r = rmul(r, x)
        return r
    if isinstance(y, Fraction) and y == Fraction(1, 2):
        return rsqrt(x)
    return ruf('pow', (x, y))


def m_powi(E, st, a):
    return m_pow(E, st, [a[0], Fraction(a[1])])


def m_fabs(E, st, a):
    return rabs(a[0])


def m_floor(E, st, a):
    return i2r(rfloor(a[0]))


def m_ceil(E, st, a):
    return i2r(isub(0, rfloor(rneg(a[0]))))


def m_fma(E, st, a):
    return radd(rmul(a[0], a[1]), a[2])


def m_fmin(E, st, a):
    return rite(rlt(a[0], a[1]), a[0], a[1])


def m_fmax(E, st, a):
    return rite(rlt(a[0], a[1]), a[1], a[0])


def m_copysign(E, st, a):
    return rite(rlt(a[1], ZERO), rneg(rabs(a[0])), rabs(a[0]))


def m_round(E, st, a):
    x = a[0]
    return i2r(iite(rle(ZERO, x), rfloor(radd(x, Fraction(1, 2))), isub(0, rfloor(rsub(Fraction(1, 2), x)))))


def m_lround(E, st, a):
    x = m_round(E, st, a)
    return int(x) if isinstance(x, Fraction) else x.args[0]


def m_hypot(E, st, a):
    return rsqrt(radd(rmul(a[0], a[0]), rmul(a[1], a[1])))


def m_fpclass(E, st, a):
    x, mask = a
    r = []
    f = icomp.is_finite(x)
    n = icomp.is_nan(x)
    out = False
    if mask & 0x3:
        out = bor(out, n)
    if mask & 0x204:
        out = bor(out, band(bnot(f), bnot(n)))
    if mask & 0x1f8:
        if mask & 0x1f8 == 0x1f8:
            out = bor(out, f)
        else:
            raise Unsupported('fpclass')
    return out


# ------------------------------------------------------------------ memory intrinsics
def b_memcpy(E, st, a):
    E.memcpy(st, a[0], a[1], a[2])
    return a[0]


def b_memset(E, st, a):
    p, v, n = a[0], a[1], a[2]
    if type(n) is not int:
        return sym_memset(E, st, p, v, n)
    if n == 0:
        return p
    if type(v) is not int:
        raise Unsupported('memset symbolic value')
    o = E.wobj(st, p.o)
    if o.arr is not None or o.seq is not None or type(p.off) is not int:
        raise Unsupported('memset into array')
    for x in [x for x, (sz, _) in o.d.items() if x >= p.off and x + sz <= p.off + n]:
        del o.d[x]
    off, end = p.off, p.off + n
    w = int.from_bytes(bytes([v & 255]) * 8, 'little', signed=True)
    w4 = int.from_bytes(bytes([v & 255]) * 4, 'little', signed=True)
    while off < end:
        if end - off >= 8 and off % 8 == 0:
            E.put(o, off, 8, w)
            off += 8
        elif end - off >= 4 and off % 4 == 0:
            E.put(o, off, 4, w4)
            off += 4
        else:
            E.put(o, off, 1, icomp.wrap(v, 8))
            off += 1
    return p


def sym_memset(E, st, p, v, n):
    raise Unsupported('memset of symbolic length')


def b_memcmp(E, st, a):
    p, q, n = a
    if type(n) is int:
        for i in range(n):
            x = E.load_scalar(st, p.o, p.off + i, 1, 'i')
            y = E.load_scalar(st, q.o, q.off + i, 1, 'i')
            if type(x) is not int or type(y) is not int:
                raise Unsupported('memcmp of symbolic bytes')
            if x != y:
                return 1 if (x & 255) > (y & 255) else -1
        return 0
    raise Unsupported('memcmp')


def b_strlen(E, st, a):
    return len(cstr(E, st, a[0]))


def b_new(E, st, a):
    n = a[0]
    o = E.new_obj(st, n if type(n) is int else n, 'heap', 'heap')
    return Ptr(o.id, 0)


def b_delete(E, st, a):
    p = a[0]
    if isinstance(p, Ptr) and p.o is not None and not isinstance(p.o, str):
        if p.o not in st.mem:
            E.oblige(st, 'safety/double-free', False)
            raise Infeasible()
        st.mem.pop(p.o, None)
    return None


def b_nop(E, st, a):
    return None


def b_posix_memalign(E, st, a):
    o = E.new_obj(st, a[2], 'heap', 'heap')
    E.store_scalar(st, a[0].o, a[0].off, 8, Ptr(o.id, 0))
    return 0


def b_aligned_alloc(E, st, a):
    return b_new(E, st, [a[1]])


def b_trap(E, st, a):
    E.oblige(st, 'safety/abort-reached', False)
    raise Infeasible()


def b_eh_typeid(E, st, a):
    return E.typeid(a[0].o[1:])


def b_objectsize(E, st, a):
    return -1


def b_expect(E, st, a):
    return a[0]


def b_is_constant(E, st, a):
    return False


def ovf(op):
    def f(E, st, a):
        r = {'a': icomp.ADD, 's': icomp.SUB, 'm': icomp.MUL}[op](a[0], a[1], 128)
        bad = False
        if type(r) is int:
            bad = not (0 <= r < 2**64)
            r = icomp.wrap(r, 64)
        return (r, bad)
    return f


def b_abs(E, st, a):
    x = icomp.toint(a[0])
    if type(x) is int:
        return abs(x)
    return iite(ile(0, x), x, isub(0, x))


def b_max(sign):
    def f(E, st, a):
        x, y = icomp.toint(a[0]), icomp.toint(a[1])
        return iite(ile(x, y), y, x) if sign > 0 else iite(ile(x, y), x, y)
    return f


# std::max / std::min on references: result is a reference to a fresh cell holding the selected value
def h_minmax(sign):
    def f(E, st, fn, a):
        if len(a) != 2 or not isinstance(a[0], Ptr) or not isinstance(a[1], Ptr):
            return NotImplemented
        # only the two-argument scalar form
        m = re.match(r'^(?:.*? )?(?:const )?&? ?(?:const& )?std::(?:max|min)<([^<>]+)>\(', fn.dem)
        ty = m.group(1) if m else None
        scal = {'double': (8, 'f'), 'float': (4, 'f'), 'int': (4, 'i'), 'long': (8, 'i'), 'unsigned long': (8, 'u'),
                'unsigned int': (4, 'u')}.get(ty)
        if scal is None:
            return NotImplemented
        sz, k = scal
        x = E.load_scalar(st, a[0].o, a[0].off, sz, 'f' if k == 'f' else 'i')
        y = E.load_scalar(st, a[1].o, a[1].off, sz, 'f' if k == 'f' else 'i')
        if k == 'f':
            c = rlt(x, y) if sign > 0 else rlt(y, x)
        else:
            vx, vy = (icomp.uview(x, sz * 8), icomp.uview(y, sz * 8)) if k == 'u' else (icomp.sview(x, sz * 8), icomp.sview(y, sz * 8))
            c = ilt(vx, vy) if sign > 0 else ilt(vy, vx)
        if isinstance(c, bool):
            return a[1] if c else a[0]
        o = E.new_obj(st, sz, 'tmp', 'minmax')
        E.put(o, 0, sz, ite(c, y, x))
        return Ptr(o.id, 0)
    return f


# ------------------------------------------------------------------ exceptions
STD_EXC = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
}


def catches(E, name, ti):
    if name == ti:
        return True
    seen = set()
    work = [ti]
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t == name:
            return True
        work += STD_EXC.get(t, [])
        g = E.m.globals.get(t)
        if g is not None and g['init'] is not None:
            def walk(c):
                if isinstance(c, list):
                    if c and c[0] == 'g' and isinstance(c[1], str) and c[1].startswith('_ZTI'):
                        work.append(c[1])
                    for x in c:
                        walk(x)
            walk(g['init'])
    return False


def h_cxa_alloc(E, st, fn, a):
    o = E.new_obj(st, a[0], 'heap', 'exception')
    return Ptr(o.id, 0)


def h_cxa_throw(E, st, fn, a):
    return Throw(a[1].o[1:], a[0])


def h_begin_catch(E, st, fn, a):
    th = st.throws
    return th.ptr if th is not None else NULL


def h_nop(E, st, fn, a):
    return None


def h_rethrow(E, st, fn, a):
    return st.throws


def h_ret0(E, st, fn, a):
    return a[0] if a else None


def h_throw(ti):
    def f(E, st, fn, a):
        return Throw(ti)
    return f


# ------------------------------------------------------------------ std::string (opaque value: an identity kept in the object's first word)
STRIDS = {'': 1}
STRVALS = {1: ''}


def sget(E, st, p):
    try:
        v = E.load_scalar(st, p.o, p.off, 8, 'i')
    except EN.Unsupported:
        raise Unsupported('string value unknown')
    if type(v) is int:
        if v not in STRVALS:
            raise Unsupported('string value unknown')
        return STRVALS[v]
    if isreal(v) or not isinstance(v, (T, IP)):
        raise Unsupported('string value unknown')
    return ('id', v)


def sset(E, st, p, v):
    E.store_scalar(st, p.o, p.off, 8, strid(v))


def strid(v):
    """integer identity of a string value"""
    if isinstance(v, str):
        if v not in STRIDS:
            STRIDS[v] = len(STRIDS) + 1
            STRVALS[STRIDS[v]] = v
        return STRIDS[v]
    return v[1]


def h_str_ctor(E, st, fn, a):
    d = fn.dem
    this = a[0]
    if len(a) == 1:
        sset(E, st, this, '')
        return None
    p = a[1]
    if 'basic_string(char const*' in d or 'basic_string<std::allocator<char>>(char const*' in d or \
            'basic_string<std::allocator<char> >(char const*' in d:
        if p.o is None:
            return Throw('_ZTISt11logic_error')
        if 'unsigned long' in d.split('(', 1)[1]:
            raise Unsupported(d)
        sset(E, st, this, cstr(E, st, p))
        return None
    if 'basic_string const&)' in d or '> > const&)' in d or '>> const&)' in d or '&&)' in d or 'char>>&&' in d or \
            re.search(r'basic_string\(std::__cxx11::basic_string<.*>(&&| const&)\)', d):
        v = sget(E, st, p)
        sset(E, st, this, v)
        return None
    if len(a) == 2 and 'allocator' in d:
        sset(E, st, this, '')
        return None
    raise Unsupported(d)


def h_str_dtor(E, st, fn, a):
    return None


def h_str_assign(E, st, fn, a):
    if 'char const*' in fn.dem.split('operator=')[-1].split('assign')[-1]:
        sset(E, st, a[0], cstr(E, st, a[1]))
    else:
        sset(E, st, a[0], sget(E, st, a[1]))
    return a[0]


def h_str_compare(E, st, fn, a):
    if len(a) != 2:
        raise Unsupported(fn.dem)
    x = sget(E, st, a[0])
    if 'char const*' in fn.dem.split('compare')[-1]:
        y = cstr(E, st, a[1])
    else:
        y = sget(E, st, a[1])
    i, j = strid(x), strid(y)
    c = ieq(i, j)
    if isinstance(c, bool):
        return 0 if c else 1
    return iite(c, 0, 1)


def h_str_eq(E, st, fn, a):
    sig = fn.dem
    x = sget(E, st, a[0])
    tail = sig[sig.rindex('('):]
    if 'char const*' in sig.split('(')[-1]:
        y = cstr(E, st, a[1])
    else:
        y = sget(E, st, a[1])
    c = ieq(strid(x), strid(y))
    if 'operator!=' in sig:
        return bnot(c)
    return c


def h_str_concat(E, st, fn, a):
    # sret result
    sig = fn.dem.split('(', 1)[1]
    try:
        parts = []
        for p, ty in zip(a[1:], split_params(sig)):
            if ty.startswith('char const*'):
                parts.append(cstr(E, st, p))
            elif ty == 'char':
                parts.append(chr(p))
            else:
                parts.append(sget(E, st, p))
        if all(isinstance(x, str) for x in parts):
            sset(E, st, a[0], ''.join(parts))
            return None
    except Unsupported:
        pass
    sset(E, st, a[0], ('opaque', iuf('strcat', (st.nobj,))))
    return None


def split_params(sig):
    out, depth, cur = [], 0, ''
    for c in sig:
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
            if depth < 0:
                break
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def h_str_append(E, st, fn, a):
    sset(E, st, a[0], ('opaque', iuf('strcat', (st.nobj,))))
    st.nobj += 1
    return a[0]


def h_str_to_string(E, st, fn, a):
    sset(E, st, a[0], ('opaque', iuf('to_string', (icomp.toint(a[1]) if not isreal(a[1]) else a[1],))))
    return None


def i_enum(E, st, a):
    """vp_enum(name, lo, hi): an integer in [lo, hi], one path per value"""
    v = i_int(E, st, a)
    if type(v) is int:
        return v
    return Cases([(ieq(v, k), k) for k in range(a[1], a[2] + 1)])


def i_string(E, st, a):
    """vp_string(name, std::string*)"""
    n = cstr(E, st, a[0])
    sset(E, st, a[1], ('sym', inp(E, n, ivar('str:' + n, 1, None))))


def h_str_cstr(E, st, fn, a):
    v = sget(E, st, a[0])
    if not isinstance(v, str):
        raise Unsupported('c_str of symbolic string')
    o = E.new_obj(st, len(v) + 1, 'tmp', 'cstr')
    for i, c in enumerate(v):
        E.put(o, i, 1, ord(c))
    E.put(o, len(v), 1, 0)
    return Ptr(o.id, 0)


def h_str_size(E, st, fn, a):
    v = sget(E, st, a[0])
    if isinstance(v, str):
        return len(v)
    return iuf('strlen', (v[1],), 0, None)


def h_str_empty(E, st, fn, a):
    v = sget(E, st, a[0])
    if isinstance(v, str):
        return not v
    return ieq(v[1], strid(''))


def h_ostream(E, st, fn, a):
    return a[0]


def install(E):
    E.families = {}
    E.lens_used = {}
    E.len_bounds = {}
    E.layouts = {}
    E.inline = {}
    E.inline_prefix = []
    I = E.inline
    I.update({
        'vp_real_near': i_real, 'vp_real_near_i': lambda E, st, a: i_real_i(E, st, a[:2]), 'vp_real_near_ij': lambda E, st, a: i_real_i(E, st, a[:3]),
        'vp_real': i_real, 'vp_realf': i_real, 'vp_real_any': i_real_any, 'vp_real_i': i_real_i, 'vp_realf_i': i_real_i,
        'vp_real_any_i': i_real_any_i, 'vp_real_ij': i_real_i, 'vp_int': i_int, 'vp_int_i': i_int_i, 'vp_increasing': i_increasing, 'vp_bool': i_bool,
        'vp_bool_i': i_bool_i, 'vp_len': i_len, 'vp_any_index': i_any_index, 'vp_assume': i_assume,
        'vp_ensure': i_ensure, 'vp_eq': i_eq, 'vp_eqf': i_eq, 'vp_ieq': i_ieq, 'vp_cover': i_cover,
        'vp_unit4': i_unit4, 'vp_unit3': i_unit3, 'vp_note': i_note, 'vp_finite': i_finite, 'vp_print': i_print,
        'vp_same': i_same, 'vp_pixel': i_pixel, 'vp_image_data': i_image_data, 'vp_fn1': i_opaque, 'vp_fn2': i_opaque, 'vp_fn3': i_opaque, 'vp_fn4': i_opaque, 'vp_map': i_map, 'vp_ifn3': i_ifn3, 'vp_native': lambda E, st, a: 0, 'vp_string_impl': i_string,
    })
    for sfx in ('', 'f'):
        I['sqrt' + sfx] = m_sqrt
        for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'cbrt',
                  'exp2', 'log1p', 'expm1'):
            I[n + sfx] = m_fn(n)
        I['atan2' + sfx] = m_atan2
        I['pow' + sfx] = m_pow
        I['fabs' + sfx] = m_fabs
        I['floor' + sfx] = m_floor
        I['ceil' + sfx] = m_ceil
        I['fmin' + sfx] = m_fmin
        I['fmax' + sfx] = m_fmax
        I['round' + sfx] = m_round
        I['hypot' + sfx] = m_hypot
        I['lround' + sfx] = m_lround
    I.update({
        'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset, 'memcmp': b_memcmp, 'bcmp': b_memcmp,
        'strlen': b_strlen, '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new, '_ZdlPv': b_delete, '_ZdaPv': b_delete,
        '_ZdlPvm': b_delete, '_ZdaPvm': b_delete, 'free': b_delete, 'posix_memalign': b_posix_memalign,
        'aligned_alloc': b_aligned_alloc, '_ZnwmSt11align_val_t': b_new, '_ZdlPvSt11align_val_t': b_delete,
        '_ZdlPvmSt11align_val_t': b_delete, 'abort': b_trap, '_ZSt9terminatev': b_trap, '__cxa_end_catch': b_nop,
        '__cxa_atexit': b_nop, '__cxa_free_exception': b_nop, '_ZNSt9exceptionD2Ev': b_nop, 'abs': b_abs, 'labs': b_abs,
        '__clang_call_terminate': b_trap,
    })
    E.inline_prefix += [
        ('llvm.memcpy', b_memcpy), ('llvm.memmove', b_memcpy), ('llvm.memset', b_memset), ('llvm.sqrt', m_sqrt),
        ('llvm.fabs', m_fabs), ('llvm.sin', m_fn('sin')), ('llvm.cos', m_fn('cos')), ('llvm.floor', m_floor),
        ('llvm.ceil', m_ceil), ('llvm.pow.', m_pow), ('llvm.powi', m_powi), ('llvm.fmuladd', m_fma), ('llvm.fma', m_fma),
        ('llvm.minnum', m_fmin), ('llvm.maxnum', m_fmax), ('llvm.is.fpclass', m_fpclass), ('llvm.copysign', m_copysign),
        ('llvm.round', m_round), ('llvm.exp', m_fn('exp')), ('llvm.log', m_fn('log')),
        ('llvm.eh.typeid.for', b_eh_typeid), ('llvm.trap', b_trap), ('llvm.objectsize', b_objectsize),
        ('llvm.expect', b_expect), ('llvm.is.constant', b_is_constant), ('llvm.umul.with.overflow', ovf('m')),
        ('llvm.uadd.with.overflow', ovf('a')), ('llvm.abs', b_abs), ('llvm.smax', b_max(1)), ('llvm.umax', b_max(1)),
        ('llvm.smin', b_max(-1)), ('llvm.umin', b_max(-1)), ('llvm.stacksave', b_nop),
    ]
    H = E.handlers
    H['vp_enum'] = lambda E, st, fn, a: i_enum(E, st, a)
    # invoke forms of the inline ones
    for k, f in list(I.items()):
        H[k] = (lambda E, st, fn, a, f=f: f(E, st, a))
    H.update({
        '__cxa_allocate_exception': h_cxa_alloc, '__cxa_throw': h_cxa_throw, '__cxa_begin_catch': h_begin_catch,
        '__cxa_rethrow': h_rethrow, '__cxa_guard_acquire': lambda E, st, fn, a: guard_acquire(E, st, a),
        '__cxa_guard_release': lambda E, st, fn, a: guard_release(E, st, a),
        '_ZSt20__throw_length_errorPKc': h_throw('_ZTISt12length_error'),
        '_ZSt24__throw_out_of_range_fmtPKcz': h_throw('_ZTISt12out_of_range'),
        '_ZSt20__throw_out_of_rangePKc': h_throw('_ZTISt12out_of_range'),
        '_ZSt17__throw_bad_allocv': h_throw('_ZTISt9bad_alloc'),
        '_ZSt28__throw_bad_array_new_lengthv': h_throw('_ZTISt9bad_alloc'),
        '_ZSt25__throw_bad_function_callv': h_throw('_ZTISt17bad_function_call'),
        '_ZSt19__throw_logic_errorPKc': h_throw('_ZTISt11logic_error'),
        '_ZSt24__throw_invalid_argumentPKc': h_throw('_ZTISt16invalid_argument'),
        'n:std::max': h_minmax(1), 'n:std::min': h_minmax(-1),
    })
    for n in ('runtime_error', 'invalid_argument', 'out_of_range', 'logic_error', 'length_error', 'domain_error', 'exception'):
        H['n:std::%s::%s' % (n, n)] = h_nop
        H['n:std::%s::~%s' % (n, n)] = h_nop
    S = 'n:std::__cxx11::basic_string::'
    H[S + 'basic_string'] = h_str_ctor
    H[S + '~basic_string'] = h_str_dtor
    H[S + 'operator='] = h_str_assign
    H[S + 'assign'] = h_str_assign
    H[S + 'compare'] = h_str_compare
    H[S + 'append'] = h_str_append
    H[S + 'operator+='] = h_str_append
    H[S + 'c_str'] = h_str_cstr
    H[S + 'data'] = h_str_cstr
    H[S + 'size'] = h_str_size
    H[S + 'length'] = h_str_size
    H[S + 'empty'] = h_str_empty
    H['n:std::__cxx11::to_string'] = h_str_to_string
    H['n:std::to_string'] = h_str_to_string
    H['n:pcl::console::print'] = h_nop
    H['n:std::allocator::allocator'] = h_nop
    H['n:std::allocator::~allocator'] = h_nop
    E.handler_re += [
        (re.compile(r'bool std::operator[!=]=<char, std::char_traits<char>, std::allocator<char> ?>'), h_str_eq),
        (re.compile(r' std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>'), h_str_concat),
        (re.compile(r'Eigen::operator<<|std::basic_ostream<char|std::ostream::|std::basic_ios|std::ios_base|std::__cxx11::basic_o?stringstream'), h_ostream),
    ]
    E.handler_re.append((re.compile(r'::_Vector_impl_data::_Vector_impl_data\(\)$'), h_empty_vector))
    E.handler_re.append((re.compile(r'::stableNorm\(\) const'), h_stable_norm))
    E.handler_re.append((re.compile(r'^std::vector<(?!bool).*>::operator\[\]\(unsigned long\)( const)?$'), h_vector_index))
    B = r'std::vector<bool, std::allocator<bool>>::'
    E.handler_re += [
        (re.compile(r'_Bvector_impl_data::_Bvector_impl_data\(\)$'), h_bits_empty),
        (re.compile(r'std::_Bvector_base<std::allocator<bool>>::_M_deallocate\(\)$'), lambda E, st, fn, a: None),
        (re.compile('^' + B + r'resize\(unsigned long, bool\)$'), h_bits_resize),
        (re.compile('^' + B + r'push_back\(bool\)$'), h_bits_push),
        (re.compile('^' + B + r'reserve\(unsigned long\)$'), lambda E, st, fn, a: None),
        (re.compile('^' + B + r'operator\[\]\(unsigned long\)( const)?$'), h_bits_index),
        (re.compile('^' + B + r'(?!vector\(\)|~vector|size\(|begin\(|end\(|cbegin\(|cend\(|clear\(|_M_erase_at_end|empty\()'), h_bits_other),
        (re.compile(r'^std::_Bit_iterator_base::_M_bump_up\(\)$'), lambda E, st, fn, a: bits_move(E, st, a[0], 1)),
        (re.compile(r'^std::_Bit_iterator_base::_M_bump_down\(\)$'), lambda E, st, fn, a: bits_move(E, st, a[0], -1)),
        (re.compile(r'^std::_Bit_iterator_base::_M_incr\(long\)$'), lambda E, st, fn, a: bits_move(E, st, a[0], a[1])),
        (re.compile(r'^std::operator-\(std::_Bit_iterator_base const&, std::_Bit_iterator_base const&\)$'), h_bits_diff),
        (re.compile(r'^std::_Bit_reference::operator bool\(\) const$'), h_bit_get),
        (re.compile(r'^std::_Bit_reference::operator=\(bool\)$'), h_bit_set),
    ]
    E.catches = lambda name, ti: catches(E, name, ti)

    def typeid(name):
        if name is None:
            name = '*'
        return E.typeinfo_ids.setdefault(name, len(E.typeinfo_ids) + 1)
    E.typeid = typeid
    E.ns = icomp.namespace(E)


def elem_size(E, fn):
    """sizeof(T) of std::_Vector_base<T, A>: the divisor in its destructor"""
    cls = fn.dem[:fn.dem.rindex('::_Vector_impl_data::')]
    d = E.m.bydem.get(cls + '::~_Vector_base()')
    if d is None or d.blocks is None:
        return None
    for b in d.blocks:
        for ins in b:
            if ins[0] == 'sdiv' and isinstance(ins[4], list) and ins[4][0] == 'ci':
                return ins[4][1]
    return 1


def h_empty_vector(E, st, fn, a):
    """std::vector(): storage without a capacity limit, so push_back never has to reallocate"""
    if E.mode != 'unbounded' or 'vp_len' not in E.m.fns:
        return NotImplemented
    n = elem_size(E, fn)
    if n is None:
        return NotImplemented
    E.assumptions.add('assumed: growing a std::vector beyond its capacity keeps its elements (reallocation in libstdc++ is not executed in the unbounded proof; '
                      'pointers into a vector that grows are not tracked)')
    o = E.new_obj(st, None, 'heap', 'vec')
    o.stride = n
    o.arr = {}
    for off, p in ((0, 0), (8, 0), (16, EN.INFCAP)):
        E.store_scalar(st, a[0].o, iadd(a[0].off, off), 8, Ptr(o.id, p))
    return None


def h_vector_index(E, st, fn, a):
    """v[i]: i is inside the vector; the access itself is executed"""
    b = E.load_scalar(st, a[0].o, a[0].off, 8, 'p')
    e = E.load_scalar(st, a[0].o, iadd(a[0].off, 8), 8, 'p')
    if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.o is None or b.o != e.o:
        return NotImplemented
    s = E.obj(st, b.o).stride
    n = isub(e.off, b.off)
    if type(n) is int and type(a[1]) is int:
        return NotImplemented
    if s:
        n = TM.idivexact(n, s)
        if n is not None:
            E.oblige_safe(st, 'vector-index-in-range', band(ile(0, a[1]), ilt(a[1], n)))
    return NotImplemented


# std::vector<bool>: one byte per flag instead of one bit
def h_bits_empty(E, st, fn, a):
    E.assumptions.add('assumed: std::vector<bool> stores one flag per index (bit packing in libstdc++ is not executed)')
    o = E.new_obj(st, None, 'heap', 'flags')
    o.stride = 1
    o.arr = {}
    for off, p in ((0, 0), (16, 0), (32, EN.INFCAP)):
        E.store_scalar(st, a[0].o, iadd(a[0].off, off), 8, Ptr(o.id, p))
    for off in (8, 24):
        E.store_scalar(st, a[0].o, iadd(a[0].off, off), 4, 0)
    return None


def bits_ends(E, st, v):
    return E.load_scalar(st, v.o, v.off, 8, 'p'), E.load_scalar(st, v.o, iadd(v.off, 16), 8, 'p')


def h_bits_other(E, st, fn, a):
    raise Unsupported(fn.dem)


def h_bits_resize(E, st, fn, a):
    b, e = bits_ends(E, st, a[0])
    n, new = isub(e.off, b.off), a[1]
    if type(n) is not int or n != 0:
        raise Unsupported('resize of a std::vector<bool> that is not empty')
    val = E.to_bool(a[2])
    o = E.wobj(st, b.o)
    old = o.arr.get(0)
    prev = old[2] if old else ('base', '%s@%s.0' % (o.name, o.id))
    o.arr[0] = (1, 'b', ('comp', prev, b.off, new, 1, -1, val))
    E.store_scalar(st, a[0].o, iadd(a[0].off, 16), 8, Ptr(b.o, iadd(b.off, new)))
    return None


def h_bits_push(E, st, fn, a):
    b, e = bits_ends(E, st, a[0])
    E.store_scalar(st, e.o, e.off, 1, E.to_bool(a[1]))
    E.store_scalar(st, a[0].o, iadd(a[0].off, 16), 8, Ptr(e.o, iadd(e.off, 1)))
    return None


def h_bits_index(E, st, fn, a):
    b, e = bits_ends(E, st, a[0])
    E.oblige_safe(st, 'vector-index-in-range', band(ile(0, a[1]), ilt(a[1], isub(e.off, b.off))))
    p = Ptr(b.o, iadd(b.off, a[1]))
    if fn.dem.endswith('const'):
        return E.load_scalar(st, p.o, p.off, 1, 'b')
    return (p, 1)


def bits_move(E, st, it, n):
    p = E.load_scalar(st, it.o, it.off, 8, 'p')
    E.store_scalar(st, it.o, it.off, 8, Ptr(p.o, iadd(p.off, n)))
    return None


def h_bits_diff(E, st, fn, a):
    p, q = (E.load_scalar(st, x.o, x.off, 8, 'p') for x in a)
    if p.o != q.o:
        raise Unsupported('difference of iterators')
    return isub(p.off, q.off)


def h_bit_get(E, st, fn, a):
    p = E.load_scalar(st, a[0].o, a[0].off, 8, 'p')
    return E.load_scalar(st, p.o, p.off, 1, 'b')


def h_bit_set(E, st, fn, a):
    p = E.load_scalar(st, a[0].o, a[0].off, 8, 'p')
    E.store_scalar(st, p.o, p.off, 1, E.to_bool(a[1]))
    return a[0]


def h_stable_norm(E, st, fn, a):
    """Eigen: stableNorm() == norm() over the reals (it only rescales against overflow)"""
    alt = E.m.fns.get(fn.name.replace('10stableNorm', '4norm'))
    if alt is None or alt.decl:
        return NotImplemented
    E.assumptions.add('assumed contract: Eigen stableNorm() equals norm() over the reals')
    E.push(st, alt, a, -1, None, None, None)
    return CALLPUSHED


def guard_acquire(E, st, a):
    v = E.load_scalar(st, a[0].o, a[0].off, 1, 'i')
    return 1 if v == 0 else 0


def guard_release(E, st, a):
    E.store_scalar(st, a[0].o, a[0].off, 1, 1)
