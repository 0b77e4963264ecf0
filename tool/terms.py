"""Term language of the verifier.

Integers   : Python int, or IP   (canonical integer polynomial over atoms)
Reals      : Fraction,   or T    with sort 'R' (hash-consed DAG)
Booleans   : bool,       or T    with sort 'B'
Sequences  : T with sort 'S'
Atoms      : T with sort 'I' (integer atoms used inside IP)
Everything is hash-consed, so identity is structural equality.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

_table = {}
_next = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', '_poly', '_z3', '_fv')

    def __repr__(self):
        return show(self)


def mk(op, args, sort, lo=None, hi=None):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        if op == 'iuf' or op == 'floor':
            c = canon_args(args)      # integer-valued functions of reals: one term for arguments with one normal form
            if c is not None:
                key2 = (op, c)
                t = _table.get(key2)
                if t is None:
                    t = _table[key2] = _new(op, args, sort, lo, hi)
                _table[key] = t
                return t
        _table[key] = t = _new(op, args, sort, lo, hi)
    return t


def _new(op, args, sort, lo, hi):
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    t.id = _next[0]
    _next[0] += 1
    t.lo = lo
    t.hi = hi
    t._poly = None
    t._z3 = None
    t._fv = None
    return t


canon_key = None      # set by logic: canonical key of a real term


def canon_args(args):
    if not any(isinstance(x, T) and x.sort == 'R' for x in args):
        return None
    try:
        return tuple(canon_key(x) if isinstance(x, T) and x.sort == 'R' else x for x in args)
    except Exception:
        return None


class IP:
    """Integer polynomial: sorted tuple of (monomial, coeff); monomial = sorted tuple of atom ids (with repetition)."""
    __slots__ = ('m', 'id', 'lo', 'hi', '_z3', '_fv')

    def __repr__(self):
        return show(self)


_iptable = {}
_atoms = {}


def _ip(d):
    items = tuple(sorted((k, v) for k, v in d.items() if v != 0))
    if not items:
        return 0
    if len(items) == 1 and items[0][0] == ():
        return items[0][1]
    p = _iptable.get(items)
    if p is None:
        p = IP()
        p.m = items
        p.id = _next[0]
        _next[0] += 1
        p._z3 = None
        p._fv = None
        lo, hi = 0, 0
        for mono, c in items:
            ml, mh = 1, 1
            for a in mono:
                t = _atoms[a]
                al, ah = t.lo, t.hi
                if ml is None or mh is None or al is None or ah is None:
                    # keep sign information only
                    if (ml is not None and ml >= 0) and (al is not None and al >= 0):
                        ml, mh = (ml * al), None
                    else:
                        ml = mh = None
                else:
                    cs = (ml * al, ml * ah, mh * al, mh * ah)
                    ml, mh = min(cs), max(cs)
            if c < 0:
                ml, mh = mh, ml
            lo = None if (lo is None or ml is None) else lo + c * ml
            hi = None if (hi is None or mh is None) else hi + c * mh
        p.lo, p.hi = lo, hi
        _iptable[items] = p
    return p


def iatom(t):
    """wrap an 'I'-sorted T as an IP"""
    _atoms[t.id] = t
    return _ip({(t.id,): 1})


def ivar(name, lo=None, hi=None):
    return iatom(mk('ivar', (name,), 'I', lo, hi))


def atom_of(aid):
    return _atoms[aid]


def as_single_atom(p):
    if isinstance(p, IP) and len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1:
        return _atoms[p.m[0][0][0]]
    return None


def irange(a):
    if isinstance(a, int):
        return a, a
    return a.lo, a.hi


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        if a == 0:
            return b
        d = dict(b.m)
        d[()] = d.get((), 0) + a
        return _ip(d)
    d = dict(a.m)
    if isinstance(b, int):
        if b == 0:
            return a
        d[()] = d.get((), 0) + b
        return _ip(d)
    for k, v in b.m:
        d[k] = d.get(k, 0) + v
    return _ip(d)


def imulc(a, c):
    if isinstance(a, int):
        return a * c
    if c == 0:
        return 0
    if c == 1:
        return a
    return _ip({k: v * c for k, v in a.m})


def isub(a, b):
    return iadd(a, imulc(b, -1))


def imul(a, b):
    if isinstance(a, int):
        return imulc(b, a)
    if isinstance(b, int):
        return imulc(a, b)
    d = {}
    for k1, v1 in a.m:
        for k2, v2 in b.m:
            k = tuple(sorted(k1 + k2))
            d[k] = d.get(k, 0) + v1 * v2
    return _ip(d)


def iconst_part(p):
    if isinstance(p, int):
        return p
    for k, v in p.m:
        if k == ():
            return v
    return 0


def iite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    al, ah = irange(a)
    bl, bh = irange(b)
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)
    return iatom(mk('iite', (c, a, b), 'I', lo, hi))


def idivexact(p, c):
    """p / c if every coefficient is divisible, else None"""
    if isinstance(p, int):
        return p // c if p % c == 0 else None
    if all(v % c == 0 for _, v in p.m):
        return _ip({k: v // c for k, v in p.m})
    return None


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _divisible_part(a, b):
    """a = d + r for a >= 0 with r >= 0 and b dividing every term of d, or None"""
    if not (isinstance(a, IP) and isinstance(b, int) and b > 1):
        return None
    al, _ = irange(a)
    if al is None or al < 0:
        return None
    d, r = {}, {}
    for k, v in a.m:
        if k == ():
            if v % b:
                r[k] = v % b
            if v - v % b:
                d[k] = v - v % b
        elif v % b == 0:
            d[k] = v
        else:
            r[k] = v
    if not d:
        return None
    r = _ip(r) if r else 0
    rl, _ = irange(r)
    if rl is None or rl < 0:
        return None
    return _ip(d), r


def isdiv(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return tdiv(a, b)
    dr = _divisible_part(a, b)
    if dr is not None:
        return iadd(idivexact(dr[0], b), isdiv(dr[1], b))
    if isinstance(b, int) and b != 0:
        e = idivexact(a, b)
        if e is not None:
            return e
    al, ah = irange(a)
    lo = hi = None
    if isinstance(b, int) and b > 0 and al is not None and al >= 0:
        lo = al // b
        hi = None if ah is None else ah // b
    return iatom(mk('isdiv', (a, b), 'I', lo, hi))


def isrem(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return a - b * tdiv(a, b)
    if isinstance(b, int) and b != 0 and idivexact(a, b) is not None:
        return 0
    dr = _divisible_part(a, b)
    if dr is not None:
        return isrem(dr[1], b)
    al, ah = irange(a)
    if isinstance(b, int) and al is not None and ah is not None and al >= 0 and ah < b:
        return a
    lo = hi = None
    if isinstance(b, int) and b > 0:
        hi = b - 1
        lo = 0 if (al is not None and al >= 0) else 1 - b
    return iatom(mk('isrem', (a, b), 'I', lo, hi))


def iuf(name, args, lo=None, hi=None):
    return iatom(mk('iuf', (name,) + tuple(args), 'I', lo, hi))


# ---------------------------------------------------------------- reals

def isreal(x):
    return isinstance(x, Fraction) or (isinstance(x, T) and x.sort == 'R')


ZERO = Fraction(0)
ONE = Fraction(1)


def rvar(name):
    return mk('rvar', (name,), 'R')


def ruf(name, args):
    return mk('ruf', (name,) + tuple(args), 'R')


def rneg(a):
    if isinstance(a, Fraction):
        return -a
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), 'R')


def radd(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a + b
        if a == 0:
            return b
    elif isinstance(b, Fraction) and b == 0:
        return a
    return mk('add', (a, b), 'R')


def rsub(a, b):
    if isinstance(b, Fraction):
        if isinstance(a, Fraction):
            return a - b
        if b == 0:
            return a
    elif isinstance(a, Fraction) and a == 0:
        return rneg(b)
    if a is b:
        return ZERO
    return mk('sub', (a, b), 'R')


def rmul(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a * b
        if a == 0:
            return ZERO
        if a == 1:
            return b
        if a == -1:
            return rneg(b)
    elif isinstance(b, Fraction):
        if b == 0:
            return ZERO
        if b == 1:
            return a
        if b == -1:
            return rneg(a)
    return mk('mul', (a, b), 'R')


def rdiv(a, b):
    if isinstance(b, Fraction) and b != 0:
        if isinstance(a, Fraction):
            return a / b
        return rmul(a, 1 / b)
    return mk('div', (a, b), 'R')


def rsqrt(a):
    if isinstance(a, Fraction) and a >= 0:
        import math
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator:
            return Fraction(n, d)
    return mk('sqrt', (a,), 'R')


def rabs(a):
    if isinstance(a, Fraction):
        return abs(a)
    if a.op == 'abs':
        return a
    return mk('abs', (a,), 'R')


def rite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or (isinstance(a, Fraction) and isinstance(b, Fraction) and a == b):
        return a
    return mk('rite', (c, a, b), 'R')


def i2r(p):
    if isinstance(p, int):
        return Fraction(p)
    return mk('i2r', (p,), 'R')


def rfloor(a):
    """integer floor of a real"""
    if isinstance(a, Fraction):
        return a.numerator // a.denominator
    if a.op == 'i2r':
        return a.args[0]
    return iatom(mk('floor', (a,), 'I', -2**31, 2**31 - 1))


# ---------------------------------------------------------------- booleans

def bvar(name):
    return mk('bvar', (name,), 'B')


def buf(name, args):
    return mk('buf', (name,) + tuple(args), 'B')


def bnot(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x not in out:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return bnot(c)
    return mk('bite', (c, a, b), 'B')


def _imp(c, v):
    return c


def ile0(p):
    if isinstance(p, int):
        return p <= 0
    if p.hi is not None and p.hi <= 0:
        return True
    if p.lo is not None and p.lo > 0:
        return False
    if len(p.m) <= 2:
        monos = [(k, v) for k, v in p.m if k != ()]
        if len(monos) == 1 and len(monos[0][0]) == 1 and monos[0][1] in (1, -1):
            a = _atoms[monos[0][0][0]]
            if a.op == 'isdiv' and isinstance(a.args[0], int) and a.args[0] >= 0 and isinstance(a.args[1], IP) and (a.args[1].lo or 0) > 0:
                # C / b >= d  iff  b d <= C
                co, cst = monos[0][1], iconst_part(p)
                d = cst if co == -1 else 1 - cst
                r = True if d <= 0 else ile0(isub(imul(a.args[1], d), a.args[0]))
                return r if co == -1 else bnot(r)
    return mk('ile0', (p,), 'B')


def ieq0(p):
    if isinstance(p, int):
        return p == 0
    if p.lo is not None and p.lo > 0 or p.hi is not None and p.hi < 0:
        return False
    # ite(c,1,0) patterns
    a = None
    if len(p.m) <= 2:
        monos = [(k, v) for k, v in p.m if k != ()]
        if len(monos) == 1 and len(monos[0][0]) == 1:
            a = _atoms[monos[0][0][0]]
            if a.op == 'iite':
                c, x, y = a.args
                cst = iconst_part(p)
                co = monos[0][1]
                if isinstance(x, int) and isinstance(y, int):
                    ex, ey = (co * x + cst == 0), (co * y + cst == 0)
                    return bite(c, ex, ey)
    # canonical sign: first non-const coefficient positive
    lead = next(v for k, v in reversed(p.m))
    if lead < 0:
        p = imulc(p, -1)
    return mk('ieq0', (p,), 'B')


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(iadd(isub(a, b), 1))


def ieq(a, b):
    if a is b:
        return True
    return ieq0(isub(a, b))


def req(a, b):
    if a is b:
        return True
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    return mk('req', (a, b), 'B')


def rlt(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    if a is b:
        return False
    return mk('rlt', (a, b), 'B')


def rle(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a <= b
    if a is b:
        return True
    return bnot(mk('rlt', (b, a), 'B'))


# ---------------------------------------------------------------- sequences

SEMPTY = mk('sempty', (), 'S')


def sappend(s, fields):
    """fields: tuple of (offset, value)"""
    return mk('sappend', (s,) + tuple(fields), 'S')


def site(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    return mk('site', (c, a, b), 'S')


def suf(name, args):
    return mk('suf', (name,) + tuple(args), 'S')


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (int, IP)) and not isinstance(a, bool) and isinstance(b, (int, IP)) and not isinstance(b, bool):
        return iite(c, a, b)
    if isreal(a) and isreal(b):
        return rite(c, a, b)
    if isinstance(a, bool) or (isinstance(a, T) and a.sort == 'B'):
        return bite(c, a, b)
    if isinstance(a, T) and a.sort == 'S':
        return site(c, a, b)
    raise TypeError('ite over %r / %r' % (a, b))


# ---------------------------------------------------------------- printing / substitution / free variables

def show(x, depth=4):
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return str(x.numerator)
        return repr(float(x)) if x.denominator & (x.denominator - 1) == 0 or x.denominator > 10**6 else str(x)
    if isinstance(x, (int, str, float)):
        return str(x)
    if isinstance(x, tuple):
        return '(' + ','.join(show(y, depth - 1) for y in x) + ')'
    if isinstance(x, IP):
        out = []
        for k, v in x.m:
            out.append('*'.join(([str(v)] if v != 1 or not k else []) + [show(_atoms[a], depth - 1) for a in k]))
        return '(' + '+'.join(out) + ')'
    if isinstance(x, T):
        if x.op in ('rvar', 'ivar', 'bvar'):
            return str(x.args[0])
        if depth <= 0:
            return '…'
        return x.op + '(' + ','.join(show(a, depth - 1) for a in x.args) + ')'
    return repr(x)


def free(x):
    """set of var names / UF names... returns frozenset of leaf variable T ids (rvar, ivar, bvar)"""
    if isinstance(x, T):
        if x._fv is None:
            if x.op in ('rvar', 'ivar', 'bvar', 'svar'):
                x._fv = frozenset((x.id,))
            else:
                s = frozenset()
                for a in x.args:
                    f = free(a)
                    if f:
                        s = s | f
                x._fv = s
        return x._fv
    if isinstance(x, IP):
        if x._fv is None:
            s = frozenset()
            for k, _ in x.m:
                for a in k:
                    s = s | free(_atoms[a])
            x._fv = s
        return x._fv
    if isinstance(x, tuple):
        s = frozenset()
        for a in x:
            s = s | free(a)
        return s
    return frozenset()


def var_id(x):
    """id of the variable leaf for rvar/ivar-IP/bvar/svar"""
    if isinstance(x, IP):
        return as_single_atom(x).id
    return x.id


def subst(x, m, cache=None):
    """m: {leaf var id: replacement}"""
    if cache is None:
        cache = {}
    keys = m.keys()

    def go(x):
        if isinstance(x, (T, IP)):
            if not any(k in free(x) for k in keys):
                return x
            r = cache.get(x.id)
            if r is not None:
                return r
            if isinstance(x, IP):
                r = 0
                for k, v in x.m:
                    p = v
                    for a in k:
                        p = imul(p, go_atom(_atoms[a]))
                    r = iadd(r, p)
            elif x.sort == 'I':
                r = go_atom(x)
            else:
                if x.id in m:
                    r = m[x.id]
                else:
                    r = rebuild(x.op, tuple(go(a) for a in x.args), x)
            cache[x.id] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x

    def go_atom(t):
        if t.id in m:
            return m[t.id]
        if not any(k in free(t) for k in keys):
            return iatom(t)
        return rebuild(t.op, tuple(go(a) for a in t.args), t)
    return go(x)


def rebuild(op, a, orig):
    if op == 'add': return radd(*a)
    if op == 'sub': return rsub(*a)
    if op == 'mul': return rmul(*a)
    if op == 'div': return rdiv(*a)
    if op == 'neg': return rneg(*a)
    if op == 'sqrt': return rsqrt(*a)
    if op == 'abs': return rabs(*a)
    if op == 'rite': return rite(*a)
    if op == 'i2r': return i2r(*a)
    if op == 'not': return bnot(*a)
    if op == 'and': return band(*a)
    if op == 'bite': return bite(*a)
    if op == 'ile0': return ile0(*a)
    if op == 'ieq0': return ieq0(*a)
    if op == 'req': return req(*a)
    if op == 'rlt': return rlt(*a)
    if op == 'iite': return iite(*a)
    if op == 'isdiv': return isdiv(*a)
    if op == 'isrem': return isrem(*a)
    if op == 'floor': return rfloor(*a)
    if op == 'site': return site(*a)
    if op == 'sappend': return sappend(a[0], a[1:])
    if orig.sort == 'I':
        return iatom(mk(op, a, 'I', orig.lo, orig.hi))
    return mk(op, a, orig.sort)
