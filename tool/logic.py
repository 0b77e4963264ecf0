"""Back ends that discharge obligations: exact polynomial normal form (our own) and Z3."""
from fractions import Fraction
import math
import time
import z3
from terms import *
import terms as TM

stats = {'poly': 0, 'z3': 0, 'split': 0, 'syntactic': 0, 'z3_time': 0.0, 'z3_calls': 0, 'poly_time': 0.0,
         'feas_calls': 0, 'feas_unknown': 0}


class PolyTooBig(Exception):
    pass


# ------------------------------------------------------------------ polynomial normal form
# poly: dict monomial -> Fraction ; monomial: tuple of (atomid, exp) sorted by atomid; exp may be negative
_pa_key = {}      # canonical key -> atom id
_pa_info = []     # atom id -> (kind, payload)
REL = {}          # atom id -> poly for atom^2
LIMIT = 400000


def _patom(key, info):
    a = _pa_key.get(key)
    if a is None:
        a = len(_pa_info)
        _pa_key[key] = a
        _pa_info.append(info)
    return a


def pconst(c):
    return {(): c} if c != 0 else {}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pscale(p, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in p.items()}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        ne = d.get(x, 0) + e
        if ne == 0:
            del d[x]
        else:
            d[x] = ne
    return tuple(sorted(d.items()))


_W = 20
_MASK = (1 << _W) - 1
_HALF = 1 << (_W - 1)


def _raw_mul(p, q):
    """product without the square relations"""
    n = len(p) * len(q)
    if n <= 24:
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mono_mul(m1, m2)
                v = r.get(m)
                if v is None:
                    r[m] = c1 * c2
                else:
                    v = v + c1 * c2
                    if v == 0:
                        del r[m]
                    else:
                        r[m] = v
        return r
    # pack exponents into fields of one integer, scale coefficients to integers
    atoms = sorted({x for m in p for x, _e in m} | {x for m in q for x, _e in m})
    sh = {x: i * _W for i, x in enumerate(atoms)}
    def pack(z):
        den = 1
        for c in z.values():
            if c.denominator != 1:
                den = den * c.denominator // math.gcd(den, c.denominator)
        return den, [(sum(e << sh[x] for x, e in m), c.numerator * (den // c.denominator)) for m, c in z.items()]
    d1, pp = pack(p)
    d2, qq = pack(q)
    r = {}
    get = r.get
    for m1, c1 in pp:
        for m2, c2 in qq:
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    den = d1 * d2
    bias = sum(_HALF << s for s in sh.values())
    out = {}
    for m, c in r.items():
        if c:
            m += bias
            mono = []
            for x in atoms:
                e = (m & _MASK) - _HALF
                if e:
                    mono.append((x, e))
                m >>= _W
            out[tuple(mono)] = Fraction(c, den) if den != 1 else Fraction(c)
    return out


def reduce_poly(p):
    """apply atom^2 -> REL[atom] until no exponent >= 2 of a related atom is left"""
    if not REL:
        return p
    while True:
        cnt = {}
        for m in p:
            for x, e in m:
                if e >= 2 and x in REL:
                    cnt[x] = cnt.get(x, 0) + 1
        if not cnt:
            return p
        # newest related atom first: its square is expressed in older atoms
        x = max(cnt)
        parts = {}
        for m, c in p.items():
            for y, e in m:
                if y == x and e >= 2:
                    k, o = divmod(e, 2)
                    mm = tuple((z, (o if z == x else f)) for z, f in m if z != x or o)
                    break
            else:
                k, mm = 0, m
            d = parts.setdefault(k, {})
            v = d.get(mm)
            if v is None:
                d[mm] = c
            else:
                v = v + c
                if v == 0:
                    del d[mm]
                else:
                    d[mm] = v
        rel = REL[x]
        acc = {}
        for k in range(max(parts), -1, -1):
            if acc:
                acc = _raw_mul(acc, rel)
            acc = padd(acc, parts.get(k, {}))
        p = acc


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > LIMIT * 4:
        raise PolyTooBig()
    if len(p) > len(q):
        p, q = q, p
    r = _raw_mul(p, q)
    if REL:
        r = reduce_poly(r)
    if len(r) > LIMIT:
        raise PolyTooBig()
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def content_sign(p):
    """canonical associate: (unit c, monomial m, primitive poly q) with p = c*m*q"""
    items = sorted(p.items())
    c = items[-1][1]
    # strip the common monomial (min exponents)
    mins = None
    for m, _ in items:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            mins = {x: min(e, d.get(x, 0)) for x, e in mins.items() if x in d or e < 0}
            for x, e in d.items():
                if e < 0 and x not in mins:
                    mins[x] = e
    mins = {x: e for x, e in mins.items() if e != 0}
    inv = tuple(sorted((x, -e) for x, e in mins.items()))
    q = {mono_mul(m, inv): v / c for m, v in items}
    return c, tuple(sorted(mins.items())), q


def pinv(p):
    """1/p as Laurent monomial times a denominator atom"""
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((x, -e) for x, e in m): 1 / c}
    c, m, q = content_sign(p)
    a = _patom(('den', pkey(q)), ('den', q))
    inv = tuple((x, -e) for x, e in m)
    return {mono_mul(inv, ((a, -1),)): 1 / c}


def ckey(x):
    """canonical hashable key of any term (used for UF arguments)"""
    if isinstance(x, T):
        if x.sort == 'R':
            return ('R', pkey(poly(x)))
        if x.sort == 'B':
            return ('B', x.id)
        return ('S', x.id)
    if isinstance(x, IP):
        return ('I', x.id)
    if isinstance(x, Fraction):
        return ('R', pkey(pconst(x)))
    if isinstance(x, tuple):
        return tuple(ckey(y) for y in x)
    return x


TM.canon_key = ckey


def poly_ip(p):
    if isinstance(p, int):
        return pconst(Fraction(p))
    r = {}
    for mono, c in p.m:
        t = {(): Fraction(c)}
        for a in mono:
            at = TM.atom_of(a)
            t = pmul(t, {((_patom(('int', a), ('int', at)), 1),): ONE})
        r = padd(r, t)
    return r


def poly(t):
    if isinstance(t, Fraction):
        return pconst(t)
    if t._poly is not None:
        return t._poly
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x._poly is not None:
            stack.pop()
            continue
        op = x.op
        if op in ('add', 'sub', 'mul', 'div', 'neg', 'sqrt', 'abs'):
            todo = [a for a in x.args if isinstance(a, T) and a._poly is None]
            if todo:
                stack.extend(todo)
                continue
        x._poly = _poly1(x)
        stack.pop()
    return t._poly


def _poly1(x):
    op = x.op
    a = x.args
    if op == 'add':
        return padd(poly(a[0]), poly(a[1]))
    if op == 'sub':
        return padd(poly(a[0]), pscale(poly(a[1]), Fraction(-1)))
    if op == 'mul':
        return pmul(poly(a[0]), poly(a[1]))
    if op == 'neg':
        return pscale(poly(a[0]), Fraction(-1))
    if op == 'div':
        d = poly(a[1])
        if not d:
            k = _patom(('div0', ckey(a[0])), ('term', x))
            return {((k, 1),): ONE}
        return pmul(poly(a[0]), pinv(d))
    if op == 'rvar':
        k = _patom(('var', a[0]), ('term', x))
        return {((k, 1),): ONE}
    if op == 'sqrt':
        p = pfrac(poly(a[0]))
        if not p:
            return {}
        c, m, q = content_sign(p)
        if c < 0:
            q = pscale(q, Fraction(-1))
            c = -c
        one = len(q) == 1 and q.get((), None) == ONE
        out = pconst(ONE)
        rest = {(): ONE}
        rc = rsqrt(c)
        if isinstance(rc, Fraction):
            out = pscale(out, rc)
        else:
            rest = pscale(rest, c)
        rm = []
        for v, e in m:
            h, o = divmod(e, 2) if e >= 0 else (-((-e) // 2), -((-e) % 2))
            if h:
                out = pmul(out, ppow(pabs_atom(v), h))
            if o:
                rm.append((v, o))
        rest = pmul(pmul(rest, {tuple(rm): ONE}), q)
        if len(rest) == 1 and rest.get(()) == ONE:
            return out
        k = _patom(('sqrt', pkey(rest)), ('sqrt', rest))
        if k not in REL:
            REL[k] = rest
            NONNEG.add(k)
        return pmul(out, {((k, 1),): ONE})
    if op == 'abs':
        p = pfrac(poly(a[0]))
        if not p:
            return {}
        c, m, q = content_sign(p)
        out = pconst(abs(c))
        for v, e in m:
            out = pmul(out, ppow(pabs_atom(v), e))
        if not (len(q) == 1 and () in q):
            q = pscale(q, 1 / sorted(q.items())[-1][1])
            k = _patom(('abs', pkey(q)), ('abs', q))
            if k not in REL:
                REL[k] = pmul(q, q)
                NONNEG.add(k)
            out = pmul(out, {((k, 1),): ONE})
        return out
    if op == 'i2r':
        return poly_ip(a[0])
    if op == 'ruf':
        if a[0] == 'selfsub':
            return {}
        if a[0] in ('sin', 'cos') and len(a) == 2:
            t = trig(a[0], a[1])
            if t is not None:
                return t
        if a[0] in ('atan2', 'acos') :
            p0 = psimplify(poly(a[1]))
            if a[0] == 'acos' or nonneg(p0):
                NN_UF.add(x.id)
        key = ('ruf', a[0]) + tuple(ckey(y) for y in a[1:])
        k = _patom(key, ('term', x))
        if x.id in NN_UF:
            NONNEG.add(k)
        if a[0] == 'cos' and k not in REL:
            s = poly(ruf('sin', (a[1],)))
            REL[k] = padd(pconst(ONE), pscale(pmul(s, s), Fraction(-1)))
        return {((k, 1),): ONE}
    if op == 'rite':
        k = _patom(('rite', x.id), ('term', x))
        return {((k, 1),): ONE}
    raise TypeError(op)


NONNEG = set()     # polynomial atoms known to be >= 0
NN_UF = set()
PI_D = Fraction(3.141592653589793)


def nonneg(p):
    return all(c >= 0 and all(e % 2 == 0 or v in NONNEG for v, e in m) for m, c in p.items())


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = pconst(ONE)
    for _ in range(n):
        r = pmul(r, p)
    return r


def pabs_atom(v):
    if v in NONNEG:
        return {((v, 1),): ONE}
    k = _patom(('absa', v), ('abs', {((v, 1),): ONE}))
    if k not in REL:
        REL[k] = reduce_poly({((v, 2),): ONE})
        NONNEG.add(k)
    return {((k, 1),): ONE}


def pdiv_exact(p, q, limit=4000):
    """polynomial r with p == q*r, or None (Laurent in atoms that q does not mention)"""
    vs = sorted({v for m in q for v, _ in m})

    def order(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)

    def key(mc):
        return (order(mc[0]), mc[0])
    lm, lc = max(q.items(), key=key)
    inv = tuple((v, -e) for v, e in lm)
    r = {}
    p = dict(p)
    steps = 0
    while p:
        steps += 1
        if steps > limit:
            return None
        m, c = max(p.items(), key=key)
        t = mono_mul(m, inv)
        if any(v in vs and e < 0 for v, e in t):
            return None
        c2 = c / lc
        r[t] = r.get(t, 0) + c2
        for m2, v2 in q.items():
            mm = mono_mul(t, m2)
            v = p.get(mm, 0) - c2 * v2
            if v == 0:
                p.pop(mm, None)
            else:
                p[mm] = v
    return r


def psimplify(p):
    """cancel denominator atoms (and even powers of square roots) that divide the numerator exactly"""
    if not p or len(p) > 400:
        return p
    for _ in range(12):
        worst = {}
        for m in p:
            for x, e in m:
                if e < 0:
                    worst[x] = min(worst.get(x, 0), e)
        done = True
        for x, e in worst.items():
            if _pa_info[x][0] == 'den':
                q, n = _pa_info[x][1], 1
            elif x in REL and e <= -2:
                q, n = REL[x], 2
            else:
                continue
            if len(q) == 1:
                (m1, c1), = q.items()
                if n == 2 and m1:
                    # x^-2 = 1/q for a monomial q
                    pass
                num = {mono_mul(m, ((x, -e),)): c for m, c in p.items()}
            else:
                num = {mono_mul(m, ((x, -e),)): c for m, c in p.items()}
            num = reduce_poly(num) if n == 2 else num
            r = pdiv_exact(num, q)
            if r is None:
                continue
            # num = q*r, p = num * x^e = r * q * x^e ; q = x^n (n=2) or the den itself (n=1)
            p = reduce_poly({mono_mul(m, ((x, e + n),)) if e + n else m: c for m, c in r.items()})
            done = False
            break
        if done:
            break
    return p


def pfrac(p):
    """p over a common denominator, if that makes the numerator shorter"""
    p = psimplify(p)
    if not p or len(p) > 200:
        return p
    worst = {}
    for m in p:
        for x, e in m:
            if e < 0 and x in REL:
                worst[x] = min(worst.get(x, 0), e)
    if not worst:
        return p
    for x in worst:
        if worst[x] % 2:
            worst[x] -= 1
    up = tuple(sorted((x, -e) for x, e in worst.items()))
    num = reduce_poly({mono_mul(m, up): c for m, c in p.items()})
    if len(num) < len(p):
        dn = tuple((x, -e) for x, e in up)
        return {mono_mul(m, dn): c for m, c in num.items()}
    return p


def poly_term(p):
    """a term with the given polynomial (only for atoms that carry a term)"""
    tot = ZERO
    for m, c in p.items():
        t = c
        for v, e in m:
            b = _pa_info[v]
            if b[0] == 'term':
                bt = b[1]
            elif b[0] == 'int':
                bt = i2r(TM.iatom(b[1]))
            elif b[0] == 'sqrt':
                bt = rsqrt(poly_term(b[1]))
            elif b[0] == 'abs':
                bt = rabs(poly_term(b[1]))
            else:
                bt = poly_term(b[1])
            for _ in range(abs(e)):
                t = rmul(t, bt) if e > 0 else rdiv(t, bt)
        tot = radd(tot, t)
    return tot


def trig(name, arg):
    """polynomial of sin/cos(arg) by exact identities, or None"""
    p = psimplify(poly(arg))
    if not p:
        return pconst(ONE) if name == 'cos' else {}
    c0 = p.get((), None)
    if c0 is not None and c0 != 0:
        k = c0 / PI_D
        if k.denominator == 1:
            rest = {m: c for m, c in p.items() if m != ()}
            s = Fraction(-1) if int(k) % 2 else ONE
            if not rest:
                return pconst(s) if name == 'cos' else {}
            return pscale(poly(ruf(name, (poly_term(rest),))), s)
    lead = sorted(p.items())[-1][1]
    if lead < 0:
        q = poly(ruf(name, (poly_term(pscale(p, Fraction(-1))),)))
        return q if name == 'cos' else pscale(q, Fraction(-1))
    if len(p) == 1:
        (m, c), = p.items()
        for v, e in m:
            if _pa_info[v][0] == 'abs' and e == 1:
                # cos(|x|) = cos(x), sin(|x|) = |x|/x sin(x)
                q = _pa_info[v][1]
                rest = {tuple(y for y in m if y[0] != v): c}
                r = poly(ruf(name, (poly_term(pmul(rest, q)),)))
                return r if name == 'cos' else pmul(r, pmul({((v, 1),): ONE}, pinv(q)))
        if len(m) == 1 and m[0][1] == 1 and c in (1, 2):
            info = _pa_info[m[0][0]]
            if info[0] == 'term' and info[1].op == 'ruf':
                t = info[1]
                cs = None
                if t.args[0] == 'atan2':
                    y, x = t.args[1], t.args[2]
                    h = rsqrt(radd(rmul(x, x), rmul(y, y)))
                    cs = (rdiv(x, h), rdiv(y, h))
                elif t.args[0] == 'acos':
                    u = t.args[1]
                    cs = (u, rsqrt(rsub(ONE, rmul(u, u))))
                elif t.args[0] == 'asin':
                    u = t.args[1]
                    cs = (rsqrt(rsub(ONE, rmul(u, u))), u)
                elif t.args[0] == 'atan':
                    u = t.args[1]
                    h = rsqrt(radd(ONE, rmul(u, u)))
                    cs = (rdiv(ONE, h), rdiv(u, h))
                if cs:
                    co, si = psimplify(poly(cs[0])), psimplify(poly(cs[1]))
                    if c == 2:
                        co, si = padd(pscale(pmul(co, co), Fraction(2)), pconst(Fraction(-1))), pscale(pmul(co, si), Fraction(2))
                        co, si = psimplify(co), psimplify(si)
                    return co if name == 'cos' else si
    # canonical argument (so that syntactically different but equal arguments share one atom)
    k = _patom(('ruf', name, ('R', pkey(p))), ('term', ruf(name, (arg,))))
    if name == 'cos' and k not in REL:
        s = _patom(('ruf', 'sin', ('R', pkey(p))), ('term', ruf('sin', (arg,))))
        REL[k] = {(): ONE, ((s, 2),): Fraction(-1)}
    return {((k, 1),): ONE}


# ---- sign knowledge: what the path condition says about the sign of a polynomial
_sign_cache = {}
NEG, ZER, POS = 1, 2, 4


def sign_atom(f):
    """(key, mask) such that f <=> sign(poly) in mask, or None"""
    r = _sign_cache.get(f.id, 0)
    if r != 0:
        return r
    neg = False
    g = f
    if g.op == 'not':
        neg, g = True, g.args[0]
    r = None
    if g.op in ('rlt', 'req'):
        try:
            p = padd(poly(g.args[0]), pscale(poly(g.args[1]), Fraction(-1)))
            if len(p) <= 3000:
                p = psimplify(p) if len(p) <= 60 else p
                if not p:
                    r = (None, g.op == 'req')
                else:
                    lead = sorted(p.items())[-1][1]
                    p = pscale(p, 1 / lead)
                    mask = ZER if g.op == 'req' else (NEG if lead > 0 else POS)
                    if len(p) == 1 and () in p:
                        r = (None, bool(mask & POS))
                    else:
                        r = (pkey(p), mask)
                if r[0] is None:
                    r = (None, r[1] != neg)
                elif neg:
                    r = (r[0], 7 & ~r[1])
                if r[0] is not None and nonneg(dict(r[0])):
                    r = (r[0], r[1] & (ZER | POS))
        except (PolyTooBig, TypeError):
            r = None
    _sign_cache[f.id] = r
    return r


def smul(m1, m2):
    r = 0
    for x in (NEG, ZER, POS):
        for y in (NEG, ZER, POS):
            if m1 & x and m2 & y:
                r |= ZER if ZER in (x, y) else (POS if x == y else NEG)
    return r


def mono_sign(m, pc, depth):
    """possible signs of a monomial, from the signs of its atoms"""
    mask = POS
    for v, e in m:
        a = atom_sign(v, pc, depth)
        if e < 0:
            a &= ~ZER
        if e % 2 == 0:
            a = (a & ZER) | (POS if a & (NEG | POS) else 0)
        mask = smul(mask, a)
    return mask


def atom_sign(v, pc, depth):
    k, t = _pa_info[v]
    mask = 7
    if v in NONNEG:
        mask &= ZER | POS
    y = None
    if k == 'term' and t.op == 'ruf' and t.args[0] == 'atan2':
        y = t.args[1]
    elif k in ('sqrt', 'abs'):
        try:
            y = poly_term(t)
        except Exception:
            y = None
    if y is not None and not isinstance(y, Fraction):
        # atan2(y, x), sqrt(y), |y| vanish / are positive with y
        if sign_decide(pc, rlt(ZERO, y), depth) is True:
            return POS
        if k == 'abs' and sign_decide(pc, bnot(req(y, ZERO)), depth) is True:
            return POS
    return mask


def sign_decide(pc, c, depth=2):
    """True / False / None"""
    if not isinstance(c, T) or c.op not in ('rlt', 'req', 'not'):
        return None
    a = sign_atom(c)
    if a is None:
        return None
    if a[0] is None:
        return a[1]
    allowed = 7
    if nonneg(dict(a[0])):
        allowed = ZER | POS
    if len(a[0]) == 1 and depth:
        allowed &= mono_sign(a[0][0][0], pc, depth - 1)
    for f in pc:
        if isinstance(f, T):
            for g in (f.args if f.op == 'and' else (f,)):
                if isinstance(g, T) and g.op in ('rlt', 'req', 'not'):
                    b = sign_atom(g)
                    if b is not None and b[0] == a[0]:
                        allowed &= b[1]
    if not allowed & a[1]:
        return False
    if not allowed & ~a[1] & 7:
        return True
    return None


def sign_product(pc, goal):
    """goal about the sign of g, where g is a product of polynomials whose signs the path condition fixes"""
    if not isinstance(goal, T):
        return False
    a = sign_atom(goal)
    if a is None or a[0] is None or len(a[0]) > 40:
        return False
    g = dict(a[0])
    known = {}
    for f in pc:
        if isinstance(f, T):
            for h in (f.args if f.op == 'and' else (f,)):
                if isinstance(h, T) and h.op in ('rlt', 'req', 'not'):
                    b = sign_atom(h)
                    if b is not None and b[0] is not None and len(b[0]) <= 40:
                        known[b[0]] = known.get(b[0], 7) & b[1]
    ks = [(k, m) for k, m in known.items() if m not in (7, NEG | POS)][:7]
    if len(ks) < 2:
        return False

    def smul(m1, m2):
        r = 0
        for x in (NEG, ZER, POS):
            for y in (NEG, ZER, POS):
                if m1 & x and m2 & y:
                    r |= ZER if ZER in (x, y) else (POS if x == y else NEG)
        return r
    import itertools
    for n in (2, 3):
        for sub in itertools.combinations(ks, n):
            mask = POS
            for _k, m in sub:
                mask = smul(mask, m)
            if mask == 7:
                continue
            prod = pconst(ONE)
            try:
                for k, _m in sub:
                    prod = pmul(prod, dict(k))
            except PolyTooBig:
                continue
            for c in (1, -1):
                d = padd(g, pscale(prod, Fraction(-c)))
                mk_ = mask if c == 1 else ((mask & ZER) | (NEG if mask & POS else 0) | (POS if mask & NEG else 0))
                if not mk_ & ~a[1] & 7 and is_zero_poly(d):
                    return True
    return False


def declare_square(term, square):
    """term^2 == square, as a global relation (term must be a variable)"""
    p = poly(term)
    (m, _), = p.items()
    REL[m[0][0]] = poly(square)


def is_zero_poly(p):
    """decide p == 0 after clearing denominators (denominators assumed non-zero)"""
    p = reduce_poly(p)
    for _ in range(60):
        if not p:
            return True
        worst = {}
        for m, _c in p.items():
            for x, e in m:
                if e < 0:
                    worst[x] = min(worst.get(x, 0), e)
        if not worst:
            # expand denominator atoms that occur positively
            dens = [x for m in p for x, e in m if _pa_info[x][0] == 'den']
            if not dens:
                return False
            x = dens[0]
            r = {}
            for m, c in p.items():
                e = dict(m).get(x, 0)
                rest = tuple(y for y in m if y[0] != x)
                t = {rest: c}
                for _i in range(e):
                    t = pmul(t, _pa_info[x][1])
                r = padd(r, t)
            p = r
            continue
        x = next(iter(worst))
        e = -worst[x]
        if _pa_info[x][0] == 'den':
            # multiply by den^e: terms with exponent f get den^(f+e) expanded
            q = _pa_info[x][1]
            pows = [pconst(ONE)]
            for _i in range(e):
                pows.append(pmul(pows[-1], q))
            parts = {}
            for m, c in p.items():
                f = dict(m).get(x, 0) + e
                rest = tuple(y for y in m if y[0] != x)
                d = parts.setdefault(f, {})
                d[rest] = d.get(rest, 0) + c
            r = {}
            for f, d in parts.items():
                t = {m: c for m, c in d.items() if c != 0}
                while f > e:
                    t = pmul(t, q)
                    f -= 1
                r = padd(r, pmul(t, pows[f]))
            p = r
        else:
            p = reduce_poly({mono_mul(m, ((x, e),)): c for m, c in p.items()})
    return not p


def _subst_atom(d, k, q):
    """replace every power of atom k in polynomial d by the polynomial q (q monomial-invertible if negative powers occur)"""
    out = {}
    for m, c in d.items():
        e = dict(m).get(k, 0)
        if e == 0:
            out = padd(out, {m: c})
        else:
            rest = tuple(y for y in m if y[0] != k)
            out = padd(out, pmul({rest: c}, ppow(q, e)))
    return out


def _zero_with_abs(d, pc, depth=4):
    """d == 0 under pc, splitting on the sign of the arguments of |.| atoms"""
    if is_zero_poly(d):
        return True
    if depth == 0 or len(d) > 500:
        return False
    for m in d:
        for k, _e in m:
            if _pa_info[k][0] == 'abs':
                q = _pa_info[k][1]
                try:
                    c = rlt(poly_term(q), ZERO)
                except Exception:
                    return False
                for cond, r in ((bnot(c), q), (c, pscale(q, Fraction(-1)))):
                    if cond is False or (cond is not True and not feasible(pc, cond)):
                        continue
                    if not _zero_with_abs(_subst_atom(d, k, r), list(pc) + [cond] if cond is not True else pc, depth - 1):
                        return False
                return True
    return False


def poly_equal(a, b, pc=()):
    t0 = time.time()
    try:
        pa, pb = poly(a), poly(b)
        d = padd(pa, pscale(pb, Fraction(-1)))
        if is_zero_poly(d) or (len(d) <= 500 and _zero_with_abs(psimplify(d), pc)):
            return True
        # equal but for the rounding of literals (x * 1e-9 against x / 1e9)
        if d.keys() <= pa.keys() and d.keys() <= pb.keys() and all(abs(c) * 10 ** 14 <= abs(pa[m]) for m, c in d.items()):
            stats['rounded_literals'] = stats.get('rounded_literals', 0) + 1
            return True
        return False
    finally:
        stats['poly_time'] += time.time() - t0


# ------------------------------------------------------------------ Z3 lowering
Seq = z3.DeclareSort('Seq')
_funcs = {}
_zcanon = {}
AX = {}           # term id -> list of z3 axioms to be asserted whenever the term occurs
_zax_of = {}      # z3-lowered term id -> set of axiom keys needed


def _zsort(x):
    if isinstance(x, T):
        return {'R': z3.RealSort(), 'B': z3.BoolSort(), 'S': Seq, 'I': z3.IntSort()}[x.sort]
    if isinstance(x, bool):
        return z3.BoolSort()
    if isinstance(x, Fraction):
        return z3.RealSort()
    if isinstance(x, (int, IP)):
        return z3.IntSort()
    raise TypeError(repr(x))


def _fun(name, args, ret):
    key = (name, tuple(str(a) for a in args), str(ret))
    f = _funcs.get(key)
    if f is None:
        f = z3.Function('%s!%d' % (name, len(_funcs)), *args, ret) if args else None
        _funcs[key] = f
    return f


_pending_ax = []   # axioms generated during lowering: list of z3 bools, global (definitional)
_ax_by_term = {}
range_facts = {}   # I-atom T id -> (lo term, hi term) symbolic bounds


def zt(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, str):
        return None
    if x._z3 is not None:
        return x._z3
    r = _zt(x)
    x._z3 = r
    return r


def _zt(x):
    if isinstance(x, IP):
        parts = []
        for k, v in x.m:
            e = None
            for a in k:
                za = zt(TM.atom_of(a))
                e = za if e is None else e * za
            if e is None:
                e = z3.IntVal(v)
            elif v != 1:
                e = v * e
            parts.append(e)
        return z3.Sum(parts) if len(parts) > 1 else parts[0]
    op, a = x.op, x.args
    if op == 'ivar':
        return z3.Int('i_%s_%d' % (a[0], x.id))
    if op == 'rvar':
        return z3.Real('r_%s_%d' % (a[0], x.id))
    if op == 'bvar':
        return z3.Bool('b_%s_%d' % (a[0], x.id))
    if op == 'svar' or op == 'sempty':
        return z3.Const('s_%s_%d' % (op, x.id), Seq)
    if op in ('ruf', 'iuf', 'buf', 'suf'):
        key = (op, a[0]) + tuple(ckey(y) for y in a[1:])
        c = _zcanon.get(key)
        if c is not None:
            return c
        args = [y for y in a[1:] if not isinstance(y, str)]
        nm = '_'.join([a[0]] + [y for y in a[1:] if isinstance(y, str)])
        ret = {'ruf': z3.RealSort(), 'iuf': z3.IntSort(), 'buf': z3.BoolSort(), 'suf': Seq}[op]
        if not args:
            r = z3.Const(nm + '_c', ret)
        else:
            f = _fun(nm, [_zsort(y) for y in args], ret)
            r = f(*[zt(y) for y in args])
        _zcanon[key] = r
        return r
    if op == 'sappend':
        args = [a[0]]
        nm = 'app'
        for off, v in a[1:]:
            nm += '_%s' % (off,)
            args.append(v)
        f = _fun(nm, [_zsort(y) for y in args], Seq)
        return f(*[zt(y) for y in args])
    if op in ('rite', 'iite', 'bite', 'site'):
        return z3.If(zt(a[0]), zt(a[1]), zt(a[2]))
    if op == 'isdiv':
        p, q = zt(a[0]), zt(a[1])
        al, _ = irange(a[0])
        if al is not None and al >= 0 and isinstance(a[1], int) and a[1] > 0:
            return p / q
        return z3.If(p >= 0, p / q, -((-p) / q))
    if op == 'isrem':
        p, q = zt(a[0]), zt(a[1])
        al, _ = irange(a[0])
        if al is not None and al >= 0 and isinstance(a[1], int) and a[1] > 0:
            return p % q
        return z3.If(p >= 0, p % q, -((-p) % q))
    if op == 'floor':
        return z3.ToInt(zt(a[0]))
    if op == 'add':
        return zt(a[0]) + zt(a[1])
    if op == 'sub':
        return zt(a[0]) - zt(a[1])
    if op == 'mul':
        return zt(a[0]) * zt(a[1])
    if op == 'div':
        return zt(a[0]) / zt(a[1])
    if op == 'neg':
        return -zt(a[0])
    if op == 'abs':
        e = zt(a[0])
        return z3.If(e >= 0, e, -e)
    if op == 'sqrt':
        return z3.Real('sqrt_%d' % x.id)
    if op == 'i2r':
        return z3.ToReal(zt(a[0]))
    if op == 'not':
        return z3.Not(zt(a[0]))
    if op == 'and':
        return z3.And(*[zt(y) for y in a])
    if op == 'ile0':
        return zt(a[0]) <= 0
    if op == 'ieq0':
        return zt(a[0]) == 0
    if op == 'req':
        return zt(a[0]) == zt(a[1])
    if op == 'rlt':
        return zt(a[0]) < zt(a[1])
    if op == 'seq':
        return zt(a[0]) == zt(a[1])
    raise TypeError(op)


_leafcache = {}


def leaves(x):
    """set of T nodes (atoms) occurring in x that carry axioms: int atoms with ranges, sqrt, ruf"""
    if isinstance(x, T):
        r = _leafcache.get(x.id)
        if r is None:
            r = frozenset()
            for a in x.args:
                if isinstance(a, (T, IP, tuple)):
                    l = leaves(a)
                    if l:
                        r = r | l
            if x.sort == 'I' or x.op in ('sqrt', 'ruf', 'buf', 'rvar'):
                r = r | frozenset((x,))
            _leafcache[x.id] = r
        return r
    if isinstance(x, IP):
        r = _leafcache.get(x.id)
        if r is None:
            r = frozenset()
            for k, _ in x.m:
                for a in k:
                    r = r | leaves(TM.atom_of(a))
            _leafcache[x.id] = r
        return r
    if isinstance(x, tuple):
        r = frozenset()
        for a in x:
            r = r | leaves(a)
        return r
    return frozenset()


var_facts = {}     # T id -> list of T bool facts about the leaf (instantiated on occurrence)
uf_fact_gen = {   # uf name -> function(T) -> list of bool terms
    'atan2': lambda t: [bor(bnot(rlt(ZERO, t.args[1])), rlt(ZERO, t)), bor(rlt(t.args[1], ZERO), rle(ZERO, t))],
}


INCREASING = set()     # names of integer functions that are strictly increasing in their argument


def axioms_for(ts):
    """definitional / range axioms for all atoms in the given terms, closed under occurrence"""
    out = []
    seen = set()
    work = list(ts)
    inc = {}
    while work:
        t = work.pop()
        for l in leaves(t):
            if l.id in seen:
                continue
            seen.add(l.id)
            if l.op == 'iuf' and l.args[0] in INCREASING:
                for o in inc.setdefault(l.args[0], []):
                    i, j = zt(l.args[1]), zt(o.args[1])
                    out.append(z3.And(z3.Implies(i < j, zt(l) < zt(o)), z3.Implies(j < i, zt(o) < zt(l)), z3.Implies(i == j, zt(l) == zt(o))))
                inc[l.args[0]].append(l)
            if l.sort == 'I':
                if l.lo is not None:
                    out.append(zt(l) >= l.lo)
                if l.hi is not None:
                    out.append(zt(l) <= l.hi)
            if l.op == 'sqrt':
                s, e = zt(l), zt(l.args[0])
                out.append(z3.Implies(e >= 0, z3.And(s >= 0, s * s == e)))
            for f in var_facts.get(l.id, ()):
                if not isinstance(f, bool):
                    work.append(f)
                out.append(zt(f))
            g = uf_fact_gen.get(l.args[0]) if l.op in ('ruf', 'iuf', 'buf') else None
            if g:
                for f in g(l):
                    if isinstance(f, bool):
                        continue
                    work.append(f)
                    out.append(zt(f))
    return out


_qcache = {}


def check(formulas, timeout_ms=4000):
    """satisfiability of the conjunction: 'sat' | 'unsat' | 'unknown' , model"""
    fs = []
    for f in formulas:
        if f is False:
            return 'unsat', None
        if f is True:
            continue
        fs.append(f)
    key = (frozenset(f.id for f in fs), timeout_ms)
    if key in _qcache:
        return _qcache[key]
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for f in fs:
        s.add(zt(f))
    for a in axioms_for(fs):
        s.add(a)
    r = s.check()
    stats['z3_calls'] += 1
    stats['z3_time'] += time.time() - t0
    if r == z3.unsat:
        res = ('unsat', None)
    elif r == z3.sat:
        res = ('sat', s.model())
    else:
        res = ('unknown', None)
    _qcache[key] = res
    return res


def relevant(pc, goal):
    """cone of influence over free variables and UF symbols (cheap): keep everything if small"""
    if len(pc) <= 60:
        return list(pc)
    return list(pc)


def feasible(pc, c, timeout_ms=1500):
    if c is True:
        return True
    if c is False:
        return False
    d = sign_decide(pc, c)
    if d is not None:
        return d
    stats['feas_calls'] += 1
    if stats['feas_unknown'] > 6:
        timeout_ms = min(timeout_ms, 200)
    r, _ = check(list(pc) + [c], timeout_ms)
    if r == 'unknown':
        stats['feas_unknown'] += 1
    return r != 'unsat'


def ites_in(x, acc, seen):
    if isinstance(x, (T, IP)):
        if x.id in seen:
            return
        seen.add(x.id)
        if isinstance(x, IP):
            for k, _ in x.m:
                for a in k:
                    ites_in(TM.atom_of(a), acc, seen)
            return
        if x.op in ('rite', 'iite', 'bite', 'site'):
            acc.append(x.args[0])
        elif x.op == 'abs':
            acc.append(rlt(x.args[0], ZERO))
        for a in x.args:
            ites_in(a, acc, seen)
    elif isinstance(x, tuple):
        for a in x:
            ites_in(a, acc, seen)


def resolve(x, known, cache):
    """replace ite conditions known true/false (known: {bool term id: bool})"""
    if isinstance(x, IP):
        r = cache.get(x.id)
        if r is None:
            r = 0
            for k, v in x.m:
                p = v
                for a in k:
                    q = resolve_atom(TM.atom_of(a), known, cache)
                    p = imul(p, q)
                r = iadd(r, p)
            cache[x.id] = r
        return r
    if isinstance(x, T):
        r = cache.get(x.id)
        if r is None:
            if x.sort == 'B' and x.id in known:
                r = known[x.id]
            elif x.op in ('rite', 'bite', 'site') and isinstance(x.args[0], T) and x.args[0].id in known:
                r = resolve(x.args[1] if known[x.args[0].id] else x.args[2], known, cache)
            elif x.op == 'abs' and getattr(rlt(x.args[0], ZERO), 'id', None) in known:
                y = resolve(x.args[0], known, cache)
                r = rneg(y) if known[rlt(x.args[0], ZERO).id] else y
            elif x.op in ('rvar', 'bvar', 'ivar', 'svar', 'sempty'):
                r = x
            else:
                r = rebuild(x.op, tuple(resolve(a, known, cache) for a in x.args), x)
            cache[x.id] = r
        return r
    if isinstance(x, tuple):
        return tuple(resolve(a, known, cache) for a in x)
    return x


def resolve_atom(t, known, cache):
    if t.op == 'iite' and isinstance(t.args[0], T) and t.args[0].id in known:
        return resolve(t.args[1] if known[t.args[0].id] else t.args[2], known, cache)
    if t.op == 'ivar':
        return iatom(t)
    return rebuild(t.op, tuple(resolve(a, known, cache) for a in t.args), t)


def known_from(pc):
    known = {}
    for f in pc:
        if isinstance(f, T):
            known[f.id] = True
            if f.op == 'not':
                known[f.args[0].id] = False
            elif f.op == 'and':
                for g in f.args:
                    known[g.id] = True
                    if g.op == 'not':
                        known[g.args[0].id] = False
            known[bnot(f).id] = False
    return known


def int_equal(a, b, pc, timeout=3000):
    d = isub(a, b)
    if isinstance(d, int):
        return d == 0
    r, _ = check(list(pc) + [bnot(ieq0(d))], timeout)
    return r == 'unsat'


def align_uf(x, y, pc):
    pass


PROVE_MS = 8000


def prove_equal(a, b, pc, timeout=None, depth=6):
    """('proved', method) | ('refuted', model) | ('unknown', reason)"""
    if a is b:
        stats['syntactic'] += 1
        return 'proved', 'syntactic'
    sa = a if not isinstance(a, T) else a.sort
    isint = isinstance(a, (int, IP)) and not isinstance(a, bool)
    if isint:
        goal = ieq(a, b)
    elif isinstance(a, Fraction) or (isinstance(a, T) and a.sort == 'R'):
        # case split on ite conditions, then normal form
        try:
            if poly_equal(a, b, pc):
                stats['poly'] += 1
                return 'proved', 'poly'
        except PolyTooBig:
            pass
        conds = []
        ites_in(a, conds, set())
        ites_in(b, conds, set())
        known = known_from(pc)
        cache = {}
        if conds or known:
            a2, b2 = resolve(a, known, cache), resolve(b, known, cache)
            if a2 is not a or b2 is not b:
                return prove_equal(a2, b2, pc, timeout, depth)
        conds = [c for c in conds if isinstance(c, T)]
        if conds and depth > 0:
            # innermost condition first (no ite inside)
            c = conds[-1]
            t_ok = feasible(pc, c)
            f_ok = feasible(pc, bnot(c))
            stats['split'] += 1
            res = []
            if t_ok:
                r = prove_equal(a, b, list(pc) + [c], timeout, depth - 1)
                if r[0] != 'proved':
                    return r
            if f_ok:
                r = prove_equal(a, b, list(pc) + [bnot(c)], timeout, depth - 1)
                if r[0] != 'proved':
                    return r
            return 'proved', 'split'
        goal = req(a, b)
    elif isinstance(a, bool) or (isinstance(a, T) and a.sort == 'B'):
        if isinstance(a, bool) and isinstance(b, bool):
            return ('proved', 'const') if a == b else ('refuted', None)
        goal = band(bor(bnot(a), b), bor(a, bnot(b)))
    else:
        goal = mk('seq', (a, b), 'B')
        known = known_from(pc)
        cache = {}
        a2, b2 = resolve(a, known, cache), resolve(b, known, cache)
        if a2 is b2:
            return 'proved', 'syntactic'
    return prove(goal, pc, timeout)


def prove(goal, pc, timeout=None):
    timeout = timeout or PROVE_MS
    if goal is True:
        stats['syntactic'] += 1
        return 'proved', 'syntactic'
    if goal is False:
        r, m = check(list(pc), timeout)
        if r == 'unsat':
            return 'proved', 'z3'
        return ('refuted', m) if r == 'sat' else ('unknown', 'z3')
    if sign_decide(pc, goal) is True or sign_product(pc, goal):
        stats['poly'] += 1
        return 'proved', 'poly'
    if isinstance(goal, T) and goal.op == 'not' and isinstance(goal.args[0], T) and goal.args[0].op == 'and':
        for g in goal.args[0].args:
            if sign_decide(pc, bnot(g)) is True or sign_product(pc, bnot(g)):
                stats['poly'] += 1
                return 'proved', 'poly'
    if isinstance(goal, T) and any(f is goal for f in pc):
        stats['syntactic'] += 1
        return 'proved', 'syntactic'
    r, m = check(list(pc) + [bnot(goal)], timeout)
    if r == 'unsat':
        stats['z3'] += 1
        return 'proved', 'z3'
    if r == 'sat':
        return 'refuted', m
    return 'unknown', 'z3 timeout'
