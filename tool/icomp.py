"""Translation of one LLVM function into Python step functions (straight-line segments between calls)."""
from fractions import Fraction
import terms as TM
from terms import *
import logic as L
from engine import (INFCAP, Ptr, NULL, Unsupported, Infeasible, Packed, Throw, CALL, vtag, tobytes, frombytes)

INF = Fraction(2) ** 5000


def wrap(v, bits):
    h = 1 << (bits - 1)
    if -h <= v < h:
        return v
    return ((v + h) & ((1 << bits) - 1)) - h


def uview(v, bits):
    if type(v) is int:
        return v & ((1 << bits) - 1)
    if isinstance(v, IP):
        if v.lo is not None and v.lo >= 0:
            return v
        if v.hi is not None and v.hi < 0:
            return iadd(v, 1 << bits)
        return iite(ile(0, v), v, iadd(v, 1 << bits))
    return toint(v)


def sview(v, bits):
    if type(v) is int:
        return wrap(v, bits)
    if isinstance(v, IP):
        if v.hi is not None and v.hi >= (1 << (bits - 1)) and v.lo is not None:
            h = 1 << (bits - 1)
            if v.lo >= h:
                return isub(v, 1 << bits)
            if bits >= 32:
                # no overflow: integers are mathematical
                return v
            return iite(ilt(v, h), v, isub(v, 1 << bits))
        return v
    return toint(v)


def toint(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, IP)):
        return v
    if isinstance(v, T) and v.sort == 'B':
        return iite(v, 1, 0)
    if isinstance(v, Ptr) and v.o is None:
        return v.off
    raise Unsupported('integer view of %r' % (v,))


def ADD(a, b, bits):
    if type(a) is int and type(b) is int:
        return wrap(a + b, bits)
    if isinstance(a, Ptr):
        return Ptr(a.o, iadd(a.off, toint(b)))
    if isinstance(b, Ptr):
        return Ptr(b.o, iadd(b.off, toint(a)))
    return iadd(toint(a), toint(b))


def SUB(a, b, bits):
    if type(a) is int and type(b) is int:
        return wrap(a - b, bits)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.o == b.o:
            return isub(a.off, b.off)
        if b.o is None:
            return Ptr(a.o, isub(a.off, b.off))
        raise Unsupported('difference of pointers into different objects')
    if isinstance(a, Ptr):
        return Ptr(a.o, isub(a.off, toint(b)))
    return isub(toint(a), toint(b))


def MUL(a, b, bits):
    if type(a) is int and type(b) is int:
        return wrap(a * b, bits)
    return imul(toint(a), toint(b))


def SDIV(a, b, bits):
    a, b = sview(a, bits), sview(b, bits)
    if type(b) is int and b == 0:
        raise Unsupported('division by zero')
    return TM.isdiv(a, b)


def UDIV(a, b, bits):
    a, b = uview(a, bits), uview(b, bits)
    if type(b) is int and b == 0:
        raise Unsupported('division by zero')
    r = TM.isdiv(a, b)
    return wrap(r, bits) if type(r) is int else r


def SREM(a, b, bits):
    a, b = sview(a, bits), sview(b, bits)
    return TM.isrem(a, b)


def UREM(a, b, bits):
    a, b = uview(a, bits), uview(b, bits)
    r = TM.isrem(a, b)
    return wrap(r, bits) if type(r) is int else r


def AND(a, b, bits):
    if bits == 1:
        return band(TB(a), TB(b))
    if type(a) is int and type(b) is int:
        return wrap(a & b, bits)
    if type(a) is int:
        a, b = b, a
    if isinstance(a, Ptr) and type(b) is int:
        # alignment tests on fresh allocations: low bits are zero when the offset is aligned
        if b >= 0 and b < 64 and isinstance(a.off, int) and a.o is not None:
            return a.off & b
        if b < 0 and isinstance(a.off, int) and a.o is not None and (-b) & (-b - 1) == 0 and a.off % (-b) == 0:
            return a
        raise Unsupported('pointer mask')
    if type(b) is int:
        if b == 0:
            return 0
        if b > 0 and (b & (b + 1)) == 0:
            u = uview(a, bits)
            lo, hi = irange(u)
            if lo is not None and hi is not None and lo >= 0 and hi <= b:
                return u
            return TM.isrem(u, b + 1)
        if b == -1:
            return a
        if b < 0 and ((-b) & (-b - 1)) == 0:
            u = uview(a, bits)
            return isub(u, TM.isrem(u, -b))
    return TM.iuf('bvand', (a, b))


def OR(a, b, bits):
    if bits == 1:
        return bor(TB(a), TB(b))
    if type(a) is int and type(b) is int:
        return wrap(a | b, bits)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    if isinstance(a, Packed) or isinstance(b, Packed):
        pa = a.parts if isinstance(a, Packed) else [(0, bits // 8, a)]
        pb = b.parts if isinstance(b, Packed) else [(0, bits // 16, b)]
        return Packed(sorted(pa + pb, key=lambda x: x[0]))
    a, b = toint(a), toint(b)
    if irange(a) == (0, 1) and irange(b) == (0, 1):
        return iite(bor(bnot(ieq0(a)), bnot(ieq0(b))), 1, 0)
    return TM.iuf('bvor', (a, b))


def XOR(a, b, bits):
    if bits == 1:
        a, b = TB(a), TB(b)
        if isinstance(a, bool):
            return bnot(b) if a else b
        if isinstance(b, bool):
            return bnot(a) if b else a
        return bite(a, bnot(b), b)
    if type(a) is int and type(b) is int:
        return wrap(a ^ b, bits)
    if type(b) is int and b == -1:
        return isub(-1, toint(a))
    if type(b) is int and b == 1 and irange(toint(a)) == (0, 1):
        return isub(1, toint(a))
    return TM.iuf('bvxor', (toint(a), toint(b)))


def SHL(a, b, bits):
    if type(b) is not int:
        raise Unsupported('symbolic shift')
    if type(a) is int:
        return wrap(a << b, bits)
    if isinstance(a, Packed):
        return Packed([(o + b // 8, s, v) for o, s, v in a.parts])
    if b == 32 and bits == 64 and isinstance(a, (T,)):
        return Packed([(4, 4, a)])
    at = as_single_atom(a) if isinstance(a, IP) else None
    if at is not None and at.op == 'bits':
        return Packed([(b // 8, 4, at.args[0])])
    return imulc(toint(a), 1 << b)


def LSHR(a, b, bits):
    if type(b) is not int:
        raise Unsupported('symbolic shift')
    if type(a) is int:
        return wrap((a & ((1 << bits) - 1)) >> b, bits)
    if isinstance(a, Packed):
        return Packed([(o - b // 8, s, v) for o, s, v in a.parts if o >= b // 8])
    return TM.isdiv(uview(a, bits), 1 << b)


def ASHR(a, b, bits):
    if type(b) is not int:
        raise Unsupported('symbolic shift')
    if type(a) is int:
        return wrap(a, bits) >> b
    v = toint(a)
    e = TM.idivexact(v, 1 << b)
    if e is not None:
        return e
    if irange(v)[0] is not None and irange(v)[0] >= 0:
        return TM.isdiv(v, 1 << b)
    raise Unsupported('ashr')


def TB(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, T) and v.sort == 'B':
        return v
    if type(v) is int:
        return bool(v & 1)
    if isinstance(v, IP):
        return bnot(ieq0(v))
    raise Unsupported('bool of %r' % (v,))


def ICMP(pred, a, b, bits):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return PCMP(pred, a, b)
    if bits == 1:
        a, b = TB(a), TB(b)
        if pred == 'eq':
            return bite(a, b, bnot(b))
        if pred == 'ne':
            return bite(a, bnot(b), b)
        a, b = toint(a), toint(b)
    if pred == 'eq' or pred == 'ne':
        if type(a) is int and type(b) is int:
            r = (wrap(a, bits) == wrap(b, bits))
        else:
            a, b = toint(a), toint(b)
            if (type(b) is int and b < 0 and isinstance(a, IP) and a.lo is not None and a.lo >= 0 and bits < 64):
                b = b + (1 << bits)
            r = ieq(a, b)
        return r if pred == 'eq' else bnot(r)
    if pred[0] == 'u':
        a, b = uview(a, bits), uview(b, bits)
    else:
        a, b = sview(a, bits), sview(b, bits)
    p = pred[1:]
    if p == 'lt':
        return ilt(a, b)
    if p == 'le':
        return ile(a, b)
    if p == 'gt':
        return ilt(b, a)
    return ile(b, a)


def PCMP(pred, a, b):
    if not isinstance(a, Ptr):
        a = Ptr(None, toint(a))
    if not isinstance(b, Ptr):
        b = Ptr(None, toint(b))
    if a.o == b.o:
        x, y = a.off, b.off
        if (x == INFCAP or y == INFCAP) and pred in ('eq', 'ne') and not (type(x) is int and type(y) is int):
            return pred == 'ne'       # a vector never reaches its (arbitrarily large) capacity
        if pred == 'eq':
            return ieq(x, y)
        if pred == 'ne':
            return bnot(ieq(x, y))
        p = pred[1:]
        if p == 'lt':
            return ilt(x, y)
        if p == 'le':
            return ile(x, y)
        if p == 'gt':
            return ilt(y, x)
        return ile(y, x)
    if pred == 'eq':
        return False
    if pred == 'ne':
        return True
    if a.o is None and type(a.off) is int and a.off == 0:
        return pred[1:] in ('lt', 'le')
    if b.o is None and type(b.off) is int and b.off == 0:
        return pred[1:] in ('gt', 'ge')
    # unrelated objects: any fixed order is consistent with the language rules; use object identity
    ka, kb = str(a.o), str(b.o)
    lt = ka < kb
    return lt if pred[1:] in ('lt', 'le') else not lt


NONFIN = set()      # leaf names that may be non-finite


def is_finite(x):
    if isinstance(x, Fraction):
        return abs(x) != INF
    if not NONFIN:
        return True
    for l in L.leaves(x):
        if l.op in ('rvar', 'ruf') and l.args[0] in NONFIN:
            break
    else:
        return True
    # finiteness of an input atom is a predicate of that atom
    if x.op == 'ruf' and x.args[0] == 'selfsub':
        return is_finite(x.args[1])
    if x.op in ('rvar', 'ruf'):
        return TM.buf('finite', (x,))
    if x.op in ('neg', 'abs'):
        return is_finite(x.args[0])
    return TM.buf('finite', (x,))


def FSUB(a, b):
    """x - x is 0 only for finite x"""
    if a is b and NONFIN and is_finite(a) is not True:
        return TM.ruf('selfsub', (a,))
    return TM.rsub(a, b)


def is_nan(x):
    f = is_finite(x)
    if isinstance(x, T) and x.op == 'ruf' and x.args[0] == 'selfsub':
        return bnot(f)
    if f is True or isinstance(x, Fraction):
        return False
    return band(bnot(f), TM.buf('isnan', (x,)))


def FCMP(pred, a, b):
    if pred == 'ord':
        return band(bnot(is_nan(a)), bnot(is_nan(b)))
    if pred == 'uno':
        return bor(is_nan(a), is_nan(b))
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    if NONFIN:
        # comparisons of |x| with infinity are the finiteness test
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(y, Fraction) and y == INF and isinstance(x, T):
                p = pred[1:]
                if sw:
                    p = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(p, p)
                if x.op == 'abs':
                    f = is_finite(x.args[0])
                    n = is_nan(x.args[0])
                    if p in ('lt', 'ne'):
                        r = f
                        if p == 'ne' and pred[0] == 'u':
                            r = bor(f, n)
                        return r
                    if p in ('eq', 'ge'):
                        return band(bnot(f), bnot(n))
    p = pred[1:]
    if a is b and NONFIN and p in ('eq', 'ne', 'le', 'ge') and isinstance(a, T):
        n = is_nan(a)
        if n is not False:
            return n if p == 'ne' else bnot(n)
    if p == 'eq':
        return req(a, b)
    if p == 'ne':
        return bnot(req(a, b))
    if p == 'lt':
        return rlt(a, b)
    if p == 'le':
        return rle(a, b)
    if p == 'gt':
        return rlt(b, a)
    return rle(b, a)


def ZEXT(v, sb, db):
    if sb == 1:
        if isinstance(v, bool):
            return int(v)
        return toint(v)
    if isinstance(v, (Packed, Ptr)):
        return v
    if isinstance(v, IP):
        at = as_single_atom(v)
        if at is not None and at.op == 'bits':
            return v
    return uview(v, sb)


def SEXT(v, sb, db):
    if sb == 1:
        return isub(0, toint(v))
    return sview(v, sb)


def TRUNC(v, sb, db):
    if isinstance(v, Packed):
        parts = [(o, s, x) for o, s, x in v.parts if o * 8 < db]
        if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] * 8 >= db:
            x = parts[0][2]
            if isinstance(x, (int, IP)) and not isinstance(x, bool):
                return x
            if isreal(x):
                return iatom(mk('bits', (x,), 'I')) if isinstance(x, T) else tointbits(x, parts[0][1])
            return x
        return Packed(parts)
    if db == 1:
        if isinstance(v, IP) and irange(v) != (0, 1):
            lo, hi = irange(v)
            if lo is None or hi is None or lo < 0 or hi > 1:
                return bnot(ieq0(TM.isrem(uview(v, sb), 2)))
        return TB(v)
    if type(v) is int:
        return wrap(v, db)
    if isinstance(v, Ptr):
        raise Unsupported('trunc of pointer')
    v = toint(v)
    lo, hi = irange(v)
    if lo is not None and hi is not None and lo >= -(1 << (db - 1)) and hi < (1 << db):
        return v
    if db >= 32:
        return v          # mathematical integers (assumption)
    return TM.isrem(uview(v, sb), 1 << db)


def tointbits(x, size):
    return int.from_bytes(tobytes(x, size), 'little', signed=True)


def BITCAST(eng, v, sd, dd):
    if sd == dd:
        return v
    if dd[0] == 'i' and sd[0] == 'a':
        parts = []
        off = 0
        for x in v:
            parts.append((off, sd[2], x))
            off += sd[2]
        return Packed(parts)
    if dd[0] == 'a' and sd[0] == 'i':
        if isinstance(v, Packed):
            return tuple(x for _, _, x in v.parts)
        raise Unsupported('bitcast int to vector')
    if dd[0] == 'f' and sd[0] == 'a':
        return Packed([(i * sd[2], sd[2], x) for i, x in enumerate(v)])
    if dd[0] == 'a' and sd[0] == 'f':
        if isinstance(v, Packed):
            return tuple(x for _, _, x in v.parts)
        raise Unsupported('bitcast float to vector')
    if dd[0] == 'f':
        return eng.retag(v, dd[1], 'f')
    if dd[0] == 'i' and sd[0] == 'f':
        return eng.retag(v, sd[1], 'i')
    return v


def FPTOSI(x):
    if isinstance(x, Fraction):
        n = abs(x.numerator) // x.denominator
        return n if x >= 0 else -n
    if x.op == 'i2r':
        return x.args[0]
    return iite(rle(ZERO, x), rfloor(x), isub(0, rfloor(rneg(x))))


def GEP(base, c, terms, fr_bits=64):
    if not isinstance(base, Ptr):
        base = Ptr(None, toint(base))
    off = base.off
    for v, s in terms:
        if type(v) is not int:
            v = toint(v)
        if type(off) is int and type(v) is int:
            off = off + v * s
        else:
            off = iadd(off, imulc(v, s))
    if c:
        off = off + c if type(off) is int else iadd(off, c)
    return Ptr(base.o, off)


def SELECT(eng, c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, tuple):
        return tuple(SELECT(eng, c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if a == b:
            return a
        raise NeedFork()
    if isinstance(a, bool) != isinstance(b, bool) and not (isinstance(a, T) or isinstance(b, T)):
        a, b = toint(a), toint(b)
    return ite(c, a, b)


class NeedFork(Exception):
    pass


def SREAL(x):
    return x


DROP = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch',
        'llvm.stackrestore')


def compile_fn(eng, fn):
    m = eng.m
    types = m.types
    consts = []
    cindex = {}

    def op(x, tid=None):
        """python expression for an operand"""
        if isinstance(x, int):
            return 'r[%d]' % x
        if x[0] == 'ci':
            if tid is not None and types[tid] == ['i', 1]:
                return 'True' if x[1] else 'False'
            return '(%d)' % x[1] if x[1] < 0 else '%d' % x[1]
        if x[0] == 'undef' or (x[0] == 'cf' and x[1] == 'nan') or x[0] == 'unk' or x[0] == 'cexpr' or x[0] == 'agg':
            consts.append((x, tid))
            return 'E.const(C[%d],%r)' % (len(consts) - 1, tid)
        key = (str(x), tid)
        i = cindex.get(key)
        if i is None:
            v = eng.const(x, tid)
            consts.append(v)
            i = len(consts) - 1
            cindex[key] = i
        return 'C[%d]' % i

    src = []
    segs = []       # per block list of function names
    raw = []
    nseg = [0]

    def bits_of(t):
        d = types[t]
        return d[1] if d[0] == 'i' else 64

    for bi, block in enumerate(fn.blocks):
        names = []
        cur = []
        phis = []

        def flush():
            nm = 's%d' % nseg[0]
            nseg[0] += 1
            src.append('def %s(st, fr):\n    r = fr.regs\n' % nm + ''.join('    ' + l + '\n' for l in cur))
            cur.clear()
            names.append(nm)

        for ii, I in enumerate(block):
            o, d, t = I[0], I[1], I[2]
            D = 'r[%d]' % d
            if o == 'phi':
                phis.append((d, {b: v for b, v in I[3]}, t))
                continue
            if o == 'alloca':
                cnt = I[4]
                cur.append('%s = ALLOCA(st, fr, %d, %d, %s)' % (D, d, I[3], op(cnt)))
            elif o == 'load':
                td = types[t]
                p = op(I[3])
                if td[0] == 'f':
                    cur.append('%s = LD(st, %s, %d, "f")' % (D, p, td[1]))
                elif td[0] == 'p':
                    cur.append('%s = LD(st, %s, 8, "p")' % (D, p))
                elif td[0] == 'i':
                    cur.append('%s = LD(st, %s, %d, %r)' % (D, p, m.tsize(t), 'b' if td[1] == 1 else 'i'))
                else:
                    cur.append('%s = E.load(st, %s, %d)' % (D, p, t))
            elif o == 'store':
                vt = I[3]
                td = types[vt]
                if td[0] in 'fip':
                    cur.append('ST(st, %s, %d, %s)' % (op(I[5]), m.tsize(vt), op(I[4], vt)))
                else:
                    cur.append('E.store(st, %s, %d, %s)' % (op(I[5]), vt, op(I[4], vt)))
            elif o == 'getelementptr':
                if I[4] is None:
                    cur.append('raise Unsupported("gep")')
                elif not I[5]:
                    cur.append('b = %s; %s = Ptr(b.o, b.off + %d) if type(b) is Ptr and type(b.off) is int else GEP(b, %d, ())'
                               % (op(I[3]), D, I[4], I[4]))
                else:
                    cur.append('%s = GEP(%s, %d, (%s,))' % (D, op(I[3]), I[4], ','.join('(%s,%d)' % (op(v), s) for v, s in I[5])))
            elif o in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                td = types[t]
                if td[0] != 'i':
                    cur.append('raise Unsupported("vector integer op")')
                else:
                    cur.append('%s = %s(%s, %s, %d)' % (D, o.upper(), op(I[3], t), op(I[4], t), td[1]))
            elif o in ('fadd', 'fsub', 'fmul', 'fdiv'):
                f = {'fadd': 'radd', 'fsub': 'FSUB', 'fmul': 'rmul', 'fdiv': 'FDIV'}[o]
                if types[t][0] == 'a':
                    cur.append('%s = tuple(%s(x, y) for x, y in zip(%s, %s))' % (D, f, op(I[3], t), op(I[4], t)))
                else:
                    cur.append('%s = %s(%s, %s)' % (D, f, op(I[3], t), op(I[4], t)))
            elif o == 'frem':
                cur.append('%s = FREM(%s, %s)' % (D, op(I[3], t), op(I[4], t)))
            elif o == 'fneg':
                if types[t][0] == 'a':
                    cur.append('%s = tuple(rneg(x) for x in %s)' % (D, op(I[3], t)))
                else:
                    cur.append('%s = rneg(%s)' % (D, op(I[3], t)))
            elif o == 'icmp':
                cur.append('%s = ICMP(%r, %s, %s, %d)' % (D, I[3], op(I[5], I[4]), op(I[6], I[4]), bits_of(I[4])))
            elif o == 'fcmp':
                cur.append('%s = FCMP(%r, %s, %s)' % (D, I[3], op(I[5], I[4]), op(I[6], I[4])))
            elif o in ('zext', 'sext', 'trunc'):
                cur.append('%s = %s(%s, %d, %d)' % (D, o.upper(), op(I[4], I[3]), bits_of(I[3]), bits_of(t)))
            elif o in ('fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
                x = I[4] if o != 'freeze' else I[3]
                if o == 'inttoptr':
                    cur.append('%s = I2P(%s)' % (D, op(x)))
                else:
                    cur.append('%s = %s' % (D, op(x, I[3] if o != 'freeze' else None)))
            elif o == 'bitcast':
                cur.append('%s = BITCAST(E, %s, %r, %r)' % (D, op(I[4], I[3]), types[I[3]], types[t]))
            elif o == 'sitofp':
                cur.append('%s = i2r(sview(%s, %d))' % (D, op(I[4]), bits_of(I[3])))
            elif o == 'uitofp':
                cur.append('%s = i2r(uview(%s, %d))' % (D, op(I[4], I[3]), bits_of(I[3])))
            elif o in ('fptosi', 'fptoui'):
                cur.append('%s = FPTOSI(%s)' % (D, op(I[4], I[3])))
            elif o == 'select':
                a, b = op(I[4], t), op(I[5], t)
                cur.append('c = TB(%s)' % op(I[3]))
                cur.append('try:')
                cur.append('    %s = SELECT(E, c, %s, %s)' % (D, a, b))
                cur.append('except NeedFork:')
                cur.append('    return FORKSEL(c, %d, %s, %s)' % (d, a, b))
                # the fork continues with the next segment
                flush()
            elif o == 'extractvalue':
                e = op(I[3])
                cur.append('%s = %s' % (D, 'XV(%s, %r)' % (e, tuple(I[4]))))
            elif o == 'insertvalue':
                cur.append('%s = IV(%s, %s, %r)' % (D, op(I[3]), op(I[4]), tuple(I[5])))
            elif o == 'extractelement':
                cur.append('%s = %s[%s]' % (D, op(I[3]), op(I[4])))
            elif o == 'insertelement':
                cur.append('%s = IV(%s, %s, (%s,))' % (D, op(I[3]), op(I[4]), op(I[5])))
            elif o == 'shufflevector':
                cur.append('t_ = tuple(%s) + tuple(%s)' % (op(I[3]), op(I[4])))
                cur.append('%s = tuple(t_[i] if i >= 0 else t_[0] for i in %r)' % (D, I[5]))
            elif o == 'br':
                if I[3] is None:
                    cur.append('return ("goto", %d)' % I[4])
                else:
                    cur.append('c = TB(%s)' % op(I[3]))
                    cur.append('if c is True: return ("goto", %d)' % I[4])
                    cur.append('if c is False: return ("goto", %d)' % I[5])
                    cur.append('return ("br", c, %d, %d)' % (I[4], I[5]))
                flush()
            elif o == 'switch':
                cur.append('return SWITCH(%s, %d, %r)' % (op(I[3]), I[4], I[5]))
                flush()
            elif o == 'ret':
                cur.append('return RET(st, fr, %s)' % (op(I[3], fn.rt) if len(I) > 3 else 'None'))
                flush()
            elif o == 'unreachable':
                cur.append('raise Infeasible()')
                flush()
            elif o in ('call', 'invoke'):
                callee = I[3]
                args = [op(a, at) for a, at in zip(I[4], I[5])]
                bv = I[6]
                if callee[0] == 'asm' if isinstance(callee, list) else False:
                    cur.append('pass')
                    continue
                if isinstance(callee, list) and callee[0] == 'g':
                    nm = callee[1]
                    if nm.startswith(DROP):
                        if d >= 0:
                            cur.append('%s = None' % D)
                        continue
                    ih = eng.inline.get(nm)
                    if ih is None and nm.startswith('llvm.'):
                        for pre, hh in eng.inline_prefix:
                            if nm.startswith(pre):
                                ih = hh
                                break
                    if ih is not None and o == 'call':
                        consts.append(ih)
                        cur.append('%sC[%d](E, st, [%s])' % ((D + ' = ') if d >= 0 else '', len(consts) - 1, ', '.join(args)))
                        continue
                    fexpr = repr(nm)
                else:
                    fexpr = 'FNAME(st, %s)' % op(callee)
                a2 = []
                for a, b in zip(args, bv):
                    a2.append('BYVAL(st, fr, %s, %d)' % (a, b) if b else a)
                if o == 'call':
                    cur.append('return CALLF(st, %s, [%s], %d, None, None, (%d,%d))' % (fexpr, ', '.join(a2), d, bi, ii))
                else:
                    cur.append('return CALLF(st, %s, [%s], %d, %d, %d, (%d,%d))' % (fexpr, ', '.join(a2), d, I[7], I[8], bi, ii))
                flush()
            elif o == 'landingpad':
                cur.append('%s = LPAD(st, fr, %r, C[%d])' % (D, I[3], len(consts)))
                consts.append(I[4])
            elif o == 'resume':
                cur.append('return RESUME(st, fr, %s)' % op(I[3]))
                flush()
            elif o == 'atomicrmw':
                cur.append('%s = RMW(st, %r, %s, %s, %d, %d)' % (D, I[3], op(I[4]), op(I[5], t), m.tsize(t), bits_of(t)))
            elif o == 'cmpxchg':
                cur.append('%s = CMPXCHG(st, %s, %s, %s)' % (D, op(I[3]), op(I[4]), op(I[5])))
            elif o == 'fence':
                cur.append('pass')
            else:
                cur.append('raise Unsupported("instruction %s")' % o)
        if cur:
            cur.append('raise Unsupported("fell off block")')
            flush()
        segs.append(names)
        if phis:
            lst = []
            for d, inc, t in phis:
                g = {}
                for b, v in inc.items():
                    if isinstance(v, int):
                        g[b] = (lambda fr, v=v: fr.regs[v])
                    else:
                        g[b] = (lambda fr, v=v, t=t: eng.const(v, t))
                lst.append((d, g))
            raw.append(lst)
        else:
            raw.append(None)

    # operands that must be evaluated freshly keep their raw form in C
    C = []
    for c in consts:
        C.append(c[0] if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], list) else c)
    ns = dict(eng.ns)
    ns['C'] = C
    code = compile('\n'.join(src), fn.name[:60], 'exec')
    exec(code, ns)
    fn.raw = raw
    return [[ns[n] for n in names] for names in segs]


def namespace(eng):
    mem_load = eng.load_scalar
    mem_store = eng.store_scalar

    def LD(st, p, size, tag):
        if type(p) is not Ptr:
            raise Unsupported('load through %r' % (p,))
        o = st.mem.get(p.o)
        off = p.off
        if o is not None and type(off) is int and o.arr is None and o.seq is None and o.img is None:
            e = o.d.get(off)
            if e is not None and e[0] == size:
                v = e[1]
                if tag == 'f':
                    if type(v) is Fraction or (type(v) is T and v.sort == 'R'):
                        return v
                elif tag == 'i':
                    if type(v) is int or type(v) is IP:
                        return v
                elif tag == 'p':
                    if type(v) is Ptr:
                        return v
                return eng.retag(v, size, tag)
        return mem_load(st, p.o, off, size, tag)

    def ST(st, p, size, v):
        if type(p) is not Ptr:
            raise Unsupported('store through %r' % (p,))
        o = st.mem.get(p.o)
        off = p.off
        if o is not None and type(off) is int and o.arr is None and o.seq is None and not o.const and type(v) is not Packed:
            if o.owner is not st.tok:
                o = o.clone(st.tok)
                st.mem[p.o] = o
            e = o.d.get(off)
            if e is not None and e[0] == size:
                o.d[off] = (size, v)
                return
        mem_store(st, p.o, off, size, v)

    def ALLOCA(st, fr, d, size, cnt):
        if type(cnt) is not int:
            raise Unsupported('variable length alloca')
        o = eng.new_obj(st, size * cnt, 'alloca', '%s:%d' % (fr.fn.norm.split('::')[-1], d))
        fr.allocas[d] = o.id
        return Ptr(o.id, 0)

    def I2P(v):
        if isinstance(v, Ptr):
            return v
        if type(v) is int and v == 0:
            return NULL
        return Ptr(None, v)

    def FDIV(a, b):
        if isinstance(b, Fraction) and b == 0:
            if isinstance(a, Fraction) and a == 0:
                return rvar('nan')
            return mk('div', (a, b), 'R')
        return rdiv(a, b)

    def FREM(a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction) and b != 0:
            import math
            q = abs(a) // abs(b)
            r = abs(a) - q * abs(b)
            return r if a >= 0 else -r
        return ruf('fmod', (a, b))

    def XV(v, idx):
        for i in idx:
            v = v[i]
        return v

    def IV(v, x, idx):
        if len(idx) == 1:
            l = list(v)
            l[idx[0]] = x
            return tuple(l)
        l = list(v)
        l[idx[0]] = IV(l[idx[0]], x, idx[1:])
        return tuple(l)

    def SWITCH(v, default, cases):
        if type(v) is int:
            for c, b in cases:
                if c == v:
                    return ('goto', b)
            return ('goto', default)
        v = toint(v)
        alts = []
        neg = []
        for c, b in cases:
            e = ieq(v, c)
            alts.append((e, b))
            neg.append(bnot(e))
        alts.append((band(*neg), default))
        return ('fork', alts)

    def RET(st, fr, v):
        st.frames.pop()
        for oid in fr.allocas.values():
            st.mem.pop(oid, None)
        if fr.on_ret is not None:
            v = fr.on_ret(eng, st, v)
        if not st.frames:
            return 'return_done'
        top = st.frames[-1]
        if isinstance(v, Throw):
            return eng.throw(st, v, fr.unwind)
        if fr.ret_dest >= 0:
            top.regs[fr.ret_dest] = v
        if st.sub is not None and len(st.frames) < st.sub.depth:
            return ('subexit', 'ret', fr.ret_to)
        if fr.ret_to is not None:
            return ('goto', fr.ret_to)
        return CALL

    def FNAME(st, p):
        if isinstance(p, Ptr) and isinstance(p.o, str) and p.o.startswith('@'):
            return p.o[1:]
        raise Unsupported('indirect call through %r' % (p,))

    def BYVAL(st, fr, p, size):
        o = eng.new_obj(st, size, 'byval', 'byval')
        q = Ptr(o.id, 0)
        eng.memcpy(st, q, p, size)
        return q

    def CALLF(st, fname, args, dest, ret_to, unwind, site):
        return eng.call(st, fname, args, dest, ret_to, unwind, site)

    def LPAD(st, fr, cleanup, clauses):
        th = fr.exc
        sel = 0
        for iscatch, c in clauses:
            if iscatch:
                name = None if c[0] == 'null' else c[1]
                if name is None or eng.catches(name, th.ti):
                    sel = eng.typeid(name)
                    break
        return (Ptr('exc', 0), sel)

    def RESUME(st, fr, v):
        return eng.throw(st, fr.exc, None)

    def RMW(st, o, p, v, size, bits):
        old = LD(st, p, size, 'i')
        if o == 'add':
            new = ADD(old, v, bits)
        elif o == 'sub':
            new = SUB(old, v, bits)
        elif o == 'xchg':
            new = v
        else:
            raise Unsupported('atomicrmw ' + o)
        ST(st, p, size, new)
        return old

    def CMPXCHG(st, p, cmp, new):
        raise Unsupported('cmpxchg')

    def FORKSEL(c, d, a, b):
        def seta(s, f):
            f.regs[d] = a

        def setb(s, f):
            f.regs[d] = b
        return ('forkval', [(c, seta), (bnot(c), setb)])

    ns = {k: v for k, v in globals().items() if not k.startswith('__')}
    ns.update(LD=LD, ST=ST, ALLOCA=ALLOCA, I2P=I2P, FDIV=FDIV, FSUB=FSUB, FREM=FREM, XV=XV, IV=IV, SWITCH=SWITCH, RET=RET,
              FNAME=FNAME, BYVAL=BYVAL, CALLF=CALLF, LPAD=LPAD, RESUME=RESUME, RMW=RMW, CMPXCHG=CMPXCHG,
              FORKSEL=FORKSEL, E=eng)
    return ns
