"""Deductive verification engine: symbolic execution of LLVM IR with loop-invariant inference.

The IR comes from the real sources of /repo (compiled by clang on every run).  Floating-point numbers are treated as
mathematical reals, machine integers as mathematical integers (both listed as assumptions).  Loops whose trip count is
symbolic are cut: the engine infers, for every location the loop changes, an inductive description (unchanged, affine
in the iteration counter, element-wise map over an array, or recursively defined fold), proves nothing else is changed,
and continues from an arbitrary iteration.  No loop is unrolled a bounded number of times in 'unbounded' mode.
"""
import json
import math
import re
import struct
import time
from fractions import Fraction
from math import gcd

import terms as TM
from terms import *
import logic as L


class Unsupported(Exception):
    pass


class Restart(Exception):
    pass


class Infeasible(Exception):
    pass


class Poison:
    """value of a location changed by a cut loop whose description is not known"""
    __slots__ = ('owner', 'cell')

    def __init__(self, owner, cell):
        self.owner = owner
        self.cell = cell


class PoisonRead(Exception):
    def __init__(self, poison, size, tag):
        self.poison = poison
        self.size = size
        self.tag = tag


INFCAP = 2**40 * 27 * 25 * 7 * 11


class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'd', 'stride', 'arr', 'seq', 'seqlen', 'owner', 'ghost', 'const',
                 'img', 'nextra')

    def __init__(self, id, size, kind, name):
        self.id = id
        self.size = size
        self.kind = kind
        self.name = name
        self.d = {}
        self.stride = None
        self.arr = None      # {fieldoff: (size, tag, content)}  content: nested tuples
        self.seq = None
        self.seqlen = None
        self.owner = None
        self.ghost = None
        self.const = False
        self.img = None
        self.nextra = None

    def clone(self, owner):
        o = Obj(self.id, self.size, self.kind, self.name)
        o.d = dict(self.d)
        o.stride = self.stride
        o.arr = None if self.arr is None else dict(self.arr)
        o.seq = self.seq
        o.seqlen = self.seqlen
        o.owner = owner
        o.ghost = self.ghost
        o.const = self.const
        o.img = self.img
        o.nextra = self.nextra
        return o


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.o == other.o and (self.off is other.off or
            (isinstance(self.off, int) and isinstance(other.off, int) and self.off == other.off))

    def __hash__(self):
        return hash((self.o, self.off if isinstance(self.off, int) else self.off.id))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ('name', 'dem', 'norm', 'nv', 'args', 'rt', 'decl', 'blocks', 'loops', 'inloop', 'code', 'file', 'line',
                 'raw')


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'prev', 'ret_dest', 'ret_to', 'unwind', 'loops', 'site', 'on_ret', 'allocas',
                 'exc')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.regs = list(self.regs)
        f.blk = self.blk
        f.ip = self.ip
        f.prev = self.prev
        f.ret_dest = self.ret_dest
        f.ret_to = self.ret_to
        f.unwind = self.unwind
        f.loops = dict(self.loops)
        f.site = self.site
        f.on_ret = self.on_ret
        f.allocas = dict(self.allocas)
        f.exc = self.exc
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'tok', 'nobj', 'facts', 'idx', 'trace', 'sub', 'ghost', 'throws', 'nloop')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.tok = object()
        self.tok = object()
        s.nobj = self.nobj
        s.facts = list(self.facts)
        s.idx = list(self.idx)
        s.trace = list(self.trace)
        s.sub = self.sub
        s.ghost = dict(self.ghost)
        s.throws = self.throws
        s.nloop = self.nloop
        return s


class FoldDef:
    """a recursively defined vector of functions F_i(k, params)"""
    def __init__(self, id, ksym, params):
        self.id = id
        self.k = ksym            # T var (IP)
        self.params = params     # list of outer loop counters (IP vars)
        self.comps = []          # list of [sym, sort, init, next]

    def app(self, i, k, params, rng=(None, None)):
        sort = self.comps[i][1]
        args = (k,) + tuple(params)
        if isinstance(k, int) and k == 0:
            m = {TM.var_id(p): q for p, q in zip(self.params, params)}
            return subst(self.comps[i][2], m) if m else self.comps[i][2]
        nm = 'F%d.%d' % (self.id, i)
        if sort == 'R':
            return ruf(nm, args)
        if sort == 'I':
            return iuf(nm, args)
        if sort == 'B':
            return buf(nm, args)
        return suf(nm, args)


def norm_name(d):
    """strip template arguments and parameter lists from a demangled name"""
    out = []
    depth = 0
    i = 0
    n = len(d)
    # protect operator names containing < > ( )
    d = d.replace('operator()', 'operator_call').replace('operator<<', 'operator_shl').replace('operator>>', 'operator_shr')
    d = d.replace('operator<=', 'operator_le').replace('operator>=', 'operator_ge').replace('operator->', 'operator_arrow')
    d = re.sub(r'operator<(?=[\(<])', 'operator_lt', d)
    d = re.sub(r'operator>(?=[\(<])', 'operator_gt', d)
    d = d.replace('(anonymous namespace)', '_anon_')
    i = 0
    n = len(d)
    while i < n:
        c = d[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(':
                break
            out.append(c)
        i += 1
    s = ''.join(out).strip()
    s = s.replace('[abi:cxx11]', '')
    # drop return type
    if ' ' in s:
        parts = s.split(' ')
        for j, p in enumerate(parts):
            if p.startswith('operator') or '::operator' in p:
                s = ' '.join(parts[j:])
                break
        else:
            s = parts[-1]
    return s


HEXF = re.compile(r'^(-?)0x([0-9a-fA-F]+)\.?([0-9a-fA-F]*)p([+-]?\d+)$')


def parse_float(s):
    if s == 'nan':
        return None
    if s == 'inf':
        return Fraction(2) ** 5000
    if s == '-inf':
        return -(Fraction(2) ** 5000)
    m = HEXF.match(s)
    sign, ip, fp, e = m.groups()
    v = Fraction(int(ip + fp, 16)) / Fraction(16) ** len(fp)
    e = int(e)
    v = v * Fraction(2) ** e
    return -v if sign else v


class Module:
    def __init__(self, path):
        self.fns = {}
        self.globals = {}
        self.types = None
        with open(path) as f:
            for line in f:
                j = json.loads(line)
                if j['k'] == 't':
                    self.types = j['t']
                elif j['k'] == 'g':
                    self.globals[j['n']] = j
                else:
                    fn = Fn()
                    fn.name = j['n']
                    fn.dem = j['d']
                    fn.norm = norm_name(j['d'])
                    fn.nv = j['nv']
                    fn.args = j['args']
                    fn.rt = j['rt']
                    fn.decl = j['decl']
                    fn.blocks = j.get('b')
                    fn.file = j.get('file')
                    fn.line = j.get('line')
                    fn.code = None
                    fn.loops = {}
                    if fn.blocks is not None:
                        for h, line, bs in j['loops']:
                            fn.loops[h] = (line, frozenset(bs))
                    self.fns[fn.name] = fn
        self._tsize = {}
        self.bydem = {f.dem: f for f in self.fns.values()}

    def tsize(self, t):
        r = self._tsize.get(t)
        if r is None:
            d = self.types[t]
            if d[0] == 'i':
                r = max(1, (d[1] + 7) // 8)
                if r not in (1, 2, 4, 8, 16):
                    r = 1 << (r - 1).bit_length()
            elif d[0] == 'f':
                r = d[1]
            elif d[0] == 'p':
                r = 8
            elif d[0] == 's':
                r = d[1]
            elif d[0] == 'a':
                r = d[1] * d[2]
            else:
                r = 0
            self._tsize[t] = r
        return r


class Obligation:
    __slots__ = ('label', 'status', 'method', 'detail', 'model', 'path')

    def __init__(self, label, status, method, detail, model, path):
        self.label = label
        self.status = status
        self.method = method
        self.detail = detail
        self.model = model
        self.path = path


RET, JMP, CALL, THROW = 1, 2, 3, 4

UNDEF_N = [0]


class Engine:
    def __init__(self, module, mode='unbounded', lens=None, handlers=None, budget=600, max_paths=4000, verbose=False):
        self.m = module
        self.mode = mode
        self.lens = lens or {}
        self.obls = []
        self.cut = set()
        self.eager = False
        self.folds = []
        self.used_contracts = {}
        self.functions_executed = set()
        self.assumptions = set()
        self.covers = set()
        self.handlers = {}
        self.handler_re = []
        self.inputs = {}       # name -> term (for counterexamples)
        self.deadline = time.time() + budget
        self.nbad = 0
        self.max_paths = max_paths
        self.verbose = verbose
        self.npaths = 0
        self.ninstr = 0
        self.loop_report = {}
        self.typeinfo_ids = {}
        self.gcache = {}
        self.check_safety = True
        self.pilot = 0
        self.loopvars = {}
        self.foldrecs = []
        self.nfold = 0
        self.loop_hints = {}
        self.user_handlers = handlers or {}
        import builtins_vc
        builtins_vc.install(self)
        for k, h in (handlers or {}).items():
            if k.startswith('re:'):
                self.handler_re.insert(0, (re.compile(k[3:]), h))
            else:
                self.handlers[k] = h
        self._hcache = {}

    # ------------------------------------------------------------------ values
    def fresh(self, sort, base='u'):
        UNDEF_N[0] += 1
        n = '%s#%d' % (base, UNDEF_N[0])
        if sort == 'R':
            return rvar(n)
        if sort == 'I':
            return ivar(n)
        if sort == 'B':
            return bvar(n)
        return mk('svar', (n,), 'S')

    def undef(self, tid):
        d = self.m.types[tid]
        if d[0] == 'f':
            return self.fresh('R', 'undef')
        if d[0] == 'i':
            if d[1] == 1:
                return self.fresh('B', 'undef')
            return self.fresh('I', 'undef')
        if d[0] == 'p':
            return NULL
        if d[0] == 's':
            return tuple(self.undef(t) for _, t in d[2])
        if d[0] == 'a':
            return tuple(self.undef(d[3]) for _ in range(d[1]))
        return None

    def zero(self, tid):
        d = self.m.types[tid]
        if d[0] == 'f':
            return ZERO
        if d[0] == 'i':
            return False if d[1] == 1 else 0
        if d[0] == 'p':
            return NULL
        if d[0] == 's':
            return tuple(self.zero(t) for _, t in d[2])
        if d[0] == 'a':
            return tuple(self.zero(d[3]) for _ in range(d[1]))

    def const(self, c, tid=None):
        k = c[0]
        if k == 'ci':
            if tid is not None and self.m.types[tid] == ['i', 1]:
                return bool(c[1])
            return c[1]
        if k == 'cf':
            v = parse_float(c[1])
            if v is None:
                v = self.fresh('R', 'nan')
            return v
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(c[1])
        if k == 'zero':
            return self.zero(c[1])
        if k == 'g':
            return Ptr('@' + c[1], 0)
        if k == 'cgep':
            p = self.const(c[1])
            return Ptr(p.o, p.off + c[2])
        if k == 'agg':
            return tuple(self.const(x, self.elem_type(c[1], i)) for i, x in enumerate(c[2]))
        raise Unsupported('constant ' + str(c)[:80])

    def elem_type(self, tid, i):
        d = self.m.types[tid]
        if d[0] == 's':
            return d[2][i][1]
        return d[3]

    # ------------------------------------------------------------------ objects
    def new_obj(self, st, size, kind, name):
        i = st.nobj
        st.nobj += 1
        o = Obj(i, size, kind, name)
        o.owner = st.tok
        st.mem[i] = o
        return o

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if isinstance(oid, str) and oid.startswith('@'):
                o = self.global_obj(st, oid)
                if o is None:
                    raise Unsupported('global ' + oid)
            else:
                raise Unsupported('dangling object %r' % (oid,))
        return o

    def wobj(self, st, oid):
        o = self.obj(st, oid)
        if o.owner is not st.tok:
            o = o.clone(st.tok)
            st.mem[oid] = o
        return o

    def global_obj(self, st, oid):
        g = self.m.globals.get(oid[1:])
        if g is None:
            return None
        o = Obj(oid, g['sz'], 'global', oid[1:])
        o.owner = st.tok
        o.const = g['c']
        st.mem[oid] = o
        if g['init'] is not None:
            try:
                self.init_const(o, 0, g['init'], g['t'])
            except Unsupported:
                pass
        elif oid[1:] == '__libc_single_threaded':     # no threads are created
            self.put(o, 0, g['sz'], 1)
        return o

    def init_const(self, o, off, c, tid):
        d = self.m.types[tid]
        if d[0] == 's':
            if c[0] == 'agg':
                for (fo, ft), x in zip(d[2], c[2]):
                    self.init_const(o, off + fo, x, ft)
            else:
                for fo, ft in d[2]:
                    self.init_const(o, off + fo, ['zero', ft] if c[0] == 'zero' else ['undef', ft], ft)
        elif d[0] == 'a':
            if c[0] == 'agg':
                for i, x in enumerate(c[2]):
                    self.init_const(o, off + i * d[2], x, d[3])
            elif c[0] == 'zero':
                if d[1] <= 4096:
                    for i in range(d[1]):
                        self.init_const(o, off + i * d[2], ['zero', d[3]], d[3])
        else:
            if c[0] == 'undef':
                return
            v = self.const(c, tid)
            self.put(o, off, self.m.tsize(tid), v)

    # ------------------------------------------------------------------ memory
    @staticmethod
    def put(o, off, size, v):
        d = o.d
        e = d.get(off)
        if e is not None and e[0] == size:
            d[off] = (size, v)
            return
        # remove overlapping entries (only when layout differs)
        if d:
            dead = None
            if size > 1:
                for x in range(off + 1, off + size):
                    if x in d:
                        if dead is None:
                            dead = []
                        dead.append(x)
            for back in (1, 2, 3, 4, 5, 6, 7, 8, 12):
                x = off - back
                e2 = d.get(x)
                if e2 is not None and x + e2[0] > off:
                    # split larger zero/concrete int
                    if dead is None:
                        dead = []
                    dead.append(x)
            if e is not None and e[0] > size:
                dead = (dead or [])
                dead.append(off)
            if dead:
                for x in dead:
                    sz, val = d.pop(x)
                    if isinstance(val, Poison):
                        continue
                    bs = tobytes(val, sz)
                    if bs is not None:
                        for j in range(sz):
                            a = x + j
                            if not (off <= a < off + size):
                                d[a] = (1, bs[j])
                    else:
                        if not (off <= x and x + sz <= off + size):
                            raise Unsupported('partial overwrite of a symbolic value')
        d[off] = (size, v)

    def load_scalar(self, st, oid, off, size, tag):
        """tag: 'i' 'f' 'p' 'b'"""
        if oid is None:
            raise Unsupported('null dereference')
        o = self.obj(st, oid)
        if not isinstance(off, int) or o.arr is not None or o.seq is not None or o.img is not None:
            return self.load_sym(st, o, off, size, tag)
        e = o.d.get(off)
        if e is not None and e[0] == size:
            v = e[1]
            return self.retag(v, size, tag)
        # compose
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size) and o.size > 0:
            raise Unsupported('out of bounds read %s+%s (size %s)' % (o.name, off, o.size))
        bs = []
        x = off
        while x < off + size:
            e = o.d.get(x)
            if e is None:
                # inside a bigger entry?
                found = None
                for back in range(1, 16):
                    e2 = o.d.get(x - back)
                    if e2 is not None:
                        if x - back + e2[0] > x:
                            found = (x - back, e2)
                        break
                if found is None:
                    bs = None
                    break
                b = tobytes(found[1][1], found[1][0])
                if b is None:
                    bs = None
                    break
                s = x - found[0]
                take = min(found[1][0] - s, off + size - x)
                bs += list(b[s:s + take])
                x += take
            else:
                b = tobytes(e[1], e[0])
                if b is None:
                    bs = None
                    break
                if x + e[0] > off + size:
                    b = b[:off + size - x]
                bs += list(b)
                x += len(b)
        if bs is not None and len(bs) == size:
            return frombytes(bs, size, tag)
        # parts: pack of two floats in an i64 etc.
        parts = []
        x = off
        ok = True
        while x < off + size:
            e = o.d.get(x)
            if e is None:
                ok = False
                break
            parts.append((x - off, e[0], e[1]))
            x += e[0]
        if ok and x == off + size and len(parts) > 1:
            return Packed(parts)
        if ok is False and parts and all(o.d.get(y) is None for y in range(x, off + size)):
            # trailing uninitialised padding
            return Packed(parts)
        r = self.uninit(o, off, size, tag)
        o2 = self.wobj(st, oid)
        try:
            self.put(o2, off, size, r)
        except Unsupported:
            pass
        return r

    def uninit(self, o, off, size, tag):
        if tag == 'f':
            return self.fresh('R', 'uninit_%s_%s' % (o.name, off))
        if tag == 'p':
            return NULL
        if tag == 'b':
            return self.fresh('B', 'uninit')
        return self.fresh('I', 'uninit_%s_%s' % (o.name, off))

    def retag(self, v, size, tag):
        if isinstance(v, Poison):
            raise PoisonRead(v, size, tag)
        if tag == 'f':
            if isinstance(v, (Fraction,)) or (isinstance(v, T) and v.sort == 'R'):
                return v
            if isinstance(v, int) and not isinstance(v, bool):
                b = (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
                return frombytes(list(b), size, 'f')
            if isinstance(v, Packed) and len(v.parts) == 1:
                return v.parts[0][2]
            if isinstance(v, IP):
                a = as_single_atom(v)
                if a is not None and a.op == 'bits':
                    return a.args[0]
                return mk('ofbits', (v, size), 'R') if False else ruf('ofbits%d' % size, (v,))
            raise Unsupported('retag to float of %r' % (v,))
        if tag == 'i':
            if isinstance(v, (int, IP, Ptr, Packed)):
                return v
            if isinstance(v, Fraction):
                if size == 4:
                    return int.from_bytes(struct.pack('<f', float(v)), 'little', signed=True)
                return int.from_bytes(struct.pack('<d', float(v)), 'little', signed=True)
            if isinstance(v, T) and v.sort == 'R':
                return iatom(mk('bits', (v,), 'I'))
            if isinstance(v, T) and v.sort == 'B':
                return iite(v, 1, 0)
            if isinstance(v, bool):
                return int(v)
        if tag == 'p':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, int):
                return Ptr(None, v)
            if isinstance(v, IP):
                return Ptr(None, v)
        if tag == 'b':
            if isinstance(v, bool) or (isinstance(v, T) and v.sort == 'B'):
                return v
            return self.to_bool(v)
        if isinstance(v, tuple):
            return v
        raise Unsupported('retag %s of %r' % (tag, v))

    def to_bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, T) and v.sort == 'B':
            return v
        if isinstance(v, IP):
            return bnot(ieq0(v))
        raise Unsupported('bool of %r' % (v,))

    # -- symbolic index
    def split(self, st, o, off):
        """-> (idx, field)"""
        if o.stride is None:
            g = 0
            if isinstance(off, IP):
                for k, c in off.m:
                    if k != ():
                        g = gcd(g, abs(c))
            if g == 0:
                return None
            if isinstance(o.size, IP):
                for k, c in o.size.m:
                    g = gcd(g, abs(c))
            self.wobj(st, o.id).stride = g
            o = self.obj(st, o.id)
        s = o.stride
        c = TM.iconst_part(off)
        rest = isub(off, c)
        q = TM.idivexact(rest, s)
        if q is None:
            g = 0
            for k, cc in rest.m:
                g = gcd(g, abs(cc))
            if (not o.arr) and o.seq is None and s % g == 0:
                self.wobj(st, o.id).stride = g
                return self.split(st, self.obj(st, o.id), off)
            # general: the field within the element must be constant for every value of the index:
            raise Unsupported('stride mismatch %s offset %s on %s' % (s, off, o.name))
        return iadd(q, c // s), c % s

    def mixed_stride(self, o, off):
        """an index finer than the element: (element, part, part size, offset in the part), or None"""
        if o.stride is None or not isinstance(off, IP):
            return None
        c = TM.iconst_part(off)
        rest = isub(off, c)
        if TM.idivexact(rest, o.stride) is not None:
            return None
        g = 0
        for k, cc in rest.m:
            g = gcd(g, abs(cc))
        if g == 0 or o.stride % g or o.stride // g > 16:
            return None
        m = iadd(TM.idivexact(rest, g), c // g)
        p = o.stride // g   # the access is in bounds, so m >= 0
        return TM.isdiv(m, p), TM.isrem(m, p), g, c % g

    def load_sym(self, st, o, off, size, tag):
        if o.img is not None:
            return self.load_img(st, o, off, size)
        if o.arr is None and o.seq is None:
            # symbolic offset into a concrete object: enumerate
            return self.load_enum(st, o, off, size, tag)
        mixed = self.mixed_stride(o, off) if o.arr and o.seq is None else None
        if mixed is not None:
            q, b, g, f = mixed
            r = None
            for x in reversed(range(o.stride // g)):
                if r is not None and not L.feasible(st.pc, ieq(b, x)):
                    continue
                v = self.load_sym(st, o, iadd(imul(q, o.stride), x * g + f), size, tag)
                o = self.obj(st, o.id)
                r = v if r is None else self.vite(ieq(b, x), v, r)
            return r
        sp = self.split(st, o, off)
        if sp is None:
            # concrete offset, no stride yet
            return self.load_noarr(st, o, off, size, tag)
        o = self.obj(st, o.id)
        idx, f = sp
        self.safety_index(st, o, idx, 'read')
        if o.seq is not None:
            return self.retag(self.seq_read(st, o.seq, o.seqlen, idx, f, size, tag), size, tag)
        e = o.arr.get(f)
        if e is None:
            # maybe part of a bigger/smaller field
            for fo, (sz, tg, ct) in o.arr.items():
                if fo < f < fo + sz or f < fo < f + size:
                    raise Unsupported('array field size mismatch %s' % o.name)
            ct = ('base', '%s@%s.%d' % (o.name, o.id, f))
            o2 = self.wobj(st, o.id)
            o2.arr[f] = (size, tag, ct)
            e = o2.arr[f]
        if e[0] != size:
            parts = []
            x = f
            while x < f + size:
                ee = o.arr.get(x)
                if ee is None or x + ee[0] > f + size:
                    break
                parts.append((x - f, ee[0], self.read_content(st, ee[2], idx, ee[1], ee[0])))
                x += ee[0]
            if x == f + size and len(parts) > 1:
                return Packed(parts)
            raise Unsupported('array field size %s vs %s in %s' % (e[0], size, o.name))
        return self.retag(self.read_content(st, e[2], idx, e[1] if e[1] != 'p' else tag, size), size, tag)

    def load_noarr(self, st, o, off, size, tag):
        raise Unsupported('array object without stride %s' % o.name)

    def offsets(self, st, o, off, size):
        lo, hi = irange(off)
        c = TM.iconst_part(off)
        g = 0
        for k, cc in off.m:
            if k != ():
                g = gcd(g, abs(cc))
        cands = [x for x in range(c % g, o.size - size + 1, g)]
        cands = [x for x in cands if (lo is None or x >= lo) and (hi is None or x <= hi)]
        if len(cands) > 64:
            raise Unsupported('symbolic index into %s' % o.name)
        cands = [x for x in cands if L.feasible(st.pc, ieq(off, x))]
        if not cands:
            raise Infeasible()
        return cands

    def load_enum(self, st, o, off, size, tag):
        if not isinstance(o.size, int):
            sp = self.split(st, o, off)
            o2 = self.wobj(st, o.id)
            self.to_array(st, o2)
            return self.load_sym(st, o2, off, size, tag)
        cands = self.offsets(st, o, off, size)
        r = self.load_scalar(st, o.id, cands[-1], size, tag)
        for x in reversed(cands[:-1]):
            r = ite(ieq(off, x), self.load_scalar(st, o.id, x, size, tag), r)
        return r

    def load_img(self, st, o, off, size):
        name, rows, cols, step, wr = o.img
        sid = TM.as_single_atom(step).id if isinstance(step, IP) else None
        if sid is None:
            if not isinstance(off, int):
                raise Unsupported('image access')
            q, r = off // step, off % step
        else:
            qd, rd = {}, {}
            if isinstance(off, int):
                q, r = 0, off
            else:
                for k, c in off.m:
                    if sid in k:
                        kk = list(k)
                        kk.remove(sid)
                        qd[tuple(kk)] = c
                    else:
                        rd[k] = c
                q, r = TM._ip(qd), TM._ip(rd)
        self.oblige_safe(st, 'pixel-in-bounds:%s' % name, band(ile(0, q), ilt(q, rows), ile(0, r), ilt(r, cols)))
        if size != 1:
            raise Unsupported('image pixel size')
        import builtins_vc
        return builtins_vc.pixel(self, name, q, r)

    def oblige_safe(self, st, label, goal):
        if not self.check_safety:
            return
        self.oblige(st, 'safety/' + label, goal)

    def safety_index(self, st, o, idx, what):
        pass

    def read_content(self, st, ct, idx, tag, size):
        k = ct[0]
        if k == 'write':
            _, prev, i, v = ct
            d = isub(idx, i)
            if isinstance(d, int):
                if d == 0:
                    return v
                return self.read_content(st, prev, idx, tag, size)
            c = ieq0(d)
            if c is False:
                return self.read_content(st, prev, idx, tag, size)
            if not L.feasible(st.pc, c):
                return self.read_content(st, prev, idx, tag, size)
            if not L.feasible(st.pc, bnot(c)):
                return v
            return self.vite(c, v, self.read_content(st, prev, idx, tag, size))
        if k == 'base':
            return self.base_read(ct[1], idx, tag, size)
        if k == 'const':
            return ct[1]
        if k == 'comp':
            # ('comp', prev, lo, cnt, step(+1/-1), kvar, value)
            _, prev, lo, cnt, step, kid, val = ct
            j = isub(idx, lo) if step == 1 else isub(lo, idx)
            c = band(ile(0, j), ilt(j, cnt))
            inside = lambda: subst(val, {kid: j}) if not isinstance(val, Ptr) else val
            if val is None:
                # placeholder used while the loop is being analysed
                if c is False or not L.feasible(st.pc, c):
                    return self.read_content(st, prev, idx, tag, size)
                raise Unsupported('loop reads elements written by earlier iterations')
            if c is True:
                return inside()
            if c is False or not L.feasible(st.pc, c):
                return self.read_content(st, prev, idx, tag, size)
            if not L.feasible(st.pc, bnot(c)):
                return inside()
            return self.vite(c, inside(), self.read_content(st, prev, idx, tag, size))
        if k == 'copy':
            # ('copy', prev, lo, cnt, src, slo)
            _, prev, lo, cnt, src, slo = ct
            j = isub(idx, lo)
            c = band(ile(0, j), ilt(j, cnt))
            if c is True or (c is not False and not L.feasible(st.pc, bnot(c))):
                return self.read_content(st, src, iadd(j, slo), tag, size)
            if c is False or not L.feasible(st.pc, c):
                return self.read_content(st, prev, idx, tag, size)
            return self.vite(c, self.read_content(st, src, iadd(j, slo), tag, size),
                             self.read_content(st, prev, idx, tag, size))
        if k == 'sq':
            # ('sq', prev, lo, cnt, sequence, field)
            _, prev, lo, cnt, seq, f = ct
            j = isub(idx, lo)
            c = band(ile(0, j), ilt(j, cnt))
            if c is True or (c is not False and not L.feasible(st.pc, bnot(c))):
                return self.seq_get(seq, j, f, size, tag)
            if c is False or not L.feasible(st.pc, c):
                return self.read_content(st, prev, idx, tag, size)
            return self.vite(c, self.seq_get(seq, j, f, size, tag), self.read_content(st, prev, idx, tag, size))
        if k == 'seq':
            return self.seq_read(st, ct[1], ct[2], idx, ct[3], size, tag)
        raise Unsupported('content ' + k)

    def seq_get(self, seq, j, f, size, tag):
        nm = 'get_%d_%d%s' % (f, size, tag)
        if tag == 'f':
            return ruf(nm, (seq, j))
        if tag == 'p':
            raise Unsupported('sequence of pointers')
        return iuf(nm, (seq, j))

    def vite(self, c, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == b:
                return a
            raise Unsupported('pointer-valued ite')
        return ite(c, a, b)

    def base_read(self, name, idx, tag, size):
        if tag == 'f':
            return ruf(name, (idx,))
        if tag == 'p':
            raise Unsupported('pointer array ' + name)
        return iuf(name, (idx,))

    def seq_read(self, st, seq, n, idx, f, size, tag):
        while True:
            if seq.op == 'sappend' and n is not None:
                last = isub(n, 1)
                d = isub(idx, last)
                same = (d == 0) if isinstance(d, int) else None
                if same is None:
                    c = ieq0(d)
                    if c is not False and not L.feasible(st.pc, bnot(c)):
                        same = True
                    elif c is False or not L.feasible(st.pc, c):
                        same = False
                    else:
                        a = self.field_of(seq, f, size, tag)
                        return self.vite(c, a, self.seq_read(st, seq.args[0], last, idx, f, size, tag))
                if same:
                    return self.field_of(seq, f, size, tag)
                seq = seq.args[0]
                n = last
                continue
            break
        if seq.op == 'site':
            c, a, b = seq.args
            # lengths differ between the branches; only support when resolved by the path condition
            if not L.feasible(st.pc, c):
                return self.seq_read(st, b, n, idx, f, size, tag)
            if not L.feasible(st.pc, bnot(c)):
                return self.seq_read(st, a, n, idx, f, size, tag)
        nm = 'get_%d_%d%s' % (f, size, tag)
        if tag == 'f':
            return ruf(nm, (seq, idx))
        return iuf(nm, (seq, idx))

    def field_of(self, seq, f, size, tag):
        for off, v in seq.args[1:]:
            if off == f:
                return v
        raise Unsupported('field %d of appended element' % f)

    def store_scalar(self, st, oid, off, size, v):
        if oid is None:
            raise Unsupported('store through null')
        o = self.wobj(st, oid)
        if isinstance(v, Packed):
            for po, ps, pv in v.parts:
                self.store_scalar(st, oid, iadd(off, po), ps, pv)
            return
        if isinstance(off, int) and o.arr is None and o.seq is None:
            if o.const:
                raise Unsupported('store to constant')
            if isinstance(o.size, int) and (off < 0 or off + size > o.size) and o.size > 0:
                self.oblige(st, 'safety/out-of-bounds-write:%s' % o.name, False)
                raise Infeasible()
            self.put(o, off, size, v)
            return
        if o.seq is not None:
            # convert to array mode over the sequence
            self.seq_to_arr(st, o)
        if o.arr is None:
            if isinstance(o.size, int):
                return self.store_enum(st, o, off, size, v)
            self.split(st, o, off)
            o = self.wobj(st, oid)
            self.to_array(st, o)
        sp = self.split(st, o, off)
        if sp is None:
            raise Unsupported('array store without stride into %s' % o.name)
        o = self.wobj(st, oid)
        idx, f = sp
        e = o.arr.get(f)
        tag = vtag(v)
        if e is None:
            for fo, (sz, tg, ct) in o.arr.items():
                if fo < f < fo + sz or f < fo < f + size:
                    raise Unsupported('array field size mismatch (store) %s' % o.name)
            ct = ('base', '%s@%s.%d' % (o.name, o.id, f))
        else:
            if e[0] != size:
                raise Unsupported('array field size mismatch (store) %s' % o.name)
            ct = e[2]
        if ct[0] == 'write' and (ct[2] is idx or (isinstance(idx, int) and isinstance(ct[2], int) and ct[2] == idx)):
            ct = ct[1]
        o.arr[f] = (size, tag, ('write', ct, idx, v))

    def to_array(self, st, o):
        """element-wise view of an object of symbolic size whose first elements were written one by one"""
        d = o.d
        if d and not o.stride:
            raise Unsupported('mixed array object %s' % o.name)
        o.arr = {}
        o.d = {}
        for off in sorted(d):
            size, v = d[off]
            if isinstance(v, Packed):
                for po, ps, pv in v.parts:
                    self.store_scalar(st, o.id, off + po, ps, pv)
            else:
                self.store_scalar(st, o.id, off, size, v)

    def store_enum(self, st, o, off, size, v):
        c = TM.iconst_part(off)
        g = 0
        for k, cc in off.m:
            if k != ():
                g = gcd(g, abs(cc))
        lo, hi = irange(off)
        cands = [x for x in range(c % g, o.size - size + 1, g)]
        cands = [x for x in cands if (lo is None or x >= lo) and (hi is None or x <= hi)]
        if len(cands) > 64:
            raise Unsupported('symbolic store into %s' % o.name)
        cands = [x for x in cands if L.feasible(st.pc, ieq(off, x))]
        tag = vtag(v)
        for x in cands:
            old = self.load_scalar(st, o.id, x, size, tag)
            self.put(self.wobj(st, o.id), x, size, self.vite(ieq(off, x), v, old))

    def seq_to_arr(self, st, o):
        seq, n = o.seq, o.seqlen
        o.seq = None
        o.seqlen = None
        o.arr = SeqArr(seq, n)

    def load(self, st, p, tid):
        d = self.m.types[tid]
        k = d[0]
        if k == 'f':
            return self.load_scalar(st, p.o, p.off, d[1], 'f')
        if k == 'p':
            return self.load_scalar(st, p.o, p.off, 8, 'p')
        if k == 'i':
            if d[1] == 1:
                return self.load_scalar(st, p.o, p.off, 1, 'b')
            return self.load_scalar(st, p.o, p.off, self.m.tsize(tid), 'i')
        if k == 's':
            return tuple(self.load(st, Ptr(p.o, iadd(p.off, fo)), ft) for fo, ft in d[2])
        if k == 'a':
            return tuple(self.load(st, Ptr(p.o, iadd(p.off, i * d[2])), d[3]) for i in range(d[1]))
        raise Unsupported('load type')

    def store(self, st, p, tid, v):
        d = self.m.types[tid]
        k = d[0]
        if k == 's':
            for (fo, ft), x in zip(d[2], v):
                self.store(st, Ptr(p.o, iadd(p.off, fo)), ft, x)
            return
        if k == 'a':
            for i in range(d[1]):
                self.store(st, Ptr(p.o, iadd(p.off, i * d[2])), d[3], v[i])
            return
        self.store_scalar(st, p.o, p.off, self.m.tsize(tid), v)

    def memcpy(self, st, dst, src, n):
        if isinstance(n, int) and n == 0:
            return
        so = self.obj(st, src.o)
        do = self.obj(st, dst.o)
        plain = lambda o, off: o.arr is None and o.seq is None and o.img is None and isinstance(off, int)
        if isinstance(n, int) and plain(so, src.off) and plain(do, dst.off) and (isinstance(do.size, int)):
            items = []
            for off, (sz, v) in so.d.items():
                if off >= src.off and off + sz <= src.off + n:
                    items.append((off - src.off, sz, v))
                elif off < src.off + n and off + sz > src.off:
                    b = tobytes(v, sz)
                    if b is None:
                        raise Unsupported('memcpy splits a symbolic value')
                    for j in range(sz):
                        if src.off <= off + j < src.off + n:
                            items.append((off + j - src.off, 1, b[j]))
            o = self.wobj(st, dst.o)
            if isinstance(o.size, int) and dst.off + n > o.size:
                self.oblige(st, 'safety/out-of-bounds-write:%s' % o.name, False)
                raise Infeasible()
            # clear destination range
            for x in [x for x, (sz, v) in o.d.items() if x >= dst.off and x + sz <= dst.off + n]:
                del o.d[x]
            for off, sz, v in items:
                self.put(o, dst.off + off, sz, v)
            return
        if isinstance(n, int):
            # element copy between array element and plain memory
            fields = self.fields_at(st, src, n)
            for off, sz, v in fields:
                self.store_scalar(st, dst.o, iadd(dst.off, off), sz, v)
            return
        # symbolic length: whole-element ranges
        self.copy_range(st, dst, src, n)

    def fields_at(self, st, p, n):
        """list of (off,size,value) of the n bytes at p"""
        o = self.obj(st, p.o)
        if o.arr is None and o.seq is None:
            if isinstance(p.off, int):
                out = []
                for off in sorted(o.d):
                    sz, v = o.d[off]
                    if off >= p.off and off + sz <= p.off + n:
                        out.append((off - p.off, sz, v))
                return out
            if isinstance(o.size, int):
                cands = self.offsets(st, o, p.off, n)
                outs = [self.fields_at(st, Ptr(p.o, x), n) for x in cands]
                if all([(a, b) for a, b, _ in y] == [(a, b) for a, b, _ in outs[0]] for y in outs):
                    out = []
                    for i, (off, sz, v) in enumerate(outs[-1]):
                        for x, y in zip(reversed(cands[:-1]), reversed(outs[:-1])):
                            v = self.vite(ieq(p.off, x), y[i][2], v)
                        out.append((off, sz, v))
                    return out
            raise Unsupported('fields_at')
        sp = self.split(st, o, p.off)
        if sp is None:
            raise Unsupported('fields_at stride')
        o = self.obj(st, p.o)
        idx, f = sp
        out = []
        if o.seq is not None:
            s = o.seq
            lay = self.seq_layout(s)
            if lay is None:
                raise Unsupported('layout of sequence unknown')
            for off, sz, tag in lay:
                if f <= off and off + sz <= f + n:
                    out.append((off - f, sz, self.seq_read(st, s, o.seqlen, idx, off, sz, tag)))
            return out
        for fo in sorted(o.arr):
            sz, tag, ct = o.arr[fo]
            if f <= fo and fo + sz <= f + n:
                out.append((fo - f, sz, self.read_content(st, ct, idx, tag, sz)))
        return out

    def seq_layout(self, s):
        lay = self.layouts.get(s.id) if hasattr(self, 'layouts') else None
        while s.op == 'sappend':
            return [(off, self.app_sizes.get((s.id, off), 4), vtag(v)) for off, v in s.args[1:]]
        if s.op == 'site':
            return self.seq_layout(s.args[1]) or self.seq_layout(s.args[2])
        if s.op == 'suf':
            m = re.match(r'F(\d+)\.(\d+)$', s.args[0])
            if m:
                fd = self.folds[int(m.group(1))]
                nx = fd.comps[int(m.group(2))][3]
                if nx is not None:
                    return self.seq_layout(nx)
        return None

    app_sizes = {}

    def do_append(self, st, o, fields):
        """append an element given as list (off,size,value) to a sequence object"""
        fs = tuple((off, v) for off, sz, v in sorted(fields, key=lambda x: x[0]))
        s = sappend(o.seq, fs)
        for off, sz, v in fields:
            self.app_sizes[(s.id, off)] = sz
        o.seq = s
        o.seqlen = iadd(o.seqlen, 1)

    def copy_range(self, st, dst, src, n):
        so = self.obj(st, src.o)
        do = self.obj(st, dst.o)
        if so.stride is None:
            raise Unsupported('symbolic memcpy without stride')
        s = so.stride
        cnt = TM.idivexact(n, s)
        if cnt is None:
            raise Unsupported('symbolic memcpy length')
        ssp = self.split(st, so, src.off) if not isinstance(src.off, int) else (src.off // s, src.off % s)
        o = self.wobj(st, dst.o)
        if o.stride is None:
            o.stride = s
        if o.stride != s:
            raise Unsupported('memcpy stride')
        dsp = self.split(st, o, dst.off) if not isinstance(dst.off, int) else (dst.off // s, dst.off % s)
        if ssp[1] or dsp[1]:
            raise Unsupported('memcpy mid-element')
        if so.seq is not None and isinstance(ssp[0], int) and ssp[0] == 0 and isinstance(dsp[0], int) and dsp[0] == 0 \
                and (o.arr is None or not o.arr):
            o.arr = None
            o.seq = so.seq
            o.seqlen = so.seqlen
            return
        src_arr = so.arr if so.seq is None else SeqArr(so.seq, so.seqlen)
        if o.arr is None:
            o.arr = {}
        items = src_arr.items_for(self) if isinstance(src_arr, SeqArr) else list(src_arr.items())
        for f, (sz, tag, ct) in items:
            prev = o.arr.get(f)
            pct = prev[2] if prev else ('base', '%s@%s.%d' % (o.name, o.id, f))
            o.arr[f] = (sz, tag, ('copy', pct, dsp[0], cnt, ct, ssp[0]))

    # ------------------------------------------------------------------ obligations
    def all_facts(self, st):
        out = list(st.pc)
        for (lo, hi, kid, form) in st.facts:
            for t in st.idx:
                g = band(ile(lo, t), ilt(t, hi))
                if g is False:
                    continue
                f = subst(form, {kid: t})
                out.append(bor(bnot(g), f))
        return out

    def oblige(self, st, label, goal, detail=None):
        if self.pilot:
            # the loop body is being analysed: the obligation is generated again in the final pass
            if not isinstance(goal, bool):
                st.pc.append(goal)
            return
        if isinstance(goal, bool) and goal:
            r = ('proved', 'syntactic')
        else:
            r = L.prove(goal, self.all_facts(st))
        self.record(st, label, r, detail or goal)
        if isinstance(goal, bool):
            if not goal and r[0] != 'proved':
                pass
        else:
            st.pc.append(goal)

    def oblige_eq(self, st, label, a, b):
        if self.pilot:
            return
        r = L.prove_equal(a, b, self.all_facts(st))
        self.record(st, label, r, (a, b))

    def record(self, st, label, r, detail):
        if self.pilot:
            return
        status, meth = r
        if status != 'proved':
            # the contract is already known not to be discharged: spend less on the remaining obligations
            self.nbad += 1
            if status == 'refuted':
                self.deadline = min(self.deadline, time.time() + 45)
            L.PROVE_MS = 2500 if self.nbad < 6 else 400
        if status != 'proved' and self.verbose:
            print('   OBLIGATION', label, status, str(detail)[:2000])
        if status == 'proved':
            self.obls.append(Obligation(label, status, meth, None, None, None))
        else:
            model = meth if status == 'refuted' else None
            vals = self.model_values(model) if model is not None else None
            self.obls.append(Obligation(label, status, 'z3', str(detail)[:4000], vals, list(st.trace)[-20:]))

    def model_values(self, model):
        import z3
        out = {}
        for name, t in self.inputs.items():
            try:
                v = model.eval(L.zt(t), model_completion=True)
                if z3.is_int_value(v):
                    out[name] = float(v.as_long())
                elif z3.is_rational_value(v):
                    out[name] = float(v.as_fraction())
                elif z3.is_algebraic_value(v):
                    out[name] = float(v.approx(20).as_fraction())
                elif z3.is_true(v) or z3.is_false(v):
                    out[name] = 1.0 if z3.is_true(v) else 0.0
            except Exception:
                pass
        return out

    # ------------------------------------------------------------------ compile
    def compile(self, fn):
        import icomp
        fn.code = icomp.compile_fn(self, fn)
        return fn.code

    def handler_for(self, fn):
        h = self._hcache.get(fn.name, 0)
        if h != 0:
            return h
        h = self.handlers.get(fn.name)
        if h is None:
            h = self.handlers.get('n:' + fn.norm)
        if h is None:
            for rx, hh in self.handler_re:
                if rx.search(fn.dem):
                    h = hh
                    break
        self._hcache[fn.name] = h
        return h

    def call(self, st, fname, args, ret_dest, ret_to, unwind, site, byval=None):
        """push a frame, or run a handler.  Returns None if handled immediately (value stored), or CALL."""
        fn = self.m.fns.get(fname)
        if fn is None:
            raise Unsupported('call to unknown symbol ' + fname)
        h = self.handler_for(fn)
        fr = st.frames[-1]
        if h is not None:
            r = h(self, st, fn, args)
            if r is not NotImplemented:
                if r is CALLPUSHED:
                    # handler pushed a frame itself; it must deliver to ret_dest on return
                    top = st.frames[-1]
                    top.ret_dest, top.ret_to, top.unwind = ret_dest, ret_to, unwind
                    top.site = site
                    return CALL
                if isinstance(r, Throw):
                    return self.throw(st, r, unwind)
                if isinstance(r, Cases):
                    if ret_to is not None:
                        raise Unsupported('enumeration in an invoke')
                    def setter(v):
                        def f(s, g):
                            g.regs[ret_dest] = v
                        return f
                    return ('forkval', [(c, setter(v)) for c, v in r.alts])
                if ret_dest >= 0:
                    fr.regs[ret_dest] = r
                if ret_to is not None:
                    return ('goto', ret_to)
                return None
        if fn.decl:
            raise Unsupported('external function ' + fn.dem)
        self.push(st, fn, args, ret_dest, ret_to, unwind, site)
        return CALL

    def push(self, st, fn, args, ret_dest, ret_to, unwind, site):
        if fn.code is None:
            self.compile(fn)
        self.functions_executed.add(fn.name)
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        f = Frame()
        f.fn = fn
        f.regs = list(args) + [None] * (fn.nv - len(args))
        f.blk = 0
        f.ip = 0
        f.prev = -1
        f.ret_dest = ret_dest
        f.ret_to = ret_to
        f.unwind = unwind
        f.loops = {}
        f.site = site
        f.on_ret = None
        f.allocas = {}
        f.exc = None
        st.frames.append(f)

    def throw(self, st, th, unwind_of_top=None):
        """unwind; returns a control token"""
        st.throws = th
        # the top frame is the one executing the call/resume
        return self.unwind_from(st, th, unwind_of_top)

    def unwind_from(self, st, th, uw):
        while True:
            if uw is not None:
                return self.land(st, st.frames[-1], uw, th)
            # pop this frame; look at how its caller invoked it
            popped = st.frames.pop()
            if not st.frames:
                self.record(st, 'no-uncaught-exception', ('refuted' if True else '', None), 'uncaught %s' % (th.ti,))
                return 'end'
            uw = popped.unwind
            if st.sub is not None and len(st.frames) < st.sub.depth:
                return ('subexit', 'throw', uw, th)

    def land(self, st, fr, blk, th):
        fr.exc = th
        return ('goto', blk)

    # ------------------------------------------------------------------ run
    def run(self, entry):
        restarts = 0
        while True:
            try:
                self.obls = []
                self.folds = []
                self.foldrecs = []
                self.loopvars = {}
                self.covers = set()
                self.npaths = 0
                self.loop_report = {}
                self._run(entry)
                return
            except PoisonRead as p:
                an = p.poison.owner
                idn = an.ident(p.poison.cell)
                if idn in an.hints:
                    raise Unsupported('value after the loop %s is not described: %s' % (an.where, idn))
                an.hints.add(idn)
                restarts += 1
                self.pilot = 0
                if restarts > 60:
                    raise Unsupported('too many restarts')
            except Restart:
                self.pilot = 0
                restarts += 1
                if restarts > 60:
                    raise Unsupported('too many restarts')

    def _run(self, entry):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.tok = object()
        st.nobj = 1
        st.facts = []
        st.idx = []
        st.trace = []
        st.sub = None
        st.ghost = {}
        st.throws = None
        st.nloop = 0
        self.push(st, self.m.fns[entry], [], -1, None, None, None)
        self.explore([st], None)

    def explore(self, work, sub):
        """run all states in work to completion.  sub: None or SubRun collecting loop-body results"""
        results = []
        while work:
            st = work.pop()
            st.sub = sub
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            try:
                end = self.run_state(st, work)
            except Infeasible:
                continue
            if sub is None:
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Unsupported('too many paths')
            else:
                if end is not None and end[0] != 'dead':
                    results.append((end, st))
                    if len(results) > 3000:
                        raise Unsupported('too many paths in a loop body')
        return results

    def run_state(self, st, work):
        while True:
            fr = st.frames[-1]
            code = fr.fn.code[fr.blk]
            n = len(code)
            ctl = None
            while fr.ip < n:
                ins = code[fr.ip]
                fr.ip += 1
                self.ninstr += 1
                ctl = ins(st, fr)
                if ctl is not None:
                    break
            if ctl is None:
                raise Unsupported('fell off block')
            if ctl is CALL:
                continue
            if ctl == 'end':
                return ('end',)
            if ctl == 'return_done':
                return ('end',)
            k = ctl[0]
            if k == 'goto':
                r = self.enter_block(st, st.frames[-1], ctl[1], work)
                if r is not None:
                    return r
                continue
            if k == 'br':
                # symbolic branch (cond, t, f)
                _, c, t, f = ctl
                r = self.branch(st, fr, c, t, f, work)
                if r is not None:
                    return r
                continue
            if k == 'fork':
                # list of (cond, blk)
                alts = [(c, b) for c, b in ctl[1] if c is not False and L.feasible(st.pc, c)]
                if not alts:
                    raise Infeasible()
                for c, b in alts[1:]:
                    s2 = st.copy()
                    if c is not True:
                        s2.pc.append(c)
                    r = self.enter_block(s2, s2.frames[-1], b, work)
                    if r is None:
                        work.append(s2)
                    elif st.sub is not None and r[0] != 'dead':
                        st.sub.extra.append((r, s2))
                c, b = alts[0]
                if c is not True:
                    st.pc.append(c)
                r = self.enter_block(st, st.frames[-1], b, work)
                if r is not None:
                    return r
                continue
            if k == 'forkval':
                # fork on alternatives: list of (cond, fn(state)) then continue same instruction stream
                alts = [(c, g) for c, g in ctl[1] if c is not False and L.feasible(st.pc, c)]
                if not alts:
                    raise Infeasible()
                for c, g in alts[1:]:
                    s2 = st.copy()
                    if c is not True:
                        s2.pc.append(c)
                    g(s2, s2.frames[-1])
                    work.append(s2)
                c, g = alts[0]
                if c is not True:
                    st.pc.append(c)
                g(st, st.frames[-1])
                continue
            if k == 'subexit':
                return ctl
            raise Unsupported('control ' + str(ctl))

    def branch(self, st, fr, c, t, f, work):
        ft = L.feasible(st.pc, c)
        ff = L.feasible(st.pc, bnot(c))
        if ft and ff:
            # symbolic loop exit?
            self.note_symbolic_exit(st, fr, t, f, c)
            s2 = st.copy()
            s2.pc.append(bnot(c))
            r2 = self.enter_block(s2, s2.frames[-1], f, work)
            if r2 is None:
                work.append(s2)
            elif st.sub is not None and r2[0] != 'dead':
                st.sub.extra.append((r2, s2))
            st.pc.append(c)
            return self.enter_block(st, st.frames[-1], t, work)
        if self.mode == 'unbounded' and (ft or ff):
            self.note_symbolic_exit(st, fr, t, f, c, True)
        if ft:
            st.pc.append(c)
            return self.enter_block(st, fr, t, work)
        if ff:
            st.pc.append(bnot(c))
            return self.enter_block(st, fr, f, work)
        raise Infeasible()

    def loop_key(self, st, fr, h):
        return tuple((g.fn.name, g.site) for g in st.frames if True) + (h,)

    def note_symbolic_exit(self, st, fr, t, f, c, forced=False):
        for h, (line, blocks) in fr.fn.loops.items():
            if fr.blk in blocks and h in fr.loops:
                ex_t, ex_f = t not in blocks, f not in blocks
                cc = c.args[0] if c.op == 'not' else c
                chain = not ex_t and not ex_f and not forced and cc.op in ('ile0', 'ieq0') and self.is_header_exit(fr.fn, h, fr.blk)
                if ex_t != ex_f or chain:
                    inst = fr.loops[h]
                    if inst.get('cut'):
                        continue
                    if chain:
                        # part of a compound loop condition
                        inst['chain'] = inst.get('chain', 0) + 1
                        if inst['chain'] < 10:
                            continue
                        inst['sym'] = 100
                    if forced:
                        # decided by the solver only: the trip count may still be symbolic
                        inst['sem'] = inst.get('sem', 0) + 1
                        if inst['sem'] < (1 if self.eager and self.mode == 'unbounded' else 6) or not self.is_header_exit(fr.fn, h, fr.blk):
                            continue
                        inst['sym'] = 100
                    inst['sym'] = inst.get('sym', 0) + 1
                    # header-controlled exit -> cut at once; early exit -> after many iterations
                    hdr = fr.fn.blocks
                    cc = c.args[0] if c.op == 'not' else c
                    lim = 1 if cc.op in ('ile0', 'ieq0') and self.is_header_exit(fr.fn, h, fr.blk) else 24
                    if self.mode != 'unbounded':
                        lim = 64
                    if inst['sym'] >= lim:
                        if self.mode != 'unbounded':
                            raise Unsupported('unbounded loop in bounded mode: %s' % fr.fn.dem)
                        key = self.loop_key(st, fr, h)
                        if key in self.cut:
                            raise Unsupported('loop cut twice')
                        self.cut.add(key)
                        raise Restart()

    def is_header_exit(self, fn, h, b):
        """the exiting block is the header, or reached from it only through side-effect free condition blocks"""
        if b == h:
            return True
        # chain of condition evaluation: header -> ... -> b without stores/calls with effects is approximated by
        # "b is not dominated by a body block": allow up to 8 blocks before b in numbering starting at h
        return 0 < b - h <= 8 and all(self.pure_block(fn, x) for x in range(h, b))

    def pure_block(self, fn, b):
        for ins in fn.blocks[b]:
            if ins[0] == 'store':
                return False
        return True

    # ------------------------------------------------------------------ loops
    def enter_block(self, st, fr, blk, work):
        prev = fr.blk
        fn = fr.fn
        if fn.loops:
            # leaving loops
            if fr.loops:
                for h in list(fr.loops):
                    if blk not in fn.loops[h][1]:
                        self.leave_loop(st, fr, h)
                        if st.sub is not None and st.sub.key == (len(st.frames), fn.name, h) and st.sub.active:
                            fr.prev, fr.blk, fr.ip = prev, blk, 0
                            return ('subexit', 'exit', prev, blk)
            if blk in fn.loops:
                h = blk
                blocks = fn.loops[h][1]
                if prev in blocks and h in fr.loops:
                    inst = fr.loops[h]
                    inst['n'] = inst.get('n', 0) + 1
                    if st.sub is not None and st.sub.key == (len(st.frames), fn.name, h):
                        fr.prev, fr.blk, fr.ip = prev, blk, 0
                        return ('back',)
                    if inst.get('cut'):
                        # inductive step already discharged by the analysis
                        return ('dead',)
                    if inst['n'] > 5000:
                        raise Unsupported('loop unrolled too far in ' + fn.dem)
                    fr.loops[h] = dict(inst)
                else:
                    fr.loops[h] = {}
                    if self.loop_key(st, fr, h) in self.cut:
                        fr.prev, fr.blk, fr.ip = prev, blk, 0
                        self.exec_phis(st, fr, prev, blk)
                        import loops
                        return loops.cut_loop(self, st, fr, h, work)
        fr.prev, fr.blk, fr.ip = prev, blk, 0
        self.exec_phis(st, fr, prev, blk)
        return None

    def leave_loop(self, st, fr, h):
        inst = fr.loops.pop(h)
        if inst.get('cut'):
            import loops
            loops.on_exit(self, st, fr, h, inst)

    def exec_phis(self, st, fr, prev, blk):
        phis = fr.fn.raw[blk] if hasattr(fr.fn, 'raw') and fr.fn.raw else None
        if phis:
            vals = []
            for dest, inc in phis:
                vals.append((dest, inc[prev](fr)))
            for d, v in vals:
                fr.regs[d] = v


class Packed:
    """a scalar register value assembled from several memory fields (ABI-coerced structs)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class Cases:
    """result of a handler: one path per (condition, value)"""
    def __init__(self, alts):
        self.alts = alts


class Throw:
    __slots__ = ('ti', 'ptr')

    def __init__(self, ti, ptr=NULL):
        self.ti = ti
        self.ptr = ptr


class SeqArr(dict):
    """array view of a sequence object after element stores"""
    def __init__(self, seq, n):
        super().__init__()
        self.seq = seq
        self.n = n

    def get(self, f, default=None):
        if f in self:
            return dict.get(self, f)
        return default

    def items_for(self, eng):
        lay = eng.seq_layout(self.seq)
        if lay is None:
            raise Unsupported('layout of sequence')
        return [(off, (sz, tag, ('seq', self.seq, self.n, off))) for off, sz, tag in lay]


CALLPUSHED = object()


def vtag(v):
    if isinstance(v, (Fraction,)) or (isinstance(v, T) and v.sort == 'R'):
        return 'f'
    if isinstance(v, Ptr):
        return 'p'
    return 'i'


def tobytes(v, size):
    if isinstance(v, bool):
        return bytes([int(v)] + [0] * (size - 1))
    if isinstance(v, int):
        return (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
    if isinstance(v, Fraction):
        try:
            return struct.pack('<f' if size == 4 else '<d', float(v)) if size in (4, 8) else None
        except OverflowError:
            return None
    if isinstance(v, Ptr) and v.o is None and isinstance(v.off, int):
        return (v.off & ((1 << 64) - 1)).to_bytes(8, 'little')
    return None


def frombytes(bs, size, tag):
    b = bytes(bs)
    if tag == 'f':
        x = struct.unpack('<f' if size == 4 else '<d', b)[0]
        if math.isnan(x):
            return rvar('nan')
        if math.isinf(x):
            return Fraction(2) ** 5000 * (1 if x > 0 else -1)
        return Fraction(x)
    x = int.from_bytes(b, 'little', signed=True)
    if tag == 'p':
        return NULL if x == 0 else Ptr(None, x)
    if tag == 'b':
        return bool(x & 1)
    return x
