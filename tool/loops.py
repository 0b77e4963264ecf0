"""Loops with a symbolic trip count: inference and proof of an inductive description.

A loop that the symbolic execution cannot finish is replaced by its description after an arbitrary number k >= 0 of iterations:
  * every location the body changes is found by executing the body from a state in which the already known changed locations hold
    arbitrary values, until no new location appears (anything else is proved unchanged);
  * an integer or pointer whose change per iteration is loop invariant is  start + k * step;
  * an array written at one element per iteration is an element-wise map (comprehension);
  * an array appended to on some paths is a recursively defined sequence;
  * every other location that is read again is a component of a recursively defined function F(0) = start, F(k+1) = next(F(k), k);
  * all remaining locations are unknown, and reading them is an error.
The description is inductive by construction: the body is executed once more from the description at k and must produce it at k + 1.
Two recursive definitions are identified when their steps are proved equal (equality by induction over k).
"""
import itertools
from math import gcd
import re
import terms as TM
from terms import *
import logic as L
import sample
import engine as EN
from engine import Ptr, NULL, Unsupported, Infeasible, Poison, PoisonRead, Packed, vtag


class Sub:
    def __init__(self, key, depth):
        self.key = key
        self.depth = depth
        self.active = True
        self.extra = []


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, (T, IP)) or isinstance(b, (T, IP)):
        return False
    if isinstance(a, Packed) and isinstance(b, Packed):
        return len(a.parts) == len(b.parts) and all(x[0] == y[0] and x[1] == y[1] and veq(x[2], y[2]) for x, y in zip(a.parts, b.parts))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ substitution in a whole state
def sub_val(v, m, cache):
    if isinstance(v, (T, IP)):
        return subst(v, m, cache)
    if isinstance(v, Ptr):
        if isinstance(v.off, IP):
            return Ptr(v.o, subst(v.off, m, cache))
        return v
    if isinstance(v, Packed):
        return Packed([(o, s, sub_val(x, m, cache)) for o, s, x in v.parts])
    if isinstance(v, tuple):
        return tuple(sub_val(x, m, cache) for x in v)
    return v


def sub_ct(ct, m, cache, memo):
    r = memo.get(id(ct))
    if r is not None:
        return r[1]
    k = ct[0]
    if k == 'write':
        r = ('write', sub_ct(ct[1], m, cache, memo), sub_val(ct[2], m, cache), sub_val(ct[3], m, cache))
    elif k == 'comp':
        mm, cc = m, cache
        if ct[5] in m:
            mm = {a: b for a, b in m.items() if a != ct[5]}
            cc = {}
        r = ('comp', sub_ct(ct[1], m, cache, memo), sub_val(ct[2], m, cache), sub_val(ct[3], m, cache), ct[4], ct[5],
             sub_val(ct[6], mm, cc))
    elif k == 'copy':
        r = ('copy', sub_ct(ct[1], m, cache, memo), sub_val(ct[2], m, cache), sub_val(ct[3], m, cache),
             sub_ct(ct[4], m, cache, memo), sub_val(ct[5], m, cache))
    elif k == 'sq':
        r = ('sq', sub_ct(ct[1], m, cache, memo), sub_val(ct[2], m, cache), sub_val(ct[3], m, cache), sub_val(ct[4], m, cache), ct[5])
    elif k == 'const':
        r = ('const', sub_val(ct[1], m, cache))
    else:
        r = ct
    if r[1:] == ct[1:] and all(a is b for a, b in zip(r, ct)):
        r = ct
    memo[id(ct)] = (ct, r)
    return r


def sub_state(E, st, m):
    cache, memo = {}, {}
    for fr in st.frames:
        fr.regs = [sub_val(v, m, cache) for v in fr.regs]
    for oid, o in list(st.mem.items()):
        ch = {}
        for off, (sz, v) in o.d.items():
            if isinstance(v, (T, IP, Ptr, Packed, tuple)):
                w = sub_val(v, m, cache)
                if w is not v and not veq(w, v):
                    ch[off] = (sz, w)
        arr = None
        if o.arr:
            for f, (sz, tg, ct) in o.arr.items():
                c2 = sub_ct(ct, m, cache, memo)
                if c2 is not ct:
                    arr = arr or {}
                    arr[f] = (sz, tg, c2)
        size = sub_val(o.size, m, cache) if isinstance(o.size, IP) else o.size
        img = sub_val(o.img, m, cache) if o.img is not None else None
        if ch or arr or size is not o.size:
            o2 = E.wobj(st, oid)
            o2.d.update(ch)
            if arr:
                o2.arr.update(arr)
            o2.size = size
            if img is not None:
                o2.img = img
    st.pc = [sub_val(c, m, cache) for c in st.pc]
    st.pc = [c for c in st.pc if c is not True]
    if any(c is False for c in st.pc):
        raise Infeasible()
    st.facts = [(sub_val(a, m, cache), sub_val(b, m, cache), kid, sub_val(f, {x: y for x, y in m.items() if x != kid}, {}))
                for a, b, kid, f in st.facts]
    st.idx = [sub_val(x, m, cache) for x in st.idx]
    for k, v in list(st.ghost.items()):
        if isinstance(v, tuple):
            st.ghost[k] = sub_val(v, m, cache)


# ------------------------------------------------------------------ continuing after the loop
def resume(E, s, end, outer, work):
    s.sub = outer
    kind = end[1]
    if kind in ('ret', 'throw') and outer is not None and len(s.frames) < outer.depth:
        outer.extra.append((end, s))
        return
    if kind == 'exit':
        fr = s.frames[-1]
        fr.blk = end[2]
        blk = end[3]
    elif kind == 'ret':
        if end[2] is None:
            work.append(s)
            return
        blk = end[2]
    else:
        ctl = E.unwind_from(s, end[3], end[2])
        if ctl == 'end':
            E.npaths += 1
            return
        if ctl[0] == 'subexit':
            outer.extra.append((ctl, s))
            return
        blk = ctl[1]
    r = E.enter_block(s, s.frames[-1], blk, work)
    if r is None:
        work.append(s)
    elif outer is not None and r[0] != 'dead':
        outer.extra.append((r, s))


UID = [0]


def cut_loop(E, st, fr, h, work):
    outer = st.sub
    an = Analysis(E, st, fr, h)
    for end, s in an.run():
        resume(E, s, end, outer, work)
    return ('dead',)


def on_exit(E, st, fr, h, inst):
    return None


class Analysis:
    def __init__(self, E, st, fr, h):
        self.E = E
        self.base = st
        self.h = h
        self.key = E.loop_key(st, fr, h)
        UID[0] += 1
        self.uid = UID[0]
        fr.loops[h] = {'cut': True}
        self.subkey = (len(st.frames), fr.fn.name, h)
        self.k = ivar('k!%d' % self.uid, 0, 2**40)
        self.kid = TM.var_id(self.k)
        self.live = {}        # cell -> tag
        self.junk = {}        # cell -> size
        self.arrs = set()
        self.ghosts = set()
        self.affine = {}      # cell -> step
        self.closed = {}      # cell -> value at the start of iteration k, as a term in k
        self.notclosed = set()
        self.arrkind = {}     # oid -> ('comp', lo, step) | ('app', cell) | ('unknown',)
        self.seqsym = {}      # oid -> S variable
        self.syms = {}        # cell -> variable
        self.lo = {}
        self.cands = {}       # cell -> list of candidate invariants (functions of value, k)
        self.kinvs = []       # conditions on the iteration number that every iteration starts with
        self.tok = object()
        self.line = fr.fn.loops[h][0]
        self.where = '%s:%s (%s)' % ((fr.fn.file or '?').replace('/repo/', ''), self.line, fr.fn.norm)
        self.hints = E.loop_hints.setdefault(self.key, set())

    # -- cells
    def ident(self, cell):
        oid, off = cell
        o = self.base.mem.get(oid)
        return (o.name if o is not None else None, o.kind if o is not None else None, off)

    def base_val(self, cell):
        oid, off = cell
        e = self.E.obj(self.base, oid).d.get(off)
        return e

    def stride_of(self, v):
        """scale and constant part used for a pointer value"""
        o = self.E.obj(self.base, v.o) if v.o is not None else None
        s = o.stride if o is not None and o.stride else 1
        if o is not None and not o.stride and isinstance(o.size, IP):
            s = 0
            for _, co in o.size.m:
                s = gcd(s, abs(co))
        c = TM.iconst_part(v.off) % s
        q = TM.idivexact(isub(v.off, c), s)
        if q is None:
            s, c = 1, 0
        return s, c

    def sym(self, cell, tag):
        x = self.syms.get(cell)
        if x is None:
            n = 'L%d.%d' % (self.uid, len(self.syms))
            x = {'f': lambda: rvar(n), 'i': lambda: ivar(n, self.lo.get(cell)), 'p': lambda: ivar(n, self.lo.get(cell)), 'b': lambda: bvar(n)}[tag]()
            self.syms[cell] = x
        return x

    def havoc_value(self, cell):
        tag = self.live[cell]
        e = self.base_val(cell)
        v = e[1] if e is not None else None
        if cell in self.affine:
            step = self.affine[cell]
            if isinstance(v, Ptr):
                return Ptr(v.o, iadd(v.off, imul(step, self.k)))
            return iadd(v, imul(step, self.k))
        if cell in self.closed:
            return self.closed[cell]
        x = self.sym(cell, tag)
        if tag == 'p':
            if not isinstance(v, Ptr) or v.o is None:
                raise Unsupported('pointer changed by a loop: %s' % (self.ident(cell),))
            s, c = self.stride_of(v)
            return Ptr(v.o, iadd(imulc(x, s), c))
        return x

    def to_comp(self, cell, v):
        """value in the representation of the component (pointers: element index)"""
        if self.live[cell] == 'p':
            b = self.base_val(cell)[1]
            if not isinstance(v, Ptr) or v.o != b.o:
                raise Unsupported('pointer to another object after the loop body: %s' % (self.ident(cell),))
            s, c = self.stride_of(b)
            q = TM.idivexact(isub(v.off, c), s)
            if q is None:
                raise Unsupported('pointer step')
            return q
        tag = self.live[cell]
        if isinstance(v, Poison):
            raise PoisonRead(v, None, None)
        return self.E.retag(v, self.size_of(cell), 'i' if tag == 'i' else tag)

    def size_of(self, cell):
        e = self.base_val(cell)
        return e[0] if e is not None else self.junk[cell]

    # -- executing the body
    def havoc(self, final):
        E = self.E
        st = self.base.copy()
        st.nloop += 1
        for cell, size in self.junk.items():
            o = E.wobj(st, cell[0])
            self.clear(o, cell[1], size)
            if cell in self.live:
                o.d[cell[1]] = (size, self.havoc_value(cell))
            else:
                o.d[cell[1]] = (size, Poison(self, cell))
        for oid in self.arrs:
            o = E.wobj(st, oid)
            if o.arr is None:
                o.arr = {}
            kind = self.arrkind.get(oid) if final else None
            for f, (sz, tag, ct) in list(self.fields(oid).items()):
                kd = kind[f] if isinstance(kind, dict) else kind
                if kd is None or kd[0] == 'unknown':
                    nct = ('base', 'hv%d_%s_%d' % (self.uid, oid, f))
                elif kd[0] == 'none':
                    nct = ct
                elif kd[0] == 'comp':
                    nct = ('comp', ct, kd[1], self.k, kd[2], self.kid, None)
                else:
                    L0 = self.init(kd[1])
                    nct = ('sq', ct, L0, isub(self.sym(kd[1], self.live[kd[1]]), L0), self.seqsym[oid], f)
                o.arr[f] = (sz, tag, nct)
        for g in self.ghosts:
            st.ghost.pop(g, None)
        if final:
            for c in self.kinvs:
                st.pc.append(c)
            for c in self.invariants(lambda cell: self.sym(cell, self.live[cell]), self.k):
                if c is not True:
                    st.pc.append(c)
        self.npc = len(st.pc)
        self.hav = st.copy()
        return st

    def fields(self, oid):
        """array fields known before the loop or written by it"""
        o = self.E.obj(self.base, oid)
        r = dict(o.arr) if o.arr is not None else {}
        for f, (sz, tag) in self.newfields.get(oid, {}).items():
            if f not in r:
                r[f] = (sz, tag, ('base', '%s@%s.%d' % (o.name, oid, f)))
        return r

    newfields = None

    @staticmethod
    def clear(o, off, size):
        for x in [x for x, (sz, v) in o.d.items() if x < off + size and x + sz > off]:
            del o.d[x]

    def body(self, final=False):
        E = self.E
        while True:
            st = self.havoc(final)
            fr = st.frames[-1]
            fr.loops[self.h] = {'cut': True}
            sub = Sub(self.subkey, len(st.frames))
            n0 = EN.UNDEF_N[0]
            try:
                res = E.explore([st], sub)
                res = list(res) + list(sub.extra)
            except PoisonRead as p:
                if p.poison.owner is not self:
                    raise
                if not self.make_live(p.poison.cell, p.tag):
                    raise Unsupported('value of an earlier iteration is needed: %s' % (self.ident(p.poison.cell),))
                if final:
                    return None
                continue
            self.fresh_from = n0
            return res

    def make_live(self, cell, tag):
        if cell in self.live:
            return False
        e = self.base_val(cell)
        v = e[1] if e is not None else None
        if isinstance(v, Ptr):
            tag = 'p'
        elif isreal(v):
            tag = 'f'
        elif isinstance(v, bool) or (isinstance(v, T) and v.sort == 'B'):
            tag = 'b'
        elif isinstance(v, (int, IP)):
            tag = 'i'
        if tag is None or (tag == 'p' and not isinstance(v, Ptr)):
            return False
        self.live[cell] = tag
        return True

    def init(self, cell):
        e = self.base_val(cell)
        if e is None or isinstance(e[1], Poison):
            tag = self.live[cell]
            return self.E.fresh({'f': 'R', 'i': 'I', 'p': 'I', 'b': 'B'}[tag], 'uninit')
        return self.to_comp(cell, e[1])

    # -- which locations change
    def collect(self, res):
        E = self.E
        grew = False
        base = self.base
        for end, s in res:
            if end[0] != 'back':
                continue
            for oid, o0 in self.hav.mem.items():
                o1 = s.mem.get(oid)
                if o1 is o0:
                    continue
                if o1 is None:
                    raise Unsupported('object released in a loop: %s' % o0.name)
                if o1.img is not o0.img and not veq(o1.img, o0.img):
                    raise Unsupported('image changed by a loop')
                for off in set(o0.d) | set(o1.d):
                    e0, e1 = o0.d.get(off), o1.d.get(off)
                    if e0 is not None and e1 is not None and e0[0] == e1[0] and veq(e0[1], e1[1]):
                        continue
                    if e0 is None and off not in base_d(base, oid) and self.uninit_only(e1):
                        continue
                    cell = (oid, off)
                    if cell not in self.junk:
                        size = max(e0[0] if e0 else 0, e1[0] if e1 else 0)
                        eb = base_d(base, oid).get(off)
                        if eb is not None:
                            size = eb[0]
                        elif any(x < off + size and x + sz > off for x, (sz, v) in base_d(base, oid).items()):
                            # layout differs from the one before the loop: covered by the other cells
                            covers = [x for x, (sz, v) in base_d(base, oid).items() if x < off + size and x + sz > off]
                            for x in covers:
                                if (oid, x) not in self.junk:
                                    self.junk[(oid, x)] = base_d(base, oid)[x][0]
                                    grew = True
                            continue
                        self.junk[cell] = size
                        if self.ident(cell) in self.hints:
                            self.make_live(cell, 'i')
                        grew = True
                a0 = o0.arr or {}
                a1 = o1.arr or {}
                if o1.seq is not None:
                    raise Unsupported('sequence object in a loop')
                for f, (sz, tag, ct) in a1.items():
                    old = a0.get(f)
                    if old is None:
                        if ct[0] == 'base':
                            continue
                        self.newfields.setdefault(oid, {})[f] = (sz, tag)
                        self.arrs.add(oid)
                        grew = True
                    elif old[2] is not ct:
                        if ct[0] == 'base' and old[2] == ct:
                            continue
                        if oid not in self.arrs:
                            self.arrs.add(oid)
                            grew = True
                if o0.arr is None and o1.stride and not E.obj(base, oid).stride:
                    b = E.wobj(base, oid)
                    b.stride = o1.stride
            for g in set(self.hav.ghost) | set(s.ghost):
                if not veq(self.hav.ghost.get(g), s.ghost.get(g)) and g not in self.ghosts:
                    self.ghosts.add(g)
                    grew = True
        return grew

    @staticmethod
    def uninit_only(e1):
        return False

    def free_of_loop(self, x):
        f = free(x) if isinstance(x, (T, IP)) else frozenset()
        if self.kid in f:
            return False
        return not any(TM.var_id(v) in f for v in self.syms.values())

    def writes(self, s, oid, f):
        """[(idx, value)] newest first, down to the havocked content"""
        h0 = self.hav.mem[oid].arr.get(f)
        ct = s.mem[oid].arr[f][2]
        out = []
        while ct is not h0[2]:
            if ct[0] != 'write':
                return None
            out.append((ct[2], ct[3]))
            ct = ct[1]
        return out

    def run(self):
        E = self.E
        self.newfields = {}
        E.pilot += 1
        try:
            for it in range(60):
                res = self.body()
                if not self.collect(res):
                    break
            else:
                raise Unsupported('loop analysis does not settle: ' + self.where)
            # affine integers and pointers
            for rnd in range(4):
                back = [s for end, s in res if end[0] == 'back']
                changed = False
                for cell, tag in list(self.live.items()):
                    if tag not in ('i', 'p') or cell in self.affine:
                        continue
                    x = self.sym(cell, tag)
                    ds = []
                    for s in back:
                        v = s.mem[cell[0]].d.get(cell[1])
                        if v is None:
                            ds = None
                            break
                        try:
                            ds.append(isub(self.to_comp(cell, v[1]), x))
                        except (Unsupported, PoisonRead):
                            ds = None
                            break
                    if ds and all(veq(d, ds[0]) for d in ds) and self.free_of_loop(ds[0]):
                        sc = 1
                        if tag == 'p':
                            sc, _ = self.stride_of(self.base_val(cell)[1])
                        self.affine[cell] = imulc(ds[0], sc)
                        changed = True
                if not changed:
                    break
                while True:
                    res = self.body()
                    if not self.collect(res):
                        break
            res = self.closed_forms(res)
            self.syms = {c: v for c, v in self.syms.items() if c not in self.affine and c not in self.closed}
            for cell in self.live:
                if cell not in self.affine and cell not in self.closed:
                    self.sym(cell, self.live[cell])
            self.bounds(res)
            while True:
                res = self.body()
                if not self.collect(res):
                    break
                self.bounds(res)
            self.classify_arrays(res)
            for it in range(12):
                res = self.body(final=True)
                if res is None:
                    continue
                if self.collect(res):
                    self.bounds(res)
                    continue
                if not self.check_invariants(res):
                    continue
                if not self.check_arrays(res):
                    continue
                break
            else:
                raise Unsupported('no inductive description found for the loop ' + self.where)
        finally:
            E.pilot -= 1
        E.loopvars[self.kid] = self.k
        for v in self.syms.values():
            E.loopvars[TM.var_id(v)] = v
        if E.pilot == 0:
            res = self.body(final=True)
        for v in [self.k] + list(self.syms.values()):
            E.loopvars.pop(TM.var_id(v), None)
        if E.pilot == 0:
            E.loop_report[self.key] = self.where
        return self.finish(res)

    # -- locations that are only overwritten, under a condition that stays true once it is: the last iteration's value or the initial one
    def closed_forms(self, res):
        E = self.E
        prev = {self.kid: isub(self.k, 1)}
        while True:
            back = [s for end, s in res if end[0] == 'back']
            if not 1 < len(back) <= 8:
                return res
            symids = {TM.var_id(v) for v in self.syms.values()}
            guards = [band(*[c for c in s.pc[self.npc:] if not isinstance(c, T) or not (free(c) & symids)]) for s in back]
            sets = [dict((c.id, c) for c in s.pc[self.npc:] if isinstance(c, T)) for s in back]
            common = {i for i in sets[0] if all(i in x for x in sets[1:])}
            guards = [band(*[c for c in s.pc[self.npc:] if isinstance(c, T) and c.id not in common and not (free(c) & symids)]) for s in back]
            found = False
            for cell, tag in self.live.items():
                if tag not in ('i', 'f', 'b') or cell in self.affine or cell in self.closed or cell in self.notclosed:
                    continue
                self.notclosed.add(cell)
                x = self.sym(cell, tag)
                if self.base_val(cell) is None or isinstance(self.base_val(cell)[1], Poison):
                    continue
                try:
                    vals = [self.to_comp(cell, s.mem[cell[0]].d[cell[1]][1]) for s in back]
                    if tag == 'b':
                        vals = [E.to_bool(v) for v in vals]
                    nx = self.merge(back, guards, vals)
                    ini = self.init(cell)
                except (Unsupported, PoisonRead, KeyError, TypeError):
                    continue
                w = overwritten(nx, x)
                if w is None or isinstance(w, bool) or free(w) & symids or self.fresh_leaf(w):
                    continue
                e = sub_val(nx, {TM.var_id(x): {'i': 0, 'f': ZERO, 'b': False}[tag]}, {})
                if isinstance(e, (T, IP)) and (free(e) & symids or self.fresh_leaf(e)):
                    continue
                self.closed[cell] = E.vite(band(ilt(0, self.k), sub_val(w, prev, {})), sub_val(e, prev, {}), ini)
                found = True
            if not found:
                return res
            while True:
                res = self.body()
                if not self.collect(res):
                    break
            back = [s for end, s in res if end[0] == 'back']
            self.find_kinvs(back)
            for g in list(self.kinvs):
                g1 = subst(g, {self.kid: iadd(self.k, 1)})
                if any(g1 is not True and L.feasible(list(s.pc) + self.kinvs, bnot(g1)) for s in back):
                    self.kinvs = []
                    break
            # it is what it is said to be: by induction over the iterations
            bad = [c for c in self.closed if not self.closed_ok(res, c)]
            if not bad:
                continue
            for c in bad:
                del self.closed[c]
            while True:
                res = self.body()
                if not self.collect(res):
                    break
            for c in list(self.closed):
                if not self.closed_ok(res, c):
                    # supported by one that does not hold: give all of them up
                    self.closed = {}
                    while True:
                        res = self.body()
                        if not self.collect(res):
                            return res

    def closed_ok(self, res, cell):
        want = sub_val(self.closed[cell], {self.kid: iadd(self.k, 1)}, {})
        for end, s in res:
            if end[0] != 'back':
                continue
            try:
                v = self.to_comp(cell, s.mem[cell[0]].d[cell[1]][1])
                if self.live[cell] == 'b':
                    v = self.E.to_bool(v)
            except (Unsupported, PoisonRead, KeyError, TypeError):
                return False
            if not veq(v, want) and L.prove_equal(v, want, list(s.pc) + self.kinvs, 3000)[0] != 'proved':
                return False
        return True

    def find_kinvs(self, back):
        # going on while a linear term is not zero: it keeps the sign it starts with
        self.kinvs = []
        seen = None
        for s in back:
            cs = {c.id: c for c in s.pc[self.npc:] if isinstance(c, T) and c.op == 'not' and c.args[0].op == 'ieq0'}
            seen = cs if seen is None else {i: c for i, c in seen.items() if i in cs}
        for c in (seen or {}).values():
            p = c.args[0].args[0]
            co = [x for mono, x in p.m if mono == (self.kid,)]
            if len(co) != 1:
                continue
            if abs(co[0]) != 1:
                p = TM.idivexact(p, abs(co[0]))
                if p is None:
                    continue
                co = [co[0] // abs(co[0])]
            rest = isub(p, imulc(self.k, co[0]))
            if (isinstance(rest, IP) and self.kid in free(rest)) or not self.free_of_loop(rest) or self.fresh_leaf(c):
                continue
            g = ile(p, 0) if co[0] > 0 else ile(0, p)
            g0 = subst(g, {self.kid: 0}) if isinstance(g, T) else g
            if isinstance(g, T) and (g0 is True or not L.feasible(self.base.pc, bnot(g0))):
                self.kinvs.append(g)

    # -- bounds of integer components
    def bounds(self, res):
        back = [s for end, s in res if end[0] == 'back']
        self.find_kinvs(back)
        for cell, x in list(self.syms.items()):
            if self.live.get(cell) not in ('i', 'p') or cell in self.cands:
                continue
            try:
                ini = self.init(cell)
                ds = [isub(self.to_comp(cell, s.mem[cell[0]].d[cell[1]][1]), x) for s in back]
            except (Unsupported, PoisonRead, KeyError):
                self.cands[cell] = []
                continue
            flat = []
            for d in ds:
                flat += ite_leaves(d)
            cs = []
            if flat and all(type(d) is int for d in flat):
                lo, hi = min(flat), max(flat)
                cs.append(('ge', ini, lo))
                cs.append(('le', ini, hi))
                il = irange(ini)[0]
                if lo >= 0 and il is not None:
                    self.lo[cell] = il
            else:
                il = irange(ini)[0]
                if il is not None:
                    cs.append(('ge', il, 0))
                ih = irange(ini)[1]
                if ih is not None:
                    cs.append(('le', ih, 1))
                    cs.append(('le', max(ih, 0), 1))
            self.cands[cell] = cs
        # symbols with a known constant lower bound get it as part of the symbol
        for cell, l in self.lo.items():
            x = self.syms.get(cell)
            if x is not None and TM.as_single_atom(x).lo is None:
                n = TM.as_single_atom(x).args[0] + '+'
                self.syms[cell] = ivar(n, l)

    def invariants(self, val, k):
        out = []
        for cell, cs in self.cands.items():
            if cell not in self.syms:
                continue
            for op, a, b in cs:
                bound = iadd(a, imulc(k, b))
                out.append(ile(bound, val(cell)) if op == 'ge' else ile(val(cell), bound))
        return out

    def check_invariants(self, res):
        back = [s for end, s in res if end[0] == 'back']
        ok = True
        for g in list(self.kinvs):
            g1 = subst(g, {self.kid: iadd(self.k, 1)})
            if any(g1 is not True and L.feasible(s.pc, bnot(g1)) for s in back):
                self.kinvs.remove(g)
                ok = False
        for cell, cs in list(self.cands.items()):
            if cell not in self.syms:
                continue
            keep = []
            for op, a, b in cs:
                good = True
                for s in back:
                    v = self.to_comp(cell, s.mem[cell[0]].d[cell[1]][1])
                    bound = iadd(a, imulc(iadd(self.k, 1), b))
                    g = ile(bound, v) if op == 'ge' else ile(v, bound)
                    if g is True:
                        continue
                    if g is False or L.feasible(s.pc, bnot(g)):
                        good = False
                        break
                if good:
                    i0 = self.init(cell)
                    g = ile(a, i0) if op == 'ge' else ile(i0, a)
                    if g is not True and (g is False or L.feasible(self.base.pc, bnot(g))):
                        good = False
                if good:
                    keep.append((op, a, b))
                else:
                    ok = False
                    if op == 'ge' and cell in self.lo:
                        del self.lo[cell]
                        self.syms[cell] = ivar(TM.as_single_atom(self.syms[cell]).args[0] + '-', None)
            self.cands[cell] = keep
        return ok

    # -- arrays
    def classify_arrays(self, res):
        back = [s for end, s in res if end[0] == 'back']
        for oid in self.arrs:
            kinds = {}
            for f in self.fields(oid):
                kinds[f] = self.classify_field(back, oid, f)
            if any(k[0] == 'app' for k in kinds.values()):
                cells = {k[1] for k in kinds.values() if k[0] == 'app'}
                if len(cells) == 1 and all(k[0] in ('app', 'none') for k in kinds.values()):
                    self.seqsym[oid] = mk('svar', ('S%d.%s' % (self.uid, oid),), 'S')
                    c = cells.pop()
                    kinds = {f: ('app', c) for f in kinds}
                else:
                    kinds = {f: ('unknown',) for f in kinds}
            self.arrkind[oid] = kinds

    def classify_field(self, back, oid, f):
        idxs = []
        for s in back:
            if f not in (s.mem[oid].arr or {}):
                continue
            w = self.writes(s, oid, f)
            if w is None:
                return ('unknown',)
            if w:
                if any(not veq(x[0], w[0][0]) for x in w):
                    return ('unknown',)
                idxs.append((s, w[0][0]))
        if not idxs:
            return ('none',)
        i0 = idxs[0][1]
        if any(not veq(i, i0) for _, i in idxs):
            return ('unknown',)
        for step in (1, -1):
            lo = isub(i0, imulc(self.k, step))
            if self.free_of_loop(lo):
                return ('comp', lo, step)
        for cell, x in self.syms.items():
            if self.live.get(cell) in ('i', 'p') and veq(i0, x):
                good = True
                for s in back:
                    nx = self.to_comp(cell, s.mem[cell[0]].d[cell[1]][1])
                    w = any(s is t for t, _ in idxs)
                    if not veq(isub(nx, x), 1 if w else 0):
                        good = False
                # the container must be appended to at its end: nothing beyond the start is kept
                if good:
                    return ('app', cell)
        return ('unknown',)

    def check_arrays(self, res):
        back = [s for end, s in res if end[0] == 'back']
        ok = True
        for oid in self.arrs:
            if oid not in self.arrkind:
                self.classify_arrays(res)
                return False
            for f in self.fields(oid):
                kd = self.arrkind[oid].get(f)
                if kd is None or kd[0] == 'unknown':
                    self.arrkind[oid][f] = ('unknown',)
                    continue
                now = self.classify_field(back, oid, f)
                if kd[0] == 'none' and now[0] == 'none':
                    continue
                if kd[0] == 'comp' and now[0] == 'comp' and veq(now[1], kd[1]) and now[2] == kd[2]:
                    continue
                if kd[0] == 'app' and now[0] in ('app', 'none') and (now[0] == 'none' or now[1] == kd[1]):
                    continue
                if kd[0] == 'app':
                    for g in self.arrkind[oid]:
                        self.arrkind[oid][g] = ('unknown',)
                self.arrkind[oid][f] = ('unknown',)
                ok = False
        return ok

    # -- results
    def fresh_leaf(self, x):
        for l in L.leaves(x) if isinstance(x, (T, IP)) else ():
            if l.op in ('rvar', 'ivar', 'bvar') and '#' in str(l.args[0]):
                try:
                    if int(str(l.args[0]).rsplit('#', 1)[1]) > self.fresh_from:
                        return True
                except ValueError:
                    pass
        return False

    def merge(self, back, guards, vals):
        r = vals[-1]
        for g, v in zip(reversed(guards[:-1]), reversed(vals[:-1])):
            r = self.E.vite(g, v, r)
        return r

    def finish(self, res):
        E = self.E
        back = [s for end, s in res if end[0] == 'back']
        exits = [(end, s) for end, s in res if end[0] != 'back']
        guards = [band(*[c for c in s.pc[self.npc:]]) for s in back]
        sets = [dict((c.id, c) for c in s.pc[self.npc:] if isinstance(c, T)) for s in back]
        common = []
        if sets:
            common = [c for i, c in sets[0].items() if all(i in x for x in sets[1:]) and not self.fresh_leaf(c)]
        backcond = band(*common) if back else False
        cids = {c.id for c in common}
        guards = [band(*[c for c in s.pc[self.npc:] if not (isinstance(c, T) and c.id in cids)]) for s in back]
        if 1 < len(back) <= 6 and len([1 for end, s in exits if end[0] != 'dead']) > 1:
            # the loop can be left early: going on means that one of the continuing paths was taken
            gs = [g for g in guards if not self.fresh_leaf(g)]
            if len(gs) == len(guards):
                backcond = band(backcond, bor(*gs))
        invs = self.invariants(lambda cell: self.syms[cell], self.k)
        comps = []           # (cell or oid, sym, sort, init, next)
        dead = set()
        if back:
            for cell, x in self.syms.items():
                try:
                    vals = [self.to_comp(cell, s.mem[cell[0]].d[cell[1]][1]) for s in back]
                    if self.live[cell] == 'b':
                        vals = [E.to_bool(v) for v in vals]
                    nx = self.merge(back, guards, vals)
                except (PoisonRead, Unsupported, KeyError, TypeError):
                    dead.add(cell)
                    continue
                if self.fresh_leaf(nx):
                    dead.add(cell)
                    continue
                sort = {'f': 'R', 'i': 'I', 'p': 'I', 'b': 'B'}[self.live[cell]]
                comps.append((cell, x, sort, self.init(cell), nx))
            for oid, S in self.seqsym.items():
                if self.arrkind[oid] and all(k[0] == 'app' for k in self.arrkind[oid].values()):
                    vals = []
                    for s in back:
                        fs = []
                        for f in sorted(self.fields(oid)):
                            if f not in s.mem[oid].arr:
                                continue
                            w = self.writes(s, oid, f)
                            if w:
                                fs.append((f, w[0][1]))
                        vals.append(sappend(S, tuple(fs)) if fs else S)
                    comps.append((('seq', oid), S, 'S', TM.SEMPTY, self.merge(back, guards, vals)))
        apps = self.define(comps, common, invs)
        m = {}
        for (cell, x, sort, ini, nx) in comps:
            m[TM.var_id(x)] = apps[cell](self.k)
        # element-wise maps: the values written at iteration k, over the functions of k
        contents = {}
        for oid in self.arrs:
            for f, (sz, tag, ct) in self.fields(oid).items():
                kd = self.arrkind[oid].get(f, ('unknown',))
                if kd[0] != 'comp' or not back:
                    continue
                vals = []
                idx = iadd(kd[1], imulc(self.k, kd[2]))
                for s in back:
                    w = self.writes(s, oid, f) if f in s.mem[oid].arr else []
                    vals.append(w[0][1] if w else E.read_content(s, self.hav.mem[oid].arr[f][2], idx, tag, sz))
                try:
                    v = self.merge(back, guards, vals)
                except (Unsupported, TypeError):
                    continue
                if isinstance(v, Ptr) or self.fresh_leaf(v):
                    if not (isinstance(v, Ptr) and type(v.off) is int):
                        continue
                contents[(oid, f)] = sub_val(v, m, {})
        out = []
        seen_bad = set()
        for end, s in exits:
            if end[0] == 'dead':
                continue
            # contents of arrays
            self.patch(s, contents)
            bc = backcond
            sub_state(E, s, m) if m else None
            for w, wr, la in self.groups:
                wk, j = apps[wr](self.k), apps[la](self.k)
                wc = sub_val(w, m, {})
                s.pc.append(bor(bnot(wk), band(ilt(j, self.k), sub_val(wc, {self.kid: j}, {}))))
                kb = ivar('k!%db' % self.uid, 0, 2**40)
                s.facts.append((0, self.k, TM.var_id(kb), bor(wk, bnot(sub_val(wc, {self.kid: kb}, {})))))
                s.idx.append(j)
            for c, group, deps in self.links:
                s.pc.append(veq_term(apps[c[0]](self.k), self.last_value(apps, c, group, deps)(self.k)))
            if bc is not True and bc is not False:
                bck = sub_val(bc, m, {})
                prev = subst(bck, {self.kid: isub(self.k, 1)})
                s.pc.append(bor(ieq(self.k, 0), prev))
                s.facts.append((0, self.k, self.kid, bck))
            elif bc is False:
                s.pc.append(ieq(self.k, 0))
            out += [(end, t) for t in self.solve(s)]
        return out

    def patch(self, s, contents):
        """replace the placeholder contents of arrays by the element-wise maps"""
        for oid in self.arrs:
            if oid not in s.mem:
                continue
            o = self.E.wobj(s, oid)
            for f in list(o.arr or {}):
                kd = self.arrkind[oid].get(f)
                if kd is None or kd[0] != 'comp':
                    continue
                sz, tag, ct = o.arr[f]
                ph = self.hav.mem[oid].arr.get(f)
                if ph is None:
                    continue
                val = contents.get((oid, f))
                if val is None:
                    new = ('base', 'hv%d_%s_%d' % (self.uid, oid, f))
                else:
                    new = ph[2][:6] + (val,)
                o.arr[f] = (sz, tag, replace_ct(ct, ph[2], new))

    def solve(self, s):
        """the exit condition usually determines k"""
        E = self.E
        k = self.k
        for c in list(reversed(s.pc)):
            if not isinstance(c, T) or self.kid not in free(c):
                continue
            d = c.args[0] if c.op == 'not' else c
            if d.op not in ('ile0', 'ieq0'):
                continue
            p = d.args[0]
            cands = []
            for mono, co in p.m:
                if mono == (self.kid,):
                    rest = isub(p, imulc(k, co))
                    if self.kid in (free(rest) if isinstance(rest, IP) else ()):
                        continue
                    for delta in (0, 1, -1):
                        q = TM.idivexact(iadd(imulc(rest, -1), delta if abs(co) != 1 else delta * (1 if co > 0 else -1)), co)
                        if q is not None:
                            cands.append(q)
            for n in cands:
                # k == n, or (n < 0 and k == 0)
                nn = ile(0, n)
                if nn is False:
                    continue
                if not L.feasible(s.pc, band(nn, bnot(ieq(k, n)))):
                    out = []
                    neg = nn is not True and L.feasible(s.pc, bnot(nn))
                    t = s.copy() if neg else s
                    if nn is not True:
                        t.pc.append(nn)
                    try:
                        sub_state(E, t, {self.kid: n})
                        out.append(t)
                    except Infeasible:
                        pass
                    if neg and L.feasible(s.pc, band(bnot(nn), ieq(k, 0))):
                        u = s
                        u.pc.append(bnot(nn))
                        if not L.feasible(u.pc, bnot(ieq(k, 0))):
                            try:
                                sub_state(E, u, {self.kid: 0})
                                out.append(u)
                            except Infeasible:
                                pass
                        else:
                            out.append(u)
                    return out
        # left early: the iteration of the exit is one to consider in statements about all iterations
        for j in s.idx:
            # the same iteration as that of an earlier loop left early?
            a = TM.as_single_atom(j) if isinstance(j, IP) else None
            if a is not None and a.op == 'ivar' and str(a.args[0]).startswith('k!') and a.id != k.id:
                t = s.copy()
                t.idx.append(k)
                if not L.feasible(E.all_facts(t), bnot(ieq(k, j))):
                    sub_state(E, s, {self.kid: j})
                    return [s]
        s.idx.append(k)
        return [s]

    # -- recursive definitions
    def define(self, comps, common, invs):
        E = self.E
        # a component that is only overwritten now and then is described by the last iteration that overwrote it
        over, groups = {}, {}
        for c in list(comps):
            if c[2] in 'IRB':
                w = overwritten(c[4], c[1])
                if w is None or isinstance(w, bool):
                    continue
                if w.id not in groups:
                    i = len(groups)
                    wx, jx = bvar('L%d.w%d' % (self.uid, i)), ivar('L%d.j%d' % (self.uid, i), 0)
                    groups[w.id] = (w, ('written', i), ('last', i))
                    comps.append((('written', i), wx, 'B', False, bor(w, wx)))
                    comps.append((('last', i), jx, 'I', 0, iite(w, self.k, jx)))
                    self.lo[('last', i)] = 0
                over[c[0]] = groups[w.id]
        self.groups = list(groups.values())
        self.links = []
        n = len(comps)
        ids = {TM.var_id(c[1]): i for i, c in enumerate(comps)}
        direct = []
        for c in comps:
            fv = free(c[4]) if isinstance(c[4], (T, IP)) else frozenset()
            direct.append({ids[v] for v in fv if v in ids})
        apps = {}
        for i, c in enumerate(comps):
            dep, work = [i], [i]
            while work:
                for j in direct[work.pop()]:
                    if j not in dep:
                        dep.append(j)
                        work.append(j)
            dep = [i] + sorted(x for x in dep if x != i)
            fv = frozenset()
            for j in dep:
                if isinstance(comps[j][4], (T, IP)):
                    fv = fv | free(comps[j][4])
            params = [E.loopvars[v] for v in sorted(fv) if v in E.loopvars and v != self.kid and v not in ids]
            rec = {'sort': c[2], 'k': self.k, 'params': params, 'syms': [comps[j][1] for j in dep],
                   'sorts': [comps[j][2] for j in dep], 'nexts': [comps[j][4] for j in dep]}
            bnd = self.cands.get(c[0], []) if c[0] in self.syms else []
            rec['bounds'] = bnd
            rec['lo'] = self.lo.get(c[0])
            inits = [comps[j][3] for j in dep]
            start = None
            if c[2] == 'R' and not any(i in direct[j] for j in dep if j != i) and delta(c[4], c[1]) is not None:
                # a sum: start value + sum from zero
                start, inits[0] = inits[0], ZERO
            if c[0] in over and TM.var_id(c[1]) in free(over[c[0]][0]):
                # the condition depends on the component itself (a running minimum): keep it, and add what it is
                self.links.append((c, over[c[0]], [comps[j] for j in range(n)]))
            elif c[0] in over and not any(i in direct[j] for j in dep if j != i):
                deps = [comps[j] for j in dep if j != i]
                apps[c[0]] = self.last_value(apps, c, over[c[0]], deps)
                continue
            name, order, par = self.canonical(rec, common, invs)
            app = self.make_app(name, c[2], [inits[j] for j in order], par, rec)
            apps[c[0]] = app if start is None else (lambda k, app=app, start=start: radd(start, app(k)))
        return apps

    def last_value(self, apps, c, group, deps):
        cell, x, sort, ini, nx = c
        w, wr, la = group
        e = sole_value(nx, x)
        if e is None and TM.var_id(x) in free(w):
            e = nx
        elif e is None:
            e = sub_val(nx, {TM.var_id(x): {'I': 0, 'R': ZERO, 'B': False}[sort]}, {})

        def app(k):
            j = apps[la](k)
            m = {TM.var_id(d[1]): apps[d[0]](j) for d in deps}
            m[self.kid] = j
            return self.E.vite(apps[wr](k), sub_val(e, m, {}), ini)
        return app

    def make_app(self, name, sort, inits, params, rec):
        lo = rec['lo']

        def app(k):
            args = (k,) + tuple(params) + tuple(inits)
            if sort == 'R':
                return ruf(name, args)
            if sort == 'I':
                r = iuf(name, args, lo, None)
                return r
            if sort == 'B':
                return buf(name, args)
            return suf(name, args)
        if sort == 'I' and rec['bounds'] and name not in L.uf_fact_gen:
            np = len(params)
            bs = rec['bounds']

            def gen(t, bs=bs, np=np):
                k, ini = t.args[1], t.args[2 + np]
                out = []
                for op, a, b in bs:
                    # bounds are relative to the start value when they were stated so
                    base = ini if not isinstance(a, int) or veq(a, rec_init) else a
                    bound = iadd(base, imulc(k, b))
                    out.append(ile(bound, iatom(t)) if op == 'ge' else ile(iatom(t), bound))
                return out
            rec_init = inits[0]
            L.uf_fact_gen[name] = gen
        return app

    def canonical(self, rec, common, invs):
        """-> (name, order of the start values, params): an equal earlier definition, or a new one"""
        E = self.E
        pc = list(self.base.pc) + list(common) + [c for c in invs if c is not True]
        n = len(rec['syms'])
        # structural key: identical definitions up to renaming
        for old in E.foldrecs:
            if old['sort'] != rec['sort'] or len(old['syms']) != n or len(old['params']) != len(rec['params']):
                continue
            if sorted(old['sorts']) != sorted(rec['sorts']):
                continue
            rest = list(range(1, n))
            perms = itertools.permutations(rest) if n <= 5 else [tuple(rest)]
            for pm in perms:
                perm = (0,) + tuple(pm)        # new dep i corresponds to old dep perm[i]
                if any(rec['sorts'][i] != old['sorts'][perm[i]] for i in range(n)):
                    continue
                m = {TM.var_id(old['k']): rec['k']}
                for a, b in zip(old['params'], rec['params']):
                    m[TM.var_id(a)] = b
                for i in range(n):
                    m[TM.var_id(old['syms'][perm[i]])] = rec['syms'][i]
                if all(same_value(rec['nexts'][i], sub_val(old['nexts'][perm[i]], m, {}), pc) for i in range(n)):
                    order = [0] * n
                    for i in range(n):
                        order[perm[i]] = i
                    return old['name'], order, rec['params']
        E.nfold += 1
        rec['name'] = 'F%d' % E.nfold
        E.foldrecs.append(rec)
        return rec['name'], list(range(n)), rec['params']


def base_d(st, oid):
    o = st.mem.get(oid)
    return o.d if o is not None else {}


def replace_ct(ct, old, new):
    if ct is old:
        return new
    if ct[0] == 'write':
        return ('write', replace_ct(ct[1], old, new), ct[2], ct[3])
    return ct


def veq_term(a, b):
    if isreal(a):
        return req(a, b)
    if isinstance(a, bool) or (isinstance(a, T) and a.sort == 'B'):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    return ieq(a, b)


def sole_value(nx, x):
    """the only value other than x itself that nx can take, or None"""
    a = TM.as_single_atom(nx) if isinstance(nx, IP) else nx
    if isinstance(a, T) and a.op in ('iite', 'rite', 'bite'):
        p, q = a.args[1], a.args[2]
        if veq(p, x):
            return sole_value(q, x)
        if veq(q, x):
            return sole_value(p, x)
    if isinstance(nx, (T, IP)) and TM.var_id(x) in free(nx):
        return None
    return nx


def overwritten(nx, x):
    """condition under which nx is a value independent of x; nx is x otherwise; None if it is not of that form"""
    if veq(nx, x):
        return False
    a = TM.as_single_atom(nx) if isinstance(nx, IP) else nx
    xid = TM.var_id(x)
    if not isinstance(nx, (T, IP)) or xid not in free(nx):
        return True
    if isinstance(a, T) and a.op in ('iite', 'rite', 'bite'):
        p, q = overwritten(a.args[1], x), overwritten(a.args[2], x)
        if p is None or q is None:
            return None
        return bor(band(a.args[0], p), band(bnot(a.args[0]), q))
    return None


def delta(nx, x):
    """e with nx == x + e and e independent of x, or None"""
    if nx is x:
        return ZERO
    if not isinstance(nx, T):
        return None
    xid = TM.var_id(x)
    ok = lambda t: not isinstance(t, (T, IP)) or xid not in free(t)
    if nx.op == 'add':
        for a, b in (nx.args, nx.args[::-1]):
            if ok(b):
                d = delta(a, x)
                if d is not None:
                    return radd(d, b)
    elif nx.op == 'sub' and ok(nx.args[1]):
        d = delta(nx.args[0], x)
        if d is not None:
            return rsub(d, nx.args[1])
    elif nx.op == 'rite' and ok(nx.args[0]):
        a, b = delta(nx.args[1], x), delta(nx.args[2], x)
        if a is not None and b is not None:
            return rite(nx.args[0], a, b)
    return None


def ite_leaves(d):
    """constant leaves of an integer ite tree, or the term itself"""
    if type(d) is int:
        return [d]
    a = TM.as_single_atom(d) if isinstance(d, IP) else None
    if a is not None and a.op == 'iite':
        return ite_leaves(a.args[1]) + ite_leaves(a.args[2])
    return [d]


NAMES = {}


def names(x):
    """symbols a term depends on (used to skip hopeless comparisons)"""
    if not isinstance(x, (T, IP)):
        return frozenset()
    r = NAMES.get(x.id)
    if r is None:
        r = frozenset(str(l.args[0]) for l in L.leaves(x) if l.op in ('ruf', 'iuf', 'buf', 'rvar', 'ivar'))
        NAMES[x.id] = r
    return r


def same_value(a, b, pc):
    if veq(a, b):
        return True
    if isinstance(a, T) and a.sort == 'S' or isinstance(b, T) and b.sort == 'S':
        return seq_same(a, b, pc, 6)
    na, nb = names(a), names(b)
    if len(na & nb) * 2 < len(na | nb):
        return False
    ra, rb = isreal(a), isreal(b)
    if ra != rb or sample.differ(a, b):
        return False
    try:
        r = L.prove_equal(a, b, pc, timeout=1500)
    except (TypeError, L.PolyTooBig):
        return False
    return r[0] == 'proved'


def seq_same(a, b, pc, depth):
    known = L.known_from(pc)
    a, b = L.resolve(a, known, {}), L.resolve(b, known, {})
    if a is b:
        return True
    for t in (a, b):
        if t.op == 'site':
            if depth <= 0:
                return False
            c = t.args[0]
            for g in (c, bnot(c)):
                if L.feasible(pc, g) and not seq_same(a, b, list(pc) + [g], depth - 1):
                    return False
            return True
    if a.op == 'sappend' and b.op == 'sappend' and len(a.args) == len(b.args):
        if not seq_same(a.args[0], b.args[0], pc, depth):
            return False
        return all(x[0] == y[0] and same_value(x[1], y[1], pc) for x, y in zip(a.args[1:], b.args[1:]))
    return False
