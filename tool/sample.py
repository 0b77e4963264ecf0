"""Values of terms at random points: a cheap test that two terms are different, so that the prover is not asked about them.
Only ever used to skip a comparison (answering 'not known to be equal'), never to accept one."""
import math
import random
import zlib
from fractions import Fraction
import terms as TM
import logic
from terms import T, IP

NAN = float('nan')
MATH = {n: getattr(math, n) for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'pow', 'floor', 'ceil')}


class Point:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def hash(self, *key):
        return random.Random(zlib.crc32(repr((self.seed,) + key).encode()))

    def val(self, x):
        if not isinstance(x, (T, IP)):
            if isinstance(x, (bool, int)):
                return x
            if isinstance(x, (Fraction, float)):
                return float(x)
            if isinstance(x, str):
                return x
            return NAN
        r = self.memo.get(x.id)
        if r is None:
            try:
                r = self._val(x)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                r = NAN
            self.memo[x.id] = r
        return r

    def _val(self, x):
        if isinstance(x, IP):
            s = 0
            for k, v in x.m:
                p = v
                for a in k:
                    p *= self.val(TM.atom_of(a))
                s += p
            return s
        op, a = x.op, x.args
        if op in ('ivar', 'iuf'):
            key = (op, a[0]) + (() if op == 'iuf' else (x.id,))
            if op == 'iuf':
                key += tuple(self.key(y) for y in a[1:])
            if op == 'iuf' and a[0] in logic.INCREASING:
                return 30 + 7 * self.val(a[1])
            lo, hi = TM.irange(TM.iatom(x))
            g = self.hash(*key)
            if str(a[0]).startswith('k!') or hi is not None and lo is not None and hi - lo < 60:
                n = g.randint(0, 11)
                return (lo or 0) + (n if hi is None else min(n, hi - (lo or 0)))
            return (lo or 0) + g.randint(60, 99)
        if op == 'rvar':
            return self.hash('rvar', x.id).uniform(-2, 2)
        if op == 'bvar':
            return self.hash('bvar', x.id).random() < 0.5
        if op == 'ruf':
            f = MATH.get(a[0])
            if f is not None:
                return float(f(*[self.val(y) for y in a[1:]]))
            return self.hash('ruf', a[0], *[self.key(y) for y in a[1:]]).uniform(-2, 2)
        if op == 'buf':
            return self.hash('buf', a[0], *[self.key(y) for y in a[1:]]).random() < 0.5
        if op in ('rite', 'iite', 'bite'):
            c = self.val(a[0])
            return self.val(a[1] if c else a[2]) if c == c else NAN
        if op == 'isdiv':
            return TM.tdiv(self.val(a[0]), self.val(a[1]))
        if op == 'isrem':
            p, q = self.val(a[0]), self.val(a[1])
            return p - q * TM.tdiv(p, q)
        if op == 'not':
            return not self.val(a[0])
        if op == 'and':
            return all(self.val(y) for y in a)
        if op == 'sqrt':
            return math.sqrt(abs(self.val(a[0])))
        v = [self.val(y) for y in a]
        if op == 'floor':
            return math.floor(v[0])
        if op == 'add':
            return v[0] + v[1]
        if op == 'sub':
            return v[0] - v[1]
        if op == 'mul':
            return v[0] * v[1]
        if op == 'div':
            return v[0] / v[1]
        if op == 'neg':
            return -v[0]
        if op == 'abs':
            return abs(v[0])
        if op == 'i2r':
            return float(v[0])
        if op == 'ile0':
            return v[0] <= 0
        if op == 'ieq0':
            return v[0] == 0
        if op == 'req':
            return abs(v[0] - v[1]) < 1e-9
        if op == 'rlt':
            return v[0] < v[1]
        return NAN

    def key(self, y):
        v = self.val(y)
        return '%.5g' % v if isinstance(v, float) else v


POINTS = [Point(s) for s in range(6)]


def differ(a, b):
    """True if a and b have clearly different values at every sampled point"""
    for p in POINTS:
        x, y = p.val(a), p.val(b)
        if isinstance(x, str) or isinstance(y, str):
            return False
        if not abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):   # also: not a number
            return False
    return True
