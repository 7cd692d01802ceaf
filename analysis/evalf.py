"""Values of summary terms at exact sample points.

A summary is a closed formula over the function's inputs.  Two formulas that are not literally the same
normal form are compared at sample points of those inputs (identity testing); interpreted functions are
computed with 60 digits, everything else is an uninterpreted function of its arguments."""
import math
import random
from decimal import Decimal as D, getcontext
from fractions import Fraction

from terms import Num, Bool, B, H, Undecided

getcontext().prec = 80
TINY = D(10) ** -50
ATINY = D(10) ** -9
PI = D('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803')
TAINT = ('call:', 'post:', 'callopq', 'apply', 'oneof', 'havoc', 'unknown')


def dec(x):
    if isinstance(x, D):
        return x
    x = Fraction(x)
    return D(x.numerator) / D(x.denominator)


class Ev:
    """assign(name, args) -> number or None gives the inputs; free inputs without an assignment get a random value"""

    def __init__(self, assign=None, seed=0, strict=False):
        self.assign, self.seed, self.strict = assign, seed, strict
        self.memo = {}
        self.bm = {}
        self.approx = False
        self.near = False        # a comparison was decided on its boundary

    def num(self, x):
        r = self.memo.get(x.h)
        if r is None:
            if x.op == 'c':
                r = dec(x.a)
            elif x.op == 'a':
                r = self.atom(x.a)
            elif x.op == '+':
                r = self.num(x.a[0]) + self.num(x.a[1])
            elif x.op == '*':
                r = self.num(x.a[0]) * self.num(x.a[1])
            elif x.op == '/':
                d = self.num(x.a)
                if abs(d) < TINY:
                    raise Undecided('division by zero at a sample point')
                r = 1 / d
            else:
                raise Undecided('term %s' % x.op)
            self.memo[x.h] = r
        return r

    def tiny(self):
        return ATINY if self.approx else TINY

    def atom(self, a):
        if self.assign is not None:
            r = self.assign(a.name, [self.arg(y) for y in a.args])
            if r is not None:
                return dec(r)
        nm = a.name
        if nm == 'pi':
            return PI
        if nm == 'b2i':
            return D(1 if self.bool(a.args[0]) else 0)
        if a.args and all(isinstance(y, Num) for y in a.args):
            v = [self.num(y) for y in a.args]
            t = self.tiny()
            if nm == 'abs':
                return abs(v[0])
            if nm == 'signum':
                if abs(v[0]) < t:
                    self.near = True
                return D(1) if v[0] > -t else D(-1)
            if nm == 'sqrt':
                if v[0] < -t:
                    raise Undecided('square root of a negative number')
                return max(v[0], D(0)).sqrt()
            if nm in ('trunc', 'floor', 'ceil', 'round'):
                n = v[0].to_integral_value(rounding='ROUND_HALF_EVEN')
                if abs(v[0] - n) < t:
                    return n
                if nm == 'round':
                    return (abs(v[0]) + D('0.5')).to_integral_value(rounding='ROUND_FLOOR').copy_sign(v[0])
                return v[0].to_integral_value(rounding={'trunc': 'ROUND_DOWN', 'floor': 'ROUND_FLOOR', 'ceil': 'ROUND_CEILING'}[nm])
            if nm == 'min':
                return min(v)
            if nm == 'max':
                return max(v)
            if nm == 'pow':
                b, e = v
                if e == e.to_integral_value() and abs(e) < 50:
                    return b ** int(e)
                if b < 0:
                    raise Undecided('power of a negative number')
                return D(0) if b == 0 else (b.ln() * e).exp()
            if nm in ('acos', 'asin', 'atan', 'sin', 'cos', 'tan', 'exp', 'ln', 'log10', 'cbrt', 'atan2'):
                self.approx = True
                try:
                    f = [float(y) for y in v]
                    if nm == 'cbrt':
                        return D(math.copysign(abs(f[0]) ** (1 / 3.0), f[0]))
                    if nm == 'ln':
                        nm = 'log'
                    return D(getattr(math, nm)(*f))
                except ValueError:
                    raise Undecided('%s outside its domain' % nm)
        if self.strict or any(nm.startswith(t) for t in TAINT):
            raise Undecided('value of %s is not known' % nm)
        h = H('ev', self.seed, nm, tuple(self.arg(y) for y in a.args))
        if a.typ == 'sign':
            return D(1 if h & 1 else -1)
        if a.typ == 'int':
            return D(h % 7)
        return D(h % 400001 - 200000) / D(40000)

    def arg(self, y):
        if isinstance(y, Num):
            return self.num(y).quantize(D(10) ** -20) + 0
        if isinstance(y, Bool):
            return self.bool(y)
        k = getattr(y, 'key', None)
        if k is not None:
            k = k() if callable(k) else k
            return repr(k)
        if isinstance(y, (tuple, list)):
            return tuple(self.arg(z) for z in y)
        return repr(y) if not isinstance(y, (str, int)) else y

    def var(self, i):
        d = B.vars[i]
        if d[0] in ('lt', 'eq'):
            v = self.num(d[1])
            if abs(v) < self.tiny():
                self.near = True
                return d[0] == 'eq'
            return v < 0 if d[0] == 'lt' else False
        if self.assign is not None:
            r = self.assign('?' + str(d[2]), [self.arg(y) for y in d[1]])
            if r is not None:
                return bool(r)
        raise Undecided('condition %s is not known' % (d[2],))

    def bool(self, b):
        n = b.n if isinstance(b, Bool) else b
        memo = self.bm
        while n > 1:
            v, lo, hi = B.nodes[n]
            if v not in memo:
                memo[v] = self.var(v)
            n = hi if memo[v] else lo
        return n == 1


def same(x, y, seed=1, points=4):
    """are two numeric summaries the same function? True/False, None when a point cannot be evaluated"""
    if x is y or x.h == y.h:
        return True
    for k in range(points):
        try:
            e = Ev(seed=seed * 1000 + k)
            a, b = e.num(x), e.num(y)
        except Undecided:
            return None
        if abs(a - b) > (ATINY if e.approx else TINY) * (1 + abs(a)) * D(1000):
            return False
    return True
