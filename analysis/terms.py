"""Value graphs and their normal forms.

Num    numeric term: a DAG over constants, atoms, +, *, 1/x and matrix inverse.
       Two terms are identified when they agree at a random point of GF(2^61-1)
       (polynomial identity testing); uninterpreted functions are evaluated by hashing
       their evaluated arguments, which gives congruence for free.
Bool   propositional formula over comparison atoms, kept as a reduced ordered BDD.
"""
from fractions import Fraction
import hashlib

P = (1 << 61) - 1
_HALF = P // 2


def finv(x):
    return pow(x % P, P - 2, P)


def frac_mod(q):
    return q.numerator % P * finv(q.denominator) % P if q.denominator != 1 else q.numerator % P


def H(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=16).digest()
    return int.from_bytes(h, 'big')


class Undecided(Exception):
    """The analysis met a construct it does not model."""


class Atom:
    __slots__ = ('name', 'args', 'typ', 'h', 'meta', 'key')

    def __init__(self, name, args, typ, key, h):
        self.name, self.args, self.typ, self.key, self.h = name, args, typ, key, h
        self.meta = None

    def __repr__(self):
        if not self.args:
            return self.name
        return '%s(%s)' % (self.name, ','.join(map(repr, self.args)))


_atoms = {}


def vkey(v):
    """hashable identity of any value"""
    if isinstance(v, Num):
        return ('n', v.h)
    k = getattr(v, 'key', None)
    if k is not None:
        return k() if callable(k) else k
    if isinstance(v, (tuple, list)):
        return tuple(vkey(x) for x in v)
    return v


def mkatom(name, args=(), typ='real'):
    key = (name, tuple(vkey(a) for a in args))
    a = _atoms.get(key)
    if a is None:
        a = Atom(name, tuple(args), typ, key, H('atom', key) % P)
        _atoms[key] = a
    return a


class Num:
    __slots__ = ('op', 'a', 'h', '_poly', '_at')

    def __init__(self, op, a, h):
        self.op, self.a, self.h = op, a, h
        self._poly = None
        self._at = None

    def __repr__(self):
        return show(self)

    # -- arithmetic
    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, neg(o))

    def __mul__(self, o):
        return mul(self, o)

    def __neg__(self):
        return neg(self)

    def isconst(self):
        return self.op == 'c'

    def cval(self):
        return self.a if self.op == 'c' else None


_num = {}


def _mk(op, a, h):
    h %= P
    if op != 'c':
        # a term that evaluates to a small integer at a random point is that integer
        s = h if h <= _HALF else h - P
        if -4096 <= s <= 4096:
            return const(s)
    n = _num.get((op if op == 'c' else '', h))
    if n is not None and (op != 'c' or n.a == a):
        return n
    n = Num(op, a, h)
    _num[(op if op == 'c' else '', h)] = n
    return n


def const(q):
    q = Fraction(q)
    return _mk('c', q, frac_mod(q))


def num_of_atom(a):
    return _mk('a', a, a.h)


def sym(name, args=(), typ='real'):
    return num_of_atom(mkatom(name, args, typ))


ZERO = const(0)
ONE = const(1)


def add(x, y):
    if x.op == 'c' and y.op == 'c':
        return const(x.a + y.a)
    if x.op == 'c' and x.a == 0:
        return y
    if y.op == 'c' and y.a == 0:
        return x
    return _mk('+', (x, y), x.h + y.h)


def mul(x, y):
    if x.op == 'c' and y.op == 'c':
        return const(x.a * y.a)
    for u, v in ((x, y), (y, x)):
        if u.op == 'c':
            if u.a == 0:
                return ZERO
            if u.a == 1:
                return v
    if x is y and x.op == 'a' and x.a.name == 'sqrt':
        return x.a.args[0]
    return _mk('*', (x, y), x.h * y.h)


def neg(x):
    return mul(const(-1), x)


def inv(x):
    if x.op == 'c':
        if x.a == 0:
            return sym('div0', ())
        return const(1 / x.a)
    return _mk('/', x, finv(x.h))


def div(x, y):
    if x is y and not (x.op == 'c' and x.a == 0):
        return ONE
    return mul(x, inv(y))


def det3(m):  # column-major 9
    a = lambda r, c: m[c * 3 + r]
    return (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1))
            - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
            + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)))


def inv3(m):
    """inverse by cofactors; column-major"""
    a = lambda r, c: m[c * 3 + r]
    d = det3(m)
    if d.op == 'c' and d.a == 0:
        return None
    di = inv(d)
    out = [None] * 9
    for r in range(3):
        for c in range(3):
            r1, r2 = [i for i in range(3) if i != c]
            c1, c2 = [i for i in range(3) if i != r]
            minor = a(r1, c1) * a(r2, c2) - a(r1, c2) * a(r2, c1)
            if (r + c) % 2:
                minor = neg(minor)
            out[c * 3 + r] = minor * di
    return out


def _canon_sign(x):
    """(sign, representative) with representative the same for x and -x"""
    if x.h > _HALF:
        return -1, neg(x)
    return 1, x


INTFUNS = ('trunc', 'floor', 'round', 'ceil')


def fn(name, *args):
    """uninterpreted (or partly interpreted) numeric function"""
    if name == 'abs':
        x = args[0]
        if x.op == 'c':
            return const(abs(x.a))
        if x.op == 'a' and x.a.name in ('abs', 'sqrt'):
            return x
        if x.op == '*' and x.a[0].op == 'c':
            return mul(const(abs(x.a[0].a)), fn('abs', x.a[1]))
        if x.op == '*' and x.a[1].op == 'c':
            return mul(const(abs(x.a[1].a)), fn('abs', x.a[0]))
        return sym('abs', (_canon_sign(x)[1],))
    if name == 'signum':
        x = args[0]
        if x.op == 'c' and x.a != 0:
            return const(1 if x.a > 0 else -1)
        s, r = _canon_sign(x)
        t = sym('signum', (r,), 'sign')
        return t if s == 1 else neg(t)
    if name == 'sqrt':
        x = args[0]
        if x.op == 'c' and x.a >= 0:
            n, d = x.a.numerator, x.a.denominator
            import math
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return const(Fraction(rn, rd))
        if x.op == '*' and x.a[0] is x.a[1]:
            return fn('abs', x.a[0])
        return sym('sqrt', (x,))
    if name in INTFUNS:
        x = args[0]
        if x.op == 'c':
            import math
            q = x.a
            if name == 'floor':
                return const(math.floor(q))
            if name == 'ceil':
                return const(math.ceil(q))
            if name == 'trunc':
                return const(math.trunc(q))
            r = math.floor(abs(q) + Fraction(1, 2))
            return const(r if q >= 0 else -r)
        if is_int(x):
            return x
        if name == 'trunc':
            # trunc(c*trunc(y)) = trunc(c*y) for 0 < c = 1/n
            c, y = split_coef(x)
            if y.op == 'a' and y.a.name == 'trunc' and c > 0 and c.numerator == 1:
                return fn('trunc', mul(const(c), y.a.args[0]))
        return sym(name, (x,), 'int')
    if name == 'rem':  # sign of dividend
        x, m = args
        if x.op == 'c' and m.op == 'c' and m.a != 0:
            import math
            return const(x.a - m.a * math.trunc(x.a / m.a))
        return x - m * fn('trunc', div(x, m))
    if name == 'rem_euclid':
        x, m = args
        if x.op == 'c' and m.op == 'c' and m.a != 0:
            import math
            return const(x.a - abs(m.a) * math.floor(x.a / abs(m.a)))
        return x - m * fn('floor', div(x, m))
    if name in ('min', 'max'):
        x, y = args
        if x.op == 'c' and y.op == 'c':
            return const(min(x.a, y.a) if name == 'min' else max(x.a, y.a))
        if x is y:
            return x
        if x.h > y.h:
            x, y = y, x
        return sym(name, (x, y), 'int' if is_int(x) and is_int(y) else 'real')
    if name == 'powi':
        x, n = args
        if n.op == 'c' and n.a.denominator == 1 and -8 <= n.a <= 64:
            k = int(n.a)
            if x.op == 'c' and (x.a != 0 or k >= 0):
                return const(x.a ** k)
            if abs(k) <= 8:
                r = ONE
                for _ in range(abs(k)):
                    r = r * x
                return inv(r) if k < 0 else r
        return sym('pow', (x, n))
    if name == 'powf':
        x, n = args
        if n.op == 'c' and n.a.denominator == 1 and abs(n.a) <= 8:
            return fn('powi', x, n)
        if n.op == 'c' and n.a == Fraction(1, 2):
            return fn('sqrt', x)
        return sym('pow', (x, n))
    return sym(name, args)


def split_coef(x):
    """x = c*y with constant c"""
    if x.op == '*':
        u, v = x.a
        if u.op == 'c':
            c, y = split_coef(v)
            return u.a * c, y
        if v.op == 'c':
            c, y = split_coef(u)
            return v.a * c, y
    if x.op == 'c':
        return x.a, ONE
    return Fraction(1), x


def is_int(x, _d=0):
    """syntactic integrality"""
    if x.op == 'c':
        return x.a.denominator == 1
    if x.op == 'a':
        return x.a.typ in ('int', 'sign')
    if x.op in '+*':
        return _d < 200 and is_int(x.a[0], _d + 1) and is_int(x.a[1], _d + 1)
    return False


POLY_LIMIT = 3000


def poly(x):
    """{monomial: coef}; monomial = sorted tuple of (atom key, exponent). None if too large."""
    if x._poly is not None:
        return x._poly if x._poly is not False else None
    p = _poly(x)
    x._poly = p if p is not None else False
    return p


_atom_by_id = {}


def _mono_atom(obj_key, obj):
    _atom_by_id[obj_key] = obj
    return obj_key


def _poly(x):
    if x.op == 'c':
        return {(): x.a} if x.a else {}
    if x.op == 'a':
        return {((_mono_atom(x.a.h, x), 1),): Fraction(1)}
    if x.op == '+':
        p, q = poly(x.a[0]), poly(x.a[1])
        if p is None or q is None or len(p) + len(q) > POLY_LIMIT:
            return None
        r = dict(p)
        for m, c in q.items():
            c2 = r.get(m, 0) + c
            if c2:
                r[m] = c2
            else:
                r.pop(m, None)
        return r
    if x.op == '*':
        p, q = poly(x.a[0]), poly(x.a[1])
        if p is None or q is None or len(p) * len(q) > POLY_LIMIT:
            return None
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                m = tuple(sorted((a, e) for a, e in d.items() if e))
                c = r.get(m, 0) + c1 * c2
                if c:
                    r[m] = c
                else:
                    r.pop(m, None)
        return r
    if x.op == '/':
        p = poly(x.a)
        if p is None:
            return None
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        return {((_mono_atom(x.h, x), 1),): Fraction(1)}
    return None


def poly_atom(k):
    return _atom_by_id[k]


def subterms_atoms(x, acc=None):
    """all atoms (Num nodes with op 'a') occurring in x, including inside function arguments"""
    if acc is None:
        acc = {}
        _collect(x, acc, set())
        return acc
    _collect(x, acc, set())
    return acc


def _collect(v, acc, seen):
    if isinstance(v, Num):
        if v.h in seen:
            return
        seen.add(v.h)
        if v.op == 'a':
            acc[v.a.h] = v
            for a in v.a.args:
                _collect(a, acc, seen)
        elif v.op in '+*':
            _collect(v.a[0], acc, seen)
            _collect(v.a[1], acc, seen)
        elif v.op == '/':
            _collect(v.a, acc, seen)
    else:
        ch = getattr(v, 'children', None)
        if ch is not None:
            for c in ch():
                _collect(c, acc, seen)
        elif isinstance(v, (tuple, list)):
            for c in v:
                _collect(c, acc, seen)


class Env:
    """a random assignment of atoms; `fixed` overrides atoms by hash of atom"""

    def __init__(self, seed, fixed=None, small_ints=True, func=None):
        self.seed, self.fixed, self.small, self.func = seed, fixed or {}, small_ints, func
        self.memo = {}

    def ev(self, x):
        r = self.memo.get(x.h)
        if r is not None:
            return r
        # iterative-ish recursion
        if x.op == 'c':
            r = x.h
        elif x.op == 'a':
            r = self.atom(x.a)
        elif x.op == '+':
            r = (self.ev(x.a[0]) + self.ev(x.a[1])) % P
        elif x.op == '*':
            r = self.ev(x.a[0]) * self.ev(x.a[1]) % P
        elif x.op == '/':
            r = finv(self.ev(x.a))
        self.memo[x.h] = r
        return r

    def key(self, v):
        if isinstance(v, Num):
            return self.ev(v)
        ch = getattr(v, 'children', None)
        if ch is not None:
            return (getattr(v, 'tag', None),) + tuple(self.key(c) for c in ch())
        if isinstance(v, (tuple, list)):
            return tuple(self.key(c) for c in v)
        return vkey(v)

    def atom(self, a):
        f = self.fixed.get(a.h)
        if f is not None:
            return f % P
        if self.func is not None:
            r = self.func(self, a)
            if r is not None:
                return r % P
        if a.name == 'sqrt' and False:
            return 0
        h = H('env', self.seed, a.name, tuple(self.key(x) for x in a.args))
        if a.typ == 'sign':
            return 1 if h & 1 else P - 1
        if a.typ == 'int' and self.small:
            return (h % 41 - 20) % P
        return h % P


def signed(x):
    x %= P
    return x if x <= _HALF else x - P


def show(x, depth=0):
    if isinstance(x, Num):
        if x.op == 'c':
            return str(float(x.a)) if x.a.denominator > 1000 else str(x.a)
        p = poly(x)
        if p is not None and len(p) <= 12 and depth < 4:
            out = []
            for m, c in sorted(p.items(), key=lambda t: repr(t[0])):
                s = '*'.join((_sa(poly_atom(a), depth) + ('^%d' % e if e != 1 else '')) for a, e in m)
                if not m:
                    s = show(const(c))
                elif c == -1:
                    s = '-' + s
                elif c != 1:
                    s = show(const(c)) + '*' + s
                out.append(s)
            return (' + '.join(out) or '0').replace('+ -', '- ')
        return '<term %x>' % (x.h & 0xffff)
    return repr(x)


def _sa(x, depth):
    if x.op == 'a':
        a = x.a
        if not a.args:
            return a.name
        return '%s(%s)' % (a.name, ', '.join(show(y, depth + 1) if isinstance(y, Num) else repr(y) for y in a.args))
    if x.op == '/':
        return '(%s)^-1' % show(x.a, depth + 1)
    return show(x, depth + 1)


# ---------------------------------------------------------------- booleans (BDD)

class BDD:
    """node ids: 0 false, 1 true"""

    def __init__(self):
        self.nodes = [None, None]      # (var, lo, hi)
        self.uniq = {}
        self.limit = 6000000
        self.vars = []                 # index -> atom descriptor
        self.varidx = {}
        self.cache = {}

    def var(self, desc, key):
        i = self.varidx.get(key)
        if i is None:
            i = len(self.vars)
            self.vars.append(desc)
            self.varidx[key] = i
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            if n > self.limit:
                raise Undecided('conditions too large')
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x <= 1 or self.nodes[x][0] != v:
                return x
            return self.nodes[x][2 if b else 1]
        lo = self.ite(co(f, 0), co(g, 0), co(h, 0))
        hi = self.ite(co(f, 1), co(g, 1), co(h, 1))
        r = self.mk(v, lo, hi)
        self.cache[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return out

    def size(self, f):
        seen, st = set(), [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            _, lo, hi = self.nodes[x]
            st += [lo, hi]
        return len(seen)

    def evalv(self, f, assign):
        """assign(varindex)->bool"""
        memo = {}
        while f > 1:
            v, lo, hi = self.nodes[f]
            if v not in memo:
                memo[v] = assign(v)
            f = hi if memo[v] else lo
        return f == 1

    def restrict(self, f, v, b):
        memo = {}

        def go(x):
            if x <= 1 or self.nodes[x][0] > v:
                return x
            if x in memo:
                return memo[x]
            w, lo, hi = self.nodes[x]
            r = (hi if b else lo) if w == v else self.mk(w, go(lo), go(hi))
            memo[x] = r
            return r
        return go(f)

    def simplify(self, f, c):
        """a function that agrees with f wherever c holds, preferably over fewer variables"""
        if c == 0:
            return f
        memo = {}

        def go(f, c):
            if f <= 1 or c == 1:
                return f
            k = (f, c)
            r = memo.get(k)
            if r is not None:
                return r
            vf, fl, fh = self.nodes[f]
            vc, cl, ch = self.nodes[c]
            if vc < vf:
                r = go(f, self.ite(cl, 1, ch))
            elif vf < vc:
                r = self.mk(vf, go(fl, c), go(fh, c))
            elif cl == 0:
                r = go(fh, ch)
            elif ch == 0:
                r = go(fl, cl)
            else:
                r = self.mk(vf, go(fl, cl), go(fh, ch))
            memo[k] = r
            return r
        return go(f, c)

    def compose(self, f, repl):
        """substitute variables: repl(varindex) -> bdd node"""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            r = self.ite(repl(v), go(hi), go(lo))
            memo[x] = r
            return r
        return go(f)

    def cubes(self, f, limit=64):
        out = []

        def go(x, cur):
            if len(out) >= limit or x == 0:
                return
            if x == 1:
                out.append(list(cur))
                return
            v, lo, hi = self.nodes[x]
            go(lo, cur + [(v, False)])
            go(hi, cur + [(v, True)])
        go(f, [])
        return out


B = BDD()


def b2i(n):
    """0/1 indicator of a condition"""
    if n <= 1:
        return const(n)
    return sym('b2i', (Bool(n),), 'int')


def strip_int(x):
    """x = base + k with k the integer-valued summands of x"""
    base, k = ZERO, ZERO
    st = [x]
    while st:
        y = st.pop()
        if y.op == '+':
            st += [y.a[1], y.a[0]]
        elif is_int(y):
            k = k + y
        else:
            base = base + y
    return base, k


class Bool:
    __slots__ = ('n',)
    tag = 'bool'

    def __init__(self, n):
        self.n = n

    def key(self):
        return ('b', self.n)

    def children(self):
        out = []
        for v in sorted(B.support(self.n)):
            d = B.vars[v]
            out.append(d[1])
        return out

    def __repr__(self):
        return showb(self.n)


TRUE, FALSE = Bool(1), Bool(0)


def replace_atom(x, h, val, memo=None):
    """x with one atom replaced by a constant"""
    if memo is None:
        memo = {}
    r = memo.get(x.h)
    if r is not None:
        return r
    if x.op == 'a':
        if x.a.h == h:
            r = val
        elif x.a.args and any(isinstance(y, Num) for y in x.a.args):
            na = tuple(replace_atom(y, h, val, memo) if isinstance(y, Num) else y for y in x.a.args)
            r = x if all(p is q for p, q in zip(na, x.a.args)) else rebuild_atom(x.a, na)
        else:
            r = x
    elif x.op == '+':
        r = add(replace_atom(x.a[0], h, val, memo), replace_atom(x.a[1], h, val, memo))
    elif x.op == '*':
        r = mul(replace_atom(x.a[0], h, val, memo), replace_atom(x.a[1], h, val, memo))
    elif x.op == '/':
        r = inv(replace_atom(x.a, h, val, memo))
    else:
        r = x
    memo[x.h] = r
    return r


REBUILD = ('abs', 'signum', 'sqrt', 'trunc', 'floor', 'round', 'ceil', 'min', 'max')


def rebuild_atom(a, na):
    if a.name in REBUILD:
        return fn(a.name, *na)
    return sym(a.name, na, a.typ)


NONNEG = ('abs', 'sqrt', 'len', 'b2i')


def sign_known(q):
    """sign of a polynomial when evident: -1, 1 (strict), -2 (<=0), 2 (>=0), or None"""
    pos = neg_ = True
    strict = False
    for m, c in q.items():
        for k, e in m:
            a = poly_atom(k)
            if e % 2 and not (a is not None and a.op == 'a' and a.a.name in NONNEG):
                return None
        if c < 0:
            pos = False
        if c > 0:
            neg_ = False
        if not m:
            strict = True
    if pos and neg_:
        return 0
    if pos:
        return 1 if strict else 2
    if neg_:
        return -1 if strict else -2
    return None


def cmp0(op, p, depth=0):
    """p op 0 for op in lt, le, eq -> Bool.

    Normal form: absolute values, minima/maxima and 0/1 indicators are expanded into cases;
    what is left is scaled to a canonical polynomial r and expressed with the two variables
    "r < 0" and "r == 0" (the latter only relevant when r < 0 is false)."""
    if p.op == 'c':
        v = p.a
        return TRUE if (v < 0 if op == 'lt' else v <= 0 if op == 'le' else v == 0) else FALSE
    q = poly(p)
    if q is not None and depth < 10:
        if not q:
            return FALSE if op == 'lt' else TRUE
        s = sign_known(q)
        if s is not None:
            if s == 1 or s == -1:
                return TRUE if op in ('lt', 'le') and s == -1 else FALSE
            if s == 2 and op == 'lt':
                return FALSE
            if s == -2 and op == 'le':
                return TRUE
        for m, c in q.items():
            for k, e in m:
                a = poly_atom(k)
                if a is None or a.op != 'a':
                    continue
                nm = a.a.name
                if nm == 'b2i':
                    c1 = cmp0(op, replace_atom(p, a.a.h, ONE), depth + 1)
                    c0 = cmp0(op, replace_atom(p, a.a.h, ZERO), depth + 1)
                    return Bool(B.ite(a.a.args[0].n, c1.n, c0.n))
                if nm in ('abs', 'min', 'max') and e == 1 and len(m) == 1 and sum(1 for mm in q for kk, _ in mm if kk == k) == 1:
                    if op == 'eq':
                        return band(cmp0('le', p, depth), cmp0('le', neg(p), depth))
                    if nm == 'abs':
                        x, y = a.a.args[0], neg(a.a.args[0])
                        big = True
                    else:
                        x, y = a.a.args
                        big = nm == 'max'
                    rest = p - const(c) * a
                    b1 = cmp0(op, rest + const(c) * x, depth + 1)
                    b2 = cmp0(op, rest + const(c) * y, depth + 1)
                    return band(b1, b2) if (c > 0) == big else bor(b1, b2)
    if q is not None:
        r, sg = normscale(p, q)
    else:
        s_, r = _canon_sign(p)
        sg = s_
    A = B.var(('lt', r), ('lt', r.h))
    E = None
    if not (op == 'lt' and sg > 0) and not (op == 'le' and sg < 0):
        E = B.var(('eq', r), ('eq', r.h))
    if op == 'eq':
        return Bool(B.AND(B.NOT(A), E))
    if sg > 0:
        return Bool(A if op == 'lt' else B.OR(A, E))
    return Bool(B.AND(B.NOT(A), B.NOT(E)) if op == 'lt' else B.NOT(A))


def normscale(p, q):
    """(r, sign) with p = positive * sign * r and r canonical up to scaling"""
    m = max(q, key=lambda t: (len(t), repr(t)))
    c = q[m]
    if c == 1:
        return p, 1
    return mul(const(1 / Fraction(c)), p), (1 if c > 0 else -1)


def lt(a, b):
    return cmp0('lt', a - b)


def le(a, b):
    return cmp0('le', a - b)


def eq(a, b):
    return cmp0('eq', a - b)


def bnot(a):
    return Bool(B.NOT(a.n))


def band(a, b):
    return Bool(B.AND(a.n, b.n))


def bor(a, b):
    return Bool(B.OR(a.n, b.n))


def batom(name, args=()):
    key = ('at', name, tuple(vkey(a) for a in args))
    return Bool(B.var(('at', tuple(args), name), key))


def showvar(i):
    d = B.vars[i]
    if d[0] == 'lt':
        return '(%s < 0)' % show(d[1])
    if d[0] == 'eq':
        return '(%s == 0)' % show(d[1])
    return '%s(%s)' % (d[2], ', '.join(map(repr, d[1])))


def showb(n, limit=6):
    if n == 0:
        return 'false'
    if n == 1:
        return 'true'
    cs = B.cubes(n, limit)
    return ' | '.join(' & '.join(('' if b else '!') + showvar(v) for v, b in c) for c in cs)
