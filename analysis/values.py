"""Abstract values of the value-flow analysis."""
from terms import *


class Val:
    __slots__ = ('_k',)
    tag = None

    def key(self):
        try:
            return self._k
        except AttributeError:
            k = self._mkkey()
            k = (self.tag, H(k))
            self._k = k
            return k

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


class Mat(Val):
    """dense matrix/vector of known size, column-major"""
    __slots__ = ('r', 'c', 'e')
    tag = 'mat'

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, tuple(e)
        assert len(self.e) == r * c, (r, c, len(self.e))

    def _mkkey(self):
        return ('mat', self.r, self.c) + tuple(vkey(x) for x in self.e)

    def children(self):
        return self.e

    def rebuild(self, ch):
        return Mat(self.r, self.c, ch)

    def at(self, r, c):
        return self.e[c * self.r + r]

    def col(self, j):
        return Mat(self.r, 1, self.e[j * self.r:(j + 1) * self.r])

    def __repr__(self):
        return '[' + '; '.join(', '.join(show(self.at(i, j)) if isinstance(self.at(i, j), Num) else repr(self.at(i, j)) for j in range(self.c)) for i in range(self.r)) + ']'


class Agg(Val):
    """tuple / adt / closure / array of a fixed shape"""
    __slots__ = ('kind', 'name', 'variant', 'f')
    tag = 'agg'

    def __init__(self, kind, name, variant, f):
        self.kind, self.name, self.variant, self.f = kind, name, variant, tuple(f)

    def _mkkey(self):
        return ('agg', self.kind, self.name, self.variant) + tuple(vkey(x) for x in self.f)

    def children(self):
        return self.f

    def rebuild(self, ch):
        return Agg(self.kind, self.name, self.variant, ch)

    def __repr__(self):
        return '%s%s(%s)' % (self.name or self.kind, '' if not self.variant else '#%d' % self.variant,
                             ', '.join(map(repr, self.f)))


UNIT = Agg('tuple', '', 0, ())


def tup(*a):
    return Agg('tuple', '', 0, a)


OPT = 'std::option::Option'
RES = 'std::result::Result'


def some(v):
    return Agg('adt', OPT, 1, (v,))


NONE = Agg('adt', OPT, 0, ())


def ok(v):
    return Agg('adt', RES, 0, (v,))


def err(v):
    return Agg('adt', RES, 1, (v,))


class Str(Val):
    __slots__ = ('s',)
    tag = 'str'

    def __init__(self, s):
        self.s = s

    def _mkkey(self):
        return ('str', self.s)

    def children(self):
        return ()

    def rebuild(self, ch):
        return self

    def __repr__(self):
        return repr(self.s)


class Opq(Val):
    """uninterpreted value: function symbol applied to values"""
    __slots__ = ('name', 'args', 'ty')
    tag = 'opq'

    def __init__(self, name, args=(), ty=None):
        self.name, self.args, self.ty = name, tuple(args), ty

    def _mkkey(self):
        return ('opq', self.name) + tuple(vkey(x) for x in self.args)

    def children(self):
        return self.args

    def rebuild(self, ch):
        return Opq(self.name, ch, self.ty)

    def __repr__(self):
        return self.name + ('(%s)' % ', '.join(map(repr, self.args)) if self.args else '')


class Ptr(Val):
    __slots__ = ('addr', 'proj')
    tag = 'ptr'

    def __init__(self, addr, proj=()):
        self.addr, self.proj = addr, tuple(proj)

    def _mkkey(self):
        return ('ptr', self.addr) + tuple(vkey(x) for x in self.proj)

    def children(self):
        return ()

    def rebuild(self, ch):
        return self

    def __repr__(self):
        return '&mut%r%r' % (self.addr, self.proj)


class FnV(Val):
    __slots__ = ('d',)
    tag = 'fn'

    def __init__(self, d):
        self.d = d

    def _mkkey(self):
        return ('fn', self.d.get('full'))

    def children(self):
        return ()

    def rebuild(self, ch):
        return self

    def __repr__(self):
        return 'fn ' + self.d.get('path', '?')


class Many(Val):
    """segment of unknown length; element at position i is one of `alts` with idx := i"""
    __slots__ = ('shape', 'idxs', 'alts', 'over')
    tag = 'many'

    def __init__(self, shape, idxs, alts, over=()):
        self.shape, self.idxs, self.alts, self.over = shape, tuple(idxs), tuple(alts), tuple(over)

    def _mkkey(self):
        # alpha-normalise the index variables
        m = {a.a.h: sym('#bound', (const(k),), 'int') for k, a in enumerate(self.idxs)}
        return ('many', vkey(self.shape)) + tuple(vkey(subst(a, m)) for a in self.alts) + tuple((vkey(i), vkey(v)) for i, v in self.over)

    def children(self):
        return self.alts

    def rebuild(self, ch):
        return Many(self.shape, self.idxs, ch, self.over)

    def inst(self, i):
        for j, v in self.over:
            if j.h == i.h:
                return [v]
        if len(self.idxs) == 1 and not (isinstance(self.shape, tuple) and self.shape and self.shape[0] == 'grow' and ranged(i)):
            m = {self.idxs[0].a.h: i}
        else:
            m = {x.a.h: sym('inst', (x, i), 'int') for x in self.idxs}
        out = [subst(a, m) for a in self.alts]
        if self.over:
            out += [v for _, v in self.over]
        return out

    def length(self):
        return seqlen_of_shape(self.shape)

    def __repr__(self):
        return 'Many<%s>{%s}' % (self.shape, ' | '.join(map(repr, self.alts[:4])))


def ranged(i):
    """a position counted by a range, possibly sorted: not the index under which the element was added"""
    while isinstance(i, Num) and i.op == 'a' and i.a.name == 'perm':
        i = i.a.args[-1]
    return isinstance(i, Num) and i.op == 'a' and i.a.name == '#i' and i.a.args and i.a.args[0] == 'range'


_shape_len = {}


def seqlen_of_shape(shape):
    if isinstance(shape, tuple) and shape and shape[0] == 'len':
        return shape[1]
    return sym('len', (shape,), 'int')


class Seq(Val):
    """ordered collection: tuple of segments ('one', v) | Many"""
    __slots__ = ('segs', 'kind')
    tag = 'seq'

    def __init__(self, segs, kind='vec'):
        self.segs, self.kind = tuple(segs), kind

    def _mkkey(self):
        return ('seq',) + tuple(s.key() if isinstance(s, Many) else ('one', vkey(s[1])) for s in self.segs)

    def children(self):
        return tuple(s if isinstance(s, Many) else s[1] for s in self.segs)

    def rebuild(self, ch):
        return Seq(tuple(c if isinstance(s, Many) else ('one', c) for s, c in zip(self.segs, ch)), self.kind)

    def known(self):
        return all(not isinstance(s, Many) for s in self.segs)

    def items(self):
        assert self.known()
        return [s[1] for s in self.segs]

    def length(self):
        n = ZERO
        for s in self.segs:
            n = n + (s.length() if isinstance(s, Many) else ONE)
        return n

    def __repr__(self):
        return 'Seq[' + ', '.join(repr(s) if isinstance(s, Many) else repr(s[1]) for s in self.segs) + ']'


def seq(items, kind='vec'):
    return Seq([('one', x) for x in items], kind)


class Map(Val):
    """associative container with known insertions; `open` if further unknown content"""
    __slots__ = ('items', 'kind', 'grown')
    tag = 'map'

    def __init__(self, items, kind='HashMap', grown=()):
        self.items, self.kind, self.grown = tuple(items), kind, tuple(grown)

    def _mkkey(self):
        return ('map',) + tuple((vkey(k), vkey(v)) for k, v in self.items) + tuple(g.key() for g in self.grown)

    def children(self):
        out = []
        for k, v in self.items:
            out += [k, v]
        return tuple(out) + self.grown

    def rebuild(self, ch):
        n = len(self.items)
        it = [(ch[2 * i], ch[2 * i + 1]) for i in range(n)]
        return Map(it, self.kind, ch[2 * n:])

    def __repr__(self):
        return '%s{%d entries%s}' % (self.kind, len(self.items), '+' if self.grown else '')


class It(Val):
    """iterator state"""
    __slots__ = ('kind', 'a')
    tag = 'it'

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def _mkkey(self):
        return ('it', self.kind) + tuple(vkey(x) for x in self.a)

    def children(self):
        return self.a

    def rebuild(self, ch):
        return It(self.kind, *ch)

    def __repr__(self):
        return 'It.%s%r' % (self.kind, self.a)


# ------------------------------------------------------------ substitution

def subst(v, m):
    """replace atoms (by hash) with terms, in any value"""
    if not m:
        return v
    memo = {}
    return _subst(v, m, memo)


def _subst(v, m, memo):
    if isinstance(v, Num):
        r = memo.get(v.h)
        if r is not None:
            return r
        if v.op == 'c':
            r = v
        elif v.op == 'a':
            r = m.get(v.a.h)
            if r is None:
                if v.a.args:
                    na = tuple(_subst(x, m, memo) for x in v.a.args)
                    if all(x is y for x, y in zip(na, v.a.args)):
                        r = v
                    elif v.a.name in ('abs', 'signum', 'sqrt', 'trunc', 'floor', 'round', 'ceil', 'min', 'max'):
                        r = fn(v.a.name, *na)
                    else:
                        r = sym(v.a.name, na, v.a.typ)
                else:
                    r = v
        elif v.op == '+':
            r = add(_subst(v.a[0], m, memo), _subst(v.a[1], m, memo))
        elif v.op == '*':
            r = mul(_subst(v.a[0], m, memo), _subst(v.a[1], m, memo))
        elif v.op == '/':
            r = inv(_subst(v.a, m, memo))
        memo[v.h] = r
        return r
    if isinstance(v, Bool):
        def repl(i):
            d = B.vars[i]
            if d[0] == 'at':
                na = tuple(_subst(x, m, memo) for x in d[1])
                return batom(d[2], na).n
            return cmp0(d[0], _subst(d[1], m, memo)).n
        if v.n <= 1:
            return v
        return Bool(B.compose(v.n, repl))
    if isinstance(v, Many):
        mm = {k: x for k, x in m.items() if all(k != i.a.h for i in v.idxs)}
        na = tuple(_subst(x, mm, memo if len(mm) == len(m) else {}) for x in v.alts)
        sh = _subst_shape(v.shape, m, memo)
        ov = tuple((_subst(i, m, memo), _subst(x, m, memo)) for i, x in v.over)
        if sh == v.shape and all(x is y for x, y in zip(na, v.alts)) and not ov:
            return v
        return Many(sh, v.idxs, na, ov)
    if isinstance(v, Val):
        ch = v.children()
        if not ch:
            return v
        nc = [_subst(x, m, memo) for x in ch]
        if all(x is y for x, y in zip(nc, ch)):
            return v
        return v.rebuild(nc)
    if isinstance(v, tuple):
        return tuple(_subst(x, m, memo) for x in v)
    return v


def _subst_shape(s, m, memo):
    if isinstance(s, tuple):
        return tuple(_subst_shape(x, m, memo) for x in s)
    if isinstance(s, (Num, Val)):
        return _subst(s, m, memo)
    return s


def mentions(v, hs, seen=None):
    """does value v mention any atom with hash in hs"""
    acc = {}
    _collect_val(v, acc)
    return any(h in hs for h in acc)


def _collect_val(v, acc):
    from terms import _collect
    _collect(v, acc, set())
