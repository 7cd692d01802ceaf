"""Meaning of the external functions the crate calls (std, nalgebra, itertools, lazy_static)."""
import re
from values import *
import engine as E

ORD = 'std::cmp::Ordering'
LESS, EQUAL, GREATER = (Agg('adt', ORD, i, ()) for i in range(3))


# ------------------------------------------------------------------ scalars

def width(ty):
    m = re.match(r'^([iu])(8|16|32|64|128|size)$', ty)
    if not m:
        return None
    return m.group(1), 64 if m.group(2) == 'size' else int(m.group(2))


def wrap(v, ty):
    w = width(ty)
    if w and v.op == 'c' and v.a.denominator == 1:
        n = int(v.a)
        lo, hi = (-(1 << (w[1] - 1)), (1 << (w[1] - 1)) - 1) if w[0] == 'i' else (0, (1 << w[1]) - 1)
        if not lo <= n <= hi:
            n &= (1 << w[1]) - 1
            if w[0] == 'i' and n > hi:
                n -= 1 << w[1]
            return const(n)
    return v


def saturate(v, ty):
    w = width(ty)
    if w and v.op == 'c':
        n = v.a
        lo, hi = (-(1 << (w[1] - 1)), (1 << (w[1] - 1)) - 1) if w[0] == 'i' else (0, (1 << w[1]) - 1)
        return const(min(max(n, lo), hi))
    return v


def cast(eng, st, v, kind, ty):
    if kind in ('IntToFloat',):
        v = num(eng, st, v)
        return v
    if kind in ('FloatToInt',):
        return saturate(fn('trunc', num(eng, st, v)), ty)
    if kind in ('IntToInt',):
        v = eng.rd(st, v) if isinstance(v, Ptr) else v
        if isinstance(v, Bool):
            if v.n <= 1:
                return const(v.n)
            return sym('b2i', (v,), 'int')
        if isinstance(v, Str):
            return const(ord(v.s))
        if isinstance(v, Num):
            if ty == 'char' and v.op == 'c':
                return Str(chr(int(v.a)))
            return wrap(v, ty)
        if isinstance(v, Agg) and v.kind == 'adt':
            ad = eng.p.adts.get(v.name)
            if ad:
                return const(int(ad['variants'][v.variant]['discr']))
        return v
    if kind in ('FloatToFloat',):
        return v
    return v


def num(eng, st, v):
    v = eng.rd(st, v)
    if isinstance(v, Num):
        return v
    if isinstance(v, Opq):
        return sym('of', (v,))
    if isinstance(v, Mat) and len(v.e) == 1:
        return v.e[0]
    raise Undecided('number expected, got %s' % type(v).__name__)


def eqv(eng, st, a, b):
    """structural equality as a Bool"""
    a, b = eng.rd(st, a), eng.rd(st, b)
    if isinstance(a, Num) and isinstance(b, Num):
        return eq(a, b)
    if isinstance(a, Bool) and isinstance(b, Bool):
        return Bool(B.NOT(B.XOR(a.n, b.n)))
    if vkey(a) == vkey(b):
        return TRUE
    if isinstance(a, Str) and isinstance(b, Str):
        return FALSE
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        r = TRUE
        for x, y in zip(a.e, b.e):
            r = band(r, eqv(eng, st, x, y))
        return r
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.name == b.name:
        if a.variant != b.variant:
            return FALSE
        r = TRUE
        for x, y in zip(a.f, b.f):
            r = band(r, eqv(eng, st, x, y))
        return r
    if isinstance(a, Seq) and isinstance(b, Seq) and a.known() and b.known():
        x, y = a.items(), b.items()
        if len(x) != len(y):
            return FALSE
        r = TRUE
        for p, q in zip(x, y):
            r = band(r, eqv(eng, st, p, q))
        return r
    k = sorted([(repr(vkey(a)), a), (repr(vkey(b)), b)], key=lambda t: t[0])
    return batom('eq', (k[0][1], k[1][1]))


def binop(eng, op, a, b, ty):
    if op.endswith('WithOverflow'):
        r = binop(eng, op[:-len('WithOverflow')], a, b, ty)
        if isinstance(r, Num):
            return tup(wrap(r, ty.split(',')[0].strip('( ')) if r.op == 'c' else r, FALSE)
        return tup(r, FALSE)
    if op.endswith('Unchecked'):
        op = op[:-len('Unchecked')]
    if isinstance(a, Opq) and isinstance(b, Num) or (isinstance(a, Num) and isinstance(b, Opq)) or (
            isinstance(a, Opq) and isinstance(b, Opq) and op not in ('Eq', 'Ne')):
        a = sym('of', (a,)) if isinstance(a, Opq) else a
        b = sym('of', (b,)) if isinstance(b, Opq) else b
    if isinstance(a, Num) and isinstance(b, Num):
        isint = ty in E.INT_TYS or (ty.startswith('(') and ty[1:].split(',')[0] in E.INT_TYS)
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mul':
            return a * b
        if op == 'Div':
            if ty in ('f64', 'f32'):
                return div(a, b)
            return fn('trunc', div(a, b))
        if op == 'Rem':
            return fn('rem', a, b)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return bnot(eq(a, b))
        if op == 'Cmp':
            return compare(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            if a.op == 'c' and b.op == 'c':
                x, y = int(a.a), int(b.a)
                return const({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shl': x << y, 'Shr': x >> y}[op])
            if op == 'BitAnd' and b.op == 'c' and b.a == 1 and is_int(a):
                return fn('rem_euclid', a, const(2))
            if op == 'Shr' and b.op == 'c':
                return fn('floor', div(a, const(1 << int(b.a))))
            if op == 'Shl' and b.op == 'c':
                return a * const(1 << int(b.a))
            return sym(op, (a, b), 'int')
    if isinstance(a, Bool) and isinstance(b, Bool):
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return Bool({'BitAnd': B.AND, 'BitOr': B.OR, 'BitXor': B.XOR}[op](a.n, b.n))
        if op == 'Eq':
            return Bool(B.NOT(B.XOR(a.n, b.n)))
        if op == 'Ne':
            return Bool(B.XOR(a.n, b.n))
        if op == 'Lt':
            return Bool(B.AND(B.NOT(a.n), b.n))
    if op in ('Eq', 'Ne'):
        r = eqv(eng, None, a, b)
        return r if op == 'Eq' else bnot(r)
    if isinstance(a, Str) and isinstance(b, Str):
        return {'Lt': a.s < b.s, 'Le': a.s <= b.s, 'Gt': a.s > b.s, 'Ge': a.s >= b.s}[op] and TRUE or FALSE
    if op in ('Lt', 'Le', 'Gt', 'Ge'):
        return batom(op, (a, b))
    return Opq('bin' + op, (a, b), ty)


def compare(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        d = a - b
        if d.op == 'c':
            return LESS if d.a < 0 else GREATER if d.a > 0 else EQUAL
    if isinstance(a, Str) and isinstance(b, Str):
        return LESS if a.s < b.s else GREATER if a.s > b.s else EQUAL
    return Opq('cmp', (a, b), ORD)


# ------------------------------------------------------------------ matrices

def matmul(a, b):
    if a.c != b.r:
        raise Undecided('matrix shapes')
    out = []
    for j in range(b.c):
        for i in range(a.r):
            s = ZERO
            for k in range(a.c):
                s = s + a.at(i, k) * b.at(k, j)
            out.append(s)
    return Mat(a.r, b.c, out)


def matmap(f, m):
    return Mat(m.r, m.c, [f(x) for x in m.e])


def transpose(m):
    return Mat(m.c, m.r, [m.at(i, j) for i in range(m.r) for j in range(m.c)])


def ident(n):
    return Mat(n, n, [ONE if i == j else ZERO for j in range(n) for i in range(n)])


def minv(m):
    if (m.r, m.c) == (3, 3):
        r = inv3(m.e)
        return None if r is None else Mat(3, 3, r)
    raise Undecided('inverse of %dx%d' % (m.r, m.c))


def mdet(m):
    if (m.r, m.c) == (3, 3):
        return det3(m.e)
    if (m.r, m.c) == (2, 2):
        return m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0)
    if m.r == m.c == 1:
        return m.e[0]
    if m.r == m.c:
        s = ZERO
        for j in range(m.c):
            sub = Mat(m.r - 1, m.c - 1, [m.at(i, k) for k in range(m.c) if k != j for i in range(1, m.r)])
            t = m.at(0, j) * mdet(sub)
            s = s + (t if j % 2 == 0 else neg(t))
        return s
    raise Undecided('determinant')


def dot(a, b):
    s = ZERO
    for x, y in zip(a.e, b.e):
        s = s + x * y
    return s


def dims(ty):
    t, _ = E.strip_ref(ty)
    h, ta = E.head_args(t)
    if h == 'nalgebra::Matrix':
        r = re.match(r'nalgebra::Const<(\d+)>', ta[1])
        c = re.match(r'nalgebra::Const<(\d+)>', ta[2])
        if r and c:
            return int(r.group(1)), int(c.group(1)), ta[0]
    return None


# ------------------------------------------------------------------ sequences

def as_seq(eng, st, v):
    v = eng.rd(st, v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Mat):
        return seq(v.e)
    if isinstance(v, Opq):
        i = sym('#i', ('elem', v), 'int')
        return Seq([Many(('opq', v), (i,), (Opq('elem', (v, i)),))])
    if isinstance(v, Map):
        return map_seq(v)
    if isinstance(v, It) and v.kind == 'range':
        return None
    return None


def map_seq(m):
    segs = []
    for k, v in m.items:
        segs.append(('one', k if m.kind in SETS else tup(k, v)))
    for g in m.grown:
        if m.kind in SETS:
            segs.append(Many(g.shape, g.idxs, [x.f[0] if isinstance(x, Agg) and x.kind == 'tuple' and len(x.f) == 2 else x for x in g.alts]))
        else:
            segs.append(g)
    return Seq(segs)


SETS = ('HashSet', 'BTreeSet')


def seq_index(eng, v, i):
    """element(s) at position i"""
    if i.op == 'c':
        k = int(i.a)
        if k < 0:
            raise Undecided('negative index')
        for s in v.segs:
            if isinstance(s, Many):
                if s is v.segs[-1] or True:
                    break
            if k == 0:
                return [s[1]]
            k -= 1
        else:
            raise IndexErrorU('index %d out of bounds' % int(i.a))
        # first Many reached with k remaining
        out = list(s.inst(const(k)))
        rest = v.segs[v.segs.index(s) + 1:]
        for r in rest:
            if isinstance(r, Many):
                out += r.inst(sym('later', (r.shape, const(k)), 'int'))
            else:
                out.append(r[1])
        return dedupe(out)
    # symbolic
    if len(v.segs) == 1 and isinstance(v.segs[0], Many):
        return v.segs[0].inst(i)
    off = 0
    out = []
    for s in v.segs:
        if isinstance(s, Many):
            j = i - const(off) if off is not None else None
            if j is not None and j.op == 'a' and (j.a.name == '#g' or any(j.a.h == x.a.h for x in s.idxs)):
                return s.inst(j)
            out += s.inst(sym('pos', (i, s.shape), 'int'))
            off = None
        else:
            out.append(s[1])
            if off is not None:
                off += 1
    return dedupe(out)


class IndexErrorU(Undecided):
    pass


def dedupe(vs):
    seen, out = set(), []
    for v in vs:
        k = vkey(v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def seq_update(eng, st, v, i, rest, new):
    if i.op == 'c':
        k = int(i.a)
        segs = list(v.segs)
        for n, s in enumerate(segs):
            if isinstance(s, Many):
                break
            if k == 0:
                segs[n] = ('one', eng.update(st, s[1], rest, new))
                return Seq(segs, v.kind)
            k -= 1
        else:
            raise IndexErrorU('write out of bounds')
        i = const(k)
    else:
        n = None
        off = 0
        for m, s in enumerate(v.segs):
            if isinstance(s, Many):
                if len(v.segs) == 1:
                    n = m
                    break
                j = i - const(off)
                if j.op == 'a' and j.a.name == '#g':
                    n, i = m, j
                    break
                raise Undecided('write at unknown position')
            off += 1
        if n is None:
            raise Undecided('write at unknown position of a known list')
        segs = list(v.segs)
        s = segs[n]
    olds = s.inst(i)
    if len(olds) != 1:
        nv = new if not rest else None
        if nv is None:
            raise Undecided('partial write to ambiguous element')
    else:
        nv = eng.update(st, olds[0], rest, new)
    over = tuple((j, x) for j, x in s.over if j.h != i.h) + ((i, nv),)
    segs[n] = Many(s.shape, s.idxs, s.alts, over)
    return Seq(segs, v.kind)


def flat_over(s):
    return s


# ------------------------------------------------------------------ iterators

def to_iter(eng, st, v):
    """IntoIterator on any value"""
    if isinstance(v, Ptr):
        t = eng.rd(st, v)
        if isinstance(t, It):
            return t
        if isinstance(t, (Seq, Mat)):
            return It('seqmut', v, ZERO)
        if isinstance(t, Map):
            return It('mapmut', v, ZERO)
        if isinstance(t, Opq):
            return It('seqmut', v, ZERO)
        v = t
    if isinstance(v, It):
        if v.kind == 'rangeinc':
            return It('range', v.a[0], v.a[1] + ONE)
        return v
    if isinstance(v, (Seq, Mat, Map)):
        return It('seq', as_seq(eng, st, v), ZERO)
    if isinstance(v, Agg) and v.name == OPT:
        return It('seq', seq(v.f), ZERO)
    if isinstance(v, Agg) and v.kind == 'adt' and 'Range' in v.name and len(v.f) >= 2:
        return It('range', v.f[0], v.f[1] + (ONE if 'Inclusive' in v.name else ZERO))
    if isinstance(v, Agg) and v.kind == 'adt' and v.name.endswith('RangeFrom'):
        return It('rangefrom', v.f[0])
    if isinstance(v, Opq):
        return It('seq', as_seq(eng, st, v), ZERO)
    raise Undecided('iteration over %s' % type(v).__name__)


def seq_rest(it):
    """remaining Seq of a 'seq' iterator at a concrete position"""
    s, pos = it.a
    k = int(pos.a)
    if k == 0:
        return s
    return Seq(s.segs[k:], s.kind)


def generic(eng, st, it, site, tag=''):
    """arbitrary element: list of (state, item, position)"""
    k = it.kind
    if k == 'seq':
        s = seq_rest(it)
        out, off = [], 0
        nm = len(s.segs)
        choices = []
        for n, sg in enumerate(s.segs):
            if isinstance(sg, Many):
                idx = eng.gidx(st, site, tag + str(n), sg.shape)
                pos = idx if off == 0 else (idx + const(off) if off is not None else sym('gpos', (idx, const(n)), 'int'))
                for v in sg.inst(idx):
                    choices.append((v, pos))
                off = None
            else:
                choices.append((sg[1], const(off) if off is not None else sym('gpos', (const(n), s), 'int')))
                if off is not None:
                    off += 1
        for st2, (v, pos) in eng.fork(st, choices, site, tag):
            out.append((st2, v, pos))
        return out
    if k == 'seqmut':
        p = it.a[0]
        t = eng.rd(st, p)
        if isinstance(t, Opq):
            raise Undecided('mutable iteration over opaque')
        s = t if isinstance(t, Seq) else seq(t.e)
        choices, off = [], 0
        for n, sg in enumerate(s.segs):
            if isinstance(sg, Many):
                idx = eng.gidx(st, site, tag + str(n), sg.shape)
                pos = idx if off == 0 else idx + const(off)
            else:
                pos = const(off)
                off += 1
            choices.append((Ptr(p.addr, p.proj + (('i', pos),)), pos))
        return [(s2, v, pos) for s2, (v, pos) in eng.fork(st, choices, site, tag)]
    if k == 'mapmut':
        p = it.a[0]
        t = eng.rd(st, p)
        choices = []
        for key, v in t.items:
            choices.append((tup(key, Ptr(p.addr, p.proj + (('mv', key),))), sym('gpos', (key,), 'int')))
        for n, g in enumerate(t.grown):
            idx = eng.gidx(st, site, tag + 'g%d' % n, g.shape)
            for v in g.inst(idx):
                key = v.f[0]
                choices.append((tup(key, Ptr(p.addr, p.proj + (('mv', key),))), idx))
        return [(s2, v, pos) for s2, (v, pos) in eng.fork(st, choices, site, tag)]
    if k == 'range':
        idx = eng.gidx(st, site, tag, ('range', it.a[0], it.a[1]))
        eng.idx_bounds[idx.a.h] = (it.a[0], it.a[1])
        return [(st, idx, idx - it.a[0])]
    if k == 'rangefrom':
        idx = eng.gidx(st, site, tag, ('rangefrom', it.a[0]))
        return [(st, idx, idx - it.a[0])]
    if k == 'map':
        out = []
        for st2, v, pos in generic(eng, st, it.a[0], site, tag):
            for st3, w in eng.call_closure(st2, it.a[1], [v], site, tag):
                out.append((st3, w, pos))
        return out
    if k in ('filter', 'take_while', 'skip_while'):
        out = []
        for st2, v, pos in generic(eng, st, it.a[0], site, tag):
            for st3, w in eng.call_pure(st2, it.a[1], [v], site, tag):
                if k != 'skip_while':
                    pc = B.AND(st3.pc, tobool(eng, w).n)
                    if pc == 0:
                        continue
                    st3 = st3.with_pc(pc)
                out.append((st3, v, sym('fpos', (pos,), 'int')))
        return out
    if k == 'filter_map':
        out = []
        for st2, v, pos in generic(eng, st, it.a[0], site, tag):
            for st3, w in eng.call_closure(st2, it.a[1], [v], site, tag):
                for st4, isn, x in split_option(eng, st3, w):
                    if not isn:
                        out.append((st4, x, sym('fpos', (pos,), 'int')))
        return out
    if k == 'enumerate':
        return [(s2, tup(pos + it.a[1], v), pos) for s2, v, pos in generic(eng, st, it.a[0], site, tag)]
    if k == 'zip':
        out = []
        for s2, v, pos in generic(eng, st, it.a[0], site, tag):
            for s3, w in elem_at(eng, s2, it.a[1], pos, site, tag + 'z'):
                out.append((s3, tup(v, w), pos))
        return out
    if k == 'product':
        out = []
        for s2, v, pos in generic(eng, st, it.a[0], site, tag + 'p0'):
            for s3, w, pos2 in generic(eng, s2, it.a[1], site, tag + 'p1'):
                out.append((s3, tup(v, w), sym('ppos', (pos, pos2), 'int')))
        return out
    if k == 'cons':
        return [(s2, flat_tuple(v), pos) for s2, v, pos in generic(eng, st, it.a[0], site, tag)]
    if k == 'chain':
        out = []
        outs = eng.fork(st, [0, 1], site, tag + 'ch')
        for s2, n in outs:
            for s3, v, pos in generic(eng, s2, it.a[n], site, tag + 'c%d' % n):
                out.append((s3, v, sym('cpos', (pos, const(n)), 'int') if n else pos))
        return out
    if k == 'rev':
        return [(s2, v, sym('rpos', (pos,), 'int')) for s2, v, pos in generic(eng, st, it.a[0], site, tag)]
    if k in ('skip', 'take', 'step_by', 'inspect', 'peekable', 'fuse'):
        return [(s2, v, sym(k, (pos, it.a[1]), 'int')) if len(it.a) > 1 and isinstance(it.a[1], Num) else (s2, v, pos)
                for s2, v, pos in generic(eng, st, it.a[0], site, tag)]
    if k in ('flat_map', 'flatten'):
        out = []
        for s2, v, pos in generic(eng, st, it.a[0], site, tag + 'o'):
            rs = eng.call_closure(s2, it.a[1], [v], site, tag) if k == 'flat_map' else [(s2, v)]
            for s3, w in rs:
                for s4, x, p2 in generic(eng, s3, to_iter(eng, s3, w), site, tag + 'i'):
                    out.append((s4, x, sym('flpos', (pos, p2), 'int')))
        return out
    if k == 'scan':
        raise Undecided('scan')
    raise Undecided('iterator %s' % k)


def flat_tuple(v):
    out = []
    while isinstance(v, Agg) and v.kind == 'tuple' and len(v.f) == 2 and isinstance(v.f[0], Agg) and v.f[0].kind == 'tuple':
        out.append(v.f[1])
        v = v.f[0]
    return tup(*(list(v.f) + out[::-1]))


def elem_at(eng, st, it, p, site, tag=''):
    """element of an iterator at position p: list of (state, item)"""
    k = it.kind
    if k == 'seq':
        s = seq_rest(it)
        vs = seq_index(eng, s, p)
        return eng.fork(st, vs, site, tag)
    if k == 'seqmut':
        q = it.a[0]
        return [(st, Ptr(q.addr, q.proj + (('i', p + it.a[1]),)))]
    if k in ('range', 'rangefrom'):
        return [(st, it.a[0] + p)]
    if k == 'map':
        out = []
        for s2, v in elem_at(eng, st, it.a[0], p, site, tag):
            out += eng.call_closure(s2, it.a[1], [v], site, tag)
        return out
    if k == 'enumerate':
        return [(s2, tup(p + it.a[1], v)) for s2, v in elem_at(eng, st, it.a[0], p, site, tag)]
    if k == 'zip':
        out = []
        for s2, v in elem_at(eng, st, it.a[0], p, site, tag):
            for s3, w in elem_at(eng, s2, it.a[1], p, site, tag + 'z'):
                out.append((s3, tup(v, w)))
        return out
    if k == 'skip':
        return elem_at(eng, st, it.a[0], p + it.a[1], site, tag)
    if k in ('take',):
        return elem_at(eng, st, it.a[0], p, site, tag)
    if k == 'cycle':
        b = it.a[0]
        s = as_list(eng, st, b)
        if s is not None and p.op == 'c':
            return [(st, s[int(p.a) % len(s)])]
    if k == 'repeat':
        return [(st, it.a[0])]
    out = []
    for s2, s in drain(eng, st, it, site, tag):
        for v in seq_index(eng, s, p):
            out.append((s2, v))
    return out


def as_list(eng, st, it):
    """items of an iterator of known length whose elements need no closure, else None"""
    if it.kind == 'seq':
        s = seq_rest(it)
        return s.items() if s.known() else None
    if it.kind == 'range':
        a, b = it.a
        if a.op == 'c' and b.op == 'c':
            return [const(i) for i in range(int(a.a), int(b.a))] if b.a - a.a <= 5000 else None
    return None


def definite(eng, st, it):
    """length known?"""
    k = it.kind
    if k == 'seq':
        return seq_rest(it).known()
    if k == 'seqmut':
        t = eng.rd(st, it.a[0])
        return isinstance(t, Mat) or (isinstance(t, Seq) and t.known())
    if k == 'mapmut':
        t = eng.rd(st, it.a[0])
        return isinstance(t, Map) and not t.grown
    if k == 'range':
        return it.a[0].op == 'c' and it.a[1].op == 'c' and it.a[1].a - it.a[0].a <= eng.max_unroll
    if k in ('map', 'filter', 'enumerate', 'rev', 'skip', 'take', 'cons', 'inspect', 'peekable', 'fuse', 'filter_map', 'step_by', 'take_while', 'skip_while', 'flatten', 'flat_map'):
        return definite(eng, st, it.a[0])
    if k == 'zip':
        return definite(eng, st, it.a[0]) and (definite(eng, st, it.a[1]) or it.a[1].kind in ('rangefrom', 'repeat', 'cycle'))
    if k in ('chain', 'product'):
        return definite(eng, st, it.a[0]) and definite(eng, st, it.a[1])
    return False


def nxt(eng, st, it, site, forced_generic):
    """list of (state, item|None, iterator)"""
    if forced_generic or not definite(eng, st, it):
        if it.kind == 'rangefrom' and not forced_generic:
            return [(st, it.a[0], It('rangefrom', it.a[0] + ONE))]
        eng.mark('sym_next')
        out = []
        rs = generic(eng, st, it, site)
        eng.note_source(st, site, it)
        ex = eng.exhausted(st, site)
        for s2, v, pos in rs:
            pc = B.AND(s2.pc, B.NOT(ex))
            if pc:
                out.append((s2.with_pc(pc), v, it))
        pc = B.AND(st.pc, ex)
        if pc:
            out.append((st.with_pc(pc), None, it))
        return out
    eng.mark('concrete_next')
    k = it.kind
    if k == 'seq':
        s, pos = it.a
        i = int(pos.a)
        if i < len(s.segs):
            return [(st, s.segs[i][1], It('seq', s, const(i + 1)))]
        return [(st, None, it)]
    if k == 'seqmut':
        p, pos = it.a
        t = eng.rd(st, p)
        n = len(t.e) if isinstance(t, Mat) else len(t.segs)
        i = int(pos.a)
        if i < n:
            return [(st, Ptr(p.addr, p.proj + (('i', pos),)), It('seqmut', p, const(i + 1)))]
        return [(st, None, it)]
    if k == 'mapmut':
        p, pos = it.a
        t = eng.rd(st, p)
        i = int(pos.a)
        if i < len(t.items):
            key = t.items[i][0]
            return [(st, tup(key, Ptr(p.addr, p.proj + (('mv', key),))), It('mapmut', p, const(i + 1)))]
        return [(st, None, it)]
    if k == 'range':
        a, b = it.a
        if a.a < b.a:
            return [(st, a, It('range', a + ONE, b))]
        return [(st, None, it)]
    if k == 'map':
        out = []
        for s2, v, ni in nxt(eng, st, it.a[0], site, False):
            if v is None:
                out.append((s2, None, It('map', ni, it.a[1])))
            else:
                for s3, w in eng.call_closure(s2, it.a[1], [v], site):
                    out.append((s3, w, It('map', ni, it.a[1])))
        return out
    if k == 'filter':
        out = []
        for s2, v, ni in nxt(eng, st, it.a[0], site, False):
            nit = It('filter', ni, it.a[1])
            if v is None:
                out.append((s2, None, nit))
                continue
            for s3, w in eng.call_pure(s2, it.a[1], [v], site):
                w = tobool(eng, w)
                yes, no = B.AND(s3.pc, w.n), B.AND(s3.pc, B.NOT(w.n))
                if yes:
                    out.append((s3.with_pc(yes), v, nit))
                if no:
                    out += nxt(eng, s3.with_pc(no), nit, site, False)
        return out
    if k == 'enumerate':
        return [(s2, None if v is None else tup(it.a[1], v), It('enumerate', ni, it.a[1] + (ZERO if v is None else ONE)))
                for s2, v, ni in nxt(eng, st, it.a[0], site, False)]
    if k == 'zip':
        out = []
        for s2, v, ni in nxt(eng, st, it.a[0], site, False):
            if v is None:
                out.append((s2, None, it))
                continue
            for s3, w, nj in nxt(eng, s2, it.a[1], site, False):
                out.append((s3, None if w is None else tup(v, w), It('zip', ni, nj)))
        return out
    if k == 'cons':
        return [(s2, None if v is None else flat_tuple(v), It('cons', ni)) for s2, v, ni in nxt(eng, st, it.a[0], site, False)]
    if k in ('peekable', 'fuse', 'inspect'):
        return [(s2, v, ni) for s2, v, ni in nxt(eng, st, it.a[0], site, False)]
    # materialise
    out = []
    for s2, s in drain(eng, st, it, site):
        out += nxt(eng, s2, It('seq', s, ZERO), site, False)
    return out


def tobool(eng, w):
    if isinstance(w, Bool):
        return w
    if isinstance(w, Opq):
        return batom('of', (w,))
    raise Undecided('boolean expected')


def split_option(eng, st, v):
    """[(state, is_none, payload)]"""
    v = eng.rd(st, v)
    if isinstance(v, Agg) and v.name in (OPT, RES):
        if v.name == OPT:
            return [(st, v.variant == 0, v.f[0] if v.f else None)]
        return [(st, v.variant == 1, v.f[0])]
    if isinstance(v, Opq):
        c = batom('is_none', (v,))
        out = []
        a, b = B.AND(st.pc, c.n), B.AND(st.pc, B.NOT(c.n))
        if b:
            out.append((st.with_pc(b), False, Opq('unwrap', (v,))))
        if a:
            out.append((st.with_pc(a), True, None))
        return out
    raise Undecided('option expected, got %s' % type(v).__name__)


def zip_segs(a, b):
    """align two sequences; list of segments"""
    if a.known() and b.known():
        return [('one', tup(x, y)) for x, y in zip(a.items(), b.items())]
    if len(a.segs) == len(b.segs) and all(isinstance(x, Many) == isinstance(y, Many) for x, y in zip(a.segs, b.segs)):
        out = []
        for x, y in zip(a.segs, b.segs):
            if not isinstance(x, Many):
                out.append(('one', tup(x[1], y[1])))
                continue
            x, y = plain(x), plain(y)
            if len(x.idxs) == 1 and len(y.idxs) == 1:
                ys = [subst(v, {y.idxs[0].a.h: x.idxs[0]}) for v in y.alts]
            elif [i.a.h for i in x.idxs] == [i.a.h for i in y.idxs] or x.shape == y.shape:
                ys = list(y.alts)
            else:
                return None
            idxs = list(x.idxs)
            for i in y.idxs:
                if len(x.idxs) != 1 and all(i.a.h != j.a.h for j in idxs):
                    idxs.append(i)
            if x.shape == y.shape and len(x.alts) == len(ys):
                alts = [tup(p, q) for p, q in zip(x.alts, ys)]
            else:
                alts = [tup(p, q) for p in x.alts for q in ys]
            out.append(Many(x.shape, idxs, alts))
        return out
    return None


def plain(m):
    """fold overlays into alternatives"""
    if not m.over:
        return m
    return Many(m.shape, m.idxs, dedupe(list(m.alts) + [v for _, v in m.over]))


def drain(eng, st, it, site, tag=''):
    """consume an iterator: list of (state, Seq)"""
    k = it.kind
    if k == 'seq':
        return [(st, seq_rest(it))]
    if k == 'seqmut':
        p, pos = it.a
        t = eng.rd(st, p)
        if definite(eng, st, it):
            n = len(t.e) if isinstance(t, Mat) else len(t.segs)
            return [(st, seq([Ptr(p.addr, p.proj + (('i', const(i)),)) for i in range(int(pos.a), n)]))]
        raise Undecided('collecting mutable references')
    if k == 'range':
        l = as_list(eng, st, it)
        if l is not None and len(l) <= eng.max_unroll:
            return [(st, seq(l))]
        a, b = it.a
        idx = sym('#i', ('range', a, b), 'int')
        eng.idx_bounds[idx.a.h] = (ZERO, b - a)
        return [(st, Seq([Many(('len', b - a), (idx,), (a + idx,))]))]
    if k == 'map':
        out = []
        for s2, s in drain(eng, st, it.a[0], site, tag):
            out += map_seq_closure(eng, s2, s, it.a[1], site, tag)
        return out
    if k in ('filter', 'filter_map'):
        out = []
        for s2, s in drain(eng, st, it.a[0], site, tag):
            cur = [(s2, [])]
            for n, sg in enumerate(s.segs):
                nc = []
                for s3, acc in cur:
                    if isinstance(sg, Many):
                        sg = plain(sg)
                        keep = []
                        for v in sg.alts:
                            if k == 'filter':
                                bs = [tobool(eng, w) for _, w in eng.call_pure(s3, it.a[1], [v], site, tag)]
                                cond = 0
                                for b_ in bs:
                                    cond = B.OR(cond, b_.n)
                                if cond:
                                    keep.append((v, cond))
                            else:
                                for s4, w in eng.call_closure(s3, it.a[1], [v], site, tag):
                                    for _, isn, x in split_option(eng, s4, w):
                                        if not isn:
                                            keep.append((x, s4.pc))
                        conds = tuple(Bool(c) for _, c in keep)
                        nc.append((s3, acc + [Many(('filtered', sg.shape) + conds, sg.idxs, [v for v, _ in keep])]))
                        continue
                    v = sg[1]
                    if k == 'filter':
                        for s4, w in eng.call_pure(s3, it.a[1], [v], site, tag + str(n)):
                            w = tobool(eng, w)
                            yes, no = B.AND(s4.pc, w.n), B.AND(s4.pc, B.NOT(w.n))
                            if yes:
                                nc.append((s4.with_pc(yes), acc + [('one', v)]))
                            if no:
                                nc.append((s4.with_pc(no), acc))
                    else:
                        for s4, w in eng.call_closure(s3, it.a[1], [v], site, tag + str(n)):
                            for s5, isn, x in split_option(eng, s4, w):
                                nc.append((s5, acc if isn else acc + [('one', x)]))
                cur = nc
                if len(cur) > 64:
                    raise Undecided('filter forks')
            out += [(s3, Seq(acc)) for s3, acc in cur]
        return out
    if k == 'enumerate':
        out = []
        for s2, s in drain(eng, st, it.a[0], site, tag):
            segs, off = [], it.a[1]
            for sg in s.segs:
                if isinstance(sg, Many):
                    sg = plain(sg)
                    if len(sg.idxs) == 1:
                        segs.append(Many(sg.shape, sg.idxs, [tup(sg.idxs[0] + off, v) for v in sg.alts]))
                    else:
                        i = sym('#pos', (sg.shape,), 'int')
                        segs.append(Many(sg.shape, sg.idxs, [tup(i, v) for v in sg.alts]))
                    off = off + sg.length()
                else:
                    segs.append(('one', tup(off, sg[1])))
                    off = off + ONE
            out.append((s2, Seq(segs)))
        return out
    if k == 'zip':
        out = []
        for s2, s in drain(eng, st, it.a[0], site, tag):
            if it.a[1].kind == 'rangefrom':
                for s3, e in drain(eng, s2, It('enumerate', It('seq', s, ZERO), it.a[1].a[0]), site, tag):
                    out.append((s3, Seq([Many(x.shape, x.idxs, [tup(v.f[1], v.f[0]) for v in x.alts]) if isinstance(x, Many) else ('one', tup(x[1].f[1], x[1].f[0])) for x in e.segs])))
                continue
            if it.a[1].kind == 'cycle' and s.known():
                cyc = as_list(eng, s2, it.a[1].a[0])
                if cyc:
                    out.append((s2, seq([tup(x, cyc[i % len(cyc)]) for i, x in enumerate(s.items())])))
                    continue
            for s3, t in drain(eng, s2, it.a[1], site, tag + 'z'):
                z = zip_segs(s, t)
                if z is None:
                    raise Undecided('zip of differently shaped collections')
                out.append((s3, Seq(z)))
        return out
    if k == 'product':
        out = []
        for s2, a in drain(eng, st, it.a[0], site, tag + 'p0'):
            for s3, b in drain(eng, s2, it.a[1], site, tag + 'p1'):
                if a.known() and b.known():
                    out.append((s3, seq([tup(x, y) for x in a.items() for y in b.items()])))
                else:
                    segs = []
                    for x in a.segs:
                        for y in b.segs:
                            segs.append(prod_seg(x, y))
                    out.append((s3, Seq(segs)))
        return out
    if k == 'cons':
        return [(s2, seqmap(flat_tuple, s)) for s2, s in drain(eng, st, it.a[0], site, tag)]
    if k == 'chain':
        out = []
        for s2, a in drain(eng, st, it.a[0], site, tag + 'c0'):
            for s3, b in drain(eng, s2, it.a[1], site, tag + 'c1'):
                out.append((s3, Seq(a.segs + b.segs)))
        return out
    if k == 'rev':
        out = []
        for s2, s in drain(eng, st, it.a[0], site, tag):
            segs = []
            for sg in reversed(s.segs):
                if isinstance(sg, Many):
                    sg = plain(sg)
                    if len(sg.idxs) == 1:
                        i = sg.idxs[0]
                        j = sg.length() - ONE - i
                        sg = Many(sg.shape, (i,), [subst(v, {i.a.h: j}) for v in sg.alts])
                segs.append(sg)
            out.append((s2, Seq(segs)))
        return out
    if k in ('skip', 'take', 'step_by'):
        out = []
        n = it.a[1]
        for s2, s in drain(eng, st, it.a[0], site, tag):
            if s.known() and n.op == 'c':
                l = s.items()
                m = int(n.a)
                out.append((s2, seq(l[m:] if k == 'skip' else l[:m] if k == 'take' else l[::m])))
            elif len(s.segs) == 1 and len(s.segs[0].idxs) == 1:
                sg = plain(s.segs[0])
                i = sg.idxs[0]
                j = i + n if k == 'skip' else i if k == 'take' else i * n
                out.append((s2, Seq([Many((k, sg.shape, n), (i,), [subst(v, {i.a.h: j}) for v in sg.alts])])))
            else:
                segs = list(s.segs)
                if k == 'skip' and n.op == 'c' and all(not isinstance(x, Many) for x in segs[:int(n.a)]):
                    out.append((s2, Seq(segs[int(n.a):])))
                else:
                    # unknown part of the list: any of the elements
                    alts, idxs = [], []
                    for sg in segs:
                        alts += plain(sg).alts if isinstance(sg, Many) else [sg[1]]
                        idxs += [i for i in (sg.idxs if isinstance(sg, Many) else ()) if all(i.a.h != j.a.h for j in idxs)]
                    if not idxs:
                        raise Undecided(k)
                    out.append((s2, Seq([Many((k, s, n), idxs, dedupe(alts))])))
        return out
    if k in ('flat_map', 'flatten'):
        out = []
        for s2, s in drain(eng, st, It('map', it.a[0], it.a[1]) if k == 'flat_map' else it.a[0], site, tag):
            cur = [(s2, [])]
            for sg in s.segs:
                nc = []
                for s3, acc in cur:
                    if isinstance(sg, Many):
                        alts, idxs = [], list(sg.idxs)
                        for v in plain(sg).alts:
                            inner = drain(eng, s3, to_iter(eng, s3, v), site, tag)
                            for _, t in inner:
                                for x in t.segs:
                                    if isinstance(x, Many):
                                        alts += x.alts
                                        idxs += [i for i in x.idxs if all(i.a.h != j.a.h for j in idxs)]
                                    else:
                                        alts.append(x[1])
                        nc.append((s3, acc + [Many(('flat', sg.shape), idxs, dedupe(alts))]))
                    else:
                        for s4, t in drain(eng, s3, to_iter(eng, s3, sg[1]), site, tag):
                            nc.append((s4, acc + list(t.segs)))
                cur = nc
            out += [(s3, Seq(acc)) for s3, acc in cur]
        return out
    if k in ('peekable', 'fuse', 'inspect'):
        return drain(eng, st, it.a[0], site, tag)
    if k in ('take_while', 'skip_while') and definite(eng, st, it):
        out = []
        for s2, s in drain(eng, st, it.a[0], site, tag):
            l = s.items()
            n = 0
            for v in l:
                rs = eng.call_pure(s2, it.a[1], [v], site, tag)
                w = tobool(eng, rs[0][1])
                if w.n > 1 or len(rs) > 1:
                    raise Undecided(k)
                if w.n == 0:
                    break
                n += 1
            out.append((s2, seq(l[:n] if k == 'take_while' else l[n:])))
        return out
    if k == 'mapmut':
        return [(st, map_seq(eng.rd(st, it.a[0])))]
    raise Undecided('collect from %s' % k)


def prod_seg(x, y):
    if not isinstance(x, Many) and not isinstance(y, Many):
        return ('one', tup(x[1], y[1]))
    xa, xi, xs = (plain(x).alts, x.idxs, x.shape) if isinstance(x, Many) else ((x[1],), (), ('one',))
    ya, yi, ys = (plain(y).alts, y.idxs, y.shape) if isinstance(y, Many) else ((y[1],), (), ('one',))
    m = {}
    ny = []
    for i in yi:
        j = sym('#pb', (i,), 'int') if any(i.a.h == q.a.h for q in xi) else i
        if j is not i:
            m[i.a.h] = j
        ny.append(j)
    ya = [subst(v, m) for v in ya]
    return Many(('prod', xs, ys), tuple(xi) + tuple(ny), [tup(p, q) for p in xa for q in ya])


def seqmap(f, s):
    return Seq([Many(x.shape, x.idxs, [f(v) for v in plain(x).alts]) if isinstance(x, Many) else ('one', f(x[1])) for x in s.segs], s.kind)


def map_seq_closure(eng, st, s, c, site, tag=''):
    cur = [(st, [])]
    for n, sg in enumerate(s.segs):
        nc = []
        for s2, acc in cur:
            if isinstance(sg, Many):
                sg2 = plain(sg)
                alts = []
                for v in sg2.alts:
                    rs = eng.call_closure(s2, c, [v], site, tag + 'm%d' % n)
                    for s3, w in rs:
                        if not E.same_mem(s2, s3):
                            raise Undecided('closure with effects over a collection of unknown length')
                        alts.append(w)
                nc.append((s2, acc + [Many(sg2.shape, sg2.idxs, dedupe(alts) if len(sg2.alts) != len(alts) else alts)]))
            else:
                for s3, w in eng.call_closure(s2, c, [sg[1]], site, tag + str(n)):
                    nc.append((s3, acc + [('one', w)]))
        cur = nc
        if len(cur) > 300:
            raise Undecided('map forks')
    return [(s2, Seq(acc)) for s2, acc in cur]


# ------------------------------------------------------------------ dispatch

TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


class Call:
    """one external call being modelled"""
    __slots__ = ('eng', 'st', 'd', 'path', 'name', 'args', 'dty', 'site', 'atys')

    def __init__(self, *a):
        for s, v in zip(self.__slots__, a):
            setattr(self, s, v)

    def v(self, i):
        return self.eng.rd(self.st, self.args[i])

    def n(self, i):
        return num(self.eng, self.st, self.args[i])

    def ret(self, v):
        return [(self.st, v)]

    def set(self, i, v):
        p = self.args[i]
        if not isinstance(p, Ptr):
            raise Undecided('mutation through a shared value in %s' % self.name)
        self.eng.write(self.st, p, v)


def special(eng, st, d, path, name, args, dty, site, atys):
    """models that take precedence over a local body (lazy statics, derived clone/eq/hash on values)"""
    if name == 'deref' and d.get('reslocal') and args:
        v = eng.rd(st, args[0])
        if isinstance(v, Opq) and v.name == 'static':
            return [(st, static_deref(eng, v))]
        if isinstance(v, Agg) and v.kind == 'adt' and v.name and eng.is_lazy(v.name):
            return [(st, static_deref(eng, Opq('static', (v.name,))))]
    if name in ('clone', 'to_owned', 'clone_from') and args and name != 'clone_from':
        u = d.get('resuid')
        b = eng.p.bodies.get(u) if u else None
        if b is None or 'derive' in (b.get('attrs') or '') or True:
            v = eng.rd(st, args[0])
            if isinstance(v, (Num, Bool, Str, Mat, Seq, Map, Opq, Agg, It)):
                if not (isinstance(v, Agg) and v.kind == 'adt' and b is not None and not derived_clone(eng, u)):
                    return [(st, v)]
    if name == 'get' and 'lazy' in path and path.endswith('Lazy::<T>::get'):
        return None
    return None


def derived_clone(eng, uid):
    """a clone body is transparent when all it calls is clone"""
    c = getattr(eng.p, '_dc', None)
    if c is None:
        c = eng.p._dc = {}
    if uid not in c:
        cfg = eng.p.cfg(uid)
        okk = True
        for b in cfg.rpo:
            t = cfg.blocks[b]['term']
            if t[0] == 'call' and not (t[1][0] == 'const' and t[1][1].get('name') in ('clone',)):
                okk = False
            if t[0] == 'switch':
                okk = okk and True
            for s in cfg.blocks[b]['st']:
                if s[0] == 'assign' and s[2][0] == 'bin':
                    okk = False
        c[uid] = okk
    return c[uid]


def static_deref(eng, v):
    path = v.args[0]
    if eng.opaque_statics and path not in eng.concrete_statics:
        return Opq('table', (path,), None)
    r = eng.static_value(path)
    if r is None:
        return Opq('table', (path,), None)
    return r


def builtin(eng, st, d, path, name, args, dty, site, atys):
    f = TABLE.get(path) or TABLE.get(d['path']) or TABLE.get(name)
    if f is None:
        return None
    c = Call(eng, st, d, path, name, list(args), dty, site, atys)
    return f(c)


# -- identity-like -------------------------------------------------------------

@model('deref', 'as_ref', 'borrow', 'as_slice', 'as_str', 'into_boxed_slice', 'to_vec', 'to_owned', 'clone', 'cloned_', 'into_owned',
       'as_mut_slice', 'deref_mut', 'as_mut', 'borrow_mut', 'by_ref', 'into_string', 'clone_owned', 'into_vec', 'as_bytes_', 'from_ref', 'identity_fn')
def _identity(c):
    if c.path.startswith('lazy_static') and c.name == 'get':
        return None
    v = c.args[0]
    if c.name in ('deref_mut', 'as_mut', 'as_mut_slice', 'borrow_mut', 'by_ref'):
        if c.name == 'as_mut' and 'Option' in c.path:
            t = c.v(0)
            if isinstance(t, Agg) and t.name == OPT and t.f:
                p = c.args[0]
                return c.ret(some(Ptr(p.addr, p.proj + (('d', 1), ('f', 0)))))
        return c.ret(v)
    v = c.v(0)
    if isinstance(v, Opq) and v.name == 'static':
        return c.ret(static_deref(c.eng, v))
    if c.name == 'to_vec' and isinstance(v, Mat):
        v = Seq([('one', x) for x in v.e], 'vec')
    return c.ret(v)


@model('get')
def _get(c):
    if 'lazy_static' in c.path or 'Lazy' in c.path:
        v = c.v(0)
        return c.ret(v)
    m = c.v(0)
    if isinstance(m, Map):
        return map_get(c, m, c.v(1))
    if isinstance(m, Seq):
        i = c.v(1)
        if isinstance(i, Num):
            if i.op == 'c' and m.known():
                l = m.items()
                return c.ret(some(l[int(i.a)]) if int(i.a) < len(l) else NONE)
            return [(s2, some(v)) for s2, v in c.eng.fork(c.st, seq_index(c.eng, m, i), c.site)] + [(c.st.copy(), NONE)]
    return c.ret(Opq('get', (m, c.v(1))))


def is_concrete(v):
    acc = {}
    from terms import _collect
    if isinstance(v, Opq):
        return False
    _collect(v, acc, set())
    return not acc and not has_opq(v)


def has_opq(v):
    if isinstance(v, Opq):
        return True
    if isinstance(v, Val):
        return any(has_opq(x) for x in v.children())
    return False


def map_get(c, m, k, wrap_=True):
    kk = vkey(k)
    for key, v in reversed(m.items):
        if vkey(key) == kk:
            return c.ret(some(v))
    if is_concrete(k) and not m.grown and all(is_concrete(key) for key, _ in m.items):
        return c.ret(NONE)
    alts = []
    for key, v in m.items:
        if is_concrete(k) and is_concrete(key):
            continue
        alts.append(some(v))
    for g in m.grown:
        for e in g.inst(sym('found', (g.shape, k), 'int')):
            if isinstance(e, Agg) and e.kind == 'tuple' and len(e.f) == 2:
                alts.append(some(e.f[1]))
    return c.eng.fork(c.st, dedupe(alts) + [NONE], c.site, 'get')


# -- option / result -----------------------------------------------------------

@model('unwrap', 'expect', 'unwrap_unchecked')
def _unwrap(c):
    out = []
    for s2, isn, x in split_option(c.eng, c.st, c.args[0]):
        if isn:
            c.eng.panic(s2, c.site, c.name)
        else:
            out.append((s2, x))
    return out


@model('unwrap_or', 'unwrap_or_default', 'unwrap_or_else')
def _unwrap_or(c):
    out = []
    for s2, isn, x in split_option(c.eng, c.st, c.args[0]):
        if not isn:
            out.append((s2, x))
        elif c.name == 'unwrap_or':
            out.append((s2, c.args[1]))
        elif c.name == 'unwrap_or_else':
            a = [] if 'Option' in c.path else [x if x is not None else Opq('err')]
            out += c.eng.call_closure(s2, c.args[1], a, c.site)
        else:
            out.append((s2, default_of(c.dty)))
    return out


def default_of(ty):
    t, _ = E.strip_ref(ty)
    if t in E.INT_TYS or t in ('f64', 'f32'):
        return ZERO
    if t == 'bool':
        return FALSE
    h, ta = E.head_args(t)
    if h == 'std::vec::Vec':
        return seq([])
    if h == 'std::string::String':
        return Str('')
    if 'HashMap' in h or 'BTreeMap' in h:
        return Map((), h.split('::')[-1])
    if 'HashSet' in h or 'BTreeSet' in h:
        return Map((), h.split('::')[-1])
    if t.startswith('('):
        return tup(*[default_of(x) for x in E.split_top(t[1:-1])])
    if h == OPT:
        return NONE
    m = re.match(r'nalgebra::Matrix<[^,]+, nalgebra::Const<(\d+)>, nalgebra::Const<(\d+)>', t)
    if m:
        return Mat(int(m.group(1)), int(m.group(2)), [ZERO] * (int(m.group(1)) * int(m.group(2))))
    raise Undecided('default of ' + t)


@model('std::option::Option::<T>::is_some', 'std::option::Option::<T>::is_none', 'std::result::Result::<T, E>::is_ok', 'std::result::Result::<T, E>::is_err',
       'is_some', 'is_none', 'is_ok', 'is_err')
def _is_some(c):
    v = c.v(0)
    want_none = c.name in ('is_none', 'is_err')
    if isinstance(v, Agg):
        isn = (v.variant == 0) if v.name == OPT else (v.variant == 1)
        return c.ret(TRUE if isn == want_none else FALSE)
    b = batom('is_none', (v,))
    return c.ret(b if want_none else bnot(b))


def opt_map(c, f_some, f_none=None):
    out = []
    for s2, isn, x in split_option(c.eng, c.st, c.args[0]):
        if isn:
            out += f_none(s2, x) if f_none else [(s2, NONE)]
        else:
            out += f_some(s2, x)
    return out


def iter_or_opt(c):
    v = c.eng.rd(c.st, c.args[0])
    return isinstance(v, It)


@model('map')
def _map(c):
    v = c.eng.rd(c.st, c.args[0])
    if isinstance(v, It):
        return c.ret(It('map', v, c.args[1]))
    if isinstance(v, Mat):
        cur = [(c.st, [])]
        for k, e in enumerate(v.e):
            nc = []
            for s2, acc in cur:
                for s3, w in c.eng.call_closure(s2, c.args[1], [e], c.site, str(k)):
                    nc.append((s3, acc + [w]))
            cur = nc
        return [(s2, Mat(v.r, v.c, acc)) for s2, acc in cur]
    if isinstance(v, Seq):
        return map_seq_closure(c.eng, c.st, v, c.args[1], c.site)
    res = isinstance(v, Agg) and v.name == RES
    return opt_map(c, lambda s, x: [(s3, ok(w) if res else some(w)) for s3, w in c.eng.call_closure(s, c.args[1], [x], c.site)],
                   lambda s, x: [(s, err(x) if res else NONE)])


@model('and_then')
def _and_then(c):
    return opt_map(c, lambda s, x: c.eng.call_closure(s, c.args[1], [x], c.site), lambda s, x: [(s, c.v(0))])


@model('map_or')
def _map_or(c):
    return opt_map(c, lambda s, x: c.eng.call_closure(s, c.args[2], [x], c.site), lambda s, x: [(s, c.args[1])])


@model('ok_or', 'ok_or_else')
def _ok_or(c):
    return opt_map(c, lambda s, x: [(s, ok(x))], lambda s, x: [(s, err(c.args[1] if c.name == 'ok_or' else Opq('err')))])


@model('ok', 'err')
def _ok(c):
    if c.name == 'ok':
        return opt_map(c, lambda s, x: [(s, some(x))])
    return opt_map(c, lambda s, x: [(s, NONE)], lambda s, x: [(s, some(x))])


@model('or_else', 'or')
def _or(c):
    v = c.v(0)
    if c.name == 'or':
        return opt_map(c, lambda s, x: [(s, v if isinstance(v, Agg) else some(x))], lambda s, x: [(s, c.args[1])])
    return opt_map(c, lambda s, x: [(s, v if isinstance(v, Agg) else some(x))],
                   lambda s, x: c.eng.call_closure(s, c.args[1], [] if 'Option' in c.path else [x], c.site))


CF = 'std::ops::ControlFlow'


@model('branch')
def _branch(c):
    v = c.v(0)
    isres = isinstance(v, Agg) and v.name == RES
    return opt_map(c, lambda s, x: [(s, Agg('adt', CF, 0, (x,)))],
                   lambda s, x: [(s, Agg('adt', CF, 1, (err(x) if isres else NONE,)))])


@model('from_residual')
def _from_res(c):
    return c.ret(c.v(0))


@model('copied', 'cloned')
def _copied(c):
    return c.ret(c.eng.rd(c.st, c.args[0]))


@model('take')
def _take(c):
    if c.path.startswith('std::mem') or c.path.startswith('core::mem'):
        v = c.v(0)
        c.set(0, default_of(c.dty))
        return c.ret(v)
    v = c.eng.rd(c.st, c.args[0])
    if isinstance(v, It):
        return c.ret(It('take', v, c.n(1)))
    c.set(0, NONE)
    return c.ret(v)


@model('swap')
def _swap(c):
    if 'mem::swap' in c.path:
        a, b = c.v(0), c.v(1)
        c.set(0, b)
        c.set(1, a)
        return c.ret(UNIT)
    s = c.v(0)
    i, j = c.n(1), c.n(2)
    if isinstance(s, (Seq, Mat)) and i.op == 'c' and j.op == 'c':
        st = c.st
        p = c.args[0]
        a = c.eng.project(st, s, ('i', i))
        b = c.eng.project(st, s, ('i', j))
        s = c.eng.update(st, s, (('i', i),), b)
        s = c.eng.update(st, s, (('i', j),), a)
        c.set(0, s)
        return c.ret(UNIT)
    raise Undecided('swap')


@model('replace')
def _replace(c):
    if 'mem::replace' in c.path:
        v = c.v(0)
        c.set(0, c.args[1])
        return c.ret(v)
    a, b, d = (c.v(i) for i in range(3))
    if all(isinstance(x, Str) for x in (a, b, d)):
        return c.ret(Str(a.s.replace(b.s, d.s)))
    return c.ret(Opq('replace', (a, b, d)))


# -- numbers -------------------------------------------------------------------

@model('abs', 'sqrt', 'round', 'floor', 'ceil', 'trunc', 'acos', 'asin', 'atan', 'cos', 'sin', 'tan', 'cbrt', 'exp', 'ln', 'signum', 'unsigned_abs')
def _fn1(c):
    v = c.v(0)
    if isinstance(v, Mat):
        return c.ret(matmap(lambda x: fn(c.name, x), v))
    x = c.n(0)
    if c.name == 'cbrt':
        return c.ret(sym('cbrt', (x,)))
    if c.name == 'signum' and c.path.find('<impl i') >= 0 and x.op == 'c' and x.a == 0:
        return c.ret(ZERO)
    return c.ret(fn('abs' if c.name == 'unsigned_abs' else c.name, x))


@model('powi', 'powf', 'pow')
def _pow(c):
    return c.ret(fn('powi' if c.name == 'pow' else c.name, c.n(0), c.n(1)))


@model('rem_euclid', 'min', 'max', 'atan2', 'hypot')
def _fn2(c):
    v = c.eng.rd(c.st, c.args[0])
    if len(c.args) == 1 and isinstance(v, It):
        return minmax(c)
    if len(c.args) == 1 and isinstance(v, Mat):
        r = v.e[0]
        for x in v.e[1:]:
            r = fn(c.name, r, x)
        return c.ret(r)
    if isinstance(v, It):
        return minmax(c)
    if c.name == 'hypot':
        return c.ret(fn('sqrt', c.n(0) * c.n(0) + c.n(1) * c.n(1)))
    return c.ret(fn(c.name, c.n(0), c.n(1)))


@model('to_degrees', 'to_radians', 'recip', 'fract', 'mul_add', 'clamp', 'abs_diff', 'is_nan', 'is_finite', 'is_sign_negative', 'is_sign_positive',
       'is_positive', 'is_negative', 'abs_sub')
def _misc(c):
    x = c.n(0)
    n = c.name
    if n == 'to_degrees':
        return c.ret(div(x * const(180), sym('pi')))
    if n == 'to_radians':
        return c.ret(div(x * sym('pi'), const(180)))
    if n == 'recip':
        return c.ret(inv(x))
    if n == 'fract':
        return c.ret(x - fn('trunc', x))
    if n == 'mul_add':
        return c.ret(x * c.n(1) + c.n(2))
    if n == 'clamp':
        return c.ret(fn('max', c.n(1), fn('min', x, c.n(2))))
    if n == 'abs_diff':
        return c.ret(fn('abs', x - c.n(1)))
    if n == 'is_nan':
        return c.ret(FALSE if x.op == 'c' else batom('is_nan', (x,)))
    if n == 'is_finite':
        return c.ret(TRUE if x.op == 'c' else bnot(batom('is_nan', (x,))))
    if n in ('is_sign_negative', 'is_negative'):
        return c.ret(lt(x, ZERO))
    if n in ('is_sign_positive', 'is_positive'):
        return c.ret(bnot(lt(x, ZERO)) if n == 'is_sign_positive' else lt(ZERO, x))
    raise Undecided(n)


@model('add', 'sub', 'mul', 'div', 'rem', 'component_mul', 'component_div')
def _arith(c):
    a, b = c.v(0), c.v(1)
    r = arith(c.name, a, b, c)
    if r is None:
        return None
    return c.ret(r)


def arith(op, a, b, c=None):
    if isinstance(a, Opq) and c is not None:
        a = c.eng.coerce(a, c.atys[0]) if c.atys else a
    if isinstance(b, Opq) and c is not None:
        b = c.eng.coerce(b, c.atys[1]) if c.atys else b
    if isinstance(a, Str) and op == 'add':
        return Str(a.s + b.s) if isinstance(b, Str) else Opq('concat', (a, b))
    if isinstance(a, Opq) and op == 'add' and isinstance(b, (Str, Opq)):
        return Opq('concat', (a, b))
    if isinstance(a, Num) and isinstance(b, Num):
        ty = 'i64' if c is not None and c.dty in E.INT_TYS else 'f64'
        return binop(None, op.capitalize(), a, b, ty)
    if isinstance(a, Mat) and isinstance(b, Mat):
        if op in ('add', 'sub') and (a.r, a.c) == (b.r, b.c):
            return Mat(a.r, a.c, [x + y if op == 'add' else x - y for x, y in zip(a.e, b.e)])
        if op == 'mul':
            return matmul(a, b)
        if op in ('component_mul', 'component_div'):
            return Mat(a.r, a.c, [x * y if op == 'component_mul' else div(x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Mat) and isinstance(b, Num):
        if op == 'mul':
            return matmap(lambda x: x * b, a)
        if op == 'div':
            return matmap(lambda x: div(x, b), a)
    if isinstance(a, Num) and isinstance(b, Mat) and op == 'mul':
        return matmap(lambda x: a * x, b)
    return None


@model('add_assign', 'sub_assign', 'mul_assign', 'div_assign', 'rem_assign')
def _assign(c):
    r = arith(c.name[:-7], c.v(0), c.v(1), None)
    if r is None:
        return None
    c.set(0, r)
    return c.ret(UNIT)


@model('add_scalar_mut', 'scale_mut', 'neg_mut', 'unscale_mut')
def _scale_mut(c):
    m = c.v(0)
    if c.name == 'neg_mut':
        c.set(0, matmap(neg, m))
    else:
        k = c.n(1)
        f = {'scale_mut': lambda x: x * k, 'unscale_mut': lambda x: div(x, k), 'add_scalar_mut': lambda x: x + k}[c.name]
        c.set(0, matmap(f, m))
    return c.ret(UNIT)


@model('scale', 'unscale', 'add_scalar')
def _scale(c):
    m, k = c.v(0), c.n(1)
    f = {'scale': lambda x: x * k, 'unscale': lambda x: div(x, k), 'add_scalar': lambda x: x + k}[c.name]
    return c.ret(matmap(f, m))


@model('neg', 'not')
def _neg(c):
    v = c.v(0)
    if isinstance(v, Mat):
        return c.ret(matmap(neg, v))
    if isinstance(v, Bool):
        return c.ret(bnot(v))
    return c.ret(neg(c.n(0)))


@model('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_add', 'saturating_sub', 'saturating_mul', 'checked_div')
def _wrapping(c):
    op = c.name.split('_')[1].capitalize()
    return c.ret(binop(c.eng, op, c.n(0), c.n(1), 'i64'))


# -- comparisons ---------------------------------------------------------------

@model('eq', 'ne')
def _eq(c):
    if any(isinstance(c.eng.rd(c.st, x), It) for x in c.args[:2]):
        # Iterator::eq
        out = []
        for s2, a in drain(c.eng, c.st, to_iter(c.eng, c.st, c.eng.rd(c.st, c.args[0])), c.site):
            for s3, b in drain(c.eng, s2, to_iter(c.eng, s2, c.eng.rd(s2, c.args[1])), c.site):
                r = batom('eq', (a, b))
                if a.known() and b.known():
                    x, y = a.items(), b.items()
                    r = TRUE if len(x) == len(y) else FALSE
                    for u, v in zip(x, y):
                        r = band(r, eqv(c.eng, s3, u, v))
                out.append((s3, r if c.name == 'eq' else bnot(r)))
        return out
    r = eqv(c.eng, c.st, c.args[0], c.args[1])
    return c.ret(r if c.name == 'eq' else bnot(r))


@model('lt', 'le', 'gt', 'ge')
def _cmp(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Num) and isinstance(b, Num):
        return c.ret({'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[c.name])
    if isinstance(a, Str) and isinstance(b, Str):
        return c.ret(TRUE if {'lt': a.s < b.s, 'le': a.s <= b.s, 'gt': a.s > b.s, 'ge': a.s >= b.s}[c.name] else FALSE)
    return c.ret(batom(c.name, (a, b)))


@model('partial_cmp', 'cmp', 'total_cmp')
def _pcmp(c):
    a, b = c.v(0), c.v(1)
    r = compare(a, b)
    return c.ret(some(r) if c.name == 'partial_cmp' else r)


@model('reverse')
def _reverse(c):
    v = c.eng.rd(c.st, c.args[0])
    if isinstance(v, Agg) and v.name == ORD:
        return c.ret(Agg('adt', ORD, 2 - v.variant, ()))
    if isinstance(v, Opq) and v.name == 'cmp':
        return c.ret(Opq('cmp', (v.args[1], v.args[0]), ORD))
    if isinstance(v, Seq):
        for s2, s in drain(c.eng, c.st, It('rev', It('seq', v, ZERO)), c.site):
            c.set(0, s)
            return c.ret(UNIT)
    raise Undecided('reverse')


@model('then', 'then_with')
def _then(c):
    v = c.v(0)
    if isinstance(v, Agg) and v.name == ORD and v.variant != 1:
        return c.ret(v)
    if isinstance(v, Bool):
        out = []
        a, b = B.AND(c.st.pc, v.n), B.AND(c.st.pc, B.NOT(v.n))
        if a:
            out += [(s, some(w)) for s, w in c.eng.call_closure(c.st.with_pc(a), c.args[1], [], c.site)]
        if b:
            out.append((c.st.with_pc(b), NONE))
        return out
    if c.name == 'then_with':
        rs = c.eng.call_closure(c.st, c.args[1], [], c.site)
        return [(s, Opq('then', (v, w), ORD)) for s, w in rs]
    return c.ret(Opq('then', (v, c.args[1]), ORD))


@model('then_some')
def _then_some(c):
    v = c.v(0)
    out = []
    a, b = B.AND(c.st.pc, v.n), B.AND(c.st.pc, B.NOT(v.n))
    if a:
        out.append((c.st.with_pc(a), some(c.args[1])))
    if b:
        out.append((c.st.with_pc(b), NONE))
    return out


# -- nalgebra ------------------------------------------------------------------

@model('new')
def _new(c):
    dm = dims(c.dty)
    if 'nalgebra' in c.path and dm:
        r, cc, _ = dm
        vals = [c.n(i) for i in range(len(c.args))]
        if len(vals) != r * cc:
            raise Undecided('matrix new')
        return c.ret(Mat(r, cc, [vals[i * cc + j] for j in range(cc) for i in range(r)]))
    h, ta = E.head_args(c.dty)
    if not c.args:
        if h == 'std::vec::Vec':
            return c.ret(seq([]))
        if h == 'std::string::String':
            return c.ret(Str(''))
        if h.split('::')[-1] in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
            return c.ret(Map((), h.split('::')[-1]))
    if 'Range' in h and len(c.args) == 2:
        return c.ret(It('range', c.n(0), c.n(1) + ONE))
    if 'boxed::Box' in h and c.args:
        return c.ret(c.args[0])
    if h == 'std::fmt::Arguments':
        return c.ret(Opq('fmt', tuple(c.v(i) for i in range(len(c.args)))))
    return None


@model('with_capacity')
def _withcap(c):
    h, ta = E.head_args(c.dty)
    if h == 'std::vec::Vec':
        return c.ret(seq([]))
    if h == 'std::string::String':
        return c.ret(Str(''))
    if h.split('::')[-1] in ('HashMap', 'HashSet'):
        return c.ret(Map((), h.split('::')[-1]))
    return None


@model('default')
def _default(c):
    dm = dims(c.dty)
    if dm:
        return c.ret(Mat(dm[0], dm[1], [ZERO] * (dm[0] * dm[1])))
    try:
        return c.ret(default_of(c.dty))
    except Undecided:
        return None


@model('identity', 'zeros', 'from_element', 'repeat', 'from_diagonal', 'from_diagonal_element', 'x', 'y', 'z', 'x_axis', 'y_axis', 'z_axis')
def _ident(c):
    dm = dims(c.dty)
    if c.name == 'repeat' and not dm:
        if 'iter' in c.path:
            return c.ret(It('repeat', c.args[0]))
        return None
    if not dm:
        return None
    r, cc, _ = dm
    if c.name == 'identity':
        return c.ret(Mat(r, cc, [ONE if i == j else ZERO for j in range(cc) for i in range(r)]))
    if c.name == 'zeros':
        return c.ret(Mat(r, cc, [ZERO] * (r * cc)))
    if c.name in ('from_element', 'repeat'):
        return c.ret(Mat(r, cc, [c.n(0)] * (r * cc)))
    if c.name == 'from_diagonal':
        v = c.v(0)
        return c.ret(Mat(r, cc, [v.e[i] if i == j else ZERO for j in range(cc) for i in range(r)]))
    if c.name == 'from_diagonal_element':
        return c.ret(Mat(r, cc, [c.n(0) if i == j else ZERO for j in range(cc) for i in range(r)]))
    if not c.args and c.name[0] in 'xyz' and cc == 1:
        k = 'xyz'.index(c.name[0])
        return c.ret(Mat(r, 1, [ONE if i == k else ZERO for i in range(r)]))
    return None


@model('from_columns', 'from_rows')
def _from_cols(c):
    r, cc, _ = dims(c.dty)
    s = as_seq(c.eng, c.st, c.args[0])
    if s is None:
        raise Undecided('from_columns')
    vals = []
    n = cc if c.name == 'from_columns' else r
    combos = [[]]
    if s.known():
        combos = [s.items()]
    else:
        for k in range(n):
            combos = [a + [v] for a in combos for v in seq_index(c.eng, s, const(k))]
            if len(combos) > 200:
                raise Undecided('from_columns alternatives')
    ms = []
    for l in combos:
        l = [c.eng.rd(c.st, x) for x in l]
        if len(l) != n:
            raise Undecided('from_columns arity')
        l = [c.eng.coerce(x, 'nalgebra::Matrix<f64, nalgebra::Const<%d>, nalgebra::Const<1>, S>' % (r if c.name == 'from_columns' else cc)) for x in l]
        if c.name == 'from_columns':
            ms.append(Mat(r, cc, [e for m in l for e in m.e]))
        else:
            ms.append(Mat(r, cc, [l[i].e[j] for j in range(cc) for i in range(r)]))
    return c.eng.fork(c.st, dedupe(ms), c.site, 'cols')


@model('from_iterator', 'from_vec', 'from_column_slice', 'from_row_slice', 'from_row_iterator', 'from_fn')
def _from_iter_mat(c):
    dm = dims(c.dty)
    if not dm:
        return None
    r, cc, _ = dm
    out = []
    if c.name == 'from_fn':
        cur = [(c.st, [])]
        for j in range(cc):
            for i in range(r):
                nc = []
                for s2, acc in cur:
                    for s3, w in c.eng.call_closure(s2, c.args[0], [const(i), const(j)], c.site, '%d_%d' % (i, j)):
                        nc.append((s3, acc + [w]))
                cur = nc
        return [(s2, Mat(r, cc, acc)) for s2, acc in cur]
    for s2, s in drain(c.eng, c.st, to_iter(c.eng, c.st, c.args[0]), c.site):
        if s.known():
            combos = [s.items()]
        else:
            combos = [[]]
            for k in range(r * cc):
                combos = [a + [v] for a in combos for v in seq_index(c.eng, s, const(k))]
                if len(combos) > 64:
                    raise Undecided('from_iterator')
        for l in combos:
            if len(l) < r * cc:
                raise Undecided('from_iterator: too few elements')
            l = [num(c.eng, s2, x) if not isinstance(x, Bool) else x for x in l[:r * cc]]
            if c.name in ('from_row_slice', 'from_row_iterator'):
                l = [l[i * cc + j] for j in range(cc) for i in range(r)]
            out.append((s2.copy() if len(combos) > 1 else s2, Mat(r, cc, l)))
    return out


@model('cast', 'try_cast')
def _cast(c):
    v = c.v(0)
    if isinstance(v, Opq):
        v = c.eng.coerce(v, c.atys[0])
    if c.name == 'try_cast':
        return c.ret(some(v))
    return c.ret(v)


@model('transpose', 'determinant', 'trace', 'magnitude', 'norm', 'magnitude_squared', 'norm_squared', 'sum', 'normalize', 'amax')
def _mat1(c):
    v = c.v(0)
    n = c.name
    if isinstance(v, It):
        return it_sum(c)
    if not isinstance(v, Mat):
        if isinstance(v, Opq):
            v = c.eng.coerce(v, c.atys[0])
        if not isinstance(v, Mat):
            return None
    if n == 'transpose':
        return c.ret(transpose(v))
    if n == 'determinant':
        return c.ret(mdet(v))
    if n == 'trace':
        s = ZERO
        for i in range(v.r):
            s = s + v.at(i, i)
        return c.ret(s)
    if n in ('magnitude', 'norm'):
        return c.ret(fn('sqrt', dot(v, v)))
    if n in ('magnitude_squared', 'norm_squared'):
        return c.ret(dot(v, v))
    if n == 'sum':
        s = ZERO
        for e in v.e:
            s = s + e
        return c.ret(s)
    if n == 'normalize':
        k = inv(fn('sqrt', dot(v, v)))
        return c.ret(matmap(lambda x: x * k, v))
    if n == 'amax':
        r = fn('abs', v.e[0])
        for x in v.e[1:]:
            r = fn('max', r, fn('abs', x))
        return c.ret(r)


@model('metric_distance', 'angle', 'tr_mul', 'tr_dot', 'component_abs_')
def _mat2(c):
    a, b = c.v(0), c.v(1)
    if c.name == 'metric_distance':
        d = Mat(a.r, a.c, [x - y for x, y in zip(a.e, b.e)])
        return c.ret(fn('sqrt', dot(d, d)))
    if c.name == 'tr_mul':
        return c.ret(matmul(transpose(a), b))
    if c.name == 'tr_dot':
        return c.ret(dot(transpose(a), b))
    if c.name == 'angle':
        return c.ret(fn('acos', div(dot(a, b), fn('sqrt', dot(a, a)) * fn('sqrt', dot(b, b)))))
    return None


@model('dot')
def _dot(c):
    return c.ret(dot(c.v(0), c.v(1)))


@model('cross')
def _cross(c):
    a, b = c.v(0).e, c.v(1).e
    return c.ret(Mat(3, 1, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]))


@model('column', 'row', 'column_mut')
def _column(c):
    v = c.v(0)
    i = c.n(1)
    if i.op != 'c':
        if isinstance(v, Mat):
            return c.eng.fork(c.st, [v.col(k) for k in range(v.c)], c.site, 'col') if c.name == 'column' else None
        return None
    k = int(i.a)
    if c.name == 'column':
        return c.ret(v.col(k))
    if c.name == 'row':
        return c.ret(Mat(1, v.c, [v.at(k, j) for j in range(v.c)]))
    p = c.args[0]
    return c.ret(Ptr(p.addr, p.proj + (('blk', tuple(range(v.r)), (k,)),)))


@model('column_iter', 'row_iter')
def _coliter(c):
    v = c.v(0)
    if c.name == 'column_iter':
        return c.ret(It('seq', seq([v.col(k) for k in range(v.c)]), ZERO))
    return c.ret(It('seq', seq([Mat(1, v.c, [v.at(k, j) for j in range(v.c)]) for k in range(v.r)]), ZERO))


@model('set_column', 'set_row')
def _setcol(c):
    m, i, v = c.v(0), c.n(1), c.v(2)
    ks = [int(i.a)] if i.op == 'c' else range(m.c if c.name == 'set_column' else m.r)
    outs = []
    for k in ks:
        es = list(m.e)
        if c.name == 'set_column':
            es[k * m.r:(k + 1) * m.r] = v.e
        else:
            for j in range(m.c):
                es[j * m.r + k] = v.e[j]
        outs.append(Mat(m.r, m.c, es))
    res = []
    for s2, mm in c.eng.fork(c.st, outs, c.site, 'setcol'):
        c.eng.write(s2, c.args[0], mm)
        res.append((s2, UNIT))
    return res


@model('swap_columns', 'swap_rows')
def _swapcols(c):
    m = c.v(0)
    i, j = int(c.n(1).a), int(c.n(2).a)
    cols = [list(m.col(k).e) for k in range(m.c)]
    if c.name == 'swap_columns':
        cols[i], cols[j] = cols[j], cols[i]
    else:
        for q in cols:
            q[i], q[j] = q[j], q[i]
    c.set(0, Mat(m.r, m.c, [e for q in cols for e in q]))
    return c.ret(UNIT)


@model('fixed_slice', 'fixed_view', 'fixed_columns', 'fixed_rows', 'columns')
def _fixed(c):
    v = c.v(0)
    dm = dims(c.dty)
    if not dm:
        return None
    r, cc, _ = dm
    if c.name in ('fixed_slice', 'fixed_view'):
        a, b = int(c.n(1).a), int(c.n(2).a)
    elif c.name == 'fixed_columns':
        a, b = 0, int(c.n(1).a)
    else:
        a, b = int(c.n(1).a), 0
    return c.ret(Mat(r, cc, [v.at(a + i, b + j) for j in range(cc) for i in range(r)]))


@model('try_inverse', 'pseudo_inverse')
def _tryinv(c):
    v = c.v(0)
    res = c.name == 'pseudo_inverse'
    if isinstance(v, Opq):
        v = c.eng.coerce(v, c.atys[0])
    r = minv(v)
    yes = ok if res else some
    if r is None:
        return c.ret(err(Opq('singular')) if res else NONE)
    d = mdet(v)
    if d.op == 'c' or c.eng.assume_invertible:
        c.eng.inverses.append((c.name, v, c.st.pc, c.site))
        return c.ret(yes(r))
    sing = batom('singular', (v,))
    out = []
    if res:      # a pseudo-inverse exists for every matrix
        r2 = c.eng.fresh('nalgebra::Matrix<f64, nalgebra::Const<3>, nalgebra::Const<3>, S>', 'substitute_inverse', (v,))
        return [(c.st.with_pc(n), yes(x)) for n, x in ((B.AND(c.st.pc, B.NOT(sing.n)), r), (B.AND(c.st.pc, sing.n), r2)) if n]
    a, b = B.AND(c.st.pc, sing.n), B.AND(c.st.pc, B.NOT(sing.n))
    if b:
        out.append((c.st.with_pc(b), yes(r)))
    if a:
        out.append((c.st.with_pc(a), NONE))
    return out


@model('try_invert_to')
def _tryinvto(c):
    v = c.v(0)
    if isinstance(v, Opq):
        v = c.eng.coerce(v, c.atys[0])
    r = minv(v)
    if r is None:
        return c.ret(FALSE)
    d = mdet(v)
    if d.op == 'c' or c.eng.assume_invertible:
        c.set(1, r)
        return c.ret(TRUE)
    sing = batom('singular', (v,))
    out = []
    a, b = B.AND(c.st.pc, sing.n), B.AND(c.st.pc, B.NOT(sing.n))
    if b:
        s2 = c.st.with_pc(b)
        c.eng.write(s2, c.args[1], r)
        out.append((s2, TRUE))
    if a:
        s2 = c.st.with_pc(a)
        c.eng.write(s2, c.args[1], c.eng.fresh('nalgebra::Matrix<f64, nalgebra::Const<3>, nalgebra::Const<3>, S>', 'failed_inverse', (v,)))
        out.append((s2, FALSE))
    return out


@model('try_inverse_mut')
def _tryinvmut(c):
    c.args.append(c.args[0])
    c.args[0] = c.v(0)
    return _tryinvto(c)


@model('copy_from')
def _copyfrom(c):
    c.set(0, c.v(1))
    return c.ret(UNIT)


@model('from')
def _from(c):
    v = c.v(0)
    h, ta = E.head_args(c.dty)
    n = h.split('::')[-1]
    if n in ('HashMap', 'BTreeMap'):
        s = as_seq(c.eng, c.st, v)
        return c.ret(map_from(c, s, n))
    if n in ('HashSet', 'BTreeSet'):
        s = as_seq(c.eng, c.st, v)
        return c.ret(set_from(s, n))
    if n == 'Vec':
        return c.ret(as_seq(c.eng, c.st, v) or v)
    if dims(c.dty) and isinstance(v, Seq) and v.known():
        r, cc, _ = dims(c.dty)
        l = v.items()
        if len(l) == r * cc and all(isinstance(x, Num) for x in l):
            return c.ret(Mat(r, cc, l))
        if len(l) == cc and all(isinstance(x, (Seq, Mat)) for x in l):
            return c.ret(Mat(r, cc, [e for x in l for e in (x.e if isinstance(x, Mat) else x.items())]))
    if isinstance(v, (Mat, Num, Str, Opq, Bool)):
        return c.ret(v)
    return None


@model('into')
def _into(c):
    return _from(c)


@model('try_from', 'try_into')
def _tryfrom(c):
    v = c.v(0)
    if isinstance(v, Num):
        h, ta = E.head_args(c.dty)
        return c.ret(ok(v))
    if isinstance(v, Seq) and v.known():
        return c.ret(ok(v))
    return None


def map_from(c, s, kind):
    if s.known():
        m = {}
        order = []
        for t in s.items():
            k = vkey(t.f[0])
            if k not in m:
                order.append(k)
            m[k] = (t.f[0], t.f[1])
        # duplicate keys collapse, the last one wins; remember it
        if len(order) != len(s.items()):
            c.eng.dupkeys.append((c.site, len(s.items()) - len(order)))
        return Map([m[k] for k in order], kind)
    return Map([tuple(x[1].f) for x in s.segs if not isinstance(x, Many)], kind, [x for x in s.segs if isinstance(x, Many)])


def set_from(s, kind):
    ones, seen = [], set()
    for x in s.segs:
        if not isinstance(x, Many):
            if vkey(x[1]) not in seen:
                seen.add(vkey(x[1]))
                ones.append((x[1], UNIT))
    return Map(ones, kind, [Many(x.shape, x.idxs, [tup(v, UNIT) for v in plain(x).alts]) for x in s.segs if isinstance(x, Many)])


@model('from_iter')
def _from_iter(c):
    out = []
    n = E.head_args(c.dty)[0].split('::')[-1]
    for s2, s in drain(c.eng, c.st, to_iter(c.eng, c.st, c.args[0]), c.site):
        out.append((s2, build(c, s, n)))
    return out


def build(c, s, n):
    if n in ('HashMap', 'BTreeMap'):
        return map_from(c, s, n)
    if n in ('HashSet', 'BTreeSet'):
        return set_from(s, n)
    if n in ('Vec', 'VecDeque') or n.startswith('['):
        return s
    if n == 'String':
        if s.known() and all(isinstance(x, Str) for x in s.items()):
            return Str(''.join(x.s for x in s.items()))
        return Opq('concat', (s,))
    if n == 'Box':
        return s
    raise Undecided('collect into ' + n)


@model('collect', 'collect_vec')
def _collect_(c):
    n = E.head_args(c.dty)[0].split('::')[-1]
    out = []
    h, ta = E.head_args(c.dty)
    if n in ('Result', 'Option'):
        inner = E.head_args(ta[0])[0].split('::')[-1]
        for s2, s in drain(c.eng, c.st, to_iter(c.eng, c.st, c.args[0]), c.site):
            items = s.items() if s.known() else None
            if items is None:
                raise Undecided('collect into ' + n)
            if all(isinstance(x, Agg) and x.f for x in items) and not any((x.name == RES and x.variant == 1) for x in items):
                out.append((s2, (ok if n == 'Result' else some)(build(c, seq([x.f[0] for x in items]), inner))))
            else:
                out.append((s2, NONE if n == 'Option' else err(Opq('err'))))
        return out
    for s2, s in drain(c.eng, c.st, to_iter(c.eng, c.st, c.args[0]), c.site):
        out.append((s2, build(c, s, n)))
    return out


# -- iterators -----------------------------------------------------------------

@model('into_iter', 'iter', 'iter_mut', 'drain')
def _iter(c):
    a = c.args[0]
    if c.name == 'iter' and isinstance(a, Ptr):
        a = c.v(0)
    if c.name == 'drain':
        v = c.v(0)
        s = as_seq(c.eng, c.st, v)
        c.set(0, Map((), v.kind) if isinstance(v, Map) else seq([]))
        return c.ret(It('seq', s, ZERO))
    if isinstance(a, Opq):
        a = c.eng.coerce(a, c.atys[0]) if c.atys else a
    return c.ret(to_iter(c.eng, c.st, a))


@model('keys', 'values', 'into_keys', 'into_values', 'values_mut')
def _keys(c):
    m = c.v(0)
    k = 0 if 'keys' in c.name else 1
    if isinstance(m, Opq):
        return c.ret(It('seq', as_seq(c.eng, c.st, Opq(c.name, (m,))), ZERO))
    if c.name == 'values_mut':
        p = c.args[0]
        if m.grown:
            raise Undecided('values_mut')
        return c.ret(It('seq', seq([Ptr(p.addr, p.proj + (('mv', key),)) for key, _ in m.items]), ZERO))
    s = seqmap(lambda t: t.f[k], map_seq(m))
    return c.ret(It('seq', s, ZERO))


@model('next')
def _next(c):
    p = c.args[0]
    it = c.eng.rd(c.st, p)
    if isinstance(it, Opq):
        return None
    while isinstance(p, Ptr) and isinstance(c.eng.read(c.st, p.addr, p.proj), Ptr):
        p = c.eng.read(c.st, p.addr, p.proj)
    forced = isinstance(p, Ptr) and c.eng.loop_carried(p.addr)
    out = []
    for s2, v, ni in nxt(c.eng, c.st, it, c.site, forced):
        if isinstance(p, Ptr):
            if ni is not it:
                c.eng.write(s2, p, ni)
        out.append((s2, NONE if v is None else some(v)))
    return out


@model('enumerate')
def _enum(c):
    return c.ret(It('enumerate', to_iter(c.eng, c.st, c.args[0]), ZERO))


@model('zip', 'chain', 'cartesian_product', 'izip', 'zip_eq')
def _zip(c):
    k = {'zip': 'zip', 'zip_eq': 'zip', 'chain': 'chain', 'cartesian_product': 'product'}[c.name]
    if dims(c.dty):
        return None
    return c.ret(It(k, to_iter(c.eng, c.st, c.args[0]), to_iter(c.eng, c.st, c.args[1])))


@model('cons_tuples')
def _cons(c):
    return c.ret(It('cons', to_iter(c.eng, c.st, c.args[0])))


@model('rev', 'peekable', 'fuse', 'flatten', 'cycle')
def _adapt1(c):
    return c.ret(It(c.name, to_iter(c.eng, c.st, c.args[0])))


@model('filter', 'filter_map', 'take_while', 'skip_while', 'flat_map', 'inspect')
def _adapt2(c):
    v = c.eng.rd(c.st, c.args[0])
    if not isinstance(v, It):
        if c.name == 'filter':
            out = []
            for s2, isn, x in split_option(c.eng, c.st, v):
                if isn:
                    out.append((s2, NONE))
                    continue
                for s3, w in c.eng.call_pure(s2, c.args[1], [x], c.site):
                    w = tobool(c.eng, w)
                    for n, r in ((B.AND(s3.pc, w.n), some(x)), (B.AND(s3.pc, B.NOT(w.n)), NONE)):
                        if n:
                            out.append((s3.with_pc(n), r))
            return out
        return None
    return c.ret(It(c.name, v, c.args[1]))


@model('skip', 'step_by')
def _skip(c):
    return c.ret(It(c.name, to_iter(c.eng, c.st, c.args[0]), c.n(1)))


@model('all', 'any')
def _all(c):
    it = to_iter(c.eng, c.st, c.args[0] if not isinstance(c.args[0], Ptr) else c.eng.rd(c.st, c.args[0]))
    isall = c.name == 'all'
    if definite(c.eng, c.st, it):
        # conjunction / disjunction over the known items
        out = []
        for s2, s in drain(c.eng, c.st, it, c.site):
            acc = TRUE if isall else FALSE
            cur = [(s2, acc)]
            for n, x in enumerate(s.items()):
                nc = []
                for s3, a in cur:
                    for s4, w in c.eng.call_pure(s3, c.args[1], [x], c.site, 'a%d' % n):
                        w = tobool(c.eng, w)
                        nc.append((s4, band(a, w) if isall else bor(a, w)))
                cur = nc
            out += cur
        return out
    parts = []
    for s2, v, pos in generic(c.eng, c.st, it, c.site, 'q'):
        for s3, w in c.eng.call_pure(s2, c.args[1], [v], c.site, 'q'):
            parts.append((B.AND(1, s3.pc), tobool(c.eng, w)))
    body = 0
    for pc, w in parts:
        body = B.OR(body, B.AND(pc, w.n)) if not isall else body
    if isall:
        body = 1
        for pc, w in parts:
            body = B.AND(body, B.OR(B.NOT(pc), w.n))
    if isall and body == 1:
        return c.ret(TRUE)
    if not isall and body == 0:
        return c.ret(FALSE)
    q = batom('forall' if isall else 'exists', (Bool(body), c.eng.iter_shape(c.st, it)))
    c.eng.quants.append((q, c.name, Bool(body), c.site, c.st.pc))
    return c.ret(q)


@model('for_each')
def _for_each(c):
    it = to_iter(c.eng, c.st, c.args[0])
    if definite(c.eng, c.st, it):
        out = []
        for s2, s in drain(c.eng, c.st, it, c.site):
            cur = [s2]
            for n, x in enumerate(s.items()):
                nc = []
                for s3 in cur:
                    nc += [s4 for s4, _ in c.eng.call_closure(s3, c.args[1], [x], c.site, 'f%d' % n)]
                cur = c.eng.merge(nc)
            out += [(s3, UNIT) for s3 in cur]
        return out

    def body(hs):
        backs = []
        for s2, v, pos in generic(c.eng, hs, it, c.site, 'fe'):
            backs += [s4 for s4, _ in c.eng.call_closure(s2, c.args[1], [v], c.site, 'fe')]
        return backs, [('exit', hs.copy())], []
    key = (c.site[0], 'for_each%d' % c.site[1])
    outs = c.eng.widen(key, c.st, body, None, None)
    if c.eng.loops.get(key):
        c.eng.loops[key][-1]['each'] = it
    return [(s2, UNIT) for _, s2 in outs]


@model('fold')
def _fold(c):
    it = to_iter(c.eng, c.st, c.args[0])
    if not definite(c.eng, c.st, it):
        K = ('F', c.site[0], c.site[1])
        st = c.st.copy()
        st.mem[K] = c.args[1]

        def body(hs):
            backs = []
            for s2, v, pos in generic(c.eng, hs, it, c.site, 'fo'):
                for s4, r in c.eng.call_closure(s2, c.args[2], [s2.mem[K], v], c.site, 'fo'):
                    s4.mem[K] = r
                    backs.append(s4)
            return backs, [('exit', hs.copy())], []
        outs = c.eng.widen((c.site[0], 'fold%d' % c.site[1]), st, body, None, None, force=[K])
        return [(s2, s2.mem.pop(K)) for _, s2 in outs]
    out = []
    for s2, s in drain(c.eng, c.st, it, c.site):
        cur = [(s2, c.args[1])]
        for n, x in enumerate(s.items()):
            nc = []
            for s3, a in cur:
                nc += c.eng.call_closure(s3, c.args[2], [a, x], c.site, 'f%d' % n)
            cur = nc
        out += cur
    return out


def it_sum(c):
    out = []
    for s2, s in drain(c.eng, c.st, to_iter(c.eng, c.st, c.args[0]), c.site):
        if not s.known():
            out.append((s2, c.eng.fresh(c.dty, c.name, (s,))))
            continue
        t = ZERO if c.name == 'sum' else ONE
        mat = None
        for x in s.items():
            x = c.eng.rd(s2, x)
            if isinstance(x, Mat):
                mat = x if mat is None else Mat(x.r, x.c, [p + q for p, q in zip(mat.e, x.e)])
            else:
                t = t + x if c.name == 'sum' else t * x
        out.append((s2, mat if mat is not None else t))
    return out


@model('product')
def _prod(c):
    v = c.eng.rd(c.st, c.args[0])
    if isinstance(v, It):
        return it_sum(c)
    if isinstance(v, Mat):
        t = ONE
        for e in v.e:
            t = t * e
        return c.ret(t)


@model('count')
def _count(c):
    it = to_iter(c.eng, c.st, c.args[0])
    out = []
    for s2, s in drain(c.eng, c.st, it, c.site):
        out.append((s2, s.length()))
    return out


@model('last')
def _last(c):
    v = c.eng.rd(c.st, c.args[0])
    it = to_iter(c.eng, c.st, v)
    out = []
    for s2, s in drain(c.eng, c.st, it, c.site):
        if s.known():
            l = s.items()
            out.append((s2, some(l[-1]) if l else NONE))
        elif len(s.segs) and not isinstance(s.segs[-1], Many):
            out.append((s2, some(s.segs[-1][1])))
        else:
            vs = seq_index(c.eng, s, s.length() - ONE)
            out += [(s3, some(x)) for s3, x in c.eng.fork(s2, vs, c.site, 'last')]
    return out


@model('first', 'nth')
def _first(c):
    v = c.eng.rd(c.st, c.args[0])
    it = to_iter(c.eng, c.st, v)
    i = c.n(1) if c.name == 'nth' else ZERO
    out = []
    for s2, s in drain(c.eng, c.st, it, c.site):
        if s.known() and i.op == 'c':
            l = s.items()
            out.append((s2, some(l[int(i.a)]) if int(i.a) < len(l) else NONE))
        else:
            out += [(s3, some(x)) for s3, x in c.eng.fork(s2, seq_index(c.eng, s, i), c.site, 'first')]
    if isinstance(c.args[0], Ptr) and isinstance(v, It) and len(out) == 1 and c.name == 'nth' and v.kind == 'seq' and i.op == 'c':
        c.eng.write(out[0][0], c.args[0], It('seq', v.a[0], v.a[1] + i + ONE))
    return out


@model('find', 'position', 'find_map', 'max_by', 'min_by', 'max_by_key', 'min_by_key')
def _find(c):
    return minmax(c)


def minmax(c):
    it = to_iter(c.eng, c.st, c.eng.rd(c.st, c.args[0]))
    out = []
    if c.name in ('find', 'position', 'find_map') and definite(c.eng, c.st, it):
        for s2, s in drain(c.eng, c.st, it, c.site):
            cur = [s2]
            for n, x in enumerate(s.items()):
                nc = []
                for s3 in cur:
                    if c.name == 'find_map':
                        for s4, w in c.eng.call_closure(s3, c.args[1], [x], c.site, 'f%d' % n):
                            for s5, isn, y in split_option(c.eng, s4, w):
                                if isn:
                                    nc.append(s5)
                                else:
                                    out.append((s5, some(y)))
                        continue
                    for s4, w in c.eng.call_pure(s3, c.args[1], [x], c.site, 'f%d' % n):
                        w = tobool(c.eng, w)
                        yes, no = B.AND(s4.pc, w.n), B.AND(s4.pc, B.NOT(w.n))
                        if yes:
                            out.append((s4.with_pc(yes), some(x if c.name == 'find' else const(n))))
                        if no:
                            nc.append(s4.with_pc(no))
                cur = nc
            out += [(s3, NONE) for s3 in cur]
        return out
    if c.name in ('find', 'position', 'find_map'):
        rs = generic(c.eng, c.st, it, c.site, 'fd')
        ex = c.eng.exhausted(c.st, c.site)
        for s2, v, pos in rs:
            if c.name == 'find_map':
                for s4, w in c.eng.call_closure(s2, c.args[1], [v], c.site, 'fd'):
                    for s5, isn, y in split_option(c.eng, s4, w):
                        if not isn:
                            pc = B.AND(s5.pc, B.NOT(ex))
                            if pc:
                                out.append((s5.with_pc(pc), some(y)))
                continue
            for s4, w in c.eng.call_pure(s2, c.args[1], [v], c.site, 'fd'):
                pc = B.AND(B.AND(s4.pc, tobool(c.eng, w).n), B.NOT(ex))
                if pc:
                    out.append((s4.with_pc(pc), some(v if c.name == 'find' else pos)))
        pc = B.AND(c.st.pc, ex)
        if pc:
            out.append((c.st.with_pc(pc), NONE))
        return out
    # extremum: some element of the collection
    for s2, s in drain(c.eng, c.st, it, c.site):
        if s.known() and not s.segs:
            out.append((s2, NONE))
            continue
        if s.known() and c.name in ('min', 'max') and all(isinstance(x, Num) for x in s.items()):
            r = s.items()[0]
            for x in s.items()[1:]:
                r = fn(c.name, r, x)
            out.append((s2, some(r)))
            continue
        keyinfo = None
        vs = []
        for n, sg in enumerate(s.segs):
            if isinstance(sg, Many):
                idx = sym('arg' + c.name, (s, c.args[1] if len(c.args) > 1 else ''), 'int')
                vs += sg.inst(idx)
            else:
                vs.append(sg[1])
        if len(c.args) > 1:
            # evaluate the key/comparator once on generic elements, for the checkers
            try:
                if c.name.endswith('_key'):
                    ks = c.eng.call_closure(s2.copy(), c.args[1], [vs[0]], c.site, 'key')
                    keyinfo = (vs[0], [w for _, w in ks])
                else:
                    a, b = vs[0], vs[-1]
                    if len(vs) == 1 and isinstance(s.segs[0], Many):
                        b = s.segs[0].inst(sym('#other', (), 'int'))[0]
                    ks = c.eng.call_closure(s2.copy(), c.args[1], [a, b], c.site, 'key')
                    keyinfo = (a, b, [w for _, w in ks])
            except Undecided:
                pass
        c.eng.extrema.append({'name': c.name, 'seq': s, 'key': keyinfo, 'site': c.site, 'pc': s2.pc})
        out += [(s3, some(x)) for s3, x in c.eng.fork(s2, dedupe(vs), c.site, 'ext')]
    return out


@model('sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable')
def _sorted(c):
    out = []
    for s2, s in drain(c.eng, c.st, to_iter(c.eng, c.st, c.args[0]), c.site):
        for s3, t in sort_seq(c, s2, s, c.args[1] if len(c.args) > 1 else None, c.name.endswith('key')):
            out.append((s3, It('seq', t, ZERO)))
    return out


@model('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
def _sort(c):
    s = c.v(0)
    if isinstance(s, Opq):
        return None
    if isinstance(s, Mat):
        s = seq(s.e)
    out = []
    for s2, t in sort_seq(c, c.st, s, c.args[1] if len(c.args) > 1 else None, c.name.endswith('key')):
        c.eng.write(s2, c.args[0], t)
        out.append((s2, UNIT))
    return out


def sort_seq(c, st, s, cmp_, bykey):
    import itertools
    eng = c.eng
    # record what is compared
    el = []
    for n, sg in enumerate(s.segs):
        if isinstance(sg, Many):
            el.append(plain(sg).alts[0] if plain(sg).alts else None)
        else:
            el.append(sg[1])
    info = {'site': c.site, 'bykey': bykey, 'name': c.name, 'pc': st.pc, 'seq': s, 'cmp': None}
    if el and el[0] is not None:
        a, b = el[0], el[-1]
        if len(el) == 1 and isinstance(s.segs[0], Many) and len(s.segs[0].idxs) >= 1:
            m = plain(s.segs[0])
            a = subst(m.alts[0], {x.a.h: sym('#x', (x,), 'int') for x in m.idxs})
            b = subst(m.alts[0], {x.a.h: sym('#y', (x,), 'int') for x in m.idxs})
        try:
            if cmp_ is None:
                info['cmp'] = (a, b, [compare(a, b)])
            elif bykey:
                ka = eng.call_closure(st.copy(), cmp_, [a], c.site, 'sk')
                kb = eng.call_closure(st.copy(), cmp_, [b], c.site, 'sk')
                info['cmp'] = (a, b, [compare(x, y) for (_, x), (_, y) in zip(ka, kb)])
            else:
                rs = eng.call_closure(st.copy(), cmp_, [a, b], c.site, 'sc')
                info['cmp'] = (a, b, [w for _, w in rs])
        except Undecided as e:
            info['why'] = str(e)
    eng.sorts.append(info)
    if s.known():
        l = s.items()
        if len(l) <= 1:
            return [(st, s)]
        if all(is_concrete(x) for x in l) and cmp_ is None:
            try:
                return [(st, seq(sorted(l, key=sortkey)))]
            except TypeError:
                pass
        if len(l) <= 4:
            perms = [seq([l[i] for i in p]) for p in itertools.permutations(range(len(l)))]
            return eng.fork(st, dedupe(perms), c.site, 'perm')
        # longer: position j holds item number sigma(j)
        j = sym('#i', ('sorted', s), 'int')
        return [(st, Seq([Many(('sorted', s, ('len', const(len(l)))), (j,), dedupe(l))]))]
    segs = []
    if len(s.segs) == 1:
        m = plain(s.segs[0])
        if len(m.idxs) == 1:
            j = m.idxs[0]
            pj = sym('perm', (('sort', m.shape, str(c.site[0]), str(c.site[1])), j), 'int')
            return [(st, Seq([Many(('perm', m.shape, c.site[1]), (j,), [subst(v, {j.a.h: pj}) for v in m.alts])]))]
        return [(st, Seq([Many(('perm', m.shape, c.site[1]), m.idxs, m.alts)]))]
    j = sym('#i', ('sorted', s), 'int')
    alts, idxs = [], [j]
    for sg in s.segs:
        if isinstance(sg, Many):
            alts += plain(sg).alts
            idxs += [i for i in sg.idxs if all(i.a.h != q.a.h for q in idxs)]
        else:
            alts.append(sg[1])
    return [(st, Seq([Many(('sorted', s), idxs, dedupe(alts))]))]


def sortkey(v):
    if isinstance(v, Num):
        return v.a
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Agg):
        return (v.variant,) + tuple(sortkey(x) for x in v.f)
    raise TypeError


# -- vectors -------------------------------------------------------------------

@model('push', 'push_back')
def _push(c):
    v = c.v(0)
    if isinstance(v, Str):
        x = c.v(1)
        c.set(0, Str(v.s + x.s) if isinstance(x, Str) else Opq('concat', (v, x)))
        return c.ret(UNIT)
    if isinstance(v, Opq) and v.name != 'uninit':
        if 'String' in c.path:
            c.set(0, Opq('concat', (v, c.v(1))))
            return c.ret(UNIT)
        v = as_seq(c.eng, c.st, v)
    c.set(0, Seq(v.segs + (('one', c.args[1]),), v.kind))
    return c.ret(UNIT)


@model('insert')
def _insert(c):
    v = c.v(0)
    if isinstance(v, Map):
        k = c.v(1)
        val = c.args[2] if len(c.args) > 2 else UNIT
        isset = v.kind in SETS
        old = [x for key, x in v.items if vkey(key) == vkey(k)]
        if old:
            items = [(key, val if vkey(key) == vkey(k) and not isset else x) for key, x in v.items]
            c.set(0, Map(items, v.kind, v.grown))
            return c.ret(FALSE if isset else some(old[0]))
        c.set(0, Map(v.items + ((k, val),), v.kind, v.grown))
        if isset:
            if is_concrete(k) and not v.grown and all(is_concrete(x) for x, _ in v.items):
                return c.ret(TRUE)
            return c.ret(bnot(batom('contains', (v, k))))
        return c.ret(NONE if is_concrete(k) else Opq('old', (v, k)))
    if isinstance(v, Seq):
        i = c.n(1)
        if i.op == 'c':
            k = int(i.a)
            if all(not isinstance(x, Many) for x in v.segs[:k]):
                c.set(0, Seq(v.segs[:k] + (('one', c.args[2]),) + v.segs[k:], v.kind))
                return c.ret(UNIT)
    raise Undecided('insert')


@model('push_str')
def _push_str(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Str) and isinstance(b, Str):
        c.set(0, Str(a.s + b.s))
    else:
        c.set(0, Opq('concat', ((a.args + (b,)) if isinstance(a, Opq) and a.name == 'concat' else (a, b))))
    return c.ret(UNIT)


@model('extend', 'extend_from_slice', 'append')
def _extend(c):
    v = c.v(0)
    src = c.args[1]
    if c.name == 'append':
        s = c.v(1)
        c.set(1, seq([]))
        outs = [(c.st, s)]
    else:
        outs = drain(c.eng, c.st, to_iter(c.eng, c.st, c.eng.rd(c.st, src)), c.site)
    out = []
    for s2, s in outs:
        if isinstance(v, Map):
            if s.known():
                items = list(v.items)
                for x in s.items():
                    k, val = (x, UNIT) if v.kind in SETS else (x.f[0], x.f[1])
                    items = [(a, b) for a, b in items if vkey(a) != vkey(k)] + [(k, val)]
                nv = Map(items, v.kind, v.grown)
            else:
                g = [Many(x.shape, x.idxs, [tup(y, UNIT) for y in x.alts]) if v.kind in SETS else x for x in s.segs if isinstance(x, Many)]
                nv = Map(v.items + tuple((x[1], UNIT) if v.kind in SETS else (x[1].f[0], x[1].f[1]) for x in s.segs if not isinstance(x, Many)), v.kind, v.grown + tuple(g))
        elif isinstance(v, Str) or (isinstance(v, Opq) and v.name == 'concat'):
            nv = Opq('concat', (v, s))
        else:
            nv = Seq(v.segs + s.segs, v.kind)
        c.eng.write(s2, c.args[0], nv)
        out.append((s2, UNIT))
    return out


@model('len')
def _len(c):
    v = c.v(0)
    if isinstance(v, Seq):
        return c.ret(v.length())
    if isinstance(v, Mat):
        return c.ret(const(len(v.e)))
    if isinstance(v, Str):
        return c.ret(const(len(v.s.encode())))
    if isinstance(v, Map):
        if not v.grown and all(is_concrete(k) for k, _ in v.items):
            return c.ret(const(len(v.items)))
        return c.ret(sym('len', (v,), 'int'))
    if isinstance(v, It):
        l = None
        for s2, s in drain(c.eng, c.st, v, c.site):
            return [(s2, s.length())]
    return c.ret(sym('len', (v,), 'int'))


@model('is_empty')
def _is_empty(c):
    v = c.v(0)
    if isinstance(v, Str):
        return c.ret(TRUE if not v.s else FALSE)
    if isinstance(v, (Seq, Map)):
        if isinstance(v, Map):
            if v.items:
                return c.ret(FALSE)
            if not v.grown:
                return c.ret(TRUE)
            return c.ret(batom('empty', (v,)))
        if any(not isinstance(s, Many) for s in v.segs):
            return c.ret(FALSE)
        if not v.segs:
            return c.ret(TRUE)
        return c.ret(eq(v.length(), ZERO))
    return c.ret(batom('empty', (v,)))


@model('contains', 'contains_key')
def _contains(c):
    v, k = c.v(0), c.v(1)
    if isinstance(v, Map):
        if any(vkey(key) == vkey(k) for key, _ in v.items):
            return c.ret(TRUE)
        if is_concrete(k) and not v.grown and all(is_concrete(x) for x, _ in v.items):
            return c.ret(FALSE)
        return c.ret(batom('contains', (v, k)))
    if isinstance(v, Seq) and v.known():
        r = FALSE
        for x in v.items():
            r = bor(r, eqv(c.eng, c.st, x, k))
        return c.ret(r)
    if isinstance(v, Str) and isinstance(k, Str):
        return c.ret(TRUE if k.s in v.s else FALSE)
    if isinstance(v, It) and v.kind == 'range' and isinstance(k, Num):
        return c.ret(band(le(v.a[0], k), lt(k, v.a[1])))
    if isinstance(v, Agg) and 'RangeInclusive' in v.name:
        return c.ret(band(le(v.f[0], k), le(k, v.f[1])))
    return c.ret(batom('contains', (v, k)))


@model('index', 'index_mut')
def _index(c):
    p = c.args[0]
    v = c.v(0)
    i = c.v(1)
    mutable = c.name == 'index_mut'
    if isinstance(v, Opq):
        v = c.eng.coerce(v, c.atys[0]) if c.atys else v
    if isinstance(v, Map):
        out = []
        if mutable:
            return c.ret(Ptr(p.addr, p.proj + (('mv', i),)))
        for s2, o in map_get(c, v, i):
            if o.variant == 1:
                out.append((s2, o.f[0]))
            else:
                c.eng.panic(s2, c.site, 'index')
        return out
    if isinstance(v, Mat):
        if isinstance(i, Agg) and i.kind == 'tuple':
            a, b = i.f
            if a.op == 'c' and b.op == 'c':
                i = const(int(b.a) * v.r + int(a.a))
            else:
                ch = [const(q * v.r + r) for q in range(v.c) for r in range(v.r)
                      if (a.op != 'c' or int(a.a) == r) and (b.op != 'c' or int(b.a) == q)]
                if mutable:
                    raise Undecided('matrix write at unknown index')
                return c.eng.fork(c.st, dedupe([v.e[int(x.a)] for x in ch]), c.site, 'midx')
        if mutable:
            return c.ret(Ptr(p.addr, p.proj + (('i', i),)))
        if i.op == 'c':
            return c.ret(v.e[int(i.a)])
        return c.eng.fork(c.st, dedupe(list(v.e)), c.site, 'midx')
    if isinstance(v, Seq):
        if isinstance(i, (It, Agg)):
            if mutable:
                raise Undecided('mutable subslice')
            lo, hi = slice_bounds(i)
            it = It('seq', v, ZERO)
            if hi is not None:
                it = It('take', it, hi)
            if lo is not None and not (lo.op == 'c' and lo.a == 0):
                it = It('skip', it, lo)
            if it.kind == 'seq':
                return c.ret(v)
            if v.known() and (lo is None or lo.op == 'c') and (hi is None or hi.op == 'c'):
                l = v.items()
                return c.ret(seq(l[int(lo.a) if lo is not None else 0:int(hi.a) if hi is not None else len(l)]))
            if hi is None and lo.op == 'c':
                try:
                    return [(s2, s) for s2, s in drain(c.eng, c.st, it, c.site)]
                except Undecided:
                    pass
            # unknown sub-slice: any of the elements
            alts, idxs = [], []
            for sg in v.segs:
                if isinstance(sg, Many):
                    alts += plain(sg).alts
                    idxs += list(sg.idxs)
                else:
                    alts.append(sg[1])
            k = sym('#i', ('sub', v, lo if lo is not None else '', hi if hi is not None else ''), 'int')
            if len(v.segs) == 1 and isinstance(v.segs[0], Many) and len(idxs) == 1 and lo is not None:
                j = idxs[0]
                return c.ret(Seq([Many(('sub', v.segs[0].shape, lo, hi if hi is not None else ''), (j,), [subst(x, {j.a.h: j + lo}) for x in alts])]))
            return c.ret(Seq([Many(('sub', v, lo if lo is not None else '', hi if hi is not None else ''), idxs or (k,), dedupe(alts))]))
        if mutable:
            return c.ret(Ptr(p.addr, p.proj + (('i', i),)))
        try:
            vs = seq_index(c.eng, v, i)
        except IndexErrorU:
            c.eng.panic(c.st, c.site, 'index out of bounds')
            return []
        return c.eng.fork(c.st, vs, c.site, 'idx')
    return c.ret(Opq('idx', (v, i)))


def slice_bounds(i):
    if isinstance(i, It) and i.kind == 'range':
        return i.a[0], i.a[1]
    if isinstance(i, Agg):
        n = i.name.split('::')[-1]
        if n == 'RangeFrom':
            return i.f[0], None
        if n == 'RangeTo':
            return None, i.f[0]
        if n == 'RangeToInclusive':
            return None, i.f[0] + ONE
        if n == 'RangeFull':
            return None, None
    raise Undecided('slice index')


@model('pop')
def _pop(c):
    v = c.v(0)
    if isinstance(v, Seq):
        if not v.segs:
            return c.ret(NONE)
        if not isinstance(v.segs[-1], Many):
            c.set(0, Seq(v.segs[:-1], v.kind))
            return c.ret(some(v.segs[-1][1]))
        x = plain(v.segs[-1]).inst(sym('popped', (v,), 'int'))
        return [(s, some(y)) for s, y in c.eng.fork(c.st, x, c.site, 'pop')] + [(c.st.copy(), NONE)]
    raise Undecided('pop')


@model('remove', 'swap_remove')
def _remove(c):
    v = c.v(0)
    if isinstance(v, Seq) and v.known() and c.n(1).op == 'c':
        k = int(c.n(1).a)
        l = v.items()
        x = l[k]
        if c.name == 'remove':
            c.set(0, seq(l[:k] + l[k + 1:]))
        else:
            l[k] = l[-1]
            c.set(0, seq(l[:-1]))
        return c.ret(x)
    if isinstance(v, Seq):
        i = c.n(1)
        vs = seq_index(c.eng, v, i)
        if i.op == 'c' and i.a == 0 and len(v.segs) > 0 and not isinstance(v.segs[0], Many):
            c.set(0, Seq(v.segs[1:], v.kind))
        else:
            c.set(0, Seq([Many(('removed', s.shape), s.idxs, s.alts) if isinstance(s, Many) else s for s in v.segs], v.kind))
        return c.eng.fork(c.st, vs, c.site, 'rm')
    if isinstance(v, Map):
        k = c.v(1)
        items = [(a, b) for a, b in v.items if vkey(a) != vkey(k)]
        old = [b for a, b in v.items if vkey(a) == vkey(k)]
        c.set(0, Map(items, v.kind, v.grown))
        if v.kind in SETS:
            return c.ret(TRUE if old else batom('removed', (v, k)))
        return c.ret(some(old[0]) if old else Opq('removed', (v, k)))
    raise Undecided('remove')


@model('clear', 'truncate')
def _clear(c):
    v = c.v(0)
    if c.name == 'clear':
        c.set(0, Map((), v.kind) if isinstance(v, Map) else Str('') if isinstance(v, Str) else seq([]))
        return c.ret(UNIT)
    n = c.n(1)
    if v.known() and n.op == 'c':
        c.set(0, seq(v.items()[:int(n.a)]))
        return c.ret(UNIT)
    raise Undecided('truncate')


@model('retain')
def _retain(c):
    v = c.v(0)
    out = []
    for s2, s in drain(c.eng, c.st, It('filter', It('seq', as_seq(c.eng, c.st, v), ZERO), c.args[1]), c.site):
        c.eng.write(s2, c.args[0], s)
        out.append((s2, UNIT))
    return out


@model('dedup', 'dedup_by', 'dedup_by_key', 'reserve', 'shrink_to_fit', 'shrink_to')
def _noop(c):
    if c.name.startswith('dedup'):
        v = c.v(0)
        if v.known() and c.name == 'dedup' and all(is_concrete(x) for x in v.items()):
            l = []
            for x in v.items():
                if not l or vkey(l[-1]) != vkey(x):
                    l.append(x)
            c.set(0, seq(l))
            return c.ret(UNIT)
        raise Undecided(c.name)
    return c.ret(UNIT)


@model('windows', 'chunks', 'chunks_exact')
def _windows(c):
    v = as_seq(c.eng, c.st, c.args[0])
    n = c.n(1)
    if v.known() and n.op == 'c':
        l, k = v.items(), int(n.a)
        if c.name == 'windows':
            return c.ret(It('seq', seq([seq(l[i:i + k]) for i in range(len(l) - k + 1)]), ZERO))
        return c.ret(It('seq', seq([seq(l[i:i + k]) for i in range(0, len(l), k)]), ZERO))
    raise Undecided(c.name)


@model('split_at', 'split_first', 'split_last')
def _split(c):
    v = as_seq(c.eng, c.st, c.args[0])
    if c.name == 'split_at' and v.known() and c.n(1).op == 'c':
        l, k = v.items(), int(c.n(1).a)
        return c.ret(tup(seq(l[:k]), seq(l[k:])))
    if c.name == 'split_first' and v.segs and not isinstance(v.segs[0], Many):
        return c.ret(some(tup(v.segs[0][1], Seq(v.segs[1:]))))
    raise Undecided(c.name)


@model('concat')
def _concat(c):
    v = as_seq(c.eng, c.st, c.args[0])
    if v.known():
        l = [c.eng.rd(c.st, x) for x in v.items()]
        if all(isinstance(x, Seq) for x in l):
            return c.ret(Seq([s for x in l for s in x.segs]))
        if all(isinstance(x, Str) for x in l):
            return c.ret(Str(''.join(x.s for x in l)))
    raise Undecided('concat')


@model('std::boxed::Box::<T>::new_uninit')
def _newuninit(c):
    a = ('H', c.site[0], c.site[1])
    c.st.mem[a] = Opq('uninit')
    return c.ret(Ptr(a))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def _boxvec(c):
    p = c.args[0]
    v = c.v(0)
    if isinstance(p, Ptr) and p.addr[0] == 'H':
        c.st.mem.pop(p.addr, None)
    while isinstance(v, Agg) and v.kind == 'raw':
        v = [x for x in v.f if not (isinstance(x, Opq) and x.name == 'uninit')][0]
    if isinstance(v, Seq):
        return c.ret(Seq(v.segs))
    raise Undecided('box into vec of %s' % type(v).__name__)


@model('from_elem')
def _from_elem(c):
    n = c.n(1)
    if n.op == 'c':
        return c.ret(seq([c.args[0]] * int(n.a)))
    i = sym('#i', ('fill', n), 'int')
    return c.ret(Seq([Many(('len', n), (i,), (c.v(0),))]))


# -- maps ----------------------------------------------------------------------

@model('entry')
def _entry(c):
    return c.ret(Agg('entry', 'entry', 0, (c.args[0], c.v(1))))


@model('or_insert', 'or_default', 'or_insert_with')
def _or_insert(c):
    e = c.v(0)
    if not (isinstance(e, Agg) and e.kind == 'entry'):
        return None
    p, k = e.f
    m = c.eng.rd(c.st, p)
    if not isinstance(m, Map):
        return None
    ptr = Ptr(p.addr, p.proj + (('mv', k),))
    if any(vkey(key) == vkey(k) for key, _ in m.items):
        return c.ret(ptr)
    if c.name == 'or_insert':
        dv = c.args[1]
        outs = [(c.st, dv)]
    elif c.name == 'or_insert_with':
        outs = c.eng.call_closure(c.st, c.args[1], [], c.site)
    else:
        outs = [(c.st, default_of(c.dty))]
    res = []
    for s2, dv in outs:
        if is_concrete(k) and not m.grown and all(is_concrete(key) for key, _ in m.items):
            val = dv
        elif not m.grown and not m.items:
            val = dv if not c.eng.in_widened() else entry_or(c, dv, k, m)
        else:
            val = entry_or(c, dv, k, m)
        c.eng.write(s2, p, Map(m.items + ((k, val),), m.kind, m.grown))
        res.append((s2, ptr))
    return res


def entry_or(c, dv, k, m):
    if isinstance(dv, Num):
        return sym('entry_or', (dv, k), 'int' if is_int(dv) else 'real')
    if isinstance(dv, Seq):
        # earlier contents under the same key, then the default
        alts, idxs = [], []
        for g in m.grown:
            for a in g.alts:
                if isinstance(a, Agg) and len(a.f) == 2 and isinstance(a.f[1], Seq):
                    for s in a.f[1].segs:
                        if isinstance(s, Many):
                            if s.shape == ('held', k):
                                alts += s.alts
                                idxs += s.idxs
                                continue
                            alts += s.alts
                            idxs += s.idxs
                        else:
                            alts.append(s[1])
        for key, v in m.items:
            if isinstance(v, Seq):
                for s in v.segs:
                    if isinstance(s, Many):
                        alts += s.alts
                        idxs += s.idxs
                    else:
                        alts.append(s[1])
        ii = {}
        for i in idxs:
            ii[i.a.h] = i
        if not alts:
            return dv
        j = sym('#i', ('held', k), 'int')
        return Seq((Many(('held', k), tuple(ii.values()) or (j,), dedupe(alts)),) + dv.segs)
    return Opq('entry_or', (dv, k))


@model('and_modify')
def _and_modify(c):
    e = c.v(0)
    p, k = e.f
    m = c.eng.rd(c.st, p)
    if any(vkey(key) == vkey(k) for key, _ in m.items):
        return [(s2, e) for s2, _ in c.eng.call_closure(c.st, c.args[1], [Ptr(p.addr, p.proj + (('mv', k),))], c.site)]
    if is_concrete(k) and not m.grown and all(is_concrete(key) for key, _ in m.items):
        return c.ret(e)
    raise Undecided('and_modify')


@model('get_mut')
def _get_mut(c):
    p = c.args[0]
    m = c.v(0)
    k = c.v(1)
    if isinstance(m, Map):
        if any(vkey(key) == vkey(k) for key, _ in m.items):
            return c.ret(some(Ptr(p.addr, p.proj + (('mv', k),))))
        if is_concrete(k) and not m.grown and all(is_concrete(key) for key, _ in m.items):
            return c.ret(NONE)
        return [(s, some(Ptr(p.addr, p.proj + (('mv', k),))) if n == 0 else NONE) for s, n in c.eng.fork(c.st, [0, 1], c.site, 'gm')]
    if isinstance(m, Seq) and isinstance(k, Num):
        return c.ret(some(Ptr(p.addr, p.proj + (('i', k),))))
    raise Undecided('get_mut')


# -- strings -------------------------------------------------------------------

@model('to_string')
def _to_string(c):
    v = c.v(0)
    if isinstance(v, Str):
        return c.ret(v)
    if isinstance(v, Num):
        if v.op == 'c' and v.a.denominator == 1:
            return c.ret(Str(str(int(v.a))))
        return c.ret(Opq('dec', (v,), 'std::string::String'))
    if isinstance(v, Agg) and v.kind == 'adt':
        u = display_impl(c.eng, v.name)
        if u:
            return call_display(c, u, v)
    if isinstance(v, Opq) and v.ty and display_impl(c.eng, v.ty):
        return c.ret(Opq('display', (v,)))
    if isinstance(v, Opq):
        return c.ret(v)
    return None


def display_impl(eng, name):
    for u, b in eng.p.bodies.items():
        if b.get('trait') and 'Display' in b['trait'] and b.get('selfty') == name and b['path'].endswith('fmt'):
            return u
    return None


def call_display(c, u, v):
    a = ('H', c.site[0], 'fmt%d' % c.site[1])
    st = c.st.copy()
    st.mem[a] = Str('')
    out = []
    for s2, r in c.eng.run_body(st, u, [v, Ptr(a)], '%s/fmt:%d' % (c.site[0], c.site[1])):
        s = s2.mem.pop(a)
        out.append((s2, s))
    return out


@model('write_fmt', 'write_str', 'pad')
def _write_fmt(c):
    a, b = c.v(0), c.v(1)
    if isinstance(b, Opq) and b.name == 'fmt' and len(b.args) == 1 and isinstance(b.args[0], Str):
        b = b.args[0]
    if isinstance(a, Str) and isinstance(b, Str):
        c.set(0, Str(a.s + b.s))
    elif isinstance(c.args[0], Ptr):
        c.set(0, Opq('concat', (a, b)))
    return c.ret(ok(UNIT))


@model('from_str')
def _from_str(c):
    if 'Arguments' in c.path:
        return c.ret(c.v(0))
    return None


@model('from_str_nonconst', 'new_const')
def _fmtconst(c):
    v = c.v(0)
    if isinstance(v, Seq) and v.known() and len(v.segs) == 1:
        return c.ret(v.items()[0])
    return c.ret(v if isinstance(v, Str) else Opq('fmt', (v,)))


@model('chars', 'bytes', 'char_indices')
def _chars(c):
    v = c.v(0)
    if isinstance(v, Str):
        if c.name == 'chars':
            return c.ret(It('seq', seq([Str(x) for x in v.s]), ZERO))
        if c.name == 'bytes':
            return c.ret(It('seq', seq([const(x) for x in v.s.encode()]), ZERO))
        return c.ret(It('seq', seq([tup(const(i), Str(x)) for i, x in enumerate(v.s)]), ZERO))
    return c.ret(It('seq', as_seq(c.eng, c.st, Opq(c.name, (v,))), ZERO))


@model('as_bytes')
def _bytes(c):
    v = c.v(0)
    if isinstance(v, Str):
        return c.ret(seq([const(x) for x in v.s.encode()]))
    return c.ret(as_seq(c.eng, c.st, Opq('bytes', (v,))))


@model('starts_with', 'ends_with')
def _starts(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Str) and isinstance(b, Str):
        return c.ret(TRUE if (a.s.startswith(b.s) if c.name == 'starts_with' else a.s.endswith(b.s)) else FALSE)
    return c.ret(batom(c.name, (a, b)))


@model('trim', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase')
def _trim(c):
    v = c.v(0)
    if isinstance(v, Str):
        return c.ret(Str({'trim': v.s.strip(), 'to_lowercase': v.s.lower(), 'to_ascii_lowercase': v.s.lower()}.get(c.name, v.s.upper())))
    return c.ret(Opq(c.name, (v,)))


@model('parse')
def _parse(c):
    v = c.v(0)
    h, ta = E.head_args(c.dty)
    t = ta[0] if ta else ''
    for u, b in c.eng.p.bodies.items():
        if b.get('trait') and 'FromStr' in b['trait'] and b.get('selfty') == t and b['path'].endswith('from_str'):
            return c.eng.run_body(c.st, u, [v], '%s/parse:%d' % (c.site[0], c.site[1]))
    return None


@model('panic_fmt', 'panic', 'begin_panic', 'panic_display', 'panic_explicit', 'assert_failed', 'unreachable_display', 'exit', 'abort')
def _panic(c):
    return [(c.st, UNIT)]


@model('drop', 'black_box', 'assert_into_py_result', 'debug_struct_field1_finish')
def _drop(c):
    return c.ret(c.args[0] if c.name == 'black_box' else UNIT)


@model('hash')
def _hash(c):
    return c.ret(UNIT)
