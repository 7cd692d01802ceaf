"""Algebraic properties: the value-flow summary of a function (what it returns as a formula of its inputs)
is compared with the formula the property requires."""
import itertools
import os
import random
from decimal import Decimal as D
from fractions import Fraction as F

from common import Check
from engine import Engine, Agg, Mat, Map, Seq, Str, Num, Many, Opq, Undecided, const, sym
from terms import Bool, B, fn, ZERO, ONE, det3, inv3, div
from models import matmul
from checks_tables import seed, coherent, plainv, variant, Tables, decode, prim_matrices
from evalf import Ev, same, dec, TINY
from hall import mm, inv, det, I3
import crystal as X

TRUST = ['rustc nightly MIR of /repo (driver/mirdump.rs)', 'value-flow analysis (analysis/engine.py) and its models of std, '
         'nalgebra and itertools calls (analysis/models.py)', 'real arithmetic in place of f64 rounding']


def fpath(prog, ck, suffix, trait=None, selfty=None):
    """path of the function a property is about; a vanished function fails the check"""
    for b in prog.bodies.values():
        p = b['path']
        if not (p == suffix or p.endswith('::' + suffix)) or b['kind'] not in ('fn', 'Fn', 'AssocFn', 'method'):
            if not (p == suffix or p.endswith('::' + suffix)):
                continue
        if '{closure' in p:
            continue
        return p
    if ck is not None:
        ck.missing(suffix)
    return None


def trait_path(prog, ck, selfty, trait, name, targs=None):
    for b in prog.bodies.values():
        if b['path'].split('::')[-1] == name and (b['selfty'] or '').split('::')[-1] == selfty:
            t = (b['trait'] or '')
            if '::' + trait in t or t == trait:
                if targs is None or targs(t):
                    return b['path']
    ck.missing('%s for %s' % (trait, selfty))
    return None


def fields(prog, v):
    return dict(zip(prog.adts[v.name]['variants'][v.variant]['fields'], v.f))


def summary(ck, prog, path, args=None, what=None, tries=None, **kw):
    """value-flow summary of one function; None (recorded as undecided) when a construct is not modelled"""
    if path is None:
        return None, None
    mu = kw.pop('max_unroll', None)
    e = Engine(prog, **kw)
    if mu:
        e.max_unroll = mu
        e.max_back = 200
        e.max_nodes = 10 ** 6
    try:
        rets = e.analyse(path, args=args)
    except Undecided as ex:
        ck.ob('summary', None, what or path, str(ex)[:200])
        return None, e
    except Exception as ex:
        ck.ob('summary', None, what or path, 'analysis failed: %r' % (ex,))
        return None, e
    ck.used(e)
    return rets, e


def select(rets, ev):
    """the result on the path taken at a sample point; None when no returning path is taken (the function panics)"""
    hit = [(st, r) for st, r in rets if ev.bool(st.pc)]
    if len(hit) > 1:
        raise Undecided('%d results at one point' % len(hit))
    return hit[0] if hit else None


def values(prog, v, ev):
    """a summary value at a sample point, as Python data"""
    if isinstance(v, Num):
        return ev.num(v)
    if isinstance(v, Bool):
        return ev.bool(v)
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Mat):
        return [[ev.num(v.at(i, j)) for j in range(v.c)] for i in range(v.r)]
    if isinstance(v, Seq):
        if not v.known():
            raise Undecided('unknown length')
        return [values(prog, x, ev) for x in v.items()]
    if isinstance(v, Agg):
        return [values(prog, x, ev) for x in v.f]
    raise Undecided('value %s' % type(v).__name__)


def vec(name, n=3):
    return Mat(n, 1, [sym(name, (const(i),)) for i in range(n)])


def mat(name, typ='real'):
    return Mat(3, 3, [sym(name, (const(i), const(j)), typ) for j in range(3) for i in range(3)])


def numsame(ck, kind, key, got, want, msg, where):
    """one obligation: a numeric summary is the required function of the inputs"""
    if not isinstance(got, Num):
        return ck.ob(kind, None, key, 'no numeric summary', where)
    return ck.ob(kind, same(got, want, seed()), key, msg + (': computes %s' % (got,))[:300], where)


def one(ck, kind, key, rets):
    if rets is None:
        return None
    if len(rets) != 1:
        # several paths: usable only when they agree
        from engine import vkey
        ks = {vkey_(r) for _, r in rets}
        if len(ks) == 1:
            return rets[0]
        ck.ob(kind, None, key, '%d results' % len(rets))
        return None
    return rets[0]


def vkey_(v):
    from terms import vkey
    return vkey(v)


def lattice_of(prog, S):
    return fields(prog, S)['lattice']


def dot(u, v):
    r = ZERO
    for a, b in zip(u, v):
        r = r + a * b
    return r


def col(L, j):
    return [L.at(i, j) for i in range(3)]


def mmul(a, b):
    return matmul(a, b)


def minv(m):
    e = inv3(list(m.e))
    return Mat(3, 3, e)


# --------------------------------------------------------------------------------------------- C26
def c26(prog):
    ck = Check('C26')
    sp = coherent(prog)
    S = sp['structure::Structure'](None, 's', ())
    S2 = sp['structure::Structure'](None, 't', ())
    L, L2 = lattice_of(prog, S), lattice_of(prog, S2)
    ax = [col(L, j) for j in range(3)]
    nrm = [fn('sqrt', dot(a, a)) for a in ax]
    deg = div(const(180), sym('pi'))
    n = 0
    want = {'a': nrm[0], 'b': nrm[1], 'c': nrm[2], 'volume': det3(list(L.e))}
    for nm, (i, j) in (('alpha', (1, 2)), ('beta', (0, 2)), ('gamma', (0, 1))):
        want[nm] = fn('acos', div(dot(ax[i], ax[j]), nrm[i] * nrm[j])) * deg
    for nm, w in want.items():
        p = fpath(prog, ck, 'Structure::' + nm)
        rets, e = summary(ck, prog, p, [S])
        if rets is None:
            continue
        r = one(ck, 'scalar', nm, rets)
        if r is None:
            continue
        n += 1
        numsame(ck, 'scalar', 'structure/' + nm, r[1], w, 'Structure::%s is not its definition' % nm, p)
    mats = {
        'metric_tensor': (matmul(transpose(L), L), [S], 'L^T L'),
        'reciprocal_lattice': (scale(transpose(minv(L)), const(2) * sym('pi')), [S], '2 pi L^-T'),
        'get_transformation_matrix': (matmul(minv(L), L2), [S, S2], 'L^-1 L\''),
    }
    for nm, (w, args, txt) in mats.items():
        p = fpath(prog, ck, 'Structure::' + nm)
        rets, e = summary(ck, prog, p, args)
        if rets is None:
            continue
        if len(rets) == 0:
            ck.ob('matrix', False, 'structure/%s/returns' % nm, 'Structure::%s never returns' % nm, p)
        for st, r in rets:
            if not isinstance(r, Mat):
                ck.ob('matrix', None, 'structure/' + nm, 'no matrix')
                continue
            n += 1
            for i in range(3):
                for j in range(3):
                    numsame(ck, 'matrix', 'structure/%s' % nm, r.at(i, j), w.at(i, j),
                            'entry (%d,%d) of Structure::%s is not that of %s' % (i, j, nm, txt), p)
    p = fpath(prog, ck, 'Structure::num_sites')
    rets, e = summary(ck, prog, p, [S])
    if rets is not None:
        r = one(ck, 'scalar', 'num_sites', rets)
        if r is not None:
            numsame(ck, 'scalar', 'structure/num_sites', r[1], fields(prog, S)['species'].length(), 'num_sites is not the number of species', p)
    ck.floor('summarised geometry functions', n, 8)
    return ck.finish('bounded', 'the summary of each geometry function equals its definition as a function of the nine lattice entries '
                     '(identity testing of the normal forms; random points for functions with acos/sqrt)', TRUST,
                     ['the lattice is invertible (singular lattices: C22)'])


def transpose(m):
    return Mat(m.c, m.r, [m.at(c, r) for c in range(m.r) for r in range(m.c)])


def scale(m, k):
    return Mat(m.r, m.c, [x * k for x in m.e])


# --------------------------------------------------------------------------------------------- C33
GRID = [F(0), F(1, 8), F(-1, 8), F(1, 4), F(-1, 4), F(1, 2), F(-1, 2), F(1), F(-1), F(9, 8), F(-7, 8), F(3, 8), F(7, 2), F(-11, 3)]


def c33(prog):
    ck = Check('C33')
    rnd = random.Random(seed())
    eps = [F(0), F(1, 8), F(1, 4), F(1, 2), F(2)]
    nf = 0
    A, Bn, T = sym('a'), sym('b'), sym('tol')
    for nm, edge in (('cust_eq', True), ('approx_equal', None)):
        p = fpath(prog, ck, 'utils::' + nm)
        rets, e = summary(ck, prog, p, [A, Bn, T])
        if rets is None:
            continue
        nf += 1
        bad = {}
        for a, b, t in itertools.product(GRID, GRID, eps):
            d = abs(a - b)
            if edge is None and d == t:
                continue
            asg = {'a': a, 'b': b, 'tol': t}
            judge_bool(ck, prog, rets, lambda n_, x, m=asg: m.get(n_), d <= t, 'comparison', 'utils/%s' % nm,
                       '%s(%s, %s, tol %s) should be %s' % (nm, a, b, t, d <= t), p)
    # matrices, each element with its own tolerance
    p = fpath(prog, ck, 'utils::compare_matrices')
    ma, mb = mat('a'), mat('b')
    tl = seqof([sym('tol', (const(i),)) for i in range(9)])
    rets, e = summary(ck, prog, p, [ma, mb, tl])
    if rets is not None:
        nf += 1
        for k in range(9):
            for s in (1, -1):
                for d, t in ((F(1, 4), F(1, 4)), (F(1, 4), F(1, 8)), (F(1, 8), F(1, 4)), (F(0), F(0)), (F(1, 8), F(0))):
                    # element k (column-major, as tolerances are listed) differs by d; the others are within generous tolerances
                    r_, c_ = k % 3, k // 3
                    base = {(i, j): F(rnd.randint(-40, 40), 8) for i in range(3) for j in range(3)}
                    oth = {(i, j): base[i, j] + F(rnd.choice((-1, 0, 1)), 8) for i in range(3) for j in range(3)}
                    oth[r_, c_] = base[r_, c_] + s * d

                    def asg(n_, x):
                        if n_ == 'a':
                            return base[int(x[0]), int(x[1])]
                        if n_ == 'b':
                            return oth[int(x[0]), int(x[1])]
                        if n_ == 'tol':
                            return t if int(x[0]) == k else F(1)
                    judge_bool(ck, prog, rets, asg, d <= t, 'matrix', 'utils/compare_matrices',
                               'compare_matrices with element (%d,%d) off by %s at its tolerance %s should be %s' % (r_, c_, d, t, d <= t), p)
    # sequences
    p = fpath(prog, ck, 'utils::approx_equal_iter')
    for k in range(1, 4):
        sa, sb = [sym('a', (const(i),)) for i in range(k)], [sym('b', (const(i),)) for i in range(k)]
        rets, e = summary(ck, prog, p, [seqof(sa), seqof(sb), T], what='approx_equal_iter of length %d' % k)
        if rets is None:
            continue
        nf += k == 1
        for i in range(k):
            for d, t in ((F(1, 4), F(1, 8)), (F(1, 8), F(1, 4)), (F(-1, 4), F(1, 8)), (F(-1, 8), F(1, 4)), (F(0), F(1, 8))):
                def asg(n_, x):
                    if n_ == 'a':
                        return F(3) + int(x[0])
                    if n_ == 'b':
                        return F(3) + int(x[0]) + (d if int(x[0]) == i else 0)
                    if n_ == 'tol':
                        return t
                judge_bool(ck, prog, rets, asg, abs(d) < t, 'sequence', 'utils/approx_equal_iter',
                           'approx_equal_iter of length %d with element %d off by %s (tolerance %s) should be %s' % (k, i, d, t, abs(d) < t), p)
    # sign counts
    p = fpath(prog, ck, 'utils::num_negative_zero')
    for k in range(1, 5):
        sv = [sym('v', (const(i),)) for i in range(k)]
        rets, e = summary(ck, prog, p, [seqof(sv), T], what='num_negative_zero of length %d' % k, max_unroll=20)
        if rets is None:
            continue
        nf += k == 1
        pool = [F(-1), F(-1, 4), F(-1, 8), F(0), F(1, 8), F(1, 4), F(2), F(-3, 16), F(3, 16)]
        tuples = itertools.product(pool, repeat=k) if k <= 2 else [tuple(rnd.choice(pool) for _ in range(k)) for _ in range(150)]
        for vs in tuples:
            for t in (F(1, 4), F(3, 16), F(0)):
                want = [sum(1 for v in vs if v < -t), sum(1 for v in vs if -t <= v < t)]

                def asg(n_, x):
                    if n_ == 'v':
                        return vs[int(x[0])]
                    if n_ == 'tol':
                        return t
                try:
                    hit = select(rets, Ev(asg))
                    got = None if hit is None else [int(x) for x in values(prog, hit[1], Ev(asg))]
                except Undecided as ex:
                    ck.ob('sign-count', None, 'utils/num_negative_zero', str(ex))
                    continue
                ck.ob('sign-count', got == want, 'utils/num_negative_zero',
                      'num_negative_zero of %s with tolerance %s counts %s, expected %s' % ([str(v) for v in vs], t, got, want), p)
    ck.floor('summarised comparison functions', nf, 5)
    return ck.finish('bounded', 'the summary of each comparison is evaluated on a grid of exact inputs that includes every boundary '
                     'and compared with |a-b| <= tol element by element', TRUST, ['sequences of up to 4 elements'])


def seqof(xs):
    return Seq([('one', x) for x in xs])


def judge_bool(ck, prog, rets, asg, want, kind, key, msg, where):
    try:
        ev = Ev(asg, strict=True)
        hit = select(rets, ev)
        got = None if hit is None else ev.bool(hit[1])
    except Undecided as ex:
        return ck.ob(kind, None, key, str(ex))
    return ck.ob(kind, got == want, key, msg + ', the code gives %s' % ('a panic' if got is None else got), where)


# --------------------------------------------------------------------------------------------- C10
FOLD = [F(0), F(1), F(-1), F(2), F(-3), F(1, 2), F(-1, 2), F(1, 16), F(-1, 16), F(1, 8), F(-1, 8), F(15, 16), F(-15, 16), F(7, 8),
        F(-7, 8), F(17, 16), F(-17, 16), F(9, 8), F(-9, 8), F(3, 32), F(-3, 32), F(29, 32), F(-29, 32), F(61, 16), F(-61, 16),
        F(93, 32), F(-93, 32), F(37, 3), F(-37, 3), F(255, 256), F(-255, 256), F(1, 256), F(-1, 256)]
TOLS = [F(1, 16), F(1, 8), F(3, 64)]


def fold_ok(x, y, t):
    """y is x moved by an integer into [-t, 1-t] (both ends allowed)"""
    n = x - y
    return abs(n - n.to_integral_value()) < TINY and -t - TINY <= y <= 1 - t + TINY


def c10(prog):
    ck = Check('C10')
    p = fpath(prog, ck, 'utils::normalize_frac_vectors')
    nf = 0
    # general: one symbolic vector of an arbitrary list
    rets, e = summary(ck, prog, p, None, what='normalize_frac_vectors on any list')
    if rets:
        for st, r in rets:
            v = st.mem.get(('A', 0))
            if isinstance(v, Seq) and len(v.segs) == 1 and isinstance(v.segs[0], Many) and len(v.segs[0].alts) == 1:
                m = v.segs[0]
                ck.ob('list-kept', str(m.shape) == str(('in', 'in0')) or None, 'normalize_frac_vectors/length',
                      'the folded list has the length and order of the input list')
            else:
                ck.ob('list-kept', None, 'normalize_frac_vectors/length', 'list summary not in closed form')
    for k in (1, 2, 3):
        vs = [Mat(3, 1, [sym('x', (const(i), const(c))) for c in range(3)]) for i in range(k)]
        T = vec('tol')
        rets, e = summary(ck, prog, p, [seqof(vs), T], what='normalize_frac_vectors of %d vectors' % k, max_unroll=20)
        if rets is None:
            continue
        nf += 1
        for st, r in rets:
            out = st.mem.get(('A', 0))
            if not isinstance(out, Seq) or not out.known():
                ck.ob('list-kept', None, 'normalize_frac_vectors/%d' % k, 'no closed form')
                continue
            if not ck.ob('list-kept', len(out.items()) == k, 'normalize_frac_vectors/count',
                         'folding %d vectors leaves %d' % (k, len(out.items())), p):
                continue
        pts = [(x, t) for x in FOLD for t in TOLS]
        for i in range(k):
            for c in range(3):
                for n_, (x, t) in enumerate(pts):
                    def asg(nm, a):
                        if nm == 'x':
                            return x if (int(a[0]), int(a[1])) == (i, c) else F(1, 3) + int(a[0]) + F(int(a[1]), 64)
                        if nm == 'tol':
                            return t if int(a[0]) == c else F(1, 5)
                    try:
                        ev = Ev(asg, strict=True)
                        hit = select(rets, ev)
                        if hit is None:
                            ck.ob('folds', False, 'normalize_frac_vectors/panic', 'folding %s panics' % x, p)
                            continue
                        out = hit[0].mem[('A', 0)].items()
                        y = ev.num(out[i].at(c, 0))
                    except Undecided as ex:
                        ck.ob('folds', None, 'normalize_frac_vectors', str(ex))
                        continue
                    ck.ob('folds', fold_ok(dec(x), y, dec(t)), 'normalize_frac_vectors/component',
                          'component %d = %s with tolerance %s becomes %s' % (c, x, t, float(y)), p)
    ck.floor('summarised list lengths', nf, 1)
    return ck.finish('bounded', 'the summary of every folded component is x plus an integer within [-tol, 1-tol], on a grid of exact '
                     'values around every case boundary, each component with its own tolerance', TRUST, ['lists of up to 3 vectors; any length by the list summary'])


# --------------------------------------------------------------------------------------------- C28
def op_value(prog, name, rot=None, tra=None):
    adt = next(k for k in prog.adts if k.split('::')[-1] == 'SymmOp')
    val = {'rotation': rot or Mat(3, 3, [sym(name + '.R', (const(i), const(j)), 'int') for j in range(3) for i in range(3)]),
           'translation': tra or Mat(3, 1, [sym(name + '.t', (const(i),)) for i in range(3)])}
    return Agg('adt', adt, 0, [val[f] for f in prog.adts[adt]['variants'][0]['fields']])


def c28(prog):
    ck = Check('C28')
    rnd = random.Random(seed())
    p = fpath(prog, ck, 'SymmOp::is_approx_eq')
    o1, o2, T = op_value(prog, 'p'), op_value(prog, 'q'), vec('tol')
    rets, e = summary(ck, prog, p, [o1, o2, T])
    nf = 0
    if rets:
        nf += 1
        diffs = [F(0), F(1), F(-1), F(1, 32), F(-1, 32), F(31, 32), F(-31, 32), F(33, 32), F(-33, 32), F(2), F(-65, 32), F(1, 2),
                 F(-1, 2), F(3, 32), F(-3, 32), F(29, 32), F(-29, 32), F(35, 32), F(-35, 32), F(5, 32), F(-5, 32), F(27, 32)]
        tols = [F(1, 16), F(1, 8), F(3, 16)]
        for c in range(3):
            for d in diffs:
                for t, rest in [(t, r) for t in tols for r in (F(1, 64), F(9, 32))]:      # tolerances of the other axes: smaller, larger
                    dist = abs(d - round(d))
                    if dist == t:
                        continue
                    base = [F(rnd.randint(-20, 20), 16) for _ in range(3)]
                    R = [[rnd.choice((-1, 0, 1)) for _ in range(3)] for _ in range(3)]

                    def asg(nm, a):
                        if nm in ('p.R', 'q.R'):
                            return R[int(a[0])][int(a[1])]
                        if nm == 'q.t':
                            return base[int(a[0])]
                        if nm == 'p.t':
                            return base[int(a[0])] + (d if int(a[0]) == c else 1)
                        if nm == 'tol':
                            return t if int(a[0]) == c else rest
                    judge_bool(ck, prog, rets, asg, dist < t, 'translation', 'is_approx_eq/translation',
                               'translations differing by %s in component %d, tolerance %s, should compare %s' % (d, c, t, dist < t), p)
        for i in range(3):
            for j in range(3):
                for dv in (1, -1, 2):
                    def asg(nm, a):
                        if nm == 'p.R':
                            return (1 if a[0] == a[1] else 0) + (dv if (int(a[0]), int(a[1])) == (i, j) else 0)
                        if nm == 'q.R':
                            return 1 if a[0] == a[1] else 0
                        if nm in ('p.t', 'q.t'):
                            return F(1, 4)
                        if nm == 'tol':
                            return F(1, 10)
                    judge_bool(ck, prog, rets, asg, False, 'rotation', 'is_approx_eq/rotation',
                               'rotations differing in entry (%d,%d) must not compare equal' % (i, j), p)
    p = fpath(prog, ck, 'SymmOp::normalize')
    rets, e = summary(ck, prog, p, [o1, T])
    if rets:
        nf += 1
        for x in FOLD:
            for c in range(3):
                def asg(nm, a):
                    if nm == 'p.t':
                        return x if int(a[0]) == c else F(5, 3)
                    if nm == 'p.R':
                        return int(a[0]) * 3 + int(a[1])
                    if nm == 'tol':
                        return F(1, 16)
                try:
                    ev = Ev(asg, strict=True)
                    hit = select(rets, ev)
                    if hit is None:
                        ck.ob('normalize', False, 'normalize/panic', 'normalising %s panics' % x, p)
                        continue
                    f = fields(prog, hit[0].mem[('A', 0)])
                    y = ev.num(f['translation'].at(c, 0))
                    R = values(prog, f['rotation'], ev)
                except Undecided as ex:
                    ck.ob('normalize', None, 'normalize', str(ex))
                    continue
                n = dec(x) - y
                ck.ob('normalize', abs(n - n.to_integral_value()) < TINY, 'normalize/translation',
                      'normalising changes translation %s to %s, not by an integer' % (x, float(y)), p)
                ck.ob('normalize-rotation', all(R[i][j] == i * 3 + j for i in range(3) for j in range(3)), 'normalize/rotation',
                      'normalising changes the rotation', p)
    ck.floor('summarised functions', nf, 1)
    return ck.finish('bounded', 'the summary of the comparison, as a decision formula over the 24 operation entries and 3 tolerances, is '
                     'evaluated on a grid of exact differences around every integer and tolerance', TRUST,
                     ['the exact boundary |difference| = tolerance may be decided either way'])


# --------------------------------------------------------------------------------------------- C18
def c18(prog):
    ck = Check('C18')
    o1, o2 = op_value(prog, 'p'), op_value(prog, 'q')
    R1, t1 = fields(prog, o1)['rotation'], fields(prog, o1)['translation']
    R2, t2 = fields(prog, o2)['rotation'], fields(prog, o2)['translation']
    x = vec('x')
    n = 0
    pa = trait_path(prog, ck, 'SymmOp', 'Mul', 'mul', lambda t: 'Mul<' in t and 'SymmOp>' not in t.split('Mul<')[1])
    rets, e = summary(ck, prog, pa, [o1, x])
    if rets:
        for st, r in rets:
            if not isinstance(r, Mat):
                ck.ob('apply', None, 'apply', 'no vector')
                continue
            n += 1
            for i in range(3):
                w = dot([R1.at(i, j) for j in range(3)], [x.at(j, 0) for j in range(3)]) + t1.at(i, 0)
                numsame(ck, 'apply', 'symmop/apply', r.at(i, 0), w, 'component %d of {R|t} x is not R x + t' % i, pa)
    pm = trait_path(prog, ck, 'SymmOp', 'Mul', 'mul', lambda t: 'Mul<' not in t or 'SymmOp>' in t.split('Mul<')[1])
    rets, e = summary(ck, prog, pm, [o1, o2])
    if rets:
        def madd(M, v, w):
            return [dot([M.at(i, j) for j in range(3)], [v.at(j, 0) for j in range(3)]) + w.at(i, 0) for i in range(3)]
        good = madd(R1, t2, t1)
        pinned = madd(R2, t1, t2)
        for st, r in rets:
            if not isinstance(r, Agg):
                ck.ob('compose', None, 'compose', 'no operation')
                continue
            n += 1
            f = fields(prog, r)
            for i in range(3):
                for j in range(3):
                    w = dot([R1.at(i, k) for k in range(3)], [R2.at(k, j) for k in range(3)])
                    numsame(ck, 'compose-rotation', 'symmop/mul/rotation', f['rotation'].at(i, j), w,
                            'entry (%d,%d) of the product rotation is not R1 R2' % (i, j), pm)
            g = [same(f['translation'].at(i, 0), good[i], seed()) for i in range(3)]
            h = [same(f['translation'].at(i, 0), pinned[i], seed()) for i in range(3)]
            if all(v is True for v in g):
                ck.ob('compose-translation', True, 'symmop/mul/translation')
            elif all(v is True for v in h):
                ck.ob('compose-translation', False, 'symmop/mul/translation-R2*t1+t2',
                      'the product of {R1|t1} and {R2|t2} has rotation R1 R2 but translation R2 t1 + t2 instead of R1 t2 + t1', pm)
            elif any(v is False for v in g):
                ck.ob('compose-translation', False, 'symmop/mul/translation',
                      'the product of {R1|t1} and {R2|t2} has translation %s, not R1 t2 + t1' % (f['translation'],), pm)
            else:
                ck.ob('compose-translation', None, 'symmop/mul/translation')
    ck.floor('summarised products', n, 2)
    return ck.finish('bounded', 'the summaries of the two products equal {R1 R2 | R1 t2 + t1} and R x + t identically in all entries', TRUST)


# --------------------------------------------------------------------------------------------- C09
def digits(code, base, sub, n):
    out = []
    for _ in range(n):
        out.append(code % base - sub)
        code //= base
    return out[::-1]


TMAP = (0, 2, 3, 4, 6, 8, 9, 10)


def c09(prog):
    ck = Check('C09')
    rnd = random.Random(seed())
    nf = 0
    E_ = sym('e', (), 'int')
    p = fpath(prog, ck, 'utils::decode')
    for base, sub, n in ((3, 1, 9), (8, 0, 3)):
        rets, e = summary(ck, prog, p, [E_, const(base), const(sub), const(n)], what='decode base %d' % base, max_unroll=30)
        if not rets:
            continue
        nf += 1
        codes = {0, 1, base, base ** n - 1, base ** n, base ** (n - 1)} | {rnd.randrange(base ** n) for _ in range(60)} | {base ** k for k in range(n)}
        codes |= {base ** k * d for k in range(n) for d in range(base)}
        for c in sorted(codes):
            judge_value(ck, prog, rets, {'e': c}, digits(c, base, sub, n), 'digits', 'decode/base%d' % base,
                        'decode(%d, %d, %d, %d)' % (c, base, sub, n), p)
    p = fpath(prog, ck, 'utils::decode_spg_op')
    rets, e = summary(ck, prog, p, [E_], max_unroll=30)
    if rets:
        nf += 1
        codes = {0, 1, 19682, 19683, 19684, 8 ** 3 * 19683 - 1} | {rnd.randrange(8 ** 3 * 19683) for _ in range(120)}
        codes |= {19683 * (a * 64 + b * 8 + c) + 16484 for a in range(8) for b in range(8) for c in range(8)}
        for c in sorted(codes):
            want = [digits(c % 19683, 3, 1, 9), [TMAP[d] for d in digits(c // 19683, 8, 0, 3)]]
            judge_value(ck, prog, rets, {'e': c}, want, 'operation', 'decode_spg_op', 'decode_spg_op(%d)' % c, p)
    reassembly(ck, prog)
    ck.floor('summarised decoders', nf, 2)
    return ck.finish('bounded', 'decoder summaries (digit formulas) evaluated at all 512 translations and sampled rotation codes; every operation '
                     'rebuilt from a code is the row-major matrix with the translation in twelfths, up to one signed axis permutation C '
                     'applied as C^-1 R C, C^-1 t', TRUST)


def judge_value(ck, prog, rets, asg, want, kind, key, what, where):
    try:
        ev = Ev(lambda n, a: asg.get(n), strict=True)
        hit = select(rets, ev)
        got = None if hit is None else toint(values(prog, hit[1], ev))
    except Undecided as ex:
        return ck.ob(kind, None, key, str(ex)[:200])
    return ck.ob(kind, got == want, key, '%s gives %s, expected %s' % (what, got, want), where)


def toint(v):
    if isinstance(v, list):
        return [toint(x) for x in v]
    if isinstance(v, D):
        n = v.to_integral_value()
        return int(n) if abs(v - n) < TINY else F(str(round(v, 40)))
    return v


def signed_perms():
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            yield tuple(tuple(s[i] if p[i] == j else 0 for j in range(3)) for i in range(3))


def cmat(m):
    return Mat(3, 3, [const(m[i][j]) for j in range(3) for i in range(3)])


def reassembly(ck, prog):
    """operations rebuilt from codes: watch the candidate handed to the comparison in the space-group search and
    the generators kept by the point-group constructor"""
    d9 = [sym('rot', (const(i),), 'int') for i in range(9)]
    d3 = [sym('tra', (const(i),), 'int') for i in range(3)]

    def dec_op(eng, st, args, dty, site):
        return [(st, Agg('tuple', None, 0, [seqof(d9), seqof(d3)]))]

    def dec_plain(eng, st, args, dty, site):
        return [(st, seqof(d9))]
    Rm = Mat(3, 3, [d9[3 * i + j] for j in range(3) for i in range(3)])
    tm = Mat(3, 1, [d3[i] * const(F(1, 12)) for i in range(3)])
    forms = {}
    for C in signed_perms():
        Ci = transpose(cmat(C))
        forms.setdefault(vkey_(matmul(matmul(Ci, Rm), cmat(C))), []).append((C, matmul(Ci, tm)))
    dp = fpath(prog, ck, 'utils::decode_spg_op')
    ip = fpath(prog, ck, 'SymmetryAnalyzer::identify_space_group')
    cp = fpath(prog, ck, 'SymmOp::is_approx_eq')
    n = 0
    if dp and ip and cp:
        rets, e = summary(ck, prog, ip, None, contracts={dp: dec_op}, watch=[cp], opaque=[cp])
        if e is not None:
            cand = []
            for ev in e.events:
                for a in ev['args'][:2]:
                    if isinstance(a, Agg) and a.name and a.name.split('::')[-1] == 'SymmOp':
                        f = fields(prog, a)
                        if mentions(f['rotation'], 'rot') or mentions(f['translation'], 'tra'):
                            cand.append((f, ev['pc']))
            for f, pc in cand:
                for R, t, cond in cases(f['rotation'], f['translation'], pc):
                    n += 1
                    k = forms.get(vkey_(R))
                    if k is None:
                        taint = any(not (a.a.name in ('rot', 'tra')) for x in list(R.e) + list(t.e) for a in atoms(x))
                        ck.ob('rebuilt-rotation', None if taint else False, 'identify_space_group/rotation',
                              'the candidate rotation is not the row-major matrix of its code in any axis order: %s' % (R,), ip)
                        continue
                    C, tw = next(((C, tw) for C, tw in k if all(same(t.at(i, 0), tw.at(i, 0)) for i in range(3))), k[0])
                    ck.ob('rebuilt-rotation', True, 'identify_space_group/rotation', 'axis permutation %s' % (C,))
                    for i in range(3):
                        numsame(ck, 'rebuilt-translation', 'identify_space_group/translation', t.at(i, 0), tw.at(i, 0),
                                'component %d of the candidate translation is not that of C^-1 t / 12 for C = %s' % (i, C), ip)
                    ck.extra.setdefault('axis_permutations', []).append(str(C))
                    if C != I3:
                        # primitive axes of the tabulated A-centred cell -> primitive axes of the C-centred cell
                        prim = prim_matrices(Tables(prog, ck)) or {}
                        if 'A' in prim and 'C' in prim and det(prim['C']) != 0:
                            M = mm(mm(prim['A'], C), inv(prim['C']))
                            ck.ob('axis-permutation', all(x in (0, 1, -1) for r in M for x in r) and det(M) in (1, -1),
                                  'identify_space_group/axes', 'the axis change %s does not carry the A-centred cell to a C-centred cell '
                                  'with permuted axes' % (C,), ip)
    gp = fpath(prog, ck, 'PointGroup::from_number')
    pp = fpath(prog, ck, 'utils::decode')
    if gp and pp:
        rets, e = summary(ck, prog, gp, [const(32)], contracts={pp: dec_plain}, opaque_statics=False,
                          opaque=[q for q in [fpath(prog, None, 'PointGroup::generate_operations')] if q])
        if rets:
            for st, r in rets:
                g = fields(prog, r)['generators']
                if isinstance(g, Seq) and g.known():
                    for m in g.items():
                        n += 1
                        ck.ob('rebuilt-generator', vkey_(m) == vkey_(Rm) if isinstance(m, Mat) else None, 'from_number/generator',
                              'a generator is rebuilt as %s, not row by row from its digits' % (m,), gp)
    ck.extra['rebuilt_operations'] = n


def atoms(x):
    from terms import subterms_atoms
    return list(subterms_atoms(x).values())


def mentions(v, name):
    from terms import subterms_atoms
    if isinstance(v, Mat):
        return any(a.a.name == name for x in v.e for a in subterms_atoms(x).values())
    return False


def cases(R, t, pc):
    """split a joined value into its guarded alternatives (0/1 indicators of conditions)"""
    conds = {}
    for x in list(R.e) + list(t.e):
        for a in atoms(x):
            if a.a.name == 'b2i':
                conds[a.a.h] = a
    from terms import replace_atom
    hs = list(conds)
    if not hs:
        return [(R, t, pc)]
    if len(hs) > 6:
        return []
    out = []
    for bits in itertools.product((0, 1), repeat=len(hs)):
        n = pc
        for h, b in zip(hs, bits):
            c = conds[h].a.args[0].n
            n = B.AND(n, c if b else B.NOT(c))
        if n == 0:
            continue

        def sub(x):
            for h, b in zip(hs, bits):
                x = replace_atom(x, h, const(b))
            return x
        out.append((Mat(R.r, R.c, [sub(x) for x in R.e]), Mat(t.r, t.c, [sub(x) for x in t.e]), n))
    return out


# --------------------------------------------------------------------------------------------- C06
def chol(A, Bv, C, Dv, E, Fv):
    """columns of a right-handed lattice with the given metric (60 digits)"""
    A, Bv, C, Dv, E, Fv = (dec(x) for x in (A, Bv, C, Dv, E, Fv))
    a1 = A.sqrt()
    b1 = Fv / a1
    b2 = (Bv - b1 * b1).sqrt()
    c1 = E / a1
    c2 = (Dv - b1 * c1) / b2
    c3 = (C - c1 * c1 - c2 * c2).sqrt()
    z = D(0)
    return [[a1, b1, c1], [z, b2, c2], [z, z, c3]]


def c06(prog):
    ck = Check('C06')
    rnd = random.Random(seed())
    p = fpath(prog, ck, 'SymmetryAnalyzer::get_lattice_character')
    S = coherent(prog)['structure::Structure'](None, 's', ())
    rets, e = summary(ck, prog, p, [None, S, sym('tol')], max_unroll=40, max_states=200000)
    n = 0
    if rets:
        for num in range(1, 45):
            for m in X.char_members(num, rnd, 8):
                for hand in (1, -1):
                    L = chol(*m)
                    for i in range(3):
                        for j in range(3):
                            L[i][j] *= hand

                    def asg(nm, a):
                        if nm == 's.L':
                            return L[int(a[0])][int(a[1])]
                        if nm == 'tol':
                            return F(1, 10 ** 5)
                    try:
                        ev = Ev(asg, strict=True)
                        hit = select(rets, ev)
                        got = None if hit is None else int(ev.num(hit[1]))
                    except Undecided as ex:
                        ck.ob('classified', None, 'character/%d' % num, str(ex)[:150])
                        continue
                    n += 1
                    ck.ob('classified', got == num, 'character/%d%s' % (num, '' if hand > 0 else '/left-handed'),
                          'the reduced %s metric (A,B,C,D,E,F) = %s of character %d is %s'
                          % ('right-handed' if hand > 0 else 'left-handed', [str(x) for x in m], num,
                             'refused' if got is None else 'classified as %d' % got), p)
    ck.floor('members classified', n, 1)
    return ck.finish('bounded', 'the decision formula extracted from the classifier is evaluated on exact generic members of each of the '
                     '44 families, both hands', TRUST, ['generic members of each family, away from the tolerance boundaries'])
