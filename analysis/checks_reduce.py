"""Cell reductions and structure updates: loop summaries of the reductions are checked step by step, and the
structures returned are compared with the crystal they were made from."""
import itertools
import random
from decimal import Decimal as D
from fractions import Fraction as F

from common import Check
from engine import Engine, Agg, Mat, Map, Seq, Str, Num, Many, Opq, Undecided, const, sym
from terms import Bool, B, H, fn, ZERO, ONE, TRUE, FALSE, det3, inv3, vkey, replace_atom, num_of_atom
from values import subst, seq
from models import matmul
from checks_tables import seed, coherent
from checks_algebra import TRUST, fpath, fields, summary, select, vec, mat, minv, seqof
from evalf import Ev, dec, TINY
from hall import det, mm, inv
import crystal as X

I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
SMALL = D(10) ** -40


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def ddet(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def dinv(m):
    d = ddet(m)
    if abs(d) < TINY:
        raise Undecided('singular matrix at a sample point')
    c = [[(m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]) / d
          for i in range(3)] for j in range(3)]
    return c


def asint(m, tol=SMALL):
    """nearest integer matrix, None when some entry is not an integer"""
    out = []
    for r in m:
        row = []
        for x in r:
            n = x.to_integral_value(rounding='ROUND_HALF_EVEN')
            if abs(x - n) > tol:
                return None
            row.append(int(n))
        out.append(row)
    return out


def chol_upper(G):
    """upper triangular L with L^T L = G (columns are the axes)"""
    G = [[dec(x) for x in r] for r in G]
    U = [[D(0)] * 3 for _ in range(3)]
    for i in range(3):
        s = G[i][i] - sum(U[k][i] ** 2 for k in range(i))
        if s <= 0:
            raise Undecided('metric is not positive')
        U[i][i] = s.sqrt()
        for j in range(i + 1, 3):
            U[i][j] = (G[i][j] - sum(U[k][i] * U[k][j] for k in range(i))) / U[i][i]
    return U


ROT = [[F(2, 3), F(-1, 3), F(2, 3)], [F(2, 3), F(2, 3), F(-1, 3)], [F(-1, 3), F(2, 3), F(2, 3)]]


def unimodular(rnd, n=4, signs=True):
    U = [list(r) for r in I3]
    for _ in range(n):
        i, j = rnd.sample(range(3), 2)
        E = [list(r) for r in I3]
        E[i][j] = rnd.choice((-1, 1))
        U = mul(U, E)
        if signs and rnd.random() < .4:
            k, l = rnd.sample(range(3), 2)
            E = [list(r) for r in I3]
            E[k][k] = E[l][l] = -1
            U = mul(U, E)
        if rnd.random() < .4:
            E = [[0, -1, 0], [-1, 0, 0], [0, 0, -1]]
            U = mul(U, E)
    return U


# ------------------------------------------------------------------------------------- loop variables
def leaves(h, e, out):
    """(loop symbol, value on entry) for every number the loop changes"""
    if vkey(h) == vkey(e):
        return
    if isinstance(h, Num) and isinstance(e, Num):
        if h.op == 'a' and h.a.name == 'mu':
            out.append((h, e))
        return
    if isinstance(h, Bool):
        return
    if isinstance(h, Mat) and isinstance(e, Mat) and len(h.e) == len(e.e):
        for a, b in zip(h.e, e.e):
            leaves(a, b, out)
    elif isinstance(h, Agg) and isinstance(e, Agg) and len(h.f) == len(e.f):
        for a, b in zip(h.f, e.f):
            leaves(a, b, out)
    elif isinstance(h, Seq) and isinstance(e, Seq) and h.known() and e.known() and len(h.segs) == len(e.segs):
        for a, b in zip(h.items(), e.items()):
            leaves(a, b, out)


def mats(h, e, out, at=()):
    """(path, matrix at loop head, matrix on entry) of the matrices the loop changes"""
    if vkey(h) == vkey(e):
        return
    if isinstance(h, Mat) and isinstance(e, Mat):
        if all(isinstance(x, Num) and x.op == 'a' and x.a.name == 'mu' for x in h.e):
            out.append((at, h, e))
    elif isinstance(h, Agg) and isinstance(e, Agg) and len(h.f) == len(e.f):
        for i, (a, b) in enumerate(zip(h.f, e.f)):
            mats(a, b, out, at + (i,))


def walk(v, at):
    for i in at:
        if not isinstance(v, Agg) or i >= len(v.f):
            raise Undecided('loop variable changed shape')
        v = v.f[i]
    return v


def atkey(a, ev):
    return (a.name, tuple(ev.arg(y) for y in a.args))


class Loop:
    """a loop that re-describes a cell: one of its variables is the transformation accumulated so far (identity
    on entry) or the axes themselves (the input lattice on entry); all its other numbers are functions of the
    axes, fixed by their values on entry"""

    def __init__(self, summ, L):
        self.s = summ
        self.L = L
        self.vars = []          # (root, at, header, entry)
        ent, hd = summ['entry'], summ['header']
        self.leaf = []
        for root in hd.mem:
            if root in ent.mem:
                ms = []
                mats(hd.mem[root], ent.mem[root], ms)
                self.vars += [(root, at, h, e) for at, h, e in ms]
                ls = []
                leaves(hd.mem[root], ent.mem[root], ls)
                self.leaf += [(root, h, e) for h, e in ls]
        self.main = None
        for root, at, h, e in self.vars:
            if (e.r, e.c) == (3, 3) and all(e.at(i, j).op == 'c' and e.at(i, j).a == (i == j) for i in range(3) for j in range(3)):
                self.main = ('T', root, at, h)
        for root, at, h, e in self.vars:
            if e.r == 3 and e.c in (3, 4) and all(vkey(e.at(i, j)) == vkey(L.at(i, j)) for i in range(3) for j in range(3)):
                if self.main is None or self.main[0] != 'T':
                    self.main = ('L', root, at, h)

    def mainhashes(self):
        return {x.h for x in self.main[3].e}

    def counters(self):
        return [h for _, h, e in self.leaf if h.a.typ == 'int' and e.op == 'c']

    def assign(self, Lval, U, base, count=None):
        """values of the loop symbols when the axes reached so far are Lval*U"""
        LU = mul(Lval, U)
        evk = Ev(base(Lval), strict=False)
        ev2 = Ev(base(LU), strict=False)
        tab = {}
        mh = self.mainhashes()
        cs = {c.h for c in self.counters()}
        kind, root, at, h = self.main
        for r_, hh, e in self.leaf:
            if hh.h in mh:
                continue
            if hh.h in cs:
                tab[atkey(hh.a, evk)] = D(3 if count is None else count)
                continue
            try:
                tab[atkey(hh.a, evk)] = ev2.num(e)
            except Undecided:
                pass
        for k, x in enumerate(h.e):
            i, j = k % h.r, k // h.r
            if kind == 'T':
                v = D(U[i][j])
            else:
                v = LU[i][j] if j < 3 else -(LU[i][0] + LU[i][1] + LU[i][2])
            tab[atkey(x.a, evk)] = v
        b0 = base(Lval)
        src = self.s['src']
        own = None
        if src is not None:
            d = B.vars[B.nodes[src['ex']][0]]
            own = [evk.arg(y) for y in d[1]]

        def asg(name, args):
            if name == 'mu':
                return tab.get((name, tuple(args)))
            if name == '?exhausted' and own is not None and args == own:
                return False
            return b0(name, args)
        return asg

    def axes(self, st, ev, Lval):
        """axes described by a state at the end of a step"""
        kind, root, at, h = self.main
        m = walk(st.mem[root], at)
        if not isinstance(m, Mat):
            raise Undecided('no matrix')
        V = [[ev.num(m.at(i, j)) for j in range(m.c)] for i in range(m.r)]
        if kind == 'T':
            return mul(Lval, V), V
        return [r[:3] for r in V], V


def base_assign(extra=None):
    def mk(Lval):
        def asg(name, args):
            if name == 's.L':
                return Lval[int(args[0])][int(args[1])]
            if extra is not None:
                r = extra(name, args)
                if r is not None:
                    return r
            if 'rank' in name:
                return D(3)
            if name == '?exhausted':
                return True
            if name == '#g':
                return D(7)
            return None
        return asg
    return mk


def find_loops(e, L):
    out = []
    for k, ls in e.loops.items():
        for s in ls:
            try:
                lp = Loop(s, L)
            except Exception:
                continue
            if lp.main is not None:
                out.append(lp)
    # a summary nested in another one describes its steps only; keep the outermost
    return out


# ------------------------------------------------------------------------------------- site records
class Rec:
    def __init__(self, shape, sp, x, f):
        self.shape, self.sp, self.x, self.f = shape, sp, x, f


def records(prog, S):
    """the aligned (species, Cartesian, fractional) records of a structure value; None when the lists are ordered differently"""
    d = fields(prog, S)
    a, b, c = d['species'], d['coords'], d['frac_coords']
    for v in (a, b, c):
        if not isinstance(v, Seq):
            raise Undecided('site list without a summary')
    if not (len(a.segs) == len(b.segs) == len(c.segs)):
        raise Undecided('site lists built in different ways')
    out = []
    for p, q, r in zip(a.segs, b.segs, c.segs):
        if isinstance(p, Many) and isinstance(q, Many) and isinstance(r, Many):
            if not (p.shape == q.shape == r.shape):
                base = [order_of(x.shape) for x in (p, q, r)]
                if base[0][0] == base[1][0] == base[2][0]:
                    return None         # the same list, reordered differently
                raise Undecided('site lists built by different loops')
            if not (len(p.alts) == len(q.alts) == len(r.alts)):
                raise Undecided('site records with different numbers of cases')
            if not (len(p.idxs) == len(q.idxs) == len(r.idxs)):
                raise Undecided('site records with different indices')
            mq = {y.a.h: x for x, y in zip(p.idxs, q.idxs) if y.h != x.h}
            mr = {y.a.h: x for x, y in zip(p.idxs, r.idxs) if y.h != x.h}
            for u, v, w in zip(p.alts, q.alts, r.alts):
                v, w = subst(v, mq) if mq else v, subst(w, mr) if mr else w
                out.append(Rec(p.shape, own_instance(u, p.idxs), own_instance(v, p.idxs), own_instance(w, p.idxs)))
        elif not (isinstance(p, Many) or isinstance(q, Many) or isinstance(r, Many)):
            out.append(Rec('one', p[1], q[1], r[1]))
        else:
            raise Undecided('site lists built in different ways')
    return out


def order_of(shape):
    st = []
    while isinstance(shape, tuple) and shape and shape[0] == 'perm':
        st.append(shape[2:])
        shape = shape[1]
    return shape, st


def no_instance(v):
    for _ in range(6):
        un = {a.h: a.args[0] for q in v.e for a in all_atoms(q) if a.name == 'inst' and isinstance(a.args[0], Num)}
        if not un:
            break
        v = subst(v, un)
    return v


def stale(prog, S):
    """coordinate lists built in different ways: do they differ even when they speak of the same site?"""
    d = fields(prog, S)
    Lm, b, c = d['lattice'], d['coords'], d['frac_coords']
    if not (isinstance(b, Seq) and isinstance(c, Seq) and isinstance(Lm, Mat)):
        return False
    alts = [[v for g in q.segs for v in (g.alts if isinstance(g, Many) else (g[1],))] for q in (b, c)]
    if not alts[0] or not alts[1]:
        return False
    for x in alts[0]:
        for f in alts[1]:
            if not isinstance(x, Mat) or not isinstance(f, Mat):
                return False
            x, f = no_instance(x), no_instance(f)
            ix = {vkey(q): q for e in x.e for q in sites_in2(e)}
            jf = {vkey(q): q for e in f.e for q in sites_in2(e)}
            if len(ix) != 1 or len(jf) != 1:
                return False
            i, j = list(ix.values())[0], list(jf.values())[0]
            if not (isinstance(i, Num) and i.op == 'a'):
                return False
            x2 = subst(x, {i.a.h: j})
            want = matmul(Lm, f)
            try:
                ev = Ev(folded, seed=9, strict=False)
                if all(abs(ev.num(p) - ev.num(q)) < D(10) ** -9 for p, q in zip(x2.e, want.e)):
                    return False
            except Undecided:
                return False
    return True


def own_instance(v, idxs):
    """inst(a, i) with i the element's own position is the a of that element"""
    own = {i.a.h for i in idxs}

    def mine(y):
        while isinstance(y, Num) and y.op == 'a' and y.a.name == 'perm':
            y = y.a.args[-1]
        return isinstance(y, Num) and y.op == 'a' and y.a.h in own
    if not isinstance(v, Mat) and site_of(v) is None:
        return v
    for _ in range(4):
        un = {a.h: a.args[0] for q in (v.e if isinstance(v, Mat) else v.args) for a in all_atoms(q) if a.name == 'inst' and len(a.args) == 2 and mine(a.args[1])}
        if not un:
            break
        v = subst(v, un)
    return v


def site_of(sp):
    """index of the input site whose species a record carries"""
    if isinstance(sp, Opq) and sp.name == 's.s' and sp.args:
        return sp.args[0]
    return None


def whole(shape, i):
    """does this segment run over every site exactly once?  True/False/None"""
    s = shape
    while isinstance(s, tuple) and s and s[0] == 'perm':
        s = s[1]
    s = site_range(s)
    if s != ('sites', 's'):
        return None
    if not isinstance(i, Num) or i.op != 'a':
        return None
    a = i.a
    while a.name == 'perm':
        nxt = [y for y in a.args if isinstance(y, Num) and y.op == 'a']
        if not nxt:
            return None
        a = nxt[-1].a
    return True if a.name == '#i' else None


def check_sites(ck, prog, S, ev_at, key, where, kind='site', Lold=None):
    """every input site once, with its own species, displaced by a lattice vector of the new cell"""
    try:
        recs = records(prog, S)
    except Undecided as ex:
        ck.ob(kind, None, key, str(ex))
        return
    if recs is None:
        ck.ob(kind, False, key + '/aligned', 'species, Cartesian and fractional lists of the result are not aligned record by record', where)
        return
    Lm = fields(prog, S)['lattice']
    total = None
    for r in recs:
        i = site_of(r.sp)
        if i is None or not isinstance(r.f, Mat):
            ck.ob(kind, None, key, 'record without a summary')
            continue
        total = whole(r.shape, i)
        ck.ob(kind, total, key + '/every-site', 'sites of the result do not run over all input sites once', where)
        for ev, Lin in ev_at:
            try:
                Ln = [[ev.num(Lm.at(a, b)) for b in range(3)] for a in range(3)]
                fo = [[ev.num(sym('s.f', (i, const(k))))] for k in range(3)]
                fn_ = [[ev.num(r.f.e[k])] for k in range(3)]
                want = mul(dinv(Ln), mul(Lin, fo))
                d = [[fn_[k][0] - want[k][0]] for k in range(3)]
                ck.ob(kind, asint(d, D(10) ** -9 if ev.approx else SMALL) is not None, key + '/position',
                      'a site is moved by %s of the new axes, not by a lattice vector' % [str(round(float(x[0]), 6)) for x in d], where)
            except Undecided as ex:
                ck.ob(kind, None, key, str(ex))


# ------------------------------------------------------------------------------------- samples
def reduced_metrics(rnd, per=2):
    out = []
    for n in range(1, 45):
        for m in X.char_members(n, rnd, per):
            out.append((n, m))
    return out


def six(G):
    return (G[0][0], G[1][1], G[2][2], G[1][2], G[0][2], G[0][1])


def near_misses(rnd, per=2, cap=400):
    """metrics that meet the main conditions but not all special ones, or miss a single main one, next to every
    lattice character"""
    mats3 = [m for m in itertools.product((-1, 0, 1), repeat=9) if 1]
    rnd.shuffle(mats3)
    ms = []
    for m in mats3:
        M = (m[:3], m[3:6], m[6:])
        if det(M) == 1:
            ms.append(M)
    special, other = [], []
    for n, m in reduced_metrics(rnd, per):
        G = X.gram(*m)
        k = 0
        for M in ms[:700]:
            H_ = mm(tuple(zip(*M)), mm(G, M))
            s = six(H_)
            if X.niggli_ok(*s):
                continue
            A, Bq, C, x, e, z = s[0], s[1], s[2], 2 * s[3], 2 * s[4], 2 * s[5]
            main = A <= Bq <= C and abs(x) <= Bq and abs(e) <= A and abs(z) <= A
            (special if main else other).append((n, s))
    rnd.shuffle(special)
    rnd.shuffle(other)
    return special[:cap], other[:cap // 3]


SPECIAL = [   # (sign type, equality, special condition violated) of the Niggli definition, x=2D, e=2E, z=2F
    (1, lambda A, B, C, x, e, z: (A, A, C, x, e, z), lambda A, B, C, x, e, z: x > e),
    (1, lambda A, B, C, x, e, z: (A, B, B, x, e, z), lambda A, B, C, x, e, z: e > z),
    (1, lambda A, B, C, x, e, z: (A, B, C, B, e, z), lambda A, B, C, x, e, z: z > 2 * e),
    (1, lambda A, B, C, x, e, z: (A, B, C, x, A, z), lambda A, B, C, x, e, z: z > 2 * x),
    (1, lambda A, B, C, x, e, z: (A, B, C, x, e, A), lambda A, B, C, x, e, z: e > 2 * x),
    (-1, lambda A, B, C, x, e, z: (A, A, C, x, e, z), lambda A, B, C, x, e, z: -x > -e),
    (-1, lambda A, B, C, x, e, z: (A, B, B, x, e, z), lambda A, B, C, x, e, z: -e > -z),
    (-1, lambda A, B, C, x, e, z: (A, B, C, -B, e, z), lambda A, B, C, x, e, z: z != 0),
    (-1, lambda A, B, C, x, e, z: (A, B, C, x, -A, z), lambda A, B, C, x, e, z: z != 0),
    (-1, lambda A, B, C, x, e, z: (A, B, C, x, e, -A), lambda A, B, C, x, e, z: e != 0),
    (-1, lambda A, B, C, x, e, z: (A, B, C, -(e + z + A + B), e, z), lambda A, B, C, x, e, z: 2 * A + 2 * e + z > 0),
]


def single_misses(rnd, per=12):
    """metrics that meet every Niggli condition except one special condition, and the same with it met"""
    bad, good = [], []
    for sg, eqn, viol in SPECIAL:
        nb = ng = 0
        for _ in range(6000):
            if nb >= per and ng >= 3:
                break
            A = F(rnd.randint(80, 160), 8)
            Bq = A + F(rnd.randint(1, 60), 8)
            C = Bq + F(rnd.randint(1, 60), 8)
            x, e, z = (F(0) if sg < 0 and rnd.random() < .3 else sg * F(rnd.randint(1, 170), 8) for _ in range(3))
            m = eqn(A, Bq, C, x, e, z)
            A, Bq, C, x, e, z = m
            if not (A <= Bq <= C and abs(x) <= Bq and abs(e) <= A and abs(z) <= A):
                continue
            if sg > 0 and not (x > 0 and e > 0 and z > 0) or sg < 0 and not (x <= 0 and e <= 0 and z <= 0 and x + e + z + A + Bq >= 0):
                continue
            s = (A, Bq, C, x / 2, e / 2, z / 2)
            if det(X.gram(*s)) <= 0:
                continue
            if viol(*m):
                if nb < per:
                    nb += 1
                    bad.append((0, s))
            elif X.niggli_ok(*s) and ng < 3:
                ng += 1
                good.append((0, s))
    return bad, good


def cell(G, mirror=False):
    """a lattice with this metric in a general orientation"""
    L = mul([[dec(x) for x in r] for r in ROT], chol_upper(G))
    return [[-x for x in r] for r in L] if mirror else L


def step_checks(ck, prog, lp, points, handed, key, where, base, counts=(None,)):
    """every step of the loop replaces the axes by an integer unimodular combination of them and keeps every other
    number the loop carries equal to the same function of the axes it was on entry"""
    hit = set()
    nb = len(lp.s['backs'])
    mh = lp.mainhashes()
    cs = {c.h for c in lp.counters()}
    for (Lval, U) in points:
        for cnt in counts:
            try:
                asg = lp.assign(Lval, U, base, cnt)
            except Undecided:
                continue
            ev = Ev(asg)
            LUi = dinv(mul(Lval, U))
            for bi, st in enumerate(lp.s['backs'] + [s for _, s in lp.s['exits']]):
                try:
                    if not ev.bool(st.pc):
                        continue
                    hit.add(bi)
                    Ln, V = lp.axes(st, ev, Lval)
                    C = asint(mul(LUi, Ln))
                    good = C is not None and (ddet(C) == 1 if handed else abs(ddet(C)) == 1)
                    ck.ob('step-lattice', good, key + '/step-unimodular',
                          'a step replaces the axes by the combination %s, which is not an integer matrix of determinant %s'
                          % (C or [[str(round(float(x), 4)) for x in r] for r in mul(LUi, Ln)], '1' if handed else '+1 or -1'), where)
                    if lp.main[0] == 'L' and len(V[0]) == 4:
                        ck.ob('step-sum', all(abs(sum(r)) < SMALL for r in V), key + '/step-sum-zero',
                              'after a step the four vectors do not sum to zero', where)
                    if bi >= nb or C is None or abs(ddet(C)) != 1:
                        continue
                    ev2 = Ev(base(Ln))
                    for root, h, e in lp.leaf:
                        if h.h in mh or h.h in cs or e.op == 'c':
                            continue
                        v = leaf_value(lp, root, h, st)
                        if v is None:
                            continue
                        try:
                            a, b = ev.num(v), ev2.num(e)
                        except Undecided:
                            continue
                        ck.ob('step-metric', abs(a - b) < SMALL * (1 + abs(a)), key + '/step-metric',
                              'after a step a number derived from the axes is %s, but the new axes give %s'
                              % (round(float(a), 6), round(float(b), 6)), where)
                except Undecided as ex:
                    ck.ob('step-lattice', None, key, str(ex)[:200])
    return hit


def leaf_value(lp, root, h, st):
    """value a step leaves in the variable whose loop symbol is h"""
    def find(hv, nv):
        if isinstance(hv, Num):
            return nv if hv.h == h.h and isinstance(nv, Num) else None
        if isinstance(hv, Mat) and isinstance(nv, Mat):
            return next((r for r in (find(a, b) for a, b in zip(hv.e, nv.e)) if r is not None), None)
        if isinstance(hv, Agg) and isinstance(nv, Agg):
            return next((r for r in (find(a, b) for a, b in zip(hv.f, nv.f)) if r is not None), None)
        if isinstance(hv, Seq) and isinstance(nv, Seq) and hv.known() and nv.known():
            return next((r for r in (find(a, b) for a, b in zip(hv.items(), nv.items())) if r is not None), None)
        return None
    if root not in st.mem:
        return None
    return find(lp.s['header'].mem[root], st.mem[root])


def niggli(ck, prog):
    S = coherent(prog)['structure::Structure'](None, 's', ())
    p = fpath(prog, ck, 'Reducer::niggli_reduce')
    rets, e = summary(ck, prog, p, [None, S, sym('tol')])
    if rets is None:
        return None
    L = fields(prog, S)['lattice']
    lps = find_loops(e, L)
    return S, p, rets, e, L, lps


def tolval(t):
    def extra(name, args):
        if name == 'tol':
            return t
    return extra


def c12(prog):
    ck = Check('C12')
    rnd = random.Random(seed())
    r = niggli(ck, prog)
    if r is not None:
        S, p, rets, e, L, lps = r
        base = base_assign(tolval(D(10) ** -12))
        special, other = near_misses(rnd, 1, 600)
        bad, good = single_misses(rnd, 6)
        special = special[:200] + bad
        red = reduced_metrics(rnd, 1) + good
        pts = []
        for n, s in special + other + red:
            U = unimodular(rnd, rnd.randint(0, 3))
            Ui = inv(U)
            G = mm(tuple(zip(*Ui)), mm(X.gram(*s), Ui))      # the metric reached after U is s
            try:
                pts.append((cell(G, rnd.random() < .5), U))
            except Undecided:
                pass
        if not lps:
            ck.ob('step-lattice', None, 'niggli', 'no loop that accumulates the transformation')
        for lp in lps:
            hit = step_checks(ck, prog, lp, pts, True, 'niggli', p, base)
            ck.extra['loop_edges'] = {'steps': len(lp.s['backs']), 'exits': len(lp.s['exits']), 'reached_by_samples': len(hit)}
        nret = 0
        for Lval, U in pts:
            try:
                asg = lps[0].assign(Lval, U, base) if lps else base(Lval)
                ev = Ev(asg)
                h = select(rets, ev)
                if h is None:
                    continue
                nret += 1
                lattice_ob(ck, prog, h[1], ev, Lval, True, 'niggli', p)
                if nret % 8 == 1:
                    check_sites(ck, prog, h[1], [(ev, Lval)], 'niggli', p)
            except Undecided as ex:
                ck.ob('lattice', None, 'niggli', str(ex)[:200])
        ck.extra['sampled_returns'] = nret
    return ck.finish('bounded', 'every step (back edge) and exit of the loop summary of niggli_reduce, with the loop variables set to a cell '
                     'reached from the input axes by a unimodular matrix, replaces the axes by an integer combination of determinant 1 and leaves '
                     'the metric equal to the metric of those axes; the returned lattice is the input lattice times such a matrix; the returned '
                     'sites run once over the input sites, species kept, displaced by integers', TRUST,
                     ['steps are evaluated at exact sample metrics of all 44 lattice characters, their neighbours, both handednesses'])


def lattice_ob(ck, prog, S, ev, Lval, handed, key, where):
    Lm = fields(prog, S)['lattice']
    Ln = [[ev.num(Lm.at(i, j)) for j in range(3)] for i in range(3)]
    T = mul(dinv(Lval), Ln)
    C = asint(T)
    good = C is not None and (ddet(C) == 1 if handed else abs(ddet(C)) == 1)
    ck.ob('lattice', good, key + '/lattice', 'the returned axes are the combination %s of the input axes, not an integer matrix of determinant %s'
          % (C or [[str(round(float(x), 4)) for x in r] for r in T], '1' if handed else '+1 or -1'), where)
    return C, Ln


# --------------------------------------------------------------------------------------------- C19
def loose_ok(s, eps):
    """main reduction conditions with every comparison relaxed by eps"""
    A, Bq, C, x, e, z = s[0], s[1], s[2], 2 * s[3], 2 * s[4], 2 * s[5]
    if A > Bq + eps or Bq > C + eps or abs(x) > Bq + eps or abs(e) > A + eps or abs(z) > A + eps:
        return False
    pos = all(v > -eps for v in (x, e, z))
    neg = all(v < eps for v in (x, e, z))
    if not (pos or neg):
        return False
    if not pos and x + e + z + A + Bq < -eps:
        return False
    return True


def c19(prog):
    ck = Check('C19')
    rnd = random.Random(seed())
    r = niggli(ck, prog)
    if r is not None:
        S, p, rets, e, L, lps = r
        special, other = near_misses(rnd, 3, 500)
        red = reduced_metrics(rnd, 2)
        bad, good = single_misses(rnd, 24)
        special = bad + special
        red += good
        lp = lps[0] if lps else None
        stats = {'returned': 0, 'continued': 0}

        def run(s, tol, pert):
            G = [list(q) for q in X.gram(*s)]
            V = float(abs(det(G))) ** 0.5
            eps = F(tol) * F(V ** (1 / 3.0))
            if pert:
                for i in range(3):
                    for j in range(i, 3):
                        G[i][j] += eps * F(rnd.randint(-8, 8), 200)
                        G[j][i] = G[i][j]
            try:
                Lval = cell(G, rnd.random() < .5)
                base = base_assign(tolval(dec(tol)))
                ev = Ev(lp.assign(Lval, I3, base, 7) if lp else base(Lval))
                h = select(rets, ev)
                if h is None:
                    stats['continued'] += 1
                    ck.ob('reduced', True, 'niggli/not-returned')
                    return
                stats['returned'] += 1
                Lm = fields(prog, h[1])['lattice']
                Ln = [[ev.num(Lm.at(i, j)) for j in range(3)] for i in range(3)]
                T = asint(mul(dinv(Lval), Ln))
            except Undecided as ex:
                ck.ob('reduced', None, 'niggli', str(ex)[:200])
                return
            if T is None:
                ck.ob('reduced', None, 'niggli', 'not an integer transformation (C12)')
                return
            Tt = tuple(zip(*T))
            G0 = mm(Tt, mm(X.gram(*s), T))
            ok = X.niggli_ok(*six(G0))
            ck.ob('reduced', ok, 'niggli/reduced', 'returns a cell with (A,B,C,D,E,F) = %s (tolerance %s), which is not Niggli-reduced'
                  % (tuple(str(x) for x in six(G0)), tol), p)
        for n, s in special:
            run(s, F(1, 10 ** 12), False)
        for n, s in special[::3]:
            run(s, F(1, 10 ** 9), True)
        for n, s in other + red:
            run(s, F(1, 10 ** 12), False)
        # main conditions missed by a few tolerances
        for n, s in red:
            tol = F(1, 10 ** 6)
            for k in range(3):
                G = [list(q) for q in X.gram(*s)]
                eps = tol * F(float(abs(det(G))) ** (1 / 6.0))
                i = rnd.randrange(6)
                a, b = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))[i]
                d = eps * rnd.choice((-4, 4, -9, 9, -30, 30))
                G[a][b] += d
                if a != b:
                    G[b][a] += d
                if loose_ok(six(G), 3 * eps):
                    continue
                try:
                    Lval = cell(G)
                    base = base_assign(tolval(dec(tol)))
                    ev = Ev(lp.assign(Lval, I3, base, 7) if lp else base(Lval))
                    h = select(rets, ev)
                    if h is None:
                        ck.ob('reduced-margin', True, 'niggli/not-returned')
                        continue
                    Lm = fields(prog, h[1])['lattice']
                    Ln = [[ev.num(Lm.at(i, j)) for j in range(3)] for i in range(3)]
                    T = asint(mul(dinv(Lval), Ln))
                    if T is None:
                        continue
                    G0 = mm(tuple(zip(*T)), mm(tuple(map(tuple, G)), T))
                    ck.ob('reduced-margin', loose_ok(six(G0), 3 * eps), 'niggli/reduced-margin',
                          'returns a cell that misses a reduction condition by more than three times the stated tolerance', p)
                except Undecided as ex:
                    ck.ob('reduced-margin', None, 'niggli', str(ex)[:200])
        # running out of iterations
        for l in lps:
            exhaustion(ck, l, 'niggli', p)
        ck.extra['samples'] = stats
    return ck.finish('bounded', 'the summary of niggli_reduce (conditions under which its loop is left, and the lattice returned then) is evaluated at exact '
                     'metrics of the 44 lattice characters and at their unreduced neighbours, in particular those that violate only a special condition; '
                     'a cell that is returned must satisfy all Niggli conditions; no exit of the loop other than the converged one returns', TRUST,
                     ['sampled metrics, exact and perturbed within the tolerance'])


def exhaustion(ck, lp, key, where):
    """leaving a counted loop because it ran out must not lead to a normal return without a test of the result"""
    s = lp.s
    src = s['src']
    if src is None:
        return
    ex = src['ex']
    for t, st in s['exits'] + [('ret', x) for x in s['rets']]:
        c = B.AND(st.pc, ex)
        if not c or B.AND(st.pc, B.NOT(ex)):
            continue
        # this exit is taken only when the iterations are used up
        ck.ob('limit', None if has_flag(st.pc, s) else False, key + '/iteration-limit',
              'the reduction returns its current cell when the iteration limit is reached instead of aborting', where)
        return
    ck.ob('limit', True, key + '/iteration-limit', 'the loop cannot run out of iterations and return')


def has_flag(pc, s):
    for v in B.support(pc) if hasattr(B, 'support') else ():
        d = B.vars[v]
        if d[0] == 'at' and d[2] == 'mu':
            return True
    return False


# --------------------------------------------------------------------------------------------- C13, C20
def delaunay(ck, prog, full):
    S = coherent(prog)['structure::Structure'](None, 's', ())
    p = fpath(prog, ck, 'Reducer::delaunay_reduce')
    rets, e = summary(ck, prog, p, [None, S, TRUE if full else FALSE], what='delaunay_reduce(%s)' % full)
    if rets is None:
        return None
    L = fields(prog, S)['lattice']
    return S, p, rets, e, L, find_loops(e, L)


def superbases(rnd, n):
    """(cell, unimodular matrix) pairs; the cells cover all lattice characters and their unreduced descriptions"""
    out = []
    red = reduced_metrics(rnd, 1 + n // 44)
    rnd.shuffle(red)
    for k in range(n):
        m = red[k % len(red)][1]
        W = unimodular(rnd, rnd.randint(0, 3))
        G = mm(tuple(zip(*W)), mm(X.gram(*m), W))
        U = unimodular(rnd, rnd.randint(0, 3))
        try:
            out.append((cell(G, rnd.random() < .5), U))
        except Undecided:
            pass
    return out


def obtuse(rnd, n):
    """cells whose superbase has no positive scalar product, some of them zero"""
    out = []
    pairs = [(i, j) for i in range(4) for j in range(i)]
    for k in range(n * 4):
        sel = {pr: F(rnd.randint(1, 60), 4) for pr in pairs}       # minus the scalar products (Selling parameters)
        for pr in rnd.sample(pairs, rnd.choice((0, 0, 1, 2, 3))):
            sel[pr] = F(0)
        G = [[F(0)] * 4 for _ in range(4)]
        for (i, j), v in sel.items():
            G[i][j] = G[j][i] = -v
        for i in range(4):
            G[i][i] = -sum(G[i][j] for j in range(4) if j != i)
        G3 = tuple(tuple(r[:3]) for r in G[:3])
        if det(G3) <= 0 or G3[0][0] <= 0:
            continue
        try:
            out.append(cell(G3, rnd.random() < .5))
        except Undecided:
            continue
        if len(out) == n:
            break
    return out


def exists_alt(pc):
    """forget which alternative of a nondeterministic choice was taken (the order found by a sort)"""
    for v in list(B.support(pc)):
        d = B.vars[v]
        if d[0] == 'at' and d[2] == 'alt':
            pc = B.OR(B.restrict(pc, v, 0), B.restrict(pc, v, 1))
    return pc


def c13(prog):
    ck = Check('C13')
    rnd = random.Random(seed())
    base = base_assign()
    for full in (False, True):
        r = delaunay(ck, prog, full)
        if r is None:
            continue
        S, p, rets, e, L, lps = r
        key = 'delaunay' + ('/full' if full else '')
        if not lps:
            ck.ob('step-lattice', None, key, 'no loop that carries the working vectors')
        if not full:
            pts = superbases(rnd, 150)
            for lp in lps:
                hit = step_checks(ck, prog, lp, pts, False, key, p, base)
                ck.extra['loop_edges'] = {'steps': len(lp.s['backs']), 'exits': len(lp.s['exits']), 'reached_by_samples': len(hit)}
        nret = 0
        free = [(exists_alt(st.pc), q) for st, q in rets]
        pan = [(exists_alt(q.pc), q) for q in e.panics]
        for Lval in obtuse(rnd, 100 if full else 40):
            U = unimodular(rnd, rnd.randint(0, 3))
            L0 = mul(Lval, [[dec(x) for x in q] for q in inv(U)])
            try:
                ev = Ev(lps[0].assign(L0, U, base) if lps else base(L0))
                bad = [q for pc, q in pan if ev.bool(pc)]
                ck.ob('returns', not bad, key + '/aborts', 'a converged cell is not returned: the reduction panics at %s'
                      % (bad and bad[0].site), p)
                for n, (pc, q) in enumerate(free):
                    if not ev.bool(pc):
                        continue
                    nret += 1
                    lattice_ob(ck, prog, q, ev, L0, False, key, p)
                    if nret % (40 if full else 8) == 1:
                        check_sites(ck, prog, q, [(ev, L0)], key, p)
            except Undecided as ex:
                ck.ob('lattice', None, key, str(ex)[:200])
        ck.extra['returns_sampled' + ('_full' if full else '')] = nret
    return ck.finish('bounded', 'every step of the loop summary of delaunay_reduce, with the working vectors set to a superbase reached by a unimodular matrix, '
                     'replaces it by another superbase of the same lattice (integer combination of determinant +-1, columns sum to zero, scalar products '
                     'those of the new vectors); the returned lattice, with and without the final choice of vectors, is an integer unimodular combination '
                     'of the input axes; the returned sites run once over the input sites, species kept, displaced by integers', TRUST,
                     ['steps are evaluated at exact sample cells of all 44 lattice characters and unreduced descriptions of them'])


def c20(prog):
    ck = Check('C20')
    rnd = random.Random(seed())
    base = base_assign()
    r = delaunay(ck, prog, False)
    if r is not None:
        S, p, rets, e, L, lps = r
        key = 'delaunay'
        lp = lps[0] if lps else None
        if lp is None:
            ck.ob('converged', None, key, 'no loop that carries the working vectors')
        else:
            stats = {'returned': 0, 'not_returned': 0, 'panicked': 0}
            good = [(c, I3) for c in obtuse(rnd, 60)]
            bad = superbases(rnd, 120)
            # one product just above / below the tolerance
            for c, _ in list(good[:30]):
                for d in (F(5, 10 ** 6), F(1, 10 ** 8)):
                    G = mul(tr(c), c)
                    i, j = rnd.choice(((0, 1), (0, 2), (1, 2)))
                    G[i][j] = G[j][i] = dec(d)
                    try:
                        (bad if d > F(1, 10 ** 6) else good).append((mul([[dec(x) for x in q] for q in ROT], chol_upper(G)), I3))
                    except Undecided:
                        pass
            for Lval, U in good + bad:
                LU = mul(Lval, U)
                cols = tr(LU)
                cols.append([-(a + b + c) for a, b, c in zip(*cols)])
                top = max(sum(a * b for a, b in zip(cols[i], cols[j])) for i in range(4) for j in range(i))
                if abs(top - D('0.000001')) < D(10) ** -9:
                    continue
                for cnt in (0, 3, 99, 100, 101, 102, 5000):
                    try:
                        ev = Ev(lp.assign(Lval, U, base, cnt))
                        h = select(rets, ev)
                    except Undecided as ex:
                        ck.ob('converged', None, key, str(ex)[:200])
                        continue
                    if top > D('0.000001'):
                        stats['returned' if h is not None else 'not_returned'] += 1
                        ck.ob('converged', h is None, key + '/returns-unconverged',
                              'returns after %d steps although a scalar product of the working vectors is still %s' % (cnt, round(float(top), 9)), p)
                    elif cnt <= 101 or not lp.counters():
                        pan = panicking(e, ev)
                        if pan is None:
                            ck.ob('no-abort', None, key, 'panic condition not known')
                            continue
                        stats['panicked'] += bool(pan)
                        ck.ob('no-abort', not pan, key + '/aborts-converged',
                              'aborts (%s) after %d steps although all scalar products are within the tolerance (largest %s)'
                              % (pan and pan[0].site, cnt, round(float(top), 12)), p)
            ck.extra['samples'] = stats
            for l in lps:
                if l.s['src'] is not None:
                    exhaustion(ck, l, key, p)
            # a counter that never reaches its limit, or none: the loop must contain an abort reachable while unconverged
            abort = False
            for Lval, U in bad[:20]:
                for cnt in (100, 101, 102, 103, 1000, 5000, 10 ** 6):
                    try:
                        ev = Ev(lp.assign(Lval, U, base, cnt))
                        pan = panicking(e, ev)
                    except Undecided:
                        pan = None
                    if pan is None or pan:
                        abort = True
                        break
            if lp.s['src'] is not None:
                abort = abort or not lp.s['can_exhaust'] or None
            ck.ob('limit', True if abort else (None if abort is None else False), key + '/iteration-limit',
                  'no iteration count makes the reduction abort while it has not converged', p)
    return ck.finish('bounded', 'the summary of delaunay_reduce (conditions of return and of abort as functions of the working vectors and the step count) is '
                     'evaluated at exact superbases: it must not return while a scalar product exceeds the tolerance and must not abort when none does', TRUST,
                     ['sampled superbases (Selling parameters with zeros, unreduced cells, products just above and below the tolerance), step counts up to 5000'])


def panicking(e, ev):
    """panics reached at a sample point (singular-lattice panics excluded by rank 3); None when not known"""
    out = []
    for q in e.panics:
        try:
            if ev.bool(q.pc):
                out.append(q)
        except Undecided:
            return None
    return out


# --------------------------------------------------------------------------------------------- folding, distances
def fold_contract(eng, st, args, dty, site):
    """normalize_frac_vectors by its specification (C10 checks the function itself): every component moves by the
    integer that brings it between minus its tolerance and one minus its tolerance"""
    from values import Ptr, UNIT
    s = eng.rd(st, args[0])
    t = eng.rd(st, args[1]) if isinstance(args[1], Ptr) else args[1]
    if not isinstance(s, Seq) or not isinstance(t, Mat):
        return None

    def f(v):
        if not isinstance(v, Mat) or v.c != 1 or v.r != 3:
            raise Undecided('folding something that is not a vector')
        return Mat(3, 1, [x + sym('fold', (x, y), 'int') for x, y in zip(v.e, t.e)])
    segs = []
    for g in s.segs:
        if isinstance(g, Many):
            g = eng.models.plain(g)
            segs.append(Many(g.shape, g.idxs, tuple(f(a) for a in g.alts)))
        else:
            segs.append(('one', f(g[1])))
    st = st.copy()
    eng.write(st, args[0], Seq(segs, s.kind))
    return [(st, UNIT)]


def folded(name, args):
    """value of a folding integer at a sample point"""
    if name == 'fold':
        return -(args[0] + args[1]).to_integral_value(rounding='ROUND_FLOOR')
    return None


def unit_random(seed_, name, args):
    return D(H('u', seed_, name, tuple(args)) % 999983) / D(999983)


def expand_quants(e, pc):
    """replace 'some element satisfies' / 'all elements satisfy' by what they say about the element met"""
    for q, name, body, site, qpc in e.quants:
        qn = q.n if isinstance(q, Bool) else q
        if qn <= 1:
            continue
        v = B.nodes[qn][0]
        if v in B.support(pc):
            hi, lo = B.restrict(pc, v, 1), B.restrict(pc, v, 0)
            b = body.n
            if name == 'any':
                pc = B.OR(B.AND(hi, B.AND(qn, b)), B.AND(lo, B.AND(B.NOT(qn), B.NOT(b))))
            elif name == 'all':
                pc = B.OR(B.AND(hi, B.AND(qn, b)), B.AND(lo, B.AND(B.NOT(qn), B.NOT(b))))
    return pc


def implies(a, b):
    return B.AND(a, B.NOT(b)) == 0


class Dist:
    """a comparison of a distance with a multiple of the tolerance found in a path condition"""

    def __init__(self, root, factor, within):
        self.root, self.factor, self.within = root, factor, within


def distances(pc, tol):
    """comparisons 'sqrt(...) within c * tolerance' among the variables of a condition; tol(name) tells the tolerance"""
    out = {}
    for v in B.support(pc):
        d = B.vars[v]
        if d[0] not in ('lt', 'eq'):
            continue
        t = d[1]
        top = toplevel_atoms(t)
        roots = [a for a in top if a.name == 'sqrt']
        tols = [a for a in top if tol(a.name, a.args)]
        if len(roots) != 1 or len(tols) != 1 or len(top) != 2:
            continue
        r = roots[0]

        def at(x, y):
            q = replace_atom(replace_atom(t, r.h, const(x)), tols[0].h, const(y))
            return Ev(strict=True).num(q)
        try:
            c0 = at(0, 0)
            al, be = at(1, 0) - c0, at(0, 1) - c0
            if abs(c0) > TINY or al == 0 or abs(at(2, 3) - 2 * al - 3 * be) > TINY:
                continue
        except Undecided:
            continue
        key = vkey(num_of_atom(r))
        out.setdefault((key, -be / al), [num_of_atom(r), -be / al, al, t, {}])[4][d[0]] = v
    res = []
    for root, fac, al, t, vs in out.values():
        L = B.mk(vs['lt'], 0, 1) if 'lt' in vs else None
        E = B.mk(vs['eq'], 0, 1) if 'eq' in vs else 0
        if al > 0:
            within = B.OR(L if L is not None else 0, E)
        else:
            within = B.NOT(L) if L is not None else E
        res.append(Dist(root, fac, within))
    return res


def toplevel_atoms(t):
    """atoms of a term that are not inside another atom"""
    seen, out, todo = set(), {}, [t]
    while todo:
        x = todo.pop()
        if x.h in seen:
            continue
        seen.add(x.h)
        if x.op == 'a':
            out[x.h] = x.a
        elif x.op in '+*':
            todo += [y for y in x.a if isinstance(y, Num)]
        elif x.op == '/':
            todo.append(x.a)
    return list(out.values())


def sites_in(t, acc=None):
    """indices of the sites whose position a term reads"""
    out = {}
    for a in deep_atoms(t):
        if a.name == 's.f':
            out[vkey(a.args[0])] = a.args[0]
    return list(out.values())


def deep_atoms(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Num):
            if x.h in seen:
                continue
            seen.add(x.h)
            if x.op == 'a':
                out.append(x.a)
                if x.a.name != 's.f':
                    todo += [y for y in x.a.args if isinstance(y, (Num, Mat))]
            elif x.op in '+*':
                todo += [y for y in x.a if isinstance(y, Num)]
            elif x.op == '/':
                todo.append(x.a)
        elif isinstance(x, Mat):
            todo += list(x.e)
    return out


def is_image_distance(ev, root, Lval, delta, reach=4):
    """is this distance |L (delta + k)| for a lattice translation k?"""
    d = ev.num(root)
    Lf = [[float(x) for x in r] for r in Lval]
    df = [float(x) for x in delta]
    t = float(d)
    for k in itertools.product(range(-reach, reach + 1), repeat=3):
        v = [df[i] + k[i] for i in range(3)]
        n2 = sum((Lf[i][0] * v[0] + Lf[i][1] * v[1] + Lf[i][2] * v[2]) ** 2 for i in range(3))
        if abs(n2 - t * t) < 1e-7 * (1 + n2):
            w = [delta[i] + k[i] for i in range(3)]
            e2 = sum((Lval[i][0] * w[0] + Lval[i][1] * w[1] + Lval[i][2] * w[2]) ** 2 for i in range(3))
            if abs(e2 - d * d) < D(10) ** -15:
                return True
    return False


NOISE = ('exhausted', 'alt')


def check_merge(ck, e, site_lists, env, tol, key, where, kind='merge'):
    """a site is left out only when its distance (in the new cell) to a site already kept is within the tolerance"""
    n = 0
    for lk, ls in e.loops.items():
        for s in ls:
            roots = [k for k in s['pushes'] if any(isinstance(g, tuple) and isinstance(g[1], Mat) and sites_in(g[1])
                                                   for per in s['pushes'][k].values() for g in per if not isinstance(g, Many))]
            if not roots:
                continue
            # loops that push onto a list compared with in the loop itself
            for k in roots:
                if not site_lists(k, s):
                    continue
                per = s['pushes'][k]
                for bi, b in enumerate(s['backs']):
                    if per.get(bi):
                        continue
                    pc = expand_quants(e, b.pc)
                    ds = distances(pc, tol)
                    n += 1
                    good = []
                    unknown = False
                    why = ''
                    for d in ds:
                        ok = None
                        idx = sites_in(d.root)
                        if len(idx) <= 2:
                            # no position left: two images of one site
                            ok = True
                            for ev, Lold in env():
                                try:
                                    fs = [[ev.num(sym('s.f', (i, const(c)))) for c in range(3)] for i in idx]
                                    a, b2 = (fs[0], fs[-1]) if fs else ([D(0)] * 3, [D(0)] * 3)
                                    dl = [x - y for x, y in zip(a, b2)]
                                    if not (is_image_distance(ev, d.root, Lold, dl) or is_image_distance(ev, d.root, Lold, [-x for x in dl])):
                                        ok = False
                                        break
                                except Undecided as ex:
                                    ok = None
                                    why = str(ex)
                                    break
                        if ok is None:
                            unknown = True
                        elif ok and d.factor <= 2:
                            good.append(d)
                    cover = 0
                    for d in good:
                        cover = B.OR(cover, d.within)
                    if implies(pc, cover):
                        ck.ob(kind, True, key + '/merge', 'sites are left out only within %s of the tolerance'
                              % sorted({str(d.factor) for d in good}))
                    elif unknown or opaque_conditions(e, pc, s):
                        ck.ob(kind, None, key + '/merge', 'condition for leaving out a site is not fully known ' + why[:100])
                    else:
                        ck.ob(kind, False, key + '/merge', 'a site is left out without its distance in the new cell to a kept site being within '
                              'the tolerance (distances compared: %s)' % ['%s x tolerance%s' % (d.factor, '' if d in good else ' (not the distance of the sites)')
                                                                            for d in ds], where)
    return n


def opaque_conditions(e, pc, s):
    """conditions of one iteration that the analysis could not interpret"""
    base = set(B.support(s['entry'].pc))
    for v in B.support(pc):
        if v in base:
            continue
        d = B.vars[v]
        if d[0] == 'at' and d[2] not in NOISE and d[2] != 'eq':
            return True
    return False


# --------------------------------------------------------------------------------------------- C15
def c15(prog):
    ck = Check('C15')
    S = coherent(prog)['structure::Structure'](None, 's', ())
    p = fpath(prog, ck, 'Structure::apply_transformation')
    fp = fpath(prog, None, 'utils::normalize_frac_vectors')
    T = mat('T')
    rets, e = summary(ck, prog, p, [S, T, sym('tol')], contracts={fp: fold_contract} if fp else {})
    L = fields(prog, S)['lattice']
    nret = 0
    if rets is not None:
        rnd = random.Random(seed())

        def env(k=3):
            for m in range(k):
                Tv = int_matrix(rnd)
                Lv = [[D(rnd.randint(-40, 40)) / 8 + (6 if i == j else 0) for j in range(3)] for i in range(3)]
                sd = rnd.randrange(10 ** 6)

                def asg(name, args, Lv=Lv, Tv=Tv, sd=sd):
                    if name == 's.L':
                        return Lv[int(args[0])][int(args[1])]
                    if name == 'T':
                        return D(Tv[int(args[0])][int(args[1])])
                    if name == 's.f':
                        return unit_random(sd, name, args)
                    if name == 'tol':
                        return D(1) / 64
                    if name == '?exhausted':
                        return True
                    if name == '?alt':
                        return H('alt', sd, tuple(args)) & 1
                    if 'rank' in name:
                        return D(3)
                    return folded(name, args)
                yield Ev(asg, seed=sd), Lv
        for st, r in rets:
            R = st.mem.get(('A', 0))
            if not isinstance(R, Agg):
                ck.ob('lattice', None, 'transform', 'no structure')
                continue
            nret += 1
            want = matmul(L, T)
            from checks_algebra import numsame
            Lm = fields(prog, R)['lattice']
            for i in range(3):
                for j in range(3):
                    numsame(ck, 'lattice', 'transform/lattice', Lm.at(i, j), want.at(i, j),
                            'entry (%d,%d) of the new lattice is not that of L*T' % (i, j), p)
            moved_sites(ck, prog, R, list(env()), 'transform', p)
        n = check_merge(ck, e, lambda k, s: True, env, lambda nm, a: nm == 'tol', 'transform', p)
        refused(ck, prog, p, [S, T, sym('tol')], 'T', 'transform', 'transformation', {fp: fold_contract} if fp else {})
        ck.extra['merge_sites'] = n
        ck.floor('summarised results', nret, 1)
    return ck.finish('bounded', 'the summary of apply_transformation: returned lattice is L*T (identity); each returned record is an input site (same index for species '
                     'and position) with T f\' - f integer at sample matrices; the condition under which a site is left out implies that its distance to a kept '
                     'one, measured in the new lattice, is at most twice the tolerance; the inverse of T is used only after the inversion succeeded', TRUST,
                     ['folding by its specification (C10)', 'sample transformations are integer matrices'])


def int_matrix(rnd):
    while True:
        m = [[rnd.randint(-1, 2) for _ in range(3)] for _ in range(3)]
        if 1 <= abs(ddet(m)) <= 4 and any(m[i][j] for i in range(3) for j in range(3) if i != j):
            return m


def moved_sites(ck, prog, R, envs, key, where, kind='site', modulo_new=False):
    """each record is one input site: species, position, and (Cartesian) lattice times fractional"""
    try:
        recs = records(prog, R)
    except Undecided as ex:
        return ck.ob(kind, None, key, str(ex))
    if recs is None:
        return ck.ob(kind, False, key + '/aligned', 'species and coordinate lists of the result are not aligned record by record', where)
    Lm = fields(prog, R)['lattice']
    for r in recs:
        i = site_of(r.sp)
        if i is None or not isinstance(r.f, Mat):
            ck.ob(kind, None, key, 'record without a summary')
            continue
        for ev, Lold in envs:
            try:
                Ln = [[ev.num(Lm.at(a, b)) for b in range(3)] for a in range(3)]
                f1 = [[ev.num(x)] for x in r.f.e]
                fo = [ev.num(sym('s.f', (i, const(k)))) for k in range(3)]
                back = mul(dinv(Lold), mul(Ln, f1))
                d = [[back[k][0] - fo[k]] for k in range(3)]
                if modulo_new:
                    d = mul(dinv(Ln), mul(Lold, d))
                ck.ob(kind, asint(d, D(10) ** -9 if ev.approx else D(10) ** -15) is not None, key + '/position',
                      'a returned site lies %s axes from the input site whose species it carries, not a lattice vector'
                      % [str(round(float(x[0]), 6)) for x in d], where)
            except Undecided as ex:
                ck.ob(kind, None, key, str(ex)[:200])


def refused(ck, prog, p, args, name, key, what, contracts=None, kind='singular'):
    """with a singular matrix called `name` in the arguments, no path returns"""
    e = Engine(prog, contracts=contracts or {})
    e.assume_invertible = False
    try:
        rets = e.analyse(p, args=args)
    except Undecided as ex:
        return ck.ob(kind, None, key + '/singular', str(ex)[:200])
    except Exception as ex:
        return ck.ob(kind, None, key + '/singular', 'analysis failed: %r' % (ex,))
    ck.used(e)
    sing = [[D(1), D(2), D(-1)], [D(0), D(1), D(3)], [D(1), D(3), D(2)]]

    def asg(nm, a):
        if nm == name:
            return sing[int(a[0])][int(a[1])]
        if nm in ('?exhausted', '?singular'):
            return True
        if nm == '?alt':
            return H('alt', tuple(a)) & 1
        if 'rank' in nm:
            return D(2)
        return folded(nm, a)
    good = True
    for st, r in rets:
        pc = st.pc
        for v in list(B.support(pc)):
            d = B.vars[v]
            if d[0] == 'at' and d[2] == 'singular':
                pc = B.restrict(pc, v, 1)
        if pc == 0:
            continue
        try:
            if Ev(asg).bool(exists_alt(pc)):
                good = False
                break
        except Undecided:
            good = None
    return ck.ob(kind, good, key + '/singular', 'a singular %s is not refused: a result is returned' % what, p)


# --------------------------------------------------------------------------------------------- C14
def short_contract(calls):
    """get_shortest_translation_vecs by its specification: three integer combinations of the vectors given (checked separately)"""
    def contract(eng, st, args, dty, site):
        s = eng.rd(st, args[1])
        if not isinstance(s, Seq):
            return None
        k = str(site[:2])
        calls[k] = s
        return [(st, seq([Mat(3, 1, [sym('short', (k, const(i), const(c))) for c in range(3)]) for i in range(3)]))]
    return contract


def grown_in(shape):
    """key (as text) of the loop that built a list, looking through sorting"""
    while isinstance(shape, tuple) and shape:
        if shape[0] == 'grow':
            return shape[1]
        if shape[0] == 'perm':
            shape = shape[1]
            continue
        break
    return None


def all_sites(shape):
    while isinstance(shape, tuple) and shape and shape[0] == 'perm':
        shape = shape[1]
    return site_range(shape) == ('sites', 's')


def site_range(shape):
    """the list whose positions a range counts"""
    if isinstance(shape, tuple) and len(shape) == 2 and shape[0] == 'len':
        n = shape[1]
        if isinstance(n, Num) and n.op == 'a' and n.a.name == 'len' and len(n.a.args) == 1:
            return n.a.args[0]
    return shape


def small_combination(vecs, want, tol=D(10) ** -20):
    """is `want` an integer combination of these vectors with small coefficients?"""
    if not vecs:
        return all(abs(x) < tol for x in want)
    for k in range(1, min(3, len(vecs)) + 1):
        for sub in itertools.combinations(vecs, k):
            for co in itertools.product((-2, -1, 0, 1, 2), repeat=k):
                if all(abs(sum(c * v[i] for c, v in zip(co, sub)) - want[i]) < tol for i in range(3)):
                    return True
    return False


def verified(e, prog, pc, vec, env):
    """does a condition imply that the translation `vec` (fractional or Cartesian) carries every site onto a site of its species?
    returns (True/False/None, reason)"""
    unknown = None
    loops = [s for ls in e.loops.values() for s in ls]
    seen = False
    why = 'no loop over all sites has to be completed before the translation is accepted'
    for s in loops:
        src = s['src']
        if src is None or not implies(pc, src['ex']) or src['ex'] <= 1:
            continue
        if not all_sites(src['shape']) or src['idx'] is None or not s['backs']:
            continue
        idx = src['idx']
        good = True
        for b in s['backs']:
            bpc = expand_quants(e, b.pc)
            # species of the two sites equal
            pairs = []
            for v in B.support(bpc):
                d = B.vars[v]
                if d[0] == 'at' and d[2] == 'eq' and len(d[1]) == 2 and implies(bpc, B.mk(v, 0, 1)):
                    i, j = (site_of(x) for x in d[1])
                    if i is not None and j is not None:
                        pairs.append((i, j))
            ds = [d for d in distances(bpc, lambda nm, a: nm == 'in0.dtol') if implies(bpc, d.within) and d.factor <= 2]
            okb = False
            for i, j in pairs:
                for d in ds:
                    m = True
                    for ev, Lv in env():
                        try:
                            fi, fj = ([ev.num(sym('s.f', (q, const(c)))) for c in range(3)] for q in (i, j))
                            vv = [ev.num(x) for x in vec.e]
                            vf = [x[0] for x in mul(dinv(Lv), [[x] for x in vv])]
                            if not any(is_image_distance(ev, d.root, Lv, [sg * (x - y) + w for x, y, w in zip(fi, fj, q)])
                                       for q in (vv, vf) for sg in (1, -1)):
                                m = False
                                break
                        except Undecided as ex:
                            unknown = str(ex)
                            m = None
                            break
                    if m:
                        okb = True
            if not okb:
                good = False
                if opaque_conditions(e, bpc, s):
                    unknown = unknown or 'opaque condition'
                if reads_site(idx, bpc):
                    seen = True
                    why = ('a site can count as matched although %s' %
                           ('the species of the two sites were not compared' if not pairs else
                            'its distance to the other site was not compared with the tolerance' if not ds else
                            'the distance compared is not the one between the translated site and the other site'))
                break
        if good:
            return True, ''
    if unknown and not seen:
        return None, unknown
    return False, why


def reads_site(idx, pc):
    h = idx.a.h if isinstance(idx, Num) and idx.op == 'a' else None
    for v in B.support(pc):
        d = B.vars[v]
        if d[0] in ('lt', 'eq') and h is not None:
            if any(a.h == h for a in all_atoms(d[1])):
                return True
    return False


def all_atoms(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Num):
            if x.h in seen:
                continue
            seen.add(x.h)
            if x.op == 'a':
                out.append(x.a)
                todo += [y for y in x.a.args if isinstance(y, (Num, Mat))]
            elif x.op in '+*':
                todo += [y for y in x.a if isinstance(y, Num)]
            elif x.op == '/':
                todo.append(x.a)
        elif isinstance(x, Mat):
            todo += list(x.e)
    return out


def c14(prog):
    ck = Check('C14')
    S = coherent(prog)['structure::Structure'](None, 's', ())
    p = fpath(prog, ck, 'Reducer::find_primitive_cell')
    fp = fpath(prog, None, 'utils::normalize_frac_vectors')
    sp = fpath(prog, None, 'Reducer::get_shortest_translation_vecs')
    calls = {}
    con = {}
    if fp:
        con[fp] = fold_contract
    if sp:
        con[sp] = short_contract(calls)
        shortest(ck, prog, sp)
    rets, e = summary(ck, prog, p, [None, S], contracts=con)
    rnd = random.Random(seed())
    if rets is not None:
        ks = list(calls)

        def env(n=3, fine=False):
            for m in range(n):
                Lv = [[D(rnd.randint(-40, 40)) / 8 + (6 if i == j else 0) for j in range(3)] for i in range(3)]
                U = [[D(x) for x in r] for r in unimodular(rnd, 3)]
                if fine:
                    U = mul(dinv([[D(x) for x in r] for r in int_matrix(rnd)]), U)
                S1 = [[D(rnd.randint(-40, 40)) / 8 + (9 if i == j else 0) for j in range(3)] for i in range(3)]
                last = mul(Lv, U)
                sd = rnd.randrange(10 ** 6)

                def asg(name, args, Lv=Lv, sd=sd, last=last, S1=S1):
                    if name == 's.L':
                        return Lv[int(args[0])][int(args[1])]
                    if name == 'short':
                        return (last if str(args[0]).strip("'\"") == ks[-1] or args[0] == ks[-1] else S1)[int(args[2])][int(args[1])]
                    if name in ('s.f', '#g') or name == 'entry_or':
                        u = unit_random(sd, name, args)
                        return u if name == 's.f' else D(int(u * 1000))
                    if name == 'in0.dtol':
                        return D(1) / 64
                    if name == '?exhausted':
                        return True
                    if name == '?alt':
                        return H('alt', sd, tuple(args)) & 1
                    if 'rank' in name:
                        return D(3)
                    return folded(name, args)
                ev = Ev(asg, seed=sd)
                ev.S1, ev.last = S1, last
                yield ev, Lv
        # the vectors handed to the selection
        for n, k in enumerate(ks):
            s = calls[k]
            key = 'primitive/candidates' if n == 0 else 'primitive/combinations'
            for g in s.segs:
                alts = g.alts if isinstance(g, Many) else (g[1],)
                gk = grown_in(g.shape) if isinstance(g, Many) else None
                for x in alts:
                    if not isinstance(x, Mat):
                        ck.ob('axes', None, key, 'no summary')
                        continue
                    try:
                        axis = prev = True
                        for ev, Lv in env(2):
                            v = [[ev.num(q)] for q in x.e]
                            axis = axis and asint(mul(dinv(Lv), v), D(10) ** -15) is not None
                            prev = prev and n > 0 and asint(mul(dinv(ev.S1), v), D(10) ** -15) is not None
                    except Undecided as ex:
                        ck.ob('axes', None, key, str(ex)[:200])
                        continue
                    if axis or prev:
                        ck.ob('axes', True, key, 'integer combination of %s' % ('the input axes' if axis else 'the translations selected before'))
                        continue
                    pushes = pushed_like(e, gk, x, env)
                    if not pushes:
                        ck.ob('axes', False if gk is None or n > 0 else None, key,
                              'a vector that is no integer combination of verified translations is used as axis of the primitive cell', p)
                        continue
                    for pc, v in pushes:
                        ok, why = verified(e, prog, expand_quants(e, pc), v, env)
                        ck.ob('verified', ok, 'primitive/verified', 'a difference of two sites is used as translation, but ' + why, p)
        nret = 0
        for st, r in rets:
            if not isinstance(r, Agg):
                ck.ob('lattice', None, 'primitive', 'no structure')
                continue
            nret += 1
            Lm = fields(prog, r)['lattice']
            for ev, Lv in env(2):
                try:
                    Ln = [[ev.num(Lm.at(i, j)) for j in range(3)] for i in range(3)]
                    ck.ob('lattice', asint(mul(dinv(ev.last), Ln), D(10) ** -15) is not None, 'primitive/lattice',
                          'an axis of the returned cell is not an integer combination of the selected translations', p)
                except Undecided as ex:
                    ck.ob('lattice', None, 'primitive', str(ex)[:200])
            moved_sites(ck, prog, r, list(env(3, True)), 'primitive', p, modulo_new=True)
            try:
                recs = records(prog, r)
                gks = {grown_in(q.shape) for q in recs or ()} - {None}
            except Undecided:
                gks = set()
            n = check_merge(ck, e, lambda k, s: str(s['key']) in gks, env, lambda nm, a: nm == 'in0.dtol', 'primitive', p)
            ck.extra['merge_sites'] = n
        ck.floor('summarised results', nret, 1)
        ck.extra['selections'] = len(ks)
    return ck.finish('bounded', 'the summary of find_primitive_cell: every vector offered as axis is an integer combination of input axes or of translations accepted only '
                     'after a completed loop over all sites in which each step found a site of equal species within twice the tolerance of the translated one; the '
                     'returned axes are the selected vectors; each record is an input site moved by a vector of the new lattice; sites are left out only within '
                     'twice the tolerance, measured in the new cell', TRUST, ['folding by its specification (C10)'])


def same_index(x, y):
    """x with its element index renamed to the one of y"""
    def idx(v):
        return {a.h: a for q in v.e for a in all_atoms(q) if a.name.startswith('#')}
    a, b = idx(x), idx(y)
    mine, other = [a[h] for h in a if h not in b], [b[h] for h in b if h not in a]
    own = {m.h for m in mine}
    un = {a.h: a.args[0] for q in x.e for a in all_atoms(q) if a.name == 'inst' and len(a.args) == 2
          and isinstance(a.args[1], Num) and a.args[1].op == 'a' and a.args[1].a.h in own}
    if un:
        return subst(x, un)
    if len(mine) == 1 and len(other) == 1:
        return subst(x, {mine[0].h: num_of_atom(other[0])})
    return x


def pushed_like(e, gk, x, env):
    """(condition, vector) of the pushes of loop gk whose vector is x, or x in fractional coordinates"""
    out = []
    for ls in e.loops.values():
        for s in ls:
            if str(s['key']) != gk:
                continue
            for root, per in s['pushes'].items():
                for bi, gs in per.items():
                    for g in gs:
                        if isinstance(g, Many) or not isinstance(g[1], Mat) or g[1].c != 1 or g[1].r != 3:
                            continue
                        try:
                            same = True
                            y = same_index(x, g[1])
                            for ev, Lv in env(2):
                                a = [ev.num(q) for q in y.e]
                                b = [ev.num(q) for q in g[1].e]
                                c = [q[0] for q in mul(Lv, [[q] for q in b])]
                                if not any(all(abs(u - w) < D(10) ** -15 for u, w in zip(a, z)) for z in (b, c)):
                                    same = False
                            if same:
                                out.append((s['backs'][bi].pc, g[1]))
                        except Undecided:
                            pass
    return out


def shortest(ck, prog, p):
    i = sym('#i', (), 'int')
    vs = Seq([Many(('vecs', 'v'), (i,), (Mat(3, 1, [sym('v.x', (i, const(c))) for c in range(3)]),))], 'Vec')
    rets, e = summary(ck, prog, p, [None, vs])
    if rets is None:
        return
    for st, r in rets:
        if not isinstance(r, Seq) or any(isinstance(g, Many) for g in r.segs):
            ck.ob('selection', None, 'selection', 'returned vectors without a summary')
            continue
        for g in r.segs:
            v = g[1]
            try:
                ev = Ev(lambda nm, a: unit_random(5, nm, a) + 1 if nm == 'v.x' else None, seed=3, strict=False)
                idx = {}
                for q in v.e:
                    for a in deep_atoms(q):
                        if a.name == 'v.x':
                            idx[vkey(a.args[0])] = a.args[0]
                val = [ev.num(q) for q in v.e]
                vecs = [[ev.num(sym('v.x', (j, const(c)))) for c in range(3)] for j in idx.values()]
                ck.ob('selection', small_combination(vecs, val), 'selection/member',
                      'a returned vector is not an integer combination of the vectors given', p)
            except Undecided as ex:
                ck.ob('selection', None, 'selection', str(ex)[:200])


# --------------------------------------------------------------------------------------------- C11
STRUCT = 'structure::Structure'


def structure_functions(prog):
    """functions that make a structure or change one in place: (path, parameter types, 'ret' or parameter number)"""
    out = []
    for b in prog.bodies.values():
        if '{closure' in b['path'] or b['kind'] in ('Const', 'Static'):
            continue
        body = b['body']
        n = body['argc']
        ts = [str(t) for t in body['locals'][:n + 1]]
        if ts[0] == STRUCT or ts[0].endswith('<' + STRUCT + '>'):
            out.append((b, ts, 'ret'))
        for i in range(1, n + 1):
            if ts[i] == '&mut ' + STRUCT or (ts[i].startswith('&') and ts[i].endswith(' mut ' + STRUCT)):
                out.append((b, ts, i - 1))
    return out


def record_identity(ck, prog, R, key, where, seeds=3):
    """species, Cartesian and fractional lists aligned; Cartesian = lattice * fractional"""
    try:
        recs = records(prog, R)
    except Undecided as ex:
        return ck.ob('record', False if stale(prog, R) else None, key + '/cartesian',
                     'the Cartesian positions are not the lattice times the fractional positions (%s)' % ex, where)
    if recs is None:
        return ck.ob('record', False, key + '/aligned', 'the species, Cartesian and fractional lists of the result are not built record by record', where)
    Lm = fields(prog, R)['lattice']
    if not isinstance(Lm, Mat):
        return ck.ob('record', None, key, 'lattice without a summary')
    for r in recs:
        if not isinstance(r.f, Mat) or not isinstance(r.x, Mat):
            ck.ob('record', None, key, 'coordinates without a summary')
            continue
        for sd in range(seeds):
            def asg(name, args, sd=sd):
                if name in ('fold', 'nfold'):
                    return folded(name, args)
                if 'rank' in name:
                    return D(3)
                if name.startswith('?'):
                    return None
                return None
            try:
                ev = Ev(asg, seed=seed() * 31 + sd, strict=False)
                L = [[ev.num(Lm.at(i, j)) for j in range(3)] for i in range(3)]
                f = [[ev.num(x)] for x in r.f.e]
                x = [ev.num(q) for q in r.x.e]
                want = mul(L, f)
                err = max(abs(want[i][0] - x[i]) / (1 + abs(x[i])) for i in range(3))
                same = err < (D(10) ** -9 if ev.approx else D(10) ** -20)
                ck.ob('record', True if same else None if counted(r) else False, key + '/cartesian',
                      'the Cartesian position of a site is not the lattice times its fractional position', where)
            except Undecided as ex:
                ck.ob('record', None, key, str(ex)[:200])
    return recs


def coherent_contract(prog, where):
    """a function whose own result is checked here returns (or leaves) some coherent structure"""
    def contract(eng, st, args, dty, site):
        R = coherent(prog)[STRUCT](None, 's', ('after', str(site[0]), str(site[1])))
        if where == 'ret':
            return [(st, R)]
        from values import UNIT
        st = st.copy()
        eng.write(st, args[where], R)
        return [(st, UNIT)]
    return contract


def same_site(ck, recs, key, where, by='position'):
    """the coordinates of each record are those of the site whose species it carries"""
    for r in recs:
        i = site_of(r.sp)
        idx = {vkey(q): q for v in list(r.f.e) + list(r.x.e) for q in sites_in2(v)}
        if i is None or not idx:
            ck.ob('record', None, key, 'record without a summary')
            continue
        ck.ob('record', set(idx) == {vkey(i)}, key + '/aligned', 'a record combines the species of one site with the position of another', where)


def sites_in2(t):
    return [a.args[0] for a in all_atoms(t) if a.name in ('s.f', 's.x') and a.args]


def raw_sites(prog):
    i = sym('#i', ('sites', 's'), 'int')
    sp = Seq([Many(('sites', 's'), (i,), (Opq('s.s', (i,)),))], 'vec')
    co = Seq([Many(('sites', 's'), (i,), (Mat(3, 1, [sym('s.f', (i, const(c))) for c in range(3)]),))], 'vec')
    return sp, co


def c11(prog):
    ck = Check('C11')
    fp = fpath(prog, None, 'utils::normalize_frac_vectors')
    shp = fpath(prog, None, 'Reducer::get_shortest_translation_vecs')
    done = []
    S0 = coherent(prog)[STRUCT](None, 's', ())
    for want in ('Structure::new', 'Structure::normalize_coords', 'Structure::apply_transformation', 'Reducer::find_primitive_cell',
                 'Reducer::niggli_reduce', 'Reducer::delaunay_reduce'):
        fpath(prog, ck, want)
    # construction
    p = fpath(prog, None, 'Structure::new')
    if p:
        for cart in (TRUE, FALSE):
            sp, co = raw_sites(prog)
            L = mat('L')
            rets, e = summary(ck, prog, p, [L, sp, co, cart])
            if rets is None:
                continue
            key = 'new/' + ('cartesian' if cart is TRUE else 'fractional')
            for st, r in rets:
                if not isinstance(r, Agg):
                    ck.ob('record', None, key, 'no structure')
                    continue
                recs = record_identity(ck, prog, r, key, p)
                if isinstance(recs, list):
                    same_site(ck, recs, key, p)
                    Lm = fields(prog, r)['lattice']
                    for k in range(9):
                        ck.ob('record', Lm.e[k].h == L.e[k].h, key + '/lattice', 'the lattice stored is not the lattice given', p)
                    for q in recs:
                        i = site_of(q.sp)
                        mine = q.x if cart is TRUE else q.f
                        ok = i is not None and isinstance(mine, Mat) and all(same_at_points(mine.e[k], sym('s.f', (i, const(k)))) for k in range(3))
                        ck.ob('record', ok, key + '/given', 'the coordinates given are not stored as the %s coordinates of the sites'
                              % ('Cartesian' if cart is TRUE else 'fractional'), p)
            done.append(key)
    # everything that makes or changes a structure
    funcs = structure_functions(prog)
    for b, ts, where in funcs:
        p = b['path']
        if p.endswith('Structure::new') or b.get('trait') and 'Clone' in b['trait']:
            continue
        if not any(STRUCT in t for t in ts[1:]) and not (b['selfty'] and any(STRUCT in str(f) for f in str(prog.adts.get(b['selfty'], '')).split(','))):
            continue            # built from raw lists by Structure::new; their lengths are the caller's
        con = {fp: fold_contract} if fp else {}
        if shp and shp != p:
            con[shp] = short_contract({})
        if not (b['selfty'] or '').endswith('Structure') and not (b['selfty'] or '').endswith('Reducer'):
            for b2, ts2, w2 in funcs:
                if b2['path'] != p and ((b2['selfty'] or '').endswith('Structure') or (b2['selfty'] or '').endswith('Reducer')) \
                        and not b2['path'].endswith('::new'):
                    con[b2['path']] = coherent_contract(prog, w2)
            # the numbers they choose do not matter here
            opq = {q for q in (fpath(prog, None, 'SymmetryAnalyzer::' + n) for n in
                               ('get_lattice_character', 'conventional_transformation_matrix', 'primitive_transformation_matrix')) if q and q != p}
        else:
            opq = set()
        args = []
        for t in ts[1:]:
            if STRUCT in t and '[' not in t and 'Vec<' not in t:
                args.append(S0)
            elif t == '&f64':
                args.append(sym('tol'))
            else:
                args.append(None)
        key = p.split('::')[-1]
        e = Engine(prog, contracts=con, opaque=opq)
        try:
            rets = e.analyse(p, args=args)
        except Undecided as ex:
            ck.ob('record', None, key, str(ex)[:200])
            continue
        except Exception as ex:
            ck.ob('record', None, key, 'analysis failed: %r' % (ex,))
            continue
        ck.used(e)
        done.append(key)
        # many results differ only in how a choice was made; a few dozen are enough to cover every way a record is built
        seen = set()
        for st, r in rets:
            R = r if where == 'ret' else st.mem.get(('A', where))
            if not isinstance(R, Agg) or R.kind != 'adt' or R.name != STRUCT:
                ck.ob('record', None, key, 'no structure')
                continue
            h = vkey(R)
            if h in seen or len(seen) > 30:
                continue
            seen.add(h)
            recs = record_identity(ck, prog, R, key, p, 2)
            if isinstance(recs, list) and key == 'normalize_coords':
                same_site(ck, recs, key, p)
                sorted_by_species(ck, e, recs, key, p)
                ck.ob('record', len(recs) == 1 and whole(recs[0].shape, site_of(recs[0].sp)), key + '/all', 'not every site is kept once', p)
    ck.extra['functions'] = done
    ck.floor('functions that make or change a structure', len(done), 7)
    return ck.finish('bounded', 'for every function that returns a Structure or takes one by mutable reference, the summary of the result: the three site lists have the '
                     'same shape and order (built by the same pushes and the same reordering), and at sample points the Cartesian coordinates equal lattice times '
                     'fractional; normalize_coords keeps every site once and orders by a comparison of the species', TRUST, ['sampled identity'])


def same_at_points(a, b, n=3):
    try:
        return all(abs(Ev(None, seed=77 + k, strict=False).num(a) - Ev(None, seed=77 + k, strict=False).num(b)) < D(10) ** -20 for k in range(n))
    except Undecided:
        return None


def sorted_by_species(ck, e, recs, key, where):
    for r in recs:
        sh = r.shape
        if not (isinstance(sh, tuple) and sh and sh[0] in ('perm', 'sorted')):
            ck.ob('sorted', False if sh == ('sites', 's') else None, key + '/sorted', 'the sites are not sorted by species', where)
            continue
        cands = [s for s in e.sorts if s['site'][1] == sh[2]] if len(sh) > 2 else e.sorts
        if not cands or cands[-1]['cmp'] is None:
            ck.ob('sorted', None, key + '/sorted', 'order not known')
            continue
        a, b, res = cands[-1]['cmp']
        ok = None
        if len(res) == 1 and isinstance(res[0], Opq) and res[0].name == 'cmp' and len(res[0].args) == 2:
            x, y = res[0].args
            sx, sy = species_in(a), species_in(b)
            if site_of(x) is not None and site_of(y) is not None:
                ok = len(sx) == 1 and len(sy) == 1 and vkey(x) == vkey(sx[0]) and vkey(y) == vkey(sy[0])
                if not sx and not sy and isinstance(a, Num) and isinstance(b, Num):
                    # positions are sorted by the species found there
                    ok = vkey(subst(x, {a.a.h: b})) == vkey(y) and vkey(x) != vkey(y) and any(a.h == q.h for q in parts_of(x)) or None
            elif site_of(x) is None and isinstance(x, (Num, Mat)):
                ok = False
        ck.ob('sorted', ok, key + '/sorted', 'the sites are not sorted by (ascending) species', where)


def counted(r):
    """a record read from lists made by different loops at a position counted by a range: whether the positions are those of one site is not known"""
    sh = r.shape
    while isinstance(sh, tuple) and sh and sh[0] == 'perm':
        sh = sh[1]
    own = [{a.h for q in m.e for a in all_atoms(q) if a.name == '#g'} for m in (r.x, r.f)]
    return isinstance(sh, tuple) and sh[0] == 'len' and own[0] != own[1]


def parts_of(v):
    """the indices a species is read at, inside out"""
    out, todo = [], list(v.args)
    while todo:
        q = todo.pop()
        if isinstance(q, Num) and q.op == 'a':
            out.append(q)
            todo += list(q.a.args)
    return out


def species_in(v):
    if site_of(v) is not None:
        return [v]
    if isinstance(v, Agg):
        return [y for x in v.f for y in species_in(x)]
    return []


def c39(prog):
    """each step of the Delaunay loop shortens the four working vectors: the sum of their squared lengths decreases"""
    ck = Check('C39')
    rnd = random.Random(seed())
    base = base_assign()
    r = delaunay(ck, prog, False)
    n = 0
    if r is not None:
        S, p, rets, e, L, lps = r
        key = 'delaunay'
        lp = lps[0] if lps else None
        if lp is None:
            ck.ob('progress', None, key, 'no loop that carries the working vectors')
        else:
            for Lval, U in superbases(rnd, 200):
                before, top = lengths(mul(Lval, U))
                if top < D('0.001'):
                    continue
                try:
                    ev = Ev(lp.assign(Lval, U, base, 0))
                except Undecided:
                    continue
                for st in lp.s['backs']:
                    try:
                        if not ev.bool(st.pc):
                            continue
                        after, _ = lengths(lp.axes(st, ev, Lval)[0])
                    except Undecided as ex:
                        ck.ob('progress', None, key, str(ex)[:200])
                        continue
                    n += 1
                    ck.ob('progress', after < before - SMALL, key + '/no-progress',
                          'a step changes the sum of the squared lengths of the working vectors from %s to %s although a scalar product is %s'
                          % (round(float(before), 4), round(float(after), 4), round(float(top), 4)), p)
    ck.floor('steps', n, 20)
    return ck.finish('bounded', 'summary of one step of the Delaunay loop at sampled superbases with a positive scalar product: the sum of the squared '
                     'lengths of the four working vectors must be smaller afterwards', TRUST, ['sampled superbases', 'one step; the limit on their number: C20'])


def lengths(A):
    """sum of the squared lengths of the superbase of these axes, and its largest scalar product"""
    cols = tr(A)
    cols.append([-(a + b + c) for a, b, c in zip(*cols)])
    return (sum(x * x for v in cols for x in v),
            max(sum(a * b for a, b in zip(cols[i], cols[j])) for i in range(4) for j in range(i)))
