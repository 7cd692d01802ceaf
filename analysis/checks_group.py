"""Symmetry operations and groups: change of basis, generation, identification, and the operations found for a structure."""
import itertools
import random
from decimal import Decimal as D

from common import Check
from engine import Engine, Agg, Mat, Map, Seq, Str, Num, Many, Opq, Undecided, const, sym
from terms import Bool, B, H, ZERO, ONE, TRUE, FALSE, vkey, num_of_atom, batom
from values import subst, seq
from checks_tables import seed, coherent
from checks_algebra import TRUST, fpath, fields, summary, mat, vec
from checks_reduce import (mul, tr, ddet, dinv, asint, fold_contract, folded, refused, all_atoms, implies, expand_quants, distances,
                           exists_alt, unit_random, own_instance, site_of, grown_in, no_instance)
from evalf import Ev, dec

OP = 'symmop::SymmOp'
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
TOL3 = Mat(3, 1, [sym('ft', (const(k),)) for k in range(3)])


def an_op(prog, name, i):
    v = {'rotation': Mat(3, 3, [sym(name + '.R', (i, const(a), const(b)), 'int') for b in range(3) for a in range(3)]),
         'translation': Mat(3, 1, [sym(name + '.t', (i, const(a))) for a in range(3)])}
    return Agg('adt', OP, 0, [v[k] for k in prog.adts[OP]['variants'][0]['fields']])


def ops_list(prog, name='o'):
    i = sym('#i', ('ops', name), 'int')
    return Seq([Many(('ops', name), (i,), (an_op(prog, name, i),))], 'vec')


def rot_list(name):
    i = sym('#i', ('ops', name), 'int')
    return Seq([Many(('ops', name), (i,), (Mat(3, 3, [sym(name + '.R', (i, const(a), const(b)), 'int') for b in range(3) for a in range(3)]),))], 'vec')


def space_group(prog, name='o'):
    return Agg('adt', 'spacegroup::SpaceGroup', 0, [ops_list(prog, name)])


def point_group(prog):
    v = {'symbol': Opq('symbol', ()), 'operations': rot_list('o'), 'generators': rot_list('g')}
    return Agg('adt', 'pointgroup::PointGroup', 0, [v[k] for k in prog.adts['pointgroup::PointGroup']['variants'][0]['fields']])


def elements(s):
    """(segment, value) of every case of a list summary"""
    if not isinstance(s, Seq):
        raise Undecided('list without a summary')
    for g in s.segs:
        if isinstance(g, Many):
            for a in g.alts:
                yield g, a
        else:
            yield None, g[1]


def atoms_of(v):
    if isinstance(v, Num):
        return all_atoms(v)
    if isinstance(v, Mat):
        return [a for q in v.e for a in all_atoms(q)]
    if isinstance(v, Agg):
        return [a for q in v.f for a in atoms_of(q)]
    return []


def indices(v, names):
    return {vkey(a.args[0]): a.args[0] for a in atoms_of(v) if a.name in names and a.args}


# (T, R) with T^-1 R T integer, and pairs for which it is not
def unimod(rnd, n=3):
    m = [list(r) for r in I3]
    for _ in range(n):
        i, j = rnd.sample(range(3), 2)
        for k in range(3):
            m[i][k] += rnd.choice((-1, 1)) * m[j][k]
    return m


CENTRED = [[[D(1) / 2, D(1) / 2, D(0)], [-D(1) / 2, D(1) / 2, D(0)], [D(0), D(0), D(1)]],
           [[D(0), D(1) / 2, D(1) / 2], [D(1) / 2, D(0), D(1) / 2], [D(1) / 2, D(1) / 2, D(0)]]]


def pairs(rnd, n):
    out = []
    while len(out) < n:
        k = len(out) % 3
        if k == 0:
            T = [[D(x) for x in r] for r in unimod(rnd)]
        elif k == 1:
            T = CENTRED[rnd.randrange(2)]
        else:
            T = [[D(x) for x in r] for r in rnd.choice(([[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]]))]
        # R = T R' T^-1 with R' an integer matrix of finite order, R itself integer
        for _ in range(400):
            p = rnd.sample(range(3), 3)
            Rn = [[D(rnd.choice((-1, 1)) if p[i] == j else 0) for j in range(3)] for i in range(3)]
            if k == 0 and rnd.random() < .5:
                U = [[D(x) for x in r] for r in unimod(rnd, 1)]
                Rn = mul(dinv(U), mul(Rn, U))
            R = asint(mul(T, mul(Rn, dinv(T))), D(10) ** -20)
            if R is not None and R != I3:
                out.append((T, R, asint(Rn, D(10) ** -20)))
                break
    return out


def bad_pairs(rnd, n):
    """T, R with T^-1 R T not an integer matrix"""
    out = []
    cand = [[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 2]], [[3, 0, 0], [0, 2, 0], [0, 0, 1]], [[2, 1, 0], [0, 1, 0], [0, 0, 2]]]
    while len(out) < n:
        T = [[D(x) for x in r] for r in rnd.choice(cand)]
        p = rnd.choice(([1, 2, 0], [1, 0, 2], [2, 1, 0], [0, 2, 1]))
        R = [[rnd.choice((-1, 1)) if p[i] == j else 0 for j in range(3)] for i in range(3)]
        Q = mul(dinv(T), mul([[D(x) for x in r] for r in R], T))
        dev = max(abs(x - x.to_integral_value()) for r in Q for x in r)
        if dev > D('0.2'):
            out.append((T, R))
    return out


def group_env(T, R, sd, tname='T'):
    def asg(name, args):
        if name == tname:
            return D(T[int(args[0])][int(args[1])])
        if name.endswith('.R'):
            return D(R[int(args[-2])][int(args[-1])])
        if name.endswith('.t'):
            return unit_random(sd, name, args)
        if name == 'ft':
            return D(1) / 128
        if name.startswith('#g') or name == '#i':
            return D(int(unit_random(sd, name, args) * 5))
        return folded(name, args)
    return Ev(asg, seed=sd)


def partial(pc, ev):
    """a condition with every comparison that can be evaluated at the sample point decided"""
    for v in list(B.support(pc)):
        d = B.vars[v]
        if d[0] in ('lt', 'eq'):
            try:
                t = ev.var(v)
            except Undecided:
                continue
            pc = B.restrict(pc, v, 1 if t else 0)
            if pc == 0:
                return 0
    return pc


def known_inputs(pc, v, allowed):
    d = B.vars[v]
    return d[0] in ('lt', 'eq') and all(a.name in allowed for a in all_atoms(d[1]))


def conversion_checks(ck, prog, R, lists, rnd, key, where):
    """every case of the transformed lists obeys the change-of-basis law at sample points"""
    n = 0
    for what, s in lists:
        try:
            els = list(elements(s))
        except Undecided as ex:
            ck.ob('law', None, key + what, str(ex))
            continue
        for g, v in els:
            if isinstance(v, Agg) and v.name == OP:
                d = fields(prog, v)
                rot, tra = d['rotation'], d['translation']
            else:
                rot, tra = v, None
            if not isinstance(rot, Mat):
                ck.ob('law', None, key + what, 'operation without a summary')
                continue
            v = no_instance(v) if isinstance(v, Mat) else v
            nm = {a.name for a in atoms_of(rot) if a.name.endswith('.R')}
            src = indices(rot, nm)
            if len(src) != 1 or len(nm) != 1:
                ck.ob('law', False if not nm else None, key + what + '/rotation', 'the rotation does not come from one operation of the group', where)
                continue
            if tra is not None:
                ts = indices(tra, {n2.replace('.R', '.t') for n2 in nm})
                ck.ob('law', set(ts) == set(src), key + what + '/own-translation', 'the rotation and the translation of an operation come from different operations', where)
            want = {'': 'o', '/operations': 'o', '/generators': 'g'}[what]
            ck.ob('law', nm == {want + '.R'}, key + what + '/source', 'the %s are not made from the %s' % ((what[1:] or 'operations',) * 2), where)
            n += 1
            for T, Rm, Rn in pairs(rnd, 9):
                sd = rnd.randrange(10 ** 6)
                ev = group_env(T, Rm, sd)
                try:
                    # the inverse of a floating-point matrix is not exact: the rotation must come out the same for a T next to this one
                    near = group_env([[x + (unit_random(sd, 'near', (i, j)) - D('0.5')) * D('1e-9') for j, x in enumerate(r)] for i, r in enumerate(T)], Rm, sd)
                    got = [[near.num(rot.at(i, j)) for j in range(3)] for i in range(3)]
                    ck.ob('law', all(got[i][j] == Rn[i][j] for i in range(3) for j in range(3)), key + what + '/rounding',
                          'rounding errors of the inverse change the rotation: at T = %s (within 1e-9), R = %s it is %s instead of %s' % (ints(T), ints(Rm), ints(got), ints(Rn)), where)
                    got = [[ev.num(rot.at(i, j)) for j in range(3)] for i in range(3)]
                    ok = all(got[i][j] == Rn[i][j] for i in range(3) for j in range(3))
                    ck.ob('law', ok, key + what + '/rotation', 'at T = %s, R = %s the new rotation is %s instead of T^-1 R T = %s'
                          % (ints(T), ints(Rm), ints(got), ints(Rn)), where)
                    if tra is not None:
                        t1 = [[ev.num(x)] for x in tra.e]
                        ix = list(src.values())[0]
                        t0 = [[ev.num(sym(want + '.t', (ix, const(k))))] for k in range(3)]
                        back = mul(T, t1)
                        diff = [[back[k][0] - t0[k][0]] for k in range(3)]
                        inT = asint(T, D(10) ** -20)
                        if inT is None:
                            diff = mul(dinv(T), diff)       # the new lattice contains the old one
                        ck.ob('law', asint(diff, D(10) ** -18) is not None, key + what + '/translation',
                              'at T = %s the new translation differs from T^-1 t by %s, which is no lattice translation'
                              % (ints(T), [str(round(float(x[0]), 5)) for x in diff]), where)
                except Undecided as ex:
                    ck.ob('law', None, key + what, str(ex)[:200])
    return n


def ints(m):
    return [[('%g' % float(x)) for x in r] for r in m]


def inclusion_conditions(e, s, kind):
    """conditions under which an element enters a list: back edges of the loops that build it (and filters)"""
    out = []
    for g in (s.segs if isinstance(s, Seq) else ()):
        if not isinstance(g, Many):
            continue
        k = grown_in(g.shape)
        sh = g.shape
        while isinstance(sh, tuple) and sh and sh[0] == 'perm':
            sh = sh[1]
        out.append((sh, k))
    return out


def nonint_checks(ck, e, prog, rets, getlists, rnd, key, where):
    """an operation whose transformed rotation is not integer does not get into the result"""
    for what in getlists(None):
        verdicts = []
        for T, Rm in bad_pairs(rnd, 6):
            sd = rnd.randrange(10 ** 6)
            ev = group_env(T, Rm, sd)
            verdicts.append(kept(e, prog, rets, getlists, what, ev))
        bad = verdicts.count(True)
        ok = False if bad else (True if all(v is False for v in verdicts) else None)
        ck.ob('non-integer', ok, key + what + '/non-integer', 'an operation whose rotation is not an integer matrix in the new axes is kept with a rounded rotation', where)


def is_rotation(v, prog):
    if isinstance(v, Agg) and v.kind == 'adt' and v.name == OP:
        return fields(prog, v)['rotation']
    if isinstance(v, Mat) and v.r == 3 and v.c == 3:
        return v
    return None


def kept(e, prog, rets, getlists, what, ev):
    """can the operation described by ev reach the list `what`?  True/False/None"""
    res = False
    for st, r in rets:
        s = getlists((st, r)).get(what)
        if not isinstance(s, Seq):
            return None
        for g in s.segs:
            if not isinstance(g, Many):
                return None
            rot = [is_rotation(a, prog) for a in g.alts]
            if any(x is None for x in rot):
                return None
            name = sorted({a.name for x in rot for a in atoms_of(x) if a.name.endswith('.R')})
            conds = []
            gk = grown_in(g.shape)
            sh = g.shape
            while isinstance(sh, tuple) and sh and sh[0] in ('filtered', 'perm'):
                if sh[0] == 'filtered':
                    conds += [b.n for b in sh[2:]]
                sh = sh[1]
            for ls in e.loops.values():
                for sm in ls:
                    for per in (sm['pushes'].values() if gk is not None else ()):
                        for bi, gs in per.items():
                            for q in gs:
                                if isinstance(q, Many) or is_rotation(q[1], prog) is None:
                                    continue
                                nm = sorted({a.name for a in atoms_of(is_rotation(q[1], prog)) if a.name.endswith('.R')})
                                if nm == name:
                                    conds.append(sm['backs'][bi].pc)
            if not conds and gk is None:
                # rewritten in place, or filtered: the loops that run over the operations and their filters
                for ls in e.loops.values():
                    for sm in ls:
                        src = sm['src']
                        if src is not None and src['shape'] == g.shape and src['ex'] > 1 and implies(st.pc, src['ex']):
                            conds += [b.pc for b in sm['backs']]
                            break
            if not conds:
                return True if g.shape[0] == 'ops' else None
            # the value that is kept at this point must be reachable
            c = 0
            for pc in conds:
                c = B.OR(c, expand_quants(e, pc))
            left = partial(c, ev)
            if left:
                if any(B.vars[v][0] in ('lt', 'eq') and any(a.name.endswith('.R') for a in all_atoms(B.vars[v][1])) for v in B.support(left)):
                    return None
                if any(B.vars[v][0] == 'at' and B.vars[v][2] not in ('exhausted', 'alt', 'eq', 'singular') for v in B.support(left)):
                    return None
                res = True
    return res


def c16(prog):
    ck = Check('C16')
    rnd = random.Random(seed())
    fp = fpath(prog, None, 'utils::normalize_frac_vectors')
    con = {fp: fold_contract} if fp else {}
    T = mat('T')
    n = 0
    p = fpath(prog, ck, 'SpaceGroup::apply_transformation')
    rets, e = summary(ck, prog, p, [space_group(prog), T, TOL3], contracts=con)
    if rets is not None:
        def lists(x):
            if x is None:
                return ['']
            R = x[0].mem.get(('A', 0))
            return {'': R.f[0] if isinstance(R, Agg) else None}
        for x in rets:
            n += conversion_checks(ck, prog, None, list(lists(x).items()), rnd, 'space-group', p)
        nonint_checks(ck, e, prog, rets, lists, rnd, 'space-group', p)
        refused(ck, prog, p, [space_group(prog), T, TOL3], 'T', 'space-group', 'transformation', con)
    p = fpath(prog, ck, 'PointGroup::apply_transformation')
    rets, e = summary(ck, prog, p, [point_group(prog), T], contracts=con)
    if rets is not None:
        def plists(x):
            if x is None:
                return ['/operations', '/generators']
            R = x[0].mem.get(('A', 0))
            d = fields(prog, R)
            return {'/operations': d['operations'], '/generators': d['generators']}
        for x in rets:
            n += conversion_checks(ck, prog, None, list(plists(x).items()), rnd, 'point-group', p)
        nonint_checks(ck, e, prog, rets, plists, rnd, 'point-group', p)
        refused(ck, prog, p, [point_group(prog), T], 'T', 'point-group', 'transformation', con)
    ck.floor('transformed lists', n, 3)
    return ck.finish('other', 'summaries of the two apply_transformation functions: every case of the resulting lists takes rotation and translation from one operation of '
                     'the same list; at sample pairs (T, R) the rotation equals T^-1 R T and T t\' - t is a lattice translation; at pairs with a non-integer T^-1 R T the '
                     'conditions under which an operation is kept are unsatisfiable; no path returns when T is singular', TRUST,
                     ['sampled transformations: unimodular, centring and enlarging'])


# ---------------------------------------------------------------- C31

def same_contract(eng, st, args, dty, site):
    """SymmOp::is_approx_eq by its name (C28 checks the function itself)"""
    return [(st, batom('same_op', tuple(eng.deep(st, a) for a in args)))]


def product_contract(prog):
    """composition of two operations by its specification (C18 checks the function itself)"""
    names = prog.adts[OP]['variants'][0]['fields']

    def f(eng, st, args, dty, site):
        a, b = (eng.deep(st, x) for x in args[:2])
        if not all(isinstance(x, Agg) and x.name == OP for x in (a, b)):
            return None
        da, db = fields(prog, a), fields(prog, b)
        R1, t1, R2, t2 = da['rotation'], da['translation'], db['rotation'], db['translation']
        R = Mat(3, 3, [sum((R1.at(i, k) * R2.at(k, j) for k in range(3)), ZERO) for j in range(3) for i in range(3)])
        t = Mat(3, 1, [sum((R1.at(i, k) * t2.e[k] for k in range(3)), ZERO) + t1.e[i] for i in range(3)])
        v = {'rotation': R, 'translation': t}
        return [(st, Agg('adt', OP, 0, [v[n] for n in names]))]
    return f


def mul_paths(prog):
    """SymmOp * SymmOp (not SymmOp * vector)"""
    out = []
    for b in prog.bodies.values():
        p = b['path']
        if p.startswith('<symmop::SymmOp as') and p.endswith('Mul>::mul'):
            out.append(p)
    return out


def segments(v):
    if isinstance(v, Seq):
        return list(v.segs)
    if isinstance(v, Map):
        return [('one', x[0]) for x in v.items] + list(v.grown)
    return []


def op_of(prog, v):
    """(rotation, translation or None) of a list element"""
    if isinstance(v, Agg) and v.kind == 'tuple' and v.f:
        v = v.f[0]
    if isinstance(v, Agg) and v.name == OP:
        d = fields(prog, v)
        return d['rotation'], d['translation']
    if isinstance(v, Mat) and v.r == 3 and v.c == 3:
        return v, None
    return None


class Families:
    """which operation of which list an entry belongs to, and the random operations standing for them"""

    def __init__(self, prog, vals):
        self.tmpl = {}
        for where, v in vals:
            for n, g in enumerate(segments(v)):
                if not isinstance(g, Many):
                    continue
                for x in g.alts:
                    o = op_of(prog, x)
                    if o is None:
                        continue
                    for part, m in zip('Rt', o):
                        if m is None:
                            continue
                        for q, ent in enumerate(m.e):
                            if ent.op == 'a':
                                k = self.key(ent.a, g.idxs)
                                if k is not None:
                                    self.tmpl.setdefault(k[0], (where, n, part, q % m.r, q // m.r))

    def key(self, a, idxs=None):
        pos = [i for i, x in enumerate(a.args) if isinstance(x, (Num, Opq)) and self.index(x, idxs)]
        if len(pos) != 1:
            return None
        x = a.args[pos[0]]
        inner = ()
        if isinstance(x, Opq):
            inner = tuple(vkey(y) for y in x.args if not isinstance(y, Num))
            x = [y for y in x.args if isinstance(y, Num)][0]
        return (a.name, inner, tuple(vkey(y) for i, y in enumerate(a.args) if i != pos[0])), vkey(x)

    def index(self, x, idxs):
        if isinstance(x, Opq):
            return sum(1 for y in x.args if isinstance(y, Num)) == 1
        if idxs is not None:
            return any(vkey(x) == vkey(i) for i in idxs)
        return x.op != 'c'

    def of(self, a):
        """(list, index, part, row, column)"""
        if a.name in ('o.R', 'o.t'):
            ix = [int(y.a) for y in a.args[1:]]
            return ('gen', 0), vkey(a.args[0]), a.name[-1], ix[0], ix[1] if len(ix) > 1 else 0
        k = self.key(a)
        if k is None or k[0] not in self.tmpl:
            return None
        w, n, part, r, c = self.tmpl[k[0]]
        return (w, n), k[1], part, r, c

    def families(self, v):
        out = {}
        for a in atoms_of(v):
            f = self.of(a)
            if f is not None:
                out[f[:2]] = True
        return list(out)


def family_values(sd):
    def value(lst, ix, part, r, c):
        if part == 'R':
            return D(H('fam', sd, lst, ix, r, c) % 7 - 3)
        return D(H('famt', sd, lst, ix, r) % 99991) / D(99991)
    return value


def closure_rules(ck, prog, e, rets, key, where, result):
    last = {k: ls[-1] for k, ls in e.loops.items()}
    outer = None
    for k, sm in last.items():
        hav = [a for a, path in sm['havoc'] if not path and isinstance(sm['header'].mem.get(a), (Seq, Map))]
        grows = [a for a, path in list(sm['grow']) + list(sm['havoc']) if not path and isinstance(sm['header'].mem.get(a), (Seq, Map))]
        if hav and len(grows) >= 2 or len(hav) >= 2:
            outer = (k, sm, hav, grows)
    if outer is None:
        rounds = not any(sm['src'] is None for sm in last.values()) and any(sm['pushes'] for sm in last.values()) and not e.unmodelled
        ck.ob('generation', False if rounds else None, key + '/stops', 'no loop that extends the group until nothing is new: the number of rounds is fixed', where)
        return 0
    ok_, out, hav, grows = outer
    fam = Families(prog, [(a, v) for a, v in out['header'].mem.items() if isinstance(v, (Seq, Map))])

    # products formed
    inner = []
    for k, sm in [(k, sm) for k, ls in e.loops.items() if k != ok_ for sm in ls]:
        for (a, path), per in sm['pushes'].items():
            for bi, gs in per.items():
                for g in gs:
                    if isinstance(g, Many):
                        continue
                    o = op_of(prog, g[1])
                    if o is not None:
                        fs = fam.families(o[0])
                        if any(f[0][0] in hav for f in fs) or len(fs) >= 2 and sm is last[k]:
                            inner.append(((k, id(sm)), sm, (a, path), bi, o, fs, g[1]))
    if not inner:
        ck.ob('generation', None, key, 'no products are recognised')
        return 0
    news = {f[0][0] for x in inner for f in x[5] if f[0][0] in hav}
    if len(news) != 1:
        ck.ob('generation', None, key, 'the list of new elements is not recognised')
        return 0
    N = news.pop()
    R = [a for a in grows if a != N and any(x[2][0] == a for x in inner)]
    if len(R) != 1:
        ck.ob('generation', None, key, 'the list of the group is not recognised')
        return 0
    R = R[0]
    Nh = out['header'].mem[N]
    # 1. stops only when nothing is new
    lens = {vkey(g.shape) for g in segments(Nh) if isinstance(g, Many)}
    for t, st in out['exits']:
        for size in (1, 2, 5, 40):
            pc = st.pc
            for v in list(B.support(pc)):
                d = B.vars[v]
                if d[0] == 'at' and d[2] == 'empty' and vkey(d[1][0]) == vkey(Nh):
                    pc = B.restrict(pc, v, 0)
                elif d[0] in ('lt', 'eq') and any(a.name == 'len' and a.args and vkey(a.args[0]) in lens for a in all_atoms(d[1])):
                    try:
                        pc = B.restrict(pc, v, 1 if Ev(lambda n, a: D(size) if n == 'len' else None).var(v) else 0)
                    except Undecided:
                        pass
            ck.ob('generation', pc == 0, key + '/stops', 'generation can stop while the list of new elements is not empty', where)
    # the list returned is the list generated
    for st, r in rets:
        v = r.f[0] if isinstance(r, Agg) and r.kind == 'adt' and len(r.f) == 1 else r
        want = {vkey(g.shape) for g in segments(out['exits'][0][1].mem.get(R)) if isinstance(g, Many)} if out['exits'] else set()
        got = shapes_in(v)
        ck.ob('generation', True if want and want <= got else (False if isinstance(v, Seq) and v.segs and not (want & got) else None), key + '/returned',
              'the list returned is not the list that was generated', where)
    # 2. starts from all generators
    start = {}
    for nm, a in (('group', R), ('new', N)):
        v = out['entry'].mem.get(a)
        start[nm] = generators_in(ck, prog, e, last, v, key + '/start-' + nm, where, nm)
    # 3. products: each is one of the group times one of the new elements, in either order
    n = 0
    rnd = random.Random(seed())
    A_gen = seen = False
    for k, sm, (a, path), bi, (rot, tra), fs, v in inner:
        if a != R:
            continue
        n += 1
        good = len(fs) == 2 and any(f[0][0] == N for f in fs)
        if len(fs) > 2 and sm is not last[k[0]]:
            continue            # an intermediate state of the summary
        if len(fs) != 2:
            ck.ob('product', False if len(fs) in (1,) else None, key + '/product', 'an element that is not a product of two elements is added', where)
            continue
        ck.ob('product', good, key + '/factors', 'a new product does not use an element found in the last round', where)
        other = [f for f in fs if f[0][0] != N]
        seen = seen or any(f[0][0] != R for f in other)
        if other and (other[0][0][0] == 'gen' or other[0][0][0] == R):
            A_gen = A_gen or other[0][0][0] == 'gen' or generic_start(out, R, other[0], fam)
        sd = rnd.randrange(10 ** 6)
        val = family_values(sd)
        try:
            ev = FamEv(fam, val, sd)
            got = [[ev.num(rot.at(i, j)) for j in range(3)] for i in range(3)]
            M = [[[val(f[0], f[1], 'R', i, j) for j in range(3)] for i in range(3)] for f in fs]
            t = [[[val(f[0], f[1], 't', i, 0)] for i in range(3)] for f in fs]
            hit = [o for o in ((0, 1), (1, 0)) if mul(M[o[0]], M[o[1]]) == got]
            ck.ob('product', bool(hit), key + '/rotation', 'the rotation of a new element is not the product of the rotations of two elements', where)
            if hit and tra is not None:
                o = hit[0]
                want = mul(M[o[0]], t[o[1]])
                d = [[ev.num(tra.e[i]) - want[i][0] - t[o[0]][i][0]] for i in range(3)]
                ck.ob('product', asint(d, D(10) ** -20) is not None, key + '/translation', 'the translation of a new element is not that of the product', where)
        except Undecided as ex:
            ck.ob('product', None, key + '/product', str(ex)[:150])
    ck.ob('product', True if A_gen else None if seen or not n else False, key + '/generators-multiply', 'no product of a generator with a new element is formed', where)
    # 4. membership decides
    for k in {x[0] for x in inner}:
        mine = [x for x in inner if x[0] == k]
        sm = mine[0][1]
        M = membership(ck, prog, e, fam, sm, [x for x in mine if x[2][0] == R], R, key, where)
        for x in mine:
            if x[2][0] == R and len({y[2][0] for y in mine}) > 1:
                both = any(y[2][0] != R and y[3] == x[3] and vkey(y[4][0]) == vkey(x[4][0]) for y in mine)
                pc = sm['backs'][x[3]].pc
                old = [v for v in M if M[v][0] == '' and B.restrict(pc, v, 1 if M[v][1] == 'forall' else 0) == 0]
                ck.ob('complete', both or bool(old), key + '/next-round', 'an element that was added is not multiplied again in the next round', where)
        for t, st in sm['exits']:
            ex = exhausted_of(sm)
            ck.ob('complete', True if ex and implies(st.pc, ex) else (False if ex else None), key + '/all-pairs', 'the loop over the pairs can end before all products were formed', where)
        it = sm['src'] and sm['src']['it']
        if it is not None:
            ck.ob('complete', not dropping(it), key + '/all-elements', 'some elements are left out when products are formed (%s)' % ', '.join(dropping(it)), where)
    # 5. every element added is multiplied in the next round
    for st in out['backs']:
        v = st.mem.get(N)
        added = {tuple(sorted(repr(f[0]) for f in x[5])) for x in inner if x[2][0] == R and len(x[5]) == 2}
        nxt, unk = set(), False
        for g in segments(v) if isinstance(v, (Seq, Map)) else ():
            alts = g.alts if isinstance(g, Many) else (g[1],)
            for x in alts:
                o = op_of(prog, x)
                if o is None:
                    unk = True
                else:
                    nxt.add(tuple(sorted(repr(f[0]) for f in fam.families(o[0]))))
        if not isinstance(v, (Seq, Map)) or unk:
            ck.ob('complete', None, key + '/next-round', 'list of new elements without a summary')
            continue
        miss = added - nxt
        part = [g.shape[0] for g in segments(v) if isinstance(g, Many) and partial_list(g.shape)]
        if part:
            ck.ob('complete', False, key + '/next-round', 'some elements that were added are not multiplied again in the next round (%s)' % part[0], where)
        elif miss and any(isinstance(g, Many) and grown_in(g.shape) is None for g in segments(v)):
            ck.ob('complete', None, key + '/next-round', 'the list of new elements is rebuilt in a way that is not recognised')
        else:
            ck.ob('complete', not miss, key + '/next-round', 'an element that was added is not multiplied again in the next round', where)
    return n


def shapes_in(v):
    out = set()
    for g in segments(v):
        if isinstance(g, Many):
            out.add(vkey(g.shape))
            if isinstance(g.shape, tuple):
                for x in g.shape[1:]:
                    if isinstance(x, (Seq, Map)):
                        out |= shapes_in(x)
    return out


class FamEv(Ev):
    """sample point where every entry of every operation has the value of its family"""

    def __init__(self, fam, val, sd):
        Ev.__init__(self, lambda n, a: D(1) / 128 if n == 'ft' else folded(n, a), seed=sd)
        self.fam, self.val = fam, val

    def atom(self, a):
        f = self.fam.of(a)
        if f is not None:
            return self.val((f[0]), f[1], *f[2:])
        return Ev.atom(self, a)


def exhausted_of(sm):
    return sm['src']['ex'] if sm['src'] is not None else 0


def partial_list(shape):
    """a list made of some elements of another"""
    if not isinstance(shape, tuple) or not shape:
        return False
    if shape[0] == 'skip':
        return not (isinstance(shape[2], Num) and shape[2].op == 'c' and shape[2].a == 0)
    return shape[0] in ('take', 'step_by', 'sub')


def dropping(it):
    out = []
    if it.kind in ('skip', 'take', 'step_by', 'take_while', 'skip_while', 'filter'):
        out.append(it.kind)
    for x in it.a:
        if type(x).__name__ == 'It':
            out += dropping(x)
    return out


def generic_start(out, R, f, fam):
    """the segment of the group list this factor comes from was there at the start"""
    h, s = out['header'].mem[R], out['entry'].mem[R]
    hs, ss = segments(h), segments(s)
    n = f[0][1]
    return n < len(hs) and n < len(ss) and isinstance(hs[n], Many) and isinstance(ss[n], Many) and hs[n].shape == ss[n].shape


def generators_in(ck, prog, e, last, v, key, where, nm):
    """every generator is in the list v (or has a counterpart in it), none twice"""
    segs = segments(v)
    if not isinstance(v, (Seq, Map)):
        ck.ob('start', None, key, 'list without a summary')
        return
    if not segs:
        return ck.ob('start', False, key, 'generation starts from an empty list', where)
    for g in segs:
        alts = g.alts if isinstance(g, Many) else (g[1],)
        for x in alts:
            o = op_of(prog, x)
            if o is None:
                return ck.ob('start', None, key, 'unrecognised element')
            idx = indices(o[0], {'o.R'})
            same = len(idx) == 1
            if same:
                ix = list(idx.values())[0]
                same = all(o[0].at(i, j).h == sym('o.R', (ix, const(i), const(j)), 'int').h for i in range(3) for j in range(3))
                if same and o[1] is not None:
                    same = all(o[1].e[i].h == sym('o.t', (ix, const(i))).h or
                               any(a.name == 'fold' for a in all_atoms(o[1].e[i])) for i in range(3))
            ck.ob('start', same, key + '/generators', 'the %s starts with an element that is not a generator' % ('group' if nm == 'group' else 'list of new elements'), where)
    g = segs[0]
    if not isinstance(g, Many):
        return ck.ob('start', None, key, 'unrecognised start %s' % str(g)[:200])
    if g.shape == ('ops', 'o'):
        ck.ob('start', True, key + '/all', '', where)
        if isinstance(v, Seq):
            ck.ob('start', False, key + '/twice', 'generators given twice stay twice in the list', where)
        else:
            ck.ob('start', True, key + '/twice', 'a set')
        return
    if partial_list(g.shape):
        return ck.ob('start', False, key + '/all', 'some generators are left out (%s)' % g.shape[0], where)
    gk = grown_in(g.shape)
    sm = None
    for k, s in last.items():
        if repr(k) == gk or k == gk:
            sm = s
    if sm is not None and sm['src'] is not None and dropping(sm['src']['it']):
        return ck.ob('start', False, key + '/all', 'some generators are left out (%s)' % ', '.join(dropping(sm['src']['it'])), where)
    if sm is None or sm['src'] is None or sm['src']['shape'] != ('ops', 'o'):
        return ck.ob('start', None, key + '/all', 'the generators are copied in a way that is not recognised')
    pushes = [(a, bi, gs[0][1]) for a, per in sm['pushes'].items() for bi, gs in per.items() if len(gs) == 1 and not isinstance(gs[0], Many)]
    addr = {a for a, _, _ in pushes}
    if len(addr) != 1:
        return ck.ob('start', None, key + '/all', 'the generators are copied in a way that is not recognised')
    a0 = list(addr)[0]
    fam = Families(prog, [])
    inner = [(None, sm, a0, bi, op_of(prog, v), None, v) for _, bi, v in pushes]
    membership(ck, prog, e, fam, sm, inner, a0[0], key, where)
    ex = exhausted_of(sm)
    for t, st in sm['exits']:
        ck.ob('start', implies(st.pc, ex), key + '/all', 'the loop over the generators can end before all were taken', where)
    ck.ob('start', not dropping(sm['src']['it']), key + '/all', 'some generators are left out', where)


def membership(ck, prog, e, fam, sm, mine, R, key, where):
    """an element is added exactly when the list has no counterpart of it yet"""
    push = {x[3]: x for x in mine}
    M = {}
    for bi, x in push.items():
        pc = sm['backs'][bi].pc
        for v in B.support(pc):
            d = B.vars[v]
            if d[0] != 'at' or d[2] not in ('contains', 'exists', 'forall'):
                continue
            r = member_of(prog, e, fam, sm, d, x, R)
            if r is not None:
                M[v] = (r, d[2])
    for bi, st in enumerate(sm['backs']):
        pc = st.pc
        if bi in push:
            ms = [v for v in M if v in B.support(pc)]
            neg = [v for v in ms if B.restrict(pc, v, 0 if M[v][1] == 'forall' else 1) == 0]
            if neg:
                ck.ob('unique', all(M[v][0] == '' for v in neg), key + '/unique', next((M[v][0] for v in neg if M[v][0]), ''), where)
            elif isinstance(sm['header'].mem.get(R), Map):
                ck.ob('unique', True, key + '/unique', 'a set')
            elif any(B.vars[v][0] == 'at' and B.vars[v][2] not in ('exhausted', 'alt', 'empty', 'singular') for v in B.support(pc) if v not in M):
                ck.ob('unique', None, key + '/unique', 'the test that decides whether a product is new is not recognised')
            else:
                ck.ob('unique', False, key + '/unique', 'an element is added without testing that it is not in the list yet', where)
        else:
            rest = pc
            for v in M:
                rest = B.restrict(rest, v, 1 if M[v][1] == 'forall' else 0)
            if rest == 0:
                ck.ob('complete', True, key + '/kept')
            elif not M:
                ck.ob('complete', None, key + '/kept', 'the test that decides whether a product is new is not recognised')
            else:
                ck.ob('complete', False, key + '/kept', 'a product can be left out although the list has no counterpart of it', where)
    return M


def member_of(prog, e, fam, sm, d, x, R):
    """'' when the atom says that the list has a counterpart of the element that is added; a text when it says something else;
    None when it is not about membership"""
    rot, tra = x[4]
    cur = sm['header'].mem.get(R)
    if d[2] == 'contains':
        mp, k = d[1]
        if not isinstance(k, Mat) or vkey(k) != vkey(rot):
            return 'the test is made for another element than the one that is added' if isinstance(k, Mat) else None
        if vkey(mp) != vkey(cur):
            return 'the test looks at another list or at an older state of the list'
        return ''
    body, it = d[1]
    ws = [B.vars[v] for v in B.support(body.n)]
    eqs = [w for w in ws if w[0] == 'at' and w[2] == 'same_op']
    if not eqs:
        parts = {fam.of(a)[2] for w in ws if w[0] in ('lt', 'eq') for a in all_atoms(w[1]) if fam.of(a) is not None}
        if tra is not None and parts == {'R'}:
            return 'the test compares rotations only'
        return None
    lst = it.a[0] if type(it).__name__ == 'It' and it.kind == 'seq' else None
    if type(it).__name__ == 'It' and dropping(it):
        return 'the test does not look at all elements of the list'
    if lst is None:
        return None
    for w in eqs:
        ks = {vkey(strip_fold(prog, q)) for q in w[1][:2]}
        if vkey(strip_fold(prog, x[6])) not in ks:
            return 'the test is made for another element than the one that is added'
    if vkey(lst) != vkey(cur):
        return 'the test looks at another list or at an older state of the list'
    # 'some element is the same' / 'all elements differ'
    pol = body.n
    for v in B.support(body.n):
        if any(B.vars[v] is w for w in eqs):
            pol = B.restrict(pol, v, 0 if d[2] == 'exists' else 1)
    for q, name, qb, site, qpc in e.quants:
        if qb.n == body.n:
            pol = B.AND(pol, qpc)
    if pol != 0:
        return 'the test is satisfied by an element that is not the same'
    return ''


def strip_fold(prog, v):
    """an operation without the integers that normalisation adds to its translation"""
    if isinstance(v, Agg) and v.name == OP:
        return Agg(v.kind, v.name, v.variant, [strip_fold(prog, q) for q in v.f])
    if isinstance(v, Mat) and v.c == 1:
        out = []
        for q in v.e:
            for a in all_atoms(q):
                if a.name == 'fold':
                    q = q - num_of_atom(a)
            out.append(q)
        return Mat(v.r, v.c, out)
    return v


def c31(prog):
    ck = Check('C31')
    fp = fpath(prog, ck, 'utils::normalize_frac_vectors')
    sp = fpath(prog, ck, 'SymmOp::is_approx_eq')
    con = {fp: fold_contract, sp: same_contract}
    for p in mul_paths(prog):
        con[p] = product_contract(prog)
    n = 0
    p = fpath(prog, ck, 'SpaceGroup::from_generators')
    rets, e = summary(ck, prog, p, [ops_list(prog), TOL3], contracts=con)
    if rets is not None:
        n += closure_rules(ck, prog, e, rets, 'space-group', p, None)
    p = fpath(prog, ck, 'PointGroup::generate_operations')
    rets, e = summary(ck, prog, p, [rot_list('o')], contracts=con)
    if rets is not None:
        n += closure_rules(ck, prog, e, rets, 'point-group', p, None)
    ck.floor('kinds of products formed', n, 2)
    return ck.finish('bounded', 'loop summaries of the two generation functions: the list starts with every generator once, each pair of an element of the group and a new element '
                     'is multiplied, the product is added exactly when the current list has no counterpart of it, everything added is multiplied again, and the loop is left '
                     'only when nothing is new', TRUST, ['composition and comparison of operations replaced by their specification (C18, C28)'])
