"""The symmetry query as a whole: identification of the group, the way back to the input axes, the operations found."""
import itertools
import random
from decimal import Decimal as D

from common import Check
from engine import Engine, Agg, Mat, Map, Seq, Str, Num, Many, Opq, Undecided, const, sym
from terms import Bool, B, H, ZERO, ONE, FALSE, batom, vkey, num_of_atom
from values import It, Ptr, UNIT, tup
from models import matmul
from checks_tables import seed, coherent, Tables, prim_matrices, in_primitive, decode
from checks_algebra import TRUST, fpath, fields, summary, mat, op_value
from checks_reduce import (all_atoms, implies, STRUCT, mul, dinv, fold_contract, folded, unit_random, distances, expand_quants, is_image_distance, records,
                           sorted_by_species, toplevel_atoms, grown_in)
from checks_group import OP, TOL3, same_contract, space_group, ops_list, rot_list, dropping, atoms_of, indices
from evalf import Ev
from hall import HALL, expand


# ---------------------------------------------------------------- terms

def parts(v, seen=None):
    """every value inside a value, itself first"""
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += list(x)
            continue
        if isinstance(x, Num):
            if x.h in seen:
                continue
            seen.add(x.h)
            yield x
            if x.op == 'a':
                todo += list(x.a.args)
            elif isinstance(x.a, (tuple, list, Num)):
                todo.append(x.a)
            continue
        if isinstance(x, Bool) or not hasattr(x, 'key'):
            continue
        k = x.key()
        if k in seen:
            continue
        seen.add(k)
        yield x
        if isinstance(x, (Opq, Agg, Mat)):
            todo += list(x.children())
        elif isinstance(x, Seq):
            todo += [g.alts if isinstance(g, Many) else g[1] for g in x.segs]


def elems(v):
    return {x.key(): x for x in parts(v) if isinstance(x, Opq) and x.name == 'elem'}


def unwrapped(v):
    """x of unwrap(get(c, x)) chains: (container, key) or None"""
    if isinstance(v, Opq) and v.name == 'unwrap' and len(v.args) == 1 and isinstance(v.args[0], Opq) and v.args[0].name == 'get':
        return v.args[0].args
    if isinstance(v, Opq) and v.name == 'index' and len(v.args) == 2:
        return v.args
    return None


def path_to(v, name):
    """names of the functions applied one after the other to a value of that name, outermost first"""
    out = []
    while True:
        if isinstance(v, Num) and v.op == 'a':
            v = v.a
        if not hasattr(v, 'name') or not hasattr(v, 'args'):
            return None
        out.append(v.name)
        if v.name == name:
            return out
        if not v.args:
            return None
        v = v.args[0]


def is_table(v, name):
    return isinstance(v, Opq) and v.name == 'table' and str(v.args[0]).strip("'").endswith('::' + name)


# ---------------------------------------------------------------- C32

class Matching:
    """what a path condition says about the operations found and the operations of a tabulated group"""

    def __init__(self, e, ops):
        self.e = e
        self.ops = ops
        self.loops = [s for ls in e.loops.values() for s in ls]
        self.why = []
        self.strange = False

    def over_ops(self, it_or_shape):
        if isinstance(it_or_shape, It):
            if dropping(it_or_shape):
                return None
            while it_or_shape.kind in ('enumerate', 'copied', 'cloned', 'rev') and it_or_shape.a and isinstance(it_or_shape.a[0], It):
                it_or_shape = it_or_shape.a[0]
            s = it_or_shape.a[0] if it_or_shape.kind == 'seq' else None
            if isinstance(s, Seq) and len(s.segs) == 1 and isinstance(s.segs[0], Many):
                return s.segs[0].shape == self.ops
            return None
        return it_or_shape == self.ops

    def flags(self, s):
        """loop variables of a loop that are truth values: address -> variable standing for them"""
        out = {}
        for a in s['header'].mem:
            v = s['header'].mem[a]
            if isinstance(v, Bool) and v.n > 1 and B.vars[B.nodes[v.n][0]][-1] == 'mu' and B.nodes[v.n][1:] == (0, 1):
                out[a] = B.nodes[v.n][0]
        return out

    def every(self, pc):
        """conditions F such that pc implies F for every operation found"""
        out = []
        for s in self.loops:
            src = s['src']
            if src is None or src['ex'] <= 1 or not implies(pc, src['ex']):
                continue
            if src['shape'] != self.ops or dropping(src['it']):
                if dropping(src['it']) and grounded(src['it'], self.ops):
                    self.why.append('not every operation found is looked at (%s)' % ', '.join(dropping(src['it'])))
                continue
            f = []
            for b in s['backs']:
                n = b.pc
                for a, v in self.flags(s).items():
                    if implies(pc, B.mk(v, 0, 1)):
                        val = b.mem.get(a)
                        # a flag that is true at the end and never comes back to true was true all the time
                        if isinstance(val, Bool) and implies(B.AND(n, val.n), B.mk(v, 0, 1)):
                            n = B.AND(n, val.n)
                f.append(n)
            out.append(f)
        for v in B.support(pc):
            d = B.vars[v]
            if d[0] != 'at' or d[2] not in ('exists', 'forall'):
                continue
            body, it = d[1]
            o = self.over_ops(it)
            if o is None and isinstance(it, It) and grounded(it, self.ops):
                self.why.append('not every operation found is looked at')
            if not o:
                continue
            if d[2] == 'forall' and implies(pc, B.mk(v, 0, 1)):
                out.append([B.AND(body.n, B.restrict(pc, v, 1))])
            if d[2] == 'exists' and implies(pc, B.mk(v, 1, 0)):
                out.append([B.AND(B.NOT(body.n), B.restrict(pc, v, 0))])
        return out

    def equal(self, v, cand):
        """the variable says that an operation found equals one of the candidate's operations"""
        d = B.vars[v]
        if d[0] != 'at' or d[2] != 'same_op':
            return False
        a, b = d[1][:2]
        own = [x for x in (a, b) if self.own(x)]
        oth = [x for x in (a, b) if not self.own(x)]
        if len(own) != 1 or len(oth) != 1:
            self.why.append('an operation found is compared with something else than a tabulated operation')
            return False
        if cand is not None:
            es = [x for x in parts(oth[0]) if isinstance(x, Opq) and x.name == '.1' and x.args[0].key() == cand.key()]
            if not es:
                if elems(oth[0]):
                    self.why.append('the operations compared are not those of the group whose number is reported')
                else:
                    self.strange = True
                return False
            if any(isinstance(x, Opq) and x.name == 'elem' and x.key() not in elems(cand) and not any(y.key() == es[0].key() for y in parts(x))
                   for x in parts(oth[0])):
                self.why.append('the operations compared are not those of the group whose number is reported')
                return False
        if len(d[1]) > 2 and vkey(d[1][2]) != vkey(TOL3):
            self.why.append('operations are compared with another tolerance than the one given')
            return False
        return True

    def own(self, x):
        return any(a.name in ('o.R', 'o.t') for a in atoms_of(x))

    def good(self, pc, cand, depth=0):
        """disjunction of the variables in pc that say 'some tabulated operation equals the operation at hand'"""
        g = 0
        for v in B.support(pc):
            d = B.vars[v]
            if d[0] != 'at':
                continue
            if d[2] == 'same_op' and self.equal(v, cand):
                g = B.OR(g, B.mk(v, 0, 1))
            elif d[2] in ('exists', 'forall') and depth < 3:
                body = d[1][0].n
                b = body if d[2] == 'exists' else B.NOT(body)
                if not mentions_own(self, b) or (isinstance(d[1][1], It) and self.over_ops(d[1][1])):
                    continue
                b = B.AND(b, B.restrict(pc, v, 1 if d[2] == 'exists' else 0))
                if implies(b, self.good(b, cand, depth + 1)):
                    g = B.OR(g, B.mk(v, 0, 1) if d[2] == 'exists' else B.mk(v, 1, 0))
                else:
                    self.why.append('the test is satisfied by a tabulated operation that is not the same')
            elif d[2] == 'mu' and depth < 3:
                s, a = self.flag_loop(v)
                if s is None:
                    continue
                st = s['entry'].mem.get(a)
                if not isinstance(st, Bool) or B.AND(st.n, s['entry'].pc) != 0:
                    if implies_own(self, s):
                        self.why.append('the flag "counterpart found" is not false before the search')
                    continue
                okk = bool(s['backs'])
                for b in s['backs']:
                    val = b.mem.get(a)
                    n = B.AND(b.pc, val.n) if isinstance(val, Bool) else b.pc
                    n = B.restrict(n, v, 0)
                    if not implies(n, self.good(n, cand, depth + 1)):
                        okk = False
                        if mentions_own(self, n):
                            self.why.append('the flag "counterpart found" can be set without an equal tabulated operation')
                if okk:
                    g = B.OR(g, B.mk(v, 0, 1))
        return g

    def flag_loop(self, v):
        for s in self.loops:
            for a, w in self.flags(s).items():
                if w == v:
                    return s, a
        return None, None

    def unknown(self, pc):
        """conditions in pc that are neither understood nor irrelevant"""
        for v in B.support(pc):
            d = B.vars[v]
            if d[0] in ('lt', 'eq'):
                if all(a.name == 'len' and not (isinstance(a.args[0], tuple) and a.args[0][0] in ('filtered', 'grow', 'mug', 'mu')) for a in all_atoms(d[1])):
                    continue
                return True
            if d[2] in ('exists', 'forall', 'mu', 'same_op', 'exhausted', 'is_none', 'alt', 'singular', 'empty'):
                continue
            return True
        return False


def grounded(it, shape):
    """an iterator over the list of that shape, possibly leaving elements out"""
    if isinstance(it, It):
        return any(grounded(x, shape) for x in it.a)
    if isinstance(it, Seq):
        return any(isinstance(g, Many) and (g.shape == shape or (isinstance(g.shape, tuple) and shape in g.shape)) for g in it.segs)
    return False


def mentions_own(m, n):
    return any(B.vars[v][0] == 'at' and B.vars[v][2] in ('same_op', 'mu', 'exists', 'forall') for v in B.support(n))


def implies_own(m, s):
    return any(B.vars[v][0] == 'at' and B.vars[v][2] == 'same_op' for b in s['backs'] for x in b.mem.values() if isinstance(x, Bool)
               for v in B.support(x.n))


def c32(prog):
    ck = Check('C32')
    sp = fpath(prog, ck, 'SymmOp::is_approx_eq')
    dp = fpath(prog, ck, 'utils::decode_spg_op')
    p = fpath(prog, ck, 'SymmetryAnalyzer::identify_space_group')
    rets, e = summary(ck, prog, p, [space_group(prog), Opq('system', ()), TOL3], contracts={sp: same_contract}, opaque={dp})
    n = 0
    if rets is not None:
        for st, r in rets:
            if isinstance(r, Agg) and r.name.endswith('Option') and r.variant == 0:
                ck.ob('refusal', True, 'identify/none', 'no group is reported', p)
                continue
            if not (isinstance(r, Agg) and r.name.endswith('Option') and len(r.f) == 1 and isinstance(r.f[0], Agg) and len(r.f[0].f) == 2):
                ck.ob('lookup', None, 'identify', 'result without a summary')
                continue
            n += 1
            num, symb = r.f[0].f
            cand = candidate(ck, num, symb, p)
            m = Matching(e, ('ops', 'o'))
            fs = m.every(st.pc)
            done = False
            for f in fs:
                if f and all(implies(x, m.good(x, cand)) for x in f):
                    done = True
            if done:
                ck.ob('match', True, 'identify/match', 'every operation found has a counterpart', p)
            elif m.strange or m.unknown(st.pc) or any(m.unknown(x) for f in fs for x in f):
                ck.ob('match', None, 'identify/match', '; '.join(m.why[:2]) or 'conditions that are not recognised')
            else:
                ck.ob('match', False, 'identify/match', 'a group is reported although not every operation found has a counterpart among its operations: %s'
                      % (m.why[0] if m.why else 'no search over all operations found has to succeed'), p)
        ck.ob('refusal', any(isinstance(r, Agg) and r.name.endswith('Option') and r.variant == 0 for _, r in rets) or None, 'identify/refuses',
              'there is a result that reports no group')
    ck.floor('reported groups', n, 1)
    compared_axes(prog, ck, p, sp)
    pl = Pipeline(prog, ck)
    if pl.rets is not None:
        pl.identified()
    return ck.finish('other', 'summary of identify_space_group: the reported number is the key of an entry of the table of its lattice system and order, the symbol belongs to it, '
                     'and the condition of the report implies a completed search over all operations found in which each has an equal operation of that entry; summary of the query: '
                     'number and symbol are the unwrapped result of that search for the operations found and the lattice system of the Bravais type; '
                     'constant propagation of the table through the search, for every system and order and operations that match nothing: the operations each of the 230 numbers '
                     'is compared by are those of the table, moved from A-centred to C-centred axes for the A-centred groups and for no other', TRUST,
                     ['comparison and decoding of operations replaced by their specification (C09, C28)'])


def compared_axes(prog, ck, p, sp):
    """The operations by which each number is compared with those found. No Bravais type has an A-centred cell, so the groups with an A-centred symbol have to
    be moved to the axes of a C-centred one; all others are tabulated in the axes in which operations are found."""
    tabs = Tables(prog, ck)
    table, prim = tabs.get('SG_NUM_TO_FULL_MATRICES'), prim_matrices(tabs)
    adt = prog.adts.get('data::core::LatticeSystem')
    if table is None or prim is None or not ck.ob('anchor', adt is not None, 'anchor/LatticeSystem', 'no type LatticeSystem') or not p or not sp:
        return
    variant = {v['name']: i for i, v in enumerate(adt['variants'])}
    nums = 0
    most, lost = B.limit, 0
    for system, orders in table.items():
        for order, groups in orders.items():
            B.limit = min(most, len(B.nodes) + 200000)
            shown = None if lost > 3 else presented(prog, p, sp, Agg('adt', 'data::core::LatticeSystem', variant[system], ()), order, len(groups))
            lost += shown is None
            told = reported(prog, p, sp, Agg('adt', 'data::core::LatticeSystem', variant[system], ()), order, 'o%s%d_' % (system, order)) if order <= 4 and shown else None
            for num, codes in groups.items():
                ref = []
                for h in HALL.get(num, ()):
                    lat, _, full = expand(h)
                    if lat == 'A' and 'C' in prim:
                        for q in itertools.permutations(range(3)):
                            ref.append((lat, settled(in_primitive([permuted(o, q) for o in full], prim['C']))))
                    elif lat in prim:
                        ref.append((lat, settled(in_primitive(full, prim[lat]))))
                if any(lat != 'A' for lat, _ in ref):
                    ref.append(('', frozenset((r, tuple(x % 1 for x in t)) for r, t, _ in map(decode, codes))))
                nums += 1
                if shown is None:
                    ck.ob('axes', None, 'identify/axes/%s' % num, 'the operations compared are not known from the table alone')
                    continue
                ck.ob('axes', any(r in shown for _, r in ref if r), 'identify/axes/%s' % num,
                      'none of the groups tried for %s and order %s is group %s in the axes of a cell of that system%s'
                      % (system, order, num, ' (C-centred, since there is no A-centred cell)' if any(lat == 'A' for lat, _ in ref) else ''), p)
                hit = next((r for _, r in ref if r in shown), None)
                if order <= 4 and hit:
                    ck.ob('acceptance', answered(prog, told, num, sorted(hit), 'o%s%d_' % (system, order)), 'identify/accepts/%s' % num,
                          'operations that are exactly those of group %s are not reported as that group' % num, p)
            B.limit = most
    ck.floor('groups tried', nums, 220)


class Enough(Exception):
    """more comparisons than groups that match nothing can need"""


def presented(prog, p, sp, system, order, n):
    """the groups with which operations that match nothing are compared, each a set of operations"""
    log, free = [], []

    def differs(eng, st, args, dty, site):
        if len(log) > max(6 * order * n, 2500):
            raise Enough()
        log.append([eng.deep(st, a) for a in args[:2]])
        free.append(all(B.vars[v][0] == 'at' and B.vars[v][2] in ('exhausted', 'alt') for v in B.support(st.pc)))
        return [(st, FALSE)]
    e = Engine(prog, contracts={sp: differs}, opaque_statics=False)
    e.max_unroll = 5000
    ops = Seq([(None, op_value(prog, 'o%d' % i)) for i in range(order)], 'vec')
    g = fields(prog, space_group(prog))
    g['operations'] = ops
    try:
        e.analyse(p, args=[Agg('adt', 'spacegroup::SpaceGroup', 0, [g[k] for k in prog.adts['spacegroup::SpaceGroup']['variants'][0]['fields']]), system, TOL3])
    except (Undecided, RecursionError, Enough):
        return None
    got = []
    for pair in log:
        c = [plain_op(prog, x) for x in pair]
        if (c[0] is None) == (c[1] is None):
            return None
        got.append(c[0] or c[1])
    if not got or not all(free):
        return None
    for size in (order, len(got) // n):
        if size and len(got) % size == 0:
            out = [frozenset(got[i:i + size]) for i in range(0, len(got), size)]
            if all(len(s) == size for s in out) or size != order and len({len(s) for s in out}) == 1:
                return out
    return None


def reported(prog, p, sp, system, order, tag):
    """conditions of each report in terms of which operation found equals which tabulated one"""
    e = Engine(prog, contracts={sp: lambda eng, st, args, dty, site: [(st, batom('same_op', tuple(eng.deep(st, a) for a in args[:2])))]}, opaque_statics=False)
    e.max_unroll = 5000
    g = fields(prog, space_group(prog))
    g['operations'] = Seq([(None, op_value(prog, tag + str(i))) for i in range(order)], 'vec')
    try:
        return e.analyse(p, args=[Agg('adt', 'spacegroup::SpaceGroup', 0, [g[k] for k in prog.adts['spacegroup::SpaceGroup']['variants'][0]['fields']]), system, TOL3])
    except (Undecided, RecursionError):
        return None


def answered(prog, told, num, ops, tag):
    """whether the number can be reported for these operations; None if that is not known"""
    if told is None:
        return None
    for st, r in told:
        if not isinstance(r, Agg) or r.variant == 1 and not (len(r.f) == 1 and isinstance(r.f[0], Agg) and len(r.f[0].f) == 2
                                                             and isinstance(r.f[0].f[0], Num) and r.f[0].f[0].op == 'c'):
            return None
    mine = {vkey(op_value(prog, tag + str(i))): op for i, op in enumerate(ops)}
    todo, seen = [st.pc for st, r in told if r.variant == 1 and r.f[0].f[0].a == num], set()
    while todo:
        n = todo.pop()
        if n == 1:
            return True
        if n == 0 or n in seen:
            continue
        seen.add(n)
        v, lo, hi = B.nodes[n]
        d = B.vars[v]
        if d[0] != 'at' or d[2] not in ('same_op', 'exhausted', 'alt'):
            return None
        if d[2] != 'same_op':
            todo += [lo, hi]
            continue
        x, y = d[1] if vkey(d[1][0]) in mine else d[1][::-1]
        q = plain_op(prog, y)
        if vkey(x) not in mine or q is None:
            return None
        todo.append(hi if mine[vkey(x)] == q else lo)
    return False


def plain_op(prog, v):
    if not isinstance(v, Agg) or v.name != OP:
        return None
    f = fields(prog, v)
    R, t = f.get('rotation'), f.get('translation')
    if not isinstance(R, Mat) or not isinstance(t, Mat) or any(not isinstance(x, Num) or x.op != 'c' for x in list(R.e) + list(t.e)):
        return None
    return (tuple(tuple(R.at(i, j).a for j in range(3)) for i in range(3)), tuple(t.e[i].a % 1 for i in range(3)))


def permuted(op, q):
    r, t = op[0], op[1]
    return tuple(tuple(r[q[i]][q[j]] for j in range(3)) for i in range(3)), tuple(t[q[i]] for i in range(3))


def settled(ops):
    """the operations as a set, if there is one translation to each rotation"""
    if any(len(ts) != 1 for ts in ops.values()) or any(x != int(x) for r in ops for row in r for x in row):
        return None
    return frozenset((r, tuple(x % 1 for x in next(iter(ts)))) for r, ts in ops.items())


def candidate(ck, num, symb, p):
    """the table entry whose number is reported"""
    es = [x for x in parts(num) if isinstance(x, Opq) and x.name == '.0' and isinstance(x.args[0], Opq) and x.args[0].name == 'elem']
    if len({x.key() for x in es}) != 1 or not (isinstance(num, Num) and num.op == 'a' and len(num.a.args) == 1):
        other = isinstance(num, Num) and (num.op == 'c' or len({x.key() for x in es}) == 1 and num.op != 'a')
        ck.ob('lookup', False if other else None, 'identify/number', 'the number is not that of a table entry', p)
        return None
    cand = es[0].args[0]
    ck.ob('lookup', num.a.args[0].key() == es[0].key() or None, 'identify/number', 'the number is computed from the table entry in a way not recognised', p)
    inner = unwrapped(cand.args[0])
    outer = unwrapped(inner[0]) if inner else None
    if not inner or not outer:
        ck.ob('lookup', None, 'identify/entry', 'the candidate groups are not looked up in a recognised way')
    else:
        ck.ob('lookup', is_table(outer[0], 'SG_NUM_TO_FULL_MATRICES'), 'identify/table', 'the candidates do not come from the table of full operation lists', p)
        ck.ob('lookup', isinstance(outer[1], Opq) and outer[1].name == 'system' and not outer[1].args, 'identify/system',
              'the candidates are not those of the lattice system given', p)
        k = inner[1]
        islen = isinstance(k, Num) and k.op == 'a' and k.a.name == 'len' and k.a.args == (('ops', 'o'),)
        ck.ob('lookup', islen, 'identify/order', 'the candidates are not those with as many operations as were found', p)
    sy = unwrapped(symb)
    if sy is None:
        # through a conversion such as to_string
        q = [x for x in parts(symb) if unwrapped(x) is not None and is_table(unwrapped(x)[0], 'SG_NUM_TO_SYMBOL')]
        sy = unwrapped(q[0]) if len(q) == 1 else None
    if sy is None:
        ck.ob('lookup', None, 'identify/symbol', 'symbol without a summary')
    else:
        ck.ob('lookup', is_table(sy[0], 'SG_NUM_TO_SYMBOL') and vkey(sy[1]) == vkey(num), 'identify/symbol', 'the symbol is not that of the number reported', p)
    return cand


# ---------------------------------------------------------------- the query

STEPS = ('Reducer::find_primitive_cell', 'Reducer::niggli_reduce', 'Reducer::delaunay_reduce', 'SymmetryAnalyzer::conventional_transformation_matrix',
         'SymmetryAnalyzer::primitive_transformation_matrix', 'Structure::apply_transformation', 'SymmetryAnalyzer::get_primitive_space_group_ops',
         'SpaceGroup::from_generators', 'SymmetryAnalyzer::identify_space_group', 'SpaceGroup::apply_transformation', 'BravaisType::lattice_system')


class Pipeline:
    """summary of a function made of the library's steps, each step replaced by a symbol for its result; equal arguments give equal results"""

    def __init__(self, prog, ck, fn='SymmetryAnalyzer::get_space_group_info', args=None):
        self.prog, self.ck = prog, ck
        self.ids = {}
        self.calls = []
        self.p = fpath(prog, ck, fn)
        con = {}
        for s in STEPS:
            q = fpath(prog, ck if s != 'Reducer::delaunay_reduce' else None, s)
            if q:
                con[q] = self.step(s.split('::')[1] if s != 'SpaceGroup::apply_transformation' else 'move_group', q)
        self.S = coherent(prog)[STRUCT](None, 's', ())
        self.rets, self.e = summary(ck, prog, self.p, args or [None, self.S], contracts=con)

    def ident(self, *vals):
        k = tuple(vkey(v) for v in vals)
        return self.ids.setdefault(k, len(self.ids))

    def structure(self, name, i):
        return coherent(self.prog)[STRUCT](None, 's', (name, i))

    def step(self, name, path):
        prog = self.prog

        def contract(eng, st, args, dty, site):
            vals = [eng.deep(st, a) for a in args]
            i = self.ident(name, *vals)
            rec = {'name': name, 'id': i, 'args': vals, 'pc': st.pc, 'site': site}
            if name in ('find_primitive_cell', 'niggli_reduce', 'delaunay_reduce'):
                out = self.structure(name, i)
            elif name == 'conventional_transformation_matrix':
                out = tup(Mat(3, 3, [sym('TC', (i, const(a), const(b))) for b in range(3) for a in range(3)]), sym('char', (i,), 'int'))
            elif name == 'primitive_transformation_matrix':
                out = tup(Mat(3, 3, [sym('TP', (i, const(a), const(b))) for b in range(3) for a in range(3)]), Opq('bravais', (i,)))
            elif name == 'apply_transformation':
                S, T = vals[0], vals[1]
                if not isinstance(S, Agg) or not isinstance(T, Mat):
                    return None
                new = fields(prog, self.structure(name, i))
                new['lattice'] = matmul(fields(prog, S)['lattice'], T)
                out = Agg('adt', STRUCT, 0, [new[k] for k in prog.adts[STRUCT]['variants'][0]['fields']])
            elif name == 'get_primitive_space_group_ops':
                out = ops_list(prog, 'gen%d' % i)
            elif name == 'from_generators':
                out = space_group(prog, 'grp%d' % i)
            elif name == 'identify_space_group':
                out = eng.fresh(dty, 'identified', (i,))
            elif name == 'lattice_system':
                out = Opq('system', (vals[0],))
            else:
                out = space_group(prog, 'moved%d' % i)
            rec['ret'] = out
            self.calls.append(rec)
            if name in ('apply_transformation', 'move_group'):
                if not isinstance(args[0], Ptr):
                    return None
                st = st.copy()
                eng.write(st, args[0], out)
                return [(st, UNIT)]
            return [(st, out)]
        return contract

    def of(self, name, v):
        """the calls of a step whose result is this value"""
        k = vkey(v)
        return [c for c in self.calls if c['name'] == name and vkey(c['ret']) == k]

    def result(self):
        """(condition, number, symbol, group) of every result"""
        for st, r in self.rets:
            if isinstance(r, Agg) and r.kind == 'tuple' and len(r.f) == 3:
                yield st.pc, r.f[0], r.f[1], r.f[2]
            else:
                self.ck.ob('result', None, 'query', 'result without a summary')

    def identified(self):
        ck = self.ck
        n = 0
        for pc, num, symb, grp in self.result():
            ids = {}
            for x in list(parts(num)) + list(parts(symb)):
                if isinstance(x, Opq) and x.name == 'identified':
                    ids[x.args[0]] = x
            n += 1
            if not ids:
                ck.ob('query', False, 'query/number', 'number and symbol do not come from the identification of the group', self.p)
                continue
            for what, v, k in (('number', num, '.0'), ('symbol', symb, '.1')):
                names = path_to(v, 'identified')
                plain = bool(names) and names[0].endswith(k) and set(names[1:-1]) <= {'unwrap', 'as1', 'of', '.0'}
                default = any(x.startswith('unwrap_or') for x in names or ())
                ck.ob('query', True if plain and len(ids) == 1 else False if default or (plain is False and names and names[0][-2:] in ('.0', '.1')) else None,
                      'query/' + what, 'the %s is not the unwrapped result of the identification' % what, self.p)
            for i, x in ids.items():
                call = [c for c in self.calls if c['name'] == 'identify_space_group' and c['id'] == i][0]
                refuses = [v for v in B.support(pc) if B.vars[v][0] == 'at' and B.vars[v][2] == 'is_none' and vkey(B.vars[v][1][0]) == vkey(x)]
                ck.ob('query', bool(refuses) and implies(pc, B.mk(refuses[0], 1, 0)), 'query/refuses', 'a result is returned although no group was identified', self.p)
                g, sy = call['args'][0], call['args'][1]
                made = self.of('from_generators', g)
                ck.ob('query', bool(made) and bool(self.of('get_primitive_space_group_ops', made[0]['args'][0])) or (None if not made else False), 'query/operations',
                      'the group identified is not generated by the operations found', self.p)
                okb = isinstance(sy, Opq) and sy.name == 'system' and len(sy.args) == 1
                found = self.of('get_primitive_space_group_ops', made[0]['args'][0]) if made else []
                if okb and found:
                    ck.ob('query', vkey(sy.args[0]) == vkey(found[0]['args'][2]), 'query/system', 'the lattice system is not that of the Bravais type of the cell', self.p)
                else:
                    ck.ob('query', False if isinstance(sy, Agg) else None, 'query/system', 'the lattice system is not that of the Bravais type of the cell', self.p)
        ck.floor('query results', n, 1)


# ---------------------------------------------------------------- C17

def chain(pl, S):
    """which steps lead to this structure: list of (step, call), latest first; ends with the input"""
    out = []
    prog = pl.prog
    for _ in range(12):
        if vkey(fields(prog, S)['lattice']) == vkey(fields(prog, pl.S)['lattice']):
            return out, True
        c = [c for c in pl.calls if c['name'] in ('find_primitive_cell', 'niggli_reduce', 'delaunay_reduce', 'apply_transformation') and vkey(c['ret']) == vkey(S)]
        if not c:
            return out, False
        out.append(c[0])
        S = c[0]['args'][0 if c[0]['name'] == 'apply_transformation' else 1]
        if not isinstance(S, Agg):
            return out, False
    return out, False


def c17(prog):
    ck = Check('C17')
    pl = Pipeline(prog, ck)
    n = 0
    if pl.rets is not None:
        for pc, num, symb, grp in pl.result():
            moved = pl.of('move_group', grp)
            if not moved:
                src = pl.of('from_generators', grp)
                ck.ob('axes', False if src else None, 'back/applied', 'the operations reported were not carried back to the axes of the input', pl.p)
                continue
            if len(moved) != 1:
                ck.ob('axes', None, 'back/applied', 'several ways to the reported operations')
                continue
            ck.ob('axes', implies(pc, moved[0]['pc']), 'back/applied', '', pl.p)
            T = moved[0]['args'][1]
            steps = [T]
            g = moved[0]['args'][0]
            while pl.of('move_group', g):
                c = pl.of('move_group', g)[0]
                steps.insert(0, c['args'][1])
                g = c['args'][0]
            made = pl.of('from_generators', g)
            found = pl.of('get_primitive_space_group_ops', made[0]['args'][0]) if made else []
            if not found:
                ck.ob('axes', None, 'back/operations', 'the group carried back is not recognised as the one that was found')
                continue
            n += 1
            Sf = found[0]['args'][1]
            ids = [x for x in parts(num) if isinstance(x, Opq) and x.name == 'identified']
            if ids:
                call = [c for c in pl.calls if c['name'] == 'identify_space_group' and c['id'] == ids[0].args[0]][0]
                ck.ob('group', vkey(call['args'][0]) == vkey(g), 'back/same-group', 'number and symbol belong to another group than the operations reported', pl.p)
            else:
                ck.ob('group', None, 'back/same-group', 'number without a summary')
            Lf, Li = fields(prog, Sf)['lattice'], fields(prog, pl.S)['lattice']
            for sd in range(3):
                rnd = random.Random(seed() * 97 + sd)

                def asg(name, args, rnd=rnd, memo={}):
                    if name in ('s.L', 'TC', 'TP'):
                        k = (sd, name, tuple(args))
                        if k not in memo:
                            memo[k] = D(rnd.randint(-40, 40)) / 8 + (6 if args[-1] == args[-2] else 0)
                        return memo[k]
                    if 'rank' in name:
                        return D(3)
                    return None
                ev = Ev(asg, seed=sd)
                try:
                    lf, li = ([[ev.num(m.at(i, j)) for j in range(3)] for i in range(3)] for m in (Lf, Li))
                    tot = None
                    for q in steps:
                        t = [[ev.num(q.at(i, j)) for j in range(3)] for i in range(3)]
                        tot = t if tot is None else mul(tot, t)
                    got = mul(lf, tot)
                    err = max(abs(got[i][j] - li[i][j]) / (1 + abs(li[i][j])) for i in range(3) for j in range(3))
                    ck.ob('axes', err < D(10) ** (-9 if ev.approx else -20), 'back/composite',
                          'the matrix that carries the operations back is not the composite of all changes of axes: the cell of the operations times it is not the input cell', pl.p)
                except Undecided as ex:
                    ck.ob('axes', None, 'back/composite', str(ex)[:200])
            ch, whole = chain(pl, Sf)
            names = [c['name'] for c in ch][::-1]
            if not whole:
                ck.ob('steps', None, 'steps', 'the steps to the standardised cell are not recognised')
                continue
            std = names == ['find_primitive_cell', 'niggli_reduce', 'apply_transformation', 'apply_transformation']
            ck.ob('steps', std if names else False, 'steps/order', 'the operations are not found in the standardised primitive cell: steps %s' % ', '.join(names), pl.p)
            if not std:
                continue
            prim, nig, conv, pri = ch[::-1]
            tc = [c for c in pl.calls if c['name'] == 'conventional_transformation_matrix' and vkey(c['ret'].f[0]) == vkey(conv['args'][1])]
            ck.ob('steps', len(tc) > 0 and vkey(tc[0]['args'][1]) == vkey(nig['ret']), 'steps/conventional',
                  'the transformation to the conventional cell is not the one of the reduced cell', pl.p)
            tp = [c for c in pl.calls if c['name'] == 'primitive_transformation_matrix' and vkey(c['ret'].f[0]) == vkey(pri['args'][1])]
            ck.ob('steps', len(tp) > 0 and len(tc) > 0 and vkey(tp[0]['args'][1]) == vkey(tc[0]['ret'].f[1]), 'steps/primitive',
                  'the transformation to the primitive setting is not the one of the lattice character', pl.p)
            if tp:
                ck.ob('steps', vkey(found[0]['args'][2]) == vkey(tp[0]['ret'].f[1]), 'steps/bravais', 'the operations are searched for another Bravais type', pl.p)
    ck.floor('reported groups', n, 1)
    return ck.finish('bounded', 'summary of get_space_group_info with every step replaced by a symbol: the group returned is the group identified, carried by a matrix T; at sample points '
                     'the cell in which the operations were found times T is the input cell; that cell is reached by primitive, Niggli, conventional and primitive-setting '
                     'steps, each with the matrix computed for the cell before it', TRUST, ['results of the steps: C06, C12, C14, C15, C16, C29, C31, C32'])


# ---------------------------------------------------------------- C29

PG = 'pointgroup::PointGroup'


class Search:
    """summary of the search for symmetry operations; the holohedry, its change of axes and the element tally are symbols"""

    def __init__(self, prog, ck):
        self.prog, self.ck = prog, ck
        self.calls = {'number': [], 'axes': []}
        self.S = coherent(prog)[STRUCT](None, 's', ())
        self.bravais = Opq('bravais', ())
        self.p = fpath(prog, ck, 'SymmetryAnalyzer::get_primitive_space_group_ops')
        con = {}
        for name, f in (('PointGroup::from_number', self.number), ('PointGroup::apply_transformation', self.axes), ('Structure::get_min_element', self.tally),
                        ('BravaisType::centering', self.centering), ('utils::normalize_frac_vectors', fold_contract)):
            q = fpath(prog, ck, name)
            if q:
                con[q] = f
        self.rets, self.e = summary(ck, prog, self.p, [None, self.S, self.bravais], contracts=con)
        self.loops = {}
        if self.e is not None:
            for k, ls in self.e.loops.items():
                self.loops[k] = ls[-1]

    def group(self, name):
        v = {'symbol': Opq('symbol', (name,)), 'operations': rot_list(name), 'generators': rot_list(name + 'gen')}
        return Agg('adt', PG, 0, [v[k] for k in self.prog.adts[PG]['variants'][0]['fields']])

    def number(self, eng, st, args, dty, site):
        self.calls['number'].append((st.pc, eng.deep(st, args[0])))
        return [(st, self.group('h0'))]

    def axes(self, eng, st, args, dty, site):
        if not isinstance(args[0], Ptr):
            return None
        self.calls['axes'].append((st.pc, eng.deep(st, args[0]), eng.deep(st, args[1])))
        st = st.copy()
        eng.write(st, args[0], self.group('h'))
        return [(st, UNIT)]

    def tally(self, eng, st, args, dty, site):
        if vkey(eng.deep(st, args[0])) != vkey(self.S):
            return None
        return [(st, eng.fresh(dty, 'tally', ()))]

    def centering(self, eng, st, args, dty, site):
        return [(st, Opq('centering', (eng.deep(st, args[0]),)))]

    def loop_of(self, idx):
        """the loop an index of a list element runs in"""
        b = base_index(idx)
        if isinstance(b, Num) and b.op == 'a' and b.a.name == '#g':
            return self.loops.get((b.a.args[0], b.a.args[1]))
        return None


def base_index(i):
    while isinstance(i, Num) and i.op == 'a' and i.a.name in ('inst', 'perm'):
        i = i.a.args[0] if i.a.name == 'inst' else i.a.args[-1]
    return i


def tally_role(v):
    """('first' | 'count', element) when the number is an entry of the element tally"""
    while isinstance(v, Num) and v.op == 'a' and v.a.name == 'of' and len(v.a.args) == 1:
        v = v.a.args[0]
    if not isinstance(v, Opq):
        return None
    kinds = {'tally.1': 'first', 'tally.2': 'count'}
    if v.name == 'elem' and isinstance(v.args[0], Opq) and v.args[0].name == 'values' and isinstance(v.args[0].args[0], Opq) and v.args[0].args[0].name in kinds:
        return kinds[v.args[0].args[0].name], v
    if v.name == '.1' and isinstance(v.args[0], Opq) and v.args[0].name == 'elem' and isinstance(v.args[0].args[0], Opq):
        c = v.args[0].args[0].name
        return (kinds[c], v.args[0]) if c in kinds else None
    q = unwrapped(v)
    if q and isinstance(q[0], Opq) and q[0].name in kinds:
        k = q[1]
        while isinstance(k, Opq) and k.name == 'of' and len(k.args) == 1:
            k = k.args[0]
        if isinstance(k, Opq) and k.name == '.0' and isinstance(k.args[0], Opq) and k.args[0].name == 'elem':
            return kinds[q[0].name], k.args[0]
    return None


class Domain:
    """the sites an index runs over: all of one element, all sites, or something else"""

    def __init__(self, s, idx):
        self.kind = None          # 'element', 'all', 'less', None (not recognised)
        self.ele = None
        self.why = ''
        self.loop = lp = s.loop_of(idx)
        if lp is None or lp['src'] is None:
            return
        it = lp['src']['it']
        if dropping(it):
            self.kind, self.why = 'less', 'sites are left out (%s)' % ', '.join(dropping(it))
            return
        if lp['src']['shape'] == ('sites', 's'):
            self.kind = 'all'
        elif it.kind == 'range':
            lo, hi = it.a[0], it.a[1]
            r0, r1 = tally_role(lo), tally_role(hi - lo) if isinstance(hi, Num) and isinstance(lo, Num) else None
            if r0 and r1 and r0[0] == 'first' and r1[0] == 'count':
                if vkey(r0[1]) == vkey(r1[1]):
                    self.kind, self.ele = 'element', r0[1]
                else:
                    self.kind, self.why = 'less', 'first index and number of sites belong to different elements'
            elif vkey(lo) == vkey(ZERO) and vkey(hi) == vkey(sym('len', (('sites', 's'),), 'int')):
                self.kind = 'all'
            elif isinstance(hi, Num) and isinstance(lo, Num) and all(tally_role(num_of_atom(a)) or a.name in ('#g', 'inst') or a.name == 'len' and a.args == (('sites', 's'),)
                                                                     for x in (lo, hi) for a in toplevel_atoms(x)):
                self.kind, self.why = 'less', 'the range of indices is not that of the sites of the element'


def complete(s, lp, pushes_every, allowed=None):
    """does the loop treat every element?  (verdict, reason); allowed(pc) tells whether leaving an element out is right"""
    src = lp['src']
    for t, x in lp['exits']:
        if src['ex'] > 1 and not implies(x.pc, src['ex']):
            return False, 'the loop can stop before all were seen'
    if dropping(src['it']):
        return False, 'elements are left out (%s)' % ', '.join(dropping(src['it']))
    if pushes_every is not None:
        per = lp['pushes'].get(pushes_every, {})
        for i, b in enumerate(lp['backs']):
            if not per.get(i):
                left = b.pc
                if allowed is not None and allowed(left):
                    continue
                cond = [v for v in B.support(left) if v not in B.support(lp['entry'].pc)]
                known = all(B.vars[v][0] in ('lt', 'eq') or B.vars[v][2] in ('exhausted', 'alt', 'eq') for v in cond)
                return (False if known else None), 'elements can be passed over'
    return True, ''


def c29(prog):
    ck = Check('C29')
    s = Search(prog, ck)
    n = 0
    if s.rets is not None:
        holohedry(ck, s)
        seen = set()
        for st, r in s.rets:
            if not isinstance(r, Seq):
                ck.ob('operation', None, 'search', 'result without a summary')
                continue
            for g in r.segs:
                for op in (g.alts if isinstance(g, Many) else (g[1],)):
                    if not (isinstance(op, Agg) and op.name == OP):
                        ck.ob('operation', None, 'search', 'operation without a summary')
                        continue
                    if vkey(op) in seen:
                        continue
                    seen.add(vkey(op))
                    n += 1
                    operation(ck, s, op)
        acceptance(ck, s)
    ck.floor('kinds of operations found', n, 1)
    # the sites are grouped by element when the search starts
    pl = Pipeline(prog, ck)
    if pl.rets is not None:
        m = 0
        for c in pl.calls:
            if c['name'] == 'get_primitive_space_group_ops':
                m += 1
                made = pl.of('apply_transformation', c['args'][1])
                ck.ob('grouped', True if made else None if not isinstance(c['args'][1], Agg) else False, 'grouped',
                      'the structure searched does not come from apply_transformation, which sorts the sites by element', pl.p)
        ck.floor('searches', m, 1)
    q = fpath(prog, ck, 'Structure::apply_transformation')
    fp, nc = fpath(prog, None, 'utils::normalize_frac_vectors'), fpath(prog, None, 'Structure::normalize_coords')
    rets, e = summary(ck, prog, q, [s.S, mat('T'), sym('tol')], contracts={fp: fold_contract} if fp else {})
    if rets is not None:
        done = set()
        for st, r in rets:
            R = st.mem.get(('A', 0))
            if not isinstance(R, Agg) or vkey(R) in done:
                continue
            done.add(vkey(R))
            try:
                recs = records(prog, R)
                sorted_by_species(ck, e, recs, 'grouped', q)
            except Undecided as ex:
                sp = fields(prog, R)['species']
                built = isinstance(sp, Seq) and len(sp.segs) == 1 and isinstance(sp.segs[0], Many) and grown_in(sp.segs[0].shape) is not None
                ck.ob('sorted', False if built else None, 'grouped/sorted', 'the sites are not sorted by species' if built else str(ex), q)
        ck.floor('transformed structures', len(done), 1)
    return ck.finish('bounded', 'summary of get_primitive_space_group_ops: each operation is (R, t) with R an operation of the holohedry of the Bravais type in primitive axes and, at sample '
                     'points, t = f_b - R f_a up to a lattice translation for two sites a, b that run over the same element\'s index range completely; it is pushed only '
                     'under a condition that is false whenever its count is below the number of sites; counts start at one and grow by one only where the translation is '
                     'within 2 dtol of the entry; the structure searched is one sorted by species', TRUST,
                     ['element tally: C27', 'folding replaced by its specification (C10)', 'sampled identity'])


def holohedry(ck, s):
    nums, axes = s.calls['number'], s.calls['axes']
    ck.floor('holohedries', len(nums), 1)
    for pc, v in nums:
        while isinstance(v, Num) and v.op == 'a' and v.a.name == 'of':
            v = v.a.args[0]
        q = unwrapped(v)
        if q is None:
            ck.ob('holohedry', False if isinstance(v, Num) and v.op == 'c' else None, 'holohedry/number', 'the point group is not looked up for the Bravais type', s.p)
        else:
            ck.ob('holohedry', is_table(q[0], 'BRAVAIS_TO_HOLOHEDRY_NUM') and vkey(q[1]) == vkey(s.bravais), 'holohedry/number',
                  'the point group is not the holohedry of the Bravais type', s.p)
    for pc, g, T in axes:
        rots = fields(s.prog, g)['operations'] if isinstance(g, Agg) else None
        ck.ob('holohedry', isinstance(rots, Seq) and vkey(rots) == vkey(rot_list('h0')) or None, 'holohedry/source', 'another group is carried to the primitive axes')
        if not isinstance(T, Mat):
            ck.ob('holohedry', None, 'holohedry/axes', 'matrix without a summary')
            continue
        srcs = {}
        for a in (a for x in T.e for a in all_atoms(x)):
            if a.name == 'of_m':
                srcs[vkey(a.args[0])] = a.args[0]
        if len(srcs) != 1:
            ck.ob('holohedry', None, 'holohedry/axes', 'matrix of unknown origin')
            continue
        src = list(srcs.values())[0]
        q = unwrapped(src)
        okk = q is not None and is_table(q[0], 'CENTERING_TO_PRIM_TRANS') and vkey(q[1]) == vkey(Opq('centering', (s.bravais,)))
        ck.ob('holohedry', okk if q is not None else None, 'holohedry/centering', 'the change of axes is not that of the centering of the Bravais type', s.p)
        for sd in range(3):
            rnd = random.Random(seed() * 31 + sd)
            M = [[D(rnd.randint(-3, 3)) for _ in range(4)] for _ in range(4)]
            M[3][3] = D(rnd.choice((2, 3)))
            ev = Ev(lambda nm, a: M[int(a[-2])][int(a[-1])] if nm == 'of_m' else None, seed=sd)
            try:
                ok = all(abs(ev.num(T.at(i, j)) - M[i][j] / M[3][3]) < D(10) ** -20 for i in range(3) for j in range(3))
                ck.ob('holohedry', ok, 'holohedry/axes', 'the matrix that carries the holohedry to primitive axes is not the tabulated one', s.p)
            except Undecided as ex:
                ck.ob('holohedry', None, 'holohedry/axes', str(ex)[:200])


def operation(ck, s, op):
    d = fields(s.prog, op)
    rot, tra = d['rotation'], d['translation']
    names = {a.name for a in atoms_of(rot) if a.name.endswith('.R')}
    ri = indices(rot, names)
    if names != {'h.R'} or len(ri) != 1:
        ck.ob('operation', False if names and names != {'h.R'} else None, 'operation/rotation', 'the rotation is not an operation of the holohedry in primitive axes', s.p)
        return
    i = list(ri.values())[0]
    ck.ob('operation', all(rot.at(a, b).h == sym('h.R', (i, const(a), const(b)), 'int').h for a in range(3) for b in range(3)), 'operation/rotation',
          'the rotation is not an operation of the holohedry unchanged', s.p)
    ti = indices(tra, {'h.R'})
    ck.ob('operation', {vkey(x) for x in ti.values()} == {vkey(i)} if ti else False if any(a.name == 's.f' for a in atoms_of(tra)) else None, 'operation/own-translation',
          'the translation was found for another rotation than the one it is paired with', s.p)
    sites = indices(tra, {'s.f'})
    if len(sites) != 2:
        plain = all(a.name in ('h.R', 's.f', 's.L', 'fold', 'trunc', 'sqrt', 'inst', 'perm') or a.name[0] == '#' or a.name.endswith('.dtol') for a in atoms_of(tra))
        ck.ob('operation', False if len(sites) < 2 and plain else None, 'operation/sites', 'the translation is not the difference of a site and a rotated site (%d sites read)' % len(sites), s.p)
        return
    idx = list(sites.values())
    good = None
    for a, b in ((0, 1), (1, 0)):
        verdict = True
        for sd in range(4):
            rnd = random.Random(seed() * 17 + sd)
            R = [[D(x) for x in r] for r in rnd.choice(([[0, -1, 0], [1, -1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, 1, 0], [-1, 1, -1]],
                                                        [[0, 1, 0], [-1, 0, 0], [0, 0, -1]]))]
            Lv = [[D(rnd.randint(-40, 40)) / 8 + (6 if x == y else 0) for y in range(3)] for x in range(3)]

            def asg(name, args, R=R, Lv=Lv, sd=sd):
                if name == 'h.R':
                    return R[int(args[-2])][int(args[-1])]
                if name == 's.L':
                    return Lv[int(args[0])][int(args[1])]
                if name == 's.f':
                    return unit_random(sd, name, args)
                if name.endswith('dtol'):
                    return D(1) / 100
                if name.startswith('#') or name == 'inst':
                    return D(int(unit_random(sd, name, args) * 10 ** 6))
                return folded(name, args)
            ev = Ev(asg, seed=sd)
            try:
                f = [[[ev.num(sym('s.f', (x, const(c))))] for c in range(3)] for x in (idx[a], idx[b])]
                t = [ev.num(x) for x in tra.e]
                rf = mul(R, f[0])
                dev = [t[c] - f[1][c][0] + rf[c][0] for c in range(3)]
                if any(abs(x - x.to_integral_value()) > D('2.5e-9') for x in dev):
                    verdict = False
            except Undecided as ex:
                verdict = None
        if verdict is None or verdict is True:
            good = verdict
            fr, to = idx[a], idx[b]
            break
        good = False
    ck.ob('operation', good, 'operation/translation', 'the translation does not carry a rotated site onto a site', s.p)
    if not good:
        return
    A, Bd = Domain(s, fr), Domain(s, to)
    for what, dm in (('rotated site', A), ('target site', Bd)):
        if dm.kind == 'less':
            ck.ob('sites', False, 'sites/' + what.split()[0], '%s: %s' % (what, dm.why), s.p)
        elif dm.kind is None:
            ck.ob('sites', None, 'sites/' + what.split()[0], '%s: range of sites not recognised' % what)
    if A.kind not in ('element', 'all') or Bd.kind not in ('element', 'all'):
        return
    both = {vkey(base_index(fr)), vkey(base_index(to))}

    def species(pc):
        """variables saying that the two sites have the same species"""
        out = []
        for v in B.support(pc):
            x = B.vars[v]
            if x[0] == 'at' and x[2] == 'eq' and len(x[1]) == 2 and all(isinstance(y, Opq) and y.name == 's.s' for y in x[1]):
                if {vkey(base_index(y.args[0])) for y in x[1]} == both:
                    out.append(v)
        return out
    inner = A.loop if grows(A.loop) and any(not isinstance(q, Many) for q in grows(A.loop)) else Bd.loop
    if A.kind == 'element' and Bd.kind == 'element':
        ck.ob('sites', vkey(A.ele) == vkey(Bd.ele), 'sites/same-element', 'a rotated site is compared with sites of another element', s.p)
    else:
        eq = set()
        conds = []
        for key, per in inner['pushes'].items():
            for bi, gs in per.items():
                if any(not isinstance(q, Many) and vec_of_sites(q[1]) for q in gs):
                    conds.append(inner['backs'][bi].pc)
        ok = bool(conds) and all(any(implies(pc, B.mk(v, 0, 1)) for v in species(pc)) for pc in conds)
        ck.ob('sites', ok or (None if any(opaque(pc, inner) for pc in conds) else False), 'sites/same-element', 'a rotated site is compared with sites of another element', s.p)
    for name, lp in (('rotated', A.loop), ('target', Bd.loop)):
        key = next((k for k, per in lp['pushes'].items() if any(site_push(q) for gs in per.values() for q in gs)), None)
        if key is None:
            ck.ob('sites', None, 'sites/all-' + name, 'the list of candidate translations is built in a way not recognised')
            continue
        v, why = complete(s, lp, key, lambda pc: any(implies(pc, B.mk(x, 1, 0)) for x in species(pc)))
        ck.ob('sites', v, 'sites/all-' + name, 'not all sites of the element take part: ' + why, s.p)
    for dm in (A, Bd):
        if dm.kind == 'element':
            ei = dm.ele.args[1] if len(dm.ele.args) > 1 else None
            lp = s.loop_of(ei)
            if lp is None or lp['src'] is None:
                ck.ob('sites', None, 'sites/all-elements', 'the loop over the elements is not recognised')
                continue
            key = next((k for k, per in lp['pushes'].items() if any(site_push(q) for gs in per.values() for q in gs)), None)
            v, why = complete(s, lp, key) if key else (None, '')
            ck.ob('sites', v, 'sites/all-elements', 'not all elements take part: ' + why, s.p)


def opaque(pc, lp):
    base = set(B.support(lp['entry'].pc))
    return any(B.vars[v][0] == 'at' and B.vars[v][2] not in ('exhausted', 'alt', 'eq') for v in B.support(pc) if v not in base)


def grows(lp):
    return [q for per in lp['pushes'].values() for gs in per.values() for q in gs if site_push(q)]


def vec_of_sites(v):
    return isinstance(v, Mat) and v.r == 3 and v.c == 1 and any(a.name == 's.f' for a in atoms_of(v))


def site_push(q):
    return any(vec_of_sites(x) for x in (q.alts if isinstance(q, Many) else (q[1],)))


def counters(s):
    """lists of counted translations: (loop, address, path, shape, leaves)"""
    for k, lp in s.loops.items():
        for (a, path, sh), leaves in lp['elmu'].items():
            if leaves:
                yield lp, a, path, sh, leaves


def acceptance(ck, s):
    prog = s.prog
    cs = list(counters(s))
    mus = {}
    for lp, a, path, sh, leaves in cs:
        mus[(repr(lp['key']), repr(a + ('of', repr(path), repr(sorted(leaves, key=repr)[0]))))] = (lp, a, path, leaves)
    n = 0
    for k, lp in s.loops.items():
        for key, per in lp['pushes'].items():
            for bi, gs in per.items():
                if not any(not isinstance(q, Many) and isinstance(q[1], Agg) and q[1].name == OP for q in gs):
                    continue
                n += 1
                pc = lp['backs'][bi].pc
                found = {}
                for v in B.support(pc):
                    d = B.vars[v]
                    if d[0] in ('lt', 'eq'):
                        for a in all_atoms(d[1]):
                            if a.name == 'mu' and (a.args[0], a.args[1]) in mus:
                                found[(a.args[0], a.args[1])] = a
                if len(found) != 1:
                    base = set(B.support(lp['entry'].pc))
                    own = [v for v in B.support(pc) if v not in base]
                    plain = all(B.vars[v][0] == 'at' and B.vars[v][2] in ('exhausted', 'alt') or
                                B.vars[v][0] in ('lt', 'eq') and not any(a.name in ('mu', 'len') for a in all_atoms(B.vars[v][1])) for v in own)
                    ck.ob('count', False if plain and cs else None, 'count/accepted', 'an operation is accepted without its count being compared with the number of sites', s.p)
                    continue
                cell = list(found)[0]
                bad = unk = short = False
                for N in (1, 2, 3, 5, 8, 12, 40):
                    for c in sorted({0, 1, N // 2, N - 2, N - 1, N}):
                        if c < 0 or c > N:
                            continue
                        ev = Ev(lambda nm, args, N=N, c=c: D(N) if nm == 'len' else D(c) if nm == 'mu' else D(0) if nm[0] == '#' or nm in ('inst', 'perm')
                                else D(c) if nm == 'of' else None, seed=1, strict=True)
                        q = pc
                        for v in list(B.support(q)):
                            d = B.vars[v]
                            if d[0] in ('lt', 'eq') and any(a.name == 'mu' for a in all_atoms(d[1])):
                                ats = all_atoms(d[1])
                                # (the number of sites of one element can be smaller than the number of sites)
                                if any(a.name == 'mu' and (a.args[0], a.args[1]) != cell for a in ats) or \
                                        any(a.name == 'of' and (tally_role(num_of_atom(a)) or ('',))[0] != 'count' for a in ats) or \
                                        any(a.name == 'len' and a.args != (('sites', 's'),) for a in ats):
                                    unk = True
                                    continue
                                try:
                                    q = B.restrict(q, v, 1 if ev.var(v) else 0)
                                except Undecided:
                                    unk = True
                        if c < N and q != 0:
                            bad = True
                        if c == N and q == 0:
                            short = True
                ck.ob('count', None if unk else not bad, 'count/accepted', 'an operation is accepted although its translation was not counted once for every site', s.p)
                ck.ob('count', None if unk else not short, 'count/complete', 'an operation confirmed by every site is not accepted', s.p)
                counting(ck, s, *mus[cell])
    if not n:
        ck.ob('count', None, 'count/accepted', 'the operations are put together in a way not recognised')
    ck.floor('acceptances', n, 1)


def counting(ck, s, lp, a, path, leaves):
    """entries start at one and are raised by one for a match"""
    leaf = sorted(leaves, key=repr)
    if len(leaf) != 1:
        ck.ob('count', None, 'count/leaf', 'more than the count of an entry is rewritten')
        return
    leaf = leaf[0]
    e = s.e
    tolname = lambda nm, args: nm.endswith('.dtol')
    n = 0
    for bi, b in enumerate(lp['backs']):
        new = [q for q in lp['pushes'].get((a, path), {}).get(bi, [])]
        v = e.read(b, a, path) if path else b.mem[a]
        over = [(g, i, x) for g in v.segs if isinstance(g, Many) for i, x in g.over]
        n += 1
        if len(new) + len(over) != 1:
            ck.ob('count', False, 'count/once', 'a candidate translation is counted %s' % ('more than once' if len(new) + len(over) else 'nowhere'), s.p)
            continue
        if new:
            if isinstance(new[0], Many):
                ck.ob('count', None, 'count/first', 'entry without a summary')
                continue
            c = e.read_in(new[0][1], leaf)
            ck.ob('count', vkey(c) == vkey(ONE), 'count/first', 'a new entry does not start with a count of one', s.p)
            continue
        g, i, x = over[0]
        olds = Many(g.shape, g.idxs, g.alts).inst(i)
        if len(olds) != 1:
            ck.ob('count', None, 'count/step', 'entry without a summary')
            continue
        c = e.read_in(x, leaf) - e.read_in(olds[0], leaf)
        ck.ob('count', vkey(c) == vkey(ONE), 'count/step', 'a match does not raise the count by one', s.p)
        # only for a match: the distance between the candidate and that entry
        pc = expand_quants(e, b.pc)
        ds = distances(pc, tolname)
        cover = 0
        for d in ds:
            if d.factor <= 2:
                cover = B.OR(cover, d.within)
        if implies(pc, cover):
            ck.ob('count', True, 'count/match', 'matches within %s dtol' % sorted({str(d.factor) for d in ds}), s.p)
        else:
            base = set(B.support(lp['entry'].pc))
            unknown = any(B.vars[v][0] == 'at' and B.vars[v][2] not in ('exhausted', 'alt') or
                          B.vars[v][0] != 'at' and not any(a2.name == 'sqrt' for a2 in all_atoms(B.vars[v][1])) for v in B.support(pc) if v not in base)
            ck.ob('count', None if unknown else False, 'count/match', 'a count is raised without the translation being within twice the tolerance of the entry', s.p)
            continue
        root = [d for d in ds if d.factor <= 2][0].root
        match_distance(ck, s, lp, root, olds[0])
    for t, x in lp['exits']:
        ck.ob('count', lp['src']['ex'] > 1 and implies(x.pc, lp['src']['ex']), 'count/all', 'counting stops before all candidate translations were seen', s.p)
    if n < 2:
        ck.ob('count', None, 'count/ways', 'the translations are counted in a way not recognised')


def match_distance(ck, s, lp, root, entry):
    """the distance compared is that between the candidate and the entry, folded, in the cell of the structure"""
    cand = None
    it = lp['src']['it']
    el = s.e.models.plain(it.a[0].segs[0]).inst(lp['src']['idx']) if it.kind == 'seq' and isinstance(it.a[0], Seq) and len(it.a[0].segs) == 1 else []
    vecs = [x for x in el if isinstance(x, Mat) and x.r == 3]
    ent = [x for x in (entry.f if isinstance(entry, Agg) else (entry,)) if isinstance(x, Mat) and x.r == 3]
    if len(vecs) != 1 or len(ent) != 1:
        ck.ob('count', None, 'count/distance', 'candidate or entry without a summary')
        return
    cand, ent = vecs[0], ent[0]
    for sd in range(3):
        rnd = random.Random(seed() * 13 + sd)
        Lv = [[D(rnd.randint(-16, 16)) / 8 + (6 if x == y else 0) for y in range(3)] for x in range(3)]

        def asg(name, args, Lv=Lv, sd=sd):
            if name == 'h.R':
                return D([[0, -1, 0], [1, -1, 0], [0, 0, 1]][int(args[-2])][int(args[-1])])
            if name == 's.L':
                return Lv[int(args[0])][int(args[1])]
            if name == 's.f':
                return unit_random(sd, name, args)
            if name.endswith('dtol'):
                return D(1) / 100
            if name.startswith('#') or name == 'inst':
                return D(int(unit_random(sd, name, args) * 10 ** 6))
            return folded(name, args)
        ev = Ev(asg, seed=sd)
        try:
            c = [ev.num(x) for x in cand.e]
            t = [ev.num(x) for x in ent.e]
            best = None
            for scale in (D(1), D(10) ** -9):
                dl = [x - y * scale for x, y in zip(c, t)]
                if is_image_distance(ev, root, Lv, dl):
                    best = True
            ck.ob('count', bool(best), 'count/distance', 'the distance that decides a match is not that between the candidate translation and the entry', s.p)
        except Undecided as ex:
            ck.ob('count', None, 'count/distance', str(ex)[:200])
    # translations that are equal up to a lattice translation and a fraction of the tolerance match
    ic, ie = list(indices(cand, {'s.f'}).values()), list(indices(ent, {'s.f'}).values())
    if len(ic) != 2 or len(ie) != 2:
        ck.ob('count', None, 'count/periodic', 'candidate or entry without a summary')
        return
    for sg in (1, -1):
        Lv = [[D(5), D(1), D(0)], [D(0), D(6), D(1) / 2], [D(0), D(0), D(7)]]
        tol = [D(1) / 100 / sum(Lv[i][k] ** 2 for i in range(3)).sqrt() for k in range(3)]
        where = {}

        def asg(name, args, sg=sg):
            if name == 'h.R':
                return D(1) if args[-1] == args[-2] else D(0)
            if name == 's.L':
                return Lv[int(args[0])][int(args[1])]
            if name == 's.f':
                k = int(args[1])
                return D(sg) * tol[k] * where.get(args[0], D(0))
            if name.endswith('dtol'):
                return D(1) / 100
            if name.startswith('#') or name == 'inst':
                return D(int(unit_random(7, name, args) * 10 ** 6))
            return folded(name, args)
        ev = Ev(asg, seed=1)
        try:
            # the rotated sites are at the origin, the target sites around plus or minus the tolerance
            for ii, val in ((ic, D('1.2')), (ie, D('0.8'))):
                t = [i for i in ii if target(ev, s, cand if ii is ic else ent, i)]
                if len(t) != 1:
                    raise Undecided('target site not recognised')
                where[ev.num(t[0])] = val
            ev = Ev(asg, seed=1)
            got = ev.num(root)
            d = [D('0.4') * x for x in tol]
            want = sum(sum(Lv[i][k] * d[k] for k in range(3)) ** 2 for i in range(3)).sqrt()
            ck.ob('count', abs(got - want) < D(10) ** -7, 'count/periodic', 'two translations within 0.4 dtol of each other up to a lattice translation are at distance %s '
                  'instead of %s' % (round(got, 5), round(want, 5)), s.p)
        except Undecided as ex:
            ck.ob('count', None, 'count/periodic', str(ex)[:200])


def target(ev, s, t, i):
    """is the site the one that is not rotated: does it enter the translation without a rotation?"""
    def at(val):
        def asg(name, args):
            if name == 'h.R':
                return D(0)
            if name == 's.f':
                return val if args[0] == here else D(0)
            if name == 's.L':
                return D(6) if args[0] == args[1] else D(0)
            if name.endswith('dtol'):
                return D(1) / 100
            if name.startswith('#') or name == 'inst':
                return D(int(unit_random(7, name, args) * 10 ** 6))
            return folded(name, args)
        return Ev(asg, seed=1)
    here = None
    here = at(D(0)).num(i)
    return at(D('0.25')).num(t.e[0]) != at(D(0)).num(t.e[0])
