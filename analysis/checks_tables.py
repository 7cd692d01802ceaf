"""Table properties: the lookup tables are evaluated by constant propagation over their initialisers' MIR and
compared with reference crystallography."""
import random
import os
from fractions import Fraction as F

from common import Check
from engine import Engine, Agg, Mat, Map, Many, Seq, Str, Num, Undecided, const, sym as symbol
from terms import vkey
from hall import HALL, expand, mm, mv, det, inv, tr, I3
import crystal as X

TRUST_TABLE = ['rustc nightly MIR of /repo (driver/mirdump.rs)', 'constant propagation engine (analysis/engine.py) and its '
               'models of std/nalgebra constructors', 'reference data in analysis/hall.py and analysis/crystal.py']


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)


def find_static(prog, name):
    c = [b['path'] for b in prog.bodies.values() if b['kind'] == 'static' and b['path'].split('::')[-1] == name]
    return c[0] if c else None


def variant(prog, v):
    return prog.adts[v.name]['variants'][v.variant]['name']


def plainv(prog, v):
    """concrete value -> Python value, or Undecided"""
    if isinstance(v, Num):
        c = v.cval()
        if c is None:
            raise Undecided('not constant')
        return int(c) if c.denominator == 1 else c
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Mat):
        return tuple(tuple(plainv(prog, v.at(i, j)) for j in range(v.c)) for i in range(v.r))
    if isinstance(v, Seq):
        if not v.known():
            raise Undecided('unknown length')
        return [plainv(prog, x) for x in v.items()]
    if isinstance(v, Map):
        if v.grown:
            raise Undecided('map with unknown content')
        return {plainv(prog, k): plainv(prog, x) for k, x in v.items}
    if isinstance(v, Agg):
        if v.kind == 'adt':
            nm = variant(prog, v)
            if not v.f:
                return nm
            return (nm,) + tuple(plainv(prog, x) for x in v.f)
        return tuple(plainv(prog, x) for x in v.f)
    raise Undecided('not a table value: %s' % type(v).__name__)


class Tables:
    def __init__(self, prog, ck):
        self.prog, self.ck = prog, ck
        self.eng = Engine(prog, opaque_statics=False)

    def get(self, name):
        path = find_static(self.prog, name)
        if path is None:
            self.ck.missing('static ' + name)
            return None
        try:
            n0 = len(self.eng.dupkeys)
            v = plainv(self.prog, self.eng.static_value(path))
            for d in self.eng.dupkeys[n0:]:
                self.ck.fail('duplicate-key/%s/%s' % (name, plain_key(self.prog, d)),
                             'table %s lists the same key twice; the later entry silently replaces the earlier' % name,
                             name, 'table')
            self.ck.analysed.add(path)
            return v
        except Undecided as e:
            self.ck.ob('table-evaluates', None, name, str(e))
            return None


def plain_key(prog, d):
    try:
        return str(plainv(prog, d[-1] if isinstance(d, (tuple, list)) else d))
    except Exception:
        return '?'


def decode(code):
    r, t = code % 19683, code // 19683
    d = []
    for _ in range(9):
        d.append(r % 3 - 1)
        r //= 3
    d.reverse()
    u = []
    for _ in range(3):
        u.append((0, 2, 3, 4, 6, 8, 9, 10)[t % 8])
        t //= 8
    u.reverse()
    return (tuple(d[0:3]), tuple(d[3:6]), tuple(d[6:9])), tuple(F(x, 12) for x in u), t == 0


def prim_matrices(tabs):
    t = tabs.get('CENTERING_TO_PRIM_TRANS')
    if t is None:
        return None
    out = {}
    for k, m in t.items():
        w = m[3][3]
        if w == 0:
            continue
        out[k] = tuple(tuple(F(m[i][j], w) for j in range(3)) for i in range(3))
    return out


def in_primitive(ops, P):
    Pi = inv(P)
    out = {}
    for r, t in ops:
        R = mm(mm(Pi, r), P)
        v = tuple(x % 1 for x in mv(Pi, tuple(F(x, 12) for x in t)))
        out.setdefault(R, set()).add(v)
    return out


def c01(prog):
    ck = Check('C01')
    tabs = Tables(prog, ck)
    table = tabs.get('SG_NUM_TO_FULL_MATRICES')
    prim = prim_matrices(tabs)
    seen = {}
    nops = 0
    if table is not None and prim is not None:
        for system, orders in table.items():
            for order, groups in orders.items():
                for num, codes in groups.items():
                    seen.setdefault(num, []).append((system, order, codes))
        for num in sorted(seen):
            ck.ob('number-known', 1 <= num <= 230, 'sg/%s/number' % num, 'entry under a number outside 1-230')
        for num in range(1, 231):
            ent = seen.get(num, [])
            if not ck.ob('listed-once', len(ent) == 1, 'sg/%d/listed' % num,
                         'space group %d is listed %d times' % (num, len(ent)), 'SG_NUM_TO_FULL_MATRICES'):
                if not ent:
                    continue
            system, order, codes = ent[0]
            where = 'SG_NUM_TO_FULL_MATRICES, number %d' % num
            ck.ob('system', system == X.sg_system(num), 'sg/%d/system' % num,
                  'group %d is filed under %s but belongs to %s' % (num, system, X.sg_system(num)), where)
            ck.ob('order', order == len(codes), 'sg/%d/order' % num,
                  'group %d is filed under order %d but has %d operations' % (num, order, len(codes)), where)
            ops = []
            for c in codes:
                r, t, ok = decode(c)
                nops += 1
                ck.ob('op-decodes', ok and det(r) in (1, -1), 'sg/%d/op/%s' % (num, c),
                      'code %s of group %d is not an operation with a unimodular rotation' % (c, num), where)
                ops.append((r, t))
            rots = [o[0] for o in ops]
            ck.ob('no-duplicate', len(set(rots)) == len(rots), 'sg/%d/duplicate' % num,
                  'group %d contains two operations with the same rotation in a primitive cell' % num, where)
            d = dict(ops)
            bad = None
            for r1, t1 in ops:
                for r2, t2 in ops:
                    r3 = mm(r1, r2)
                    t3 = tuple((a + b) % 1 for a, b in zip(mv(r1, t2), t1))
                    if r3 not in d or tuple(x % 1 for x in d[r3]) != t3:
                        bad = (r1, r2)
                        break
                if bad:
                    break
            ck.ob('closed', bad is None, 'sg/%d/closure' % num,
                  'the operations of group %d are not closed under composition, e.g. %s * %s' % ((num,) + (bad or ('', ''))), where)
            # comparison with the International Tables group, in the primitive axes of its centering
            found = None
            diff = None
            for h in HALL[num]:
                lat, cent, full = expand(h)
                if lat not in prim or det(prim[lat]) == 0:
                    continue
                ref = in_primitive(full, prim[lat])
                miss = [(r, t) for r, t in ops if r not in ref or tuple(x % 1 for x in t) not in ref[r]]
                if len(ops) == len(ref) and not miss:
                    found = h
                    break
                if diff is None or len(miss) < len(diff):
                    diff = miss
            ck.ob('equals-ITA-group', found is not None, 'sg/%d/group' % num,
                  'operations of group %d are not those of %s: %d operations (of %d) are foreign, first %s'
                  % (num, HALL[num][0], len(diff or []), len(ops), (diff or ['count differs'])[0]), where)
    ck.floor('space-group entries', len(seen), 230)
    ck.extra['operations_decoded'] = nops
    ck.extra['exhaustive'] = True
    return ck.finish('proof', 'every entry of the operation table equals, operation by operation, the group expanded from the Hall '
                     'symbol of its number, in the library\'s primitive axes; filed once, under its system and order',
                     TRUST_TABLE)


def c02(prog):
    ck = Check('C02')
    tabs = Tables(prog, ck)
    sym = tabs.get('SG_NUM_TO_SYMBOL')
    if sym is not None:
        for k in sym:
            ck.ob('number-known', 1 <= k <= 230, 'symbol/%s/number' % k, 'symbol for a number outside 1-230')
        for n in range(1, 231):
            s = sym.get(n)
            if s is None:
                ck.ob('symbol', False, 'symbol/%d/missing' % n, 'number %d has no symbol' % n, 'SG_NUM_TO_SYMBOL')
                continue
            ck.ob('symbol', s in X.hm_spellings(n), 'symbol/%d' % n,
                  'number %d is called %r, expected one of %s' % (n, s, sorted(X.hm_spellings(n))), 'SG_NUM_TO_SYMBOL')
            lat = expand(HALL[n][0])[0]
            ck.ob('lattice-letter', s[:1] == lat, 'symbol/%d/letter' % n,
                  'symbol %r of %d does not start with its centering %s' % (s, n, lat), 'SG_NUM_TO_SYMBOL')
        ck.ob('distinct', len(set(sym.values())) == len(sym), 'symbol/distinct', 'two numbers share a symbol')
        ck.floor('symbols', len(sym), 230)
    ck.extra['exhaustive'] = True
    return ck.finish('proof', 'every number 1-230 maps to an accepted spelling of its Hermann-Mauguin symbol (short symbol, full '
                     'monoclinic symbol, origin/axes suffix where International Tables list two)', TRUST_TABLE)


def mats(v):
    return [tuple(tuple(int(x) for x in r) for r in m) for m in v]


def c03(prog):
    ck = Check('C03')
    tabs = Tables(prog, ck)
    sym = tabs.get('PG_NUM_TO_SYMBOL')
    gen = tabs.get('PG_NUM_TO_GENERATOR_MATRICES')
    classes = {}
    if sym is not None and gen is not None:
        for n in range(1, 33):
            s = sym.get(n)
            g = gen.get(n)
            if not ck.ob('listed', s is not None and g is not None, 'pg/%d/listed' % n, 'point group %d is missing' % n):
                continue
            G = []
            for c in g:
                r, t, ok = decode(c)
                ck.ob('generator', c < 19683 and det(r) in (1, -1), 'pg/%d/generator/%s' % (n, c),
                      'generator code %s of point group %d is not a unimodular matrix' % (c, n), 'PG_NUM_TO_GENERATOR_MATRICES')
                G.append(r)
            ops = X.generate(G)
            ok = ops is not None and X.signature(ops) == X.class_signature(s)
            ck.ob('class', ok, 'pg/%d/class' % n,
                  'generators of point group %d (%s) generate %s' % (n, s, 'an infinite group' if ops is None else X.signature(ops)),
                  'PG_NUM_TO_GENERATOR_MATRICES')
            classes.setdefault(X.class_signature(s), []).append(n)
        for k in set(sym) | set(gen):
            ck.ob('number', 1 <= k <= 32, 'pg/%s/number' % k, 'entry outside 1-32')
        for c, ns in classes.items():
            ck.ob('distinct', len(ns) == 1 and c is not None, 'pg/%s/distinct' % '-'.join(map(str, ns)),
                  'point groups %s name the same class or an unknown one' % ns)
        # the constructor: constant propagation of from_number(n)
        path = next((b['path'] for b in prog.bodies.values() if b['path'].endswith('PointGroup::from_number')), None)
        if path is None:
            ck.missing('PointGroup::from_number')
        else:
            # the closure of the generators is the subject of C31: here, a symbol for its result
            given = []

            def closure(eng, st, args, dty, site):
                given.append(eng.deep(st, args[0]))
                return [(st, closed)]
            i = symbol('#i', ('closure',), 'int')
            closed = Seq([Many(('closure',), (i,), (Mat(3, 3, [symbol('closure.R', (i, const(k % 3), const(k // 3)), 'int') for k in range(9)]),))], 'vec')
            close = next((b['path'] for b in prog.bodies.values() if b['path'].endswith('PointGroup::generate_operations')), None)
            for n in range(1, 33):
                if n not in gen or n not in sym:
                    continue
                try:
                    del given[:]
                    e = Engine(prog, contracts={close: closure} if close else {}, opaque_statics=False, max_states=100000)
                    e.max_unroll = 5000
                    rets = e.analyse(path, args=[const(n)])
                    ck.used(e)
                    flds = prog.adts['pointgroup::PointGroup']['variants'][0]['fields']
                    vals = [dict(zip(flds, r.f)) for st, r in rets]
                    if len(vals) != 1:
                        raise Undecided('%d results' % len(vals))
                    v = vals[0]
                    G = [decode(c)[0] for c in gen[n]]
                    ck.ob('constructor-symbol', plainv(prog, v['symbol']) == sym[n], 'pg/%d/from_number/symbol' % n,
                          'from_number(%d) reports symbol %s' % (n, v['symbol']), path)
                    ck.ob('constructor-generators', sorted(mats(plainv(prog, v['generators']))) == sorted(G),
                          'pg/%d/from_number/generators' % n, 'from_number(%d) does not return the stored generators' % n, path)
                    ops = v['operations']
                    if vkey(ops) == vkey(closed) and len(given) == 1:
                        start = mats(plainv(prog, given[0]))
                        ck.ob('constructor-operations', bool(start) and X.generate(start) == X.generate(G), 'pg/%d/from_number/operations' % n,
                              'the operations of from_number(%d) are not those generated by the stored generators' % n, path)
                        continue
                    ops = mats(plainv(prog, ops))
                    ref = X.generate(G) or set()
                    ck.ob('constructor-operations', set(ops) == ref and len(ops) == len(ref), 'pg/%d/from_number/operations' % n,
                          'from_number(%d) returns %d operations, the group has %d' % (n, len(ops), len(ref)), path)
                except Undecided as ex:
                    ck.ob('constructor', None, 'pg/%d/from_number' % n, str(ex))
                except Exception as ex:
                    ck.ob('constructor', None, 'pg/%d/from_number' % n, 'analysis failed: %r' % ex)
        ck.floor('point groups', len(gen), 32)
    ck.extra['exhaustive'] = True
    return ck.finish('proof', 'the stored generators of each of the 32 numbers generate a finite group whose operation-type counts are '
                     'those of the class its symbol names, and the constructor returns exactly them', TRUST_TABLE)


BRAVAIS = 'aP mP mC mI oP oC oI oF tP tI hR hP cP cI cF'.split()


def c04(prog):
    ck = Check('C04')
    tabs = Tables(prog, ck)
    hol = tabs.get('BRAVAIS_TO_HOLOHEDRY_NUM')
    gen = tabs.get('PG_NUM_TO_GENERATOR_MATRICES')
    rnd = random.Random(seed())
    if hol is not None and gen is not None:
        for b in BRAVAIS:
            n = hol.get(b)
            if not ck.ob('listed', n in gen, 'holohedry/%s/listed' % b, 'no holohedry for %s' % b):
                continue
            ops = X.generate([decode(c)[0] for c in gen[n]]) or set()
            for rep in range(3):
                ref = X.holohedry(b, rnd)
                miss, extra = ref - ops, ops - ref
                ck.ob('is-lattice-symmetry', not miss and not extra, 'holohedry/%s/group' % b,
                      'point group %d used for %s lacks %d and adds %d rotations of the lattice' % (n, b, len(miss), len(extra)),
                      'BRAVAIS_TO_HOLOHEDRY_NUM')
            sysm = X.system_of_bravais(b)
            ck.ob('order', len(ops) == {'Triclinic': 2, 'Monoclinic': 4, 'Orthorhombic': 8, 'Tetragonal': 16, 'Rhombohedral': 12,
                                        'Hexagonal': 24, 'Cubic': 48}[sysm], 'holohedry/%s/order' % b,
                  'holohedry of %s has %d operations' % (b, len(ops)))
        ck.floor('Bravais lattices', len(hol), 14)
    ck.extra['exhaustive'] = True
    return ck.finish('bounded', 'group generated from the holohedry entry = all integer matrices preserving generic metrics and the centering '
                     'of the conventional cell (a polynomial identity in the metric, tested at random rational metrics)', TRUST_TABLE,
                     ['entries of a holohedral rotation in conventional axes lie in {-1,0,1}'])


def conv_results(prog, ck, fn='conventional_transformation_matrix'):
    """constant (matrix, character) pairs returned by the analyzer for each character"""
    path = next((b['path'] for b in prog.bodies.values() if b['path'].endswith('::' + fn)), None)
    if path is None:
        ck.missing(fn)
        return None
    return path


def c05(prog):
    ck = Check('C05')
    tabs = Tables(prog, ck)
    rnd = random.Random(seed())
    brav = tabs.get('LATTICE_CHAR_TO_BRAVAIS')
    table = tabs.get('LATTICE_CHAR_TO_CONV_TRANS')
    got = {}
    path = conv_results(prog, ck)
    if path is not None:
        try:
            e = Engine(prog, opaque_statics=False, special=coherent(prog))
            for st, r in e.analyse(path):
                m, c = r.f
                got.setdefault(plainv(prog, c), set()).add(plainv(prog, m))
            ck.used(e)
        except Exception as ex:
            ck.ob('returned-matrix', None, 'conventional_transformation_matrix', repr(ex))
            got = {}
    for n in range(1, 45):
        b = X.BRAVAIS_OF_CHAR[n]
        cand = got.get(n)
        if cand is None and table is not None and n in table:
            cand = {tr(table[n])}
        if not ck.ob('listed', bool(cand), 'character/%d/listed' % n, 'no conventional transformation for character %d' % n,
                     'LATTICE_CHAR_TO_CONV_TRANS'):
            continue
        for m in cand:
            M = X.frac3(m)
            where = 'LATTICE_CHAR_TO_CONV_TRANS[%d]' % n
            d = det(M)
            cen = X.CENT[b[1]]
            ck.ob('determinant', d == 1 + len(cen), 'character/%d/determinant' % n,
                  'transformation of character %d has determinant %s, %s needs %d' % (n, d, b, 1 + len(cen)), where)
            if d == 0:
                continue
            pts = X.points_mod1(inv(M))
            want = {(F(0),) * 3} | {tuple(F(x) for x in c) for c in cen}
            ck.ob('centering', pts == want, 'character/%d/centering' % n,
                  'the lattice seen from the conventional axes of character %d is not %s-centred' % (n, b[1]), where)
            mem = X.char_members(n, rnd, 6)
            for t in mem:
                G = X.gram(*t)
                Gc = mm(mm(tr(M), G), M)
                why = X.conv_form(b, Gc)
                ck.ob('metric-form', why is None, 'character/%d/metric' % n,
                      'reduced metric %s of character %d becomes a cell that is not %s: %s' % ([str(x) for x in t], n, b, why), where)
    ck.floor('characters', len(got) or len(table or {}), 44)
    return ck.finish('bounded', 'for each character, the matrix that reaches the caller maps the character\'s parametric metric (tested as '
                     'polynomial identity at random exact members) to the form of its Bravais lattice; determinant and centering exact',
                     TRUST_TABLE)


def c07(prog):
    ck = Check('C07')
    tabs = Tables(prog, ck)
    prim = prim_matrices(tabs)
    table = tabs.get('CENTERING_TO_PRIM_TRANS')
    if table is not None:
        for k, m in table.items():
            ck.ob('denominator', m[3][3] != 0 and all(m[3][i] == 0 and m[i][3] == 0 for i in range(3)), 'centering/%s/encoding' % k,
                  'matrix of centering %s is not (3x3 numerator, denominator)' % k)

    def judge(kind, key, c, M, where):
        cen = X.CENT[c]
        want = {(F(0),) * 3} | {tuple(F(x) for x in v) for v in cen}
        d = det(M)
        ck.ob(kind + '-determinant', d == F(1, 1 + len(cen)), key + '/determinant',
              'matrix of centering %s has determinant %s, expected 1/%d' % (c, d, 1 + len(cen)), where)
        if d != 0:
            ck.ob(kind + '-lattice', X.points_mod1(M) == want and all(x.denominator == 1 for r in inv(M) for x in r), key + '/lattice',
                  'the columns for centering %s do not span the lattice with points %s' % (c, sorted(want)), where)
        if c == 'P':
            ck.ob(kind + '-identity', M == X.frac3(I3), key + '/identity', 'a primitive cell must be left alone', where)
    if prim is not None:
        for c in 'PABCIFR':
            if ck.ob('listed', c in prim, 'centering/%s/listed' % c, 'no matrix for centering %s' % c):
                judge('table', 'centering/%s' % c, c, prim[c], 'CENTERING_TO_PRIM_TRANS[%s]' % c)
        ck.floor('centerings', len(prim), 7)
    path = conv_results(prog, ck, 'primitive_transformation_matrix')
    ndone = 0
    if path is not None:
        for n in range(1, 45):
            try:
                e = Engine(prog, opaque_statics=False, special=coherent(prog))
                rets = e.analyse(path, args=[None, const(n)])
                ck.used(e)
                for st, r in rets:
                    m, bs = r.f
                    b = plainv(prog, bs)
                    c = X.BRAVAIS_OF_CHAR[n][1]
                    judge('use', 'character/%d' % n, c, X.frac3(plainv(prog, m)), 'primitive_transformation_matrix(%d)' % n)
                    ck.ob('use-bravais', b == X.BRAVAIS_OF_CHAR[n], 'character/%d/bravais' % n,
                          'primitive_transformation_matrix(%d) reports %s' % (n, b), path)
                    ndone += 1
            except Exception as ex:
                ck.ob('use', None, 'character/%d' % n, repr(ex)[:200])
    ck.extra['exhaustive'] = True
    return ck.finish('proof', 'the columns of each centering matrix, and of the matrix handed to the caller for each of the 44 characters, '
                     'span exactly the centred lattice with positive determinant 1/points', TRUST_TABLE)


def coherent(prog):
    from models import matmul
    from engine import sym, Many, Opq

    def structure(eng, name, args):
        L = Mat(3, 3, [sym(name + '.L', args + (const(i), const(j))) for j in range(3) for i in range(3)])
        i = sym('#i', ('sites', name) + args, 'int')
        shp = ('sites', name) + args
        f = Mat(3, 1, [sym(name + '.f', args + (i, const(k))) for k in range(3)])
        c = matmul(L, f)
        val = {'lattice': L, 'species': Seq([Many(shp, (i,), (Opq(name + '.s', args + (i,), 'std::string::String'),))]),
               'coords': Seq([Many(shp, (i,), (c,))]), 'frac_coords': Seq([Many(shp, (i,), (f,))])}
        flds = prog.adts['structure::Structure']['variants'][0]['fields']
        return Agg('adt', 'structure::Structure', 0, [val[k] for k in flds])
    return {'structure::Structure': structure}


def c08(prog):
    ck = Check('C08')
    names = {'BravaisType': BRAVAIS, 'LatticeSystem': ['Triclinic', 'Monoclinic', 'Orthorhombic', 'Tetragonal', 'Rhombohedral',
                                                        'Hexagonal', 'Cubic'], 'Centering': list('PABCIFR')}
    paths = {b['path']: b for b in prog.bodies.values()}

    def method(ty, trait, fn):
        for p, b in paths.items():
            if p.split('::')[-1] == fn and b['selfty'] and b['selfty'].split('::')[-1] == ty and (trait is None or (b['trait'] or '').rstrip('>').split('::')[-1].split('<')[0] == trait):
                return p
        return None

    def const_call(path, args, what):
        e = Engine(prog, opaque_statics=False)
        rets = e.analyse(path, args=args)
        ck.used(e)
        if len(rets) != 1:
            raise Undecided('%d results' % len(rets))
        return rets[0], e
    nvals = 0
    for ty, want in names.items():
        adt = next((k for k in prog.adts if k.split('::')[-1] == ty), None)
        if adt is None:
            ck.missing('enum ' + ty)
            continue
        vs = [v['name'] for v in prog.adts[adt]['variants']]
        ck.ob('variants', set(want) <= set(vs), 'enum/%s/variants' % ty, '%s lacks %s' % (ty, sorted(set(want) - set(vs))), adt)
        disp = method(ty, 'Display', 'fmt')
        if disp is None:
            ck.missing('Display for ' + ty)
            continue
        parse = method(ty, 'FromStr', 'from_str')
        if parse is None and ty != 'BravaisType':
            ck.missing('FromStr for ' + ty)
        printed = {}
        for i, nm in enumerate(vs):
            nvals += 1
            v = Agg('adt', adt, i, ())
            try:
                (st, r), e = const_call(disp, [v, Str('')], 'print')
                out = st.mem[('A', 1)]
                s = plainv(prog, out)
            except Exception as ex:
                ck.ob('prints', None, 'enum/%s/%s' % (ty, nm), repr(ex)[:150])
                continue
            printed.setdefault(s, []).append(nm)
            ck.ob('prints', s == nm, 'enum/%s/%s/print' % (ty, nm), '%s::%s prints as %r' % (ty, nm, s), disp)
            if parse is not None:
                try:
                    (st, r), e = const_call(parse, [Str(s)], 'parse')
                    w = plainv(prog, r)
                    ck.ob('round-trip', w == ('Ok', nm), 'enum/%s/%s/parse' % (ty, nm), '%r parses to %s, printed from %s::%s' % (s, w, ty, nm), parse)
                except Exception as ex:
                    ck.ob('round-trip', None, 'enum/%s/%s' % (ty, nm), repr(ex)[:150])
            if ty == 'BravaisType':
                for fn, exp in (('centering', nm[1]), ('lattice_system', X.system_of_bravais(nm))):
                    pth = method(ty, None, fn)
                    if pth is None:
                        ck.missing('BravaisType::' + fn)
                        continue
                    try:
                        (st, r), e = const_call(pth, [v], fn)
                        w = plainv(prog, r)
                        ck.ob(fn, w == exp, 'bravais/%s/%s' % (nm, fn), '%s::%s() is %s, the symbol denotes %s' % (nm, fn, w, exp), pth)
                    except Exception as ex:
                        ck.ob(fn, None, 'bravais/%s/%s' % (nm, fn), repr(ex)[:150])
        for s, l in printed.items():
            ck.ob('distinct', len(l) == 1, 'enum/%s/distinct/%s' % (ty, s), '%s print alike as %r' % (l, s), disp)
    tabs = Tables(prog, ck)
    brav = tabs.get('LATTICE_CHAR_TO_BRAVAIS')
    if brav is not None:
        for n in range(1, 45):
            ck.ob('character', brav.get(n) == X.BRAVAIS_OF_CHAR[n], 'character/%d/bravais' % n,
                  'character %d is assigned %s, International Tables: %s' % (n, brav.get(n), X.BRAVAIS_OF_CHAR[n]), 'LATTICE_CHAR_TO_BRAVAIS')
        for n in brav:
            ck.ob('character-number', 1 <= n <= 44, 'character/%s/number' % n, 'unknown character')
    ck.floor('enumeration values', nvals, 28)
    ck.extra['exhaustive'] = True
    return ck.finish('proof', 'constant propagation of print, parse, centering and lattice_system for every value of the three enumerations; '
                     'table of Bravais lattices per character compared entry by entry', TRUST_TABLE)
