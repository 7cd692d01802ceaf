"""Where values come from and go to: the Python functions, the element tally and the tolerances."""
import random
from decimal import Decimal as D

from common import Check
from engine import Engine, Agg, Mat, Map, Seq, Str, Num, Many, Opq, Undecided, const, sym
from terms import Bool, B, ZERO, ONE, TRUE, FALSE, vkey, batom, num_of_atom, replace_atom
from values import It, Ptr, UNIT, tup
from checks_tables import seed, coherent
from checks_algebra import TRUST, fpath, fields, summary, mat
from checks_reduce import short_contract, all_atoms, implies, STRUCT, fold_contract, folded, unit_random, toplevel_atoms, expand_quants
from checks_group import same_contract, product_contract, mul_paths, OP, TOL3, space_group, ops_list, dropping, atoms_of
from checks_query import Search, parts, Pipeline, complete, base_index
from evalf import Ev


# ---------------------------------------------------------------- C25

class Python:
    """summary of one Python function; the construction of the structure and the analysis are symbols"""

    ANALYSES = {'find_primitive': ('Reducer::find_primitive_cell', 'reducer'), 'niggli_reduce': ('Reducer::niggli_reduce', 'tol'),
                'get_space_group_info': ('SymmetryAnalyzer::get_space_group_info', 'analyzer'),
                'get_standard_conventional_structure': ('SymmetryAnalyzer::get_standard_conventional_structure', 'analyzer'),
                'get_standard_primitive_structure': ('SymmetryAnalyzer::get_standard_primitive_structure', 'analyzer')}

    def __init__(self, prog, ck, name):
        self.prog, self.ck, self.name = prog, ck, name
        self.news, self.calls = [], []
        self.p = name if any(b['path'] == name for b in prog.bodies.values()) else None
        if self.p is None:
            ck.missing(name)
            self.rets = None
            return
        new = fpath(prog, ck, 'Structure::new')
        target = fpath(prog, ck, self.ANALYSES[name][0])
        con = {}
        if new:
            con[new] = self.new
        for f, _ in self.ANALYSES.values():
            q = fpath(prog, None, f)
            if q:
                con[q] = self.analysis(f)
        i = sym('#i', ('sites', 's'), 'int')
        self.lattice = Seq([('one', sym('l', (const(k),))) for k in range(9)], 'vec')
        self.species = Seq([Many(('sites', 's'), (i,), (Opq('s.s', (i,), 'std::string::String'),))], 'vec')
        self.coords = Seq([Many(('sites', 's'), (i,), (Seq([('one', sym('s.f', (i, const(k)))) for k in range(3)], 'vec'),))], 'vec')
        self.cart = batom('cart', ())
        self.rest = [sym('arg%d' % k) for k in range(4, 4 + len(self.params(name)) - 4)]
        self.rets, self.e = summary(ck, prog, self.p, [self.lattice, self.species, self.coords, self.cart] + self.rest, contracts=con)

    def params(self, name):
        b = next(b for b in self.prog.bodies.values() if b['path'] == name)
        return range(b['body']['argc'])

    def new(self, eng, st, args, dty, site):
        self.news.append([eng.deep(st, a) for a in args] + [st.pc])
        return [(st, coherent(self.prog)[STRUCT](None, 'in', ()))]

    def analysis(self, f):
        def contract(eng, st, args, dty, site):
            self.calls.append((f, [eng.deep(st, a) for a in args], st.pc))
            if f.endswith('get_space_group_info'):
                return [(st, tup(sym('number', (), 'int'), Opq('symbol', (), 'std::string::String'), space_group(self.prog)))]
            return [(st, coherent(self.prog)[STRUCT](None, 'out', ()))]
        return contract


def c25(prog):
    ck = Check('C25')
    for name in Python.ANALYSES:
        py = Python(prog, ck, name)
        if py.rets is None:
            continue
        key = name
        # input
        ck.ob('input', len(py.news) >= 1 or None, key + '/structure', 'no structure is made from the arguments')
        for lat, sp, co, cart, pc in py.news:
            ok = None
            if isinstance(lat, Mat):
                ok = all(lat.e[k].h == sym('l', (const(k),)).h for k in range(9))
            ck.ob('input', ok, key + '/lattice', 'the lattice is not passed on column by column as it was given', py.p)
            ck.ob('input', same_list(sp, py.species, py.e), key + '/species', 'the species are not passed on as they were given', py.p)
            i = sym('#i', ('sites', 's'), 'int')
            want = Seq([Many(('sites', 's'), (i,), (Mat(3, 1, [sym('s.f', (i, const(k))) for k in range(3)]),))], 'vec')
            ck.ob('input', same_list(co, want, py.e), key + '/coords', 'the coordinates are not passed on as they were given', py.p)
            ck.ob('input', B.AND(pc, B.XOR(cart.n, py.cart.n)) == 0 if isinstance(cart, Bool) else None, key + '/kind', 'the kind of the coordinates (Cartesian or fractional) is not passed on', py.p)
        # analysis
        want, kind = Python.ANALYSES[name]
        mine = [c for c in py.calls if c[0] == want]
        others = [c for c in py.calls if c[0] != want]
        ck.ob('analysis', True if mine else False if others else None, key + '/analysis', 'the function does not call the analysis it is named after', py.p)
        S = coherent(prog)[STRUCT](None, 'in', ())
        for f, args, pc in mine:
            ck.ob('analysis', vkey(args[1]) == vkey(S), key + '/given-structure', 'the analysis does not get the structure made from the arguments', py.p)
            me = args[0]
            if kind == 'tol':
                ck.ob('tolerance', len(args) > 2 and vkey(args[2]) == vkey(py.rest[0]), key + '/tol', 'the tolerance given is not the one used', py.p)
            elif isinstance(me, Agg):
                d = fields(prog, me)
                for k, w in (('dtol', 0), ('atol', 1)):
                    ck.ob('tolerance', vkey(d[k]) == vkey(py.rest[w]), key + '/' + k, 'the %s used is not the %s argument' % (k, ('fifth', 'sixth')[w]), py.p)
            else:
                ck.ob('tolerance', None, key + '/tolerances', 'analyzer without a summary')
        # output
        n = 0
        for st, r in py.rets:
            if not (isinstance(r, Agg) and r.name.endswith('Result') and r.variant == 0):
                continue
            n += 1
            out = r.f[0]
            if not (isinstance(out, Agg) and len(out.f) == 3):
                ck.ob('output', None, key + '/output', 'result without a summary')
                continue
            if name == 'get_space_group_info':
                group_output(ck, prog, py, out)
            else:
                i = sym('#i', ('sites', 'out'), 'int')
                O = fields(prog, coherent(prog)[STRUCT](None, 'out', ()))
                lat = out.f[0]
                ok = None
                if isinstance(lat, Seq) and lat.known():
                    ok = len(lat.segs) == 9 and all(isinstance(x, Num) and x.h == y.h for x, y in zip(lat.items(), O['lattice'].e))
                ck.ob('output', ok, key + '/out-lattice', 'the lattice of the result is not returned in the layout in which lattices are accepted', py.p)
                ck.ob('output', same_list(out.f[1], O['species'], py.e), key + '/out-species', 'the species returned are not those of the result', py.p)
                want = Seq([Many(('sites', 'out'), (i,), (Seq([('one', sym('out.f', (i, const(k)))) for k in range(3)], 'vec'),))], 'vec')
                ck.ob('output', same_list(out.f[2], want, py.e), key + '/out-coords', 'the coordinates returned are not the fractional coordinates of the result', py.p)
        ck.ob('output', n > 0 or None, key + '/returns', 'no result')
    registration(ck, prog)
    return ck.finish('unbounded', 'summary of each Python function with the structure constructor and the analysis as symbols: constructor arguments, analyzer fields and returned lists '
                     'are compared as terms; summary of the module function: its success implies one add_function per name with the wrapper of the function of that name', TRUST,
                     ['argument extraction and wrappers generated by pyo3'])


def same_list(a, b, e):
    """do two list summaries describe the same list?  None when the first is not understood"""
    if not isinstance(a, Seq):
        return None
    if vkey(a) == vkey(b):
        return True
    if len(a.segs) != 1 or not isinstance(a.segs[0], Many):
        return False if all(not isinstance(g, Many) for g in a.segs) and a.segs else None
    g, h = a.segs[0], b.segs[0]
    if g.over or any('mu' == x.name for alt in g.alts for x in deep_opaque(alt)):
        return None
    x = sym('#t', (), 'int')
    va, vb = g.inst(x), h.inst(x)
    if g.shape != h.shape:
        return all_kept(e, g.shape) and None
    if len(va) != 1 or len(vb) != 1:
        return None
    return vkey(strip_kind(va[0])) == vkey(strip_kind(vb[0]))


def strip_kind(v):
    if isinstance(v, Seq):
        return Seq([g if isinstance(g, Many) else (g[0], strip_kind(g[1])) for g in v.segs], 'vec')
    return v


def deep_opaque(v):
    return [x.a if isinstance(x, Num) and x.op == 'a' else x for x in parts(v) if isinstance(x, Opq) or isinstance(x, Num) and x.op == 'a']


def group_output(ck, prog, py, out):
    key = py.name
    ck.ob('output', vkey(out.f[0]) == vkey(sym('number', (), 'int')), key + '/number', 'the number returned is not the one identified', py.p)
    ck.ob('output', vkey(out.f[1]) == vkey(Opq('symbol', (), 'std::string::String')), key + '/symbol', 'the symbol returned is not the one identified', py.p)
    ops = out.f[2]
    if not (isinstance(ops, Seq) and len(ops.segs) == 1 and isinstance(ops.segs[0], Many)):
        ck.ob('output', None, key + '/operations', 'operations without a summary')
        return
    g = ops.segs[0]
    ck.ob('output', all_kept(py.e, g.shape), key + '/all-operations', 'not every operation is returned once, in order', py.p)
    x = sym('#t', (), 'int')
    for el in g.inst(x):
        if not (isinstance(el, Agg) and len(el.f) == 2 and all(isinstance(q, Seq) and q.known() for q in el.f)):
            ck.ob('output', None, key + '/operations', 'operation without a summary')
            continue
        rot, tra = el.f[0].items(), el.f[1].items()
        ok = len(rot) == 9 and all(isinstance(rot[k], Num) and rot[k].h == sym('o.R', (x, const(k // 3), const(k % 3)), 'int').h for k in range(9))
        ck.ob('output', ok, key + '/rotations', 'the rotations are not returned row by row', py.p)
        ok = len(tra) == 3 and all(isinstance(tra[k], Num) and tra[k].h == sym('o.t', (x, const(k))).h for k in range(3))
        ck.ob('output', ok, key + '/translations', 'a rotation is not returned with its own translation', py.p)


def all_kept(e, shape):
    """is a list grown by a loop a full copy of what the loop runs over, in order?"""
    if isinstance(shape, tuple) and shape[0] in ('ops', 'sites'):
        return True
    if not (isinstance(shape, tuple) and shape[0] == 'grow'):
        return False if isinstance(shape, tuple) and shape[0] in ('perm', 'filtered', 'sorted') else None
    lp = next((l[-1] for k, l in e.loops.items() if repr(k) == shape[1]), None)
    if lp is None or lp['src'] is None:
        return None
    if backwards(lp['src']['it']):
        return False
    for key in lp['pushes']:
        ok, _ = complete(None, lp, key)
        if ok is False:
            return False
    return None


def backwards(it):
    n = 0
    while type(it).__name__ == 'It':
        n += it.kind == 'rev'
        it = next((x for x in it.a if type(x).__name__ == 'It'), None)
    return n % 2 == 1


def registration(ck, prog):
    p = next((b['path'] for b in prog.bodies.values() if b['path'] == 'crystsymm' and b['kind'] == 'fn'), None)
    if p is None:
        ck.missing('crystsymm')
        return
    rets, e = summary(ck, prog, p, [None, None])
    if rets is None:
        return
    for st, r in rets:
        if not (isinstance(r, Agg) and r.name.endswith('Result') and r.variant == 0):
            continue
        added = {}
        for v in B.support(st.pc):
            d = B.vars[v]
            if d[0] == 'at' and d[2] == 'is_none' and isinstance(d[1][0], Opq) and d[1][0].name.endswith('add_function') and implies(st.pc, B.mk(v, 1, 0)):
                names = [str(x.s if hasattr(x, 's') else x).rstrip('\x00') for x in strings(d[1][0])]
                fns = [x for x in opaque_names(d[1][0]) if '__pyfunction_' in x]
                for nm in names:
                    if nm:
                        added[nm] = fns
        for name in Python.ANALYSES:
            fns = added.get(name)
            ck.ob('module', fns is not None, 'module/' + name, 'the Python module does not offer %s' % name, p)
            if fns is not None:
                ck.ob('module', any(f.endswith('__pyfunction_' + name) for f in fns) or (None if not fns else False), 'module/%s/function' % name,
                      'the Python name %s stands for another function' % name, p)


def strings(v):
    return [x for x in parts_all(v) if isinstance(x, Str)]


def opaque_names(v):
    out = []
    for x in parts_all(v):
        out.append(str(getattr(x, 'name', '')))
        if type(x).__name__ not in ('Num', 'Opq', 'Agg', 'Seq', 'Str', 'Mat'):
            out.append(repr(x)[:200])
    return out


def parts_all(v):
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += list(x)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if isinstance(x, Num):
            if x.op == 'a':
                todo += list(x.a.args)
        elif hasattr(x, 'children'):
            todo += list(x.children())
        if isinstance(x, Opq):
            todo += list(x.args)


# ---------------------------------------------------------------- C27

class Tally:
    """names for the pieces of the element tally in a summary"""

    def __init__(self, prog, ck, fn):
        self.prog, self.ck = prog, ck
        self.p = fpath(prog, ck, fn)
        self.rets = self.e = None
        if self.p:
            self.rets, self.e = summary(ck, prog, self.p, [coherent(prog)[STRUCT](None, 's', ())])
        self.loops = {repr(k): l[-1] for k, l in self.e.loops.items()} if self.e else {}

    def site_loop(self, lp):
        """does the loop run over all sites, in order?"""
        if lp['src'] is None:
            return None
        ok, why = complete(self, lp, None)
        if ok is False:
            return False
        return True if lp['src']['shape'] == ('sites', 's') or whole_range(lp['src']['it']) else None

    def maps(self):
        """the maps filled by loops over the sites: (loop, address, value written in each pass, key written)"""
        for lp in self.loops.values():
            for (a, path), per in lp['pushes'].items():
                v = lp['header'].mem.get(a)
                if path or not isinstance(v, Map):
                    continue
                yield lp, a, v, per


def whole_range(it):
    return type(it).__name__ == 'It' and it.kind == 'range' and vkey(it.a[0]) == vkey(ZERO) and vkey(it.a[1]) == vkey(sym('len', (('sites', 's'),), 'int'))


def element_of(v):
    """index of the site whose element this is"""
    while isinstance(v, Opq) and v.name in ('of', 'clone', 'to_string') and len(v.args) == 1:
        v = v.args[0]
    return v.args[0] if isinstance(v, Opq) and v.name == 's.s' else None


def counted(v):
    """the element whose final count a number is (last value written to the tally of counts)"""
    if isinstance(v, Num):
        d = v - ONE
        if d.op == 'a' and d.a.name == 'entry_or' and vkey(d.a.args[0]) == vkey(ZERO):
            return d.a.args[1]
    return None


def fill(ck, t, key, fn):
    """every site is counted; returns the kinds of maps found"""
    kinds = {}
    for lp, a, m, per in t.maps():
        vals = []
        for i, b in enumerate(lp['backs']):
            got = per.get(i, [])
            if len(got) != 1 or isinstance(got[0], Many) or not isinstance(got[0][1], Agg) or len(got[0][1].f) != 2:
                vals.append(None)
            else:
                vals.append(got[0][1].f)
        if not vals or vals[0] is None and all(v is None for v in vals):
            continue
        known = [v for v in vals if v is not None]
        if not all(element_of(k) is not None for k, _ in known):
            continue
        own = all(vkey(element_of(k)) == vkey(base(lp)) for k, _ in known)
        count = [counted(v) is not None and vkey(counted(v)) == vkey(k) for k, v in known]
        first = [isinstance(v, Num) and v.op == 'a' and v.a.name == 'entry_or' and vkey(v.a.args[1]) == vkey(k) and vkey(v.a.args[0]) == vkey(base(lp)) for k, v in known]
        if any(count) or any(isinstance(v, Num) and any(x.name == 'entry_or' for x in all_atoms(v)) and not any(first) for k, v in known):
            kind = 'count'
            good = all(count)
        else:
            kind = 'first'
            good = all(first)
        kinds.setdefault(kind, []).append((lp, a, m))
        what = 'count of each element' if kind == 'count' else 'first index of each element'
        ok = t.site_loop(lp)
        ck.ob('tally', ok, '%s/%s/all-sites' % (key, kind), 'the %s is not taken over all sites' % what, fn)
        skipped = any(v is None for v in vals)
        if skipped:
            ok, why = complete(t, lp, (a, ()))
            ck.ob('tally', None if kind == 'first' else ok, '%s/%s/each-site' % (key, kind), 'the %s does not see every site' % what, fn)
            if kind == 'first':
                good = good or None
        ck.ob('tally', good and own, '%s/%s/value' % (key, kind), 'the %s is not what the map holds' % what, fn)
    return kinds


def base(lp):
    return lp['src']['idx'] if lp['src'] and lp['src'].get('idx') is not None else None


def order_of(t, idx):
    """how the list an index runs through is ordered: 'name' (ascending by element), 'hash', a wrong order, or None"""
    for x in parts(idx):
        if isinstance(x, Num) and x.op == 'a' and x.a.name == 'perm':
            tag = x.a.args[0]
            ss = [s for s in t.e.sorts if isinstance(tag, tuple) and str(s['site'][1]) in [str(y) for y in tag]]
            if not ss or ss[-1].get('cmp') is None:
                return None
            a, b, res = ss[-1]['cmp']
            if len(res) != 1:
                return None
            r = res[0]
            if not (isinstance(r, Opq) and r.name == 'cmp'):
                return None
            l, m = r.args
            fa, fb = a.f[0] if isinstance(a, Agg) else a, b.f[0] if isinstance(b, Agg) else b
            while isinstance(l, Agg) and l.f and isinstance(m, Agg):
                l, m = l.f[0], m.f[0]
            if vkey(l) == vkey(fa) and vkey(m) == vkey(fb):
                return 'name'
            if vkey(l) == vkey(fb) and vkey(m) == vkey(fa):
                return 'descending'
            return 'other' if element_of(l) is None and isinstance(l, Num) else None
    if isinstance(idx, Num) and idx.op == 'a' and (idx.a.name in ('#g', 'inst') or idx.a.name.startswith('arg')):
        ks = {m.kind for lp, a, m, per in t.maps()}
        if ks == {'BTreeMap'}:
            return 'name'
        if ks == {'HashMap'}:
            return 'hash'
    return None


def flatten(v):
    if isinstance(v, Opq) and v.name == 'concat':
        return [y for x in v.args for y in flatten(x)]
    if isinstance(v, Opq) and v.name == 'fmt':
        return written(v)
    if isinstance(v, Opq) and v.name in ('call:std::hint::must_use', 'call:std::fmt::format'):
        return flatten(v.args[0])
    if isinstance(v, Opq) and v.name in ('to_string', 'of', 'clone') and len(v.args) == 1:
        return flatten(v.args[0])
    if isinstance(v, Seq) and v.known():
        return [y for x in v.items() for y in flatten(x)]
    if isinstance(v, Str) and not v.s:
        return []
    return [v]


def written(v):
    """pieces of a formatted text: only templates made of plain placeholders"""
    if len(v.args) == 1:
        return flatten(v.args[0])
    t, args = v.args[0], v.args[1]
    if isinstance(t, Seq) and t.known() and isinstance(args, Seq) and args.known():
        code = [int(x.a) for x in t.items() if isinstance(x, Num) and x.op == 'c']
        if code == [192] * len(args.items()) + [0] and all(isinstance(x, Opq) and x.name.endswith('new_display') for x in args.items()):
            return [y for x in args.items() for y in flatten(x.args[0])]
    return [v]


SAMPLES = [(c, g) for g in (1, 2, 3, 4, 5) for c in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 20) if c % g == 0]


def c27(prog):
    ck = Check('C27')
    t = Tally(prog, ck, 'Structure::formulas')
    if t.rets is not None:
        kinds = fill(ck, t, 'formulas', t.p)
        ck.ob('tally', True if kinds.get('count') else None, 'formulas/tally', 'no element tally is recognised', t.p)
        for st, r in t.rets:
            if not (isinstance(r, Agg) and len(r.f) == 2):
                ck.ob('formula', None, 'formulas/result', 'result without a summary')
                continue
            for k, nm in ((0, 'formula'), (1, 'reduced')):
                formula(ck, t, r.f[k], nm)
    m = Tally(prog, ck, 'Structure::get_min_element')
    if m.rets is not None:
        least(ck, m)
    ck.floor('ways of listing an element', ck.kinds.get('formula', [0])[0], 40)
    return ck.finish('bounded', 'summaries of formulas and get_min_element: passes of the tally loops as transitions, appended text evaluated for %d pairs of count and common divisor, '
                     'orderings read off the comparators' % len(SAMPLES), TRUST, ['the tally maps behave as documented (entry, or_insert)'])


def formula(ck, t, v, nm):
    v0 = flatten(v)
    if len(v0) == 1 and isinstance(v0[0], Opq) and v0[0].name == 'mu':
        mu = v0[0]
    else:
        ck.ob('formula', None, nm + '/text', 'text without a summary')
        return
    lp = t.loops.get(mu.args[0])
    if lp is None:
        ck.ob('formula', None, nm + '/text', 'text without a summary')
        return
    addr = next((a for a, _ in lp['havoc'] if repr(a) == mu.args[1]), None)
    if addr is None:
        ck.ob('formula', None, nm + '/text', 'text without a summary')
        return
    ck.ob('formula', flatten(lp['entry'].mem[addr]) == [] or (False if isinstance(lp['entry'].mem[addr], Str) else None), nm + '/start', 'the formula does not start empty', t.p)
    it = lp.get('each') or (lp['src'] or {}).get('it')
    if it is not None:
        ok = False if dropping(it) else True
        if lp['src'] is not None and ok:
            ok, _ = complete(t, lp, None)
        ck.ob('formula', ok, nm + '/all', 'not every element is listed', t.p)
        ck.ob('formula', False if backwards(it) else True, nm + '/direction', 'elements are listed backwards', t.p)
    gs = {}
    n = 0
    for c, g in SAMPLES:
        for b in lp['backs']:
            new = flatten(b.mem[addr])
            if not new or vkey(new[0]) != vkey(mu):
                ck.ob('formula', None if not any(vkey(x) == vkey(mu) for x in new) else False, nm + '/append', 'text is not appended to what was there', t.p)
                continue
            item = new[1:]
            ev = Ev(sample(t, c, g, gs), strict=True)
            try:
                if not ev.bool(reached(b.pc)):
                    continue
                texts = []
                for x in item:
                    if isinstance(x, Opq) and x.name == 'dec':
                        texts.append(str(int(ev.num(x.args[0]))))
                    elif isinstance(x, Num):
                        texts.append(str(int(ev.num(x))))
                    elif isinstance(x, Str):
                        texts.append(x.s)
                    elif element_of(x) is not None:
                        texts.append('*')
                    else:
                        raise Undecided('text')
            except Undecided as ex:
                ck.ob('formula', None, nm + '/item', str(ex))
                return
            n += 1
            k = c if nm == 'formula' else c // g
            want = '*' + (str(k) if k != 1 else '')
            ok = ''.join(texts) == want
            if not ok and nm == 'reduced' and not gs and any(stops_at(x, l) for l in t.loops.values() if l['src'] for _, x in l['exits']):
                ok = None           # the divisor was settled by the path taken
            ck.ob('formula', ok, nm + '/item', 'an element with %d sites and common divisor %d is listed as "%s" instead of "%s"'
                  % (c, g, ''.join(texts).replace('*', 'X'), want.replace('*', 'X')), t.p)
            for x in item:
                i = element_of(x)
                if i is not None:
                    o = order_of(t, i)
                    ck.ob('formula', None if o is None else o == 'name', nm + '/sorted', 'elements are not listed in alphabetical order (%s)' % o, t.p)
    ck.ob('formula', n > 0 or None, nm + '/items', 'no way of listing an element was recognised')
    if nm == 'reduced':
        passes = next(l for k, l in t.e.loops.items() if repr(k) == mu.args[0])
        for k, l in t.loops.items():
            if l['src'] is not None and l['src']['it'].kind == 'range' and any(stops_at(x, l) for _, x in l['exits']) and any(
                    str(a.args[:2]) == k for q in passes for b in q['backs'] for x in flatten(b.mem[addr]) for y in parts(x) if isinstance(y, Num) and y.op == 'a' for a in (y.a,) if a.name == '#g'):
                ck.ob('divisor', False, 'reduced/divisor/greatest', 'the search stops at the smallest common divisor', t.p)
        ck.ob('divisor', len(gs) > 0 or None, nm + '/divisor', 'no common divisor is used in the reduced formula')
        for mu_ in gs.values():
            divisor(ck, t, mu_)


def stops_at(st, lp):
    """the loop is left with a candidate that divides all counts"""
    if lp['src']['ex'] > 1 and implies(st.pc, lp['src']['ex']):
        return False
    for v in B.support(st.pc):
        d = B.vars[v]
        if d[0] == 'at' and d[2] in ('forall', 'exists'):
            yes = taken_when(d, None)
            if d[2] == 'forall' and yes and implies(st.pc, B.mk(v, 0, 1)) or d[2] == 'exists' and yes is False and implies(st.pc, B.mk(v, 1, 0)):
                return True
    return False


def sample(t, c, g, gs):
    def assign(name, args):
        if name == 'entry_or':
            return c - 1
        if name == 'mu':
            gs[tuple(args)] = args
            return g
        if name == '?exhausted':
            return 1
    return assign


def divisor(ck, t, mu):
    """the loop variable is the greatest common divisor of the counts"""
    lp = next((l for k, l in t.loops.items() if k in mu), None)
    addr = next((a for a, _ in lp['havoc'] if repr(a) in mu), None) if lp else None
    if lp is None or addr is None or lp['src'] is None or lp['src']['it'].kind not in ('range', 'range_inc'):
        ck.ob('divisor', None, 'reduced/divisor', 'the common divisor is not found by a loop over candidates')
        return
    it = lp['src']['it']
    ent = lp['entry'].mem[addr]
    ck.ob('divisor', vkey(ent) == vkey(ONE), 'reduced/divisor/start', 'the search for the common divisor does not start from one', t.p)
    lo = it.a[0]
    ck.ob('divisor', (lo.op == 'c' and 1 <= lo.a <= 2) if isinstance(lo, Num) and lo.op == 'c' else None, 'reduced/divisor/from', 'candidates for the common divisor are left out at the start', t.p)
    hi = it.a[1]
    m = [a for a in all_atoms(hi) if a.name == 'mu'] if isinstance(hi, Num) else []
    top = None
    if len(m) == 1:
        top = largest(t, m[0])
        ck.ob('divisor', top, 'reduced/divisor/largest', 'the bound on the common divisor is not the largest count', t.p)
        try:
            reach = all(Ev(lambda name, args: k if name == 'mu' else None, strict=True).num(hi) - (it.kind == 'range') >= k for k in range(2, 13))
        except Undecided:
            reach = None
        ck.ob('divisor', reach, 'reduced/divisor/to', 'the largest count itself is not tried as common divisor', t.p)
    else:
        ck.ob('divisor', None, 'reduced/divisor/to', 'bound of the candidates without a summary')
    ok, why = complete(t, lp, None)
    ck.ob('divisor', ok, 'reduced/divisor/all', 'candidates for the common divisor are left out', t.p)
    i = base_of(it, lp)
    for b in lp['backs']:
        new = b.mem[addr]
        qs = [v for v in B.support(b.pc) if B.vars[v][0] == 'at' and B.vars[v][2] in ('forall', 'exists')]
        if len(qs) != 1 or not isinstance(new, Num):
            ck.ob('divisor', None, 'reduced/divisor/step', 'step without a summary')
            continue
        d = B.vars[qs[0]]
        taken = implies(b.pc, B.mk(qs[0], 0, 1))
        if not taken and not implies(b.pc, B.mk(qs[0], 1, 0)):
            ck.ob('divisor', None, 'reduced/divisor/step', 'step without a summary')
            continue
        ck.ob('divisor', d[2] == 'forall' if taken_when(d, i) else d[2] == 'exists' if taken_when(d, i) is False else None, 'reduced/divisor/all-counts',
              'a candidate that does not divide every count is taken', t.p)
        pos = taken if d[2] == 'forall' else not taken
        same = isinstance(new, Num) and new.op == 'a' and new.a.name == 'mu'
        if pos:
            ck.ob('divisor', new.h == lp['src'].get('val', i).h if isinstance(lp['src'].get('val', i), Num) else None, 'reduced/divisor/step', 'a common divisor found is not kept', t.p)
        else:
            ck.ob('divisor', same, 'reduced/divisor/step', 'a number that is not a common divisor is kept', t.p)


def base_of(it, lp):
    for b in lp['backs']:
        for v in b.mem.values():
            if isinstance(v, Num) and v.op == 'a' and v.a.name == '#g' and str(v.a.args[:2]) == str(lp['key'])[:-1] + ')':
                return v
    return None


def taken_when(d, i):
    """True: the condition says count % i == 0 for the tested counts; False: it says the opposite"""
    body = d[1][0]
    seen = {}
    for c in (4, 6, 9, 10, 12):
        for k in (2, 3, 4, 5, 7):
            def assign(name, args):
                if name == 'entry_or':
                    return c - 1
                if name == '#g':
                    return k
                if name == '?exhausted':
                    return 1 if len(args) and args[-1] in (1, '1') else 0
            try:
                ev = Ev(assign, strict=True)
                r = {ev.bool(x) for x in settle(body.n)}
            except Undecided:
                return None
            if len(r) != 1:
                return None
            seen.setdefault(c % k == 0, set()).add(r.pop())
    if seen == {True: {True}, False: {False}}:
        return True
    if seen == {True: {False}, False: {True}}:
        return False
    return None


def reached(n):
    """a path condition without the states of loops"""
    for v in B.support(n):
        if B.vars[v][0] == 'at' and B.vars[v][2] == 'exhausted':
            n = B.OR(B.restrict(n, v, 0), B.restrict(n, v, 1))
    return n


def settle(n):
    """the condition inside a quantifier, with loop states taken as at that point"""
    vs = [v for v in B.support(n) if B.vars[v][0] == 'at' and B.vars[v][2] == 'exhausted']
    outs = {n}
    for v in vs:
        outs = {B.restrict(x, v, b) for x in outs for b in (0, 1)}
    return [x for x in outs if x > 1] or list(outs)


def largest(t, mu):
    """is the loop variable the largest count?"""
    lp = t.loops.get(mu.args[0])
    addr = next((a for a, _ in lp['havoc'] if repr(a) == mu.args[1]), None) if lp else None
    if addr is None:
        return None
    for c in range(1, 6):
        for k in range(0, 6):
            def assign(name, args):
                if name == 'entry_or':
                    return c - 1
                if name == 'mu':
                    return k
                if name == '?exhausted':
                    return 0
            for b in lp['backs']:
                ev = Ev(assign, strict=True)
                try:
                    if not ev.bool(reached(b.pc)):
                        continue
                    if int(ev.num(b.mem[addr])) != max(c, k):
                        return False
                except Undecided:
                    return None
    return True


def least(ck, t):
    kinds = fill(ck, t, 'least', t.p)
    for k in ('count', 'first'):
        ck.ob('tally', True if kinds.get(k) else None, 'least/' + k, 'no map of this kind is recognised')
    for st, r in t.rets:
        if not (isinstance(r, Agg) and len(r.f) == 3):
            ck.ob('least', None, 'least/result', 'result without a summary')
            continue
        for k, kind in ((1, 'first'), (2, 'count')):
            m = r.f[k]
            vals = [x.f[1] for g in m.grown for x in g.alts if isinstance(x, Agg) and len(x.f) == 2] if isinstance(m, Map) else []
            ok = None
            if vals:
                isc = all(counted(v) is not None for v in vals)
                ok = isc == (kind == 'count')
            ck.ob('least', ok, 'least/returned-' + kind, 'the map returned in place %d is not that of the %s' % (k + 1, kind), t.p)
        i = element_of(r.f[0])
        if i is None:
            ck.ob('least', None, 'least/element', 'element without a summary')
            continue
        ex = t.e.extrema
        used = [x for x in ex if any(isinstance(y, Num) and y.op == 'a' and y.a.name.startswith('arg') for y in parts(i))]
        if len(ex) != 1 or not used or not ex[0]['key']:
            ck.ob('least', None, 'least/element', 'choice without a summary')
            continue
        x = ex[0]
        nm = x['name']
        keyed = nm.endswith('_key')
        by, tie = criterion(x)
        ck.ob('least', None if by is None else by == 'count' and nm.startswith('min') or by == '-count' and nm.startswith('max'), 'least/fewest', 'the element reported is not one with fewest sites', t.p)
        if tie == 'name':
            ck.ob('least', True, 'least/tie', '')
        elif tie is None and by is not None:
            o = order_of(t, i)
            bad = nm.startswith('max')      # the last of equal elements is taken
            ck.ob('least', None if o is None else (o == 'descending') if bad else o == 'name', 'least/tie', 'among elements with fewest sites the alphabetically first is not the one reported (%s)' % o, t.p)


def criterion(x):
    k = x['key']
    vals = k[-1]
    if len(vals) != 1:
        return None, None
    v = vals[0]
    if len(k) == 3:                      # comparator
        if not (isinstance(v, Opq) and v.name == 'cmp'):
            return None, None
        a, b = k[0], k[1]
        l, m = v.args
        if not isinstance(a, Agg):
            return None, None
        if vkey(l) == vkey(a.f[1]) and vkey(m) == vkey(b.f[1]):
            return 'count', None
        if vkey(l) == vkey(b.f[1]) and vkey(m) == vkey(a.f[1]):
            return '-count', None
        return ('other', None) if element_of(l) is not None else (None, None)
    tie = None
    if isinstance(v, Agg) and len(v.f) == 2:
        tie = 'name' if element_of(v.f[1]) is not None else None
        v = v.f[0]
    if counted(v) is not None:
        return 'count', tie
    if isinstance(v, Num) and counted(-v) is not None:
        return '-count', tie
    return ('other', tie) if element_of(v) is not None else (None, None)


# ---------------------------------------------------------------- C24

POSITION = ('s.f', 's.x', 'o.t', 'p.t', 'q.t', 'fold')
DTOL = 'in0.dtol'


def conditions(e, rets):
    """every comparison of numbers met in the conditions of a summary, also inside 'some' and 'all'"""
    seen = {}

    def add(n):
        for v in B.support(n):
            if v not in seen:
                d = seen[v] = B.vars[v]
                if d[0] == 'at' and d[2] in ('forall', 'exists'):
                    add(d[1][0].n)
    for k, l in e.loops.items():
        for b in l[-1]['backs']:
            add(b.pc)
        for _, b in l[-1]['exits']:
            add(b.pc)
    for st, r in rets:
        add(st.pc)
        if isinstance(r, Bool):
            add(r.n)
    for q in e.quants:
        add(q[2].n)
    return [d for d in seen.values() if d[0] in ('lt', 'eq')]


def positional(a):
    return a.name in POSITION or any(x.name in POSITION for x in all_atoms(num_of_atom(a)))


def thresholds(ck, key, e, rets, tol, fn):
    """each comparison of positions is against a multiple of the tolerance; returns how many there are"""
    n = 0
    for d in conditions(e, rets):
        t = d[1]
        top = toplevel_atoms(t)
        m = [a for a in top if positional(a)]
        if not m or any(a.name.startswith('call:') for a in m):
            continue
        m += [a for a in top if a.name in ('#g', 'inst')]         # whole lattice translations added to a position
        try:
            v = scaled(t, m, tol)
        except Undecided as ex:
            ck.ob('threshold', None, key + '/threshold', str(ex))
            continue
        if v == 'free':
            continue
        n += 1
        ck.ob('threshold', v == 'proportional', key + '/threshold', 'positions are compared against a distance that is not proportional to the tolerance given: %s' % brief(t), fn)
        metric(ck, key, m, tol, fn)
    return n


def brief(t):
    return str(t)[:120]


def scaled(t, m, tol):
    """how a comparison changes when positions and tolerance are scaled together"""
    def at(lam, mu, k):
        q = t
        for j, a in enumerate(m):
            q = replace_atom(q, a.h, const(D(3 + 2 * j + k) * lam))
        return Ev(lambda name, args: D(5 + k) / 16 * (1 + hash_of(args) % 3) * mu if tol(name) else None, seed=k).num(q)
    deg = set()
    indep = True
    for k in range(3):
        a, b, c = at(D(1), D(1), k), at(D(2), D(2), k), at(D(1), D(2), k)
        if abs(a) < D(10) ** -30:
            raise Undecided('comparison on its boundary at a sample point')
        deg.add((b / a).quantize(D(10) ** -20))
        indep &= abs(a - c) < D(10) ** -30
    if len(deg) == 1 and next(iter(deg)) in (D(1), D(2), D(4), D(8), D('0.5'), D('0.25')):
        return 'free' if indep else 'proportional'
    return 'other'


def hash_of(args):
    return sum(int(x) for x in args if isinstance(x, D))


def metric(ck, key, m, tol, fn):
    """differences measured inside a root were folded with the tolerance divided by the lengths of the axes they are measured with"""
    for a in m:
        if a.name != 'sqrt' or not isinstance(a.args[0], Num):
            continue
        q = a.args[0]
        fs = [x for x in toplevel_atoms(q) if x.name == 'fold']
        inner = {y.h for x in fs for z in x.args if isinstance(z, Num) for y in all_atoms(z) if y.name == 'fold'}
        for x in {y.h: y for z in fs for y in [z] + all_atoms(z.args[0]) if y.name == 'fold'}.values():
            input_fold(ck, key, x, tol, fn)
        fs = [x for x in fs if x.h not in inner]
        for f in fs:
            try:
                g = axis_square(q, f)
                y = Ev(lambda name, args: D(7) / 16 if tol(name) else folded(name, args), seed=5).num(f.args[1])
                ok = g > 0 and abs(y * y * g - D(49) / 256) < D(10) ** -20
            except Undecided:
                ok = None
            ck.ob('folding', ok, key + '/folding', 'a difference is folded with a tolerance that is not the distance tolerance in units of the axis it is measured along', fn)


def input_fold(ck, key, f, tol, fn):
    """a coordinate of the input is folded with the tolerance in units of the axis of the input"""
    t = toplevel_atoms(f.args[0])
    if len(t) != 1 or t[0].name != 's.f' or not isinstance(t[0].args[-1], Num) or t[0].args[-1].op != 'c':
        return
    k = t[0].args[-1]
    try:
        ev = Ev(lambda name, args: D(7) / 16 if tol(name) else None, seed=5)
        y = ev.num(f.args[1])
        g = sum(ev.num(sym('s.L', (const(i), k))) ** 2 for i in range(3))
        ok = abs(y * y * g - D(49) / 256) < D(10) ** -20
    except Undecided:
        ok = None
    ck.ob('folding', ok, key + '/input-folding', 'coordinates of the input are folded with a tolerance that is not the distance tolerance in units of their axis', fn)


def axis_square(q, f):
    def at(x):
        return Ev(folded, seed=5).num(replace_atom(q, f.h, const(x)))
    return (at(1) + at(-1) - 2 * at(0)) / 2


def result_folds(ck, prog, key, R, tol, fn):
    """coordinates of a resulting structure are folded with the tolerance in units of its own axes"""
    d = fields(prog, R)
    L = d['lattice']
    n = 0
    if not isinstance(d['frac_coords'], Seq) or not isinstance(L, Mat):
        ck.ob('folding', None, key + '/result', 'coordinates without a summary')
        return
    for g in d['frac_coords'].segs:
        for x in (g.alts if isinstance(g, Many) else (g[1],)):
            if not isinstance(x, Mat):
                ck.ob('folding', None, key + '/result', 'coordinates without a summary')
                continue
            for k in range(3):
                for f in [a for a in toplevel_atoms(x.e[k]) if a.name == 'fold' and (x.e[k] - num_of_atom(a)).h == a.args[0].h]:
                    n += 1
                    try:
                        ev = Ev(lambda name, args: D(7) / 16 if tol(name) else folded(name, args), seed=5)
                        y = ev.num(f.args[1])
                        g2 = sum(ev.num(L.at(i, k)) ** 2 for i in range(3))
                        ok = abs(y * y * g2 - D(49) / 256) < D(10) ** -20
                    except Undecided:
                        ok = None
                    ck.ob('folding', ok, key + '/result', 'coordinate %d of the result is not folded with the distance tolerance in units of its axis' % k, fn)
    ck.ob('folding', n > 0 or None, key + '/folded', 'no folding of the result')


def per_axis(v, L, tol):
    """is a vector of tolerances the distance tolerance in units of the axes of a lattice?"""
    if not (isinstance(v, Mat) and isinstance(L, Mat) and v.r * v.c == 3):
        return None
    for k in range(3):
        try:
            ev = Ev(lambda name, args: D(7) / 16 if tol(name) else None, seed=9)
            y = ev.num(v.e[k])
            g2 = sum(ev.num(L.at(i, k)) ** 2 for i in range(3))
        except Undecided:
            return None
        if abs(y * y * g2 - D(49) / 256) > D(10) ** -20 or y < 0:
            return False
    return True


def self_tol(prog, v, tol):
    """is the distance tolerance of an analyzer or reducer the caller's?"""
    if isinstance(v, Agg) and 'dtol' in prog.adts.get(v.name, {'variants': [{'fields': []}]})['variants'][0]['fields']:
        return is_tol(fields(prog, v)['dtol'], tol)
    if isinstance(v, Opq) and v.name == 'in0':
        return True
    return None


def is_tol(v, tol):
    return isinstance(v, Num) and v.op == 'a' and tol(v.a.name)


def queries(ck, prog):
    tol = lambda name: name == DTOL
    for fn in ('get_space_group_info', 'get_standard_primitive_structure', 'get_standard_conventional_structure'):
        q = Pipeline(prog, ck, 'SymmetryAnalyzer::' + fn)
        if q.rets is None:
            continue
        for c in q.calls:
            nm, a = c['name'], c['args']
            key = '%s/%s' % (fn, nm)
            if nm in ('find_primitive_cell', 'niggli_reduce', 'delaunay_reduce', 'get_primitive_space_group_ops', 'conventional_transformation_matrix'):
                ck.ob('passed on', self_tol(prog, a[0], tol), key, '%s does not work with the tolerance of this analyzer' % nm, q.p)
            elif nm == 'apply_transformation':
                ck.ob('passed on', is_tol(a[2], tol), key, 'the change of axes does not get the tolerance of this analyzer', q.p)
            elif nm in ('from_generators', 'identify_space_group'):
                where = q.origin(a[0])
                if where is None:
                    ck.ob('passed on', None, key, 'operations without a summary')
                else:
                    ck.ob('passed on', per_axis(a[-1], fields(prog, where)['lattice'], tol), key, 'the tolerances of %s are not the distance tolerance in units of the axes the operations refer to' % nm, q.p)
            elif nm == 'move_group':
                ck.ob('passed on', per_axis(a[-1], fields(prog, q.S)['lattice'], tol), key,
                      'operations in the axes of the input are compared with tolerances that are not the distance tolerance in units of those axes', q.p)


def origin(self, v):
    """structure whose operations these are"""
    for c in self.calls:
        if c['name'] == 'get_primitive_space_group_ops' and vkey(c['ret']) == vkey(v):
            return c['args'][1]
        if c['name'] == 'from_generators' and vkey(c['ret']) == vkey(v):
            return self.origin(c['args'][0])
    return None


Pipeline.origin = origin


def c24(prog):
    ck = Check('C24')
    S = coherent(prog)[STRUCT](None, 's', ())
    fp = fpath(prog, ck, 'utils::normalize_frac_vectors')
    sp = fpath(prog, None, 'Reducer::get_shortest_translation_vecs')
    n = 0
    dtol, tol, ft = (lambda name: name == DTOL), (lambda name: name == 'tol'), (lambda name: name == 'ft')
    # structures
    p = fpath(prog, ck, 'Reducer::find_primitive_cell')
    con = {fp: fold_contract}
    if sp:
        con[sp] = short_contract({})
    rets, e = summary(ck, prog, p, [None, S], contracts=con)
    if rets is not None:
        n += thresholds(ck, 'primitive', e, rets, dtol, p)
        for st, r in rets:
            if isinstance(r, Agg):
                result_folds(ck, prog, 'primitive', r, dtol, p)
    p = fpath(prog, ck, 'Structure::apply_transformation')
    rets, e = summary(ck, prog, p, [S, mat('T'), sym('tol')], contracts={fp: fold_contract})
    if rets is not None:
        n += thresholds(ck, 'transform', e, rets, tol, p)
        for st, r in rets:
            R = st.mem.get(('A', 0))
            if isinstance(R, Agg):
                result_folds(ck, prog, 'transform', R, tol, p)
    p = fpath(prog, ck, 'Structure::normalize_coords')
    rets, e = summary(ck, prog, p, [S, sym('tol')], contracts={fp: fold_contract})
    if rets is not None:
        for st, r in rets:
            R = st.mem.get(('A', 0))
            if isinstance(R, Agg):
                result_folds(ck, prog, 'normalize', R, tol, p)
    s = Search(prog, ck)
    if s.rets is not None:
        n += thresholds(ck, 'search', s.e, s.rets, dtol, s.p)
    # reductions
    np_ = fpath(prog, ck, 'Structure::normalize_coords')
    for f in ('niggli_reduce', 'delaunay_reduce'):
        p = fpath(prog, ck, 'Reducer::' + f)
        got = []

        def normal(eng, st, args, dty, site, got=got):
            got.append(eng.deep(st, args[1]))
            return [(st, UNIT)]
        rets, e = summary(ck, prog, p, [None, S] + ([sym('eps')] if f == 'niggli_reduce' else []), contracts={np_: normal})
        if rets is not None:
            ck.ob('passed on', len(got) > 0 or None, f + '/normalize', 'the result is not folded by normalize_coords')
            for v in got:
                ck.ob('passed on', is_tol(v, dtol), f + '/normalize', 'the result is not folded with the tolerance of this reducer', p)
    # operations
    n += operations(ck, prog, fp, ft)
    queries(ck, prog)
    ck.floor('comparisons of positions', n, 6)
    return ck.finish('bounded', 'each comparison of positions in the summaries scales when positions and tolerance are scaled together (sampled), foldings use the tolerance in units of '
                     'the axes of the metric they are measured with, and every tolerance argument of the analysis steps is the caller\'s', TRUST,
                     ['folding by its specification (C10)', 'selection of short translations as a symbol'])


def operations(ck, prog, fp, ft):
    """functions on symmetry operations use the per-axis tolerances they are given"""
    n = 0
    op = lambda name: Agg('adt', OP, 0, [{'rotation': mat(name + '.R'), 'translation': Mat(3, 1, [sym(name + '.t', (const(k),)) for k in range(3)])}[k]
                                         for k in prog.adts[OP]['variants'][0]['fields']])
    p = fpath(prog, ck, 'SymmOp::is_approx_eq')
    rets, e = summary(ck, prog, p, [op('p'), op('q'), TOL3], contracts={fp: fold_contract})
    if rets is not None:
        n += thresholds(ck, 'is_approx_eq', e, rets, ft, p)
        n_axis = own_axis(ck, 'is_approx_eq', e, rets, p)
    sp = fpath(prog, ck, 'SymmOp::is_approx_eq')
    seen = []

    def same(eng, st, args, dty, site):
        seen.append((site, eng.deep(st, args[2])))
        return same_contract(eng, st, args, dty, site)
    con = {fp: fold_contract, sp: same}
    for q in mul_paths(prog):
        con[q] = product_contract(prog)
    dp = fpath(prog, ck, 'utils::decode_spg_op')
    for f, args, opq in (('SpaceGroup::from_generators', [ops_list(prog), TOL3], ()), ('SymmetryAnalyzer::identify_space_group', [space_group(prog), Opq('system', ()), TOL3], {dp})):
        p = fpath(prog, ck, f)
        del seen[:]
        rets, e = summary(ck, prog, p, args, contracts=con if not opq else {sp: same}, opaque=opq)
        if rets is None:
            continue
        nm = f.split('::')[1]
        ck.ob('passed on', len(seen) > 0 or None, nm + '/comparison', 'no comparison of operations')
        for site, v in seen:
            ck.ob('passed on', vkey(v) == vkey(TOL3), nm + '/comparison', 'operations are not compared with the tolerances given', p)
        n += thresholds(ck, nm, e, rets, ft, p)
        own_fold(ck, nm, e, rets, p)
    p = fpath(prog, ck, 'SpaceGroup::apply_transformation')
    rets, e = summary(ck, prog, p, [space_group(prog), mat('T'), TOL3], contracts=con)
    if rets is not None:
        n += thresholds(ck, 'move', e, rets, ft, p)
        own_axis(ck, 'move', e, rets, p)
        own_fold(ck, 'move', e, rets, p)
    return n


def own_axis(ck, key, e, rets, fn):
    """a folded component is compared with the tolerance of that component"""
    n = 0
    for d in conditions(e, rets):
        top = toplevel_atoms(d[1])
        fts = {a.args[0].h: a for a in top if a.name == 'ft'}
        folds = {f.args[1].h: f for a in top for f in ([a] if a.name == 'fold' else [x for x in toplevel_of(a) if x.name == 'fold']) if isinstance(f.args[1], Num)}
        if len(fts) == 1 and len(folds) == 1:
            f = next(iter(folds.values())).args[1]
            a = next(iter(fts.values()))
            n += 1
            ck.ob('axis', f.h == num_of_atom(a).h, key + '/axis', 'a component is folded with the tolerance of one axis and compared with that of another', fn)
    return n


def toplevel_of(a):
    return [x for y in a.args if isinstance(y, Num) for x in toplevel_atoms(y)]


def own_fold(ck, key, e, rets, fn):
    """component k of a translation is folded with tolerance k"""
    seen = set()
    for st, r in rets:
        for v in list(st.mem.values()) + [r]:
            for x in parts(v):
                if isinstance(x, Mat) and x.r == 3 and x.c == 1:
                    for k in range(3):
                        for a in toplevel_atoms(x.e[k]) if isinstance(x.e[k], Num) else ():
                            if a.name == 'fold' and a.h not in seen and (x.e[k] - num_of_atom(a)).h == a.args[0].h:
                                seen.add(a.h)
                                y = a.args[1]
                                ck.ob('axis', isinstance(y, Num) and y.h == sym('ft', (const(k),)).h, key + '/own-fold', 'component %d of a translation is not folded with the tolerance given for it' % k, fn)
