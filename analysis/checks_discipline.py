"""Disciplines every function must keep: no hidden inputs, no narrow counters, no failed inverses, no undefined tolerances."""
import os
import re
import shutil

from decimal import Decimal as D

import common
import models
from common import Check
from engine import Engine, Program, Agg, Mat, Many, Num, Opq, Seq, Undecided, const, sym
from evalf import Ev, TAINT
from terms import B, TRUE, _collect, vkey
from checks_tables import coherent
from checks_algebra import TRUST, fpath, mat
from checks_reduce import STRUCT, fold_contract, folded
from checks_group import TOL3, space_group, point_group
from checks_query import Pipeline, STEPS

HASH = re.compile(r'\b(HashMap|HashSet|IndexMap|AHashMap)\b')
HASHITER = re.compile(r'\bhash_(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b')
UNORDERED = re.compile(r'^(?:&(?:\'\w+ )?(?:mut )?)*std::collections::(?:hash_map::|hash_set::|btree_map::|btree_set::)?(?:HashMap|HashSet|BTreeMap|BTreeSet)<')
INTS = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128', 'usize', 'isize')
NARROW = ('u8', 'i8', 'u16', 'i16')
GENERATED = re.compile(r'(^|::)(__pyfunction_|__pyo3|PyInit)')


def callee(t):
    """resolved description of a call terminator"""
    if t[1][0] != 'const' or t[1][1].get('k') != 'fn':
        return {}
    return t[1][1]


def target(f):
    return f.get('res') or f.get('path') or ''


def local_of(prog, f):
    p = target(f)
    if not (f.get('reslocal') or f.get('local')):
        return None
    return prog.uid(p)


def uses(o):
    """place read by an operand"""
    return o[1] if o[0] in ('copy', 'move') else None


def operands(r):
    k = r[0]
    if k in ('use',):
        return [r[1]]
    if k == 'repeat':
        return [r[1]]
    if k == 'cast':
        return [r[2]]
    if k == 'bin':
        return [r[2], r[3]]
    if k == 'un':
        return [r[2]]
    if k == 'agg':
        return list(r[2])
    return []


def places(r):
    """places an rvalue reads"""
    if r[0] in ('ref', 'rawptr'):
        ps = [r[2]]
    elif r[0] == 'discr':
        ps = [r[1]]
    else:
        ps = [p for p in map(uses, operands(r)) if p]
    return ps + [[e[1], []] for p in ps for e in p[1] if e[0] == 'index' and isinstance(e[1], int)]


def bodies(prog):
    """(uid, function record, body) of everything written in the crate, promoted constants included"""
    for u, b in sorted(prog.bodies.items()):
        yield u, b, b['body']
        pr = b.get('promoted') or []
        for x in (pr.values() if isinstance(pr, dict) else pr):
            yield u, b, x


def short(p):
    return re.sub(r'\{impl#\d+\}::', '', p)


def example(name, want):
    """compile one of the tiny violating programs next to this file and return its program: the rules must fire on it"""
    os.makedirs(common.WORK, exist_ok=True)
    out = os.path.join(common.WORK, 'ex-%s-%d.json' % (name, os.getpid()))
    binp = common.build_driver()
    src = os.path.join(common.VERIF, 'analysis', 'examples', name + '.rs')
    lib = os.path.join(common.WORK, 'ex-%s-%d' % (name, os.getpid()))
    try:
        rc, log = common.sh([binp, 'rustc', '--crate-type', 'lib', '--crate-name', 'example', '--edition', '2021', '--emit', 'metadata',
                             '--out-dir', lib, src],
                            env={'LD_LIBRARY_PATH': os.path.join(common.sysroot(), 'lib'), 'MIRDUMP_CRATE': 'example', 'MIRDUMP_OUT': out})
        if rc or not os.path.exists(out):
            raise common.SetupError('example %s does not compile:\n%s' % (name, log[-2000:]))
        return Program(out)
    finally:
        if os.path.exists(out):
            os.remove(out)
        if os.path.isdir(lib):
            shutil.rmtree(lib)


# --------------------------------------------------------------------------------------------- C21

FORBIDDEN = (
    (r'^std::time::|^std::time\b|^chrono::|^time::', 'the clock'),
    (r'^std::env::', 'the environment'),
    (r'^std::fs::|^std::path::Path::(?:exists|is_file|is_dir|read|metadata|canonicalize)|^std::net::|^std::io::(?:stdin|Read|BufRead|Stdin)|<std::(?:fs|net|io::Stdin)', 'files or input'),
    (r'^std::process::', 'the process'),
    (r'^std::thread::|^rayon|^std::sync::mpsc|^tokio|^crossbeam', 'threads'),
    (r'^rand|^getrandom|^fastrand|^uuid|std::hash::random::|hash::RandomState|RandomState as|BuildHasher::(?:build_hasher|hash_one)', 'random numbers'),
    (r'^std::cell::(?!OnceCell|LazyCell|once|lazy)|^std::sync::(?:Mutex|RwLock|atomic|poison|mpsc)|^core::sync::atomic|^core::cell::|LocalKey|^parking_lot', 'state kept between calls'),
    (r'new_pointer$|fmt::Pointer|^std::ptr::(?:addr|const_ptr|mut_ptr).*::addr$|expose_provenance|^std::ptr::.*::addr$', 'addresses in memory'),
)
SHARED = re.compile(r'\b(Cell|RefCell|UnsafeCell|SyncUnsafeCell|Mutex|RwLock|Atomic\w+|LocalKey)\b')

# results that do not depend on the order of what they are given
BLIND = {'any', 'all', 'count', 'len', 'is_empty', 'contains', 'contains_key', 'is_some', 'is_none', 'is_ok', 'is_err', 'sorted', 'sorted_unstable',
         'min', 'max', 'size_hint', 'capacity', 'is_subset', 'is_superset', 'is_disjoint', 'all_unique', 'drop', 'counts', 'into_group_map', 'is_sorted'}
SORTS = {'sort', 'sort_unstable', 'sort_floats'}
SORTS_BY = {'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'}
CHOICE_BY = {'sorted_by', 'sorted_by_key', 'sorted_unstable_by', 'sorted_unstable_by_key', 'sorted_by_cached_key',
             'min_by', 'max_by', 'min_by_key', 'max_by_key', 'position_max_by_key', 'minmax_by_key'}


def type_args(t, head):
    """arguments of the innermost occurrence of a generic type inside t"""
    m = re.search(head + r'<', t)
    if not m:
        return []
    out, depth, cur = [], 0, ''
    for ch in t[m.end():]:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            if depth == 0:
                out.append(cur.strip())
                return out
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out


class Order:
    """which values depend on the order in which a hash container was walked: forward data flow over MIR, through calls"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.sites = {}          # (function, callee) -> where: every walk over a hash container
        self.branches = {}
        self.comparators = {}

    # ---- one function; tagged parameters in, tags of the result and of the &mut parameters out
    def summary(self, uid, tagged=()):
        key = (uid, tuple(sorted(tagged)))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (frozenset(), {})
        for _ in range(3):
            r = self.run(uid, dict(tagged))
            if r == self.memo[key]:
                break
            self.memo[key] = r
        return self.memo[key]

    def aliases(self, body):
        """local holding a reference -> locals it may point into"""
        al = {}
        tys = body['locals']
        ch = True
        edges, through = [], []
        for bl in body['blocks']:
            if bl['cleanup']:
                continue
            for s in bl['st']:
                if s[0] != 'assign' or s[1][1]:
                    continue
                d, r = s[1][0], s[2]
                if r[0] in ('ref', 'rawptr'):
                    if any(e[0] == 'deref' for e in r[2][1]):
                        edges.append((d, r[2][0]))
                    else:
                        al.setdefault(d, set()).add(r[2][0])
                elif r[0] in ('use', 'cast', 'agg'):
                    for p in places(r):
                        if r[0] == 'cast' and 'BoxDeref' in str(r[1]):
                            al.setdefault(d, set()).add(p[0])
                        if '&' in tys[p[0]] or '*' in tys[p[0]] or '&' in tys[d] or '{closure' in tys[d] or r[0] == 'agg':
                            edges.append((d, p[0]))
            t = bl['term']
            if t[0] == 'call' and not t[3][1] and t[2]:
                dt = tys[t[3][0]]
                if '&' in dt or "'_" in dt or 'Iter' in dt or 'Entry' in dt:
                    for a in t[2]:
                        p = uses(a)
                        if p and ('&' in tys[p[0]] or "'_" in tys[p[0]]):
                            # an element points into what the iterator walks, not into the iterator
                            (through if callee(t).get('name') == 'next' else edges).append((t[3][0], p[0]))
        while ch:
            ch = False
            for d, s in through:
                for a in al.get(s, set()):
                    new = al.get(a, set())
                    if not new <= al.get(d, set()):
                        al.setdefault(d, set()).update(new)
                        ch = True
            for d, s in edges:
                new = al.get(s, set())
                if not new <= al.get(d, set()):
                    al.setdefault(d, set()).update(new)
                    ch = True
        return al

    def run(self, uid, tagged):
        rec = self.prog.bodies[uid]
        body = rec['body']
        cfg = self.prog.cfg(uid)
        al = self.aliases(body)
        tys = body['locals']
        name = short(rec['path'])
        loops = {}
        for b in cfg.rpo:
            inner = None
            for h, bs in cfg.loops.items():
                if b in bs and (inner is None or len(bs) < len(cfg.loops[inner])):
                    inner = h
            loops[b] = inner
        outside = {}     # loop header -> locals assigned or passed in from outside the loop
        for h, bs in cfg.loops.items():
            s = set(range(1, body['argc'] + 1))
            for b in cfg.rpo:
                if b in bs:
                    continue
                for st in body['blocks'][b]['st']:
                    if st[0] == 'assign':
                        s.add(st[1][0])
                t = body['blocks'][b]['term']
                if t[0] == 'call':
                    s.add(t[3][0])
            outside[h] = s
        entry = {cfg.rpo[0]: {l: frozenset(t) for l, t in tagged.items()}}
        ret, muts = set(), {}

        def get(st, l):
            r = set(st.get(l, ()))
            for a in al.get(l, ()):
                r |= st.get(a, frozenset())
            m = HASHITER.search(tys[l])
            if m and not r and not tys[l].startswith('std::option::Option<('):
                r.add(('walk', name, m.group(0), ''))
            return frozenset(r)

        def put(st, place, tags, weak=False):
            l, proj = place
            if any(e[0] == 'deref' for e in proj) or weak:
                roots = al.get(l, set()) | {l} if not weak or '&' in tys[l] else {l}
                for a in roots:
                    if tags:
                        st[a] = st.get(a, frozenset()) | tags
            elif proj:
                if tags:
                    st[l] = st.get(l, frozenset()) | tags
            elif tags:
                st[l] = tags
            else:
                st.pop(l, None)

        def inside(tags):
            return frozenset(t for t in tags if t[0] == 'elem')

        work = [cfg.rpo[0]]
        n = 0
        while work:
            b = work.pop(0)
            n += 1
            if n > 4000:
                break
            st = dict(entry[b])
            bl = body['blocks'][b]
            for s in bl['st']:
                if s[0] == 'dead':
                    st.pop(s[1], None)
                    continue
                if s[0] != 'assign':
                    continue
                r = s[2]
                tags = set()
                for p in places(r):
                    tags |= get(st, p[0])
                if r[0] == 'discr':
                    tags = set()      # whether something was found does not depend on the order
                if r[0] == 'ref':
                    tags = set() if not any(e[0] == 'deref' for e in r[2][1]) else tags
                if r[0] == 'bin' and r[1].rstrip('WithOverflow').startswith(('Add', 'Mul', 'BitOr', 'BitAnd', 'BitXor')) and loops[b] is not None:
                    # integer sums and the like: the same in every order
                    roots = set()
                    for p in places(r):
                        roots |= al.get(p[0], set()) | {p[0]}
                        for q in self.copied(body, p[0]):
                            roots.add(q)
                    if r[4] in INTS and any(x in outside[loops[b]] for x in roots):
                        tags -= inside(tags)
                if tags and inside(tags) and self.extremum(body, cfg, b, s, loops[b], tys, outside):
                    tags -= inside(tags)
                put(st, s[1], frozenset(tags))
            t = bl['term']
            if t[0] == 'switch':
                p = uses(t[1])
                tags = get(st, p[0]) if p else frozenset()
                for g in tags:
                    if g[0] == 'walk' and (tys[p[0]] in INTS or tys[p[0]] == 'bool'):
                        self.branches.setdefault((name, g), bl['term'][5])
                        ret.add(g)
            elif t[0] == 'call':
                self.call(uid, name, body, t, st, get, put, loops[b], outside, al, tys)
            elif t[0] == 'return':
                ret |= get(st, 0)
                for i in range(1, body['argc'] + 1):
                    if tys[i].startswith('&mut') or '{closure' in tys[i]:
                        g = st.get(i, frozenset()) - frozenset(tagged.get(i, ()))
                        if g:
                            muts.setdefault(i, set()).update(g)
            for nx in cfg.succ[b]:
                if nx not in cfg.rpon:
                    continue
                out = dict(st)
                # leaving a loop over a hash container: an element that survives is whichever came last
                for h, bs in cfg.loops.items():
                    if b in bs and nx not in bs:
                        for l in list(out):
                            out[l] = frozenset(('walk',) + g[1:4] if g[0] == 'elem' and g[4] == (uid, h) else g for g in out[l])
                old = entry.get(nx)
                if old is None:
                    entry[nx] = out
                    work.append(nx)
                else:
                    new = dict(old)
                    for l, g in out.items():
                        new[l] = new.get(l, frozenset()) | g
                    if new != old:
                        entry[nx] = new
                        work.append(nx)
        own = lambda gs: frozenset(('walk',) + g[1:4] if g[0] == 'elem' and g[4][0] == uid else g for g in gs)
        return own(ret), {k: own(v) for k, v in muts.items()}

    def copied(self, body, l):
        """locals whose value a temporary is a copy of"""
        out = set()
        for bl in body['blocks']:
            for s in bl['st']:
                if s[0] == 'assign' and s[1] == [l, []] and s[2][0] == 'use':
                    p = uses(s[2][1])
                    if p:
                        out.add(p[0])
        return out

    def extremum(self, body, cfg, b, s, h, tys, outside):
        """`if x > best { best = x }`: an integer kept because it was compared with the one kept so far"""
        if h is None or s[1][1] and s[1][1][0][0] != 'deref':
            return False
        d = s[1][0]
        ty = tys[d]
        if ty.replace('&mut ', '').replace('&', '') not in INTS or d not in outside[h]:
            return False
        # some comparison in the loop reads d and decides whether this block runs
        for c in cfg.loops[h]:
            t = body['blocks'][c]['term']
            if t[0] != 'switch' or c == b or not cfg.dominates(c, b):
                continue
            for x in body['blocks'][c]['st']:
                if x[0] == 'assign' and x[2][0] == 'bin' and x[2][1] in ('Lt', 'Gt', 'Le', 'Ge'):
                    rs = set()
                    for p in places(x[2]):
                        rs |= {p[0]} | self.copied(body, p[0])
                    if d in rs:
                        return True
        return False

    def call(self, uid, name, body, t, st, get, put, h, outside, al, tys):
        f = callee(t)
        nm = f.get('name') or ''
        atys = t[6]
        dty = t[7]
        ps = [uses(a) for a in t[2]]
        tags = [get(st, p[0]) if p else frozenset() for p in ps]
        dest = t[3]
        out = set()
        cap = frozenset().union(*tags) if tags else frozenset()

        # walks over the container itself
        for p, ty in zip(ps, atys):
            if HASH.search(ty) and UNORDERED.match(ty) and (HASHITER.search(dty) or nm in (
                    'from_iter', 'extend', 'zip', 'chain', 'into_iter', 'cartesian_product', 'for_each', 'retain', 'interleave', 'collect_vec', 'join', 'append')):
                if not (UNORDERED.match(dty) or nm in ('extend',) and UNORDERED.match(atys[0])):
                    g = ('walk', name, nm, t[5])
                    self.sites[(name, nm, t[5])] = t[5]
                    out.add(g)
        if nm in ('new_debug',) and atys and HASH.search(atys[0]):
            self.sites[(name, 'Debug', t[5])] = t[5]
            out.add(('walk', name, 'Debug', t[5]))
        lu = local_of(self.prog, f)
        if lu is not None and not (f.get('inst') or '').startswith('Closure'):
            tg = tuple((i + 1, frozenset(g)) for i, g in enumerate(tags) if g)
            r, m = self.summary(lu, tg)
            put(st, dest, r)
            for i, g in m.items():
                if i - 1 < len(ps) and ps[i - 1]:
                    put(st, ps[i - 1], g, weak=True)
            return
        if nm in SORTS and cap:
            self.clean(st, ps[0], al)
            put(st, dest, frozenset())
            return
        if nm in SORTS_BY and cap:
            if self.total(uid, t, nm):
                self.clean(st, ps[0], al)
            put(st, dest, frozenset())
            return
        if nm == 'next' and h is not None and cap:
            g = frozenset(('elem',) + x[1:4] + ((uid, h),) for x in cap if x[0] == 'walk') | frozenset(x for x in cap if x[0] == 'elem')
            for x in cap:
                self.sites.setdefault((x[1], x[2], x[3]), x[3])
            put(st, dest, g)
            return
        if nm in BLIND:
            if nm in ('min', 'max') and dty.endswith(('f64', 'f32')):
                out = set()
            put(st, dest, frozenset())
            return
        if nm in CHOICE_BY and cap:
            if self.total(uid, t, nm):
                put(st, dest, frozenset())
                return
        if nm in ('sum', 'product') and dty in INTS:
            put(st, dest, frozenset())
            return
        if nm == 'fold' and (dty in INTS or dty == 'bool' or UNORDERED.match(dty)):
            put(st, dest, frozenset())
            return
        out |= cap
        for cu in self.closures(uid, body, t):
            out |= self.summary(cu)[0]
        # closures handed a walk: what they write to
        if nm in ('for_each', 'map', 'inspect', 'filter', 'fold', 'retain', 'flat_map', 'filter_map', 'try_for_each') and out:
            for p in ps[1:]:
                if not p:
                    continue
                for a in al.get(p[0], ()):
                    if re.match(r'^(?:&mut )*(std::vec::Vec|std::string::String|std::collections::VecDeque|alloc::)', tys[a]) and self.captured_mut(body, p[0], a):
                        st[a] = st.get(a, frozenset()) | frozenset(g for g in out if g[0] == 'walk')
        if UNORDERED.match(dty):
            put(st, dest, frozenset())
            return
        # a method with a receiver it may change
        if atys and atys[0].startswith('&mut') and ps and ps[0]:
            others = frozenset().union(*tags[1:]) | frozenset(g for g in out if g not in tags[0]) if len(tags) > 1 else frozenset()
            if others and not UNORDERED.match(atys[0]) and not HASHITER.search(atys[0]) and nm not in ('next', 'get_mut', 'index_mut', 'by_ref', 'iter_mut', 'deref_mut', 'as_mut'):
                # inside a loop over a hash container whatever is appended arrives in its order
                put(st, ps[0], frozenset(('walk',) + g[1:4] if g[0] == 'elem' else g for g in others), weak=True)
        if dty == '()' or dty == '!':
            out = set()
        put(st, dest, frozenset(out))

    def closures(self, uid, body, t):
        return [u for u, b in self.prog.bodies.items() if b['kind'] == 'closure' and u.startswith(uid + '::') and self.passes(uid, t, u)]

    def captured_mut(self, body, c, a):
        for bl in body['blocks']:
            for s in bl['st']:
                if s[0] == 'assign' and s[2][0] == 'ref' and s[2][1] and s[2][2][0] == a:
                    return True
        return False

    def clean(self, st, p, al):
        if p:
            for a in al.get(p[0], set()) | {p[0]}:
                st.pop(a, None)

    def total(self, uid, t, nm):
        """may two different elements compare as equal? a comparison of the map's keys, of the whole element or of a sequence of
        its parts is total; one of a number or of a part of the element is not"""
        ety = t[6][0]
        keys = []
        for h in ('hash_map::(?:IntoIter|Iter|Drain|IterMut)', 'hash_map::(?:Keys|IntoKeys)', 'hash_set::(?:Iter|IntoIter|Drain)', 'hash_map::(?:Values|IntoValues)'):
            a = type_args(ety, h)
            a = [x for x in a if not x.startswith("'")]
            if a:
                keys.append(a[0])
        if not keys:
            m = re.match(r"^(?:&'?\w* ?(?:mut )?)*(?:\[|std::vec::Vec<|std::vec::IntoIter<|std::slice::Iter<'_, )(.*)[\]>]$", ety)
            if m:
                e = m.group(1)
                e2 = re.match(r'^&?\(([^,()<>]*(?:<.*?>)?),', e)
                keys.append(e2.group(1) if e2 else e)
        cl = None
        for ty in t[6][1:]:
            m = re.search(r'\{closure', ty)
            if m:
                cl = ty
        # the closure's body: its comparisons, or the type of the key it returns
        cs = [u for u, b in self.prog.bodies.items() if b['kind'] == 'closure' and u.startswith(uid + '::')]
        f = callee(t)
        best = None
        for u in cs:
            if cl and self.prog.bodies[u]['body']['span'].split(':')[1] not in cl and not self.passes(uid, t, u):
                continue
            if not self.passes(uid, t, u):
                continue
            best = u
        if best is None:
            return True       # not resolved: say nothing
        self.comparators[(uid, nm)] = best
        bd = self.prog.bodies[best]['body']
        strip = lambda x: re.sub(r"&(?:'\w+ )?(?:mut )?", '', x).strip()
        keys = [strip(k) for k in keys]
        if nm.endswith('key'):
            seen = [bd['locals'][0]]
        else:
            seen = []
            nested = [b['body'] for u, b in sorted(self.prog.bodies.items()) if u == best or u.startswith(best + '::')]
            for bl in [x for y in nested for x in y['blocks']]:
                tt = bl['term']
                if tt[0] == 'call' and callee(tt).get('name') in ('cmp', 'partial_cmp', 'total_cmp', 'lt', 'gt', 'le', 'ge', 'cmp_by'):
                    seen += tt[6]
                for s in bl['st']:
                    if s[0] == 'assign' and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Gt', 'Le', 'Ge', 'Cmp'):
                        seen.append(s[2][4])
            if any(callee(bl['term']).get('local') or callee(bl['term']).get('reslocal') for bl in bd['blocks'] if bl['term'][0] == 'call'):
                return True   # decided elsewhere
        for x in map(strip, seen):
            if any(k and (k in x) for k in keys) or 'str' == x or 'String' in x and any('String' in k for k in keys):
                return True
            if re.search(r'\bIter\b|MatrixIter|\[|Vec<', x):
                return True
            if x.startswith('(') and len(type_args('T<' + x[1:-1] + '>', 'T')) >= 9:
                return True
        return False

    def passes(self, uid, t, cu):
        """is the closure cu the one handed to this call?"""
        body = self.prog.bodies[uid]['body']
        for a in t[2]:
            p = uses(a)
            if p is None:
                if a[0] == 'const' and a[1].get('uid') == cu:
                    return True
                if a[0] == 'const' and a[1].get('k') in ('zst', 'closure') and cu.split('::')[-1] in str(a[1]):
                    return True
                continue
            for bl in body['blocks']:
                for s in bl['st']:
                    if s[0] == 'assign' and s[1][0] == p[0] and s[2][0] == 'agg' and s[2][1][0] == 'closure' and s[2][1][1] == cu:
                        return True
        return False


def captures(body, o):
    """does the closure handed over carry values of the function around it?"""
    p = uses(o)
    if p is None:
        return False
    for bl in body['blocks']:
        for s in bl['st']:
            if s[0] == 'assign' and s[1][0] == p[0] and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                return bool(s[2][2])
    return False


def effects(prog):
    """calls that read something else than the arguments, and state that outlives a call"""
    found, calls, statics = [], 0, 0
    for u, b, bd in bodies(prog):
        if GENERATED.search(u) or GENERATED.search(b['path']):
            continue
        for bl in bd['blocks']:
            t = bl['term']
            if t[0] == 'call':
                f = callee(t)
                calls += 1
                if f.get('local') or f.get('reslocal'):
                    continue
                full = ' '.join((f.get('path') or '', f.get('res') or ''))
                if re.search(r'Once(?:Lock|Cell)', full) and f.get('name') in ('set', 'get_or_init', 'get_or_try_init', 'take', 'get_mut'):
                    # a value computed once from nothing but constants is the same whenever that happens
                    if f['name'] not in ('get_or_init', 'get_or_try_init') or captures(bd, t[2][1]):
                        found.append((short(b['path']), f.get('name'), 'state kept between calls', t[5]))
                    continue
                for pat, what in FORBIDDEN:
                    if any(re.search(pat, x) for x in (f.get('path') or '', f.get('res') or '')):
                        found.append((short(b['path']), f.get('name'), what, t[5]))
                        break
            for s in bl['st']:
                if s[0] == 'assign' and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                    found.append((short(b['path']), 'cast', 'addresses in memory', s[3]))
        if b['kind'] == 'static' and bd is b['body']:
            statics += 1
            ty = bd['locals'][0]
            if b['mutstatic']:
                found.append((short(b['path']), 'static mut', 'state kept between calls', bd['span']))
            elif SHARED.search(ty) and 'lazy_static::lazy::Lazy<' not in ty.split('Cell')[0] or ('Lazy<' in ty and SHARED.search(ty.split('Lazy<', 1)[1])):
                if not ty.startswith('pyo3::'):
                    found.append((short(b['path']), 'static', 'state kept between calls', bd['span']))
    return found, calls, statics


def hash_order(prog):
    o = Order(prog)
    bad = {}
    n = 0
    for u, b in sorted(prog.bodies.items()):
        if b['kind'] in ('closure', 'const', 'anonconst', 'promoted') or GENERATED.search(u):
            continue
        n += 1
        r, m = o.summary(u)
        open_ = b['pub'] or b['reachable'] or b.get('trait') or b['kind'] == 'static' or '__static_ref_initialize' in u or '::' not in u
        if not open_:
            continue
        for g in set(r) | {x for v in m.values() for x in v}:
            bad.setdefault((g[1], g[2]), []).append((short(b['path']), g[3]))
    return o, bad, n


def c21(prog):
    ck = Check('C21')
    found, calls, statics = effects(prog)
    for u, b in prog.bodies.items():
        ck.analysed.add(short(b['path']))
    ck.ncalls = calls
    hit = {f[0] for f in found}
    for u, b in sorted(prog.bodies.items()):
        if b['kind'] in ('fn', 'method', 'closure', 'static') and not GENERATED.search(u) and short(b['path']) not in hit:
            ck.ob('effects', True, short(b['path']), 'only its arguments and constants')
    for fn, nm, what, where in found:
        ck.ob('effects', False, '%s/%s' % (fn, nm), '%s depends on %s: %s' % (fn, what, nm), where)
    o, bad, n = hash_order(prog)
    walks = sorted({(a, b) for a, b, _ in o.sites} | set(bad))
    for fn, nm in walks:
        b = bad.get((fn, nm))
        ck.ob('hash-order', not b, 'order/%s/%s' % (fn, nm),
              'the order in which a hash container is walked in %s (%s) reaches the result of %s' % (fn, nm, ', '.join(sorted({x[0] for x in b}))[:200])
              if b else 'walked, but sorted or used without its order', (b or [('', '')])[0][1])
    # the rules must fire on the example
    ex = example('effects', 0)
    ef = {(x[0], x[2]) for x in effects(ex)[0]}
    _, eb, _ = hash_order(ex)
    fns = {short(b['path']) for b in ex.bodies.values()}
    hit = {x[0] for x in ef} | {x[0] for v in eb.values() for x in v}
    miss = sorted(f for f in fns if f.startswith('bad_') and '::' not in f and f not in hit)
    extra = sorted(f for f in fns if f.startswith('good_') and '::' not in f and f in hit)
    ck.ob('self-test', not miss and not extra, 'examples', 'the rules miss %s and fire on %s' % (miss, extra) if miss or extra else
          '%d violating and %d innocent examples judged rightly' % (len([f for f in fns if f.startswith('bad_')]), len([f for f in fns if f.startswith('good_')])))
    ck.floor('functions followed', n, 60)
    ck.floor('calls inspected', calls, 600)
    ck.extra['hash_walks'] = ['%s %s %s' % k for k in sorted(o.sites)]
    return ck.finish('unbounded', 'no call in the crate reaches the clock, the environment, files, threads, random numbers, memory addresses or '
                     'state kept between calls; a forward data flow over MIR (through calls) follows the order of every walk over a hash container: it '
                     'must not reach a result without being sorted by a total order or used without its order', ['rustc MIR construction', 'classification of standard library calls'],
                     ['what the dependencies (nalgebra, itertools, pyo3) compute depends on their arguments only',
                      'ties in a comparison of map keys or whole elements do not occur'])


# --------------------------------------------------------------------------------------------- C23

WIDE = re.compile(r'\b(usize|isize|u32|i32|u64|i64|u128|i128)\b')
FIXED = re.compile(r"MatrixIter|RowIter|ColumnIter|array::IntoIter|^(?:&(?:'\w+ )?(?:mut )?|std::boxed::Box<|std::mem::MaybeUninit<)*\[[^\[\]]*; \d+\]|^(?:&(?:'\w+ )?(?:mut )?)*nalgebra::Matrix<|str::(?:Chars|Bytes|CharIndices)|Option<|option::Iter|once::Once")
TEXT = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:str|std::string::String)$")
COUNTS = {'len', 'count', 'position', 'rposition', 'capacity', 'iter_len', 'last_index', 'partition_point', 'rank_of'}
SILENT = {'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'ok', 'map_or', 'map_or_else', 'unwrap_unchecked', 'is_ok'}


def narrow(t):
    return t in NARROW


class Sizes:
    """which integers grow with the number of sites or operations, and where they are put into a narrow type"""

    def __init__(self, prog):
        self.prog = prog
        self.params, self.rets = {}, {}
        self.sinks, self.sources, self.guarded = {}, {}, {}
        self.fixed = {}

    def run(self):
        us = [u for u in sorted(self.prog.bodies) if not GENERATED.search(u)]
        given = {}       # function -> parameter -> does every caller hand over something of fixed size?
        for u in us:
            body = self.prog.bodies[u]['body']
            for bl in body['blocks']:
                t = bl['term']
                lu = local_of(self.prog, callee(t)) if t[0] == 'call' else None
                if lu is None:
                    continue
                for i, a in enumerate(t[2]):
                    p = uses(a)
                    given.setdefault((lu, i + 1), []).append(bool(p and self.const_range(body, p[0])))
        self.fixed = {id(self.prog.bodies[u]['body']): {i for (v, i), g in given.items() if v == u and all(g)} for u in us}
        for _ in range(6):
            before = (str(sorted(self.params.items())), str(sorted(self.rets.items())))
            for u in us:
                self.function(u)
            if before == (str(sorted(self.params.items())), str(sorted(self.rets.items()))):
                break
        return self

    def sink(self, name, what, where):
        self.sinks.setdefault((name, what), where)

    def const_range(self, body, l, seen=()):
        """does the iterator in local l walk a range with constant bounds or something of fixed size?"""
        if l in seen:
            return None
        ty = body['locals'][l]
        if l <= body['argc'] and l in self.fixed.get(id(body), ()):
            return True
        if re.match(r'std::vec::Vec<', ty) and any(s[0] == 'assign' and s[2][0] == 'ref' and s[2][1] and s[2][2][0] == l for bl in body['blocks'] for s in bl['st']):
            return False     # may grow after it was made
        if FIXED.search(ty) and not re.search(r"slice::Iter<|hash_|RangeFrom|vec::IntoIter|Hash", ty):
            return True
        for bl in body['blocks']:
            for s in bl['st']:
                if s[0] == 'assign' and s[1][0] == l and not s[1][1]:
                    r = s[2]
                    if r[0] == 'agg' and r[1][0] == 'adt' and 'Range' in r[1][1]:
                        return bool(r[2]) and all(uses(o) is None or self.const_range(body, uses(o)[0], seen + (l,)) is True for o in r[2])
                    for p in places(r):
                        if p[0] != l:
                            x = self.const_range(body, p[0], seen + (l,))
                            if x is not None:
                                return x
            t = bl['term']
            if t[0] == 'call' and t[3][0] == l and not t[3][1] and t[2]:
                if callee(t).get('name') == 'new' and 'Range' in ty:
                    return all(uses(o) is None for o in t[2])
                ps = [uses(o) for o in t[2]]
                xs = [self.const_range(body, p[0], seen + (l,)) for p in ps if p]
                xs = [x for x in xs if x is not None]
                if xs:
                    return all(xs)
        if re.search(r'Vec<|slice::Iter|&\[|hash_|Hash|RangeFrom|Repeat|Lines|Split', ty):
            return False
        return None

    def function(self, u):
        rec = self.prog.bodies[u]
        body = rec['body']
        cfg = self.prog.cfg(u)
        tys = body['locals']
        name = short(rec['path'])
        big = dict(self.params.get(u, {}))
        al = Order.aliases(self, body)
        blocks = [b for b in cfg.rpo if not body['blocks'][b]['cleanup']]

        def tag(l, why):
            if l in big:
                return False
            big[l] = why
            return True

        def of(o):
            p = uses(o)
            if p is None:
                return None
            return big.get(p[0])

        ch = True
        while ch:
            ch = False
            for b in blocks:
                bl = body['blocks'][b]
                for s in bl['st']:
                    if s[0] != 'assign':
                        continue
                    d, r = s[1][0], s[2]
                    why = next((big[p[0]] for p in places(r) if p[0] in big), None)
                    if r[0] == 'bin':
                        if r[1] == 'Rem' and uses(r[3]) is None:
                            why = None
                        if r[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'Cmp'):
                            why = None
                    if r[0] == 'discr':
                        why = None
                    ty = tys[d] if not s[1][1] else ''
                    if why and (s[1][1] or WIDE.search(ty) or r[0] in ('agg', 'ref')) and (ty not in ('bool', 'f64')):
                        if not s[1][1] and not WIDE.search(ty) and '{closure' not in ty:
                            continue
                        ch |= tag(d, why)
                    # a counter of its own: one more in every turn of a loop
                    if r[0] == 'bin' and r[1].startswith('Add') and WIDE.fullmatch(r[4]) and self.grows(body, cfg, b, s, False):
                        for p in places(r):
                            for a in al.get(p[0], set()) | {p[0]} | Order.copied(self, body, p[0]):
                                if WIDE.search(tys[a]) and tag(a, 'counter in %s' % name):
                                    self.sources[(name, 'counter', s[3])] = s[3]
                                    ch = True
                t = bl['term']
                if t[0] != 'call':
                    continue
                f = callee(t)
                nm = f.get('name') or ''
                atys, dty = t[6], t[7]
                d = t[3][0]
                # stored in something else: entry(..).or_insert(n), push(n), insert(.., n)
                if len(t[2]) > 1 and uses(t[2][0]) and local_of(self.prog, f) is None:
                    w = next((of(a) for a, ty in zip(t[2][1:], atys[1:]) if of(a) and WIDE.search(ty)), None)
                    if w and ('&mut' in atys[0] or 'Entry<' in atys[0]):
                        for a in al.get(uses(t[2][0])[0], set()):
                            if WIDE.search(tys[a]):
                                ch |= tag(a, w)
                lu = local_of(self.prog, f)
                if lu is not None and not (f.get('inst') or '').startswith('Closure'):
                    for i, a in enumerate(t[2]):
                        w = of(a)
                        if w and WIDE.search(atys[i]):
                            self.params.setdefault(lu, {}).setdefault(i + 1, w)
                    if self.rets.get(lu):
                        ch |= tag(d, self.rets[lu])
                    continue
                if nm in COUNTS and dty != 'bool' and WIDE.search(dty) and not (atys and (TEXT.match(atys[0]) or FIXED.search(atys[0]))):
                    self.sources[(name, nm, t[5])] = t[5]
                    ch |= tag(d, '%s in %s' % (nm, name))
                elif nm == 'next' and atys and 'Enumerate<' in atys[0] and not self.bounded_next(body, t):
                    self.sources[(name, 'enumerate', t[5])] = t[5]
                    ch |= tag(d, 'enumerate in %s' % name)
                elif nm in ('counts', 'counts_by'):
                    ch |= tag(d, '%s in %s' % (nm, name))
                else:
                    w = next((of(a) for a in t[2] if of(a)), None)
                    if w and WIDE.search(dty) and dty not in ('bool', 'f64', '()'):
                        ch |= tag(d, w)
        if 0 in big and WIDE.search(tys[0]):
            self.rets[u] = big[0]
        self.judge(u, name, body, cfg, blocks, tys, big, of)

    def bounded_next(self, body, t):
        p = uses(t[2][0]) if t[2] else None
        return bool(p and self.const_range(body, p[0]))

    def judge(self, u, name, body, cfg, blocks, tys, big, of):
        closure = self.prog.bodies[u]['kind'] == 'closure'
        for b in blocks:
            bl = body['blocks'][b]
            for s in bl['st']:
                if s[0] != 'assign':
                    continue
                r = s[2]
                if r[0] == 'cast' and r[1] in ('IntToInt', 'FloatToInt') and narrow(r[3]):
                    w = of(r[2])
                    if w:
                        if self.guard(body, cfg, b, uses(r[2])[0]):
                            self.guarded[(name, 'cast ' + r[3])] = s[3]
                        else:
                            self.sink(name, 'cast to %s of %s' % (r[3], w), s[3])
                if r[0] == 'bin' and r[1].startswith(('Add', 'Mul', 'Sub')) and narrow(r[4]):
                    h = self.grows(body, cfg, b, s, closure)
                    if h:
                        self.sink(name, '%s counter' % r[4], s[3])
            t = bl['term']
            if t[0] != 'call':
                continue
            f = callee(t)
            nm = f.get('name') or ''
            dty = t[7]
            if nm in ('try_from', 'try_into') and re.match(r'std::result::Result<(%s)\b' % '|'.join(NARROW), dty) and any(of(a) for a in t[2]):
                w = next(of(a) for a in t[2] if of(a))
                end = self.consumed(body, t[3][0])
                if end & SILENT:
                    self.sink(name, 'conversion to %s of %s' % (re.match(r'std::result::Result<(\w+)', dty).group(1), w), t[5])
                else:
                    self.guarded[(name, nm)] = t[5]
            if nm in ('to_u8', 'to_i8', 'to_u16', 'to_i16') and any(of(a) for a in t[2]):
                self.guarded[(name, nm)] = t[5]
            if nm in ('sum', 'product', 'fold') and narrow(dty) and t[2] and uses(t[2][0]) and self.const_range(body, uses(t[2][0])[0]) is False:
                self.sink(name, '%s in %s' % (nm, dty), t[5])
            if nm in ('wrapping_add', 'saturating_add', 'overflowing_add', 'wrapping_mul', 'saturating_mul', 'add_assign') and t[6] and narrow(t[6][0].replace('&mut ', '')):
                if self.unbounded(body, cfg, b) or closure:
                    self.sink(name, '%s on %s' % (nm, t[6][0].replace('&mut ', '')), t[5])
        for l, ty in enumerate(tys):
            m = re.search(r'RangeFrom<(%s)>' % '|'.join(NARROW), ty)
            if m:
                self.sink(name, 'numbering in %s' % m.group(1), body['span'])

    def unbounded(self, body, cfg, b):
        """header of an enclosing loop whose number of turns is not fixed"""
        for h, bs in cfg.loops.items():
            if b not in bs:
                continue
            nx = [body['blocks'][c]['term'] for c in bs if body['blocks'][c]['term'][0] == 'call' and callee(body['blocks'][c]['term']).get('name') == 'next'
                  and self.innermost(cfg, c) == h]
            if nx:
                if not all(self.bounded_next(body, t) for t in nx):
                    return h + 1
            else:
                return h + 1
        return 0

    def innermost(self, cfg, b):
        best = None
        for h, bs in cfg.loops.items():
            if b in bs and (best is None or len(bs) < len(cfg.loops[best])):
                best = h
        return best

    def grows(self, body, cfg, b, s, closure):
        """the sum is written back to the place it was read from, once per turn of a loop without fixed length"""
        reads = [p for p in map(uses, operands(s[2])) if p]
        roots = [p for p in reads]
        for p in reads:
            if not p[1]:
                for bl in body['blocks']:
                    for x in bl['st']:
                        if x[0] == 'assign' and x[1] == [p[0], []] and x[2][0] == 'use' and uses(x[2][1]):
                            roots.append(uses(x[2][1]))
        tmp = s[1][0]
        back = False
        tmps = {tmp}
        canon = [self.canon(body, p) for p in roots]
        for _ in range(3):
            for bl in body['blocks']:
                for x in bl['st']:
                    if x[0] == 'assign' and x[2][0] == 'use' and uses(x[2][1]) and uses(x[2][1])[0] in tmps:
                        if x[1] in roots or self.canon(body, x[1]) in canon:
                            back = True
                        elif not x[1][1]:
                            tmps.add(x[1][0])
        if s[1] in roots:
            back = True
        if not back:
            return False
        h = self.unbounded(body, cfg, b)
        if h:
            # a counter that the loop compares with a constant is bounded by it
            bs = cfg.loops[h - 1]
            for c in bs:
                for x in body['blocks'][c]['st']:
                    if x[0] == 'assign' and x[2][0] == 'bin' and x[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                        ps = [uses(o) for o in (x[2][2], x[2][3])]
                        if any(p is None for p in ps):
                            q = next((p for p in ps if p), None)
                            if q and (q in roots or any(y[0] == 'assign' and y[1] == q and y[2][0] == 'use' and uses(y[2][1]) in roots
                                                        for bl in body['blocks'] for y in bl['st'])):
                                return False
            return True
        # a captured or borrowed counter inside a closure: the closure runs once per element
        return closure and any(e[0] == 'deref' for p in roots for e in p[1])

    def canon(self, body, p):
        """the same place without the temporaries that hold copies of references"""
        for _ in range(4):
            srcs = [x for bl in body['blocks'] for x in bl['st'] if x[0] == 'assign' and x[1] == [p[0], []]]
            if len(srcs) != 1 or srcs[0][2][0] != 'use' or not uses(srcs[0][2][1]) or not p[1]:
                return p
            q = uses(srcs[0][2][1])
            p = [q[0], list(q[1]) + list(p[1])]
        return p

    def consumed(self, body, l):
        out = set()
        ls = {l}
        for _ in range(3):
            for bl in body['blocks']:
                for s in bl['st']:
                    if s[0] == 'assign' and any(p[0] in ls for p in places(s[2])) and not s[1][1]:
                        ls.add(s[1][0])
                t = bl['term']
                if t[0] == 'call' and t[2] and uses(t[2][0]) and uses(t[2][0])[0] in ls:
                    out.add(callee(t).get('name'))
        return out

    def guard(self, body, cfg, b, l):
        """a comparison with a constant decides whether the cast is reached, and the other branch does not return"""
        roots = {l}
        for _ in range(3):
            for bl in body['blocks']:
                for s in bl['st']:
                    if s[0] == 'assign' and s[2][0] == 'use' and uses(s[2][1]):
                        p = uses(s[2][1])
                        if s[1][0] in roots:
                            roots.add(p[0])
                        elif p[0] in roots and not s[1][1] and not p[1]:
                            roots.add(s[1][0])
        for c in cfg.rpo:
            if c == b or not cfg.dominates(c, b) or body['blocks'][c]['term'][0] != 'switch':
                continue
            cond = uses(body['blocks'][c]['term'][1])
            for s in body['blocks'][c]['st']:
                if s[0] == 'assign' and cond and s[1][0] == cond[0] and s[2][0] == 'bin' and s[2][1] in ('Lt', 'Le', 'Gt', 'Ge'):
                    ps = [uses(o) for o in (s[2][2], s[2][3])]
                    if any(p is None for p in ps) and any(p and p[0] in roots for p in ps):
                        for nx in cfg.succ[c]:
                            if not self.returns(body, cfg, nx):
                                return True
        return False

    def returns(self, body, cfg, b):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if body['blocks'][x]['term'][0] == 'return':
                return True
            st += cfg.succ[x]
        return False


def c23(prog):
    ck = Check('C23')
    z = Sizes(prog).run()
    for u, b in sorted(prog.bodies.items()):
        if b['kind'] in ('fn', 'method', 'closure') and not GENERATED.search(u):
            n = short(b['path'])
            ck.analysed.add(n)
            if not any(k[0] == n for k in z.sinks):
                ck.ob('widths', True, n, 'no count, index or order in a narrow type')
    for (n, what), where in sorted(z.sinks.items()):
        ck.ob('widths', False, '%s/%s' % (n, what), 'a count, index or order is kept in a type in which it can overflow: %s' % what, where)
    for (n, what), where in sorted(z.guarded.items()):
        ck.ob('conversions', True, '%s/%s' % (n, what), 'does not return a wrong value', where)
    ex = example('sizes', 0)
    hit = {k[0].split('::')[0] for k in Sizes(ex).run().sinks}
    fns = {short(b['path']) for b in ex.bodies.values()}
    miss = sorted(f for f in fns if f.startswith('bad_') and '::' not in f and f not in hit)
    extra = sorted(f for f in fns if f.startswith('good_') and '::' not in f and f in hit)
    ck.ob('self-test', not miss and not extra, 'examples', 'the rules miss %s and fire on %s' % (miss, extra) if miss or extra else
          '%d violating and %d innocent examples judged rightly' % (len([f for f in fns if f.startswith('bad_')]), len([f for f in fns if f.startswith('good_')])))
    ck.floor('sources of counts', len(z.sources), 4)
    ck.extra['sources'] = ['%s %s %s' % k for k in sorted(z.sources)]
    return ck.finish('unbounded', 'integers that grow with the number of sites or operations (lengths, counts, positions, loop counters) are followed through MIR '
                     'and calls: none may be cast to, summed in or converted with a substitute value to an 8- or 16-bit type',
                     ['rustc MIR construction', 'list of standard functions that return counts'], ['counts fit into 32 bits'])


# --------------------------------------------------------------------------------------------- C22

INVERSIONS = {'try_inverse', 'try_invert_to', 'try_inverse_mut', 'pseudo_inverse', 'invert', 'inverse', 'solve', 'solve_mut', 'solve_lower_triangular',
              'solve_upper_triangular', 'lu', 'qr', 'full_piv_lu', 'col_piv_qr', 'cholesky'}
RANKS = {2: [[1, 2, -1], [0, 1, 3], [1, 3, 2]], 1: [[1, 2, 3], [2, 4, 6], [-1, -2, -3]], 0: [[0, 0, 0], [0, 0, 0], [0, 0, 0]]}


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


UNKNOWN = re.compile(r'\b(%s|apply\()' % '|'.join(t for t in TAINT if t != 'apply'))
LOOPED = re.compile(r"\bmu\(|'grow'")      # values that change from one pass of a loop to the next


class Sing(Ev):
    """sample point at which one matrix is singular; rank and invertibility are computed from the entries"""

    def entries(self, m):
        if isinstance(m, Mat) and m.r == m.c == 3:
            return [[self.num(m.at(i, j)) for j in range(3)] for i in range(3)]
        return None

    def rank(self, m):
        v = self.entries(m)
        if v is None:
            return None
        if abs(det3(v)) > D(10) ** -30:
            return 3
        for a in range(3):
            for b in range(a):
                for c in range(3):
                    for d in range(c):
                        if abs(v[a][c] * v[b][d] - v[a][d] * v[b][c]) > D(10) ** -30:
                            return 2
        return 1 if any(abs(x) > D(10) ** -30 for r in v for x in r) else 0

    def atom(self, a):
        if re.search(r'\brank$', a.name) and a.args:
            r = self.rank(a.args[0])
            if r is not None:
                return D(r)
        return Ev.atom(self, a)

    def var(self, i):
        d = B.vars[i]
        if d[0] == 'at' and d[2] == 'singular':
            r = self.rank(d[1][0])
            if r is not None:
                return r < 3
        return Ev.var(self, i)


def refuses(ck, prog, p, args, hit, key, what, contracts=None, fixed=None):
    """no path returns at sample points where the matrix is singular; hit(name, args) -> (row, column) of its entries"""
    e = Engine(prog, contracts=contracts or {})
    e.assume_invertible = False
    try:
        rets = e.analyse(p, args=args)
    except Exception as ex:
        return ck.ob('refusal', None, key, 'analysis stopped: %s' % str(ex)[:150])
    ck.used(e)
    memo = {}

    def depends(v):
        """does a condition depend on the matrix (or on something unknown)?"""
        if v not in memo:
            acc = {}
            _collect(B.vars[v][1], acc, set())
            memo[v] = not LOOPED.search(repr(B.vars[v])) and (UNKNOWN.search(repr(B.vars[v])) is not None or any(
                hit(x.a.name, [y.a if isinstance(y, Num) and y.op == 'c' else -1 for y in x.a.args]) for x in acc.values()))
        return memo[v]
    for rank, m in sorted(RANKS.items(), reverse=True) + [(3, [[2, 1, 0], [0, 3, 1], [1, 0, 4]])]:
        def asg(nm, a):
            h = hit(nm, a)
            if h is not None:
                return D(m[h[0]][h[1]])
            if fixed:
                r = fixed(nm, a)
                if r is not None:
                    return r
            if nm.startswith('?'):
                return None
            return folded(nm, a)
        good, msg = True, ''
        alive = False
        for st, r in rets:
            pc, dark = st.pc, False
            for v in sorted(B.support(pc)):
                if not depends(v):          # says nothing about the matrix: both ways are possible
                    continue
                try:
                    t = Sing(asg, seed=rank).var(v)
                except Undecided:
                    dark = True
                    continue
                pc = B.restrict(pc, v, 1 if t else 0)
                if pc == 0:
                    break
            if pc == 0:
                continue
            alive = True
            if dark:
                good = None if good else good
                msg = 'conditions of a returning path not known'
            else:
                good = False
        if rank == 3:
            ck.ob('acceptance', alive, key + '/invertible', '' if alive else 'an invertible %s is refused as well' % what, p)
            continue
        ck.ob('refusal', good, '%s/rank%d' % (key, rank), msg or ('a singular %s (rank %d) is not refused: a result is returned' % (what, rank)
              if good is False else 'every path ends in a panic'), p)


def c22(prog):
    ck = Check('C22')
    S = coherent(prog)[STRUCT](None, 's', ())
    S2 = coherent(prog)[STRUCT](None, 'q', ())
    fp = fpath(prog, None, 'utils::normalize_frac_vectors')
    con = {fp: fold_contract} if fp else {}
    T = mat('T')

    def named(n):
        return lambda nm, a: (int(a[-2]), int(a[-1])) if nm == n and len(a) >= 2 else None

    def lattice(nm, a):
        return (int(a[-2]), int(a[-1])) if nm == 's.L' and len(a) == 2 else None
    i = sym('#i', ('sites', 's'), 'int')
    xyz = Seq([Many(('sites', 's'), (i,), (Mat(3, 1, [sym('x', (i, const(k))) for k in range(3)]),))], 'vec')
    spec = Seq([Many(('sites', 's'), (i,), (Opq('s.s', (i,), 'std::string::String'),))], 'vec')
    targets = [
        ('Structure::apply_transformation', [S, T, sym('tol')], named('T'), 'transformation'),
        ('SpaceGroup::apply_transformation', [space_group(prog), T, TOL3], named('T'), 'transformation'),
        ('PointGroup::apply_transformation', [point_group(prog), T], named('T'), 'transformation'),
        ('Structure::get_frac_coords', [T, xyz], named('T'), 'lattice'),
        ('Structure::reciprocal_lattice', [S], lattice, 'lattice'),
        ('Structure::get_transformation_matrix', [S, S2], lattice, 'lattice'),
        ('Structure::new', [T, spec, xyz, TRUE], named('T'), 'lattice'),
    ]
    done = set()
    for fn, args, hit, what in targets:
        p = fpath(prog, ck, fn)
        if p:
            done.add(prog.uid(p))
            refuses(ck, prog, p, args, hit, fn, what, con)
    # the transformations of the analysis, each step a symbol
    for fn, args in (('SymmetryAnalyzer::get_space_group_info', None),):
        pl = Steps(prog, ck, fn)
        if pl.p:
            done.add(prog.uid(pl.p))
            for n, what in (('TC', 'conventional transformation'), ('TP', 'primitive transformation')):
                refuses(ck, prog, pl.p, [None, pl.S], named(n), fn + '/' + n, what, pl.con, regular)
    # every other function that inverts something
    sites = 0
    for u, b, bd in bodies(prog):
        if GENERATED.search(u):
            continue
        for bl in bd['blocks']:
            t = bl['term']
            if t[0] != 'call':
                continue
            f = callee(t)
            ck.ncalls += 1
            if re.search(r'catch_unwind', target(f)):
                ck.ob('panics', False, short(b['path']) + '/catch_unwind', 'the panic that refuses a singular matrix is caught', t[5])
            if f.get('name') in INVERSIONS and 'nalgebra' in ' '.join((target(f), f.get('path') or '')):
                sites += 1
                top = owner(prog, u)
                if top in done or top is None:
                    continue
                done.add(top)
                tp = prog.bodies[top]['path']
                refuses(ck, prog, tp, None, lambda nm, a: (int(a[-2]), int(a[-1])) if len(a) >= 2 and all(str(x) in '012' for x in a[-2:]) else None,
                        short(tp), 'matrix', con)
    ck.ob('panics', True, 'catch_unwind', 'no panic is caught outside the generated Python wrappers')
    ck.floor('inversion calls', sites, 6)
    ck.extra['inversions'] = sites
    return ck.finish('bounded', 'every function that inverts a matrix is summarised with the success of the inversion as a condition (a pseudo-inverse succeeds on every matrix); '
                     'at sample matrices of rank 2, 1 and 0 the condition of every returning path is false; no panic is caught', TRUST,
                     ['nalgebra reports a matrix with determinant zero as not invertible', 'exact arithmetic: matrices whose rounded determinant is not zero count as invertible'])


def regular(nm, a):
    """all other lattices and transformations of the analysis are invertible"""
    if len(a) >= 2 and nm in ('TC', 'TP') or nm.endswith('.L'):
        i, j = int(a[-2]), int(a[-1])
        return D([[2, 1, 0], [0, 3, 1], [1, 0, 4]][i][j]) if i < 3 and j < 3 else None
    return None


def owner(prog, u):
    """the named function a closure belongs to"""
    while u in prog.bodies and prog.bodies[u]['kind'] == 'closure':
        u = u.rsplit('::', 1)[0]
    return u if u in prog.bodies and prog.bodies[u]['kind'] in ('fn', 'method') else None


class Steps(Pipeline):
    def __init__(self, prog, ck, fn):
        self.con = {}
        Pipeline.__init__(self, prog, Check('C22x'), fn)
        Check.last = ck
        for s in STEPS:
            q = fpath(prog, None, s)
            if q:
                self.con[q] = self.step(s.split('::')[1] if s != 'SpaceGroup::apply_transformation' else 'move_group', q)


# ---------------------------------------------------------------- C30: no undefined numbers, tolerances without a hand
PARTIAL = ('powf', 'powi', 'pow', 'sqrt', 'ln', 'log', 'log2', 'log10', 'acos', 'asin')
CELLULAR = ('abs', 'sqrt', 'signum', 'pow', 'powf', 'powi', 'cbrt')
TOLERANT = ('utils::cust_eq', 'utils::num_negative_zero')
CELLS = [[[3, 0, 0], [0, 4, 0], [0, 0, 5]], [[4, -1, 2], [1, 5, -2], [0, 1, 6]], [[2, 1, 0], [-2, 4, 1], [1, -1, 7]],
         [[3, 3, 0], [1, -1, 1], [0, 2, 9]], [['0.2', '0.1', '0.05'], ['0', '0.3', '-0.1'], ['0.1', '0', '0.25']], [[40, -20, 0], [0, 35, 10], [3, 0, 60]]]


def hands():
    """sample cells with positive volume, each with its mirror images"""
    for n, c in enumerate(CELLS):
        L = [[D(x) for x in r] for r in c]
        if det3(L) < 0:
            L = [[-x for x in r] for r in L]
        yield n, L, [[[-x for x in r] for r in L], [r[1:2] + r[0:1] + r[2:] for r in L], [[-r[0]] + r[1:] for r in L]]


def nearest(prog):
    """functions given a structure or a lattice from which an operation that is not defined everywhere is reached
    without passing through another such function"""
    calls, has = {}, {}
    for u, b, bd in bodies(prog):
        if GENERATED.search(u):
            continue
        o = owner(prog, u) if b['kind'] == 'closure' else u
        for bl in bd['blocks']:
            t = bl['term']
            if t[0] == 'call':
                f = callee(t)
                v = local_of(prog, f)
                if v:
                    calls.setdefault(o, set()).add(v)
                elif f.get('name') in PARTIAL and 'f64' in ' '.join(map(str, t[6])) + target(f):
                    has[o] = has.get(o, 0) + 1
    def given(u):
        b = prog.bodies[u]
        ty = [str(b['body']['locals'][i]) for i in range(1, b['body']['argc'] + 1)]
        return any('Structure' in x or 'Const<3>, nalgebra::Const<3>' in x for x in ty)
    reach = dict(has)
    tops = {u for u in reach if u in prog.bodies and given(u)}
    front = set(reach) - tops
    while front:
        nxt = {u for u, cs in calls.items() if cs & front and u not in reach and u in prog.bodies}
        for u in nxt:
            reach[u] = 1
            if given(u):
                tops.add(u)
        front = nxt - tops
    return sorted(tops), sum(has.values())


def c30(prog):
    ck = Check('C30')
    tops, sites = nearest(prog)
    anchors = [fpath(prog, ck, 'Reducer::niggli_reduce'), fpath(prog, ck, 'SymmetryAnalyzer::get_lattice_character')]
    tops += [prog.uid(p) for p in anchors if p and prog.uid(p) not in tops]
    nvars = nargs = ncalls = 0
    for u in tops:
        b = prog.bodies[u]
        p = b['path']
        body = b['body']
        args, cell = [], None
        for i in range(1, body['argc'] + 1):
            ty = str(body['locals'][i])
            if 'Structure' in ty and cell is None:
                args.append(coherent(prog)[STRUCT](None, 's', ()))
                cell = 's.L'
            elif 'Const<3>, nalgebra::Const<3>' in ty and cell is None:
                args.append(mat('L'))
                cell = 'L'
            elif re.fullmatch(r'(&)?f64', ty.replace("'_ ", '').replace('{erased} ', '')):
                args.append(sym('tol'))
            else:
                args.append(None)
        seen = []
        known = {fpath(prog, None, t) for t in TOLERANT} - {None}
        e = Engine(prog, watch=known, max_states=200000)
        old = {n: models.TABLE[n] for n in PARTIAL if n in models.TABLE}

        def spy(f):
            def g(c):
                try:
                    x = c.eng.rd(c.st, c.args[0])
                    k = c.n(1) if len(c.args) > 1 else None
                    seen.append((c.name, x, k, c.st.pc, c.site))
                except Undecided:
                    pass
                return f(c)
            return g
        n0 = len(B.vars)
        for n in old:
            models.TABLE[n] = spy(old[n])
        try:
            rets = e.analyse(p, args=args)
        except Exception as ex:
            ck.ob('real', None, short(p), 'analysis stopped: %s' % str(ex)[:150])
            continue
        finally:
            for n in old:
                models.TABLE[n] = old[n]
        ck.used(e)
        conds = [i for i in range(n0, len(B.vars)) if B.vars[i][0] in ('lt', 'eq')]
        free = {i for i in conds if all(x.a.name in CELLULAR or x.a.name == cell for x in terms_of(B.vars[i][1]))}
        conds = [i for i in conds if any(x.a.name == 'tol' for x in terms_of(B.vars[i][1]))]
        seen = list({(x[0], vkey(x[1]), x[3]): x for x in seen}.values())
        tols = list({(v['fn'], vkey(v['args'][-1]), v['pc']): (v['fn'], v['args'][-1], v['pc']) for v in e.events
                     if v['args'] and isinstance(v['args'][-1], Num)}.values())
        ncalls += len(seen)
        nvars += len(conds)
        nargs += len(tols)
        paths = {st.pc for st, r in rets} | {v['pc'] for v in e.events} | {x[3] for x in seen} | {x.pc for x in e.panics}
        for k, L, mirrors in hands():
            met = []
            for h, M in enumerate([L] + mirrors):
                word = 'right-handed' if h == 0 else 'left-handed'

                def point(tol):
                    def asg(nm, a):
                        if nm == cell and len(a) >= 2:
                            return M[int(a[-2])][int(a[-1])]
                        if nm == 'tol':
                            return tol
                        return None
                    return Ev(asg, seed=k)
                ev = point(D('0.01'))
                lean = {i: coefficient(B.vars[i][1], point) for i in conds}
                fixed = {}
                for i in set(free) | {i for i, c in lean.items() if not isinstance(c, str) and c[0] == 0}:
                    try:
                        fixed[i] = ev.var(i)
                    except Undecided:
                        pass
                taken = lambda pc: restrict(pc, fixed)
                for name, x, y, pc, site in seen:
                    defined(ck, ev, p, name, x, y, taken(pc), word)
                for q, x, pc in tols:
                    positive(ck, ev, p, q, x, taken(pc), word)
                near = set()
                for pc in paths:
                    near |= set(B.support(taken(pc)))
                met.append({i: c for i, c in lean.items() if i in near and i not in fixed})
            for i in met[0]:
                for other in met[1:]:
                    if i in other:
                        one, two = met[0][i], other[i]
                        if isinstance(one, str) or isinstance(two, str):
                            w = one if isinstance(one, str) else two
                            ck.ob('same for both hands', True if 'negative' in w else None, short(p) + '/condition', w)
                            continue
                        good = close(one[1], two[1]) or any(not isinstance(c, str) and close(abs(c[0]), abs(one[0])) and close(c[0] * c[1], -one[0] * one[1])
                                                            for c in met[0].values())
                        ck.ob('same for both hands', good, short(p) + '/tolerance-of-mirror-image',
                              'the tolerance used in a comparison differs between a cell and its mirror image (%.4g and %.4g times the tolerance given)'
                              % (one[1] * 100, two[1] * 100) if not good else '', p)
    ck.floor('comparisons with a tolerance', nvars, 20)
    ck.extra['partial_operations'] = sites
    ck.extra['summarised_calls'] = ncalls
    ck.extra['functions'] = [short(prog.bodies[u]['path']) for u in tops]
    ck.extra['tolerance arguments'] = nargs
    return ck.finish('bounded', 'the arguments of every power, root, logarithm and inverse cosine reached from a structure or lattice are evaluated at sample cells and their mirror '
                     'images and must lie where the operation is defined; the tolerance in every comparison must be the same for a cell and its mirror image and not negative',
                     TRUST, ['sampled cells of both hands, from 0.2 to 60 angstrom; exact arithmetic'])


def terms_of(x):
    acc = {}
    _collect(x, acc, set())
    return acc.values()


def restrict(pc, fixed):
    for i, t in fixed.items():
        pc = B.restrict(pc, i, 1 if t else 0)
    return pc


def close(a, b):
    return abs(a - b) <= D(10) ** -9 * (1 + abs(a))


def defined(ck, ev, p, name, x, y, pc, word):
    key = '%s/%s' % (short(p), name)
    if not isinstance(x, Num):
        return
    try:
        v = ev.num(x)
        k = ev.num(y) if y is not None else None
    except Undecided as ex:
        if 'negative' in str(ex) or 'domain' in str(ex):
            return                                # reported where it arises
        return ck.ob('real', None, key, str(ex)[:120])
    t = D(10) ** -12
    if name in ('powf', 'powi', 'pow'):
        good = v >= 0 or k == k.to_integral_value()
    elif name == 'sqrt':
        good = v >= -t
    elif name in ('acos', 'asin'):
        good = abs(v) <= 1 + t
    else:
        good = v > 0
    good = good or pc == 0            # not reached with this cell
    ck.ob('real', good, key, '' if good else '%s of %.4g for a %s cell is not a number' % (name, v, word), p)


def positive(ck, ev, p, q, x, pc, word):
    key = '%s/%s' % (short(p), short(q))
    try:
        v = ev.num(x)
    except Undecided as ex:
        return ck.ob('not negative', None if 'negative' not in str(ex) else True, key, str(ex)[:120])
    good = v >= 0 or pc == 0
    ck.ob('not negative', good, key, '' if good else 'a negative tolerance is given to %s for a %s cell' % (short(q), word), p)


def coefficient(x, point):
    """what a comparison compares when the tolerance is zero, and how much it leans on the tolerance"""
    try:
        z = point(D(0)).num(x)
        return z, point(D('0.01')).num(x) - z
    except Undecided as ex:
        return str(ex)
