"""Flow-sensitive value-flow analysis over the MIR dump.

Every function is analysed once per abstract calling context.  Control-flow joins merge
states (a powerset of abstract states, merged whenever they agree up to boolean values);
loops over known small ranges are unrolled, every other loop is summarised: variables it
modifies become fresh symbols ("mu"), collections it grows become segments described by
the values pushed, and the states on its back edges are kept as the loop's summary.
No path is ever handed to a solver and nothing of the analysed crate is executed.
"""
import json
import re
import sys
import time
from values import *

sys.setrecursionlimit(20000)

MAX_UNROLL = 48
MAX_STATES = 1500


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.bodies = d['bodies']
        self.adts = d['adts']
        self.by_path = {}
        for u, b in self.bodies.items():
            self.by_path.setdefault(b['path'], []).append(u)
        self._cfg = {}

    def uid(self, path):
        us = self.by_path.get(path, [])
        return us[0] if us else None

    def find(self, suffix):
        return [u for u, b in self.bodies.items() if b['path'].endswith(suffix)]

    def cfg(self, uid, prom=None):
        k = (uid, prom)
        if k not in self._cfg:
            b = self.bodies[uid]
            self._cfg[k] = Cfg(b['body'] if prom is None else b['promoted'][prom])
        return self._cfg[k]


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


class Cfg:
    def __init__(self, body):
        self.body = body
        self.blocks = body['blocks']
        n = len(self.blocks)
        self.succ = [succs(b['term']) for b in self.blocks]
        # reverse postorder
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        self.rpo = order[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators (iterative)
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while self.rpon[a] > self.rpon[c]:
                                    a = idom[a]
                                while self.rpon[c] > self.rpon[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body_:
                            body_.add(x)
                            stk += self.pred[x]
        self._liveness()

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if self.idom[b] == b:
                return False
            b = self.idom[b]

    def _liveness(self):
        mutref = set()
        use, defs = {}, {}

        def place_use(p, u):
            for e in p[1]:
                if e[0] == 'index':
                    u.add(e[1])
            u.add(p[0])

        def op_use(o, u):
            if o[0] in ('copy', 'move'):
                place_use(o[1], u)

        def rv_use(r, u):
            k = r[0]
            if k in ('use', 'repeat'):
                op_use(r[1], u)
            elif k == 'ref':
                place_use(r[2], u)
                if r[1]:
                    if not any(e[0] == 'deref' for e in r[2][1]):
                        mutref.add(r[2][0])
            elif k == 'rawptr':
                place_use(r[2], u)
                mutref.add(r[2][0])
            elif k == 'cast':
                op_use(r[2], u)
            elif k == 'bin':
                op_use(r[2], u)
                op_use(r[3], u)
            elif k == 'un':
                op_use(r[2], u)
            elif k == 'discr':
                place_use(r[1], u)
            elif k == 'agg':
                for o in r[2]:
                    op_use(o, u)

        for b in self.rpo:
            u, d = set(), set()
            bb = self.blocks[b]

            def note(uses, defd):
                u.update(x for x in uses if x not in d)
                if defd is not None:
                    d.add(defd)
            for s in bb['st']:
                if s[0] == 'assign':
                    us = set()
                    rv_use(s[2], us)
                    if s[1][1]:
                        place_use(s[1], us)
                        note(us, None)
                    else:
                        note(us, s[1][0])
                elif s[0] == 'dead':
                    note((), s[1])
                elif s[0] == 'setdiscr':
                    us = set()
                    place_use(s[1], us)
                    note(us, None)
            t = bb['term']
            us = set()
            dd = None
            if t[0] == 'switch':
                op_use(t[1], us)
            elif t[0] == 'call':
                op_use(t[1], us)
                for a in t[2]:
                    op_use(a, us)
                if t[3][1]:
                    place_use(t[3], us)
                else:
                    dd = t[3][0]
            elif t[0] == 'assert':
                op_use(t[1], us)
            elif t[0] == 'return':
                us.add(0)
            note(us, dd)
            use[b], defs[b] = u, d
        self.mutref = mutref
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                new = use[b] | (out - defs[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live

    def assigned(self, blocks):
        out = set()
        for b in blocks:
            bb = self.blocks[b]
            for s in bb['st']:
                if s[0] in ('assign', 'setdiscr'):
                    out.add(s[1][0])
            t = bb['term']
            if t[0] == 'call':
                out.add(t[3][0])
        return out


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem, self.pc = mem, pc

    def copy(self):
        return State(dict(self.mem), self.pc)

    def with_pc(self, n):
        return State(dict(self.mem), n)


# ------------------------------------------------------------ types

def split_top(s):
    out, d, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] != '-'):
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


INT_TYS = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}


def strip_ref(t):
    t = t.strip()
    mutable = False
    while t.startswith('&'):
        t = t[1:].strip()
        t = re.sub(r"^'[A-Za-z_0-9]+\s+", '', t)
        if t.startswith('mut '):
            mutable = True
            t = t[4:].strip()
    return t, mutable


def head_args(t):
    m = re.match(r'^([A-Za-z_0-9:]+)<(.*)>$', t, re.S)
    if m:
        return m.group(1), split_top(m.group(2))
    return t, []


class Panic:
    def __init__(self, pc, site, what, frame):
        self.pc, self.site, self.what, self.frame = pc, site, what, frame


class TooCostly(Exception):
    """following a loop iteration by iteration has become too expensive: summarise it instead"""


class Engine:
    def __init__(self, prog, opaque=(), contracts=None, opaque_statics=True, special=None, watch=(), max_states=MAX_STATES):
        self.p = prog
        self.opaque = set(opaque)
        self.contracts = contracts or {}
        self.opaque_statics = opaque_statics
        self.special = special or {}
        self.watch = set(watch)
        self.events = []
        self.panics = []
        self.loops = {}
        self.analysed = set()
        self.callsites = 0
        self.unmodelled = {}
        self.max_states = max_states
        self.static_cache = {}
        self.loopstack = []
        self.nstates = 0
        self.loop_src = {}
        self.gshape = {}
        self.idx_bounds = {}
        self.sorts, self.quants, self.extrema, self.inverses, self.dupkeys = [], [], [], [], []
        self.max_unroll = MAX_UNROLL
        self.max_back = 12
        self.max_nodes = 250000
        self.limits = []
        self.deadline = time.time() + 200
        self.concrete_statics = set()
        self.assume_invertible = True
        self.carried = False
        import models
        self.models = models

    # -------------------------------------------------- symbolic inputs
    def fresh(self, ty, name, args=()):
        """unconstrained value of a type"""
        t, mut_ = strip_ref(ty)
        if t in self.special:
            v = self.special[t](self, name, args)
            if v is not None:
                return v
        if t in ('f64', 'f32'):
            return sym(name, args)
        if t in INT_TYS:
            return sym(name, args, 'int')
        if t == 'bool':
            return batom(name, args)
        if t in ('std::string::String', 'str', 'char'):
            return Opq(name, args, t)
        if t == '()':
            return UNIT
        if t.startswith('(') and t.endswith(')'):
            return tup(*[self.fresh(x, '%s.%d' % (name, i), args) for i, x in enumerate(split_top(t[1:-1]))])
        if t.startswith('[') and t.endswith(']'):
            inner = t[1:-1]
            m = re.match(r'^(.*);\s*(\d+)(?:_usize)?$', inner, re.S)
            if m:
                return seq([self.fresh(m.group(1), name, args + (const(i),)) for i in range(int(m.group(2)))])
            return self.fresh_seq(inner, name, args)
        h, ta = head_args(t)
        if h == 'nalgebra::Matrix':
            r = re.match(r'nalgebra::Const<(\d+)>', ta[1])
            c = re.match(r'nalgebra::Const<(\d+)>', ta[2])
            if r and c:
                r, c = int(r.group(1)), int(c.group(1))
                typ = 'int' if ta[0] in INT_TYS else 'real'
                return Mat(r, c, [sym(name + '_m', args + (const(i), const(j)), typ) for j in range(c) for i in range(r)])
        if h in ('std::vec::Vec',):
            return self.fresh_seq(ta[0], name, args)
        if h in self.p.adts and self.p.adts[h]['local'] and self.p.adts[h]['kind'] == 'struct':
            v = self.p.adts[h]['variants'][0]
            return Agg('adt', h, 0, [self.fresh(ft, '%s.%s' % (name, fn_), args) for fn_, ft in zip(v['fields'], v['ftys'])])
        if h == 'std::boxed::Box' and ta:
            return self.fresh(ta[0], name, args)
        return Opq(name, args, t)

    def fresh_seq(self, ety, name, args):
        i = sym('#i', (name,) + args, 'int')
        shape = ('in', name) + args
        return Seq([Many(shape, (i,), (self.fresh(ety, name, args + (i,)),))])

    def coerce(self, v, ty):
        if isinstance(v, Opq):
            if v.name in ('unit',):
                return v
            t, _ = strip_ref(ty)
            h, ta = head_args(t)
            if t in ('f64', 'f32', 'bool') or t in INT_TYS or t.startswith('(') or t.startswith('[') or h in ('nalgebra::Matrix', 'std::vec::Vec') \
                    or (h in self.p.adts and self.p.adts[h]['local'] and self.p.adts[h]['kind'] == 'struct'):
                return self.fresh(t, 'of', (v,))
        return v

    # -------------------------------------------------- memory
    def read(self, st, addr, proj):
        v = st.mem.get(addr)
        if v is None:
            raise Undecided('read of unset %r' % (addr,))
        for e in proj:
            v = self.project(st, v, e)
        return v

    def rd(self, st, v):
        n = 0
        while isinstance(v, Ptr):
            v = self.read(st, v.addr, v.proj)
            n += 1
            if n > 20:
                raise Undecided('pointer cycle')
        return v

    def project(self, st, v, e):
        k = e[0]
        if isinstance(v, Ptr) and k != 'fbox':
            v = self.rd(st, v)
        if k == 'f':
            i = e[1]
            if isinstance(v, Agg):
                if i < len(v.f):
                    return v.f[i]
                raise Undecided('field %d of %r' % (i, v))
            if isinstance(v, Mat):
                return v.e[i]
            if isinstance(v, Opq):
                return Opq('.%d' % i, (v,))
            if isinstance(v, It) and v.kind == 'range':
                return v.a[i]
            if isinstance(v, Seq):
                return v
            raise Undecided('field of %s' % type(v).__name__)
        if k == 'd':
            if isinstance(v, Opq):
                return Opq('as%d' % e[1], (v,))
            return v
        if k == 'i':
            i = e[1]
            if isinstance(v, Mat):
                if i.op == 'c':
                    return v.e[int(i.a)]
                return Opq('matidx', (v, i), 'f64')
            if isinstance(v, Seq):
                r = self.models.seq_index(self, v, i)
                if len(r) != 1:
                    vals = {vkey(x): x for x in r}
                    if len(vals) == 1:
                        return next(iter(vals.values()))
                    if v.known() and len(v.segs) <= 16 and i.op != 'c' and all(isinstance(x, Num) for x in r):
                        t = ZERO
                        for n, x in enumerate(v.items()):
                            t = t + b2i(cmp0('eq', i - const(n)).n) * x
                        return t
                    return Opq('oneof', tuple(r))
                return r[0]
            if isinstance(v, Opq):
                return Opq('idx', (v, i))
            raise Undecided('index of %s' % type(v).__name__)
        if k == 'cix':
            off, fe = e[1], e[2]
            if isinstance(v, Seq) and v.known():
                it = v.items()
                return it[-off] if fe else it[off]
            if isinstance(v, Mat):
                return v.e[-off] if fe else v.e[off]
            if isinstance(v, Opq):
                return Opq('cix%d%s' % (off, fe), (v,))
            if isinstance(v, Seq):
                return self.project(st, v, ('i', (v.length() - const(off)) if fe else const(off)))
            raise Undecided('cindex')
        if k == 'sub':
            a, b, fe = e[1:]
            if isinstance(v, Seq) and v.known():
                it = v.items()
                return seq(it[a:len(it) - b] if fe else it[a:b])
            raise Undecided('subslice')
        if k == 'mv':
            if isinstance(v, Map):
                for kk, vv in reversed(v.items):
                    if vkey(kk) == vkey(e[1]):
                        return vv
            return Opq('mapval', (v, e[1]))
        if k == 'blk':   # sub-block of a matrix: (rows, cols)
            if isinstance(v, Mat):
                rows, cols = e[1], e[2]
                return Mat(len(rows), len(cols), [v.at(i, j) for j in cols for i in rows])
            raise Undecided('block of %s' % type(v).__name__)
        raise Undecided('projection %r' % (e,))

    def update(self, st, v, proj, new):
        if not proj:
            return new
        e, rest = proj[0], proj[1:]
        k = e[0]
        if k == 'f':
            i = e[1]
            if isinstance(v, Agg):
                fs = list(v.f)
                while len(fs) <= i:
                    fs.append(Opq('uninit'))
                fs[i] = self.update(st, fs[i], rest, new)
                return Agg(v.kind, v.name, v.variant, fs)
            if isinstance(v, Mat):
                es = list(v.e)
                es[i] = self.update(st, es[i], rest, new)
                return Mat(v.r, v.c, es)
            if v is None or (isinstance(v, Opq) and v.name == 'uninit'):
                fs = [Opq('uninit')] * (i + 1)
                fs[i] = self.update(st, fs[i], rest, new)
                return Agg('raw', 'raw', 0, fs)
            if isinstance(v, It) and v.kind == 'range':
                a = list(v.a)
                a[i] = new
                return It('range', *a)
            raise Undecided('write field of %s' % type(v).__name__)
        if k == 'd':
            return self.update(st, v, rest, new)
        if k == 'i':
            i = e[1]
            if isinstance(v, Mat):
                if i.op != 'c':
                    raise Undecided('matrix write at unknown index')
                es = list(v.e)
                es[int(i.a)] = self.update(st, es[int(i.a)], rest, new)
                return Mat(v.r, v.c, es)
            if isinstance(v, Seq):
                return self.models.seq_update(self, st, v, i, rest, new)
            raise Undecided('indexed write to %s' % type(v).__name__)
        if k == 'mv':
            if isinstance(v, Map):
                its = list(v.items)
                for n_, (kk, vv) in enumerate(its):
                    if vkey(kk) == vkey(e[1]):
                        its[n_] = (kk, self.update(st, vv, rest, new))
                        return Map(its, v.kind, v.grown)
                its.append((e[1], self.update(st, Opq('mapval', (v, e[1])), rest, new)))
                return Map(its, v.kind, v.grown)
            return v
        if k == 'blk':
            rows, cols = e[1], e[2]
            old = self.project(st, v, e)
            nv = self.update(st, old, rest, new)
            es = list(v.e)
            for jj, j in enumerate(cols):
                for ii, i in enumerate(rows):
                    es[j * v.r + i] = nv.at(ii, jj)
            return Mat(v.r, v.c, es)
        raise Undecided('write projection %r' % (e,))

    def write(self, st, ptr, new):
        addr, proj = ptr.addr, ptr.proj
        # follow pointers stored along the way
        old = st.mem.get(addr)
        st.mem[addr] = self.update(st, old, proj, new) if proj else new

    # -------------------------------------------------- places
    def resolve(self, st, fr, place):
        """-> (addr, proj) or ('val', value) when it is inside a shared reference"""
        addr, proj = ('L', fr, place[0]), ()
        for e in place[1]:
            k = e[0]
            if k == 'deref':
                v = self.read(st, addr, proj)
                if isinstance(v, Ptr):
                    addr, proj = v.addr, v.proj
                # else: transparent shared reference
            else:
                # a field of something that is itself a pointer (box internals)
                if addr in st.mem:
                    try:
                        v = self.read(st, addr, proj)
                    except Undecided:
                        v = None
                    if isinstance(v, Ptr):
                        if k == 'field':
                            continue
                proj = proj + (self.pe(st, fr, e),)
        return addr, proj

    def pe(self, st, fr, e):
        k = e[0]
        if k == 'field':
            return ('f', e[1])
        if k == 'downcast':
            return ('d', e[1])
        if k == 'index':
            return ('i', self.rd(st, st.mem[('L', fr, e[1])]))
        if k == 'cindex':
            return ('cix', e[1], e[2])
        if k == 'subslice':
            return ('sub', e[1], e[2], e[3])
        raise Undecided('place elem %r' % (e,))

    def place_read(self, st, fr, place):
        addr, proj = self.resolve(st, fr, place)
        return self.read(st, addr, proj)

    def operand(self, st, fr, o, uid):
        if o[0] in ('copy', 'move'):
            return self.place_read(st, fr, o[1])
        if o[0] == 'const':
            return self.constant(o[1], uid)
        raise Undecided('operand %r' % (o[0],))

    def constant(self, c, uid=None):
        k = c['k']
        if k == 'int':
            return const(int(c['v']))
        if k == 'float':
            import struct
            bits = int(c['bits'])
            if c['ty'] == 'f64':
                f = struct.unpack('<d', struct.pack('<Q', bits))[0]
            else:
                f = struct.unpack('<f', struct.pack('<I', bits))[0]
            return float_const(f)
        if k == 'bool':
            return TRUE if c['v'] else FALSE
        if k == 'char':
            return Str(chr(int(c['v'])))
        if k == 'str':
            return Str(c['v'])
        if k == 'unit':
            return UNIT
        if k == 'fn':
            return FnV(c)
        if k == 'closure':
            return Agg('closure', c['uid'], 0, ())
        if k == 'ref':
            return self.constant(c['v'], uid)
        if k == 'agg':
            fs = [self.constant(x, uid) for x in c['fields']]
            t = c['ty']
            if t.startswith('['):
                return seq(fs)
            if t.startswith('('):
                return tup(*fs)
            h, _ = head_args(t)
            return Agg('adt', h, max(c['variant'], 0), fs)
        if k == 'zst':
            h, _ = head_args(c['ty'])
            return Agg('adt', h, 0, ())
        if k == 'extconst':
            p = c['path']
            if p.endswith('f64::consts::PI') or p.endswith('consts::PI'):
                return sym('pi')
            if p.endswith('consts::TAU'):
                return const(2) * sym('pi')
            return self.constant(c['v'], uid)
        if k == 'promoted':
            return self.eval_const_body(c['uid'], c['idx'])
        if k == 'constdef':
            return self.eval_const_body(c['uid'], None)
        if k == 'static':
            if c.get('local') and not self.is_lazy(c['path']):
                v = self.static_value(c['path'])
                if v is not None:
                    return v
            return Opq('static', (c['path'],), c.get('uid'))
        if k == 'opaque':
            return Opq('const:' + c.get('path', ''), (), c.get('ty'))
        raise Undecided('constant %s' % k)

    def eval_const_body(self, uid, idx):
        key = ('const', uid, idx)
        if key in self.static_cache:
            return self.static_cache[key]
        outs = self.run_body(State({}, 1), uid, [], 'const', prom=idx)
        if len(outs) != 1:
            raise Undecided('constant with %d outcomes' % len(outs))
        v = outs[0][1]
        self.static_cache[key] = v
        return v

    def is_lazy(self, path):
        return ('<%s as std::ops::Deref>::deref::__static_ref_initialize' % path) in self.p.by_path

    def static_value(self, path):
        """contents of a static item (lazy or plain)"""
        key = ('static', path)
        if key in self.static_cache:
            return self.static_cache[key]
        v = None
        init = [u for u, b in self.p.bodies.items()
                if b['kind'] in ('fn',) and u.endswith('__static_ref_initialize')
                and (b['path'].startswith('<%s as ' % path))]
        if init:
            outs = self.run_body(State({}, 1), init[0], [], 'static')
            if len(outs) == 1:
                v = outs[0][1]
        else:
            us = [u for u, b in self.p.bodies.items() if b['kind'] == 'static' and b['path'] == path]
            if us:
                outs = self.run_body(State({}, 1), us[0], [], 'static')
                if len(outs) == 1:
                    v = outs[0][1]
        self.static_cache[key] = v
        return v

    # -------------------------------------------------- statements
    def rvalue(self, st, fr, r, uid, dty, site):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1], uid)
        if k == 'ref':
            if r[1]:
                addr, proj = self.resolve(st, fr, r[2])
                v = None
                try:
                    v = self.read(st, addr, proj)
                except Undecided:
                    pass
                if isinstance(v, Ptr) and r[2][1] and r[2][1][-1][0] == 'deref':
                    return v
                return Ptr(addr, proj)
            v = self.place_read(st, fr, r[2])
            return v
        if k == 'rawptr':
            addr, proj = self.resolve(st, fr, r[2])
            return Ptr(addr, proj)
        if k == 'repeat':
            v = self.operand(st, fr, r[1], uid)
            return seq([v] * r[2])
        if k == 'cast':
            v = self.operand(st, fr, r[2], uid)
            return self.models.cast(self, st, v, r[1], r[3])
        if k == 'bin':
            a = self.rd(st, self.operand(st, fr, r[2], uid))
            b = self.rd(st, self.operand(st, fr, r[3], uid))
            return self.models.binop(self, r[1], a, b, r[4])
        if k == 'un':
            a = self.rd(st, self.operand(st, fr, r[2], uid))
            if r[1] == 'Not':
                if isinstance(a, Bool):
                    return bnot(a)
                if isinstance(a, Num):
                    return sym('bitnot', (a,), 'int')
            if r[1] == 'Neg' and isinstance(a, Num):
                return neg(a)
            if r[1] == 'PtrMetadata':
                return a.length() if isinstance(a, Seq) else Opq('meta', (a,), 'usize')
            if isinstance(a, Opq):
                return Opq(r[1], (a,))
            raise Undecided('unary %s on %s' % (r[1], type(a).__name__))
        if k == 'discr':
            v = self.rd(st, self.place_read(st, fr, r[1]))
            if isinstance(v, Agg) and v.kind == 'adt':
                ad = self.p.adts.get(v.name)
                if ad:
                    return const(int(ad['variants'][v.variant]['discr']))
                if v.name == 'std::cmp::Ordering':
                    return const(v.variant - 1)
                return const(v.variant)
            if isinstance(v, Opq):
                return sym('discr', (v,), 'int')
            raise Undecided('discriminant of %s' % type(v).__name__)
        if k == 'agg':
            fs = [self.operand(st, fr, o, uid) for o in r[2]]
            kk = r[1]
            if kk[0] == 'array':
                return seq(fs, 'array')
            if kk[0] == 'tuple':
                return tup(*fs)
            if kk[0] == 'adt':
                if kk[1] in ('std::ops::Range', 'std::ops::RangeInclusive'):
                    return It('range', fs[0], fs[1])
                return Agg('adt', kk[1], kk[2], fs)
            if kk[0] == 'closure':
                return Agg('closure', kk[1], 0, fs)
        raise Undecided('rvalue %s' % (r[0] if r[0] != 'other' else r[1][:60]))

    def exec_block(self, st, fr, uid, cfg, b):
        if self.limits and len(B.nodes) > self.limits[-1]:
            raise TooCostly()
        if time.time() > self.deadline:
            raise Undecided('time limit of the analysis')
        """-> list of (successor, state); returns are ('ret', state)"""
        bb = cfg.blocks[b]
        ltys = cfg.body['locals']
        for s in bb['st']:
            if s[0] == 'assign':
                dty = ltys[s[1][0]] if not s[1][1] else None
                v = self.rvalue(st, fr, s[2], uid, dty, s[3])
                if dty is not None and isinstance(v, Opq):
                    v = self.coerce(v, dty)
                if not s[1][1]:
                    st.mem[('L', fr, s[1][0])] = v
                else:
                    addr, proj = self.resolve(st, fr, s[1])
                    self.write(st, Ptr(addr, proj), v)
            elif s[0] == 'dead':
                st.mem.pop(('L', fr, s[1]), None)
            elif s[0] == 'setdiscr':
                addr, proj = self.resolve(st, fr, s[1])
                old = self.read(st, addr, proj)
                if isinstance(old, Agg):
                    self.write(st, Ptr(addr, proj), Agg(old.kind, old.name, s[2], old.f))
        t = bb['term']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            return [(t[2], st)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'assert':
            return [(t[4], st)]
        if k == 'switch':
            v = self.rd(st, self.operand(st, fr, t[1], uid))
            return self.do_switch(st, v, t)
        if k == 'call':
            f = self.operand(st, fr, t[1], uid)
            args = [self.operand(st, fr, a, uid) for a in t[2]]
            self.callsites += 1
            site = (fr, b, t[5])
            outs = self.call(st, f, args, t[7], site, t[6])
            res = []
            if t[4] is None:
                self.note_panic(st, t, f, fr)
                return []
            dty = ltys[t[3][0]] if not t[3][1] else None
            for st2, v in outs:
                if dty is not None and isinstance(v, Opq):
                    v = self.coerce(v, dty)
                if not t[3][1]:
                    st2.mem[('L', fr, t[3][0])] = v
                else:
                    addr, proj = self.resolve(st2, fr, t[3])
                    self.write(st2, Ptr(addr, proj), v)
                res.append((t[4], st2))
            return res
        raise Undecided('terminator %s' % k)

    def note_panic(self, st, t, f, fr):
        self.panics.append(Panic(st.pc, t[5], f.d.get('path') if isinstance(f, FnV) else '?', fr))

    def panic(self, st, site, what):
        self.panics.append(Panic(st.pc, site[2] if isinstance(site, tuple) else site, what, site[0] if isinstance(site, tuple) else ''))

    def do_switch(self, st, v, t):
        out = []
        if isinstance(v, Bool):
            # targets: value 0 -> false branch
            for val, tgt in t[2]:
                c = v if int(val) == 1 else bnot(v)
                pc = B.AND(st.pc, c.n)
                if pc != 0:
                    out.append((tgt, st.with_pc(pc)))
                v_other = bnot(c)
            pc = B.AND(st.pc, v_other.n)
            if pc != 0:
                out.append((t[3], st.with_pc(pc)))
            return out
        if isinstance(v, Str):
            v = const(ord(v.s))
        if isinstance(v, Opq):
            v = sym('of', (v,), 'int')
        if isinstance(v, Num):
            if v.op == 'c':
                for val, tgt in t[2]:
                    if int(val) == v.a or (v.a < 0 and int(val) == v.a + (1 << bits_of(t[4]))):
                        return [(tgt, st)]
                return [(t[3], st)]
            rest = st.pc
            for val, tgt in t[2]:
                c = self.switch_cond(v, int(val), t[4])
                pc = B.AND(rest, c.n)
                if pc != 0:
                    out.append((tgt, st.with_pc(pc)))
                rest = B.AND(rest, B.NOT(c.n))
            if rest != 0:
                out.append((t[3], st.with_pc(rest)))
            return out
        raise Undecided('switch on %s' % type(v).__name__)

    def switch_cond(self, v, val, ty):
        if ty.startswith('i') and ty in INT_TYS and val >= 1 << (bits_of(ty) - 1):
            val -= 1 << bits_of(ty)
        if v.op == 'a' and v.a.name == 'discr' and isinstance(v.a.args[0], Opq):
            o = v.a.args[0]
            if o.name == 'cmp' and isinstance(o.args[0], Num) and isinstance(o.args[1], Num):
                x, y = o.args
                return lt(x, y) if val == -1 else lt(y, x) if val == 1 else eq(x, y)
            if o.ty and (o.ty.startswith(OPT) or o.ty.startswith(RES)):
                isn = batom('is_none', (o,))
                none_val = 0 if o.ty.startswith(OPT) else 1
                return isn if val == none_val else bnot(isn)
        return eq(v, const(val))

    # -------------------------------------------------- running bodies
    def run_body(self, st, uid, args, frame, prom=None):
        """-> list of (state, return value)"""
        b = self.p.bodies.get(uid)
        if b is None:
            raise Undecided('no body for ' + uid)
        cfg = self.p.cfg(uid, prom)
        self.analysed.add(uid)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('L', frame, i + 1)] = a
        if ('L', frame, 0) in st.mem:
            del st.mem[('L', frame, 0)]
        rets = self.run_region(cfg, uid, frame, set(cfg.rpo), 0, [st], None)['ret']
        out = []
        for s in rets:
            v = s.mem.get(('L', frame, 0), UNIT)
            pref = ('L', frame)
            for a in [a for a in s.mem if a[0] == 'L' and (a[1] == frame or a[1].startswith(frame + '/'))]:
                del s.mem[a]
            out.append((s, v))
        return self.merge_returns(out)

    def merge_returns(self, outs):
        if len(outs) <= 1:
            return outs
        K = ('RET',)
        sts = []
        for s, v in outs:
            s.mem[K] = v
            sts.append(s)
        sts = self.merge(sts)
        return [(s, s.mem.pop(K)) for s in sts]

    def merge(self, sts):
        """merge states that agree except for boolean cells and integer offsets of real cells"""
        if len(sts) <= 1:
            return sts
        groups = {}
        for s in sts:
            k = frozenset((a, self.coarse(v)) for a, v in s.mem.items())
            groups.setdefault(k, []).append(s)
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            if time.time() > self.deadline:
                raise Undecided('time budget exceeded')
            m = g[0].copy()
            P, conds = 0, []
            for s in g:
                if self.limits and len(B.nodes) > self.limits[-1]:
                    raise TooCostly()
                conds.append(B.AND(s.pc, B.NOT(P)))
                P = B.OR(P, s.pc)
            conds = [B.simplify(c, P) for c in conds]
            for a in m.mem:
                m.mem[a] = self.join([s.mem[a] for s in g], conds)
            m.pc = P
            out.append(m)
        if len(out) > self.max_states:
            raise Undecided('too many abstract states (%d)' % len(out))
        self.nstates = max(self.nstates, len(out))
        return out

    def coarse(self, v):
        """identity of a value up to boolean leaves and integer offsets of real leaves"""
        if isinstance(v, Bool):
            return 'bool'
        if isinstance(v, Num):
            if v.op == '+' and not is_int(v):
                b, k = strip_int(v)
                return ('r', b.h)
            if v.op == 'a' and v.a.typ == 'real':
                return ('r', v.h)
            return ('n', v.h)
        if isinstance(v, Mat):
            return ('mat', v.r, v.c) + tuple(self.coarse(x) for x in v.e)
        if isinstance(v, Agg) and v.kind in ('tuple', 'adt'):
            return ('agg', v.kind, v.name, v.variant) + tuple(self.coarse(x) for x in v.f)
        if isinstance(v, Seq) and v.known() and len(v.segs) <= 24:
            return ('seq',) + tuple(self.coarse(x) for x in v.items())
        if isinstance(v, Seq) and len(v.segs) == 1 and v.segs[0].over and len(v.segs[0].over) == 1:
            s = v.segs[0]
            return ('seqo', Many(s.shape, s.idxs, s.alts).key(), vkey(s.over[0][0]), self.coarse(s.over[0][1]))
        return vkey(v)

    def join(self, vs, conds):
        v = vs[0]
        k0 = vkey(v)
        if all(vkey(x) == k0 for x in vs[1:]):
            return v
        if isinstance(v, Bool):
            f = 0
            for x, c in zip(vs, conds):
                f = B.OR(f, B.AND(c, x.n))
            return Bool(f)
        if isinstance(v, Num):
            parts = [strip_int(x) for x in vs]
            base = parts[0][0]
            last = parts[-1][1]
            k = last
            by = {}
            for (_, ki), c in zip(parts, conds):
                if ki.h != last.h:
                    o, n = by.get(ki.h, (ki, 0))
                    by[ki.h] = (o, B.OR(n, c))
            for ki, c in by.values():
                k = k + (ki - last) * b2i(c)
            return base + k
        if isinstance(v, Mat):
            return Mat(v.r, v.c, [self.join([x.e[i] for x in vs], conds) for i in range(len(v.e))])
        if isinstance(v, Agg):
            return Agg(v.kind, v.name, v.variant, [self.join([x.f[i] for x in vs], conds) for i in range(len(v.f))])
        if isinstance(v, Seq) and v.known():
            its = [x.items() for x in vs]
            return seq([self.join([x[i] for x in its], conds) for i in range(len(v.segs))], v.kind)
        if isinstance(v, Seq):
            s = v.segs[0]
            return Seq([Many(s.shape, s.idxs, s.alts, ((s.over[0][0], self.join([x.segs[0].over[0][1] for x in vs], conds)),))], v.kind)
        raise Undecided('join')

    def prune(self, st, cfg, fr, b):
        live = cfg.live[b]
        for a in [a for a in st.mem if a[0] == 'L' and a[1] == fr and a[2] not in live and a[2] not in cfg.mutref]:
            del st.mem[a]

    def run_region(self, cfg, uid, fr, blocks, entry, states, loop_header):
        """run an acyclic-with-inner-loops region; returns dict: 'ret' -> states,
        'back' -> states reaching loop_header again, 'exit' -> [(target, state)]"""
        res = {'ret': [], 'back': [], 'exit': []}
        pend = {entry: list(states)}
        order = [b for b in cfg.rpo if b in blocks]
        first = True
        for b in order:
            sts = pend.pop(b, None)
            if not sts:
                continue
            for s in sts:
                self.prune(s, cfg, fr, b)
            sts = self.merge(sts)
            if b in cfg.loops and not (b == loop_header):
                outs = self.run_loop(cfg, uid, fr, b, sts)
            else:
                outs = []
                for s in sts:
                    outs += self.exec_block(s, fr, uid, cfg, b)
            for tgt, s in outs:
                if tgt == 'ret':
                    res['ret'].append(s)
                elif tgt == loop_header:
                    res['back'].append(s)
                elif tgt not in blocks:
                    res['exit'].append((tgt, s))
                else:
                    pend.setdefault(tgt, []).append(s)
        return res

    def run_loop(self, cfg, uid, fr, h, sts):
        """-> list of (target, state)"""
        blocks = cfg.loops[h]
        outs = []
        for s in sts:
            outs += self.run_loop1(cfg, uid, fr, h, blocks, s)
        return outs

    def run_loop1(self, cfg, uid, fr, h, blocks, s0):
        key = (fr, h)
        ctx = {'concrete_next': False, 'sym_next': False, 'key': key, 'big': False, 'pc0': s0.pc,
               'addrs': set(a for a in s0.mem)}
        outs, cur = [], [s0.copy()]
        widen = False
        mark = self.mark_log()
        size = len(B.nodes)
        self.limits.append(size + self.max_nodes)
        try:
            for it in range(self.max_unroll + 1):
                ctx['concrete_next'] = ctx['sym_next'] = False
                self.loopstack.append(ctx)
                try:
                    r = self.run_region(cfg, uid, fr, blocks, h, [s.copy() for s in cur], h)
                finally:
                    self.loopstack.pop()
                here = [('ret', s) for s in r['ret']] + r['exit']
                back = r['back']
                if ctx['sym_next']:
                    widen = True
                    break
                if back and here and not ctx['concrete_next']:
                    widen = True
                    break
                outs += here
                for s in back:
                    self.prune(s, cfg, fr, h)
                cur = self.merge(back)
                if not cur:
                    break
                if len(cur) > self.max_back:
                    widen = True
                    break
            else:
                widen = True
        except TooCostly:
            widen = True
        finally:
            self.limits.pop()
        if not widen:
            return outs
        self.reset_log(mark)

        def body(hs):
            r = self.run_region(cfg, uid, fr, blocks, h, [hs], h)
            for s in r['back']:
                self.prune(s, cfg, fr, h)
            return r['back'], r['exit'], r['ret']
        s0 = s0.copy()
        self.prune(s0, cfg, fr, h)
        force = []
        for l in cfg.assigned(blocks):
            a = ('L', fr, l)
            if a in s0.mem and isinstance(s0.mem[a], (Num, Bool, Mat)):
                force.append(a)
        info = {'uid': uid, 'fn': self.p.bodies[uid]['path'], 'span': self.block_span(cfg, h), 'cfg': cfg, 'frame': fr}
        return self.widen(key, s0, body, cfg.body['locals'], info, force=force)

    def mark_log(self):
        return [len(x) for x in self.logs()]

    def logs(self):
        return [self.events, self.panics, self.sorts, self.quants, self.extrema, self.inverses]

    def reset_log(self, m):
        for l, n in zip(self.logs(), m):
            del l[n:]

    def widen(self, key, s0, body, ltys, info, force=()):
        """summarise a loop whose body is given as a function header state -> (backs, exits, rets)"""
        ltys = ltys or []
        fr = key[0]
        havoc = {(a, ()): True for a in force}
        grow = {}      # (addr, path) -> Many segment
        mug = set()
        elmu = {}      # (addr, path, shape) -> leaves of the elements of that segment that iterations rewrite again and again
        mark = self.mark_log()
        for rnd in range(14):
            self.reset_log(mark)
            for k in [k for k in self.loops if k[0].startswith(fr + '/') or (k[0] == fr and k != key and k in self.inner_of(info, key))]:
                pass
            hs = s0.copy()
            for a, path in sorted(havoc, key=lambda t: (repr(t[0]), len(t[1]))):
                if path:
                    nv = self.mu(key, a + (repr(path),), self.read(s0, a, path), ltys, fr)
                    hs.mem[a] = self.update(hs, hs.mem[a], path, nv)
                else:
                    hs.mem[a] = self.mu(key, a, s0.mem[a], ltys, fr)
            for (a, path), g in grow.items():
                base = self.read(s0, a, path) if path else s0.mem[a]
                nv = self.grown_value(base, g)
                hs.mem[a] = self.update(hs, hs.mem[a], path, nv) if path else nv
            for (a, path) in {(k[0], k[1]) for k in elmu}:
                cur = self.read(hs, a, path) if path else hs.mem[a]
                nv = self.rewritten(key, a, path, cur, elmu, ltys, fr)
                hs.mem[a] = self.update(hs, hs.mem[a], path, nv) if path else nv
            ctx = {'concrete_next': False, 'sym_next': False, 'key': key, 'big': True, 'pc0': s0.pc,
                   'addrs': set(s0.mem), 'src': None}
            self.loopstack.append(ctx)
            try:
                backs, exits, rets = body(hs.copy())
            finally:
                self.loopstack.pop()
            backs = self.merge(backs)
            changed = False
            pushes, commits = {}, {}
            for bi, s in enumerate(backs):
                for a, v in s.mem.items():
                    if (a, ()) in havoc:
                        continue
                    hv = hs.mem.get(a)
                    if hv is None or vkey(v) == vkey(hv):
                        continue
                    for path, ov, nv in self.diff(hv, v):
                        if any((a, path[:n]) in havoc for n in range(len(path) + 1)):
                            continue
                        kind = self.classify_change(ov, nv)
                        if kind == 'same':
                            continue
                        if kind[0] == 'push':
                            pushes.setdefault((a, path), {})[bi] = kind[1]
                        elif kind[0] == 'over':
                            if self.own_element(ctx['src'], nv):
                                commits.setdefault((a, path), []).append((s, nv))
                            elif self.note_rewrites(a, path, nv, elmu):
                                changed = True
                        else:
                            havoc[(a, path)] = True
                            changed = True
            newgrow = {}
            for k, per in pushes.items():
                if any((k[0], k[1][:n]) in havoc for n in range(len(k[1]) + 1)):
                    continue
                seg = self.growth(key, k, per, len(backs), mug, ltys)
                newgrow[k] = seg
                g = grow.get(k)
                if g is None or self.growkey(seg) != self.growkey(g):
                    changed = True
                    if rnd >= 6 and k not in mug:
                        mug.add(k)
                        newgrow[k] = self.growth(key, k, per, len(backs), mug, ltys)
            for k in grow:
                if k not in newgrow and not any((k[0], k[1][:n]) in havoc for n in range(len(k[1]) + 1)):
                    changed = True
            grow = newgrow
            if not changed:
                break
        else:
            raise Undecided('loop summary did not stabilise')
        # a counted loop whose last permitted iteration never comes back cannot run out
        src = ctx['src']
        exhausted_ok = True
        if src is not None and src['it'].kind == 'range':
            lo, hi = src['it'].a
            if hi.op == 'c':
                cand = [hi - ONE]
                for s in backs:         # constants the counter is compared with
                    for v in B.support(s.pc):
                        d = B.vars[v]
                        if d[0] in ('eq', 'lt'):
                            for q in (src['idx'] - d[1], src['idx'] + d[1]):
                                for c in (q, q + ONE, q - ONE):
                                    if c.op == 'c' and lo.op == 'c' and lo.a <= c.a < hi.a and c.h not in [y.h for y in cand]:
                                        cand.append(c)
                for c in cand[:12]:
                    if all(subst(Bool(s.pc), {src['idx'].a.h: c}).n == 0 for s in backs):
                        exhausted_ok = False
                        break
        if not exhausted_ok:
            ex = src['ex']
            exits = [(t, s.with_pc(B.AND(s.pc, B.NOT(ex)))) for t, s in exits]
            exits = [(t, s) for t, s in exits if s.pc]
        if src is not None and src['shape'] is not None:
            self.loop_src[key] = (src['shape'], src['idx'])
        else:
            self.loop_src.pop(key, None)
        summ = {'key': key, 'entry': s0, 'header': hs, 'backs': backs, 'exits': exits, 'rets': rets,
                'havoc': set(havoc), 'grow': grow, 'pushes': pushes, 'src': src, 'mug': mug, 'elmu': elmu, 'can_exhaust': exhausted_ok}
        summ.update(info or {'uid': None, 'fn': fr, 'span': '', 'cfg': None, 'frame': fr})
        self.loops.setdefault(key, [])
        self.loops[key] = [x for x in self.loops[key] if x['entry'].pc != s0.pc] + [summ]
        outs = [('ret', s) for s in rets] + list(exits)
        res = []
        for tgt, s in outs:
            s = s.copy()
            for (a, path), vs in commits.items():
                if a in s.mem:
                    nv = self.commit(key, self.read(s, a, path) if path else s.mem[a], [v for _, v in vs], s)
                    if nv is not None:
                        s.mem[a] = self.update(s, s.mem[a], path, nv) if path else nv
            for (a, path), g in grow.items():
                if a in s.mem:
                    al = self.align_growth(key, summ, g, a, path)
                    if al is not None:
                        cur = self.read(s, a, path) if path else s.mem[a]
                        nv = self.replace_seg(cur, g, al)
                        s.mem[a] = self.update(s, s.mem[a], path, nv) if path else nv
            res.append((tgt, s))
        return res

    def own_element(self, src, v):
        """are the elements rewritten those of the iteration itself?"""
        idx = src['idx'] if src else None
        return idx is not None and all(i.h == idx.h for g in v.segs if isinstance(g, Many) for i, _ in g.over)

    def note_rewrites(self, a, path, v, elmu):
        new = False
        for g in v.segs:
            if not isinstance(g, Many) or not g.over:
                continue
            plain = Many(g.shape, g.idxs, g.alts)
            leaves = elmu.setdefault((a, path, vkey(g.shape)), set())
            for i, x in g.over:
                ds = [self.diff(y, x) for y in plain.inst(i)]
                for p, _, _ in min(ds, key=len) if ds else ():
                    if not any(p[:n] in leaves for n in range(len(p) + 1)):
                        leaves.add(p)
                        new = True
        return new

    def rewritten(self, key, a, path, cur, elmu, ltys, fr):
        segs = []
        for g in cur.segs:
            leaves = elmu.get((a, path, vkey(g.shape))) if isinstance(g, Many) else None
            if leaves:
                alts = []
                for x in g.alts:
                    for p in sorted(leaves, key=repr):
                        nv = self.mu(key, a + ('of', repr(path), repr(p)), self.read_in(x, p), [], fr, g.idxs)
                        x = self.update(None, x, p, nv) if p else nv
                    alts.append(x)
                g = Many(g.shape, g.idxs, alts)
            segs.append(g)
        return Seq(segs, cur.kind)

    def read_in(self, v, path):
        for e in path:
            v = self.project(None, v, e)
        return v

    def inner_of(self, info, key):
        return ()

    def block_span(self, cfg, h):
        bb = cfg.blocks[h]
        for s in bb['st']:
            if s[0] == 'assign':
                return s[3]
        t = bb['term']
        return t[5] if t[0] in ('call', 'assert') else (t[5] if t[0] == 'switch' else cfg.body['span'])

    def mu(self, key, a, v, ltys, fr, extra=()):
        nm = 'mu'
        ty = ltys[a[2]] if len(a) == 3 and a[0] == 'L' and a[1] == fr and ltys else ''
        tag = (repr(key), repr(a)) + extra
        if isinstance(v, Num):
            t, _ = strip_ref(ty)
            return sym(nm, tag, 'int' if t in INT_TYS or (not ty and is_int(v)) else 'real')
        if isinstance(v, Bool):
            return batom(nm, tag)
        if isinstance(v, Mat):
            isint = all(isinstance(e, Num) and is_int(e) for e in v.e) and ('f64' not in ty)
            return Mat(v.r, v.c, [sym(nm, tag + (const(i),), 'int' if isint else 'real') for i in range(len(v.e))])
        if isinstance(v, Agg) and v.kind in ('tuple',) or (isinstance(v, Agg) and v.kind == 'adt' and self.p.adts.get(v.name, {}).get('kind') == 'struct'):
            return Agg(v.kind, v.name, v.variant, [self.mu(key, a + (i,), x, ltys, fr, extra) for i, x in enumerate(v.f)])
        if isinstance(v, Seq):
            el = None
            for s_ in v.segs:
                if isinstance(s_, Many):
                    el = s_.alts[0] if s_.alts else None
                else:
                    el = s_[1]
                if el is not None:
                    break
            if v.known() and v.segs and v.kind == 'array':
                return seq([self.mu(key, a + (i,), x, ltys, fr, extra) for i, x in enumerate(v.items())], v.kind)
            i = sym('#i', tag, 'int')
            if el is None:
                m = re.match(r'^std::vec::Vec<(.*)>$', strip_ref(ty)[0]) if ty else None
                el = self.fresh(m.group(1), 'mu', tag + (i,)) if m else Opq('mu', tag + (i,))
            else:
                el = self.mu(key, a, el, ltys and [], fr, extra + (i,))
            return Seq([Many(('mu',) + tag, (i,), (el,))], v.kind)
        if isinstance(v, It):
            return v
        if isinstance(v, Map):
            i = sym('#i', tag, 'int')
            keys = [k for k, _ in v.items] + [x.f[0] for g in v.grown for x in g.alts if isinstance(x, Agg) and x.kind == 'tuple' and x.f]
            if keys and isinstance(keys[0], Mat):
                vals = [x for _, x in v.items] + [x.f[1] for g in v.grown for x in g.alts if len(x.f) > 1]
                val = vals[0] if vals and isinstance(vals[0], Agg) and not vals[0].f else Opq('muval', tag + (i,))
                return Map((), v.kind, (Many(('mu',) + tag, (i,), (tup(self.mu(key, a + ('key',), keys[0], ltys and [], fr, extra + (i,)), val),)),))
            return Map((), v.kind, (Many(('mu',) + tag, (i,), (tup(Opq('mukey', tag + (i,)), Opq('muval', tag + (i,))),)),))
        return Opq(nm, tag, strip_ref(ty)[0] if ty else None)

    def diff(self, a, b, path=()):
        """differing leaves between two values of the same shape"""
        if vkey(a) == vkey(b):
            return []
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.name == b.name and a.variant == b.variant and len(a.f) == len(b.f) and a.kind != 'closure':
            out = []
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                out += self.diff(x, y, path + (('f', i),))
            return out
        if isinstance(a, Seq) and isinstance(b, Seq) and a.known() and b.known() and len(a.segs) == len(b.segs):
            out = []
            for i, (x, y) in enumerate(zip(a.items(), b.items())):
                out += self.diff(x, y, path + (('i', const(i)),))
            return out
        if isinstance(a, Map) and isinstance(b, Map) and len(a.items) == len(b.items) and [vkey(k) for k, _ in a.items] == [vkey(k) for k, _ in b.items] \
                and [g.key() for g in a.grown] == [g.key() for g in b.grown]:
            out = []
            for (k, x), (_, y) in zip(a.items, b.items):
                out += self.diff(x, y, path + (('mv', k),))
            return out
        return [(path, a, b)]

    def classify_change(self, ov, nv):
        if isinstance(ov, Seq) and isinstance(nv, Seq):
            n = len(ov.segs)
            if len(nv.segs) >= n and all(segkey(x) == segkey(y) for x, y in zip(ov.segs, nv.segs)):
                return ('push', [s for s in nv.segs[n:]])
            if len(nv.segs) == n and all(isinstance(x, Many) == isinstance(y, Many) for x, y in zip(ov.segs, nv.segs)):
                ch = [(x, y) for x, y in zip(ov.segs, nv.segs) if segkey(x) != segkey(y)]
                if all(isinstance(x, Many) and isinstance(y, Many) and x.shape == y.shape and y.over for x, y in ch):
                    return ('over',)
        if isinstance(ov, Map) and isinstance(nv, Map):
            n = len(ov.items)
            if len(nv.items) >= n and [g.key() for g in nv.grown[:len(ov.grown)]] == [g.key() for g in ov.grown] \
                    and [vkey(k) for k, _ in nv.items[:n]] == [vkey(k) for k, _ in ov.items] and \
                    all(vkey(x[1]) == vkey(y[1]) for x, y in zip(ov.items, nv.items)):
                return ('push', [('one', tup(k, v)) for k, v in nv.items[n:]] + list(nv.grown[len(ov.grown):]))
        if isinstance(ov, It) and isinstance(nv, It):
            return 'same'
        return ('other',)

    def growkey(self, g):
        return (g.shape, frozenset(vkey(a) for a in g.alts))

    def growth(self, key, k, per, nbacks, mug, ltys):
        """segment describing everything the loop pushes onto one collection"""
        pattern = []
        alts = []
        for bi in range(nbacks):
            row = []
            for s in per.get(bi, []):
                if isinstance(s, Many):
                    row.append(s.shape)
                    alts += list(self.models.plain(s).alts)
                else:
                    row.append('one')
                    alts.append(s[1])
            pattern.append(tuple(row))
        if len(alts) > 400:
            raise Undecided('too many growth alternatives')
        shape = ('grow', repr(key), H(vkey(tuple(pattern))))
        if k in mug:
            i = sym('#i', ('mug', repr(key), repr(k)), 'int')
            el = self.mu(key, k[0] + ('el', repr(k[1])), alts[0], [], key[0], (i,))
            return Many(('mug', repr(key), repr(k)), (i,), (el,))
        idxs = {}
        # within one iteration of an enclosing loop its index is fixed
        fixed = {c['src']['idx'].a.h for c in self.loopstack if c.get('src') and isinstance(c['src'].get('idx'), Num) and c['src']['idx'].op == 'a'}
        from terms import _collect
        for v in alts:
            acc = {}
            _collect(v, acc, set())
            # and so is an index into a list at such an index
            still = {x.h for x in acc.values() if x.a.name == 'inst' and isinstance(x.a.args[-1], Num) and x.a.args[-1].op == 'a' and x.a.args[-1].a.h in fixed}
            if still:
                acc = {}
                _collect(v, acc, still)
            for hsh, x in acc.items():
                if x.a.h in fixed:
                    continue
                if x.a.name in ('#g', 'inst') or (x.a.name == 'mu' and x.a.args and x.a.args[0] == repr(key)):
                    idxs[hsh] = x
        return Many(shape, tuple(idxs[q] for q in sorted(idxs)), tuple(alts))

    def grown_value(self, base, g):
        if isinstance(base, Map):
            return Map(base.items, base.kind, base.grown + (g,))
        if isinstance(base, Seq):
            return Seq(base.segs + (g,), base.kind)
        raise Undecided('growth of %s' % type(base).__name__)

    def replace_seg(self, cur, g, new):
        if isinstance(cur, Seq):
            return Seq([new if isinstance(s, Many) and s.shape == g.shape else s for s in cur.segs], cur.kind)
        return cur

    def inside(self, summ, x):
        """is x the index of a loop met in the body of this one?"""
        body = set()
        for b in summ['backs']:
            body |= set(B.support(b.pc))
        body -= set(B.support(summ['entry'].pc))
        for v in body:
            d = B.vars[v]
            if d[0] == 'at' and d[2] == 'exhausted' and tuple(d[1][:2]) == tuple(x.a.args[:2]) and summ['key'] != tuple(x.a.args[:2]):
                return True
        return False

    def align_growth(self, key, summ, g, a, path):
        """one unconditional push per iteration of a loop over a Many: same positions as the source"""
        sh = self.loop_src.get(key)
        if sh is None:
            return None
        pushes = []
        for bi in range(len(summ['backs'])):
            ex = summ['pushes'].get((a, path), {}).get(bi, [])
            if len(ex) != 1 or isinstance(ex[0], Many):
                return None
            pushes.append(ex[0][1])
        if not pushes or any(t != 'ret' and s.pc and not self.only_exhausted(summ, s) for t, s in summ['exits']) or summ['rets']:
            return None
        shape, idx = sh
        # indices of loops inside this one would mean several values per iteration
        others = [x for x in g.idxs if x.a.h != idx.a.h and x.a.name == '#g' and self.inside(summ, x)]
        if others:
            return None
        return Many(shape, (idx,), tuple(pushes))

    def only_exhausted(self, summ, s):
        ex = summ['src']['ex']
        return B.AND(s.pc, B.NOT(ex)) == 0

    def commit(self, key, cur, vals, st):
        """all iterations rewrite their own element: the collection becomes the map of it"""
        if not isinstance(cur, Seq):
            return None
        segs = []
        for n, s in enumerate(cur.segs):
            if not isinstance(s, Many):
                segs.append(s)
                continue
            alts = []
            idx = None
            bad = False
            touched = False
            for v in vals:
                m = v.segs[n]
                if not m.over:
                    bad = True
                    continue
                touched = True
                for i, x in m.over:
                    if idx is None:
                        idx = i
                    if i.h != idx.h or i.op != 'a':
                        bad = True
                    alts.append(x)
            if not touched:
                segs.append(s)
                continue
            if idx is None or idx.op != 'a':
                raise Undecided('indexed writes in loop')
            src = self.loop_src.get(key)
            if bad or src is None or src[1].h != idx.h or seqlen_of_shape(src[0]).h != s.length().h:
                # cannot show that every element is rewritten: old or new content
                alts += s.inst(idx)
            segs.append(Many(s.shape, (idx,), tuple(self.models.dedupe(alts))))
        return Seq(segs, cur.kind)

    # -------------------------------------------------- nondeterminism and iteration bookkeeping
    def fork(self, st, choices, site, tag=''):
        """one state per alternative, with mutually exclusive conditions"""
        choices = list(choices)
        if len(choices) == 1:
            return [(st, choices[0])]
        out = []
        rest = st.pc
        for k, x in enumerate(choices):
            if k == len(choices) - 1:
                n = rest
            else:
                c = batom('alt', (site[0], site[1], tag, k, st.pc)).n
                n = B.AND(rest, c)
                rest = B.AND(rest, B.NOT(c))
            out.append((st.with_pc(n), x))
        return out

    def gidx(self, st, site, tag, shape):
        pc0 = self.loopstack[-1]['pc0'] if self.loopstack else 0
        i = sym('#g', (site[0], site[1], tag, pc0), 'int')
        self.gshape[i.a.h] = shape
        return i

    def exhausted(self, st, site):
        pc0 = self.loopstack[-1]['pc0'] if self.loopstack else st.pc
        return batom('exhausted', (site[0], site[1], pc0)).n

    def note_source(self, st, site, it):
        if not self.loopstack or not self.carried:
            return
        ctx = self.loopstack[-1]
        root, shape, tag = it, None, ''
        while root.kind in ('enumerate', 'zip', 'map', 'inspect', 'peekable', 'fuse', 'cons'):
            root = root.a[0]
        if root.kind == 'seq':
            s = self.models.seq_rest(root)
            if len(s.segs) == 1 and isinstance(s.segs[0], Many):
                shape, tag = s.segs[0].shape, '0'
            else:
                ctx['src'] = {'it': it, 'shape': None, 'idx': None, 'ex': self.exhausted(st, site)}
                return
        elif root.kind == 'seqmut':
            t = self.rd(st, root.a[0])
            if isinstance(t, Seq) and len(t.segs) == 1 and isinstance(t.segs[0], Many):
                shape, tag = t.segs[0].shape, '0'
        elif root.kind == 'range':
            lo, hi = root.a
            if lo.op == 'c' and lo.a == 0:
                shape = ('len', hi)
                if hi.op == 'a' and hi.a.name == 'len' and isinstance(hi.a.args[0], tuple):
                    shape = hi.a.args[0]
        else:
            ctx['src'] = {'it': it, 'shape': None, 'idx': None, 'ex': self.exhausted(st, site)}
            return
        ctx['src'] = {'it': it if it.kind == 'range' else root, 'shape': shape, 'idx': self.gidx(st, site, tag, shape), 'ex': self.exhausted(st, site)}

    def mark(self, what):
        if self.loopstack and self.carried:
            self.loopstack[-1][what] = True

    def loop_carried(self, addr):
        """is the iterator at this address advanced by an enclosing summarised loop?"""
        self.carried = bool(self.loopstack) and addr in self.loopstack[-1]['addrs']
        for ctx in self.loopstack:
            if ctx['big'] and addr in ctx['addrs']:
                self.carried = True
                return True
        return False

    def in_widened(self):
        return any(c['big'] for c in self.loopstack)

    def iter_shape(self, st, it):
        if it.kind in ('seq', 'range', 'rangefrom'):
            return it
        if it.kind in ('seqmut', 'mapmut'):
            return self.rd(st, it.a[0])
        return it

    # -------------------------------------------------- calls
    def call(self, st, f, args, dty, site, atys=None):
        if isinstance(f, Agg) and f.kind == 'closure':
            return self.call_closure(st, f, args, site)
        if isinstance(f, Opq):
            return [(st, self.fresh_ret(dty, 'callopq', (f,) + tuple(self.rd(st, a) for a in args)))]
        if not isinstance(f, FnV):
            raise Undecided('call of %r' % (f,))
        d = f.d
        path = d.get('res') or d['path']
        name = d['name']
        uid = d.get('resuid') if d.get('reslocal') else (d.get('uid') if d.get('local') else None)
        for pth in (d['path'], path):
            if pth in self.watch:
                self.events.append({'fn': pth, 'args': [self.deep(st, a) for a in args], 'pc': st.pc, 'site': site, 'ret': None})
                break
        for pth in (path, d['path']):
            if pth in self.contracts:
                r = self.contracts[pth](self, st, args, dty, site)
                if r is not None:
                    self.note_ret(pth, site, r)
                    return r
        if path in self.opaque:
            vals = tuple(self.deep(st, a) for a in args)
            for a in args:
                if isinstance(a, Ptr):
                    old = self.rd(st, a)
                    self.write(st, a, self.opaque_post(path, vals, old))
            r = [(st, self.fresh_ret(dty, 'ret:' + path, vals))]
            self.note_ret(path, site, r)
            return r
        if name in ('call', 'call_mut', 'call_once') and len(args) == 2 and (d.get('trait') or '').split('::')[-1].startswith('Fn'):
            c = self.rd(st, args[0])
            tup = self.rd(st, args[1]) if isinstance(args[1], Ptr) else args[1]
            if (isinstance(c, FnV) or isinstance(c, Agg) and c.kind == 'closure') and isinstance(tup, Agg):
                return self.call_closure(st, c, list(tup.f), site)
        # derived / trivial trait methods first
        m = self.models.special(self, st, d, path, name, args, dty, site, atys)
        if m is not None:
            return m
        if uid is not None and uid in self.p.bodies:
            depth = site[0].count('/')
            if depth > 30:
                raise Undecided('call depth')
            fr = '%s/%s:%d' % (site[0], name, site[1])
            args = [a for a in args]
            r = self.run_body(st, uid, args, fr)
            self.note_ret(path, site, r)
            return r
        r = self.models.builtin(self, st, d, path, name, args, dty, site, atys)
        if r is not None:
            return r
        # trait method on a local type, not resolved statically
        u = self.dispatch(st, d, name, args)
        if u is not None:
            fr = '%s/%s:%d' % (site[0], name, site[1])
            return self.run_body(st, u, args, fr)
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        vals = tuple(self.deep(st, a) for a in args)
        for a in args:
            if isinstance(a, Ptr):
                old = self.rd(st, a)
                self.write(st, a, Opq('post:' + path, vals))
        return [(st, self.fresh_ret(dty, 'call:' + path, vals))]

    def note_ret(self, path, site, r):
        if path in self.watch:
            for e in reversed(self.events):
                if e['site'] == site and e['ret'] is None:
                    e['ret'] = [v for _, v in r]
                    break

    def opaque_post(self, path, vals, old):
        if isinstance(old, Agg) and old.kind == 'adt':
            return self.fresh(old.name, 'post:' + path, vals)
        return Opq('post:' + path, vals)

    def fresh_ret(self, dty, name, vals):
        return self.fresh(dty, name, vals)

    def deep(self, st, v):
        v = self.rd(st, v)
        return v

    def dispatch(self, st, d, name, args):
        tr = d.get('trait')
        if not tr or not args:
            return None
        v = self.rd(st, args[0])
        if isinstance(v, Agg) and v.kind == 'adt':
            for u, b in self.p.bodies.items():
                if b['trait'] and b['selfty'] == v.name and u.split('::')[-1] == name and b['trait'].find(tr) >= 0:
                    return u
        return None

    def call_closure(self, st, c, args, site, tag=''):
        c = self.rd(st, c) if isinstance(c, Ptr) else c
        if isinstance(c, FnV):
            d = c.d
            return self.call(st, c, args, self.fn_ret_type(d), (site[0] + '/cl' + tag, site[1], site[2]), None)
        if isinstance(c, Agg) and c.kind == 'adt' and not c.f and len(args) == 1:
            # unit-like constructor
            return [(st, Agg('adt', c.name, c.variant, args))]
        if isinstance(c, Agg) and c.kind == 'closure':
            uid = c.name
            if uid not in self.p.bodies:
                raise Undecided('closure body ' + uid)
            fr = '%s/{cl%s}:%s:%d' % (site[0], tag, uid.rsplit('#', 1)[-1], site[1])
            if fr.count('/') > 60:
                raise Undecided('call depth')
            return self.run_body(st, uid, [c] + list(args), fr)
        if isinstance(c, Opq):
            return [(st, Opq('apply', (c,) + tuple(self.rd(st, a) for a in args)))]
        raise Undecided('call of %s' % type(c).__name__)

    def fn_ret_type(self, d):
        return d.get('ret', '?')

    def call_pure(self, st, c, args, site, tag=''):
        """closure call whose outcomes are folded into one value when boolean"""
        outs = self.call_closure(st, c, args, site, tag)
        if len(outs) == 1:
            return outs
        if all(isinstance(v, Bool) for _, v in outs) and all(same_mem(st, s) for s, _ in outs):
            f = 0
            for s, v in outs:
                f = B.OR(f, B.AND(s.pc, v.n))
            return [(st, Bool(f))]
        return outs

    # -------------------------------------------------- entry
    def analyse(self, path, args=None, names=None, pc=1):
        """analyse a function on unconstrained arguments -> list of (state, ret, argument cells)"""
        uid = self.p.uid(path)
        if uid is None:
            raise KeyError(path)
        body = self.p.bodies[uid]['body']
        st = State({}, pc)
        vals = []
        for i in range(body['argc']):
            ty = body['locals'][i + 1]
            nm = body['names'].get(str(i + 1), 'arg%d' % i)
            t, mut_ = strip_ref(ty)
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = self.fresh(ty, (names or {}).get(i, 'in%d' % i))
            if mut_:
                st.mem[('A', i)] = v
                v = Ptr(('A', i))
            vals.append(v)
        self.args = vals
        return self.run_body(st, uid, vals, path.split('::')[-1])


def same_mem(a, b):
    if a.mem.keys() - b.mem.keys():
        return False
    return all(vkey(a.mem[k]) == vkey(b.mem[k]) for k in a.mem)


def segkey(s):
    return s.key() if isinstance(s, Many) else ('one', vkey(s[1]))


def bits_of(ty):
    m = re.search(r'(\d+)', ty)
    return int(m.group(1)) if m else 64


def float_const(f):
    if f != f or f in (float('inf'), float('-inf')):
        return sym('float:%r' % f)
    import math
    if abs(f - math.pi) < 1e-15:
        return sym('pi')
    # decimal literal: use the shortest decimal representation, exactly
    return const(Fraction(repr(f)))
