"""Symbolic machine state: memory, path exploration, runtime for generated code."""
import time
import z3
import expr as X
import lia
from expr import *
from ir import BASE, SHIFT, obj_addr, scalars, t_size, Program

LIMIT = 1 << 28       # the allocator stub refuses anything larger
OBJ0 = 4096           # first id of per-state objects
M64 = MASK[64]


class PathEnd(Exception):
    """This path ends here (infeasible assumption, out-of-memory abort, ...)."""

    def __init__(self, kind):
        self.kind = kind


class Violation(Exception):
    def __init__(self, kind, msg, cond=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


class Obj:
    __slots__ = ('size', 'align', 'kind', 'cells', 'log', 'base', 'own', 'site', 'lsize')
    # cells: {off: (n, val)} ; log: Nd chain (cells is then None)
    # base: None uninit, 'z' zero, or the name of a symbolic source

    def copy(self, own):
        o = Obj()
        o.size, o.align, o.kind, o.base, o.log, o.site, o.lsize = self.size, self.align, self.kind, self.base, self.log, self.site, self.lsize
        o.cells = None if self.cells is None else self.cells.copy()
        o.own = own
        return o


class Nd:
    """Write-log node: 'w' value write, 'c' copy of a snapshot, 's' memset, 'b' bottom."""
    __slots__ = ('k', 'off', 'n', 'a', 'b', 'prev')

    def __init__(self, k, off, n, a, b, prev):
        self.k, self.off, self.n, self.a, self.b, self.prev = k, off, n, a, b, prev


class Stats:
    def __init__(self):
        self.queries = 0
        self.lookups = 0
        self.sat = 0
        self.unsat = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.bv = 0
        self.by_core = 0
        self.decisions = 0
        self.forks = 0
        self.checks = 0
        self.check_queries = 0
        self.segs = 0
        self.ends = {}
        self.covers = {}
        self.asserts = {}
        self.maxpc = 0


class State:
    __slots__ = ('seg', 'R', 'frame', 'mem', 'nextid', 'own', 'pc', 'known', 'model', 'memo', 'exc', 'panics', 'inputs', 'ack',
                 'observed', 'allocs', 'live', 'failat', 'fn', 'rd', 'al', 'trace', 'depth', 'flags', 'expect_oom', 'panicmsg', 'kval')

    def clone(self):
        s = State()
        s.seg = self.seg
        s.R = self.R.copy()
        s.frame = self.frame
        s.mem = self.mem.copy()
        s.nextid = self.nextid
        s.own = object()
        self.own = object()
        s.pc = self.pc.copy()
        s.known = self.known.copy()
        s.kval = self.kval.copy()
        s.model = None
        s.memo = {}
        s.exc = self.exc
        s.panics = self.panics
        s.inputs = self.inputs.copy()
        s.ack = {k: v.copy() for k, v in self.ack.items()}
        s.observed = self.observed.copy()
        s.allocs = self.allocs
        s.live = self.live
        s.failat = self.failat
        s.fn = self.fn
        s.al = self.al
        s.depth = self.depth
        s.flags = self.flags.copy()
        s.expect_oom = self.expect_oom
        s.panicmsg = self.panicmsg
        return s


CORE_RL = 200000     # deterministic limits, so that every part of a harness sees the same models


class Machine:
    """Owns the program, the solver and the worklist."""

    def __init__(self, timeout_ms=60000):
        self.timeout_ms = timeout_ms
        self.cache = {}
        self.cores = {}
        self.work = []
        self.stats = Stats()
        self.cur = None
        self.gobj = {}
        self.conc = {}
        self.deadline = None
        self.fnhits = {}
        self.known = None

    # ------------------------------------------------------------ solver
    def check(self, st, extra):
        """A model of pc & extra (as a dict, None if there is none).
        st.model satisfies pc, so only the constraints connected to extra matter."""
        mask = extra.m
        rest = st.pc
        rel = []
        while True:
            nxt = []
            m0 = mask
            for c in rest:
                if c.m & mask:
                    rel.append(c)
                    mask |= c.m
                else:
                    nxt.append(c)
            if mask == m0 or not nxt:
                break
            rest = nxt
        s = self.stats
        s.lookups += 1
        ids = frozenset([c.id for c in rel])
        key = (extra.id, ids)
        m = self.cache.get(key, 0)
        if m == 0:
            for core in self.cores.get(extra.id, ()):
                if core <= ids:
                    s.by_core += 1
                    return None
            m = self.cache[key] = self.solve(rel, extra)
        if m is None:
            return None
        r = st.model.copy()
        r.update(m)
        return r

    def solve(self, rel, extra):
        s = self.stats
        t = time.time()
        s.queries += 1
        es = rel + [extra]
        for tac in ('core', 'lia', 'smt', 'qfbv', 'bits'):
            if tac == 'core' and len(rel) <= 3:
                continue
            if tac in ('core', 'lia'):
                try:
                    q = [lia.tb(extra)] if tac == 'core' else lia.query(es)
                except lia.NonLinear:
                    s.bv += tac == 'lia'
                    continue
                sv = z3.SolverFor('QF_LIA')
                sv.set('rlimit', CORE_RL if tac == 'core' else 100 * CORE_RL)
            else:
                q = [tz3(c, 1) for c in es]
                if tac == 'bits':
                    sv = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver()
                else:
                    sv = z3.Tactic(tac).solver()
                sv.set('timeout', self.timeout_ms)
            if tac == 'core':
                # with one literal per path condition: which of them matter
                sv.add(q)
                sv.add(lia.ranges(es))
                lits = []
                fs = []
                for c in rel:
                    p, f = lia.literal(c)
                    lits.append(p)
                    fs.append(f)
                sv.add(fs)
                r = sv.check(lits)
                if r == z3.unsat:
                    core = {x.get_id() for x in sv.unsat_core()}
                    core = frozenset([c.id for c, p in zip(rel, lits) if p.get_id() in core])
                    self.cores.setdefault(extra.id, []).append(core)
            else:
                sv.add(q)
                if tac == 'lia':
                    sv.add(lia.ranges(es))
                r = sv.check()
            if r == z3.sat:
                m = self.extract(sv.model())
                s.sat += 1
                break
            if r == z3.unsat:
                m = None
                s.unsat += 1
                break
        else:
            s.unknown += 1
            s.solver_time += time.time() - t
            raise Inconclusive('solver gave no answer within %d ms' % self.timeout_ms)
        s.solver_time += time.time() - t
        return m

    def extract(self, m):
        out = {}
        for d in m.decls():
            n = d.name()
            k = n.rfind("#")
            if k >= 0:
                v = m[d]
                out[int(n[k + 1:])] = v.as_long() if not z3.is_bool(v) else int(z3.is_true(v))
        return out

    def global_obj(self, k):
        g = self.prog.globs.get(k)
        if g is None:
            return None
        items = self.prog.global_items(g)
        o = Obj()
        o.size, o.align, o.kind, o.base, o.log, o.own = g.size, g.align, ('const' if g.const else 'global'), None, None, None
        o.cells = {off: (n, v) for off, n, v in items if v is not None}
        o.site = g.name
        o.lsize = None
        self.gobj[k] = o
        return o


MACH = Machine()


def reset_machine(timeout_ms=60000):
    global MACH
    prog = getattr(MACH, 'prog', None)
    MACH = Machine(timeout_ms)
    if prog is not None:
        MACH.prog = prog
    return MACH


def viol(kind, msg):
    raise Violation(kind, msg)


# ---------------------------------------------------------------- decisions
def assume(st, c):
    """Add a condition known to hold in st.model."""
    if type(c) is int:
        return
    st.pc.append(c)
    learn(st, c)


def learn(st, c):
    v = 1
    while c.op == 'not':
        c = c.a[0]
        v ^= 1
    st.known[c.id] = v
    if c.op == 'eq' and v and type(c.a[1]) is int and type(c.a[0]) is E:
        st.kval[c.a[0].id] = c.a[1]
    if v and c.op == 'band':
        for q in c.a:
            if type(q) is E:
                learn(st, q)
    elif not v and c.op == 'bor':
        for q in c.a:
            if type(q) is E:
                learn(st, not_(q))


def decide(st, c):
    """Truth value of c on this path; forks when both are possible."""
    if type(c) is int:
        return c
    if c.op == 'not':
        return 1 - decide(st, c.a[0])
    k = st.known.get(c.id)
    if k is not None:
        return k
    if c.taint:
        d = settle(st, c, 'branch depends on uninitialized memory')
        r = decide(st, d)
        st.known[c.id] = r
        return r
    m = MACH
    m.stats.decisions += 1
    if c.op in ('eq', 'ult') and st.kval:
        r = quick(st, c)
        if r is not None:
            st.known[c.id] = r
            return r
    v = ev(c, st.model, st.memo)
    yes, no = (c, not_(c)) if v else (not_(c), c)
    mod = m.check(st, no)
    if mod is not None:
        ch = st.clone()
        ch.pc.append(no)
        learn(ch, no)
        ch.model = mod
        m.work.append(ch)
        m.stats.forks += 1
        st.pc.append(yes)
    learn(st, yes)
    return v


def settle(st, e, msg):
    """e without its undefined parts, which must not matter to its value."""
    a = X.defined(e, lambda w: 0, {})
    b = X.defined(e, lambda w: X.sym('undef%d' % X._n[0], w), {})
    if a is not b:
        d = not_(eq(a, b, e.w))
        if type(d) is E:
            if ev(d, st.model, {}) or MACH.check(st, d) is not None:
                viol('uninit', '%s: %s' % (msg, show(e)))
        elif d:
            viol('uninit', '%s: %s' % (msg, show(e)))
    return a


def quick(st, c):
    """Settle a comparison from values already fixed on this path."""
    kv = st.kval
    a, b = c.a
    a2 = kv.get(a.id, a) if type(a) is E else a
    b2 = kv.get(b.id, b) if type(b) is E else b
    if a2 is not a or b2 is not b:
        w = (a if type(a) is E else b).w
        r = icmp('eq' if c.op == 'eq' else 'ult', a2, b2, w)
        if type(r) is int:
            return r
    return None


def must(st, c, kind, msg):
    """Verification condition: c has to hold for every value on this path."""
    s = MACH.stats
    s.checks += 1
    if type(c) is int:
        if not c:
            viol(kind, msg)
        return
    k, q = c, 1
    while k.op == 'not':
        k = k.a[0]
        q ^= 1
    v = st.known.get(k.id)
    if v is not None:
        if v != q:
            viol(kind, msg)
        return
    if c.taint:
        c = settle(st, c, msg + ' (depends on uninitialized memory)')
        if type(c) is int:
            if not c:
                viol(kind, msg)
            return
    if ev(c, st.model, st.memo):
        s.check_queries += 1
        mod = MACH.check(st, not_(c))
        if mod is None:
            learn(st, c)
            return
        keep = st.model, st.memo
        st.model = mod
        st.memo = {}
    else:
        keep = None
    e = Violation(kind, msg)
    if MACH.known is None:
        raise e
    v = MACH.report(st, e)
    if not MACH.known(v):
        raise e
    # a listed finding: go on with the values for which the condition holds
    MACH.known_hits.append(v)
    if keep is None:
        mod = MACH.check(st, c)
        if mod is None:
            raise PathEnd('known')
        keep = mod, {}
    st.model, st.memo = keep
    assume(st, c)


def feasible_not(st, c):
    pass


def concretize(st, e, why='', limit=512):
    """Value of e on this path, forking over all its possible values."""
    while True:
        if type(e) is int:
            return e
        k = st.kval.get(e.id)
        if k is not None:
            return k
        if e.lo == e.hi:
            return e.lo
        if e.taint:
            e = settle(st, e, why + ' depends on uninitialized memory')
            continue
        v = ev(e, st.model, st.memo)
        if decide(st, eq(e, v, e.w)):
            st.kval[e.id] = v
            return v
        n = MACH.conc[e.id] = MACH.conc.get(e.id, 0) + 1
        if n > limit:
            raise Inconclusive('more than %d values for %s (%s)' % (limit, show(e), why))


# ---------------------------------------------------------------- memory
def new_obj(st, size, align, kind, base=None, site=None):
    k = st.nextid
    st.nextid = k + 1
    o = Obj()
    o.size, o.align, o.kind, o.cells, o.log, o.base, o.own, o.site, o.lsize = size, align, kind, {}, None, base, st.own, site, size
    st.mem[k] = o
    return k


def wobj(st, k, o):
    if o.own is not st.own:
        if o.kind == 'const':
            viol('write-const', 'write to read-only memory %s' % o.site)
        o = o.copy(st.own)
        st.mem[k] = o
    return o


def find(st, p):
    """(id, obj, offset) for pointer value p, or (0, None, p)."""
    if type(p) is int:
        k = p >> SHIFT
    else:
        kv = st.kval.get(p.id)
        if kv is not None:
            return find(st, kv)
        if p.taint:
            return find(st, settle(st, p, 'pointer depends on uninitialized memory'))
        if p.op == 'ite':
            return find(st, p.a[1] if decide(st, p.a[0]) else p.a[2])
        if p.lo >> SHIFT == p.hi >> SHIFT:
            k = p.lo >> SHIFT
        elif p.op == 'lin':
            k = p.c >> SHIFT
        else:
            k = 0
    o = st.mem.get(k)
    if o is None:
        o = MACH.gobj.get(k)
        if o is None and 0 < k < OBJ0:
            o = MACH.global_obj(k)
        if o is None:
            return 0, None, p
        if o.kind == 'global':
            o = o.copy(st.own)
            st.mem[k] = o
    return k, o, sub(p, obj_addr(k), 64)


def dangling(st, p, what):
    if type(p) is E and p.op != 'lin':
        v = concretize(st, p, what)
        r = find(st, v)
        if r[1] is not None:
            return r
    k = p >> SHIFT if type(p) is int else 0
    viol('dangling', '%s through a pointer to no live object (%s)%s' % (what, show(p), ' freed id %d' % k if k >= OBJ0 else ''))


def bounds(st, o, off, n, what):
    """off..off+n inside the object."""
    size = o.size
    if type(off) is int and type(n) is int and type(size) is int:
        if off + n > size:
            viol('oob', '%s of %d bytes at offset %d of a %d-byte %s object' % (what, n, off if off < 1 << 63 else off - (1 << 64), size, o.kind))
        return
    # no wraparound: sizes are below 2^39
    if type(off) is E or off >> 63:
        must(st, ult(off, BASE, 64), 'oob', '%s outside its object' % what)
    if type(n) is E and n.hi > BASE:
        must(st, ult(n, BASE, 64), 'oob', '%s with a huge length' % what)
    must(st, icmp('ule', add(off, n, 64), size, 64), 'oob', '%s outside its %s object (offset %s, %s bytes, object size %s)' % (what, o.kind, show(off), show(n), show(size)))


def aligned(st, o, off, al, what):
    if al > 1:
        if o.align % al:
            viol('misaligned', '%s requires alignment %d, object only guarantees %d' % (what, al, o.align))
        if type(off) is int:
            if off % al:
                viol('misaligned', '%s requires alignment %d at offset %d' % (what, al, off))
        else:
            must(st, eq(and_(off, al - 1, 64), 0, 64), 'misaligned', '%s requires alignment %d at offset %s' % (what, al, show(off)))


def load(st, p, n, al):
    if type(p) is int:
        k = p >> SHIFT
        o = st.mem.get(k)
        if o is not None and o.cells is not None:
            off = p - (k << SHIFT) - BASE
            if off % al == 0 and o.align % al == 0:
                c = o.cells.get(off)
                if c is not None and c[0] == n and (type(o.size) is int and off + n <= o.size):
                    return c[1]
    k, o, off = find(st, p)
    if o is None:
        k, o, off = dangling(st, p, 'load')
    if type(off) is E:
        off = st.kval.get(off.id, off)
    bounds(st, o, off, n, 'load')
    aligned(st, o, off, al, 'load')
    return rd(st, o, off, n)


def rd(st, o, off, n):
    """n bytes (concrete n) at off of the contents of o."""
    if o.cells is not None:
        if type(off) is int:
            return rd_cells(st, o, off, n)
        if not o.cells:
            return rd_base(st, o, off, n)
        return rd_symoff(st, o, off, n)
    return rd_log(st, o.log, off, n)


def rd_cells(st, o, off, n):
    c = o.cells.get(off)
    if c is not None:
        if c[0] == n:
            return c[1]
        if c[0] > n:
            return ext(c[1], 0, 8 * n)
    parts = []
    i = 0
    cells = o.cells
    while i < n:
        c = cells.get(off + i)
        if c is not None:
            m = min(c[0], n - i)
            parts.append((ext(c[1], 0, 8 * m) if m < c[0] else c[1], 8 * m))
            i += m
            continue
        for b in range(1, 16):
            c = cells.get(off + i - b)
            if c is not None:
                break
        if c is not None and c[0] > b:
            m = min(c[0] - b, n - i)
            parts.append((ext(c[1], 8 * b, 8 * m), 8 * m))
            i += m
            continue
        parts.append((rd_base(st, o, off + i, 1), 8))
        i += 1
    return cat(parts)


def rd_base(st, o, off, n):
    if o.base is None:
        return undef(8 * n)
    if o.base == 'z':
        return 0
    return cat([(src_byte(st, o.base, add(off, i, 64)), 8) for i in range(n)])


def src_byte(st, name, off):
    l = st.ack.get(name)
    if l is None:
        l = st.ack[name] = {}
    key = off if type(off) is int else -off.id
    b = l.get(key)
    if b is not None:
        return b[1]
    if type(off) is E:
        kv = st.kval.get(off.id)
        if kv is not None:
            return src_byte(st, name, kv)
    b = sym('%s[%s]' % (name, key), 8)
    ov = ev(off, st.model, st.memo)
    val = None
    for o2, b2 in l.values():
        c = eq(off, o2, 64)
        if type(c) is int:
            if c:
                return b2
            continue
        st.pc.append(or_(not_(c), eq(b, b2, 8), 1))
        if val is None and ev(o2, st.model, st.memo) == ov:
            val = ev(b2, st.model, st.memo)
    if val is None:
        val = st.model.get(b.id, 0)
    st.model[b.id] = val
    st.memo.pop(b.id, None)
    l[key] = (off, b)
    return b


def rd_symoff(st, o, off, n):
    """Concrete cells, symbolic offset: fork over the possible offsets."""
    if n == 1 and sum(c[0] for c in o.cells.values()) <= 64 and o.base is not None:
        r = rd_base(st, o, off, 1)
        for q, c in o.cells.items():
            for i in range(c[0]):
                b = eq(off, q + i, 64)
                if b != 0:
                    r = ite(b, ext(c[1], 8 * i, 8), r, 8)
        return r
    if n == 1 and off.hi - off.lo <= 32:
        t = 1 << min(off.tz, 5)
        return choose(off, range(off.lo, off.hi + 1, t), lambda q: rd_cells(st, o, q, 1))
    v = concretize(st, off, 'load offset')
    return rd_cells(st, o, v, n)


def choose(x, vals, f):
    """The byte f(v) for x = v, x being one of vals."""
    r = None
    for q in vals:
        b = f(q)
        r = b if r is None else ite(eq(x, q, 64), b, r, 8)
    return r


def rel(st, x, y):
    """Truth of x <= y (unsigned, offsets far below 2^63), forking if needed."""
    c = icmp('ule', x, y, 64)
    return c if type(c) is int else decide(st, c)


def rd_log(st, nd, off, n):
    while True:
        if nd.k == 'b':
            return rd(st, nd.a, off, n)
        d = sub(off, nd.off, 64)
        if type(d) is int and type(nd.n) is int:
            if d + n <= nd.n:
                return rd_node(st, nd, d, n)
            if d >= nd.n and (1 << 64) - d >= n:
                nd = nd.prev
                continue
            return rd_bytes(st, nd, off, n)
        # entirely before, entirely after, inside, or straddling
        if type(nd.n) is E and decide(st, eq(nd.n, 0, 64)):
            nd = nd.prev
            continue
        if rel(st, add(nd.off, nd.n, 64), off) or rel(st, add(off, n, 64), nd.off):
            nd = nd.prev
            continue
        if n == 1 or (rel(st, nd.off, off) and rel(st, add(off, n, 64), add(nd.off, nd.n, 64))):
            return rd_node(st, nd, d, n)
        return rd_bytes(st, nd, off, n)


def rd_bytes(st, nd, off, n):
    if n == 1:
        raise Unsupported('rd_bytes')
    return cat([(rd_log(st, nd, add(off, i, 64), 1), 8) for i in range(n)])


def rd_node(st, nd, d, n):
    """n bytes at relative offset d inside the node's range."""
    if nd.k == 'w':
        if type(d) is E:
            if n == 1 and type(nd.n) is int:
                return choose(d, range(nd.n), lambda q: ext(nd.a, 8 * q, 8))
            d = concretize(st, d, 'offset in value')
        return ext(nd.a, 8 * d, 8 * n)
    if nd.k == 's':
        return cat([(nd.a, 8)] * n)
    return rd(st, nd.a, add(nd.b, d, 64), n)


def clear(cells, off, n):
    """Remove the byte range from cells, keeping the outside parts of straddlers."""
    for b in range(1, 16):
        q = off - b
        c = cells.get(q)
        if c is not None:
            if c[0] > b:
                cells[q] = (b, ext(c[1], 0, 8 * b))
                if c[0] > b + n:
                    cells[off + n] = (c[0] - b - n, ext(c[1], 8 * (b + n), 8 * (c[0] - b - n)))
            break
    if n <= 64 or n <= len(cells):
        for q in range(off, off + n):
            c = cells.pop(q, None)
            if c is not None and q + c[0] > off + n:
                m = q + c[0] - off - n
                cells[off + n] = (m, ext(c[1], 8 * (off + n - q), 8 * m))
    else:
        for q in [q for q in cells if off <= q < off + n]:
            c = cells.pop(q)
            if q + c[0] > off + n:
                m = q + c[0] - off - n
                cells[off + n] = (m, ext(c[1], 8 * (off + n - q), 8 * m))


def store(st, p, v, n, al):
    if type(p) is int:
        k = p >> SHIFT
        o = st.mem.get(k)
        if o is not None and o.own is st.own and o.cells is not None:
            off = p - (k << SHIFT) - BASE
            if off % al == 0 and o.align % al == 0 and type(o.size) is int:
                c = o.cells.get(off)
                if c is not None and c[0] == n and off + n <= o.size:
                    o.cells[off] = (n, v)
                    return
    k, o, off = find(st, p)
    if o is None:
        k, o, off = dangling(st, p, 'store')
    if type(off) is E:
        off = st.kval.get(off.id, off)
    bounds(st, o, off, n, 'store')
    aligned(st, o, off, al, 'store')
    o = wobj(st, k, o)
    if type(off) is int and o.cells is not None:
        c = o.cells.get(off)
        if c is None or c[0] != n:
            clear(o.cells, off, n)
        o.cells[off] = (n, v)
    else:
        tolog(st, o)
        o.log = Nd('w', off, n, v, None, o.log)


def snapshot(o):
    """Immutable view of an object's contents (the object is copied on its next write)."""
    o.own = None
    return o


def tolog(st, o):
    if o.cells is not None:
        s = Obj()
        s.size, s.align, s.kind, s.base, s.log, s.site, s.own, s.lsize = o.size, o.align, o.kind, o.base, None, o.site, None, None
        s.cells = o.cells
        o.cells = None
        o.log = Nd('b', 0, 0, s, None, None)


def load_agg(st, p, ty, al):
    def go(t, base):
        if t == 'ptr' or type(t) is int:
            w = 64 if t == 'ptr' else t
            n = (w + 7) // 8
            v = load(st, add(p, base, 64), n, 1)
            return ext(v, 0, w) if w % 8 else v
        from ir import t_off
        m = t[1] if t[0] == 'a' else len(t[1])
        out = []
        for i in range(m):
            o, f = t_off(t, i)
            out.append(go(f, base + o))
        return tuple(out)
    return go(ty, 0)


def store_agg(st, p, v, ty, al):
    from ir import t_off
    if t_size(ty) == 0:
        return
    k, o, off = find(st, p)
    if o is None:
        k, o, off = dangling(st, p, 'store')
    bounds(st, o, off, t_size(ty), 'store')
    aligned(st, o, off, al, 'store')
    todo = []

    def go(t, base, x):
        if t == 'ptr' or type(t) is int:
            w = 64 if t == 'ptr' else t
            if w % 8:
                x = zext(x, w, (w + 7) // 8 * 8)
            todo.append((base, x, (w + 7) // 8))
            return
        m = t[1] if t[0] == 'a' else len(t[1])
        for i in range(m):
            q, f = t_off(t, i)
            go(f, base + q, x[i])
    go(ty, 0, v)
    for base, x, n in todo:
        store(st, add(p, base, 64), x, n, 1)


def zero_len_ok(st, p, al, what):
    """A zero-length access needs a non-null, aligned pointer."""
    if type(p) is int:
        if p == 0:
            viol('null', '%s of length 0 with a null pointer' % what)


def region(st, p, n, al, what):
    """Resolve an access of n bytes; None when n is 0."""
    if type(n) is int:
        if n == 0:
            zero_len_ok(st, p, al, what)
            return None
    else:
        kv = st.kval.get(n.id)
        if kv is not None:
            return region(st, p, kv, al, what)
    k, o, off = find(st, p)
    if o is None:
        if type(n) is E and decide(st, eq(n, 0, 64)):
            return None
        k, o, off = dangling(st, p, what)
    if type(off) is E:
        off = st.kval.get(off.id, off)
    bounds(st, o, off, n, what)
    aligned(st, o, off, al, what)
    return k, o, off


def kv(st, e):
    return st.kval.get(e.id, e) if type(e) is E else e


def copy_mem(st, d, s, n, dal, sal, overlap_ok, what):
    n = kv(st, n)
    rs = region(st, s, n, sal, what + ' source')
    rdst = region(st, d, n, dal, what + ' destination')
    if rs is None or rdst is None:
        return
    ks, os_, so = rs
    kd, od, do = rdst
    if ks == kd:
        df = sub(do, so, 64)
        if type(df) is int and df == 0:
            if overlap_ok or n == 0:
                return
        if not overlap_ok:
            c = or_(icmp('ule', add(so, n, 64), do, 64), icmp('ule', add(do, n, 64), so, 64), 1)
            c = or_(c, eq(n, 0, 64), 1)
            must(st, c, 'overlap', 'copy_nonoverlapping on overlapping ranges')
    if type(n) is E and (os_.cells is None or type(so) is E or od.cells is None or type(do) is E or not (os_.base is None)):
        # let the solver say whether a single length is possible: keeps contents concrete
        pass
    if type(n) is int and type(so) is int and type(do) is int and os_.cells is not None and od.cells is not None and \
            (os_.base is None or n <= 16) and n <= 4096:
        if n <= 16 and (os_.base is not None):
            new = [(0, n, rd_cells(st, os_, so, n))]
        else:
            new = slice_cells(os_, so, n)
        od = wobj(st, kd, od)
        clear(od.cells, do, n)
        for q, m, v in new:
            od.cells[do + q] = (m, v)
        return
    src = snapshot(os_)
    od = wobj(st, kd, od)
    if type(n) is E and type(so) is int and type(do) is int and so == 0 and do == 0 and od.cells == {} and od.base is None and od.log is None and ks != kd:
        pass
    tolog(st, od)
    od.log = Nd('c', do, n, src, so, od.log)


def slice_cells(o, off, n):
    out = []
    cells = o.cells
    end = off + n
    if n <= 4 * len(cells) + 32:
        q = off
        for b in range(1, 16):
            c = cells.get(off - b)
            if c is not None:
                if c[0] > b:
                    m = min(c[0] - b, n)
                    out.append((0, m, ext(c[1], 8 * b, 8 * m)))
                    q = off + m
                break
        while q < end:
            c = cells.get(q)
            if c is None:
                q += 1
                continue
            m = min(c[0], end - q)
            out.append((q - off, m, ext(c[1], 0, 8 * m) if m < c[0] else c[1]))
            q += m
    else:
        for q, c in cells.items():
            a, b = max(q, off), min(q + c[0], end)
            if a < b:
                out.append((a - off, b - a, ext(c[1], 8 * (a - q), 8 * (b - a))))
    return out


def x_memcpy(st, d, s, n, dal, sal):
    copy_mem(st, d, s, n, dal, sal, False, 'memcpy')


def x_memmove(st, d, s, n, dal, sal):
    copy_mem(st, d, s, n, dal, sal, True, 'memmove')


def x_memset(st, d, v, n, al):
    n = kv(st, n)
    r = region(st, d, n, al, 'memset')
    if r is None:
        return
    k, o, off = r
    o = wobj(st, k, o)
    if type(n) is int and type(off) is int and o.cells is not None and n <= 4096:
        clear(o.cells, off, n)
        i = 0
        while i < n:
            m = min(8, n - i)
            o.cells[off + i] = (m, cat([(v, 8)] * m))
            i += m
        return
    tolog(st, o)
    o.log = Nd('s', off, n, v, None, o.log)


def dyn_alloca(st, size, al):
    size = kv(st, size)
    if type(size) is E:
        must(st, icmp('ule', size, LIMIT, 64), 'stack', 'dynamic stack allocation of unbounded size')
    # the code aligns the address itself where it has to: all object addresses here are aligned to a page
    k = new_obj(st, size, max(al, 4096), 'stack')
    st.al = st.al + (k,)
    return obj_addr(k)


# ---------------------------------------------------------------- arithmetic
def nw_add(st, a, b, w, nuw, nsw):
    if type(a) is int and type(b) is int:
        r = a + b
        if nuw and r > MASK[w]:
            viol('overflow', 'add nuw overflows')
        r &= MASK[w]
        if nsw and (signed(a, w) + signed(b, w)) != signed(r, w):
            viol('overflow', 'add nsw overflows')
        return r
    r = add(a, b, w)
    if nuw:
        la, ha, _ = rng(a, w)
        lb, hb, _ = rng(b, w)
        if ha + hb > MASK[w]:
            must(st, icmp('ule', a, xor(b, MASK[w], w), w), 'overflow', 'unchecked add overflows (%s + %s)' % (show(a), show(b)))
    if nsw and not nuw:
        la, ha, _ = rng(a, w)
        lb, hb, _ = rng(b, w)
        if not (ha + hb <= MASK[w] >> 1):
            sa, sb, sr = icmp('slt', a, 0, w), icmp('slt', b, 0, w), icmp('slt', r, 0, w)
            c = or_(xor(sa, sb, 1), not_(xor(sa, sr, 1)), 1)
            must(st, c, 'overflow', 'add nsw overflows')
    return r


def nw_sub(st, a, b, w, nuw, nsw):
    if type(a) is int and type(b) is int:
        r = (a - b) & MASK[w]
        if nuw and b > a:
            viol('overflow', 'sub nuw underflows')
        if nsw and (signed(a, w) - signed(b, w)) != signed(r, w):
            viol('overflow', 'sub nsw overflows')
        return r
    r = sub(a, b, w)
    if nuw:
        must(st, icmp('ule', b, a, w), 'overflow', 'unchecked sub underflows (%s - %s)' % (show(a), show(b)))
    return r


def nw_mul(st, a, b, w, nuw, nsw):
    if type(a) is int and type(b) is int:
        r = a * b
        if nuw and r > MASK[w]:
            viol('overflow', 'mul nuw overflows')
        r &= MASK[w]
        if nsw and signed(a, w) * signed(b, w) != signed(r, w):
            viol('overflow', 'mul nsw overflows')
        return r
    r = mul(a, b, w)
    ha, hb = rng(a, w)[1], rng(b, w)[1]
    if nuw and ha * hb > MASK[w]:
        must(st, not_(ovf_umul(a, b, w)[1]), 'overflow', 'unchecked mul overflows (%s * %s)' % (show(a), show(b)))
    return r


def d_udiv(st, a, b, w):
    b = kv(st, b)
    must(st, not_(eq(b, 0, w)), 'div0', 'division by zero')
    return udiv(kv(st, a), b, w)


def d_urem(st, a, b, w):
    b = kv(st, b)
    must(st, not_(eq(b, 0, w)), 'div0', 'division by zero')
    return urem(kv(st, a), b, w)


def d_sdiv(st, a, b, w):
    b = kv(st, b)
    must(st, not_(eq(b, 0, w)), 'div0', 'division by zero')
    return sdiv(kv(st, a), b, w)


def d_srem(st, a, b, w):
    b = kv(st, b)
    must(st, not_(eq(b, 0, w)), 'div0', 'division by zero')
    return srem(kv(st, a), b, w)


def sh(st, f, a, b, w):
    b = kv(st, b)
    if type(b) is E:
        if b.hi < 128 and f is not ashr:
            b = concretize(st, b, 'shift amount', 130)
    return f(a, b, w)


def sh_shl(st, a, b, w):
    return sh(st, shl, a, b, w)


def sh_lshr(st, a, b, w):
    return sh(st, lshr, a, b, w)


def sh_ashr(st, a, b, w):
    return sh(st, ashr, a, b, w)


def ovf_uadd(a, b, w):
    if type(a) is int and type(b) is int:
        r = a + b
        return r & MASK[w], int(r > MASK[w])
    r = add(a, b, w)
    if rng(a, w)[1] + rng(b, w)[1] <= MASK[w]:
        return r, 0
    return r, not_(icmp('ule', a, xor(b, MASK[w], w), w))


def ovf_usub(a, b, w):
    return sub(a, b, w), ult(a, b, w)


def ovf_umul(a, b, w):
    if type(a) is int and type(b) is int:
        r = a * b
        return r & MASK[w], int(r > MASK[w])
    r = mul(a, b, w)
    if rng(a, w)[1] * rng(b, w)[1] <= MASK[w]:
        return r, 0
    if type(b) is int:
        return r, ult(MASK[w] // b, a, w)
    if type(a) is int:
        return r, ult(MASK[w] // a, b, w)
    p = mul(zext(a, w, 2 * w), zext(b, w, 2 * w), 2 * w)
    return r, not_(eq(ext(p, w, w), 0, w))


def ovf_sadd(a, b, w):
    r = add(a, b, w)
    if type(r) is int and type(a) is int:
        return r, int(signed(a, w) + signed(b, w) != signed(r, w))
    sa, sb, sr = icmp('slt', a, 0, w), icmp('slt', b, 0, w), icmp('slt', r, 0, w)
    return r, and_(not_(xor(sa, sb, 1)), xor(sa, sr, 1), 1)


def ovf_ssub(a, b, w):
    r = sub(a, b, w)
    if type(a) is int and type(b) is int:
        return r, int(signed(a, w) - signed(b, w) != signed(r, w))
    sa, sb, sr = icmp('slt', a, 0, w), icmp('slt', b, 0, w), icmp('slt', r, 0, w)
    return r, and_(xor(sa, sb, 1), xor(sa, sr, 1), 1)


def sat_uadd(st, a, b, w):
    r, o = ovf_uadd(a, b, w)
    return MASK[w] if decide(st, o) else r


def sat_usub(st, a, b, w):
    return 0 if decide(st, icmp('ule', a, b, w)) else sub(a, b, w)


def minmax(st, h, a, b, w):
    c = icmp(('u' if h[0] == 'u' else 's') + 'lt', a, b, w)
    if h[1:] == 'max':
        a, b = b, a
    return a if decide(st, c) else b


def cmp3(st, h, a, b, w, rw):
    p = 'u' if h[0] == 'u' else 's'
    if decide(st, icmp(p + 'lt', a, b, w)):
        return MASK[rw]
    return 0 if decide(st, eq(a, b, w)) else 1


def bswap(a, w):
    return cat([(ext(a, w - 8 - 8 * i, 8), 8) for i in range(w // 8)])


def fshl(a, b, c, w):
    if type(c) is not int:
        raise Unsupported('fshl')
    c %= w
    return or_(shl(a, c, w), lshr(b, w - c, w), w) if c else a


def fshr(a, b, c, w):
    if type(c) is not int:
        raise Unsupported('fshr')
    c %= w
    return or_(shl(a, w - c, w), lshr(b, c, w), w) if c else b


def insval(v, idx, x):
    i = idx[0]
    if len(idx) > 1:
        x = insval(v[i], idx[1:], x)
    return v[:i] + (x,) + v[i + 1:]


def must_assume(st, c):
    must(st, c, 'assume', 'llvm.assume of a condition that can be false')


def unreachable(st):
    viol('unreachable', 'reached code marked unreachable (undefined behaviour)')


# ---------------------------------------------------------------- control
def call(st, f, args, ri, nxt, unw):
    b = f.builtin
    if b is not None:
        if f.ctl:
            return b(st, args, ri, nxt, unw)
        r = b(st, *args)
        if ri >= 0:
            st.R[ri] = r
        return nxt
    if f.entry is None:
        if f.hdr is None:
            raise Unsupported('external function ' + f.dem)
        MACH.prog.compile(f)
    f.count += 1
    d = st.depth = st.depth + 1
    if d > 400:
        raise Inconclusive('call depth over 400')
    st.frame = (st.frame, st.R, ri, nxt, unw, st.al, st.fn)
    st.fn = f
    R = [None] * f.nregs
    i = 0
    for p in f.params:
        R[p] = args[i]
        i += 1
    if f.allocas:
        ids = []
        own = st.own
        mem = st.mem
        k = st.nextid
        for r, size, al in f.allocas:
            o = Obj()
            o.size, o.align, o.kind, o.cells, o.log, o.base, o.own, o.site, o.lsize = size, al, 'stack', {}, None, None, own, None, size
            mem[k] = o
            R[r] = (k << SHIFT) + BASE
            ids.append(k)
            k += 1
        st.nextid = k
        st.al = tuple(ids)
    else:
        st.al = ()
    st.R = R
    return f.entry


def icall(st, p, args, ri, nxt, unw):
    if type(p) is E:
        p = concretize(st, p, 'function pointer')
    f = MACH.prog.by_addr.get(p)
    if f is None:
        viol('badcall', 'call through an invalid function pointer (%s)' % show(p))
    return call(st, f, args, ri, nxt, unw)


def ret(st, v):
    mem = st.mem
    for k in st.al:
        del mem[k]
    fr = st.frame
    if fr is None:
        return None
    st.frame, R, ri, nxt, unw, st.al, st.fn = fr
    st.R = R = R.copy()
    st.depth -= 1
    if ri >= 0:
        R[ri] = v
    elif ri == -2:      # return from a function run by uv_catch
        return catch_return(st, 0)
    return nxt


def catch_return(st, r):
    st.observed.append(r)
    ri, nxt = st.flags['catch'][-1]
    st.flags['catch'] = st.flags['catch'][:-1]
    if ri >= 0:
        st.R[ri] = r
    return nxt


def throw(st):
    """Unwind from a call site in the current frame whose unwind target is unknown:
    callers pass the target explicitly through st.pending."""
    while True:
        fr = st.frame
        for k in st.al:
            del st.mem[k]
        if fr is None:
            viol('uncaught', 'panic reaches the harness: %s' % (st.panicmsg,))
        st.frame, R, ri, nxt, unw, st.al, st.fn = fr
        st.R = R.copy()
        st.depth -= 1
        if ri == -2:
            st.panics -= 1
            return catch_return(st, 1)
        if unw is not None:
            return unw


def begin_panic(st, unw, msg):
    st.panics += 1
    fs, fr = [st.fn], st.frame
    while fr is not None and len(fs) < 4:
        fs.append(fr[6])
        fr = fr[0]
    st.panicmsg = msg + ' in ' + ' < '.join(f.dem for f in fs if f is not None)
    st.exc = (obj_addr(1), 1)
    if unw is not None:
        return unw
    return throw(st)


def resume(st):
    return throw(st)


# ---------------------------------------------------------------- allocator
def do_alloc(st, size, align, zero, what='alloc'):
    size = kv(st, size)
    align = kv(st, align)
    if type(align) is E:
        align = concretize(st, align, 'alignment')
    if align == 0 or align & (align - 1):
        viol('bad-layout', 'allocation with alignment %d' % align)
    must(st, not_(eq(size, 0, 64)), 'bad-layout', 'allocation of zero bytes')
    must(st, icmp('ule', size, (1 << 63) - align, 64), 'bad-layout', 'allocation size exceeds isize::MAX when rounded up')
    big = decide(st, icmp('ugt', size, LIMIT, 64)) or align > LIMIT
    st.allocs += 1
    if st.failat is not None:
        if st.failat == 0:
            st.failat = None
            st.flags['failed'] = 1
            return None
        st.failat -= 1
    if big:
        return None
    k = new_obj(st, size, align, 'heap', 'z' if zero else None)
    st.live += 1
    return k


def b_alloc(st, size, align):
    k = do_alloc(st, size, align, False)
    return 0 if k is None else obj_addr(k)


def b_alloc_zeroed(st, size, align):
    k = do_alloc(st, size, align, True)
    return 0 if k is None else obj_addr(k)


def heap_obj(st, p, size, align, what):
    p = kv(st, p)
    k, o, off = find(st, p)
    if o is None:
        viol('bad-free', '%s of a pointer to no live object (double free?): %s' % (what, show(p)))
    if o.kind != 'heap':
        viol('bad-free', '%s of non-heap memory' % what)
    must(st, eq(off, 0, 64), 'bad-free', '%s of a pointer inside an allocation' % what)
    align = kv(st, align)
    if type(align) is E:
        align = concretize(st, align, 'alignment')
    if align != o.align:
        viol('bad-free', '%s with alignment %d, allocated with %d' % (what, align, o.align))
    must(st, eq(size, o.size, 64), 'bad-free', '%s with size %s, allocated with %s' % (what, show(size), show(o.size)))
    return k, o


def b_dealloc(st, p, size, align):
    k, o = heap_obj(st, p, size, align, 'dealloc')
    del st.mem[k]
    st.live -= 1


def b_realloc(st, p, old, align, new):
    k, o = heap_obj(st, p, old, align, 'realloc')
    new = kv(st, new)
    must(st, not_(eq(new, 0, 64)), 'bad-layout', 'realloc to zero bytes')
    must(st, icmp('ule', new, (1 << 63) - o.align, 64), 'bad-layout', 'realloc size exceeds isize::MAX when rounded up')
    big = decide(st, icmp('ugt', new, LIMIT, 64))
    # contents beyond the common prefix must not survive a shrink
    st.allocs += 1
    if st.failat is not None:
        if st.failat == 0:
            st.failat = None
            st.flags['failed'] = 1
            return 0
        st.failat -= 1
    if big:
        return 0
    k2 = new_obj(st, new, o.align, 'heap', None)
    o2 = st.mem[k2]
    if o.cells is not None and o.base is None:
        o2.cells = o.cells.copy()
    else:
        src = snapshot(o)
        tolog(st, o2)
        o2.log = Nd('c', 0, o.size, src, 0, o2.log)
    if type(new) is int and o2.cells is not None:
        for q in [q for q in o2.cells if q >= new]:
            del o2.cells[q]
    del st.mem[k]
    return obj_addr(k2)


RT = {n: v for n, v in globals().items() if callable(v) or n in ('E',)}
