"""Runs one harness function symbolically over all its paths."""
import os
import re
import sys
import time
import traceback
import vm
from vm import *
from ir import Program, obj_addr

PANIC = re.compile(r'^(core::panicking::(panic|panic_fmt|panic_display|panic_explicit|panic_str_2015|unreachable_display|panic_bounds_check|panic_misaligned_pointer_dereference|assert_failed|assert_failed_inner|assert_matches_failed|panic_const::.*|panic_const_.*)(::<.*>)?'
                   r'|core::option::(expect_failed|unwrap_failed)|core::result::unwrap_failed|core::slice::index::.*|core::str::slice_error_fail.*'
                   r'|alloc::raw_vec::capacity_overflow|alloc::vec::.*::assert_failed|std::panicking::.*|core::slice::copy_from_slice_impl::len_mismatch_fail.*)$')
ABORT = re.compile(r'^core::panicking::(panic_nounwind|panic_nounwind_fmt|panic_nounwind_nobacktrace|panic_in_cleanup|panic_cannot_unwind)')
LEGACY = re.compile(r'^_ZN')


def undecorate(name):
    """Readable path of a legacy-mangled symbol."""
    s = name.strip('"')
    if not s.startswith('_ZN'):
        return None
    i = 3
    parts = []
    while i < len(s) and s[i].isdigit():
        j = i
        while s[j].isdigit():
            j += 1
        n = int(s[i:j])
        parts.append(s[j:j + n])
        i = j + n
    return '::'.join(parts[:-1])


def msg_of(st, args):
    """Best-effort text of a panic message."""
    try:
        if len(args) >= 2 and type(args[0]) is int and type(args[1]) is int and args[1] < 400:
            k, o, off = find(st, args[0])
            if o is not None and o.kind == 'const':
                b = [vm.rd_cells(st, o, off + i, 1) for i in range(args[1])]
                return bytes(b).decode('latin1')
    except Exception:
        pass
    return None


def fmt_msg(st, args):
    try:
        p = args[0]
        pieces = load(st, p, 8, 8)
        n = load(st, p + 8, 8, 8)
        out = []
        for i in range(n):
            s = load(st, pieces + 16 * i, 8, 8)
            l = load(st, pieces + 16 * i + 8, 8, 8)
            out.append(msg_of(st, (s, l)) or '')
        return '{}'.join(out)
    except Exception:
        return None


def make_panic(name):
    def b(st, args, ri, nxt, unw):
        m = (fmt_msg(st, args) if 'fmt' in name else msg_of(st, args)) or ''
        return begin_panic(st, unw, '%s %s' % (name.split('::')[-1], m))
    return b


def make_abort(name):
    def b(st, args, ri, nxt, unw):
        m = (fmt_msg(st, args) if 'fmt' in name else msg_of(st, args)) or ''
        last = name.split('::')[-1]
        if last.startswith('panic_nounwind'):
            viol('ub-check', m or 'precondition of an unsafe operation violated')
        viol('abort', '%s (%s)' % (last, st.panicmsg))
    return b


def oom(st):
    if st.failat is None and not st.expect_oom and not st.flags.get('failed'):
        viol('abort', 'allocation error handler called although no request exceeded the limit by right')
    raise PathEnd('oom')


def b_oom(st, args, ri, nxt, unw):
    oom(st)


def b_raw_vec_error(st, args, ri, nxt, unw):
    if kv(st, args[0]) == 0:
        return begin_panic(st, unw, 'capacity overflow')
    oom(st)


def b_layout_valid(st, size, align):
    align = kv(st, align)
    if type(align) is E:
        p2 = eq(ctpop(align, 64), 1, 64)
        if not decide(st, p2):
            return 0
        align = concretize(st, align, 'alignment', 70)
    if align == 0 or align & (align - 1):
        return 0
    return icmp('ule', size, (1 << 63) - align, 64)


def b_zero(st, *a):
    return 0


def b_none(st, *a):
    return None


def mem_cmp(st, p, q, n, eqonly):
    n = kv(st, n)
    if type(n) is E:
        n = concretize(st, n, 'memcmp length')
    if n == 0:
        return 0
    region(st, p, n, 1, 'memcmp')
    region(st, q, n, 1, 'memcmp')
    for i in range(n):
        a = load(st, add(p, i, 64), 1, 1)
        b = load(st, add(q, i, 64), 1, 1)
        if not decide(st, eq(a, b, 8)):
            return 0xffffffff if decide(st, ult(a, b, 8)) else 1
    return 0


def b_memcmp(st, p, q, n):
    return mem_cmp(st, p, q, n, False)


def b_strlen(st, p):
    i = 0
    while True:
        b = load(st, add(p, i, 64), 1, 1)
        if decide(st, eq(b, 0, 8)):
            return i
        i += 1
        if i > 64:
            raise Inconclusive('strlen')


# ---------------------------------------------------------------- harness intrinsics
def nm(st):
    return len(st.inputs)


def uv_sym(st, lo, hi):
    lo, hi = kv(st, lo), kv(st, hi)
    if type(lo) is E or type(hi) is E:
        # symbolic bounds: a full-range value constrained on this path
        s = sym('s%d' % nm(st), 64, rng(lo, 64)[0], rng(hi, 64)[1])
        c = and_(icmp('ule', lo, s, 64), icmp('ule', s, hi, 64), 1)
        if not decide(st, icmp('ule', lo, hi, 64)):
            raise PathEnd('assume')
        range_pc(st, s)
        st.model[s.id] = ev(lo, st.model, st.memo)
        st.memo.pop(s.id, None)
        assume(st, c)
        st.inputs.append(('s', s))
        return s
    if lo > hi:
        raise PathEnd('assume')
    if lo == hi:
        st.inputs.append(('s', lo))
        return lo
    s = sym('s%d' % nm(st), 64, lo, hi)
    range_pc(st, s)
    st.inputs.append(('s', s))
    return s


def range_pc(st, s):
    z = vm.tz3
    if s.lo or s.hi & (s.hi + 1):
        st.pc.append(range_expr(s))


_rng = {}


def range_expr(s):
    """Range constraint as an expression (built raw: the simplifier would fold it)."""
    r = _rng.get(s.id)
    if r is None:
        a = X.mk('ule_raw', 1, (s, s.lo, s.hi), 0, 1)
        r = _rng[s.id] = a
        import z3
        zs = tz3(s)
        a.z = z3.And(z3.UGE(zs, z3.BitVecVal(s.lo, s.w)), z3.ULE(zs, z3.BitVecVal(s.hi, s.w)))
    return r


def uv_byte(st):
    s = sym('b%d' % nm(st), 8)
    st.inputs.append(('s', s))
    return s


def uv_pick(st, lo, hi):
    lo, hi = kv(st, lo), kv(st, hi)
    if type(lo) is E or type(hi) is E:
        raise Unsupported('uv_pick with symbolic bounds')
    if lo > hi:
        raise PathEnd('assume')
    s = sym('p%d' % nm(st), 64, lo, hi)
    if lo == hi:
        st.inputs.append(('s', lo))
        return lo
    v = None
    for x in range(lo, hi):
        if decide_free(st, s, x, lo, hi):
            v = x
            break
    if v is None:
        v = hi
    st.inputs.append(('s', v))
    return v


def decide_free(st, s, x, lo, hi):
    """Fork on a fresh choice: no solver needed, both sides are possible."""
    c = eq(s, x, 64)
    k = st.known.get(c.id)
    if k is not None:
        return k
    ch = st.clone()
    ch.model = dict(st.model)
    ch.memo = dict(st.memo)
    ch.known[c.id] = 0
    st.known[c.id] = 1
    vm.MACH.work.append(ch)
    vm.MACH.stats.forks += 1
    return 1


def uv_assume(st, b):
    b = kv(st, b)
    if type(b) is int:
        if not b & 1:
            raise PathEnd('assume')
        return
    k, q = b, 1
    while k.op == 'not':
        k, q = k.a[0], q ^ 1
    v = st.known.get(k.id)
    if v is not None:
        if v != q:
            raise PathEnd('assume')
        return
    if b.taint:
        return uv_assume(st, vm.settle(st, b, 'assumption depends on uninitialized memory'))
    if not ev(b, st.model, st.memo):
        m = vm.MACH.check(st, b)
        if m is None:
            raise PathEnd('assume')
        st.model = m
        st.memo = {}
    assume(st, b)


def uv_assert(st, b, i):
    a = vm.MACH.stats.asserts
    a[i] = a.get(i, 0) + 1
    must(st, b, 'assert', 'harness assertion %d' % i)
    st.observed.append(i)


def uv_alloc_sym(st, size, align):
    size = kv(st, size)
    align = kv(st, align)
    if type(align) is E:
        align = concretize(st, align, 'align')
    if decide(st, eq(size, 0, 64)):
        st.inputs.append(('m', 'm%d' % nm(st), 0))
        return align
    must(st, icmp('ule', size, LIMIT, 64), 'harness', 'uv_alloc_sym size')
    name = 'm%d' % nm(st)
    k = new_obj(st, size, align, 'heap', name)
    st.live += 1
    st.inputs.append(('m', name, size))
    return obj_addr(k)


def uv_region(st, p, n, align):
    """p..p+n is inside one live object, aligned; n = 0 needs only alignment."""
    n = kv(st, n)
    align = kv(st, align)
    if type(align) is E:
        align = concretize(st, align, 'align')
    k, o, off = find(st, p)
    if o is None:
        if not decide(st, eq(n, 0, 64)):
            viol('dangling', 'reference to %s bytes points to no live object' % show(n))
        if type(p) is E:
            p = concretize(st, p, 'dangling pointer')
        if p == 0 or p % align:
            viol('misaligned', 'dangling reference %s not aligned to %d' % (show(p), align))
        return
    if not decide(st, eq(n, 0, 64)):
        if o.kind not in ('heap', 'stack', 'const', 'global'):
            viol('dangling', 'reference into a bad object')
    bounds(st, o, off, n, 'reference')
    aligned(st, o, off, align, 'reference')


def uv_live(st):
    st.observed.append(st.live)
    return st.live


def uv_allocs(st):
    st.observed.append(st.allocs)
    return st.allocs


TIER = [0]


def uv_tier(st):
    st.inputs.append(('s', TIER[0]))
    return TIER[0]


def uv_fail_at(st, n):
    n = kv(st, n)
    if type(n) is E:
        n = concretize(st, n)
    st.failat = None if n == M64 else n


def uv_allow_oom(st, b):
    st.expect_oom = bool(b & 1)


def uv_observe(st, v):
    st.observed.append(v)


def uv_cover(st, i):
    c = vm.MACH.stats.covers
    c[i] = c.get(i, 0) + 1


def uv_dbg(st, v):
    print('dbg', show(v), [show(c) for c in st.pc[-5:]])


def uv_eq_fork(st, a, b):
    return decide(st, eq(a, b, 64))


def uv_truth(st, b):
    return decide(st, b) if type(b) is E else b


def uv_conc(st, v):
    v = kv(st, v)
    return concretize(st, v, 'uv_conc', 300) if type(v) is E else v


def uv_forged(st, drop, size, align, method):
    """A v-table with the given entries, in read-only memory."""
    k = new_obj(st, 32, 8, 'const', None, 'forged vtable')
    o = st.mem[k]
    for i, v in enumerate((drop, size, align, method)):
        o.cells[8 * i] = (8, v)
    return obj_addr(k)


def uv_catch(st, args, ri, nxt, unw):
    f, data = args
    st.flags['catch'] = st.flags.get('catch', ()) + ((ri, nxt),)
    return icall(st, f, (data,), -2, None, None)


def uv_panic(st, args, ri, nxt, unw):
    return begin_panic(st, unw, 'uv_panic')


def uv_unsupported(st, args, ri, nxt, unw):
    raise vm.Unsupported('a part of the standard library without a stand-in')


UV = {n: v for n, v in globals().items() if n.startswith('uv_')}
UVCTL = {'uv_catch', 'uv_panic', 'uv_unsupported'}


def resolver(f):
    name = f.name[1:].strip('"')
    dem = f.dem
    if name in UV:
        f.builtin = UV[name]
        f.ctl = name in UVCTL
        return
    if f.hdr is not None:
        # bodies that belong to the platform rather than to the code under test
        if dem in ('alloc::alloc::handle_alloc_error', 'alloc::raw_vec::handle_error'):
            pass
        else:
            return
    leg = undecorate(name)
    for key, b in (('___rust_alloc_zeroed', b_alloc_zeroed), ('___rust_alloc', b_alloc), ('___rust_dealloc', b_dealloc), ('___rust_realloc', b_realloc)):
        if name.endswith(key):
            f.builtin = b
            return
    if '__rust_no_alloc_shim_is_unstable' in name:
        f.builtin = b_none
        return
    d = leg or dem
    d = re.sub(r'::h[0-9a-f]{16}$', '', d)
    if d == 'alloc::alloc::handle_alloc_error':
        f.builtin, f.ctl = b_oom, True
    elif d == 'alloc::raw_vec::handle_error':
        f.builtin, f.ctl = b_raw_vec_error, True
    elif d.endswith('Layout::is_size_align_valid'):
        f.builtin = b_layout_valid
    elif ABORT.match(d):
        f.builtin, f.ctl = make_abort(d), True
    elif PANIC.match(d) or PANIC.match(dem):
        f.builtin, f.ctl = make_panic(d), True
    elif d in ALIAS or dem in ALIAS:
        f.builtin, f.ctl = alias(ALIAS.get(d) or ALIAS[dem]), True
    elif name in ('memcmp', 'bcmp'):
        f.builtin = b_memcmp
    elif name == 'strlen':
        f.builtin = b_strlen
    elif 'core::fmt' in d or 'core..fmt' in d or 'core3fmt' in name:
        f.builtin = b_zero


# functions of the standard library that exist only as machine code, and their stand-ins in the harness crate
ALIAS = {
    'alloc::rc::rc_inner_layout_for_value_layout': 'uvstd_rc_layout',
    'alloc::sync::arcinner_layout_for_value_layout': 'uvstd_rc_layout',
    'alloc::ffi::c_str::<impl core::ffi::c_str::CStr>::into_c_string': 'uvstd_into_c_string',
    'std::ffi::os_str::OsStr::into_os_string': 'uvstd_into_os_string',
    'std::path::Path::into_path_buf': 'uvstd_into_path_buf',
    'core::fmt::Formatter::write_str': 'uvstd_fmt_write_str',
    '<core::fmt::Formatter as core::fmt::Write>::write_str': 'uvstd_fmt_write_str',
    '<core::fmt::Formatter as core::fmt::Write>::write_char': 'uvstd_fmt_write_char',
    'core::fmt::Formatter::debug_list': 'uvstd_fmt_list',
    'core::fmt::Formatter::debug_set': 'uvstd_fmt_set',
    'core::fmt::Formatter::debug_tuple': 'uvstd_fmt_tuple',
    'core::fmt::Formatter::debug_tuple_field1_finish': 'uvstd_fmt_field1',
    'core::fmt::builders::DebugList::entry': 'uvstd_fmt_entry',
    'core::fmt::builders::DebugSet::entry': 'uvstd_fmt_entry',
    'core::fmt::builders::DebugList::finish': 'uvstd_fmt_list_end',
    'core::fmt::builders::DebugSet::finish': 'uvstd_fmt_set_end',
    'core::fmt::builders::DebugList::finish_non_exhaustive': 'uvstd_fmt_list_open',
    'core::fmt::builders::DebugSet::finish_non_exhaustive': 'uvstd_fmt_set_open',
    'core::fmt::builders::DebugTuple::field': 'uvstd_fmt_field',
    'core::fmt::builders::DebugTuple::finish': 'uvstd_fmt_tuple_end',
    'core::fmt::write': 'uvstd_fmt_write',
    'core::fmt::Formatter::write_fmt': 'uvstd_fmt_write_fmt',
    '<core::fmt::Formatter as core::fmt::Write>::write_fmt': 'uvstd_fmt_write_fmt',
}


def alias(name):
    def b(st, args, ri, nxt, unw):
        return vm.call(st, vm.MACH.prog.fn(vm.MACH.prog.ext['@' + name], '@' + name), args, ri, nxt, unw)
    return b


class Result:
    pass


def load_program(paths):
    p = Program(vm.RT)
    p.resolve_builtin = resolver
    for x in paths:
        p.add(x)
    vm.MACH.prog = p
    return p


def initial(prog, name):
    m = prog.ext.get('@' + name)
    if m is None:
        raise Unsupported('no harness ' + name)
    f = prog.fn(m, '@' + name)
    if f.entry is None:
        prog.compile(f)
    st = State()
    st.R = []
    st.frame = None
    st.mem = {}
    st.nextid = vm.OBJ0
    st.own = object()
    st.pc = []
    st.known = {}
    st.kval = {}
    st.model = {}
    st.memo = {}
    st.exc = None
    st.panics = 0
    st.inputs = []
    st.ack = {}
    st.observed = []
    st.allocs = 0
    st.live = 0
    st.failat = None
    st.fn = None
    st.al = ()
    st.depth = 0
    st.flags = {}
    st.expect_oom = False
    st.panicmsg = None
    st.seg = vm.call(st, f, (), -1, None, None)
    return st


def inputs_of(st):
    """Concrete inputs for the native replay of this path under st.model."""
    memo = {}
    out = []
    for x in st.inputs:
        if x[0] == 's':
            out.append('s %d' % ev(x[1], st.model, memo))
        else:
            n = ev(x[2], st.model, memo)
            bytes_ = {}
            for off, b in st.ack.get(x[1], {}).values():
                bytes_[ev(off, st.model, memo)] = ev(b, st.model, memo)
            out.append('m %d %s' % (n, ' '.join('%d:%d' % kv_ for kv_ in sorted(bytes_.items()))))
    return out


def backtrace(st):
    out = []
    f = st.fn
    fr = st.frame
    while f is not None:
        out.append(f.dem)
        if fr is None:
            break
        f = fr[6]
        fr = fr[0]
    return out


def report(st, e):
    return dict(harness=vm.MACH.harness, kind=e.kind, msg=e.msg, inputs=inputs_of(st), where=backtrace(st), panic=st.panicmsg,
                observed=[ev(o, st.model, {}) for o in st.observed])


PATH_MAX = 1500000     # the longest paths of the unchanged tree take a few thousand steps


def sig(work):
    """Identifies the pending states, so that parts explored by different processes can be seen to fit together."""
    import hashlib
    h = hashlib.sha1()
    for st in work:
        h.update(repr([X.show(c) for c in st.pc]).encode())
    return h.hexdigest()[:16]


def forget(res, m):
    """What was found before the split is reported by part 0."""
    res.paths = 0
    res.ends = {}
    del res.violations[:], res.known[:], res.errors[:], res.samples[:]
    m.stats = Stats()


def explore(name, deadline=None, max_paths=None, sample_every=0, timeout_ms=60000, stop_on_violation=1, verbose=False, seed=1, known=None, part=(0, 1)):
    """Returns a Result for one harness.

    part = (i, n): of the states that are pending once there are enough of them,
    every n-th one from the i-th on; what comes before belongs to part 0."""
    import random
    rnd = random.Random(seed)
    m = reset_machine(timeout_ms)
    prog = m.prog
    res = Result()
    res.name = name
    res.violations = []
    res.known = []
    m.harness = name
    m.known = known
    m.known_hits = res.known
    m.report = report
    res.errors = []
    res.samples = []
    res.ends = {}
    res.paths = 0
    res.split = None
    t0 = time.time()
    st = initial(prog, name)
    m.work = [st]
    segs = 0
    split = part[1] == 1
    while m.work:
        if not split and len(m.work) >= 8 * part[1]:
            split = True
            res.split = len(m.work), res.paths, sig(m.work)
            m.work = m.work[part[0]::part[1]]
            if part[0]:
                forget(res, m)
        if deadline and time.time() > deadline:
            res.errors.append('time budget exhausted with %d states pending' % len(m.work))
            break
        if max_paths and res.paths >= max_paths:
            res.errors.append('path budget exhausted')
            break
        st = m.work.pop() if split else m.work.pop(0)
        end = 'return'
        try:
            seg = st.seg
            tick = 0
            while seg is not None:
                st.seg = seg
                seg = seg(st, st.R)
                segs += 1
                tick += 1
                if tick > PATH_MAX:
                    viol('hang', 'no end of the path within %d steps' % PATH_MAX)
                if tick & 0xffff == 0 and deadline and time.time() > deadline:
                    raise Inconclusive('time budget exhausted')
        except PathEnd as e:
            end = e.kind
        except Violation as e:
            end = 'violation'
            v = report(st, e)
            if m.known is not None and m.known(v):
                end = 'known'
                res.known.append(v)
            else:
                res.violations.append(v)
                if verbose:
                    print('VIOL', v)
                if len(res.violations) >= stop_on_violation:
                    res.paths += 1
                    break
        except (Unsupported, Inconclusive, NotImplementedError) as e:
            res.errors.append('%s: %s at %s' % (type(e).__name__, e, ' < '.join(backtrace(st)[:4])))
            end = 'error'
            if verbose:
                traceback.print_exc()
            if len(res.errors) > 20:
                break
        res.paths += 1
        res.ends[end] = res.ends.get(end, 0) + 1
        m.stats.maxpc = max(m.stats.maxpc, len(st.pc))
        if sample_every and end == 'return':
            if len(res.samples) < sample_every:
                res.samples.append((inputs_of(st), [ev(o, st.model, {}) for o in st.observed]))
            elif rnd.random() < sample_every / res.paths:
                res.samples[rnd.randrange(sample_every)] = (inputs_of(st), [ev(o, st.model, {}) for o in st.observed])
    if not split and part[0]:
        forget(res, m)
    res.segs = segs
    res.stats = m.stats
    res.time = time.time() - t0
    res.functions = {f.dem: f.ninstr for f in prog.fns.values() if f.entry is not None and f.count}
    return res
