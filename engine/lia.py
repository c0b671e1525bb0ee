"""Exact translation of expressions to integer arithmetic, where they are linear.

An unsigned w-bit value is an integer in 0..2^w; wrap-around is made explicit
with a case split, so the translation is equivalent and not an abstraction.
"""
import z3
import expr as X
from expr import E, MASK, rng, signed

_t = {}
_syms = {}


class NonLinear(Exception):
    pass


def const(v):
    return z3.IntVal(v)


def wrap(raw, lo, hi, w):
    """raw (an integer term in lo..hi) modulo 2^w."""
    m = 1 << w
    if lo >= 0 and hi < m:
        return raw
    if lo >= -m and hi < m:
        return z3.If(raw < 0, raw + m, raw)
    if lo >= 0 and hi < 2 * m:
        return z3.If(raw >= m, raw - m, raw)
    return raw % m


_raw = {}
_divs = {}


def div(t, p):
    """t divided by p, a power of two; tied to the smaller divisors that t was divided by before."""
    if p == 1:
        return t
    ds = _divs.setdefault(t.get_id(), (t, {}))[1]
    r = ds.get(p)
    if r is None:
        q = max((q for q in ds if q < p), default=0)
        r = ds[q] / const(p // q) if q else t / const(p)
        ds[p] = r
    return r


def mod(t, p):
    """t modulo p, a power of two."""
    return t - const(p) * div(t, p)


def high_mask(b, w):
    """k when b keeps exactly the bits from k on, else None."""
    k = X.tz_int(b, w)
    return k if b >> k == MASK[w - k] else None


def raw(e):
    """(t, lo, hi): an integer term in lo..hi that is congruent to e modulo 2^w.
    Sums of wrapped values need no wrapping of their own in it."""
    if type(e) is int:
        return const(e), e, e
    r = _raw.get(e.id)
    if r is not None:
        return r
    if e.op == 'lin':
        m = 1 << e.w
        half = m >> 1
        ts = [(raw(t), k if k < half else k - m) for t, k in e.a]
        best = None
        for c in ((e.c, e.c - m) if e.c else (0,)):
            lo = hi = c
            for (_, tl, th), k in ts:
                l, h = (tl, th) if k > 0 else (th, tl)
                lo += k * l
                hi += k * h
            cost = max(0, -lo) + max(0, hi - m + 1)
            if best is None or cost < best[0]:
                best = (cost, c, lo, hi)
        _, c, lo, hi = best
        t = [x if k == 1 else const(k) * x for (x, _, _), k in ts]
        if c:
            t.append(const(c))
        r = (z3.Sum(t) if len(t) > 1 else t[0]), lo, hi
    elif e.op == 'and' and type(e.a[1]) is int and high_mask(e.a[1], e.w):
        p = 1 << high_mask(e.a[1], e.w)
        t, lo, hi = raw(e.a[0])
        r = const(p) * div(t, p), lo // p * p, hi // p * p
    else:
        r = ti(e), e.lo, e.hi
    _raw[e.id] = r
    return r


def field(x, lo, n):
    """Bits lo..lo+n of x."""
    if type(x) is int:
        return const(x >> lo & MASK[n])
    if lo == 0 and x.hi > MASK[n]:
        return mod(raw(x)[0], 1 << n)
    t = ti(x)
    if lo:
        t = t / const(1 << lo)
    return t if x.hi >> lo <= MASK[n] else t % const(1 << n)


def ti(e):
    """Integer term for a value of width > 1."""
    if type(e) is int:
        return const(e)
    if e.w == 1:
        return z3.If(tb(e), const(1), const(0))
    t = _t.get(e.id)
    if t is not None:
        return t
    op, w, a = e.op, e.w, e.a
    if op == 'sym':
        t = z3.Int('%s#%d' % (a[0], e.id))
        _syms[e.id] = e
    elif op == 'lin':
        r = raw(e)
        t = wrap(*r, w)
    elif op == 'cat':
        pos = 0
        parts = []
        for x, pw in a:
            y = ti(x)
            parts.append(y if pos == 0 else y * const(1 << pos))
            pos += pw
        t = z3.Sum(parts)
    elif op == 'ite':
        t = z3.If(tb(a[0]), ti(a[1]), ti(a[2]))
    elif op == 'ext':
        t = field(a[0], a[1], a[2])
    elif op == 'zext':
        t = ti(a[0])
    elif op == 'sext':
        x = a[0]
        h = 1 << (x.w - 1)
        t = ti(x) if x.hi < h else z3.If(ti(x) >= h, ti(x) + const((1 << w) - (1 << x.w)), ti(x))
    elif op == 'and' and type(a[1]) is int:
        b = a[1]
        k = X.tz_int(b, w)
        n = (b >> k).bit_length()
        if b >> k != MASK[n]:
            raise NonLinear
        if k and k + n == w:
            r = raw(e)
            t = wrap(*r, w)
        elif a[0].hi < 1 << (k + n):
            t = ti(a[0]) - field(a[0], 0, k) if k else ti(a[0])
        else:
            t = field(a[0], k, n)
            if k:
                t = t * const(1 << k)
    elif op == 'or':
        x, y = a
        lx, hx, tx = rng(x, w)
        ly, hy, ty = rng(y, w)
        if tx >= hy.bit_length() or ty >= hx.bit_length():
            t = ti(x) + ti(y)
        else:
            raise NonLinear
    elif op == 'xor' and a[1] == MASK[w]:
        t = const(MASK[w]) - ti(a[0])
    elif op in ('udiv', 'urem') and type(a[1]) is int and a[1]:
        t = ti(a[0]) / const(a[1]) if op == 'udiv' else ti(a[0]) % const(a[1])
    elif op == 'shl' and type(a[1]) is int and a[1] < w:
        t = wrap(ti(a[0]) * const(1 << a[1]), a[0].lo << a[1], a[0].hi << a[1], w)
    elif op == 'lshr' and type(a[1]) is int and a[1] < w:
        t = ti(a[0]) / const(1 << a[1])
    else:
        raise NonLinear
    _t[e.id] = t
    return t


def sint(x, w):
    if type(x) is int:
        return const(signed(x, w))
    h = 1 << (w - 1)
    if x.hi < h:
        return ti(x)
    return z3.If(ti(x) >= h, ti(x) - const(1 << w), ti(x))


def tb(e):
    """Boolean term."""
    if type(e) is int:
        return z3.BoolVal(bool(e))
    t = _t.get(e.id)
    if t is not None:
        return t
    op, a = e.op, e.a
    if op == 'not':
        t = z3.Not(tb(a[0]))
    elif op == 'ule_raw':
        s = a[0]
        t = z3.And(ti(s) >= a[1], ti(s) <= a[2])
    elif op in ('eq', 'ult'):
        w = (a[0] if type(a[0]) is E else a[1]).w
        if w == 1:
            if op == 'ult':
                raise NonLinear
            t = tb(a[0]) == tb(a[1])
        else:
            x, y = ti(a[0]), ti(a[1])
            t = x == y if op == 'eq' else x < y
    elif op == 'iff':
        t = tb(a[0]) == tb(a[1])
    elif op == 'slt':
        w = (a[0] if type(a[0]) is E else a[1]).w
        t = sint(a[0], w) < sint(a[1], w)
    elif op == 'band':
        t = z3.And(tb(a[0]), tb(a[1]))
    elif op == 'bor':
        t = z3.Or(tb(a[0]), tb(a[1]))
    elif op == 'ite':
        t = z3.If(tb(a[0]), tb(a[1]), tb(a[2]))
    elif op == 'sym':
        t = z3.Bool('%s#%d' % (a[0], e.id))
    elif op == 'ext':
        t = field(a[0], a[1], 1) == 1
    else:
        raise NonLinear
    _t[e.id] = t
    return t


def symbols(es):
    """Variables of the constraints, by their mask."""
    m = 0
    for e in es:
        m |= e.m
    out = []
    while m:
        b = m & -m
        out.append(X.SYMLIST[b.bit_length() - 1])
        m ^= b
    return out


def query(es):
    """The constraints as integer formulas."""
    return [tb(e) for e in es]


_rng = {}


def ranges(es):
    """The ranges of their variables."""
    out = []
    for s in symbols(es):
        if s.w > 1:
            r = _rng.get(s.id)
            if r is None:
                v = ti(s)
                r = _rng[s.id] = [v >= s.lo, v <= s.hi]
            out += r
    return out


_lits = {}


def literal(c):
    """A literal for the constraint, and the clause that ties them."""
    p = _lits.get(c.id)
    if p is None:
        b = z3.Bool('c!%d' % c.id)
        p = _lits[c.id] = b, z3.Implies(b, tb(c))
    return p
