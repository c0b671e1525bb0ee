"""Bit-vector expressions: Python ints are constants, E nodes are symbolic.

Nodes are hash-consed.  Sums are kept in linear normal form (constant + sum of
coefficient*term, modulo 2^w) so that address arithmetic cancels syntactically,
and every node carries an unsigned interval and a count of known-zero low bits,
which settle most comparisons without a solver call.
"""
import z3

_tab = {}
_n = [0]
MASK = [0] + [(1 << w) - 1 for w in range(1, 257)]


class E:
    __slots__ = ('m', 'op', 'w', 'a', 'c', 'lo', 'hi', 'tz', 'id', 'z', 'taint')

    def __repr__(self):
        return show(self)


def show(e, d=0):
    if type(e) is int:
        return hex(e) if e > 9 else str(e)
    if type(e) is tuple:
        return '(' + ', '.join(show(x) for x in e) + ')'
    if e.op == 'sym':
        return e.a[0]
    if d > 6:
        return '..'
    if e.op == 'lin':
        s = ' + '.join((show(t, d + 1) if k == 1 else '%s*%s' % (show(k if k < 1 << (e.w - 1) else k), show(t, d + 1))) for t, k in e.a)
        return '(%s%s)' % (s, ' + ' + show(e.c) if e.c else '')
    return '%s(%s)' % (e.op, ', '.join(show(x, d + 1) for x in e.a))


SYMS = {}
SYMLIST = []


def mk(op, w, a, lo=0, hi=None, tz=0, c=0, taint=None):
    key = (op, w, c) + tuple([(x.id, -1) if type(x) is E else x for x in a]) if op != 'lin' else \
        ('lin', w, c) + tuple([(t.id, k) for t, k in a])
    e = _tab.get(key)
    if e is not None:
        return e
    if tz >= w:
        return 0
    e = E()
    e.op = op
    e.w = w
    e.a = a
    e.c = c
    if hi is None:
        hi = MASK[w]
    e.lo = lo
    e.hi = hi
    e.tz = tz
    e.z = None
    if taint is None:
        taint = False
        for x in a:
            if type(x) is tuple:
                x = x[0]
            if type(x) is E and x.taint:
                taint = True
                break
    e.taint = taint
    if op == 'sym':
        e.m = 1 << len(SYMLIST)
        SYMLIST.append(e)
    else:
        m = 0
        for x in a:
            if type(x) is tuple:
                x = x[0]
            if type(x) is E:
                m |= x.m
        e.m = m
    _n[0] += 1
    e.id = _n[0]
    _tab[key] = e
    return e




def sym(name, w, lo=0, hi=None):
    if hi is None:
        hi = MASK[w]
    e = mk('sym', w, (name, lo, hi), lo, hi)
    SYMS[e.id] = e
    return e


_und = [0]


def undef(w):
    _und[0] += 1
    return mk('undef', w, ((_und[0]),), taint=True)


def taint_of(x):
    return type(x) is E and x.taint


def tz_int(x, w):
    if x == 0:
        return w
    return (x & -x).bit_length() - 1


def mk_lin(w, c, terms):
    """terms: list of (E, coef) sorted by id, coefs non-zero mod 2^w."""
    if not terms:
        return c
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    m = MASK[w]
    half = 1 << (w - 1)
    lo = hi = c
    tz = tz_int(c, w)
    for t, k in terms:
        if k < half:
            lo += k * t.lo
            hi += k * t.hi
        else:
            k -= m + 1
            lo += k * t.hi
            hi += k * t.lo
        z = tz_int(k & m, w) + t.tz
        if z < tz:
            tz = z
    if hi - lo > m or (lo >> w) != (hi >> w):
        lo, hi = 0, m
    else:
        lo &= m
        hi &= m
    if lo == hi:
        return lo
    return mk('lin', w, tuple(terms), lo, hi, min(tz, w), c)


def _parts(x):
    if type(x) is int:
        return x, ()
    if x.op == 'lin':
        return x.c, x.a
    return 0, ((x, 1),)


def _merge(a, b, m):
    i = j = 0
    out = []
    na, nb = len(a), len(b)
    while i < na and j < nb:
        ta, ka = a[i]
        tb, kb = b[j]
        if ta is tb:
            k = (ka + kb) & m
            if k:
                out.append((ta, k))
            i += 1
            j += 1
        elif ta.id < tb.id:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return out


def add(a, b, w):
    m = MASK[w]
    if type(a) is int:
        if type(b) is int:
            return (a + b) & m
        if a == 0:
            return b
    elif type(b) is int and b == 0:
        return a
    if w == 1:
        return xor(a, b, 1)
    ca, ta = _parts(a)
    cb, tb = _parts(b)
    return mk_lin(w, (ca + cb) & m, _merge(ta, tb, m))


def scale(a, k, w):
    m = MASK[w]
    k &= m
    if type(a) is int:
        return (a * k) & m
    if k == 0:
        return 0
    if k == 1:
        return a
    c, t = _parts(a)
    return mk_lin(w, (c * k) & m, [(x, (q * k) & m) for x, q in t if (q * k) & m])


def sub(a, b, w):
    m = MASK[w]
    if type(b) is int:
        if type(a) is int:
            return (a - b) & m
        if b == 0:
            return a
        return add(a, -b & m, w)
    if a is b:
        return 0
    if w == 1:
        return xor(a, b, 1)
    return add(a, scale(b, m, w), w)


def mul(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & MASK[w]
        return scale(b, a, w)
    if type(b) is int:
        return scale(a, b, w)
    if a.id > b.id:
        a, b = b, a
    lo, hi = a.lo * b.lo, a.hi * b.hi
    if hi > MASK[w]:
        lo, hi = 0, MASK[w]
    return mk('mul', w, (a, b), lo, hi, min(w, a.tz + b.tz))


def nowrap(e):
    """True if the linear form, read over the integers, never leaves [0,2^w)."""
    w = e.w
    half = 1 << (w - 1)
    lo = hi = e.c
    for t, k in e.a:
        if k >= half:
            k -= 1 << w
        if k > 0:
            lo += k * t.lo
            hi += k * t.hi
        else:
            lo += k * t.hi
            hi += k * t.lo
    return lo >= 0 and hi <= MASK[w]


def udiv(a, b, w):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            return a // b
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if a.hi < b:
            return 0
        if a.op == 'lin' and all(k % b == 0 and k < 1 << (w - 1) for _, k in a.a) and nowrap(a):
            return mk_lin(w, a.c // b, [(t, k // b) for t, k in a.a])
        return mk('udiv', w, (a, b), a.lo // b, a.hi // b)
    if type(a) is int and a == 0:
        return 0
    lo, hi, _ = rng(a, w)
    return mk('udiv', w, (a, b), 0, hi)


def urem(a, b, w):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if a.hi < b:
            return a
        return mk('urem', w, (a, b), 0, b - 1)
    return mk('urem', w, (a, b), 0, b.hi)


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(a, b, w):
    if type(a) is int and type(b) is int:
        x, y = signed(a, w), signed(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    half = 1 << (w - 1)
    if type(b) is int and b < half and rng(a, w)[1] < half:
        return udiv(a, b, w)
    if type(b) is int and b < half and b & (b - 1) == 0 and type(a) is E and a.tz >= b.bit_length() - 1:
        return ashr(a, b.bit_length() - 1, w)
    return mk('sdiv', w, (a, b))


def srem(a, b, w):
    if type(a) is int and type(b) is int:
        x, y = signed(a, w), signed(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & MASK[w]
    half = 1 << (w - 1)
    if type(b) is int and b < half and rng(a, w)[1] < half:
        return urem(a, b, w)
    return mk('srem', w, (a, b))


def rng(x, w):
    if type(x) is int:
        return x, x, tz_int(x, w)
    return x.lo, x.hi, x.tz


def not_(x):
    if type(x) is int:
        return x ^ 1
    if x.op == 'not':
        return x.a[0]
    return mk('not', 1, (x,), 0, 1)


def and_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        m = MASK[w]
        if b == m:
            return a
        if w == 1:
            return a
        if b & (b + 1) == 0:  # low mask
            k = b.bit_length()
            if a.hi <= b:
                return a
            if a.tz >= k:
                return 0
            if a.op == 'lin':
                t2 = [(t, q & b) for t, q in a.a if tz_int(q, w) + t.tz < k]
                r = mk_lin(w, a.c & b, t2)
                if r is not a:
                    return and_(r, b, w)
            if a.op == 'and' and type(a.a[1]) is int:
                return and_(a.a[0], a.a[1] & b, w)
            return mk('and', w, (a, b), 0, b, a.tz)
        inv = ~b & m
        if inv & (inv + 1) == 0:  # high mask: round down to 2^k
            k = inv.bit_length()
            if a.tz >= k:
                return a
            if a.hi <= inv:
                return 0
            if a.op == 'lin':
                big = [(t, q) for t, q in a.a if tz_int(q, w) + t.tz >= k]
                if big or a.c & b:
                    rest = [(t, q) for t, q in a.a if tz_int(q, w) + t.tz < k]
                    ch, cl = a.c & b, a.c & inv
                    # keep the low constant with the rest
                    r = mk_lin(w, cl, rest)
                    if big or ch:
                        return add(mk_lin(w, ch, big), and_(r, b, w), w)
            return mk('and', w, (a, b), a.lo & b, a.hi & b, k)
        tz = max(a.tz, tz_int(b, w))
        return mk('and', w, (a, b), 0, min(a.hi, b), min(tz, w))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    if w == 1:
        if (a.op == 'not' and a.a[0] is b) or (b.op == 'not' and b.a[0] is a):
            return 0
        return mk('band', 1, (a, b), 0, 1)
    return mk('and', w, (a, b), 0, min(a.hi, b.hi), max(a.tz, b.tz))


def or_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
        if a.tz >= b.bit_length():
            return add(a, b, w)
        return mk('or', w, (a, b), max(a.lo, b), (1 << max(a.hi, b).bit_length()) - 1, min(a.tz, tz_int(b, w)))
    if a is b:
        return a
    if w == 1:
        if a.id > b.id:
            a, b = b, a
        if (a.op == 'not' and a.a[0] is b) or (b.op == 'not' and b.a[0] is a):
            return 1
        return mk('bor', 1, (a, b), 0, 1)
    if a.hi < (1 << b.tz) or b.hi < (1 << a.tz):
        return add(a, b, w)
    if a.id > b.id:
        a, b = b, a
    return mk('or', w, (a, b), max(a.lo, b.lo), (1 << max(a.hi, b.hi).bit_length()) - 1, min(a.tz, b.tz))


def xor(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if b == MASK[w]:
            return sub(MASK[w], a, w)
        return mk('xor', w, (a, b), 0, (1 << max(a.hi, b).bit_length()) - 1, min(a.tz, tz_int(b, w)))
    if a is b:
        return 0
    if w == 1:
        return not_(icmp('eq', a, b, 1))
    if a.id > b.id:
        a, b = b, a
    return mk('xor', w, (a, b), 0, (1 << max(a.hi, b.hi).bit_length()) - 1, min(a.tz, b.tz))


def shl(a, b, w):
    if type(b) is int:
        if b >= w:
            return undef(w)
        return scale(a, 1 << b, w)
    return mk('shl', w, (a, b), 0, None, rng(a, w)[2] if type(a) is E else min(w, tz_int(a, w)))


def lshr(a, b, w):
    if type(b) is int:
        if b >= w:
            return undef(w)
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        if a.hi >> b == a.lo >> b:
            return a.lo >> b
        if a.op == 'lin' and nowrap(a) and all(k < 1 << (w - 1) and k & ((1 << b) - 1) == 0 for _, k in a.a):
            return mk_lin(w, a.c >> b, [(t, k >> b) for t, k in a.a])
        if a.op == 'zext' and a.a[0].w > b and a.a[0].op == 'cat':
            return zext(ext(a.a[0], b, a.a[0].w - b), a.a[0].w - b, w)
        return mk('lshr', w, (a, b), a.lo >> b, a.hi >> b, max(0, a.tz - b))
    return mk('lshr', w, (a, b), 0, rng(a, w)[1])


def ashr(a, b, w):
    half = 1 << (w - 1)
    if type(b) is int:
        if b >= w:
            return undef(w)
        if type(a) is int:
            return (signed(a, w) >> b) & MASK[w]
        if a.hi < half:
            return lshr(a, b, w)
    return mk('ashr', w, (a, b))


def ext(x, lo, n):
    """n bits of x starting at bit lo."""
    if type(x) is int:
        return (x >> lo) & MASK[n]
    if lo == 0 and n == x.w:
        return x
    if x.op == 'undef':
        return undef(n)
    if x.op == 'ext':
        return ext(x.a[0], x.a[1] + lo, n)
    if x.op == 'cat':
        pos = 0
        parts = []
        for v, pw in x.a:
            l, h = max(lo, pos), min(lo + n, pos + pw)
            if l < h:
                parts.append((ext(v, l - pos, h - l), h - l))
            pos += pw
        return cat(parts)
    if x.op in ('zext', 'sext'):
        iw = x.a[0].w
        if lo + n <= iw:
            return ext(x.a[0], lo, n)
        if lo >= iw and x.op == 'zext':
            return 0
        if lo == 0 and x.op == 'zext':
            return zext(x.a[0], iw, n)
    if lo == 0:
        if x.op == 'lin':
            # truncation distributes over the sum
            r = x.c & MASK[n]
            for t, k in x.a:
                if k & MASK[n]:
                    r = add(r, scale(ext(t, 0, n), k, n), n)
            return r
        if x.op == 'ite':
            return ite(x.a[0], ext(x.a[1], 0, n), ext(x.a[2], 0, n), n)
        if n == 1:
            if x.op == 'and' and type(x.a[1]) is int and x.a[1] & 1:
                return ext(x.a[0], 0, 1)
            if x.hi <= 1:
                return icmp('ne', x, 0, x.w)
    if x.hi >> lo == 0:
        return 0
    if lo == 0 and x.hi <= MASK[n]:
        return mk('ext', n, (x, 0, n), x.lo, x.hi, min(n, x.tz))
    return mk('ext', n, (x, lo, n), 0, None, max(0, min(n, x.tz - lo)))


def cat(parts):
    """parts: list of (value, width), low bits first."""
    out = []
    for v, w in parts:
        if out:
            pv, pw = out[-1]
            if type(v) is int and type(pv) is int:
                out[-1] = (pv | v << pw, pw + w)
                continue
            if type(v) is E and type(pv) is E:
                a, al = (v.a[0], v.a[1]) if v.op == 'ext' else (v, 0)
                b, bl = (pv.a[0], pv.a[1]) if pv.op == 'ext' else (pv, 0)
                if a is b and bl + pw == al:
                    out[-1] = (ext(a, bl, pw + w), pw + w)
                    continue
                if v.op == 'undef' and pv.op == 'undef':
                    out[-1] = (undef(pw + w), pw + w)
                    continue
        if type(v) is E and v.op == 'cat':
            out.extend(v.a)
        else:
            out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    w = sum(x[1] for x in out)
    if type(out[-1][0]) is int and out[-1][0] == 0 and len(out) == 2:
        return zext(out[0][0], out[0][1], w)
    key = ('cat', w) + tuple((v.id, -1, pw) if type(v) is E else (v, pw) for v, pw in out)
    e = _tab.get(key)
    if e is None:
        e = mk('cat', w, (('k', _n[0]),), 0, None, 0, 0, any(taint_of(v) for v, _ in out))
        e.a = tuple(out)
        pos = 0
        lo = hi = 0
        for v, pw in out:
            l, h, _ = rng(v, pw)
            lo += l << pos
            hi += h << pos
            pos += pw
            if type(v) is E:
                e.m |= v.m
        e.lo, e.hi = lo, hi
        _tab[key] = e
    return e


def zext(x, wf, wt):
    if wf == wt or type(x) is int:
        return x
    if x.op == 'undef':
        return mk('zext', wt, (x,), 0, MASK[wf])
    if x.op == 'zext':
        x = x.a[0]
    if x.op == 'ext' and x.a[1] == 0 and x.a[0].hi <= MASK[wf] and x.a[0].w == wt:
        return x.a[0]
    if x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], x.a[1], x.a[2], wt)
    if x.op == 'lin' and nowrap(x) and all(k < 1 << (wf - 1) for _, k in x.a):
        r = x.c
        for t, k in x.a:
            r = add(r, scale(zext(t, wf, wt), k, wt), wt)
        return r
    return mk('zext', wt, (x,), x.lo, x.hi, x.tz if x.tz < wf else wt)


def sext(x, wf, wt):
    if wf == wt:
        return x
    if type(x) is int:
        return signed(x, wf) & MASK[wt]
    if x.hi < 1 << (wf - 1):
        return zext(x, wf, wt)
    if x.op == 'ite' and type(x.a[1]) is int and type(x.a[2]) is int:
        return ite(x.a[0], sext(x.a[1], wf, wt), sext(x.a[2], wf, wt), wt)
    return mk('sext', wt, (x,))


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if w == 1:
        return or_(and_(c, a, 1), and_(not_(c), b, 1), 1)
    la, ha, ta = rng(a, w)
    lb, hb, tb = rng(b, w)
    return mk('ite', w, (c, a, b), min(la, lb), max(ha, hb), min(ta, tb), 0, True if c.taint else None)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule',
       'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}


def icmp(p, a, b, w):
    if type(a) is int and type(b) is int:
        if p == 'eq':
            return int(a == b)
        if p == 'ne':
            return int(a != b)
        if p[0] == 's':
            a, b = signed(a, w), signed(b, w)
        q = p[1:]
        return int(a < b if q == 'lt' else a <= b if q == 'le' else a > b if q == 'gt' else a >= b)
    if p == 'ne':
        return not_(eq(a, b, w))
    if p == 'eq':
        return eq(a, b, w)
    if p == 'ult':
        return ult(a, b, w)
    if p == 'ugt':
        return ult(b, a, w)
    if p == 'ule':
        return not_(ult(b, a, w))
    if p == 'uge':
        return not_(ult(a, b, w))
    if p == 'slt':
        return slt(a, b, w)
    if p == 'sgt':
        return slt(b, a, w)
    if p == 'sle':
        return not_(slt(b, a, w))
    if p == 'sge':
        return not_(slt(a, b, w))
    raise NotImplementedError(p)


def eq(a, b, w):
    if a is b:
        return 1
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if type(a) is int:
            return int(a == b)
        if w == 1:
            return a if b else not_(a)
        if b < a.lo or b > a.hi or tz_int(b, w) < a.tz:
            return 0
        if a.op == 'zext':
            return eq(a.a[0], b, a.a[0].w) if b <= MASK[a.a[0].w] else 0
        if a.op == 'ite':
            c, x, y = a.a
            if type(x) is int or type(y) is int:
                ex, ey = eq(x, b, w), eq(y, b, w)
                if type(ex) is int and type(ey) is int:
                    return ite(c, ex, ey, 1)
        if a.op == 'lin':
            if len(a.a) == 1:
                t, k = a.a[0]
                if k == 1:
                    return eq(t, (b - a.c) & MASK[w], w)
                if k == MASK[w]:
                    return eq(t, (a.c - b) & MASK[w], w)
                if k & (k - 1) == 0 and nowrap(a):
                    d = b - a.c
                    if d < 0 or d % k:
                        return 0
                    return eq(t, d // k, w)
            if b:
                a = sub(a, b, w)
                b = 0
                if type(a) is int:
                    return int(a == 0)
                if a.lo > 0:
                    return 0
        return mk('eq', 1, (a, b), 0, 1)
    if w == 1:
        return mk('iff', 1, (a, b) if a.id < b.id else (b, a), 0, 1)
    if a.hi < b.lo or b.hi < a.lo:
        return 0
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0], a.a[0].w)
    d = sub(a, b, w)
    if type(d) is int:
        return int(d == 0)
    if d.lo > 0 or (d.op == 'lin' and d.c and tz_int(d.c, w) < min(tz_int(k, w) + t.tz for t, k in d.a)):
        return 0
    if a.op == 'lin' or b.op == 'lin':
        # canonical sign: first coefficient below half
        if d.op == 'lin' and d.a[0][1] >> (w - 1):
            d = scale(d, MASK[w], w)
        return eq(d, 0, w)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 1, (a, b), 0, 1)


def ult(a, b, w):
    if a is b:
        return 0
    la, ha, _ = rng(a, w)
    lb, hb, _ = rng(b, w)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    if w == 1:
        return and_(not_(a), b, 1)
    if type(b) is int:
        if b == 1:
            return eq(a, 0, w)
        if a.op == 'zext':
            return ult(a.a[0], b, a.a[0].w)
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(a.a[0], int(a.a[1] < b), int(a.a[2] < b), 1)
    elif type(a) is int:
        if a == 0:
            return not_(eq(b, 0, w))
        if b.op == 'zext':
            return ult(a, b.a[0], b.a[0].w)
    else:
        if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
            return ult(a.a[0], b.a[0], a.a[0].w)
    # cancel common parts when neither side can wrap
    if type(a) is E and type(b) is E and (a.op == 'lin' or b.op == 'lin'):
        if (a.op != 'lin' or nowrap(a)) and (b.op != 'lin' or nowrap(b)):
            d = sub(b, a, w)  # compare over the integers: a<b iff b-a>0
            if type(d) is int:
                return int(0 < signed(d, w))
            half = 1 << (w - 1)
            pos = [(t, k) for t, k in _parts(d)[1] if k < half]
            neg = [(t, (-k) & MASK[w]) for t, k in _parts(d)[1] if k >= half]
            c = signed(_parts(d)[0], w)
            if sum(k * t.hi for t, k in pos) + abs(c) <= MASK[w] and sum(k * t.hi for t, k in neg) + abs(c) <= MASK[w]:
                # neg - c < pos
                na = mk_lin(w, -c if c < 0 else 0, neg)
                nb = mk_lin(w, c if c > 0 else 0, pos)
                if na is not a or nb is not b:
                    if type(na) is int and type(nb) is int:
                        return int(na < nb)
                    la, ha, _ = rng(na, w)
                    lb, hb, _ = rng(nb, w)
                    if ha < lb:
                        return 1
                    if la >= hb:
                        return 0
                    if type(nb) is int and nb == 1:
                        return eq(na, 0, w)
                    if type(na) is int and na == 0:
                        return not_(eq(nb, 0, w))
                    return mk('ult', 1, (na, nb), 0, 1)
    return mk('ult', 1, (a, b), 0, 1)


def slt(a, b, w):
    if a is b:
        return 0
    half = 1 << (w - 1)
    la, ha, _ = rng(a, w)
    lb, hb, _ = rng(b, w)
    if ha < half and hb < half:
        return ult(a, b, w)
    if la >= half and hb < half:
        return 1
    if ha < half and lb >= half:
        return 0
    return mk('slt', 1, (a, b), 0, 1)


def ctpop(a, w):
    if type(a) is int:
        return bin(a).count('1')
    return mk('ctpop', w, (a,), 0, w)


def cttz(a, w):
    if type(a) is int:
        return tz_int(a, w)
    return mk('cttz', w, (a,), 0, w)


def ctlz(a, w):
    if type(a) is int:
        return w - a.bit_length()
    return mk('ctlz', w, (a,), 0, w)


def implies(a, b):
    return or_(not_(a), b, 1)


# ---------------------------------------------------------------- evaluation
def ev(e, model, memo):
    if type(e) is int:
        return e
    v = memo.get(e.id)
    if v is not None:
        return v
    op = e.op
    w = e.w
    if op == 'sym':
        v = model.get(e.id)
        if v is None:
            v = e.lo
    elif op == 'undef':
        v = 0
    elif op == 'lin':
        v = e.c
        for t, k in e.a:
            v += k * ev(t, model, memo)
        v &= MASK[w]
    elif op == 'cat':
        v = 0
        pos = 0
        for x, pw in e.a:
            v |= ev(x, model, memo) << pos
            pos += pw
    elif op == 'ite':
        v = ev(e.a[1], model, memo) if ev(e.a[0], model, memo) else ev(e.a[2], model, memo)
    elif op == 'ext':
        v = (ev(e.a[0], model, memo) >> e.a[1]) & MASK[e.a[2]]
    else:
        a = [ev(x, model, memo) for x in e.a]
        if op == 'not':
            v = a[0] ^ 1
        elif op in ('eq', 'iff'):
            v = int(a[0] == a[1])
        elif op == 'ult':
            v = int(a[0] < a[1])
        elif op == 'slt':
            ww = (e.a[0] if type(e.a[0]) is E else e.a[1]).w
            v = int(signed(a[0], ww) < signed(a[1], ww))
        elif op in ('band', 'and'):
            v = a[0] & a[1]
        elif op in ('bor', 'or'):
            v = a[0] | a[1]
        elif op == 'xor':
            v = a[0] ^ a[1]
        elif op == 'mul':
            v = (a[0] * a[1]) & MASK[w]
        elif op == 'udiv':
            v = a[0] // a[1] if a[1] else MASK[w]
        elif op == 'urem':
            v = a[0] % a[1] if a[1] else a[0]
        elif op == 'sdiv':
            v = sdiv(a[0], a[1], w) if a[1] else 0
        elif op == 'srem':
            v = srem(a[0], a[1], w) if a[1] else a[0]
        elif op == 'shl':
            v = (a[0] << a[1]) & MASK[w] if a[1] < w else 0
        elif op == 'lshr':
            v = a[0] >> a[1] if a[1] < w else 0
        elif op == 'ashr':
            v = (signed(a[0], w) >> min(a[1], w)) & MASK[w]
        elif op == 'zext':
            v = a[0]
        elif op == 'sext':
            v = signed(a[0], e.a[0].w) & MASK[w]
        elif op == 'ctpop':
            v = bin(a[0]).count('1')
        elif op == 'cttz':
            v = tz_int(a[0], w)
        elif op == 'ctlz':
            v = w - a[0].bit_length()
        else:
            raise NotImplementedError(op)
    memo[e.id] = v
    return v


def defined(e, leaf, memo):
    """e with leaf(w) in place of every undefined value."""
    if type(e) is int or not e.taint:
        return e
    r = memo.get(e.id)
    if r is not None:
        return r
    op, w = e.op, e.w
    if op == 'undef':
        r = leaf(w)
    elif op == 'lin':
        r = e.c
        for t, k in e.a:
            r = add(r, scale(defined(t, leaf, memo), k, w), w)
    elif op == 'cat':
        r = cat([(defined(x, leaf, memo), pw) for x, pw in e.a])
    elif op == 'ext':
        r = ext(defined(e.a[0], leaf, memo), e.a[1], e.a[2])
    else:
        ow = next((x.w for x in e.a if type(x) is E), w)
        a = [defined(x, leaf, memo) for x in e.a]
        if op == 'not':
            r = not_(a[0])
        elif op == 'ite':
            r = ite(a[0], a[1], a[2], w)
        elif op in ('eq', 'iff'):
            r = eq(a[0], a[1], ow)
        elif op == 'ult':
            r = ult(a[0], a[1], ow)
        elif op == 'slt':
            r = slt(a[0], a[1], ow)
        elif op in ('band', 'and'):
            r = and_(a[0], a[1], w)
        elif op in ('bor', 'or'):
            r = or_(a[0], a[1], w)
        elif op in ('xor', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
            r = globals()[op](a[0], a[1], w)
        elif op in ('zext', 'sext'):
            r = globals()[op](a[0], ow, w)
        elif op in ('ctpop', 'cttz', 'ctlz'):
            r = globals()[op](a[0], w)
        else:
            raise NotImplementedError(op)
    memo[e.id] = r
    return r


# ---------------------------------------------------------------- z3
_low = {}


def low(e, k):
    """z3 term for the low k bits of e, built at that width where possible."""
    if type(e) is int:
        return z3.BitVecVal(e & MASK[k], k)
    w = e.w
    if w == k and (e.hi >> (k - 1) or w == 1):
        return _b2v(e, 1) if w == 1 else tz3(e)
    key = (e.id, k)
    z = _low.get(key)
    if z is not None:
        return z
    op = e.op
    a = e.a
    n = e.hi.bit_length() or 1
    if n < k:
        z = z3.ZeroExt(k - n, low(e, n))
    elif op == 'sym':
        # n >= k; one variable of the width of the range
        v = z3.BitVec('%s#%d' % (a[0], e.id), n)
        z = v if n == k else z3.Extract(k - 1, 0, v)
    elif op == 'lin':
        z = neg = None
        m = MASK[k] + 1
        if e.c & MASK[k]:
            z = z3.BitVecVal(e.c & MASK[k], k)
        for t, c in a:
            c &= MASK[k]
            if not c:
                continue
            tt = low(t, k)
            if c > m >> 1:
                c = m - c
                x = tt if c == 1 else tt * z3.BitVecVal(c, k)
                neg = x if neg is None else neg + x
            else:
                x = tt if c == 1 else tt * z3.BitVecVal(c, k)
                z = x if z is None else z + x
        if neg is not None:
            z = -neg if z is None else z - neg
        if z is None:
            z = z3.BitVecVal(0, k)
    elif op == 'and':
        z = low(a[0], k) & low(a[1], k)
    elif op == 'or':
        z = low(a[0], k) | low(a[1], k)
    elif op == 'xor':
        z = low(a[0], k) ^ low(a[1], k)
    elif op == 'mul':
        z = low(a[0], k) * low(a[1], k)
    elif op == 'ite':
        z = z3.If(tz3(a[0]), low(a[1], k), low(a[2], k))
    elif op == 'zext' and a[0].w > 1 and k <= a[0].w:
        z = low(a[0], k)
    elif op == 'ext' and a[1] == 0 and k > 1:
        z = low(a[0], k)
    elif op == 'cat':
        parts = []
        left = k
        for x, pw in a:
            if left <= 0:
                break
            q = min(pw, left)
            parts.append(low(x, q))
            left -= q
        z = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
    else:
        z = z3.Extract(k - 1, 0, tz3w(e))
    _low[key] = z
    return z


def tz3w(e):
    """Full-width term for an operation low() cannot narrow."""
    if e.z is None:
        tz3(e, None, True)
    return e.z


def tz3(e, w=None, wide=False):
    if type(e) is int:
        return z3.BoolVal(bool(e)) if w == 1 else z3.BitVecVal(e, w)
    if e.z is not None:
        return e.z
    op = e.op
    w = e.w
    a = e.a

    def bv(x, ww=w):
        return tz3(x, ww)

    if w > 1 and not wide:
        k = e.hi.bit_length() or 1
        if k < w:
            z = e.z = z3.ZeroExt(w - k, low(e, k))
            return z
    if op == 'sym':
        z = z3.Bool(a[0]) if w == 1 else z3.BitVec('%s#%d' % (a[0], e.id), w)
    elif op == 'undef':
        z = z3.Bool('undef1') if w == 1 else z3.BitVec('undef%d' % w, w)
    elif op == 'lin':
        z = None
        m = MASK[w] + 1
        if e.c:
            z = z3.BitVecVal(e.c, w)
        neg = None
        for t, k in a:
            tt = tz3(t)
            if k >= m >> 1:
                k = m - k
                x = tt if k == 1 else tt * z3.BitVecVal(k, w)
                neg = x if neg is None else neg + x
            else:
                x = tt if k == 1 else tt * z3.BitVecVal(k, w)
                z = x if z is None else z + x
        if neg is not None:
            z = -neg if z is None else z - neg
    elif op == 'cat':
        z = z3.Concat(*[_b2v(x, pw) for x, pw in reversed(a)])
    elif op == 'ext':
        z = z3.Extract(a[1] + a[2] - 1, a[1], tz3(a[0]))
        if a[2] == 1:
            z = z == z3.BitVecVal(1, 1)
    elif op == 'zext':
        x = a[0]
        z = z3.If(tz3(x), z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if x.w == 1 else z3.ZeroExt(w - x.w, tz3(x))
    elif op == 'sext':
        x = a[0]
        z = z3.If(tz3(x), z3.BitVecVal(MASK[w], w), z3.BitVecVal(0, w)) if x.w == 1 else z3.SignExt(w - x.w, tz3(x))
    elif op == 'ite':
        z = z3.If(tz3(a[0]), bv(a[1]), bv(a[2]))
    elif op == 'not':
        z = z3.Not(tz3(a[0]))
    elif op in ('eq', 'iff', 'ult', 'slt'):
        ww = (a[0] if type(a[0]) is E else a[1]).w
        k = ww
        if ww > 1 and op != 'slt':
            k = max(rng(a[0], ww)[1].bit_length(), rng(a[1], ww)[1].bit_length(), 1)
        x, y = (low(a[0], k), low(a[1], k)) if k < ww else (bv(a[0], ww), bv(a[1], ww))
        z = x == y if op in ('eq', 'iff') else z3.ULT(x, y) if op == 'ult' else x < y
    elif op == 'band':
        z = z3.And(tz3(a[0]), tz3(a[1]))
    elif op == 'bor':
        z = z3.Or(tz3(a[0]), tz3(a[1]))
    elif op == 'and':
        z = bv(a[0]) & bv(a[1])
    elif op == 'or':
        z = bv(a[0]) | bv(a[1])
    elif op == 'xor':
        z = bv(a[0]) ^ bv(a[1])
    elif op == 'mul':
        z = bv(a[0]) * bv(a[1])
    elif op == 'udiv':
        z = z3.UDiv(bv(a[0]), bv(a[1]))
    elif op == 'urem':
        z = z3.URem(bv(a[0]), bv(a[1]))
    elif op == 'sdiv':
        z = bv(a[0]) / bv(a[1])
    elif op == 'srem':
        z = z3.SRem(bv(a[0]), bv(a[1]))
    elif op == 'shl':
        z = bv(a[0]) << bv(a[1])
    elif op == 'lshr':
        z = z3.LShR(bv(a[0]), bv(a[1]))
    elif op == 'ashr':
        z = bv(a[0]) >> bv(a[1])
    elif op == 'ctpop':
        x = tz3(a[0])
        z = z3.BitVecVal(0, w)
        for i in range(w):
            z = z + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    elif op == 'cttz':
        x = tz3(a[0])
        z = z3.BitVecVal(w, w)
        for i in reversed(range(w)):
            z = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), z)
    elif op == 'ctlz':
        x = tz3(a[0])
        z = z3.BitVecVal(w, w)
        for i in range(w):
            z = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), z)
    else:
        raise NotImplementedError(op)
    e.z = z
    return z


def _b2v(x, w):
    z = tz3(x, w)
    if w == 1:
        z = z3.If(z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z
