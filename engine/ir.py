"""LLVM IR text -> Python.

Functions are translated on first call.  Each becomes a list of "segments":
Python functions s(st, R) that run pure operations (arithmetic, loads,
branches) and end at the first operation with a side effect (store, call) or at
a branch; they return the next segment.  A path that forks inside a segment is
restarted at the segment's beginning in the copy, which is safe because nothing
before the segment's last action changes the state.
"""
import re

TOK = re.compile(r'c"[^"]*"|%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|!\w*|#\d+|-?\d+|[A-Za-z_][\w.]*|"[^"]*"|\.\.\.|[<>{}()\[\],=*:|]')

BASE = 1 << 39
SHIFT = 40


def obj_addr(k):
    return (k << SHIFT) + BASE


class TypeEnv(dict):
    pass


def tok(s):
    return TOK.findall(s)


class P:
    """Token cursor for one instruction or initializer."""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, t, mod):
        self.t = t
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'ptr':
            return 'ptr'
        if t[0] == 'i' and t[1:].isdigit():
            return int(t[1:])
        if t == 'void':
            return 'void'
        if t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return ('a', n, e)
        if t == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            return ('s', tuple(fs), False)
        if t == '<':
            if self.eat('{'):
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return ('s', tuple(fs), True)
            raise NotImplementedError('vector type in ' + ' '.join(self.t))
        if t[0] == '%':
            return self.mod.named_type(t)
        if t in ('float', 'double', 'label', 'token', 'metadata'):
            return t
        raise SyntaxError('type %r in %s' % (t, ' '.join(self.t)))


def t_align(t):
    if type(t) is int:
        b = (t + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if t == 'ptr':
        return 8
    if t[0] == 'a':
        return t_align(t[2])
    if t[0] == 's':
        return 1 if t[2] else max([t_align(x) for x in t[1]] or [1])
    raise NotImplementedError(t)


def t_size(t):
    if type(t) is int:
        a = t_align(t)
        b = (t + 7) // 8
        return (b + a - 1) // a * a
    if t == 'ptr':
        return 8
    if t[0] == 'a':
        return t[1] * t_size(t[2])
    if t[0] == 's':
        o = 0
        for f in t[1]:
            if not t[2]:
                a = t_align(f)
                o = (o + a - 1) // a * a
            o += t_size(f)
        a = t_align(t)
        return (o + a - 1) // a * a
    raise NotImplementedError(t)


def t_off(t, i):
    if t[0] == 'a':
        return i * t_size(t[2]), t[2]
    o = 0
    for k, f in enumerate(t[1]):
        if not t[2]:
            a = t_align(f)
            o = (o + a - 1) // a * a
        if k == i:
            return o, f
        o += t_size(f)


def width(t):
    return 64 if t == 'ptr' else t


def scalars(t, base=0):
    """[(offset, width-bits)] of the scalar leaves of a type."""
    if t == 'ptr' or type(t) is int:
        return [(base, width(t))]
    out = []
    n = t[1] if t[0] == 'a' else len(t[1])
    for i in range(n):
        o, f = t_off(t, i)
        out += scalars(f, base + o)
    return out


def zero_of(t):
    if t == 'ptr' or type(t) is int:
        return '0'
    if t == 'void':
        return 'None'
    if t[0] == 'a':
        return '(' + ''.join(zero_of(t[2]) + ',' for _ in range(t[1])) + ')'
    return '(' + ''.join(zero_of(f) + ',' for f in t[1]) + ')'


def undef_of(t):
    if t == 'ptr' or type(t) is int:
        return 'undef(%d)' % width(t)
    if t[0] == 'a':
        return '(' + ''.join(undef_of(t[2]) + ',' for _ in range(t[1])) + ')'
    return '(' + ''.join(undef_of(f) + ',' for f in t[1]) + ')'


def cstr(s):
    out = bytearray()
    i = 0
    s = s[2:-1].encode('latin1')
    while i < len(s):
        if s[i] == 92:
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(s[i])
            i += 1
    return bytes(out)


class Module:
    def __init__(self, prog, path):
        self.prog = prog
        self.path = path
        self.types = {}
        self.type_src = {}
        self.globals = {}   # name -> source text after '='
        self.funcs = {}     # name -> (header, body lines, demangled)
        self.decls = {}     # name -> demangled
        self.load(open(path).read().split('\n'))

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            src = self.type_src[n]
            t = P(tok(src), self).type()
            self.types[n] = t
        return t

    def load(self, lines):
        i = 0
        n = len(lines)
        com = None
        while i < n:
            l = lines[i]
            if not l:
                com = None
                i += 1
                continue
            c = l[0]
            if c == ';':
                if com is None and not l.startswith('; Function Attrs') and not l.startswith('; ModuleID'):
                    com = l[2:]
            elif c == 'd':
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                name = '@' + m.group(1)
                if l.startswith('declare'):
                    self.decls[name] = com
                else:
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    self.funcs[name] = (l, i + 1, j, com)
                    self.lines = lines
                    i = j
                com = None
            elif c == '%':
                k = l.index(' = type ')
                self.type_src[l[:k]] = l[k + 8:]
            elif c == '@':
                k = l.index(' = ')
                self.globals[l[:k]] = l[k + 3:]
            i += 1


LOCAL = re.compile(r'\b(private|internal)\b')


class Global:
    __slots__ = ('name', 'id', 'size', 'align', 'const', 'items', 'mod', 'src')


class Fn:
    """An IR function: compiled lazily."""
    __slots__ = ('name', 'dem', 'mod', 'hdr', 'lo', 'hi', 'addr', 'entry', 'nregs', 'params', 'allocas', 'npar', 'ninstr', 'count', 'builtin', 'ctl')

    def __init__(self):
        self.entry = None
        self.builtin = None
        self.addr = None
        self.ninstr = 0
        self.ctl = False
        self.count = 0


class Program:
    def __init__(self, rt):
        self.rt = rt            # dict of runtime functions for generated code
        self.mods = []
        self.ext = {}           # exported symbol -> (mod, name)
        self.fns = {}           # (mod or None, name) -> Fn
        self.by_addr = {}
        self.globs = {}         # id -> Global
        self.gkeys = {}
        self.next_gid = 16
        self.resolve_builtin = None
        self.dump = None

    def add(self, path):
        m = Module(self, path)
        self.mods.append(m)
        for n, (h, *_ ) in m.funcs.items():
            if not LOCAL.search(h.split('@')[0]):
                self.ext[n] = m
        for n, s in m.globals.items():
            if not LOCAL.search(s[:60].split('constant')[0]) and ' external ' not in ' ' + s[:30]:
                self.ext[n] = m
        return m

    def fn(self, mod, name):
        """Function named `name` as seen from module `mod`."""
        if name not in mod.funcs:
            m2 = self.ext.get(name)
            if m2 is not None:
                mod = m2
        key = (mod if name in mod.funcs else None, name)
        f = self.fns.get(key)
        if f is None:
            f = Fn()
            f.name = name
            f.mod = mod
            if name in mod.funcs:
                f.hdr, f.lo, f.hi, f.dem = mod.funcs[name]
            else:
                f.hdr = None
                f.dem = mod.decls.get(name)
            f.dem = f.dem or name[1:]
            self.resolve_builtin(f)
            self.fns[key] = f
        return f

    def fn_addr(self, f):
        if f.addr is None:
            f.addr = 0x10000 + 16 * len(self.by_addr)
            self.by_addr[f.addr] = f
        return f.addr

    def sym_addr(self, mod, name):
        if name in mod.globals or (name in self.ext and name in self.ext[name].globals):
            if name not in mod.globals:
                mod = self.ext[name]
            elif ' external ' in ' ' + mod.globals[name][:30]:
                mod = self.ext[name]
            g = self.gkeys.get((mod, name))
            if g is None:
                g = Global()
                g.name = name
                g.mod = mod
                g.src = mod.globals[name]
                g.items = None
                g.id = self.next_gid
                self.next_gid += 1
                if g.id >= 4000:
                    raise RuntimeError('too many globals')
                self.gkeys[(mod, name)] = g
                self.globs[g.id] = g
            return obj_addr(g.id)
        return self.fn_addr(self.fn(mod, name))

    def global_items(self, g):
        """Parse the initializer: list of (offset, nbytes, value); uninit omitted."""
        if g.items is None:
            t = tok(g.src)
            i = 0
            while t[i] not in ('constant', 'global'):
                i += 1
            g.const = t[i] == 'constant'
            p = P(t, g.mod)
            p.i = i + 1
            ty = p.type()
            items = []
            self.init_value(p, ty, 0, items)
            g.size = t_size(ty)
            g.align = 1
            while p.i < len(t):
                if t[p.i] == 'align':
                    g.align = int(t[p.i + 1])
                p.i += 1
            g.items = items
        return g.items

    def init_value(self, p, ty, off, out):
        t = p.peek()
        if t in ('undef', 'poison'):
            p.next()
            return
        if t == 'zeroinitializer':
            p.next()
            n = t_size(ty)
            k = 0
            while k < n:
                w = min(8, n - k)
                out.append((off + k, w, 0))
                k += w
            return
        if ty == 'ptr' or type(ty) is int:
            v = self.const(p, ty)
            out.append((off, t_size(ty), v))
            return
        if t[0] == 'c' and t[1:2] == '"':
            p.next()
            b = cstr(t)
            k = 0
            while k < len(b):
                w = min(8, len(b) - k)
                out.append((off + k, w, int.from_bytes(b[k:k + w], 'little')))
                k += w
            return
        if ty[0] == 'a':
            p.expect('[')
            for i in range(ty[1]):
                if i:
                    p.expect(',')
                p.type()
                self.init_value(p, ty[2], off + i * t_size(ty[2]), out)
            p.expect(']')
            return
        if ty[2]:
            p.expect('<')
        p.expect('{')
        for i in range(len(ty[1])):
            if i:
                p.expect(',')
            p.type()
            o, f = t_off(ty, i)
            self.init_value(p, f, off + o, out)
        p.expect('}')
        if ty[2]:
            p.expect('>')

    def const(self, p, ty):
        """Constant of scalar type as a Python int, or None for undef/poison."""
        t = p.next()
        if t[0] == '@':
            return self.sym_addr(p.mod, t)
        if t == 'null' or t == 'false' or t == 'zeroinitializer':
            return 0
        if t == 'true':
            return 1
        if t in ('undef', 'poison'):
            return None
        if t == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            p.expect('(')
            bt = p.type()
            p.expect(',')
            p.type()
            a = self.const(p, 'ptr')
            first = True
            while p.eat(','):
                it = p.type()
                i = self.const(p, it)
                if i >> 63:
                    i -= 1 << 64
                if first:
                    a += i * t_size(bt)
                    first = False
                else:
                    o, bt = t_off(bt, i)
                    a += o
            p.expect(')')
            return a & (2 ** 64 - 1)
        if t in ('inttoptr', 'ptrtoint', 'bitcast'):
            p.expect('(')
            t2 = p.type()
            v = self.const(p, t2)
            p.expect('to')
            t3 = p.type()
            p.expect(')')
            return v
        if t in ('sub', 'add'):
            p.expect('(')
            t2 = p.type(); a = self.const(p, t2); p.expect(',')
            t2 = p.type(); b = self.const(p, t2); p.expect(')')
            return ((a - b) if t == 'sub' else (a + b)) & ((1 << width(t2)) - 1)
        return int(t) & ((1 << width(ty)) - 1)

    # ------------------------------------------------------------ compile
    def compile(self, f):
        Compiler(self, f).run()


PATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'inreg',
         'returned', 'immarg', 'writable', 'dead_on_unwind', 'allocalign', 'allocptr', 'swiftself', 'nofree', 'nest'}


class Compiler:
    def __init__(self, prog, f):
        self.prog = prog
        self.f = f
        self.mod = f.mod
        self.regs = {}
        self.out = []
        self.seg = None
        self.nseg = 0
        self.glob = dict(prog.rt)
        self.ninstr = 0

    def reg(self, n):
        r = self.regs.get(n)
        if r is None:
            r = self.regs[n] = len(self.regs)
        return r

    # -- emission
    def begin(self, k):
        self.emit_raw('def s%d(st, R):' % k)
        self.live = set()

    def emit_raw(self, s):
        self.out.append(s)

    def e(self, s):
        self.out.append(' ' + s)

    def use(self, n):
        r = self.reg(n)
        if r not in self.live:
            self.e('v%d = R[%d]' % (r, r))
            self.live.add(r)
        return 'v%d' % r

    def define(self, n, expr):
        r = self.reg(n)
        self.e('R[%d] = v%d = %s' % (r, r, expr))
        self.live.add(r)
        return 'v%d' % r

    def new_seg(self):
        k = self.nseg
        self.nseg += 1
        return k

    # -- operand
    def val(self, p, ty):
        """Python expression for a value of type ty."""
        t = p.peek()
        if t[0] == '%':
            p.next()
            return self.use(t)
        if t in ('undef', 'poison'):
            p.next()
            return undef_of(ty)
        if t == 'zeroinitializer':
            p.next()
            return zero_of(ty)
        if type(ty) is tuple:
            if ty[0] == 's':
                if ty[2]:
                    p.expect('<')
                p.expect('{')
                vs = []
                for i in range(len(ty[1])):
                    if i:
                        p.expect(',')
                    t2 = p.type()
                    vs.append(self.val(p, t2))
                p.expect('}')
                if ty[2]:
                    p.expect('>')
                return '(' + ''.join(v + ',' for v in vs) + ')'
            raise NotImplementedError('const aggregate ' + ' '.join(p.t))
        c = self.prog.const(p, ty)
        return undef_of(ty) if c is None else str(c)

    def attrs(self, p):
        """Skip parameter attributes; return dict of the useful ones."""
        d = {}
        while True:
            t = p.peek()
            if t in PATTR:
                p.next()
                if t == 'noundef':
                    d['noundef'] = 1
            elif t == 'align':
                p.next()
                if p.eat('('):
                    d['align'] = int(p.next())
                    p.expect(')')
                else:
                    d['align'] = int(p.next())
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'sret', 'byval', 'initializes', 'nofpclass', 'memory', 'elementtype'):
                p.next()
                if p.eat('('):
                    depth = 1
                    while depth:
                        x = p.next()
                        depth += (x == '(') - (x == ')')
                    d[t] = 1
            else:
                return d

    def run(self):
        f = self.f
        hdr = f.hdr
        # parameters
        at = re.search(r'@("[^"]*"|[-\w.$]+)\(', hdr)
        i = at.end()
        depth = 1
        j = i
        inq = False
        while depth:
            ch = hdr[j]
            if ch == '"':
                inq = not inq
            elif not inq:
                depth += (ch == '(') - (ch == ')')
            j += 1
        p = P(tok(hdr[i:j - 1]), self.mod)
        self.params = []
        while p.peek() is not None:
            ty = p.type()
            self.attrs(p)
            self.params.append(self.reg(p.next()))
            p.eat(',')
        # blocks
        blocks = {}
        order = []
        cur = None
        lines = self.mod.lines
        k = f.lo
        while k < f.hi:
            l = lines[k]
            k += 1
            if not l or l[0] == ';':
                continue
            if l[0] != ' ':
                name = l.split(':')[0] if l[0] != '"' else l[:l.index('":') + 1]
                cur = '%' + name
                blocks[cur] = []
                order.append(cur)
                continue
            if l.startswith('          ') or l.startswith('    i') or l.startswith('  ]'):
                blocks[cur][-1] += ' ' + l.strip()
                continue
            blocks[cur].append(l.strip())
        self.blocks = {}
        self.first_seg = {}
        self.phis = {}
        for b in order:
            ins = [tok(x.split(', !')[0] if ', !' in x else x) for x in blocks[b]]
            ph = []
            while ins and len(ins[0]) > 2 and ins[0][2] == 'phi':
                ph.append(ins.pop(0))
            self.phis[b] = self.parse_phis(ph)
            self.blocks[b] = ins
            self.first_seg[b] = self.new_seg()
        self.allocas = []
        self.order = order
        for b in order:
            self.block(b)
        src = '\n'.join(self.out)
        g = self.glob
        g['FN'] = f
        try:
            exec(compile(src, '<%s>' % f.name[:60], 'exec'), g)
        except SyntaxError:
            print(src)
            raise
        f.nregs = len(self.regs)
        f.params = self.params
        f.allocas = self.allocas
        f.entry = g['s%d' % self.first_seg[order[0]]]
        f.ninstr = self.ninstr
        for k in range(self.nseg):
            s = g.get('s%d' % k)
            if s is not None:
                s.__qualname__ = f.dem
        if self.prog.dump and self.prog.dump in f.dem:
            print(src)

    def parse_phis(self, ph):
        out = []
        for t in ph:
            p = P(t, self.mod)
            dst = p.next()
            p.next()
            p.next()
            ty = p.type()
            inc = {}
            while True:
                p.expect('[')
                # delay value parsing: remember token position
                start = p.i
                depth = 0
                while True:
                    x = p.peek()
                    if depth == 0 and x == ',':
                        break
                    depth += (x in '({[<') - (x in ')}]>')
                    p.next()
                vt = t[start:p.i]
                p.expect(',')
                inc[p.next()] = vt
                p.expect(']')
                if not p.eat(','):
                    break
            out.append((dst, ty, inc))
        return out

    def goto(self, frm, to, ind=''):
        """Emit phi assignments and the jump."""
        ph = self.phis[to]
        if ph:
            ds, vs = [], []
            pre = len(self.out)
            for dst, ty, inc in ph:
                v = self.val(P(inc[frm], self.mod), ty)
                ds.append('R[%d]' % self.reg(dst))
                vs.append(v)
            # loads emitted by use() sit at outer indentation; fine since they precede
            for q in range(pre, len(self.out)):
                self.out[q] = ind + self.out[q]
            self.e(ind + '%s = %s' % (', '.join(ds), ', '.join(vs)))
        self.e(ind + 'return s%d' % self.first_seg[to])

    def goto_isolated(self, frm, to, ind):
        live = set(self.live)
        self.goto(frm, to, ind)
        self.live = live

    def block(self, b):
        self.begin(self.first_seg[b])
        self.bname = b
        for t in self.blocks[b]:
            self.ninstr += 1
            self.instr(b, t)

    # ---------------------------------------------------------- instructions
    def instr(self, b, t):
        p = P(t, self.mod)
        dst = None
        if len(t) > 1 and t[1] == '=':
            dst = t[0]
            p.i = 2
        op = p.next()
        while op in ('tail', 'notail', 'musttail'):
            op = p.next()
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise NotImplementedError(' '.join(t))
        m(b, p, dst)

    def binop(self, b, p, dst, op):
        nuw = nsw = exact = False
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            x = p.next()
            nuw |= x == 'nuw'
            nsw |= x == 'nsw'
            exact |= x == 'exact'
        ty = p.type()
        x = self.val(p, ty)
        p.expect(',')
        y = self.val(p, ty)
        w = width(ty)
        M = (1 << w) - 1
        chk = ' and '.join('type(%s) is int' % q for q in (x, y) if not q.isdigit()) or 'True'
        nm = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'and': 'and_', 'or': 'or_', 'xor': 'xor', 'shl': 'shl', 'lshr': 'lshr',
              'ashr': 'ashr', 'udiv': 'udiv', 'urem': 'urem', 'sdiv': 'sdiv', 'srem': 'srem'}[op]
        if op in ('add', 'sub', 'mul') and (nuw or nsw):
            self.define(dst, 'nw_%s(st, %s, %s, %d, %d, %d)' % (op, x, y, w, nuw, nsw))
            return
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.define(dst, 'd_%s(st, %s, %s, %d)' % (op, x, y, w))
            return
        if op in ('shl', 'lshr', 'ashr'):
            self.define(dst, 'sh_%s(st, %s, %s, %d)' % (op, x, y, w))
            return
        py = {'add': '(%s + %s) & %d' % (x, y, M), 'sub': '(%s - %s) & %d' % (x, y, M), 'mul': '(%s * %s) & %d' % (x, y, M),
              'and': '%s & %s' % (x, y), 'or': '%s | %s' % (x, y), 'xor': '%s ^ %s' % (x, y)}[op]
        self.define(dst, '%s if %s else %s(%s, %s, %d)' % (py, chk, nm, x, y, w))

    for _o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        locals()['i_' + _o] = (lambda o: lambda self, b, p, dst: self.binop(b, p, dst, o))(_o)

    def i_icmp(self, b, p, dst):
        if p.peek() == 'samesign':
            p.next()
        pred = p.next()
        ty = p.type()
        x = self.val(p, ty)
        p.expect(',')
        y = self.val(p, ty)
        w = width(ty)
        chk = ' and '.join('type(%s) is int' % q for q in (x, y) if not q.isdigit()) or 'True'
        sym = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}.get(pred)
        if sym:
            self.define(dst, '(1 if %s %s %s else 0) if %s else icmp(%r, %s, %s, %d)' % (x, sym, y, chk, pred, x, y, w))
        else:
            self.define(dst, 'icmp(%r, %s, %s, %d)' % (pred, x, y, w))

    def i_select(self, b, p, dst):
        p.type()
        c = self.val(p, 1)
        p.expect(',')
        ty = p.type()
        x = self.val(p, ty)
        p.expect(',')
        p.type()
        y = self.val(p, ty)
        w = width(ty)
        if type(ty) is tuple or ty == 'ptr' or (w > 1 and not (x.isdigit() and y.isdigit())):
            self.define(dst, '(%s if (%s if type(%s) is int else decide(st, %s)) else %s)' % (x, c, c, c, y))
        else:
            self.define(dst, '(%s if %s else %s) if type(%s) is int else ite(%s, %s, %s, %d)' % (x, c, y, c, c, x, y, w))

    def cast(self, b, p, dst, op):
        while p.peek() in ('nuw', 'nsw', 'nneg'):
            p.next()
        ty = p.type()
        x = self.val(p, ty)
        p.expect('to')
        t2 = p.type()
        a, c = width(ty), width(t2)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
            if a != c:
                raise NotImplementedError(op)
            self.define(dst, x)
        elif op == 'trunc':
            self.define(dst, '%s & %d if type(%s) is int else ext(%s, 0, %d)' % (x, (1 << c) - 1, x, x, c))
        elif op == 'zext':
            self.define(dst, '%s if type(%s) is int else zext(%s, %d, %d)' % (x, x, x, a, c))
        else:
            self.define(dst, 'sext(%s, %d, %d)' % (x, a, c))

    for _o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
        locals()['i_' + _o] = (lambda o: lambda self, b, p, dst: self.cast(b, p, dst, o))(_o)

    def i_freeze(self, b, p, dst):
        ty = p.type()
        self.define(dst, self.val(p, ty))

    def i_getelementptr(self, b, p, dst):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        p.type()
        base = self.val(p, 'ptr')
        K = 0
        terms = []
        first = True
        while p.eat(','):
            it = p.type()
            v = self.val(p, it)
            if first:
                sc = t_size(bt)
                first = False
                if v.isdigit():
                    i = int(v)
                    if i >> (width(it) - 1):
                        i -= 1 << width(it)
                    K += i * sc
                    continue
            elif bt[0] == 's':
                o, bt = t_off(bt, int(v))
                K += o
                continue
            else:
                bt = bt[2]
                sc = t_size(bt)
                if v.isdigit():
                    K += int(v) * sc
                    continue
            if width(it) != 64:
                v = 'sext(%s, %d, 64)' % (v, width(it))
            terms.append((v, sc))
        M = (1 << 64) - 1
        K &= M
        if not terms:
            if K == 0:
                self.define(dst, base)
            else:
                self.define(dst, '(%s + %d) & %d if type(%s) is int else add(%s, %d, 64)' % (base, K, M, base, base, K))
            return
        e = base
        for v, sc in terms:
            s = v if sc == 1 else 'mul(%s, %d, 64)' % (v, sc)
            e = 'add(%s, %s, 64)' % (e, s)
        if K:
            e = 'add(%s, %d, 64)' % (e, K)
        self.define(dst, e)

    def i_extractvalue(self, b, p, dst):
        ty = p.type()
        v = self.val(p, ty)
        while p.eat(','):
            v += '[%s]' % p.next()
        self.define(dst, v)

    def i_insertvalue(self, b, p, dst):
        ty = p.type()
        v = self.val(p, ty)
        p.expect(',')
        t2 = p.type()
        x = self.val(p, t2)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        if len(idx) == 1:
            i = idx[0]
            self.define(dst, '(*(q := %s)[:%d], %s, *q[%d:])' % (v, i, x, i + 1))
        else:
            self.define(dst, 'insval(%s, %r, %s)' % (v, idx, x))

    def i_alloca(self, b, p, dst):
        ty = p.type()
        n = None
        al = t_align(ty)
        while p.eat(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            else:
                t2 = p.type()
                n = self.val(p, t2)
        if n is None:
            self.allocas.append((self.reg(dst), t_size(ty), al))
        else:
            k = self.new_seg()
            self.e('R[%d] = dyn_alloca(st, mul(%s, %d, 64), %d)' % (self.reg(dst), n, t_size(ty), al))
            self.e('return s%d' % k)
            self.begin(k)

    def align_of(self, p, ty):
        al = t_align(ty)
        while p.i < len(p.t):
            if p.t[p.i] == 'align':
                al = int(p.t[p.i + 1])
            p.i += 1
        return al

    def i_load(self, b, p, dst):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        p.expect(',')
        p.type()
        a = self.val(p, 'ptr')
        al = self.align_of(p, ty)
        if type(ty) is tuple:
            self.define(dst, 'load_agg(st, %s, %r, %d)' % (a, ty, al))
        else:
            w = width(ty)
            n = (w + 7) // 8
            self.define(dst, 'load(st, %s, %d, %d)' % (a, n, al))
            if w % 8:
                r = self.reg(dst)
                self.e('R[%d] = v%d = ext(v%d, 0, %d)' % (r, r, r, w))

    def i_store(self, b, p, dst):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = p.type()
        v = self.val(p, ty)
        p.expect(',')
        p.type()
        a = self.val(p, 'ptr')
        al = self.align_of(p, ty)
        k = self.new_seg()
        if type(ty) is tuple:
            self.e('store_agg(st, %s, %s, %r, %d)' % (a, v, ty, al))
        else:
            w = width(ty)
            if w % 8:
                v = 'zext(%s, %d, %d)' % (v, w, (w + 7) // 8 * 8)
            self.e('store(st, %s, %s, %d, %d)' % (a, v, (w + 7) // 8, al))
        self.e('return s%d' % k)
        self.begin(k)

    def i_fence(self, b, p, dst):
        pass        # one thread

    def i_atomicrmw(self, b, p, dst):
        p.eat('volatile')
        op = p.next()
        p.type()
        a = self.val(p, 'ptr')
        p.expect(',')
        ty = p.type()
        v = self.val(p, ty)
        while p.peek() and p.peek() != ',':
            p.next()
        al = self.align_of(p, ty)
        w = width(ty)
        k = self.new_seg()
        self.e('t_ = load(st, %s, %d, %d)' % (a, w // 8, al))
        new = {'add': 'add(t_, %s, %d)', 'sub': 'sub(t_, %s, %d)', 'xchg': '(%s, %d)[0]', 'and': 'and_(t_, %s, %d)', 'or': 'or_(t_, %s, %d)'}[op] % (v, w)
        self.e('store(st, %s, %s, %d, %d)' % (a, new, w // 8, al))
        if dst is not None:
            self.define(dst, 't_')
        self.e('return s%d' % k)
        self.begin(k)

    def i_br(self, b, p, dst):
        if p.eat('label'):
            self.goto(b, p.next())
            return
        p.type()
        c = self.val(p, 1)
        p.expect(',')
        p.expect('label')
        x = p.next()
        p.expect(',')
        p.expect('label')
        y = p.next()
        if c.isdigit():
            self.goto(b, x if int(c) else y)
            return
        self.e('if (%s if type(%s) is int else decide(st, %s)):' % (c, c, c))
        self.goto_isolated(b, x, ' ')
        self.goto(b, y)

    def i_switch(self, b, p, dst):
        ty = p.type()
        v = self.val(p, ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type()
            k = self.prog.const(p, t2)
            p.expect(',')
            p.expect('label')
            cases.append((k, p.next()))
        w = width(ty)
        for k, l in cases:
            self.e('if (%s == %d if type(%s) is int else decide(st, eq(%s, %d, %d))):' % (v, k, v, v, k, w))
            self.goto_isolated(b, l, ' ')
        self.goto(b, d)

    def i_ret(self, b, p, dst):
        ty = p.type()
        v = 'None' if ty == 'void' else self.val(p, ty)
        self.e('return ret(st, %s)' % v)

    def i_unreachable(self, b, p, dst):
        self.e('return unreachable(st)')

    def i_resume(self, b, p, dst):
        self.e('return resume(st)')

    def i_landingpad(self, b, p, dst):
        self.define(dst, 'st.exc')

    def i_call(self, b, p, dst):
        self.call(b, p, dst, None)

    def i_invoke(self, b, p, dst):
        self.call(b, p, dst, True)

    def call(self, b, p, dst, inv):
        # [cconv] [ret attrs] type callee(args) attrs [to label unwind label]
        while p.peek() in ('fastcc', 'coldcc', 'preserve_mostcc', 'unnamed_addr'):
            p.next()
        self.attrs(p)
        rty = p.type()
        if p.peek() == '(':  # function type given
            depth = 0
            while True:
                x = p.next()
                depth += (x == '(') - (x == ')')
                if depth == 0:
                    break
        callee = p.next()
        p.expect('(')
        args = []
        aal = []
        while not p.eat(')'):
            ty = p.type()
            if ty == 'metadata':
                p.next()
                args.append('None')
                aal.append(1)
            else:
                at = self.attrs(p)
                args.append(self.val(p, ty))
                aal.append(at.get('align', 1))
            p.eat(',')
        to = unw = None
        if inv:
            while p.next() != 'to':
                pass
            p.expect('label')
            to = p.next()
            p.expect('unwind')
            p.expect('label')
            unw = p.next()
        if callee[0] == '@' and callee.startswith('@llvm.'):
            if self.intrinsic(callee[6:], args, aal, dst, rty):
                if inv:
                    self.goto(b, to)
                return
            n = callee.split('.')[1]
            if n not in ('memcpy', 'memmove', 'memset', 'trap'):
                raise NotImplementedError(callee)
            k = self.new_seg()
            if n == 'trap':
                self.e('return unreachable(st)')
            else:
                if n == 'memset':
                    self.e('x_memset(st, %s, %s, %s, %d)' % (args[0], args[1], args[2], aal[0]))
                else:
                    self.e('x_%s(st, %s, %s, %s, %d, %d)' % (n, args[0], args[1], args[2], aal[0], aal[1]))
                self.e('return s%d' % k)
            self.begin(k)
            if inv:
                self.goto(b, to)
            return
        ri = self.reg(dst) if dst else -1
        k = self.new_seg()
        un = 'None'
        if inv:
            uk = self.new_seg()
            un = 's%d' % uk
        a = '(' + ''.join(x + ',' for x in args) + ')'
        if callee[0] == '@':
            f = self.prog.fn(self.mod, callee)
            nm = 'f%d' % len(self.glob)
            self.glob[nm] = f
            self.e('return call(st, %s, %s, %d, s%d, %s)' % (nm, a, ri, k, un))
        else:
            c = self.use(callee)
            self.e('return icall(st, %s, %s, %d, s%d, %s)' % (c, a, ri, k, un))
        if inv:
            self.begin(uk)
            self.goto(b, unw)
            self.begin(k)
            self.goto(b, to)
        else:
            self.begin(k)

    def intrinsic(self, n, a, aal, dst, rty):
        parts = n.split('.')
        h = parts[0]
        if n.startswith('lifetime') or n.startswith('dbg') or n.startswith('experimental.noalias') or n.startswith('donothing'):
            return True
        if h == 'assume':
            self.e('if %s != 1: must_assume(st, %s)' % (a[0], a[0]))
            return True
        if h == 'expect':
            self.define(dst, a[0])
            return True
        if h in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and parts[2:3] == ['overflow']:
            w = int(parts[3][1:])
            self.define(dst, 'ovf_%s(%s, %s, %d)' % (h, a[0], a[1], w))
            return True
        if h in ('uadd', 'usub', 'sadd', 'ssub') and parts[1] == 'sat':
            w = int(parts[2][1:])
            self.define(dst, 'sat_%s(st, %s, %s, %d)' % (h, a[0], a[1], w))
            return True
        if h in ('umax', 'umin', 'smax', 'smin'):
            w = int(parts[1][1:])
            self.define(dst, 'minmax(st, %r, %s, %s, %d)' % (h, a[0], a[1], w))
            return True
        if h in ('ucmp', 'scmp'):
            rw = int(parts[1][1:])
            w = int(parts[2][1:])
            self.define(dst, 'cmp3(st, %r, %s, %s, %d, %d)' % (h, a[0], a[1], w, rw))
            return True
        if h in ('ctpop', 'cttz', 'ctlz'):
            w = int(parts[1][1:])
            self.define(dst, '%s(%s, %d)' % (h, a[0], w))
            return True
        if h == 'is':  # is.constant
            self.define(dst, '0')
            return True
        if h == 'bswap':
            w = int(parts[1][1:])
            self.define(dst, 'bswap(%s, %d)' % (a[0], w))
            return True
        if h in ('fshl', 'fshr'):
            w = int(parts[1][1:])
            self.define(dst, '%s(%s, %s, %s, %d)' % (h, a[0], a[1], a[2], w))
            return True
        return False
