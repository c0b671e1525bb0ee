import random, sys, z3
from expr import *
import expr as X
import lia
nl = [0, 0]
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
BIN = dict(add=add, sub=sub, mul=mul, and_=and_, or_=or_, xor=xor)
def run(n):
    for it in range(n):
        W = R.choice([8, 16, 64])
        model = {}
        pool = []
        for i in range(3):
            w = W
            hi = R.choice([MASK[w], 1 << (w // 2), 7])
            s = sym('x%d_%d_%d' % (w, hi, i), w, 0, hi)
            v = R.choice([0, hi, R.randint(0, hi), 1, hi//2])
            model[s.id] = v
            pool.append((s, v, w))
        for j in range(12):
            a, va, w = R.choice(pool)
            cands = [p for p in pool if p[2] == w]
            b, vb, _ = R.choice(cands)
            if R.random() < .4:
                vb = b = R.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, MASK[w], MASK[w] - 7, MASK[w]>>1, R.randint(0, MASK[w])]) & MASK[w]
            k = R.random()
            if k < .5:
                nm = R.choice(list(BIN)); f = BIN[nm]
                if R.random()<.3: a,b,va,vb=b,a,vb,va
                r, v, rw = f(a, b, w), f(va, vb, w), w
                if w == 1 and nm == 'mul': continue
            elif k < .6 and w > 1:
                s = R.randint(0, w - 1)
                nm = R.choice(['shl', 'lshr', 'ashr']); f = getattr(X, nm)
                r, v, rw = f(a, s, w), f(va, s, w), w
            elif k < .65 and w > 1:
                if vb == 0: continue
                nm = R.choice(['udiv', 'urem', 'sdiv', 'srem']); f = getattr(X, nm)
                r, v, rw = f(a, b, w), f(va, vb, w), w
            elif k < .8:
                p = R.choice(list(NEG))
                if w == 1 and p not in ('eq', 'ne'): continue
                r, v, rw = icmp(p, a, b, w), icmp(p, va, vb, w), 1
            elif k < .87:
                rw = R.randint(1, w); lo = R.randint(0, w - rw)
                r, v = ext(a, lo, rw), ext(va, lo, rw)
            elif k < .93 and w < 100:
                rw = w + R.choice([1, 8, 16])
                f = R.choice([zext, sext]); r, v = f(a, w, rw), f(va, w, rw)
            elif k < .95:
                cs = [p for p in pool if p[2] == 1]
                if not cs: continue
                c, vc, _ = R.choice(cs)
                r, v, rw = ite(c, a, b, w), va if vc else vb, w
            elif k < .97 and w <= 64:
                d, vd, wd = R.choice(pool)
                if wd > 64: continue
                r, v, rw = cat([(a, w), (d, wd)]), va | vd << w, w + wd
            else:
                f = R.choice([ctpop, cttz, ctlz]); r, v, rw = f(a, w), f(va, w), w
                if w < 8: continue
            if type(r) is E and rw != r.w: raise Exception(('width', nm, r, rw, r.w))
            got = ev(r, model, {})
            if got != v: raise Exception(('value', it, j, show(r), got, v, show(a), b))
            l, h, t = rng(r, rw)
            if not (l <= v <= h) or tz_int(v, rw) < t: raise Exception(('range', it, show(r), l, h, t, v))
            if rw <= 128: pool.append((r, v, rw))
        e, v, w = pool[-1]
        if type(e) is E and it % 5 == 0:
            s = z3.Solver()
            todo=[e]; seen=set()
            while todo:
                x=todo.pop()
                if type(x) is not E or x.id in seen: continue
                seen.add(x.id)
                if x.op=='sym': s.add(tz3(x)==tz3(model[x.id],x.w))
                todo += [y[0] if type(y) is tuple else y for y in x.a]
            s.add(tz3(e, w) != tz3(v, w))
            r = s.check()
            if r != z3.unsat: raise Exception(('z3', r, show(e), v))
            try:
                s = z3.Solver()
                for x in lia.symbols([e]): s.add(lia.ti(x) == model[x.id])
                s.add(lia.tb(e) != bool(v) if w == 1 else lia.ti(e) != v)
                r = s.check()
                if r != z3.unsat: raise Exception(('lia', r, show(e), v))
                nl[0] += 1
            except lia.NonLinear:
                nl[1] += 1
run(int(sys.argv[2]) if len(sys.argv) > 2 else 3000)
print('ok', nl)
