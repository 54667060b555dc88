"""Differential fuzz of the term simplifier against plain integer semantics."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import term as T


def sv(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ref(op, a, b, w):
    m = (1 << w) - 1
    return {
        "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
        "bvand": lambda: a & b, "bvor": lambda: a | b, "bvxor": lambda: a ^ b,
        "udiv": lambda: -1 if b == 0 else a // b, "urem": lambda: a if b == 0 else a % b,
        "shl": lambda: a << b if b < w else 0, "lshr": lambda: a >> b if b < w else 0,
        "ashr": lambda: sv(a, w) >> min(b, w - 1), "eq": lambda: int(a == b),
        "ult": lambda: int(a < b), "slt": lambda: int(sv(a, w) < sv(b, w)),
        "ule": lambda: int(a <= b), "sle": lambda: int(sv(a, w) <= sv(b, w)),
    }[op]() & m


def run(n, seed=1):
    random.seed(seed)
    ops2 = ["add", "sub", "mul", "bvand", "bvor", "bvxor", "udiv", "urem", "shl", "lshr", "ashr"]
    cmps = ["eq", "ult", "slt", "ule", "sle"]
    bad = 0
    for _ in range(n):
        T.reset()
        widths = [1, 3, 4, 8]
        env = {}
        pool = []
        for i in range(3):
            w = random.choice(widths)
            lo = random.randrange(1 << w)
            hi = random.randrange(lo, 1 << w)
            if random.random() < .5:
                lo, hi = 0, (1 << w) - 1
            env["v%d" % i] = random.randint(lo, hi)
            pool.append((T.var("v%d" % i, w, lo, hi), env["v%d" % i]))
        for w in widths:
            c = random.randrange(1 << w)
            pool.append((T.const(c, w), c))
            pool.append((T.const(0, w), 0))
        for _ in range(30):
            r = random.random()
            a, va = random.choice(pool)
            if r < .35:
                b, vb = random.choice([p for p in pool if p[0].w == a.w])
                if a.w == 1:
                    op = random.choice(["and_", "or_", "xor_"])
                    t = getattr(T, op)(a, b)
                    v = {"and_": va & vb, "or_": va | vb, "xor_": va ^ vb}[op]
                else:
                    op = random.choice(ops2 + cmps)
                    t = getattr(T, op)(a, b)
                    v = ref(op, va, vb, a.w) & ((1 << t.w) - 1)
            elif r < .5:
                lo = random.randrange(a.w)
                w = random.randint(1, a.w - lo)
                t = T.extract(a, lo, w)
                v = (va >> lo) & ((1 << w) - 1)
            elif r < .6:
                b, vb = random.choice(pool)
                if a.w + b.w > 24:
                    continue
                t = T.concat(a, b)
                v = (va << b.w) | vb
            elif r < .7:
                t = T.zext(a, a.w + random.randrange(4))
                v = va
            elif r < .8:
                w = a.w + random.randrange(4)
                t = T.sext(a, w)
                v = sv(va, a.w) & ((1 << w) - 1)
            elif r < .95:
                c, vc = random.choice([p for p in pool if p[0].w == 1])
                b, vb = random.choice([p for p in pool if p[0].w == a.w])
                t = T.ite(c, a, b)
                v = va if vc else vb
            elif r < .97:
                if a.w < 8:
                    continue
                t = T.ctlz(a)
                v = a.w - va.bit_length()
            else:
                t = T.not_(a)
                v = ~va & ((1 << a.w) - 1)
            pool.append((t, v))
            e = T.evaluate([t], env)[0]
            if e != v or not (t.lo <= v <= t.hi):
                bad += 1
                print("BAD", t, e, v, t.lo, t.hi)
                break
    return bad


if __name__ == "__main__":
    b = run(int(sys.argv[1]) if len(sys.argv) > 1 else 5000)
    print("bad", b)
    sys.exit(1 if b else 0)
