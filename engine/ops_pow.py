"""Powers, logarithms and multiples.

Powers are decided at the level of exponents: the product of a^x and a^y
(modulo 2^N) is a^(x+y), so a computation made of multiplications is followed
through the exponents of its values, for every exponent at once.  Which powers
of an operand fit its type is described by one number t per operand: a^x fits
if and only if x <= t (powers of a magnitude above one grow; the smallest
negative value is the last power that fits when it is one).
"""
import term as T
import models
import ops_div
from core import Op, bigvar, confirm
from spec import R, Opt, pol, wide, RET, isz, nz

OPS = []
E = 64          # width of exponents


def mk(name, rust, args, ret, fn, **kw):
    op = Op(name, rust, args, ret, fn, **kw)
    OPS.append(op)
    return op


class Tags:
    """Values known by what they denote rather than by their bits."""

    def __init__(self, c):
        self.c = c
        self.known = {}         # limb ids -> tag
        self.n = 0

    def limbs(self, t):
        w = self.c.limb
        return tuple(T.extract(t, i, w) for i in range(0, t.w, w))

    def tag(self, t, what):
        self.known[tuple(x.id for x in self.limbs(t))] = what
        return t

    def block(self, what=None):
        self.n += 1
        t = bigvar(self.c, "v%d" % self.n, self.c.bits)
        return self.tag(t, what) if what is not None else t

    def of(self, t):
        """Tag of t; ("ite", c, x, y) where control flow joined."""
        return self._of(self.limbs(t))

    def _of(self, ls):
        k = tuple(x.id for x in ls)
        if k in self.known:
            return self.known[k]
        c = next((x.args[0] for x in ls if x.op == "ite"), None)
        if c is None:
            return None
        a = self._of(tuple(x.args[1] if x.op == "ite" and x.args[0] is c else x for x in ls))
        b = self._of(tuple(x.args[2] if x.op == "ite" and x.args[0] is c else x for x in ls))
        if a is None and b is None:
            r = None
        elif a is None or b is None:
            r = self.half(c, a) if b is None else self.half(T.not_(c), b)
        else:
            r = self.join(c, a, b)
        self.known[k] = r
        return r

    def join(self, c, a, b):
        return ("ite", c, a, b) if a != b else a

    def half(self, c, a):
        return None


# ------------------------------------------------------------------ powers
class Powers(Tags):
    """The powers of one operand; the tag is the exponent."""

    def __init__(self, c, a, e):
        Tags.__init__(self, c)
        self.a = a
        self.t = T.var("t", E, 1)
        self.e = T.zext(e, E)
        self.spec = bigvar(c, "s", c.bits)
        self.big = T.var("big", 1)
        one = c.k(1)
        self.tag(a, T.const(1, E))
        self.tag(one, T.const(0, E))
        self.lemmas = [T.implies(isz(self.e), T.eq(self.spec, one)),
                       T.implies(T.eq(self.e, T.const(1, E)), T.eq(self.spec, a)),
                       T.eq(self.big, T.not_(self.fits(self.e)))]

    def join(self, c, a, b):
        # x + 2^k or x, with x below 2^k: one more bit in front of x
        for c, a, b in ((c, a, b), (T.not_(c), b, a)):
            n = 0
            while n < E - 1 and T.extract(b, n, E - n) is not T.const(0, E - n):
                n += 1
            if T.add(b, T.const(1 << n, E)) is a:
                return T.zext(T.concat(c, T.extract(b, 0, n)) if n else c, E)
            while n < E - 1:
                n += 1
                if T.add(b, T.const(1 << n, E)) is a:
                    return T.zext(T.concat(c, T.extract(b, 0, n)), E)
        return T.ite(c, a, b)

    def fits(self, x):
        return T.ule(x, self.t)

    def power(self, x):
        b = self.block(x)
        self.lemmas.append(T.implies(T.eq(x, self.e), T.eq(b, self.spec)))
        return b

    def mul(self, c, a, b):
        x, y = self.of(a), self.of(b)
        if x is None or y is None:
            return [self.block(), T.fresh(1)]
        z = T.add(x, y)
        return [self.power(z), T.ite(T.and_(self.fits(x), self.fits(y)), T.not_(self.fits(z)), T.fresh(1))]


def power_terms(c, a, e):
    """(a^e modulo 2^N, does it not fit) as terms to be evaluated."""
    N = c.bits
    W = 2 * N + 2
    top = T.const(1 << N, W)
    neg = T.sign(a) if c.signed else T.FALSE
    acc, base = c.k(1), a
    ma, mb = T.const(1, W), T.zext(T.ite(neg, T.neg(a), a), W)

    def sat(x, y):
        p = T.mul(x, y)
        return T.ite(T.ult(top, p), top, p)
    for i in range(e.w):
        bit = T.extract(e, i, 1)
        acc, ma = T.ite(bit, T.mul(acc, base), acc), T.ite(bit, sat(ma, mb), ma)
        base, mb = T.mul(base, base), sat(mb, mb)
    s = T.and_(neg, T.extract(e, 0, 1))
    lim = T.ite(s, T.const(1 << (N - 1), W), T.const((1 << (N - 1)) - 1, W)) if c.signed else T.const((1 << N) - 1, W)
    return acc, T.ult(lim, ma)


def powspec(kind):
    def f(c, a, e):
        pw = c.pw = Powers(c, a, e)
        neg = T.and_(T.sign(a), T.extract(e, 0, 1)) if c.signed else T.FALSE
        r = pol(c, kind, pw.spec, pw.big, neg)
        r.lemmas = pw.lemmas
        v, o = power_terms(c, a, e)
        r.defs = [(limbvars(pw.spec, c), v), ([pw.big], o)]
        return r
    return f


def limbvars(t, c):
    return [T.extract(t, i, c.limb) for i in range(0, t.w, c.limb)]


def env_of(c, **vals):
    e = {}
    for k, (v, w) in vals.items():
        if w <= c.limb:
            e[k] = v & T.mask(w)
        else:
            for i in range(w // c.limb):
                e["%s_%d" % (k, i)] = (v >> (c.limb * i)) & T.mask(c.limb)
    return e


def iroot(x, n):
    lo, hi = 1, 1 << (x.bit_length() // n + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** n <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def bases(c, es):
    """Operands whose powers are interesting for the exponents es."""
    N = c.bits - c.signed
    out = [2, 3, 0, 1, 5, 10, (1 << N) - 1, 1 << (N // 2), (1 << (N // 2)) - 1, 1 << 64, (1 << 64) - 1, 1 << 32]
    for e in es:
        for n in (e, e + 1, e - 1):
            if 1 < n <= 4 * N:
                x = iroot((1 << N) - 1, n)
                out += [x, x + 1]
    out += [-x for x in out] + [-(1 << N)] if c.signed else []
    return list(dict.fromkeys(out))


def pow_envs(c, es):
    for e in es:
        for a in bases(c, [e]):
            yield env_of(c, a0=(a, c.bits), a1=(e, 32))


def first(P, envs):
    for e in envs:
        rep = confirm(P, e)
        if rep["reproduced"]:
            return rep
    return None


def pow_lift(P, lab, env, roots):
    es = [env["a1"]] if env and "a1" in env else []
    es += [0, 1, 2, 3, 4, 5, 7, 8, P.job.c.bits - 1, P.job.c.bits, 1 << 31, (1 << 32) - 1]
    return first(P, pow_envs(P.job.c, list(dict.fromkeys(es))[:8]))


def pow_prepare(P):
    P.lift_fn, P.nohunt = pow_lift, True


def pow_models(c):
    pw = c.pw
    return {models.sym(c.name, "overflowing_mul"): models.method(c, pw.mul, 2),
            models.sym(c.name, "wrapping_mul"): models.method(c, lambda c, a, b: pw.mul(c, a, b)[:1], 1)}


def pow_spot(P):
    c = P.job.c
    return pow_envs(c, [0, 1, 3, 6, c.bits - 1])


for k in ("wrapping", "overflowing", "checked", "saturating", "strict", ""):
    n = (k + "_" if k else "") + "pow"
    mk(n, "a0.%s(a1)" % n, ["S", "u32"], RET[k], powspec(k), ovf_dep=k == "", models=(pow_models,), prepare=pow_prepare,
       spot=pow_spot, validate=0, sched="bv", soft=33)


# -------------------------------------------------------------- logarithms
class Logs(Tags):
    """self and base of a logarithm.

    t is the largest exponent with base^t <= self, i and j are the binary
    logarithms of self and base.
    """

    def __init__(self, c, a, b):
        Tags.__init__(self, c)
        self.a, self.b = a, b
        lo, hi = c.jr or (0, c.bits - 1)
        self.t, self.i = (T.zext(T.var(x, 11, 0, c.bits - 1), 32) for x in "ti")
        self.j = T.zext(T.var("j", 11, lo, hi), 32) if lo < hi else T.const(lo, 32)
        self.tag(a, ("self",))
        self.tag(b, ("base",))
        two = T.const(2, c.bits)
        ok = T.and_(nz(a), T.ule(two, b))
        j1 = T.add(self.j, T.const(1, 32))
        fs = [T.eq(T.ult(a, b), isz(self.t)), nz(self.j),
              # base^n < 2^((j+1)n) <= 2^i <= self
              T.ule(T.udiv(self.i, j1), self.t),
              # 2^(j t) <= base^t <= self < 2^(i+1)
              T.ule(self.t, T.udiv(self.i, self.j))]
        if c.jr:
            # the distance of these bounds
            d = max(i // j - i // (j + 1) for i in range(c.bits) for j in range(lo, hi + 1))
            fs.append(T.ule(self.t, T.add(T.udiv(self.i, j1), T.const(d, 32))))
        self.lemmas = [T.implies(ok, f) for f in fs]

    def ilog2(self, x):
        k = self.of(x)
        return {("self",): self.i, ("base",): self.j}.get(k)

    def exp(self, k):
        """Exponent of a value that is a power of the base."""
        if k == ("base",):
            return T.const(1, 32)
        if k and k[0] == "pow":
            return k[1]
        if k and k[0] == "ite":
            x, y = self.exp(k[2]), self.exp(k[3])
            return None if x is None or y is None else T.ite(k[1], x, y)
        return None

    def le(self, x, y):
        """x <= y, or None when not known."""
        kx, ky = self.of(x), self.of(y)
        e = self.exp(kx)
        if ky == ("quo",) and e is not None:
            # b^e <= floor(a / b) iff b^(e+1) <= a
            return T.ult(e, self.t)
        if ky == ("self",) and e is not None and kx != ("base",):
            return T.ule(e, self.t)
        if any(k and k[0] in ("pow", "quo", "ite") for k in (kx, ky)):
            return T.fresh(1)
        return None

    def mul(self, c, x, y):
        u, v = self.exp(self.of(x)), self.exp(self.of(y))
        if u is None or v is None:
            return [self.block(), T.fresh(1)]
        z = T.add(u, v)
        # powers up to t are at most self
        return [self.block(("pow", z)), T.and_(T.ult(self.t, z), T.fresh(1))]

    def div(self, c, x, y):
        if self.of(x) == ("self",) and self.of(y) == ("base",):
            return self.block(("quo",))
        return self.block()


def log_models(c):
    lg, U = c.lg, "U%d" % c.bits

    def cmp(name):
        def h(ex, s, i, args):
            x, y = (models.big(ex, s, p, c) for p in args)
            if name in ("le", "gt"):
                r, plain = lg.le(x, y), T.ule(x, y)
            else:
                r, plain = lg.le(y, x), T.ule(y, x)
            r = plain if r is None else r
            return s, r if name in ("le", "ge") else T.not_(r)
        return h

    def ilog2(ex, s, i, args):
        x = models.big(ex, s, args[0], c)
        s = models.guarded(ex, s, isz(x))
        if s is None:
            return None, None
        r = lg.ilog2(x)
        return s, T.fresh(32) if r is None else r

    def power(ex, s, i, args):
        x, n = models.big(ex, s, args[1], c), args[2]
        if lg.of(x) != ("base",):
            s = models.guarded(ex, s, T.fresh(1))
            models.put(ex, s, args[0], 0, lg.block(), c.limb)
            return s, None
        s = models.guarded(ex, s, T.and_(T.ult(lg.t, n), T.fresh(1)))
        models.put(ex, s, args[0], 0, lg.block(("pow", n)), c.limb)
        return s, None

    def arith(fn):
        def h(ex, s, i, args):
            x, y = (models.big(ex, s, p, c) for p in args[1:])
            z, cond = fn(x, y)
            s = models.guarded(ex, s, cond)
            if s is None:
                return None, None
            models.put(ex, s, args[0], 0, z, c.limb)
            return s, None
        return h
    m = {models.sym(U, "ilog2"): ilog2, models.sym(U, "pow"): power}
    for k in ("le", "lt", "ge", "gt"):
        m[models.sym(U, k + "_const")] = cmp(k)
    m[r"%d%sNtNt\w*5arith3Mul3mul(Cs\w+_5probe)?\"?$" % (len(U), U)] = arith(lambda x, y: lg.mul(c, x, y))
    m[r"%d%sNtNt\w*5arith3Div3div(Cs\w+_5probe)?\"?$" % (len(U), U)] = arith(lambda x, y: (lg.div(c, x, y), isz(y)))
    m[models.sym(U, "wrapping_mul")] = arith(lambda x, y: (lg.mul(c, x, y)[0], T.FALSE))
    m[models.sym(U, "wrapping_div")] = arith(lambda x, y: (lg.div(c, x, y), isz(y)))
    return m


def log_term(c, a, b):
    """Number of k >= 1 with b^k <= a, as a term to be evaluated."""
    W = 2 * c.bits
    top = T.const(1 << c.bits, W)
    p, n = T.const(1, W), T.const(0, 32)
    x, y = T.zext(a, W), T.zext(b, W)
    for _ in range(c.bits):
        p = T.mul(p, y)
        p = T.ite(T.ult(top, p), top, p)
        n = T.add(n, T.zext(T.ule(p, x), 32))
    return n


def log_splits(c, tier):
    n = c.bits - c.signed - 1
    return [(None, "base below two")] + [((lo, hi), "base of %d to %d bits" % (lo + 1, hi + 1))
                                         for lo, hi in ((2, 2), (3, 7), (8, n))]


def log_args(c, split):
    a, b = (bigvar(c, k, c.bits) for k in ("a0", "a1"))
    c.jr = split
    if split is None:
        return [("S", a), ("S", b)], c.lt(b, c.k(2))
    lo, hi = split
    # bits of the base
    return [("S", a), ("S", b)], T.and_(isz(T.extract(b, hi + 1, c.bits - hi - 1)) if hi + 1 < c.bits else T.TRUE,
                                        nz(T.extract(b, lo, c.bits - lo)))


def logspec(kind):
    def f(c, a, b):
        lg = c.lg = Logs(c, a, b)
        one = c.k(1)
        ok = T.and_(c.lt(c.k(0), a), c.lt(one, b))
        r = R(Opt(ok, lg.t)) if kind == "checked" else R(lg.t, panic=T.not_(ok))
        r.lemmas, r.tagged = lg.lemmas, True
        r.defs = [([T.var("t", 11)], T.extract(log_term(c, a, b), 0, 11))]
        return r
    return f


def log_pairs(c):
    N = c.bits - c.signed
    M = (1 << N) - 1
    for b in (2, 3, 10, 7, 16, 255, 1 << 32, 1 << 64, (1 << 64) + 1, iroot(M, 2), iroot(M, 3), M, M - 1, 0, 1):
        xs = {0, 1, 2, 3, M, b - 1, b, b + 1}
        if b > 1:
            k = 1
            while b ** (k + 1) <= M:
                k += 1
            for e in (k, k - 1, k // 2, 2):
                xs |= {b ** e, b ** e - 1, b ** e + 1}
        for x in sorted(xs):
            if 0 <= x <= M:
                yield x, b
    if c.signed:
        yield -5, 2
        yield 5, -2
        yield -(1 << N), -1


def log_envs(c):
    for a, b in log_pairs(c):
        if c.jr is None and b < 2 or c.jr is not None and b > 1 and c.jr[0] <= b.bit_length() - 1 <= c.jr[1]:
            yield env_of(c, a0=(a, c.bits), a1=(b, c.bits))


def log_lift(P, lab, env, roots):
    return first(P, log_envs(P.job.c))


def log_prepare(P):
    P.lift_fn, P.nohunt = log_lift, True


def log_spot(P):
    c = P.job.c
    return list(log_envs(c))[::5]


for k, n in (("checked", "checked_ilog"), ("", "ilog")):
    mk(n, "a0.%s(a1)" % n, ["S", "S"], "?u32" if k else "u32", logspec(k), models=(log_models,), prepare=log_prepare,
       spot=log_spot, validate=0, sched="both", soft=2, splits=log_splits, mkargs=log_args)


# --------------------------------------------------------------- multiples
def nextmul(kind):
    def f(c, a, b):
        D = ops_div.Div(c, a, b)
        W = c.bits + 2
        m = c.ext(D.R, "S", W)
        B = c.ext(b, "S", W)
        if c.signed:
            # the remainder with the sign of the divisor
            m = T.ite(T.and_(nz(D.R), T.xor_(T.sign(D.R), D.sb)), T.add(m, B), m)
        X = T.ite(isz(m), c.ext(a, "S", W), T.add(c.ext(a, "S", W), T.sub(B, m)))
        r = wide(c, kind, X)
        if kind == "checked":
            r = R(Opt(T.and_(r.ret.c, T.not_(D.zero)), r.ret.v))
        else:
            r.panic = T.or_(r.panic, D.zero)
        return D.fin(r)
    return f


def ismul(c, a, b):
    D = ops_div.Div(c, a, b)
    return D.fin(R(T.ite(D.zero, isz(a), isz(D.r))))


def signed_splits(c, tier):
    if not c.signed:
        return [(None, "")]
    return [((x, y), "+-"[x] + "+-"[y]) for x in (0, 1) for y in (0, 1)]


def signed_args(c, split):
    """Operands with given sign bits."""
    out = []
    for k in (0, 1):
        t = bigvar(c, "a%d" % k, c.bits)
        if split is not None:
            top = T.concat(T.const(split[k], 1), T.var("a%d_top" % k, c.limb - 1))
            t = T.concat(top, T.extract(t, 0, c.bits - c.limb))
        out.append(("S", t))
    return out, T.TRUE


DM = ("div", "neg", "add", "addlimb")
for k in ("checked", ""):
    n = (k + "_" if k else "") + "next_multiple_of"
    mk(n, "a0.%s(a1)" % n, ["S", "S"], RET[k], nextmul(k), ovf_dep=k == "", models=DM, prepare=ops_div.divcut,
       sched="auto", splits=signed_splits, mkargs=signed_args)
mk("is_multiple_of", "a0.is_multiple_of(a1)", ["S", "S"], "bool", ismul, signs="u", models=DM, prepare=ops_div.divcut,
   sched="auto")
