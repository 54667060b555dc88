"""Operations with a primitive second operand."""
import re
import term as T
import knuth
import ops_div
from core import Op, bigvar, sweep
from ops_mul import magvar, umul, digits
from spec import R, Opt, pol, wide, isz, nz

OPS = []
CORE = []
UNSIGNED = ("ulimb", "uwide", "u32", "u64", "u128")
SIGNED = ("ilimb", "iwide", "i32", "i64", "i128")
KINDS = ("wrapping", "overflowing", "checked", "")


def mk(name, rust, args, ret, fn, **kw):
    op = Op(name, rust, args, ret, fn, **kw)
    OPS.append(op)
    return op


def fname(kind, what, t):
    return (kind + "_" if kind else "") + what + "_" + t


def ret(kind, v):
    return {"checked": "?" + v, "overflowing": "(%s,bool)" % v}.get(kind, v)


# ------------------------------------------------ addition and subtraction
def addsub(kind, sub, t):
    def f(c, a, n):
        W = c.bits + 2
        x, y = c.ext(a, "S", W), c.ext(n, t, W)
        return wide(c, kind, T.sub(x, y) if sub else T.add(x, y))
    return f


# ---------------------------------------------------------- multiplication
def sign_splits(t):
    def f(c, tier):
        ss = [(x, y) for x in ((0, 1) if c.signed else (0,)) for y in ((0, 1) if t[0] == "i" else (0,))]
        return [(s, "*".join("+-"[k] for k in s) if len(ss) > 1 else "") for s in ss]
    return f


def mul_args(t):
    def f(c, split):
        c.mag = {}
        out, asm = [], T.TRUE
        for i, (ty, neg) in enumerate((("S", split[0]), (t, split[1]))):
            w = c.W(ty)
            if not c.sg(ty):
                a = m = bigvar(c, "a%d" % i, w)
            elif w < c.limb:
                # one short word
                m = T.var("a%d" % i, w, 1 if neg else 0, (1 << (w - 1)) - (0 if neg else 1))
                a = T.neg(m) if neg else m
            else:
                a, m, p = magvar(c, "a%d" % i, w, neg)
                asm = T.and_(asm, p)
            c.mag[a.id] = (neg, m)
            out.append((ty, a))
        return out, asm
    return f


def wrap_splits(t):
    def f(c, tier):
        return [(k, "*" + "+-"[k]) for k in (0, 1)] if t[0] == "i" else [(0, "")]
    return f


def wrap_args(t):
    """The second operand with a given sign, limb by limb."""
    def f(c, split):
        a, w = bigvar(c, "a0", c.bits), c.W(t)
        if t[0] == "u":
            return [("S", a), (t, bigvar(c, "a1", w))], T.TRUE
        n, k = None, max(1, w // c.limb)
        for i in range(k):
            x, lo, hi = w // k, 0, T.mask(w // k)
            if i == k - 1:
                lo, hi = (1 << (x - 1), hi) if split else (0, hi >> 1)
            v = T.var("a1_%d" % i, x, lo, hi)
            n = v if n is None else T.concat(v, n)
        return [("S", a), (t, n)], T.TRUE
    return f


def mulwrap(t):
    def f(c, a, n):
        if t[0] == "u":
            x = T.zext(n, c.bits)
        else:
            # the sign is known from the range of the top limb
            neg = any(v.lo for v in T.variables([n]))
            x = T.concat(T.const(-1 if neg else 0, c.bits - n.w), n)
        return R(T.mul(a, x))
    return f


def mulpol(kind):
    """Product of magnitudes, sign applied afterwards."""
    def f(c, a, n):
        (s, m), (t, k) = c.mag[a.id], c.mag[n.id]
        X = umul(c, m, T.zext(k, c.bits))
        X = T.extract(X, 0, 2 * c.bits)
        if s == t:
            return pol(c, kind, T.extract(X, 0, c.bits), nz(T.extract(X, c.bits - c.signed, c.bits)), T.FALSE)
        lo, ds = digits(c, X, "lo", 0, c.bits)
        ov = T.var("big", 1)
        r = pol(c, kind, T.neg(lo), T.or_(ov, T.ugt(lo, c.mn())), T.TRUE)
        r.defs = [ds, ([ov], nz(T.extract(X, c.bits, c.bits)))]
        return r
    return f


def mulder(kind, t):
    def f(c, a, n):
        if c.signed:
            X = T.mul(T.sext(a, 2 * c.bits), c.ext(n, t, 2 * c.bits))
            return wide(c, kind, X)
        X = umul(c, a, T.zext(n, c.bits))
        return pol(c, kind, T.extract(X, 0, c.bits), nz(T.extract(X, c.bits, c.bits)), T.FALSE)
    return f


for t in UNSIGNED + SIGNED:
    sg = "ui" if t[0] == "u" else "i"
    for kind in KINDS:
        od = kind == ""
        for what in ("add", "sub"):
            n = fname(kind, what, t)
            mk(n, "a0.%s(a1)" % n, ["S", t], ret(kind, "S"), addsub(kind, what == "sub", t), signs=sg, ovf_dep=od)
        n = fname(kind, "mul", t)
        if kind == "wrapping":
            mk(n, "a0.%s(a1)" % n, ["S", t], "S", mulwrap(t), signs=sg, splits=wrap_splits(t), mkargs=wrap_args(t),
               prepare=sweep, sched="mul", cost=8)
        elif kind == "overflowing":
            mk(n, "a0.%s(a1)" % n, ["S", t], ret(kind, "S"), mulpol(kind), signs=sg, splits=sign_splits(t),
               mkargs=mul_args(t), prepare=sweep, sched="mul", cost=8)
        else:
            mk(n, "a0.%s(a1)" % n, ["S", t], ret(kind, "S"), mulder(kind, t), signs=sg, ovf_dep=od,
               models=("smul",), sched="derived")


# ---------------------------------------------------------------- division
def shape_args(t):
    def f(c, split):
        la, w = c.bits // c.limb, c.W(t)
        if w < c.limb:
            b = T.var("a1", w, 0 if split[0] == "zero" else 1)
            b = T.const(0, w) if split[0] == "zero" else b
            a = ops_div.limbvars(c, "a0", la if split[0] == "zero" else split[1], la, 0 if split[0] == "zero" else 1)
            return [("S", a), (t, b)], T.TRUE
        lb = w // c.limb
        k = split[0]
        if k == "any":
            return [("S", ops_div.limbvars(c, "g0", la, la, 0)), (t, ops_div.limbvars(c, "g1", lb, lb, 0))], T.TRUE
        if k == "zero":
            return [("S", ops_div.limbvars(c, "a0", la, la, 0)), (t, T.const(0, w))], T.TRUE
        if k == "one":
            return [("S", ops_div.limbvars(c, "a0", split[1], la)), (t, ops_div.limbvars(c, "a1", 1, lb))], T.TRUE
        nb = split[1]
        if k == "lt":
            return [("S", ops_div.limbvars(c, "a0", nb - 1, la, 0)), (t, ops_div.limbvars(c, "a1", nb, lb))], T.TRUE
        if k == "eq":
            a = ops_div.limbvars(c, "a0", nb, la)
            return [("S", a), (t, T.extract(a, 0, w))], T.TRUE
        a = ops_div.limbvars(c, "a0", nb + (split[2] if k == "k" else 0), la)
        b = ops_div.limbvars(c, "a1", nb, lb)
        bb = T.zext(b, a.w)
        return [("S", a), (t, b)], T.ult(a, bb) if k == "le" else T.ult(bb, a)
    return f


def shape_splits(t):
    def f(c, tier):
        la, lb = c.bits // c.limb, max(1, c.W(t) // c.limb)
        if lb == 1:
            return [(("zero",), "/0")] + [(("one", n), "%d/1 limbs" % n) for n in range(0, la + 1)]
        return ops_div.shapes(la, lb)
    return f


def prepare(P):
    P.lift_fn = knuth.lift(ops_div.replayer(lambda c, s: shape_args(P.job.op.args[1])(c, s)))
    P.lift = {}
    sp = P.job.split
    if sp[0] == "one":
        if sp[1] >= 2:
            knuth.short(P)
        return
    if sp[0] != "k":
        knuth.simplify(P)
        return
    if sp[1] == 1 or sp[1] + sp[2] <= 2:
        return
    ops_div.by_digits(P, sp[1], sp[2])


for t in ("ulimb", "uwide", "u128"):
    n = "wrapping_div_rem_" + t
    CORE.append(mk(n, "a0.%s(a1)" % n, ["S", t], "(S,%s)" % t, ops_div.divrel, signs="u", splits=shape_splits(t),
                   mkargs=shape_args(t), prepare=prepare, sched="mul", cost=10,
                   limbs=(64, 32) if t != "u128" else (32,)))


def divpol(kind, what, t):
    def f(c, a, n):
        D = ops_div.Div(c, a, n, "S", t)
        w = c.W(t)
        if c.signed and t[0] == "u":
            # floor division: the remainder is not negative
            adj = T.and_(D.sa, nz(D.r))
            q, r = T.ite(adj, T.sub(D.Q, c.k(1)), D.Q), T.ite(adj, T.sub(D.y, D.r), D.r)
        else:
            q, r = D.Q, D.R
        r = T.extract(r, 0, w)
        v = {"div_rem": (q, r), "div": q, "rem": r}[what]
        ovf = T.and_(T.eq(a, c.mn()), T.eq(n, T.const(-1, w))) if t[0] == "i" else T.FALSE
        if kind == "checked":
            x = R(Opt(T.not_(T.or_(D.zero, ovf)), v))
        elif kind == "overflowing":
            x = R((v, ovf), panic=D.zero)
        elif kind == "wrapping":
            x = R(v, panic=D.zero)
        else:
            x = R(v, panic=T.or_(D.zero, ovf) if c.ovf else D.zero)
        return D.fin(x)
    return f


for t in UNSIGNED + SIGNED:
    sg = "ui" if t[0] == "u" else "i"
    for kind in KINDS:
        for what in ("div_rem", "div", "rem"):
            n = fname(kind, what, t)
            v = {"div_rem": "(S,%s)" % t, "div": "S", "rem": t}[what]
            kw = dict(ovf_dep=kind == "", models=("sdiv", "neg", "add"), prepare=ops_div.divcut, sched="auto")
            if (kind, what) == ("wrapping", "div_rem") and t in ("ulimb", "uwide", "u128"):
                if "i" in sg:
                    mk(n, "a0.%s(a1)" % n, ["S", t], ret(kind, v), divpol(kind, what, t), signs="i", **kw)
                if t == "u128":
                    mk(n, "a0.%s(a1)" % n, ["S", t], ret(kind, v), divpol(kind, what, t), signs="u", limbs=(64,), **kw)
                continue
            mk(n, "a0.%s(a1)" % n, ["S", t], ret(kind, v), divpol(kind, what, t), signs=sg, **kw)
