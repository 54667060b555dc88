"""Multiplication."""
import term as T
from core import Op, bigvar, sweep
from ops_bits import clz
from spec import R, wide, pol, RET, nz, isz, cneg

OPS = []


def mk(name, rust, args, ret, fn, **kw):
    kw.setdefault("sched", "mul")
    OPS.append(Op(name, rust, args, ret, fn, **kw))


# --------------------------------------------------------- operands by sign
def magvar(c, name, w, neg):
    """(operand, magnitude, assumption) of an operand with a given sign.

    A negative operand is written as the two's complement of its magnitude,
    limb by limb.
    """
    n = w // c.limb
    if not neg:
        ls = [T.var("%s_%d" % (name, i), c.limb, 0, T.mask(c.limb) >> (1 if i == n - 1 else 0)) for i in range(n)]
        m = cat(ls)
        return m, m, T.TRUE
    ms = [T.var("%s_%d" % (name, i), c.limb, 0, T.mask(c.limb) if i < n - 1 else 1 << (c.limb - 1)) for i in range(n)]
    m = cat(ms)
    ls, z = [], T.TRUE
    for x in ms:
        ls.append(T.add(T.bvnot(x), T.zext(z, c.limb)))
        z = T.and_(z, isz(x))
    half = T.const(1 << (w - 1), w)
    return cat(ls), m, T.and_(nz(m), T.ule(m, half))


def cat(ls):
    t = None
    for x in ls:
        t = x if t is None else T.concat(x, t)
    return t


def sign_splits(c, tier):
    if not c.signed:
        return [((0, 0), "")]
    return [((x, y), "%s*%s" % ("-" if x else "+", "-" if y else "+")) for x in (0, 1) for y in (0, 1)]


def signed_args(c, split):
    if not c.signed:
        return [("S", bigvar(c, "a0", c.bits)), ("S", bigvar(c, "a1", c.bits))], T.TRUE
    a, ma, p = magvar(c, "a0", c.bits, split[0])
    b, mb, q = magvar(c, "a1", c.bits, split[1])
    c.mag = {a.id: (split[0], ma), b.id: (split[1], mb)}
    return [("S", a), ("S", b)], T.and_(p, q)


def umul(c, a, b):
    """Exact product, twice as wide."""
    return T.mul(T.zext(a, 2 * c.bits), T.zext(b, 2 * c.bits))


def digits(c, X, name, lo, w):
    """Bits [lo, lo+w) of X as named limbs."""
    vs = [T.var("%s_%d" % (name, i), c.limb) for i in range(w // c.limb)]
    return cat(vs), (vs, T.extract(X, lo, w))


def core_pol(kind):
    """Product of magnitudes, sign applied afterwards."""
    def f(c, a, b):
        (s, m), (t, k) = (c.mag[a.id], c.mag[b.id]) if c.signed else ((0, a), (0, b))
        X = umul(c, m, k)
        if s == t:
            return pol(c, kind, T.extract(X, 0, c.bits), nz(T.extract(X, c.bits - c.signed, c.bits)), T.FALSE)
        lo, ds = digits(c, X, "lo", 0, c.bits)
        ov = T.var("big", 1)
        r = pol(c, kind, T.neg(lo), T.or_(ov, T.ugt(lo, c.mn())), T.TRUE)
        r.defs = [ds, ([ov], nz(T.extract(X, c.bits, c.bits)))]
        return r
    return f


def wrapmul(c, a, b):
    return R(T.extract(T.mul(a, b), 0, c.bits))


mk("wrapping_mul", "a0.wrapping_mul(a1)", ["S", "S"], "S", wrapmul, cost=20)
mk("overflowing_mul", "a0.overflowing_mul(a1)", ["S", "S"], "(S,bool)", core_pol("overflowing"),
   splits=sign_splits, mkargs=signed_args, prepare=sweep, cost=30)


# ---------------------------------------------------- the other policies
def derived(kind):
    def f(c, a, b):
        if c.signed:
            X = T.mul(T.sext(a, 2 * c.bits), T.sext(b, 2 * c.bits))
            r = wide(c, kind, X)
        else:
            X = umul(c, a, b)
            r = pol(c, kind, T.extract(X, 0, c.bits), nz(T.extract(X, c.bits, c.bits)), T.FALSE)
            # 2^i <= a, 2^j <= b and i + j >= N imply a * b >= 2^N
            bad = T.ule(T.add(clz(a, c), clz(b, c)), T.const(c.bits - 2, 32))
            r.lemmas.append(T.or_(T.not_(bad), nz(T.extract(X, c.bits, c.bits))))
        z = T.or_(isz(a), isz(b))
        r.lemmas.append(T.or_(T.not_(z), isz(X)))
        # the sign of a product
        if c.signed:
            r.lemmas.append(T.or_(z, T.eq(T.sign(X), T.xor_(T.sign(a), T.sign(b)))))
        return r
    return f


for k in ("checked", "saturating", "strict", "unchecked"):
    mk(k + "_mul", "a0.%s_mul(a1)" % k, ["S", "S"], RET[k], derived(k), models=("mul",), sched="derived")
mk("mul", "a0 * a1", ["S", "S"], "S", derived(""), ovf_dep=True, models=("mul",), sched="derived")
mk("mul_ref", "a0 * &a1", ["S", "S"], "S", derived(""), models=("mul",), sched="derived", ovf_dep=True)
mk("mul_assign", "{ let mut x = a0; x *= a1; x }", ["S", "S"], "S", derived(""), ovf_dep=True, models=("mul",),
   sched="derived")


# -------------------------------------------------------- wide products
def halves(c, X):
    return T.extract(X, 0, c.bits), T.extract(X, c.bits, c.bits)


mk("widening_mul", "a0.widening_mul(a1)", ["S", "S"], "(S,S)", lambda c, a, b: R(halves(c, umul(c, a, b))), signs="u",
   cost=20)


def carrying(c, a, b, d):
    X, ds = digits(c, umul(c, a, b), "p", 0, 2 * c.bits)
    r = R(halves(c, T.add(X, T.zext(d, 2 * c.bits))))
    # the product leaves room for any addend
    r.lemmas.append(T.ule(X, T.const(T.mask(c.bits) ** 2, X.w)))
    r.defs = [ds]
    return r


mk("carrying_mul", "a0.carrying_mul(a1, a2)", ["S", "S", "S"], "(S,S)", carrying, signs="u", cost=20, prepare=sweep)


def highmul(c, a, b):
    # schoolbook expansion over half-width digits
    h = c.bits // 2
    x0, x1 = T.extract(a, 0, h), T.extract(a, h, h)
    y0, y1 = T.extract(b, 0, h), T.extract(b, h, h)

    def m(x, y):
        return T.extract(umul(c, T.zext(x, c.bits), T.zext(y, c.bits)), 0, c.bits)

    def at(x, k):
        return T.shl(T.zext(x, 2 * c.bits), T.const(k, 2 * c.bits))
    X = T.add(T.add(at(m(x1, y1), 2 * h), at(m(x1, y0), h)), T.add(at(m(x0, y1), h), at(m(x0, y0), 0)))
    return R(halves(c, X)[1])


mk("high_mul", "a0.high_mul(a1)", ["S", "S"], "S", highmul, signs="u", cost=20, models=("mul", "add"), sched="omul")
