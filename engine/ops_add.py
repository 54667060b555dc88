"""Addition, subtraction, negation and their relatives."""
import term as T
from core import Op
from spec import R, Opt, pol, wide, RET, absu, isz, nz

OPS = []
KINDS = ("wrapping", "overflowing", "checked", "saturating", "strict", "unchecked", "")


def method(kind, op, *args):
    if kind == "":
        return None
    return "a0.%s_%s(%s)" % (kind, op, ", ".join(args))


def addx(c, a, b, tb, sub, W=None):
    W = max(a.w, b.w) + 2
    x, y = c.ext(a, "S", W), c.ext(b, tb, W)
    return T.sub(x, y) if sub else T.add(x, y)


def mk(name, rust, args, ret, fn, **kw):
    OPS.append(Op(name, rust, args, ret, fn, **kw))


for op, sub, sym in (("add", 0, "+"), ("sub", 1, "-")):
    for k in KINDS:
        e = method(k, op, "a1") or "a0 %s a1" % sym
        mk((k + "_" + op).strip("_"), e, ["S", "S"], RET[k],
           lambda c, a, b, k=k, sub=sub: wide(c, k, addx(c, a, b, "S", sub)), ovf_dep=(k == ""))
    for nm, e in (("%s_assign" % op, "let mut x = a0; x %s= a1; x" % sym),
                  ("%s_ref" % op, "a0 %s &a1" % sym), ("%s_assign_ref" % op, "let mut x = a0; x %s= &a1; x" % sym)):
        mk(nm, e, ["S", "S"], "S", lambda c, a, b, sub=sub: wide(c, "", addx(c, a, b, "S", sub)), ovf_dep=True)

# mixed signedness
for k in ("wrapping", "overflowing", "checked", "saturating", "strict"):
    mk(k + "_add_signed", method(k, "add_signed", "a1"), ["S", "I"], RET[k],
       lambda c, a, b, k=k: wide(c, k, addx(c, a, b, "I", 0)), signs="u")
    if k != "wrapping":
        mk(k + "_add_unsigned", method(k, "add_unsigned", "a1"), ["S", "U"], RET[k],
           lambda c, a, b, k=k: wide(c, k, addx(c, a, b, "U", 0)), signs="i")
    mk(k + "_sub_unsigned", method(k, "sub_unsigned", "a1"), ["S", "U"], RET[k],
       lambda c, a, b, k=k: wide(c, k, addx(c, a, b, "U", 1)), signs="i")
mk("overflowing_sub_signed", "a0.overflowing_sub_signed(a1)", ["S", "I"], "(S,bool)",
   lambda c, a, b: wide(c, "overflowing", addx(c, a, b, "I", 1)), signs="u")
mk("checked_signed_diff", "a0.checked_signed_diff(a1)", ["S", "S"], "?I",
   lambda c, a, b: wide(c, "checked", addx(c, a, b, "S", 1), "I"), signs="u")


# negation and absolute value
def negx(c, a):
    return T.neg(c.ext(a, "S", a.w + 2))


def absx(c, a):
    x = c.ext(a, "S", a.w + 2)
    return T.ite(T.sign(x), T.neg(x), x)


for k in ("wrapping", "checked", "strict", "overflowing", "saturating", "unchecked"):
    if k == "overflowing" or k == "saturating" or k == "unchecked":
        sg = "i"
    else:
        sg = "ui"
    mk(k + "_neg", "a0.%s_neg()" % k, ["S"], RET[k], lambda c, a, k=k: wide(c, k, negx(c, a)), signs=sg)
mk("neg", "-a0", ["S"], "S", lambda c, a: wide(c, "", negx(c, a)), signs="i", ovf_dep=True)
mk("neg_ref", "-&a0", ["S"], "S", lambda c, a: wide(c, "", negx(c, a)), signs="i", ovf_dep=True)
for k in ("wrapping", "checked", "strict", "overflowing", "saturating"):
    mk(k + "_abs", "a0.%s_abs()" % k, ["S"], RET[k], lambda c, a, k=k: wide(c, k, absx(c, a)), signs="i")
# the outcome of abs() on the minimum follows the overflow-check setting in
# the reference integers and always panics here; both readings are accepted
mk("abs", "a0.abs()", ["S"], "S",
   lambda c, a: R(T.extract(absx(c, a), 0, c.bits), free=T.eq(a, c.mn())) if not c.ovf
   else wide(c, "strict", absx(c, a)), signs="i", ovf_dep=True)
mk("unsigned_abs", "a0.unsigned_abs()", ["S"], "U", lambda c, a: R(absu(a)), signs="i")
mk("abs_diff", "a0.abs_diff(a1)", ["S", "S"], "U",
   lambda c, a, b: R(T.extract((lambda d: T.ite(T.sign(d), T.neg(d), d))(addx(c, a, b, "S", 1)), 0, c.bits)))


def mid(c, a, b):
    W = c.bits + 3
    s = T.add(c.ext(a, "S", W), c.ext(b, "S", W))
    if not c.signed:
        return R(T.extract(T.lshr(s, T.const(1, W)), 0, c.bits))
    # rounding of a half is documented inconsistently for negative sums
    up = T.zext(T.and_(T.extract(s, 0, 1), T.sign(s)), W)
    lo, hi = T.extract(s, 1, c.bits), T.extract(T.add(s, up), 1, c.bits)
    return R(rel=lambda m: [("midpoint", T.or_(T.eq(m, lo), T.eq(m, hi)))])


mk("midpoint", "a0.midpoint(a1)", ["S", "S"], "S", mid, sched="bvi")


def carry(c, a, b, ci, sub):
    W = c.bits + 2
    k = T.zext(ci, W)
    X = addx(c, a, b, "S", sub)
    X = T.sub(X, k) if sub else T.add(X, k)
    return wide(c, "overflowing", X)


mk("carrying_add", "a0.carrying_add(a1, a2)", ["S", "S", "bool"], "(S,bool)", lambda c, a, b, k: carry(c, a, b, k, 0))
mk("borrowing_sub", "a0.borrowing_sub(a1, a2)", ["S", "S", "bool"], "(S,bool)", lambda c, a, b, k: carry(c, a, b, k, 1))
mk("signum", "a0.signum()", ["S"], "S",
   lambda c, a: R(T.ite(T.sign(a), c.k(-1), T.ite(isz(a), c.k(0), c.k(1)))), signs="i")
mk("is_negative", "a0.is_negative()", ["S"], "bool", lambda c, a: R(T.sign(a)), signs="i")
mk("is_positive", "a0.is_positive()", ["S"], "bool", lambda c, a: R(T.and_(T.not_(T.sign(a)), nz(a))), signs="i")
