"""Shifts, rotations, comparisons, bit operations, encodings, conversions."""
import term as T
from core import Op
from spec import R, Opt, wide, RET, isz, nz

SHIFT, CMP, BITS, ENC, CONV = [], [], [], [], []


def adder(lst, sched):
    def mk(name, rust, args, ret, fn, **kw):
        kw.setdefault("sched", sched)
        lst.append(Op(name, rust, args, ret, fn, **kw))
    return mk


# ------------------------------------------------------------------ shifts
mk = adder(SHIFT, "bvi")


def amount(c, n):
    """(n modulo the width, one case per residue)."""
    w = c.bits
    if n.w < 16:
        n = T.zext(n, 16)
    if w & (w - 1) == 0 and n.op == "var":
        # the low bits of the amount decide: divide on the variable itself
        b = w.bit_length() - 1
        hi = T.var("above", n.w - b)
        cases = [{n.id: T.concat(hi, T.const(i, b))} for i in range(w)]
        return T.urem(n, T.const(w, n.w)), cases
    k = T.urem(n, T.const(w, n.w))
    return k, None if T.isc(k) else [{k.id: T.const(i, k.w)} for i in range(w)]


def fit(c, k):
    return T.zext(k, c.bits) if k.w < c.bits else T.extract(k, 0, c.bits)


def sh(c, a, n, right):
    if not right:
        return T.shl(a, n)
    return T.ashr(a, n) if c.signed else T.lshr(a, n)


def shift(c, a, n, right, kind, tn="u32"):
    ovf = out_of_range(c, n, tn)
    if kind in ("wrapping", "overflowing"):
        k, cases = amount(c, n)
        r = sh(c, a, fit(c, k), right)
        return R(r if kind == "wrapping" else (r, ovf), cases=cases)
    # only in-range amounts have a value: one case each
    r = sh(c, a, fit(c, n), right)
    kw = {"cases": in_range_cases(c, n, tn), "rest": ovf}
    if kind == "checked":
        return R(Opt(T.not_(ovf), r), **kw)
    if kind == "strict":
        return R(r, panic=ovf, **kw)
    if kind == "unchecked":
        return R(r, pre=T.not_(ovf), **kw)
    if kind == "unbounded":
        return R(T.ite(ovf, c.k(0), r), **kw)
    # operator: panics with overflow checks; without them the value for an
    # out-of-range amount is not specified (but must be computed quietly)
    return R(r, panic=ovf, **kw) if c.ovf else R(r, free=ovf, **kw)


def in_range_cases(c, n, tn):
    top = 1 << (n.w - 1 if c.sg(tn) else n.w)
    out = []
    low = T.variables([n])
    for i in range(min(c.bits, top)):
        v = T.const(i, n.w)
        mp = {}
        for x in low:
            off = int(x.p.rsplit("_", 1)[1]) * c.limb if "_" in x.p else 0
            mp[x.id] = T.extract(v, off, x.w)
        out.append(mp)
    return out


def out_of_range(c, n, tn):
    W = max(n.w, 16) + 1
    X = c.ext(n, tn, W)
    return T.or_(T.sign(X), T.uge(X, T.const(c.bits, W)))


for nm, right, sym in (("shl", 0, "<<"), ("shr", 1, ">>")):
    for k in ("wrapping", "overflowing", "checked", "strict", "unchecked", "unbounded"):
        mk("%s_%s" % (k, nm), "a0.%s_%s(a1)" % (k, nm), ["S", "u32"], RET.get(k, "S"),
           lambda c, a, n, right=right, k=k: shift(c, a, n, right, k),
           signs="i" if k == "overflowing" else "ui")
    for t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        mk("%s_%s" % (nm, t), "a0 %s a1" % sym, ["S", t], "S",
           lambda c, a, n, right=right, t=t: shift(c, a, n, right, "", t), ovf_dep=True,
           tier="quick" if t in ("u8", "u32", "i8", "i32", "u128", "i128", "usize") else "thorough")
    mk("%s_self" % nm, "a0 %s a1" % sym, ["S", "S"], "S",
       lambda c, a, n, right=right: shift(c, a, n, right, "", "S"), ovf_dep=True)
    mk("%s_assign" % nm, "let mut x = a0; x %s= a1; x" % sym, ["S", "i64"], "S",
       lambda c, a, n, right=right: shift(c, a, n, right, "", "i64"), ovf_dep=True)
    mk("%s_ref" % nm, "a0 %s &a1" % sym, ["S", "u16"], "S",
       lambda c, a, n, right=right: shift(c, a, n, right, "", "u16"), ovf_dep=True)


def rot(c, a, n, right):
    k, cases = amount(c, n)
    k = fit(c, k)
    r = T.sub(c.k(c.bits), k)
    if right:
        k, r = r, k
    # a shift by the full width yields zero
    return R(T.or_(T.shl(a, k), T.lshr(a, r)), cases=cases)


mk("rotate_left", "a0.rotate_left(a1)", ["S", "u32"], "S", lambda c, a, n: rot(c, a, n, 0))
mk("rotate_right", "a0.rotate_right(a1)", ["S", "u32"], "S", lambda c, a, n: rot(c, a, n, 1))

# ------------------------------------------------------------- comparisons
mk = adder(CMP, "bvi")


def ordv(c, a, b):
    return T.ite(c.lt(a, b), T.const(-1, 8), T.ite(T.eq(a, b), T.const(0, 8), T.const(1, 8)))


for nm, f in (("eq", lambda c, a, b: T.eq(a, b)), ("ne", lambda c, a, b: T.ne(a, b)),
              ("lt", lambda c, a, b: c.lt(a, b)), ("le", lambda c, a, b: T.not_(c.lt(b, a))),
              ("gt", lambda c, a, b: c.lt(b, a)), ("ge", lambda c, a, b: T.not_(c.lt(a, b)))):
    sym = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[nm]
    mk(nm, "a0 %s a1" % sym, ["S", "S"], "bool", lambda c, a, b, f=f: R(f(c, a, b)))
    if nm != "ne":
        mk(nm + "_const", "a0.%s_const(a1)" % nm, ["S", "S"], "bool", lambda c, a, b, f=f: R(f(c, a, b)))
mk("cmp", "Ord::cmp(&a0, &a1)", ["S", "S"], "ord", lambda c, a, b: R(ordv(c, a, b)))
mk("cmp_const", "a0.cmp_const(a1)", ["S", "S"], "ord", lambda c, a, b: R(ordv(c, a, b)))
mk("partial_cmp", "PartialOrd::partial_cmp(&a0, &a1)", ["S", "S"], "?ord", lambda c, a, b: R(Opt(T.TRUE, ordv(c, a, b))))
mk("max", "Ord::max(a0, a1)", ["S", "S"], "S", lambda c, a, b: R(T.ite(c.lt(a, b), b, a)))
mk("min", "Ord::min(a0, a1)", ["S", "S"], "S", lambda c, a, b: R(T.ite(c.lt(a, b), a, b)))
mk("clamp", "Ord::clamp(a0, a1, a2)", ["S", "S", "S"], "S",
   lambda c, a, l, h: R(T.ite(c.lt(a, l), l, T.ite(c.lt(h, a), h, a)), panic=c.lt(h, l)))

# -------------------------------------------------------------------- bits
mk = adder(BITS, "bvi")


def ctz(a, c, at=0):
    """Trailing zero count, from the lowest limb up."""
    lo = T.extract(a, at, c.limb)
    here = T.zext(T.cttz(lo), 32) if c.limb <= 32 else T.extract(T.cttz(lo), 0, 32)
    here = T.add(here, T.const(at, 32))
    return here if at + c.limb >= a.w else T.ite(nz(lo), here, ctz(a, c, at + c.limb))


def clz(a, c, at=0):
    hi = T.extract(a, a.w - c.limb - at, c.limb)
    here = T.add(T.extract(T.ctlz(hi), 0, 32), T.const(at, 32))
    return here if at + c.limb >= a.w else T.ite(nz(hi), here, clz(a, c, at + c.limb))


def cnt(f):
    return lambda c, a: R(T.extract(f(a), 0, 32))


mk("count_ones", "a0.count_ones()", ["S"], "u32", cnt(T.ctpop))
mk("count_zeros", "a0.count_zeros()", ["S"], "u32", cnt(lambda a: T.ctpop(T.bvnot(a))))
mk("leading_zeros", "a0.leading_zeros()", ["S"], "u32", lambda c, a: R(clz(a, c)))
mk("leading_ones", "a0.leading_ones()", ["S"], "u32", lambda c, a: R(clz(T.bvnot(a), c)))
mk("trailing_zeros", "a0.trailing_zeros()", ["S"], "u32", lambda c, a: R(ctz(a, c)))
mk("trailing_ones", "a0.trailing_ones()", ["S"], "u32", lambda c, a: R(ctz(T.bvnot(a), c)))
for nm, sym, f in (("bitand", "&", T.and_), ("bitor", "|", T.or_), ("bitxor", "^", T.xor_)):
    g = lambda c, a, b, f=f: R(f(a, b))     # noqa: E731
    mk(nm, "a0 %s a1" % sym, ["S", "S"], "S", g)
    mk(nm + "_const", "a0.%s_const(a1)" % nm, ["S", "S"], "S", g)
    mk(nm + "_assign", "let mut x = a0; x %s= a1; x" % sym, ["S", "S"], "S", g)
    mk(nm + "_ref", "a0 %s &a1" % sym, ["S", "S"], "S", g)
mk("not", "!a0", ["S"], "S", lambda c, a: R(T.bvnot(a)))
mk("not_const", "a0.not_const()", ["S"], "S", lambda c, a: R(T.bvnot(a)))
mk("swap_bytes", "a0.swap_bytes()", ["S"], "S", lambda c, a: R(T.bswap(a)))
mk("reverse_bits", "a0.reverse_bits()", ["S"], "S", lambda c, a: R(T.bitreverse(a)))
mk("is_even", "a0.is_even()", ["S"], "bool", lambda c, a: R(T.not_(T.extract(a, 0, 1))))
mk("is_odd", "a0.is_odd()", ["S"], "bool", lambda c, a: R(T.extract(a, 0, 1)))
mk("low", "a0.low()", ["S"], "S", lambda c, a: R(T.zext(T.extract(a, 0, c.bits // 2), c.bits)), signs="u")
mk("high", "a0.high()", ["S"], "S", lambda c, a: R(T.zext(T.extract(a, c.bits // 2, c.bits // 2), c.bits)), signs="u")
mk("is_power_of_two", "a0.is_power_of_two()", ["S"], "bool",
   lambda c, a: R(T.and_(nz(a), isz(T.and_(a, T.sub(a, c.k(1)))))), signs="u")


def npot(c, a, kind):
    """The smallest power of two not below a, characterised bit by bit."""
    over = T.ugt(a, T.const(1 << (c.bits - 1), c.bits))

    def good(v):
        half = T.lshr(v, c.k(1))
        return T.and_(T.and_(nz(v), isz(T.and_(v, T.sub(v, c.k(1))))),
                      T.and_(T.uge(v, a), T.or_(T.eq(v, c.k(1)), T.ult(half, a))))
    if kind == "checked":
        return R(rel=lambda o: [("present unless too large", T.eq(o.c, T.not_(over))),
                                ("value", T.or_(T.not_(o.c), good(o.v)))])
    rel = lambda v: [("value", T.ite(over, isz(v), good(v)))]   # noqa: E731
    if kind == "wrapping":
        return R(rel=rel)
    return R(rel=rel, panic=over if c.ovf else T.FALSE)


def top_splits(c, tier):
    n = c.bits // c.limb
    return [(k, "top limb %d" % k) for k in range(n + 1)]


def top_args(c, k):
    """One value whose highest nonzero limb is limb k-1 (k = 0: zero)."""
    t = None
    for i in range(c.bits // c.limb):
        if i >= k:
            v = T.const(0, c.limb)
        elif i == k - 1:
            v = T.var("a0_%d" % i, c.limb, 1)
        else:
            v = T.var("a0_%d" % i, c.limb)
        t = v if t is None else T.concat(v, t)
    return [("S", t)], T.TRUE


for k in ("checked", "wrapping", ""):
    nm = (k + "_next_power_of_two").strip("_")
    mk(nm, "a0.%s()" % nm, ["S"], RET[k], lambda c, a, k=k: npot(c, a, k), signs="u", ovf_dep=(k == ""),
       splits=top_splits, mkargs=top_args, validate=2)
mk("checked_ilog2", "a0.checked_ilog2()", ["S"], "?u32",
   lambda c, a: R(Opt(T.sgt(a, c.k(0)) if c.signed else nz(a),
                      T.sub(T.const(c.bits - 1, 32), clz(a, c)))))
mk("ilog2", "a0.ilog2()", ["S"], "u32",
   lambda c, a: R(T.sub(T.const(c.bits - 1, 32), clz(a, c)),
                  panic=T.not_(T.sgt(a, c.k(0)) if c.signed else nz(a))))
mk("least_significant_limb", "a0.least_significant_limb()", ["S"], "ulimb", lambda c, a: R(T.extract(a, 0, c.limb)))
mk("most_significant_limb", "a0.most_significant_limb() as $ulimb", ["S"], "ulimb",
   lambda c, a: R(T.extract(a, c.bits - c.limb, c.limb)))


def part(c, a, i, w, clamp):
    n = c.bits // w
    v = T.const(0, w)
    for k in range(n):
        v = T.ite(T.eq(i, T.const(k, 64)), T.extract(a, k * w, w), v)
    return R(v, panic=T.uge(i, T.const(n, 64)))


mk("get_limb", "a0.get_limb(a1)", ["S", "usize"], "ulimb", lambda c, a, i: part(c, a, i, c.limb, 0))
mk("get_wide", "a0.get_wide(a1)", ["S", "usize"], "uwide", lambda c, a, i: part(c, a, i, 2 * c.limb, 0))

# --------------------------------------------------------------- encodings
mk = adder(ENC, "bvi")


def words(a, w, be):
    r = [T.extract(a, i, w) for i in range(0, a.w, w)]
    return list(reversed(r)) if be else r


def unwords(ws, be):
    ws = list(reversed(ws)) if be else list(ws)
    t = ws[0]
    for x in ws[1:]:
        t = T.concat(x, t)
    return t


def arr(c, t):
    w = c.W(t)
    return "[%s;%d]" % (t, c.bits // w)


def enc(suf, t):
    for e in ("be", "le", "ne"):
        be = e == "be"
        mk("to_%s_%s" % (e, suf), "a0.to_%s_%s()" % (e, suf), ["S"], lambda c, t=t: arr(c, t),
           lambda c, a, t=t, be=be: R(words(a, c.W(t), be)))

        def src(c, nm, e=e, t=t, suf=suf):
            w = c.W(t)
            n = c.bits // w
            ls = ["#[no_mangle] #[inline(never)]", "pub unsafe fn p_%s(out: *mut u8, inp: *const u8) {" % nm,
                  "    let mut a = [0 as %s; %d];" % (c.rust(t), n)]
            for i in range(n):
                ls.append("    a[%d] = <%s>::from_le_bytes(*(inp.add(%d) as *const [u8; %d]));"
                          % (i, c.rust(t), i * w // 8, w // 8))
            ls += ["    let r = %s::from_%s_%s(a);" % (c.name, e, suf),
                   "    *(out as *mut [u8; %d]) = r.to_le_bytes();" % (c.bits // 8), "}"]
            return "\n".join(ls)

        def mka(c, split, t=t):
            w = c.W(t)
            return [(t, T.var("w%d" % i, w)) for i in range(c.bits // w)], T.TRUE
        mk("from_%s_%s" % (e, suf), "from_%s_%s(a)" % (e, suf), [], "S",
           lambda c, *ws, be=be: R(unwords(ws, be)), source=src, mkargs=mka)


enc("bytes", "u8")
enc("limbs", "ulimb")
enc("wide", "uwide")
enc("u32", "u32")
enc("u64", "u64")
mk("from_be", "$S::from_be(a0)", ["S"], "S", lambda c, a: R(T.bswap(a)))
mk("from_le", "$S::from_le(a0)", ["S"], "S", lambda c, a: R(a))
mk("to_be", "a0.to_be()", ["S"], "S", lambda c, a: R(T.bswap(a)))
mk("to_le", "a0.to_le()", ["S"], "S", lambda c, a: R(a))
for e in ("be", "le", "ne"):
    for s in ("bytes", "limbs", "wide", "u32", "u64"):
        mk("rt_%s_%s" % (e, s), "$S::from_%s_%s(a0.to_%s_%s())" % (e, s, e, s), ["S"], "S", lambda c, a: R(a))

# ------------------------------------------------------------- conversions
mk = adder(CONV, "bvi")
PR = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]
for t in PR + ["ulimb", "uwide", "ilimb", "iwide"]:
    mk("from_" + t, "$S::from_%s(a0)" % t, [t], "S", lambda c, a, t=t: R(c.conv(a, t, "S")))
    mk("as_" + t, "a0.as_%s()" % t, ["S"], t, lambda c, a, t=t: R(c.conv(a, "S", t)))
mk("from_unsigned", "$S::from_unsigned(a0)", ["U"], "S", lambda c, a: R(a))
mk("from_signed", "$S::from_signed(a0)", ["I"], "S", lambda c, a: R(a))
mk("as_unsigned", "a0.as_unsigned()", ["S"], "U", lambda c, a: R(a))
mk("as_signed", "a0.as_signed()", ["S"], "I", lambda c, a: R(a))
mk("cast_signed", "a0.cast_signed()", ["S"], "I", lambda c, a: R(a), signs="u")
mk("cast_unsigned", "a0.cast_unsigned()", ["S"], "U", lambda c, a: R(a), signs="i")
for t in PR + ["bool"]:
    if t[0] == "i":
        mk("From_" + t, "<$S as From<%s>>::from(a0)" % t, [t], "S", lambda c, a, t=t: R(c.conv(a, t, "S")), signs="i")
        mk("TryFrom_" + t, "<$S as TryFrom<%s>>::try_from(a0)" % t, [t], "!S",
           lambda c, a, t=t: R(Opt(T.not_(T.sign(a)), c.conv(a, t, "S"))), signs="u")
    else:
        mk("From_" + t, "<$S as From<%s>>::from(a0)" % t, [t], "S", lambda c, a, t=t: R(c.conv(a, t, "S")))
mk("From_char", "<$S as From<char>>::from(char::from_u32_unchecked(a0))", ["u32"], "S",
   lambda c, a: R(T.zext(a, c.bits),
                  pre=T.and_(T.ult(a, T.const(0x110000, 32)),
                             T.not_(T.and_(T.uge(a, T.const(0xd800, 32)), T.ule(a, T.const(0xdfff, 32)))))))
mk("TryFrom_signed", "<$S as TryFrom<$I>>::try_from(a0)", ["I"], "!S", lambda c, a: R(Opt(T.not_(T.sign(a)), a)), signs="u")
mk("TryFrom_unsigned", "<$S as TryFrom<$U>>::try_from(a0)", ["U"], "!S", lambda c, a: R(Opt(T.not_(T.sign(a)), a)), signs="i")
mk("min_value", "let _ = a0; $S::min_value()", ["bool"], "S", lambda c, a: R(c.mn()))
mk("max_value", "let _ = a0; $S::max_value()", ["bool"], "S", lambda c, a: R(c.mx()))
mk("MIN", "let _ = a0; $S::MIN", ["bool"], "S", lambda c, a: R(c.mn()))
mk("MAX", "let _ = a0; $S::MAX", ["bool"], "S", lambda c, a: R(c.mx()))
mk("Default", "let _ = a0; <$S as Default>::default()", ["bool"], "S", lambda c, a: R(c.k(0)))
mk("consts", "let _ = a0; $S::BITS", ["bool"], "u32", lambda c, a: R(T.const(c.bits, 32)))
