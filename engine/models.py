"""Stand-ins for calls whose behaviour is an obligation of its own.

A model replaces the body of a public method of the type under test by its
specification while a *derived* operation is executed.  The method itself is
decided without models in the same check, so nothing is assumed that is not
also established.  When the derived operation does not call the method (any
more), the model is simply not used.
"""
import term as T


def sym(tname, method):
    return r"%d%s%d%s(Cs\w+_5probe)?\"?$" % (len(tname), tname, len(method), method)


def put(ex, s, p, off, v, limb):
    n = v.w // 8
    step = limb // 8
    if n > step and n % step == 0:
        for k in range(n // step):
            ex.store_bytes(s, ex.padd(p, off + k * step), step, T.extract(v, 8 * step * k, 8 * step))
    else:
        ex.store_bytes(s, ex.padd(p, off), n, v)
    return off + n


def big(ex, s, p, c):
    n = c.limb // 8
    t = None
    for k in range(c.bits // c.limb):
        x = ex.force(ex.load_bytes(s, ex.padd(p, k * n), n), 8 * n)
        t = x if t is None else T.concat(x, t)
    return t


def method(c, fn, outs):
    """Model of fn(a, b) with both operands and the result tuple in memory."""
    def h(ex, s, i, args):
        dst = args[0]
        vs = [big(ex, s, p, c) if not isinstance(p, T.Term) else p for p in args[1:]]
        rs = fn(c, *vs)
        if isinstance(rs, tuple) and rs[0] == "panic":
            _, cond, rs = rs
            s = guarded(ex, s, cond)
            if s is None:
                return None, None
        off = 0
        for r in rs:
            if r.w == 1:
                r = T.zext(r, 8)
            off = put(ex, s, dst, off, r, c.limb)
        return s, None
    return h


def guarded(ex, s, cond):
    """Record a panic under cond and continue under its negation."""
    if cond is T.FALSE:
        return s
    ex.outcome(s, cond, "panic", "model")
    if cond is T.TRUE:
        return None
    s.lits = s.lits + (T.not_(cond),)
    return s


def umul(c, a, b):
    X = T.mul(T.zext(a, 2 * c.bits), T.zext(b, 2 * c.bits))
    return X


def imul(c, a, b):
    return T.mul(T.sext(a, 2 * c.bits), T.sext(b, 2 * c.bits))


def prod(c, a, b):
    return imul(c, a, b) if c.signed else umul(c, a, b)


def mul_o(c, a, b):
    X = prod(c, a, b)
    return [T.extract(X, 0, c.bits), T.not_(c.fits(X, "S")) if c.signed else
            T.ne(T.extract(X, c.bits, c.bits), T.const(0, c.bits))]


def udivrem(c, x, y):
    """Quotient and remainder of unsigned values, panicking on zero."""
    return ("panic", T.eq(y, T.const(0, y.w)), [T.udiv(x, y), T.urem(x, y)])


def div_rem(c, a, b):
    """Truncated division, wrapping."""
    if not c.signed:
        return udivrem(c, a, b)
    sa, sb = T.sign(a), T.sign(b)
    k, z, (q, r) = udivrem(c, T.ite(sa, T.neg(a), a), T.ite(sb, T.neg(b), b))
    return k, z, [T.ite(T.xor_(sa, sb), T.neg(q), q), T.ite(sa, T.neg(r), r)]


def scalar(ex, s, p, w):
    return p if isinstance(p, T.Term) else ex.force(ex.load_bytes(s, p, w // 8), w)


def sdiv(c, w):
    """Model of the division of a limb array by a primitive of width w."""
    def h(ex, s, i, args):
        dst, x, y = args[0], big(ex, s, args[1], c), scalar(ex, s, args[2], w)
        s = guarded(ex, s, T.eq(y, T.const(0, w)))
        if s is None:
            return None, None
        y = T.zext(y, x.w)
        off = put(ex, s, dst, 0, T.udiv(x, y), c.limb)
        put(ex, s, dst, (off + w // 8 - 1) // (w // 8) * (w // 8), T.extract(T.urem(x, y), 0, w), c.limb)
        return s, None
    return h


def smul(c, t, ovf):
    def h(ex, s, i, args):
        w = c.W(t)
        dst, a, n = args[0], big(ex, s, args[1], c), scalar(ex, s, args[2], w)
        X = T.mul(c.ext(a, "S", 2 * c.bits), c.ext(n, t, 2 * c.bits))
        off = put(ex, s, dst, 0, T.extract(X, 0, c.bits), c.limb)
        if ovf:
            f = T.not_(c.fits(X, "S")) if c.signed else T.ne(T.extract(X, c.bits, c.bits), T.const(0, c.bits))
            put(ex, s, dst, off, T.zext(f, 8), c.limb)
        return s, None
    return h


def get(name, c, mod):
    if name == "sdiv":
        return {r"3div4limbKj": sdiv(c, c.limb), r"3div4wideKj": sdiv(c, 2 * c.limb), r"3div9from_u128Kj": sdiv(c, 128)}
    if name == "smul":
        ts = ["ulimb", "uwide", "u32", "u64", "u128"]
        ts += ["i" + t[1:] for t in ts] if c.signed else []
        m = {}
        for t in ts:
            m[sym(c.name, "wrapping_mul_" + t)] = smul(c, t, False)
            m[sym(c.name, "overflowing_mul_" + t)] = smul(c, t, True)
        return m
    if name == "full":
        # division of equally long limb arrays: decided for the unsigned type
        return {r"3div4fullKj": method(c, udivrem, 2)}
    if name == "div":
        return {sym(c.name, "wrapping_div_rem"): method(c, div_rem, 2), r"3div4fullKj": method(c, udivrem, 2)}
    if name == "mul":
        return {sym(c.name, "overflowing_mul"): method(c, mul_o, 2),
                sym(c.name, "wrapping_mul"): method(c, lambda c, a, b: mul_o(c, a, b)[:1], 1)}
    if name == "add":
        # wrapping addition and subtraction are obligations of P01
        return {sym(c.name, "wrapping_add"): method(c, lambda c, a, b: [T.add(a, b)], 1),
                sym(c.name, "wrapping_sub"): method(c, lambda c, a, b: [T.sub(a, b)], 1)}
    if name == "neg":
        # P01
        return {sym(c.name, "wrapping_neg"): method(c, lambda c, a: [T.neg(a)], 1),
                sym(c.name, "wrapping_abs"): method(c, lambda c, a: [T.ite(T.sign(a), T.neg(a), a)], 1)}
    if name == "addlimb":
        # P04
        return {sym(c.name, "wrapping_add_ulimb"): method(c, lambda c, a, b: [T.add(a, T.zext(b, a.w))], 1),
                sym(c.name, "wrapping_sub_ulimb"): method(c, lambda c, a, b: [T.sub(a, T.zext(b, a.w))], 1)}
    raise KeyError(name)
