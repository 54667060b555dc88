"""Reading and writing numerals.

The arithmetic steps of the conversions (multiply by the radix, add a digit,
divide by the radix) are decided elsewhere; here a value is followed by what
it denotes: the number spelled by the first k digits of the text, or the
number left after k divisions.
"""
import functools
import random
import term as T
import models
from core import Op, bigvar
from ops_pow import Tags, iroot, env_of, first, limbvars
from spec import R

PARSE, WRITE = [], []
EMPTY, DIGIT, POS, NEG = 1, 2, 3, 4


# ----------------------------------------------------------------- parsing
CLASS = {"low": (0, 0x2a), "plus": (0x2b, 0x2b), "comma": (0x2c, 0x2c), "minus": (0x2d, 0x2d), "rest": (0x2e, 0xff)}


def lens(c, tier, lo, hi):
    """Text lengths: all short ones, and those around every limit."""
    N = c.bits
    top = lambda r: next(k for k in range(1, N + 2) if r ** k >= 1 << (N - c.signed))
    ls = set(range(0, 5))
    if tier == "quick":
        # the common radices and the lengths that always fit
        main = N == 256 and c.limb == 64
        for r in ({10, 16, 17, 36} if main else {10, 36}) & set(range(lo, hi + 1)):
            ls |= {top(r) - 1, top(r), top(r) + 1}
        if lo == 2 and main:
            ls |= {top(2), top(2) + 1}
        ls |= {N // 4 - 1, N // 4, N // 4 + 1} if hi <= 16 else {N // 8, N // 8 + 1}
    else:
        ls |= set(range(0, 24)) | {N // 8, N // 8 + 1, N // 4 - 1, N // 4, N // 4 + 1}
        for r in {5, 8, 10, 12, 16, 17, 24, 32, 36} & set(range(lo, hi + 1)):
            ls |= {top(r) - 1, top(r), top(r) + 1}
        if lo == 2 and N == 256 and c.limb == 64:
            ls |= {top(2), top(2) + 1}
    return sorted(ls)


RADIX = {"10": (2, 10), "16": (11, 16), "36": (17, 36)}
BAD = {"under": (0, 1), "over": (37, (1 << 32) - 1)}


def parse_splits(c, tier):
    out = []
    for n in (0, 1, 2, 3, c.bits):
        for r in BAD:
            out.append(((n, "rest" if n else "", r), "%d characters, radix %s range" % (n, r)))
    for r in RADIX:
        out += numerals(c, tier, r, lens(c, tier, *RADIX[r]))
    return out


def numerals(c, tier, r, ls):
    out = []
    for n in ls:
        if n == 0:
            out.append(((0, "", r), "no characters, radix up to %s" % r))
            continue
        for k in CLASS:
            if k in ("low", "comma") and n > 3 or k == "minus" and n > 3 and not c.signed:
                continue
            if n > 200 and k != ("minus" if c.signed else "rest"):
                continue
            # digits, not characters
            m = n + 1 if k in ("plus", "minus") and n > 4 else n
            out.append(((m, k, r), "%d characters, first %s, radix up to %s" % (m, k, r)))
    return out


def ten_splits(c, tier):
    ls = lens(c, tier, 10, 10)
    if tier == "quick":
        ls += [8, 37, 38, 39, 40]
    return numerals(c, tier, "ten", ls)


def parse_args(c, split):
    n, k, r = split
    radix = T.var("radix", 32, *(RADIX.get(r) or BAD[r])) if r != "ten" else T.const(10, 32)
    out = [("u32", T.const(n, 32)), ("u32", radix)]
    for i in range(n):
        lo, hi = CLASS[k] if i == 0 else (0, 255)
        out.append(("u8", T.const(lo, 8) if lo == hi else T.var("b%d" % i, 8, lo, hi)))
    c.first = k
    return out, T.TRUE


def bad(radix):
    return T.not_(T.and_(T.ule(T.const(2, 32), radix), T.ule(radix, T.const(36, 32))))


def digit(b):
    """Value of a character as a digit, 255 when it is none."""
    def rng(lo, hi):
        return T.and_(T.ule(T.const(ord(lo), 8), b), T.ule(b, T.const(ord(hi), 8)))

    def off(ch, k):
        return T.add(b, T.const(k - ord(ch), 8))
    return T.ite(rng("0", "9"), off("0", 0), T.ite(rng("A", "Z"), off("A", 10), T.ite(rng("a", "z"), off("a", 10),
                                                                                      T.const(255, 8))))


class Numeral(Tags):
    """Prefixes of a numeral: tag (k, pending, condition)."""

    def __init__(self, c, ds, radix, neg):
        Tags.__init__(self, c)
        self.ds, self.radix, self.neg = ds, radix, neg
        self.extra = []
        n = len(ds)
        # value of the first k digits; does it (before and after adding) fit
        self.val = [c.k(0)] + [bigvar(c, "s%d" % k, c.bits) for k in range(1, n + 1)]
        self.fit = [T.TRUE] + [T.var("f%d" % k, 1) for k in range(1, n + 1)]
        self.mid = [T.TRUE] + [T.var("g%d" % k, 1) for k in range(1, n + 1)]
        lim = 1 << (c.bits - c.signed)
        self.lemmas = []
        for k in range(1, n + 1):
            self.lemmas += [T.implies(self.fit[k], self.mid[k]), T.implies(self.mid[k], self.fit[k - 1])]
            # radix^k <= limit: k digits always fit
            m = min(36, iroot(lim, k))
            if m >= 2:
                self.lemmas.append(T.implies(T.ule(radix, T.const(m, 32)), self.fit[k]))
        self.tag(self.val[0], (0, False, T.TRUE))

    def join(self, c, a, b):
        if a[:2] == b[:2]:
            return (a[0], a[1], T.ite(c, a[2], b[2]))
        # the later one; the other is left over from before
        if (a[0], not a[1]) > (b[0], not b[1]):
            return self.half(c, a)
        return self.half(T.not_(c), b)

    def half(self, c, a):
        # nothing is known otherwise
        return (a[0], a[1], T.and_(c, a[2]))

    def mul(self, c, x, n):
        k = self.of(x)
        if k is None or k[1] or k[0] >= len(self.ds):
            return [self.block(), T.fresh(1)]
        i, _, ok = k
        ok = T.and_(ok, T.eq(n, T.zext(self.radix, n.w)))
        f = T.ite(T.and_(ok, self.fit[i]), T.not_(self.mid[i + 1]), T.fresh(1))
        return [self.block((i + 1, True, ok)), f]

    def step(self, neg):
        def f(c, x, d):
            k = self.of(x)
            if k is None or not k[1] or neg != self.neg:
                return [self.block(), T.fresh(1)]
            i, _, ok = k
            ok = T.and_(ok, T.eq(d, T.zext(self.ds[i - 1], d.w)))
            b = self.block((i, False, ok))
            self.lemmas.append(T.implies(ok, T.eq(b, self.val[i])))
            return [b, T.ite(T.and_(ok, self.mid[i]), T.not_(self.fit[i]), T.fresh(1))]
        return f


def digit_model(num):
    """Classification of one character: the body of the function is executed
    once for any character, its agreement with the definition of a digit is an
    obligation of its own."""
    seen = {}

    def h(ex, s, i, args):
        name = i.x[0][1]
        if len(args) != 2 or not all(isinstance(x, T.Term) for x in args) or (args[0].w, args[1].w) != (8, 32):
            return ex.call(name, args, s)
        b, r = args
        k = (name, r.lo, r.hi)
        if k not in seen:
            n = len(seen)
            bg, rg = T.var("any%d" % n, 8), T.var("in%d" % n, 32, *k[1:])
            st = s.fork()
            st.lits = ()
            fin, v = ex.call(name, [bg, rg], st)
            seen[k] = ok = fin is not None and isinstance(v, tuple) and len(v) == 2 and \
                all(isinstance(x, T.Term) and x.w == 32 for x in v)
            if ok:
                good = T.ult(T.zext(digit(bg), 32), rg)
                num.extra.append(("digits", T.and_(T.eq(v[0], T.zext(good, 32)),
                                                   T.implies(good, T.eq(v[1], T.zext(digit(bg), 32))))))
        if not seen[k]:
            return ex.call(name, args, s)
        d = T.zext(digit(b), 32)
        return s, (T.zext(T.ult(d, r), 32), d)
    return h


def core_parse(c, signed):
    """The standard library's parser of 128-bit integers, on texts that cannot
    overflow it."""
    def h(ex, s, i, args):
        name = i.x[0][1]
        dst, src, n = args
        if c.dec is None or not T.isc(n) or n.p != len(c.dec.bs):
            return ex.call(name, args, s)
        bs = [ex.force(ex.load_bytes(s, ex.padd(src, k), 1), 8) for k in range(n.p)]
        if bs != c.dec.bs or c.dec.neg and not signed:
            return ex.call(name, args, s)
        # Result<_, ParseIntError>: kind 1 is InvalidDigit
        x = T.zext(c.dec.x, 128)
        ex.store_bytes(s, dst, 1, T.zext(T.not_(c.dec.ok), 8))
        ex.store_bytes(s, ex.padd(dst, 1), 1, T.const(1, 8))
        ex.store_bytes(s, ex.padd(dst, 16), 16, T.neg(x) if c.dec.neg else x)
        return s, None
    return h


class Decimal:
    """A text of decimal digits: is it one, and its magnitude."""

    def __init__(self, bs, ds, neg):
        self.bs, self.neg = bs, neg
        self.x = T.var("dec", 127, 0, 10 ** len(ds) - 1)
        self.full, self.ok = T.const(0, 127), T.TRUE
        for d in ds:
            self.full = T.add(T.mul(self.full, T.const(10, 127)), T.zext(d, 127))
            self.ok = T.and_(self.ok, T.ult(d, T.const(10, 8)))


def parse_models(c):
    if c.num is None:
        return {r"4core3num%s.*7FromStr8from_str" % k: core_parse(c, k == "n") for k in "no"}
    m = {r"5parse13char_to_digit\"?$": digit_model(c.num)}
    for op, fn in (("mul", c.num.mul), ("add", c.num.step(False)), ("sub", c.num.step(True))):
        m[models.sym(c.name, "overflowing_%s_ulimb" % op)] = models.method(c, fn, 2)
        m[models.sym(c.name, "wrapping_%s_ulimb" % op)] = models.method(c, lambda c, x, n, fn=fn: fn(c, x, n)[:1], 1)
    return m


def parse_spec():
    def f(c, *args):
        bs, radix = list(args[2:]), args[1]
        c.num = c.dec = None
        if bad(radix) is T.TRUE:
            return R(rel=lambda o: [], panic=T.TRUE)

        def result(ok, kind, val, anykind=False):
            def rel(o):
                tag, k, v = o
                gs = [("accepted exactly when valid", T.eq(tag, T.zext(ok, 8)))]
                if not anykind:
                    gs.append(("kind of error", T.or_(ok, T.eq(k, kind))))
                gs.append(("value", T.or_(T.not_(ok), T.eq(v, val))))
                return gs
            return R(rel=rel)
        e8 = lambda k: T.const(k, 8)
        if not bs:
            return result(T.FALSE, e8(EMPTY), c.k(0))
        neg = c.first == "minus"
        if neg and not c.signed:
            # some error
            return result(T.FALSE, e8(0), c.k(0), True)
        ds = [digit(b) for b in bs[1 if c.first in ("plus", "minus") else 0:]]
        if not ds:
            return result(T.FALSE, e8(DIGIT), c.k(0))
        if T.isc(radix) and len(bs) < 39:
            # handled by the parser of the 128-bit type: a few digits in full
            dec = Decimal(bs, ds, neg)
            x = dec.full
            if len(bs) > 4:
                c.dec, x = dec, dec.x
            x = T.zext(x, c.bits)
            r = result(dec.ok, e8(DIGIT), T.neg(x) if neg else x)
            if c.dec:
                r.tagged = True
                r.defs.append(([dec.x], dec.full))
            return r
        num = c.num = Numeral(c, ds, radix, neg)
        over = e8(NEG if neg else POS)
        ok, kind = num.fit[-1], e8(0)
        for k in range(len(ds), 0, -1):
            v = T.ult(T.zext(ds[k - 1], 32), radix)
            ok = T.and_(ok, v)
            kind = T.ite(T.not_(v), e8(DIGIT), T.ite(T.not_(num.fit[k]), over, kind))
        r = result(ok, kind, num.val[-1])
        r.lemmas, r.extra, r.tagged = num.lemmas, num.extra, True
        W = c.bits + 16
        lim = T.const((1 << (c.bits - c.signed)) - (0 if neg else 1), W)
        cap = T.const(1 << (c.bits + 1), W)
        x = T.const(0, W)
        for k, d in enumerate(ds, 1):
            x = T.add(T.mul(x, T.zext(radix if radix.w <= 8 else T.extract(radix, 0, 8), W)), T.zext(d, W))
            x = T.ite(T.ult(cap, x), cap, x)
            r.defs.append(([num.fit[k]], T.ule(x, lim)))
        v = T.extract(x, 0, c.bits)
        r.defs.append((limbvars(num.val[-1], c), T.neg(v) if neg else v))
        return r
    return f


def parse_source(call):
    def f(c, nm):
        return """#[no_mangle] #[inline(never)]
pub unsafe fn p_%s(out: *mut u8, inp: *const u8) {
    let n = u32::from_le_bytes(*(inp as *const [u8; 4])) as usize;
    let radix = u32::from_le_bytes(*(inp.add(4) as *const [u8; 4]));
    let s = core::str::from_utf8_unchecked(core::slice::from_raw_parts(inp.add(8), n));
    match %s {
        Ok(v) => { *out = 1; *(out.add(2) as *mut [u8; %d]) = v.to_le_bytes(); }
        Err(e) => *out.add(1) = match e.kind() {
            IntErrorKind::Empty => 1, IntErrorKind::InvalidDigit => 2, IntErrorKind::PosOverflow => 3,
            IntErrorKind::NegOverflow => 4, _ => 5 },
    }
}
""" % (nm, call.replace("$S", c.name), c.bits // 8)
    return f


def texts(P):
    """Inputs of the shape of the split to try on the real code."""
    c = P.job.c
    n, k, r = P.job.split
    lo, hi = RADIX.get(r, (10, 10))
    rng = random.Random(P.job.key)
    al = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    lim = 1 << (c.bits - c.signed)
    sign = k in ("plus", "minus")
    nd = n - sign
    for radix in sorted({2, 3, 8, 10, 11, 16, 17, 32, 35, 36, rng.randint(lo, hi)} & set(range(lo, hi + 1))):
        ds = b"0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
        # digits of the values around the limit, padded with zeros
        for v in () if n < 3 else (lim - 1, lim, lim + 1, lim * radix, lim // radix, lim // radix + 1):
            t, x = b"", v
            while x:
                t = ds[x % radix:x % radix + 1] + t
                x //= radix
            if 0 < len(t) <= nd:
                yield radix, b"0" * (nd - len(t)) + t
                yield radix, b"0" * (nd - len(t)) + t.upper()
        for _ in range(3):
            t = bytes(rng.choice(ds) for _ in range(nd))
            yield radix, t
            if nd:
                i = rng.randrange(nd)
                for ch in (b"/", b":", b"@", b"[", b"`", b"{", b"_", b"-", b"+", b" ", b"\0", b"\xff", al[radix:radix + 1] or b"!"):
                    yield radix, t[:i] + ch + t[i + 1:]
        if nd:
            yield radix, ds[-1:] * nd
            yield radix, b"1" + b"0" * (nd - 1)
            yield radix, b"z" * nd


def text_envs(P):
    n, k, r = P.job.split
    lo, hi = CLASS[k] if n else (0, 0)
    for radix in () if r not in BAD else (0, 1) if r == "under" else (37, 1 << 31, (1 << 32) - 1):
        e = {"radix": radix}
        e.update({"b%d" % i: min(max(48, lo), hi) if i == 0 else 48 for i in range(n)})
        yield e
    sign = k in ("plus", "minus")
    for radix, t in texts(P) if r not in BAD else ():
        if sign:
            t = b"?" + t
        e = {"radix": radix}
        e.update({"b%d" % i: x for i, x in enumerate(t)})
        if n and not sign:
            e["b0"] = min(max(e["b0"], lo), hi)
        yield e


def text_lift(P, lab, env, roots):
    n, k, r = P.job.split
    tries = []
    for a in env or ():
        if a.startswith("any"):
            # a character treated wrongly, in every position
            for i in range(n):
                e = {"b%d" % j: 49 for j in range(n)}
                e.update({"b%d" % i: env[a], "radix": env.get("in" + a[3:], 10)})
                lo, hi = CLASS[k]
                e["b0"] = min(max(e["b0"], lo), hi)
                tries.append(e)
    return first(P, tries + list(text_envs(P)))


def text_prepare(P):
    P.lift_fn, P.nohunt = text_lift, True


def text_spot(P):
    return list(text_envs(P))[::23]


def parse(name, call, spec, splits=parse_splits, **kw):
    PARSE.append(Op(name, call, ["u32", "u32"], "(u8,u8,S)", spec, source=parse_source(call), splits=splits,
                    mkargs=parse_args, models=(parse_models,), prepare=text_prepare, spot=text_spot, validate=0,
                    sched="text", soft=400, **kw))


parse("from_str_radix", "$S::from_str_radix(s, radix)", parse_spec())
parse("from_str", "<$S as core::str::FromStr>::from_str(s)", parse_spec(), splits=ten_splits)


# ----------------------------------------------------------------- writing
def write_splits(c, tier):
    N = c.bits
    mags = [("-", 1 << (N - 1)), ("+", (1 << (N - 1)) - 1)] if c.signed else [("", (1 << N) - 1)]
    out = []
    for s, m in mags:
        tops = set()
        for r in (2, 8, 10, 16, 36) if tier == "quick" else range(2, 37):
            k = next(k for k in range(1, N + 2) if r ** k > m)
            tops |= {k, k - 1}
        ls = {1, 2, 3, 4, 5, N // 8, N // 4} | tops
        if tier != "quick":
            ls |= set(range(1, N + 1))
        for n in sorted(ls):
            if n > 1 and 2 ** (n - 1) > m:
                continue
            out.append(((n, s, m), "%s%d digits" % (s, n)))
    for r in BAD:
        out.append(((0, "", r), "radix %s range" % r))
    return out


class Digits(Tags):
    """Quotients of repeated division: tag (k, condition)."""

    def __init__(self, c, n, radix):
        Tags.__init__(self, c)
        self.count, self.radix = n, radix
        self.d = [T.var("d%d" % k, 8, 1 if k == n - 1 > 0 else 0, 35) for k in range(n)]
        self.lemmas = [T.ult(T.zext(d, 32), radix) for d in self.d]
        self.q0 = self.quotient(0, T.TRUE)

    def join(self, c, a, b):
        return (a[0], T.ite(c, a[1], b[1])) if a[0] == b[0] else None

    def quotient(self, k, ok):
        if k == self.count - 1:
            # a single digit is left
            t = T.zext(self.d[k], self.c.bits)
        elif k == 0:
            t = bigvar(self.c, "a0", self.c.bits)
        else:
            return self.block((k, ok))
        return self.tag(t, (k, ok))

    def div_rem(self, c, x, m):
        k = self.of(x)
        if k is None or k[0] >= self.count - 1:
            return [self.block(), T.fresh(c.limb)]
        ok = T.and_(k[1], T.eq(m, T.zext(self.radix, m.w)))
        if ok is not T.TRUE:
            return [self.block(), T.fresh(c.limb)]
        return [self.quotient(k[0] + 1, ok), T.zext(self.d[k[0]], c.limb)]

    def less(self, x, y):
        """x < y for a quotient and the radix, or None."""
        k = self.of(x)
        if k is not None and y is T.zext(self.radix, y.w):
            return T.TRUE if k[0] == self.count - 1 else T.FALSE
        return None


def write_args(c, split):
    n, s, m = split
    c.dg = None
    if n == 0:
        a, radix = bigvar(c, "a0", c.bits), T.var("radix", 32, *BAD[m])
        return [("S", a), ("u32", radix)], T.TRUE
    # radix^(n-1) <= m: the value can have n digits
    hi = 36 if n == 1 else min(36, iroot(m, n - 1))
    radix = T.var("radix", 32, 2, hi) if hi > 2 else T.const(2, 32)
    dg = c.dg = Digits(c, n, radix)
    c.shape = split
    a = dg.q0
    if s and n > 1:
        dg.lemmas.append(T.ule(a, T.const(m, c.bits)))
    if s == "-":
        a = T.neg(a)
        dg.lemmas.append(nzt(dg.q0))
    dg.a = a
    return [("S", a), ("u32", radix)], T.TRUE


def nzt(x):
    return T.ne(x, T.const(0, x.w))


def write_models(c):
    dg = c.dg
    if dg is None:
        return {}
    U, I = "U%d" % c.bits, "I%d" % c.bits

    def mag(ex, s, i, args):
        x = models.big(ex, s, args[1], c)
        if dg.limbs(x) == dg.limbs(dg.a):
            models.put(ex, s, args[0], 0, dg.q0, c.limb)
        else:
            models.put(ex, s, args[0], 0, T.ite(T.sign(x), T.neg(x), x), c.limb)
        return s, None

    def cmp(name, signed):
        def h(ex, s, i, args):
            x, y = (models.big(ex, s, p, c) for p in args)
            lt = T.slt if signed else T.ult
            if name in ("lt", "ge"):
                r = dg.less(x, y)
                r = lt(x, y) if r is None else r
                return s, r if name == "lt" else T.not_(r)
            r = dg.less(y, x)
            r = lt(y, x) if r is None else r
            return s, r if name == "gt" else T.not_(r)
        return h
    m = {}
    for t in (U, I) if c.signed and c.shape[1] == "+" else (U,):
        for k in ("div_rem_ulimb", "wrapping_div_rem_ulimb"):
            m[models.sym(t, k)] = models.method(c, dg.div_rem, 2)
        for k in ("lt", "le", "gt", "ge"):
            m[models.sym(t, k + "_const")] = cmp(k, t == I)
    if c.signed:
        m[models.sym(I, "unsigned_abs")] = mag
    return m


def write_spec(c, a, radix):
    if c.dg is None:
        return R(rel=lambda o: [], panic=T.TRUE)
    n, s, m = c.shape
    size = c.bits + c.signed
    dg = c.dg

    def rel(o):
        ln, off, buf = o
        k = n + (s == "-")
        gs = [("length", T.eq(ln, T.const(k, 32))), ("position", T.eq(off, T.const(size - k, 32)))]
        txt = [chr_of(dg.d[i]) for i in range(n - 1, -1, -1)]
        if s == "-":
            txt.insert(0, T.const(ord("-"), 8))
        gs.append(("characters", functools.reduce(T.and_, [T.eq(buf[size - k + i], ch) for i, ch in enumerate(txt)])))
        return gs
    r = R(rel=rel)
    r.lemmas, r.tagged = dg.lemmas, True
    x = T.neg(a) if s == "-" else a
    # digits of the value, to be evaluated
    for k in range(n):
        z = T.zext(radix, c.bits)
        r.defs.append(([dg.d[k]], T.extract(T.urem(x, z), 0, 8)))
        x = T.udiv(x, z)
    return r


def chr_of(d):
    return T.ite(T.ult(d, T.const(10, 8)), T.add(d, T.const(48, 8)), T.add(d, T.const(55, 8)))


def write_source(c, nm):
    size = c.bits + c.signed
    return """#[no_mangle] #[inline(never)]
pub unsafe fn p_%s(out: *mut u8, inp: *const u8) {
    let a0 = <%s>::from_le_bytes(*(inp as *const [u8; %d]));
    let radix = u32::from_le_bytes(*(inp.add(%d) as *const [u8; 4]));
    let buf = &mut *(out.add(8) as *mut [u8; %d]);
    let p = buf.as_ptr();
    let r = a0.to_str_radix(buf, radix);
    let (n, q) = (r.len(), r.as_ptr());
    *(out as *mut [u8; 4]) = (n as u32).to_le_bytes();
    *(out.add(4) as *mut [u8; 4]) = (q.offset_from(p) as u32).to_le_bytes();
}
""" % (nm, c.name, c.bits // 8, c.bits // 8, size)


def write_fix(P, env):
    """Make the input agree with the digits."""
    n, s, m = P.job.split
    if n == 0:
        return env
    c = P.job.c
    radix = env.get("radix", 2)
    ds = [min(env.get("d%d" % k, 0), radix - 1) for k in range(n)]
    if n > 1:
        ds[-1] = max(ds[-1], 1)
    v = min(sum(d * radix ** k for k, d in enumerate(ds)), m)
    if s == "-":
        v = max(v, 1)
    e = env_of(c, a0=(v, c.bits))
    e["radix"] = radix
    e["d0"] = v & 255
    return e


def write_envs(P):
    n, s, m = P.job.split
    c = P.job.c
    rng = random.Random(P.job.key)
    if n == 0:
        for radix in (0, 1) if m == "under" else (37, 1 << 31, (1 << 32) - 1):
            yield dict(env_of(c, a0=(rng.getrandbits(c.bits), c.bits)), radix=radix)
        return
    hi = 36 if n == 1 else min(36, iroot(m, n - 1))
    for radix in sorted({2, hi, min(hi, 10), min(hi, 11), min(hi, 16), rng.randint(2, hi), rng.randint(2, hi)}):
        for k in range(4):
            e = {"d%d" % i: (0, radix - 1, rng.randrange(radix), rng.choice((0, radix - 1)))[k] for i in range(n)}
            yield dict(e, radix=radix)


def write_lift(P, lab, env, roots):
    return first(P, write_envs(P))


def write_prepare(P):
    P.lift_fn, P.nohunt = write_lift, True


WRITE.append(Op("to_str_radix", "a0.to_str_radix(&mut buffer, a1)", ["S", "u32"], lambda c: "(u32,u32,[u8;%d])" % (c.bits + c.signed),
                write_spec, source=write_source, splits=write_splits, mkargs=write_args, models=(write_models,),
                prepare=write_prepare, spot=lambda P: list(write_envs(P))[::5], validate=0, sched="bv", soft=1100))
WRITE[-1].fix = write_fix
