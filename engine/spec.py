"""Specification vocabulary: exact integer semantics over terms."""
import re
import term as T


class Opt:
    """Option: present under `c`."""

    def __init__(self, c, v):
        self.c, self.v = c, v


class R:
    """Expected behaviour of an operation.

    ret    expected value (nested tuples / Opt / Term)
    panic  condition under which the call must panic (and only then)
    pre    documented precondition of an unsafe operation
    rel    instead of `ret`: function(outputs) -> [(label, Term)]
    """

    def __init__(self, ret=None, panic=None, pre=None, rel=None, free=None, cases=None, rest=None,
                 lemmas=(), defs=()):
        self.ret, self.rel = ret, rel
        # substitutions {term id: term} that together with the region `rest`
        # cover all inputs; used to divide a query
        self.cases, self.rest = cases, rest
        self.panic = T.FALSE if panic is None else panic
        self.pre = T.TRUE if pre is None else pre
        # valid facts about the inputs added to every query
        self.lemmas = list(lemmas)
        # intermediate quantities [(variable, definition)] the specification
        # is written in terms of
        self.defs = list(defs)
        # further obligations [(label, Term)] found during the execution
        self.extra = []
        # the definitions serve to evaluate the specification only
        self.tagged = False
        # inputs on which the outcome is left open (panic or any value)
        self.free = T.FALSE if free is None else free


PRIM = {"u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0),
        "i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1),
        "bool": (1, 0), "ord": (8, 1)}


class Ctx:
    """One type in one build configuration."""

    def __init__(self, bits, signed, limb=64, ovf=True, feats=()):
        self.bits, self.signed, self.limb, self.ovf = bits, signed, limb, ovf
        self.feats = tuple(feats)
        self.name = ("I" if signed else "U") + str(bits)

    def ty(self, t):
        """(bits, signed) of a type code."""
        if t == "S":
            return self.bits, self.signed
        if t == "U":
            return self.bits, 0
        if t == "I":
            return self.bits, 1
        if t in PRIM:
            return PRIM[t]
        if t in ("ulimb", "ilimb"):
            return self.limb, t[0] == "i"
        if t in ("uwide", "iwide"):
            return 2 * self.limb, t[0] == "i"
        m = re.fullmatch(r"([UI])(\d+)", t)
        if m:
            return int(m.group(2)), m.group(1) == "I"
        raise KeyError(t)

    def rust(self, t):
        w, s = self.ty(t)
        if t in ("S", "U", "I") or re.fullmatch(r"[UI]\d+", t):
            return "%s%d" % ("I" if s else "U", w)
        if t in PRIM:
            return "i8" if t == "ord" else t
        return "%s%d" % ("i" if s else "u", w)

    def W(self, t):
        return self.ty(t)[0]

    def sg(self, t):
        return bool(self.ty(t)[1])

    def k(self, v, t="S"):
        return T.const(v, self.W(t))

    def mn(self, t="S"):
        w, s = self.ty(t)
        return T.const(-(1 << (w - 1)) if s else 0, w)

    def mx(self, t="S"):
        w, s = self.ty(t)
        return T.const((1 << (w - 1)) - 1 if s else -1, w)

    def ext(self, x, t, W):
        return T.sext(x, W) if self.sg(t) else T.zext(x, W)

    def conv(self, x, f, t):
        """`as` conversion from type f to type t."""
        w = self.W(t)
        return T.extract(x, 0, w) if w <= x.w else self.ext(x, f, w)

    def fits(self, X, t):
        """Does the signed wide value X belong to type t?"""
        return T.eq(self.ext(T.extract(X, 0, self.W(t)), t, X.w), X)

    def lt(self, a, b, t="S"):
        return T.slt(a, b) if self.sg(t) else T.ult(a, b)


def pol(c, kind, wrap, ovf, neg, t="S"):
    """Result of an operation under an overflow policy."""
    if kind == "wrapping":
        return R(wrap)
    if kind == "overflowing":
        return R((wrap, ovf))
    if kind == "checked":
        return R(Opt(T.not_(ovf), wrap))
    if kind == "saturating":
        return R(T.ite(ovf, T.ite(neg, c.mn(t), c.mx(t)), wrap))
    if kind == "strict":
        return R(wrap, panic=ovf)
    if kind == "unchecked":
        return R(wrap, pre=T.not_(ovf))
    if kind == "":
        return R(wrap, panic=ovf if c.ovf else T.FALSE)
    raise KeyError(kind)


RET = {"wrapping": "S", "overflowing": "(S,bool)", "checked": "?S", "saturating": "S", "strict": "S",
       "unchecked": "S", "": "S"}


def wide(c, kind, X, t="S"):
    """Policy applied to the exact signed wide value X."""
    return pol(c, kind, T.extract(X, 0, c.W(t)), T.not_(c.fits(X, t)), T.sign(X), t)


def absu(x):
    """Magnitude of a signed value, same width, unsigned."""
    return T.ite(T.sign(x), T.neg(x), x)


def mag(c, x, t):
    return absu(x) if c.sg(t) else x


def negf(c, x, t):
    return T.sign(x) if c.sg(t) else T.FALSE


def nz(x):
    return T.ne(x, T.const(0, x.w))


def isz(x):
    return T.eq(x, T.const(0, x.w))


def cneg(s, x):
    return T.ite(s, T.neg(x), x)


# ---------------------------------------------------------------- types
def parse_ty(s):
    """'S' | '(S,bool)' | '?S' (Option) | '!S' (Result) | '[u64;4]'"""
    pos = 0

    def ty():
        nonlocal pos
        ch = s[pos]
        if ch == "(":
            pos += 1
            r = []
            while s[pos] != ")":
                r.append(ty())
                if s[pos] == ",":
                    pos += 1
            pos += 1
            return ("tup", r)
        if ch == "?":
            pos += 1
            return ("opt", ty())
        if ch == "!":
            pos += 1
            return ("res", ty())
        if ch == "[":
            pos += 1
            e = ty()
            assert s[pos] == ";"
            pos += 1
            n = ""
            while s[pos] != "]":
                n += s[pos]
                pos += 1
            pos += 1
            return ("arr", e, int(n))
        n = ""
        while pos < len(s) and (s[pos].isalnum() or s[pos] == "_"):
            n += s[pos]
            pos += 1
        return ("sc", n)
    r = ty()
    assert pos == len(s), s
    return r


def layout(c, t):
    """Flat fields of an encoded value: [(path, bytes, type code)]."""
    k = t[0]
    if k == "sc":
        w = c.W(t[1])
        return [("", max(1, w // 8), t[1])]
    if k in ("opt", "res"):
        return [("tag", 1, "bool")] + [(".some" + p, n, x) for p, n, x in layout(c, t[1])]
    if k == "arr":
        return [("[%d]%s" % (i, p), n, x) for i in range(t[2]) for p, n, x in layout(c, t[1])]
    return [(".%d%s" % (i, p), n, x) for i, e in enumerate(t[1]) for p, n, x in layout(c, e)]


def flatten(c, t, v, cond=None):
    """Expected flat field terms matching `layout` (8*bytes wide)."""
    cond = T.TRUE if cond is None else cond
    k = t[0]
    if k == "sc":
        w = c.W(t[1])
        assert v.w == w, (t, v.w, w)
        n = max(8, w)
        x = T.zext(v, n) if w < n else v
        return [x if cond is T.TRUE else T.ite(cond, x, T.const(0, n))]
    if k in ("opt", "res"):
        cc = T.and_(cond, v.c)
        return [T.zext(cc, 8)] + flatten(c, t[1], v.v, cc)
    if k == "arr":
        return [x for e in v for x in flatten(c, t[1], e, cond)]
    return [x for e, u in zip(t[1], v) for x in flatten(c, e, u, cond)]


def unflatten(c, t, fields):
    """Structured outputs from the flat field terms (for relational specs)."""
    it = iter(fields)

    def go(t):
        k = t[0]
        if k == "sc":
            x = next(it)
            return T.extract(x, 0, c.W(t[1]))
        if k in ("opt", "res"):
            tag = T.extract(next(it), 0, 1)
            return Opt(tag, go(t[1]))
        if k == "arr":
            return [go(t[1]) for _ in range(t[2])]
        return tuple(go(e) for e in t[1])
    return go(t)


# ---------------------------------------------------------------- rust code
def rust_read(c, t, off):
    w = c.W(t)
    n = max(1, w // 8)
    if t == "bool":
        return "*inp.add(%d) != 0" % off, 1
    return "<%s>::from_le_bytes(*(inp.add(%d) as *const [u8; %d]))" % (c.rust(t), off, n), n


def rust_write(c, t, e, off, ind="    "):
    """Statements storing expression e of type t at out+off."""
    k = t[0]
    if k == "sc":
        w = c.W(t[1])
        n = max(1, w // 8)
        if t[1] == "bool":
            return [ind + "*out.add(%d) = (%s) as u8;" % (off, e)], 1
        if t[1] == "ord":
            return [ind + "*out.add(%d) = (%s) as i8 as u8;" % (off, e)], 1
        return [ind + "*(out.add(%d) as *mut [u8; %d]) = (%s).to_le_bytes();" % (off, n, e)], n
    if k in ("opt", "res"):
        v = "v%d" % off
        body, n = rust_write(c, t[1], v, off + 1, ind + "    ")
        pat = "Some" if k == "opt" else "Ok"
        return [ind + "if let %s(%s) = %s {" % (pat, v, e), ind + "    *out.add(%d) = 1;" % off] + body + [ind + "}"], n + 1
    if k == "arr":
        v = "a%d" % off
        ls = [ind + "let %s = %s;" % (v, e)]
        p = 0
        for i in range(t[2]):
            b, n = rust_write(c, t[1], "%s[%d]" % (v, i), off + p, ind)
            ls += b
            p += n
        return ls, p
    v = "t%d" % off + ("_" if e.startswith("t%d." % off) else "")
    ls = [ind + "let %s = %s;" % (v, e)]
    p = 0
    for i, x in enumerate(t[1]):
        b, n = rust_write(c, x, "%s.%d" % (v, i), off + p, ind)
        ls += b
        p += n
    return ls, p
