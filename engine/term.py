"""Hash-consed bit-vector terms with local simplification.

Width 1 terms double as booleans.  Every term carries unsigned bounds
(lo, hi) that hold for all assignments satisfying the declared variable
ranges; the simplifier uses them to fold comparisons and carries.
"""


class Term:
    __slots__ = ("op", "args", "w", "p", "lo", "hi", "id", "__weakref__")

    def __repr__(self):
        return show(self, 4)


_table = {}
_vars = {}
_counter = [0]


def reset():
    _table.clear()
    _vars.clear()
    _counter[0] = 0
    global TRUE, FALSE
    TRUE = const(1, 1)
    FALSE = const(0, 1)


def mask(w):
    return (1 << w) - 1


def _mk(op, args, w, p=None, lo=0, hi=None):
    key = (op, tuple([a.id for a in args]), w, p)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    t.w = w
    t.p = p
    t.lo = lo
    t.hi = mask(w) if hi is None else hi
    _counter[0] += 1
    t.id = _counter[0]
    _table[key] = t
    if t.lo == t.hi and op != "const" and op != "var":
        # the bounds pin the value
        c = const(t.lo, w)
        _table[key] = c
        return c
    return t


def const(v, w):
    v &= mask(w)
    key = ("const", (), w, v)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = "const"
        t.args = ()
        t.w = w
        t.p = v
        t.lo = t.hi = v
        _counter[0] += 1
        t.id = _counter[0]
        _table[key] = t
    return t


def var(name, w, lo=0, hi=None):
    if name in _vars:
        return _vars[name]
    if hi is None:
        hi = mask(w)
    if lo == hi:
        return const(lo, w)
    t = _mk("var", (), w, name, lo, hi)
    _vars[name] = t
    return t


_fresh = [0]


def fresh(w, hint="undef"):
    _fresh[0] += 1
    return var("%s!%d" % (hint, _fresh[0]), w)


TRUE = const(1, 1)
FALSE = const(0, 1)


def isc(t):
    return t.op == "const"


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- booleans

def not_(a):
    if a.w != 1:
        return bvnot(a)
    if isc(a):
        return boolc(not a.p)
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), 1)


def _is_neg(a, b):
    return (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a)


def _conj(a):
    """Literals of a conjunction (shallow)."""
    return a.args if a.op == "and" and a.w == 1 else (a,)


def and_(a, b):
    if a.w != 1:
        return bvand(a, b)
    if a is b:
        return a
    if isc(a):
        return b if a.p else FALSE
    if isc(b):
        return a if b.p else FALSE
    if _is_neg(a, b):
        return FALSE
    if b.op == "and" and (b.args[0] is a or b.args[1] is a):
        return b
    if a.op == "and" and (a.args[0] is b or a.args[1] is b):
        return a
    if b.op == "or" and (b.args[0] is a or b.args[1] is a):
        return a
    if a.op == "or" and (a.args[0] is b or a.args[1] is b):
        return b
    if a.op == "and" and (_is_neg(a.args[0], b) or _is_neg(a.args[1], b)):
        return FALSE
    if b.op == "and" and (_is_neg(b.args[0], a) or _is_neg(b.args[1], a)):
        return FALSE
    # a & (~a | c) -> a & c
    if b.op == "or":
        if _is_neg(b.args[0], a):
            return and_(a, b.args[1])
        if _is_neg(b.args[1], a):
            return and_(a, b.args[0])
    if a.op == "or":
        if _is_neg(a.args[0], b):
            return and_(b, a.args[1])
        if _is_neg(a.args[1], b):
            return and_(b, a.args[0])
    if a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b), 1)


def or_(a, b):
    if a.w != 1:
        return bvor(a, b)
    if a is b:
        return a
    if isc(a):
        return TRUE if a.p else b
    if isc(b):
        return TRUE if b.p else a
    if _is_neg(a, b):
        return TRUE
    if b.op == "or" and (b.args[0] is a or b.args[1] is a):
        return b
    if a.op == "or" and (a.args[0] is b or a.args[1] is b):
        return a
    if b.op == "and" and (b.args[0] is a or b.args[1] is a):
        return a
    if a.op == "and" and (a.args[0] is b or a.args[1] is b):
        return b
    # (g & c) | (g & ~c) -> g
    if a.op == "and" and b.op == "and":
        a0, a1 = a.args
        b0, b1 = b.args
        for x, y in ((a0, a1), (a1, a0)):
            for u, v in ((b0, b1), (b1, b0)):
                if x is u:
                    if _is_neg(y, v):
                        return x
                    return and_(x, or_(y, v))
    # a | (~a & c) -> a | c
    if b.op == "and":
        if _is_neg(b.args[0], a):
            return or_(a, b.args[1])
        if _is_neg(b.args[1], a):
            return or_(a, b.args[0])
    if a.op == "and":
        if _is_neg(a.args[0], b):
            return or_(b, a.args[1])
        if _is_neg(a.args[1], b):
            return or_(b, a.args[0])
    if a.id > b.id:
        a, b = b, a
    return _mk("or", (a, b), 1)


def xor_(a, b):
    if a.w != 1:
        return bvxor(a, b)
    if a is b:
        return FALSE
    if isc(a):
        return not_(b) if a.p else b
    if isc(b):
        return not_(a) if b.p else a
    if _is_neg(a, b):
        return TRUE
    if a.op == "not" and b.op == "not":
        return xor_(a.args[0], b.args[0])
    if a.op == "not":
        return not_(xor_(a.args[0], b))
    if b.op == "not":
        return not_(xor_(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", (a, b), 1)


def all_(ts):
    r = TRUE
    for t in ts:
        r = and_(r, t)
    return r


def any_(ts):
    r = FALSE
    for t in ts:
        r = or_(r, t)
    return r


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return not_(xor_(a, b))


def ite(c, a, b):
    assert a.w == b.w, (a.w, b.w)
    if isc(c):
        return a if c.p else b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.w == 1:
        if a is c:
            a = TRUE
        if b is c:
            b = FALSE
        if a is b:
            return a
        if isc(a) and isc(b):
            return c if a.p else not_(c)
        if isc(a):
            return or_(c, b) if a.p else and_(not_(c), b)
        if isc(b):
            return or_(not_(c), a) if b.p else and_(c, a)
    # ite(c, ite(d, x, y), y) -> ite(c & d, x, y)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    return _mk("ite", (c, a, b), a.w, None, min(a.lo, b.lo), max(a.hi, b.hi))


# ---------------------------------------------------------------- structure

def extract(t, lo, w):
    """Bits [lo, lo+w) of t."""
    if lo == 0 and w == t.w:
        return t
    assert lo >= 0 and w > 0 and lo + w <= t.w, (lo, w, t.w)
    if isc(t):
        return const(t.p >> lo, w)
    if t.hi >> lo == 0:
        return const(0, w)
    op = t.op
    if op == "extract":
        return extract(t.args[0], t.p + lo, w)
    if op == "concat":
        h, l = t.args
        if lo >= l.w:
            return extract(h, lo - l.w, w)
        if lo + w <= l.w:
            return extract(l, lo, w)
        return concat(extract(h, 0, lo + w - l.w), extract(l, lo, l.w - lo))
    if op == "zext":
        a = t.args[0]
        if lo >= a.w:
            return const(0, w)
        if lo + w <= a.w:
            return extract(a, lo, w)
        return zext(extract(a, lo, a.w - lo), w)
    if op == "sext":
        a = t.args[0]
        if lo + w <= a.w:
            return extract(a, lo, w)
        if lo < a.w:
            return sext(extract(a, lo, a.w - lo), w)
        return sext(extract(a, a.w - 1, 1), w)
    if op == "ite":
        c, a, b = t.args
        if isc(a) or isc(b) or _structural(a) or _structural(b):
            return ite(c, extract(a, lo, w), extract(b, lo, w))
    if op in ("and", "or", "xor"):
        a, b = t.args
        f = {"and": and_, "or": or_, "xor": xor_}[op]
        return f(extract(a, lo, w), extract(b, lo, w))
    if op == "bvnot":
        return not_(extract(t.args[0], lo, w))
    if lo == 0 and op in ("add", "sub", "mul") and not (op == "mul" and t.w > 128):
        a, b = t.args
        if a.op in ("zext", "sext", "concat", "const") or b.op in ("zext", "sext", "concat", "const"):
            f = {"add": add, "sub": sub, "mul": mul}[op]
            return f(extract(a, 0, w), extract(b, 0, w))
    if lo == 0:
        if t.hi <= mask(w):
            return _mk("extract", (t,), w, lo, t.lo, t.hi)
        return _mk("extract", (t,), w, lo)
    h = (t.hi >> lo)
    if h <= mask(w):
        return _mk("extract", (t,), w, lo, (t.lo >> lo), h)
    return _mk("extract", (t,), w, lo)


def _structural(t):
    return t.op in ("concat", "zext", "sext", "extract")


def concat(h, l):
    w = h.w + l.w
    if isc(h) and isc(l):
        return const((h.p << l.w) | l.p, w)
    if isc(h) and h.p == 0:
        return zext(l, w)
    if h.op == "extract" and l.op == "extract" and h.args[0] is l.args[0] and h.p == l.p + l.w:
        return extract(h.args[0], l.p, w)
    if h.op == "extract" and h.p == l.w and h.args[0] is l:
        pass
    # concat(concat(a, b), c) with b, c adjacent
    if h.op == "concat":
        m = h.args[1]
        if isc(m) and isc(l):
            return concat(h.args[0], concat(m, l))
        if m.op == "extract" and l.op == "extract" and m.args[0] is l.args[0] and m.p == l.p + l.w:
            return concat(h.args[0], concat(m, l))
    if l.op == "concat":
        m = l.args[0]
        if isc(m) and isc(h):
            return concat(concat(h, m), l.args[1])
        if h.op == "extract" and m.op == "extract" and h.args[0] is m.args[0] and h.p == m.p + m.w:
            return concat(concat(h, m), l.args[1])
    if l.op == "zext":
        # concat(h, zext(x)) -> concat(concat(h, 0), x)
        x = l.args[0]
        return concat(concat(h, const(0, l.w - x.w)), x)
    if h.op == "zext":
        x = h.args[0]
        return zext(concat(x, l), w)
    if h.op == "extract" and h.args[0].op == "ite":
        pass
    if h.op == "ite" and l.op == "ite" and h.args[0] is l.args[0]:
        return ite(h.args[0], concat(h.args[1], l.args[1]), concat(h.args[2], l.args[2]))
    return _mk("concat", (h, l), w, None, (h.lo << l.w) + l.lo, (h.hi << l.w) + l.hi)


def zext(t, w):
    if w == t.w:
        return t
    assert w > t.w
    if isc(t):
        return const(t.p, w)
    if t.op == "zext":
        return zext(t.args[0], w)
    # bits known to be zero at the top
    return _mk("zext", (t,), w, None, t.lo, t.hi)


def trunc(t, w):
    return extract(t, 0, w)


def sext(t, w):
    if w == t.w:
        return t
    if isc(t):
        v = t.p
        if v >> (t.w - 1):
            v -= 1 << t.w
        return const(v, w)
    if t.op == "sext":
        return sext(t.args[0], w)
    if t.op == "zext" or t.hi < (1 << (t.w - 1)):
        return zext(t, w)
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    lo, hi = 0, None
    if t.lo >> (t.w - 1):
        d = (1 << w) - (1 << t.w)
        lo, hi = t.lo + d, t.hi + d
    return _mk("sext", (t,), w, None, lo, hi)


def _segments(t):
    """LSB-first list of (term, width); zero segments become (None, width)."""
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.op == "concat":
            st.append(x.args[0])
            st.append(x.args[1])
        elif x.op == "zext":
            st.append(const(0, x.w - x.args[0].w))
            st.append(x.args[0])
        elif isc(x) and x.p == 0:
            out.append((None, x.w))
        else:
            out.append((x, x.w))
    return out


def _disjoint(a, b):
    """If a and b have no overlapping possibly-set bits, return their union."""
    if a.op not in ("concat", "zext") and not isc(a):
        return None
    if b.op not in ("concat", "zext") and not isc(b):
        return None
    if isc(a) or isc(b):
        c, o = (a, b) if isc(a) else (b, a)
        if isc(o):
            return None
        # split the constant along o's segments
        so = _segments(o)
        pos = 0
        pieces = []
        for t, n in so:
            cv = (c.p >> pos) & mask(n)
            if t is None:
                pieces.append(const(cv, n))
            else:
                if cv:
                    return None
                pieces.append(t)
            pos += n
    else:
        sa = _segments(a)
        sb = _segments(b)
        pieces = []
        i = j = 0
        ca, cb = sa[0], sb[0]
        while True:
            n = min(ca[1], cb[1])
            xa = None if ca[0] is None else extract(ca[0], 0, n)
            xb = None if cb[0] is None else extract(cb[0], 0, n)
            if xa is not None and isc(xa) and xa.p == 0:
                xa = None
            if xb is not None and isc(xb) and xb.p == 0:
                xb = None
            if xa is not None and xb is not None:
                return None
            pieces.append(xa if xa is not None else xb if xb is not None else const(0, n))
            ra, rb = ca[1] - n, cb[1] - n
            if ra:
                ca = (None if ca[0] is None else extract(ca[0], n, ra), ra)
            else:
                i += 1
                if i < len(sa):
                    ca = sa[i]
            if rb:
                cb = (None if cb[0] is None else extract(cb[0], n, rb), rb)
            else:
                j += 1
                if j < len(sb):
                    cb = sb[j]
            if i >= len(sa) or j >= len(sb):
                break
    r = pieces[0]
    for p in pieces[1:]:
        r = concat(p, r)
    return r


# ---------------------------------------------------------------- bitwise

def bvnot(a):
    if isc(a):
        return const(~a.p, a.w)
    if a.op == "bvnot":
        return a.args[0]
    m = mask(a.w)
    return _mk("bvnot", (a,), a.w, None, m - a.hi, m - a.lo)


def _low_mask(v):
    return v & (v + 1) == 0


def bvand(a, b):
    if isc(a):
        a, b = b, a
    if a is b:
        return a
    w = a.w
    if isc(b):
        v = b.p
        if isc(a):
            return const(a.p & v, w)
        if v == 0:
            return b
        if v == mask(w):
            return a
        if _low_mask(v):
            return zext(extract(a, 0, v.bit_length()), w)
        # contiguous run of ones
        tz = (v & -v).bit_length() - 1
        if _low_mask(v >> tz):
            n = (v >> tz).bit_length()
            r = concat(extract(a, tz, n), const(0, tz))
            return zext(r, w)
        if a.op == "and" and isc(a.args[1]):
            return bvand(a.args[0], const(a.args[1].p & v, w))
        return _mk("and", (a, b), w, None, 0, min(a.hi, v))
    if a.id > b.id:
        a, b = b, a
    if a.op == "ite" and b.op == "const":
        pass
    return _mk("and", (a, b), w, None, 0, min(a.hi, b.hi))


def bvor(a, b):
    if isc(a):
        a, b = b, a
    if a is b:
        return a
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.p | b.p, w)
        if b.p == 0:
            return a
        if b.p == mask(w):
            return b
    d = _disjoint(a, b)
    if d is not None:
        return d
    if not isc(b) and a.id > b.id:
        a, b = b, a
    hi = mask(max(a.hi.bit_length(), b.hi.bit_length()))
    return _mk("or", (a, b), w, None, max(a.lo, b.lo), hi)


def bvxor(a, b):
    if isc(a):
        a, b = b, a
    if a is b:
        return const(0, a.w)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.p ^ b.p, w)
        if b.p == 0:
            return a
        if b.p == mask(w):
            return bvnot(a)
        if a.op == "xor" and isc(a.args[1]):
            return bvxor(a.args[0], const(a.args[1].p ^ b.p, w))
    if not isc(b) and a.id > b.id:
        a, b = b, a
    hi = mask(max(a.hi.bit_length(), b.hi.bit_length()))
    return _mk("xor", (a, b), w, None, 0, hi)


# ---------------------------------------------------------------- arithmetic

def add(a, b):
    assert a.w == b.w
    if isc(a):
        a, b = b, a
    w = a.w
    if w == 1:
        return xor_(a, b)
    if isc(b):
        if b.p == 0:
            return a
        if isc(a):
            return const(a.p + b.p, w)
        if a.op == "add" and isc(a.args[1]):
            return add(a.args[0], const(a.args[1].p + b.p, w))
        if a.op == "sub" and isc(a.args[0]):
            return sub(const(a.args[0].p + b.p, w), a.args[1])
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], const(a.args[1].p + b.p, w), const(a.args[2].p + b.p, w))
    else:
        d = _disjoint(a, b)
        if d is not None:
            return d
        if a.id > b.id:
            a, b = b, a
        if a.op == "sub" and a.args[1] is b:
            return a.args[0]
        if b.op == "sub" and b.args[1] is a:
            return b.args[0]
    m = mask(w)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if hi > m:
        if lo > m:
            lo, hi = lo - m - 1, hi - m - 1
        else:
            lo, hi = 0, m
    return _mk("add", (a, b), w, None, lo, hi)


def neg(a):
    return sub(const(0, a.w), a)


def sub(a, b):
    assert a.w == b.w
    w = a.w
    if w == 1:
        return xor_(a, b)
    if a is b:
        return const(0, w)
    if isc(b):
        if isc(a):
            return const(a.p - b.p, w)
        if b.p == 0:
            return a
        # keep "x - c" as x + (-c) only when it cannot matter for bounds
        if a.op == "add" and isc(a.args[1]):
            return add(a.args[0], const(a.args[1].p - b.p, w))
        if a.op == "sub" and isc(a.args[1]):
            return sub(a.args[0], const(a.args[1].p + b.p, w))
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], const(a.args[1].p - b.p, w), const(a.args[2].p - b.p, w))
    if isc(a) and a.p == mask(w):
        return bvnot(b)
    if a.op == "add":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if isc(a) and b.op == "sub" and isc(b.args[0]):
        return add(b.args[1], const(a.p - b.args[0].p, w))
    m = mask(w)
    lo, hi = a.lo - b.hi, a.hi - b.lo
    if lo < 0:
        if hi < 0:
            lo, hi = lo + m + 1, hi + m + 1
        else:
            lo, hi = 0, m
    return _mk("sub", (a, b), w, None, lo, hi)


def mul(a, b):
    assert a.w == b.w
    if isc(a):
        a, b = b, a
    w = a.w
    if w == 1:
        return and_(a, b)
    if isc(b):
        if isc(a):
            return const(a.p * b.p, w)
        if b.p == 0:
            return b
        if b.p == 1:
            return a
        if b.p & (b.p - 1) == 0:
            return shl(a, const(b.p.bit_length() - 1, w))
        if a.op == "mul" and isc(a.args[1]):
            return mul(a.args[0], const(a.args[1].p * b.p, w))
    elif a.id > b.id:
        a, b = b, a
    lo, hi = a.lo * b.lo, a.hi * b.hi
    if hi > mask(w):
        lo, hi = 0, mask(w)
    return _mk("mul", (a, b), w, None, lo, hi)


def udiv(a, b):
    """Unsigned division; the caller is responsible for b != 0 (x/0 = ones)."""
    w = a.w
    if isc(b):
        if b.p == 0:
            return const(-1, w)
        if isc(a):
            return const(a.p // b.p, w)
        if b.p == 1:
            return a
        if b.p & (b.p - 1) == 0:
            return lshr(a, const(b.p.bit_length() - 1, w))
        return _mk("udiv", (a, b), w, None, a.lo // b.p, a.hi // b.p)
    hi = mask(w) if b.lo == 0 else a.hi // b.lo
    lo = 0 if b.hi == 0 else a.lo // b.hi
    return _mk("udiv", (a, b), w, None, lo, hi)


def urem(a, b):
    w = a.w
    if isc(b):
        if b.p == 0:
            return a
        if isc(a):
            return const(a.p % b.p, w)
        if b.p == 1:
            return const(0, w)
        if b.p & (b.p - 1) == 0:
            return bvand(a, const(b.p - 1, w))
        if a.hi < b.p:
            return a
        return _mk("urem", (a, b), w, None, 0, b.p - 1)
    hi = a.hi if b.lo == 0 else min(a.hi, b.hi - 1)
    return _mk("urem", (a, b), w, None, 0, hi)


def sdiv(a, b):
    sa, sb = sign(a), sign(b)
    q = udiv(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(xor_(sa, sb), neg(q), q)


def srem(a, b):
    sa, sb = sign(a), sign(b)
    r = urem(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(sa, neg(r), r)


def sign(a):
    return extract(a, a.w - 1, 1)


def shl(a, n):
    w = a.w
    if isc(n):
        k = n.p
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        return concat(extract(a, 0, w - k), const(0, k))
    if isc(a) and a.p == 0:
        return a
    if n.op == "ite" and isc(n.args[1]) and isc(n.args[2]):
        return ite(n.args[0], shl(a, n.args[1]), shl(a, n.args[2]))
    return _mk("shl", (a, n), w)


def lshr(a, n):
    w = a.w
    if isc(n):
        k = n.p
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        return zext(extract(a, k, w - k), w)
    if isc(a) and a.p == 0:
        return a
    if n.op == "ite" and isc(n.args[1]) and isc(n.args[2]):
        return ite(n.args[0], lshr(a, n.args[1]), lshr(a, n.args[2]))
    nlo = min(n.lo, w)
    return _mk("lshr", (a, n), w, None, 0 if n.hi >= w else a.lo >> n.hi, a.hi >> nlo)


def ashr(a, n):
    w = a.w
    if isc(n):
        k = min(n.p, w - 1)
        if k == 0:
            return a
        return sext(extract(a, k, w - k), w)
    if a.hi < (1 << (w - 1)):
        return lshr(a, n) if n.hi < w else ite(ult(n, const(w, n.w)), lshr(a, n), const(0, w))
    if isc(a) and a.p == mask(w):
        return a
    if n.op == "ite" and isc(n.args[1]) and isc(n.args[2]):
        return ite(n.args[0], ashr(a, n.args[1]), ashr(a, n.args[2]))
    return _mk("ashr", (a, n), w)


def bswap(a):
    n = a.w // 8
    r = extract(a, 0, 8)
    for i in range(1, n):
        r = concat(r, extract(a, 8 * i, 8))
    return r


def bitreverse(a):
    r = extract(a, 0, 1)
    for i in range(1, a.w):
        r = concat(r, extract(a, i, 1))
    return r


def ctlz(a):
    w = a.w
    hi = w - a.lo.bit_length()
    lo = w - a.hi.bit_length()
    if lo == hi:
        return const(lo, w)
    if a.op == "zext":
        x = a.args[0]
        return add(zext(ctlz(x), w) if x.w < w else ctlz(x), const(w - x.w, w)) if x.w > 7 else _mk("ctlz", (a,), w, None, lo, hi)
    return _mk("ctlz", (a,), w, None, lo, hi)


def cttz(a):
    w = a.w
    if isc(a):
        return const(w if a.p == 0 else (a.p & -a.p).bit_length() - 1, w)
    return _mk("cttz", (a,), w, None, 0, w if a.lo == 0 else w - 1)


def ctpop(a):
    w = a.w
    if isc(a):
        return const(bin(a.p).count("1"), w)
    return _mk("ctpop", (a,), w, None, 0 if a.lo == 0 else 1, w)


# ---------------------------------------------------------------- comparison

def eq(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return TRUE
    if isc(a):
        a, b = b, a
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if a.w == 1:
        return not_(xor_(a, b))
    if isc(b):
        if isc(a):
            return boolc(a.p == b.p)
        if a.op == "zext":
            x = a.args[0]
            if b.p >> x.w:
                return FALSE
            return eq(x, const(b.p, x.w))
        if a.op == "ite":
            c, x, y = a.args
            if isc(x) or isc(y):
                return ite(c, eq(x, b), eq(y, b))
        if a.op == "bvnot":
            return eq(a.args[0], const(~b.p, b.w))
        if a.op in ("ctlz", "cttz") and b.p in (0, a.w):
            x = a.args[0]
            if b.p:
                return eq(x, const(0, x.w))
            return extract(x, x.w - 1 if a.op == "ctlz" else 0, 1)
        if a.op == "extract" and a.p == 0 and a.args[0].hi >> a.w == 0:
            x = a.args[0]
            return eq(x, const(b.p, x.w))
        if a.op == "add" and isc(a.args[1]):
            return eq(a.args[0], const(b.p - a.args[1].p, b.w))
        if a.op == "concat":
            h, l = a.args
            if isc(h) or isc(l):
                return and_(eq(h, const(b.p >> l.w, h.w)), eq(l, const(b.p, l.w)))
        if a.op == "xor" and isc(a.args[1]):
            return eq(a.args[0], const(b.p ^ a.args[1].p, b.w))
    else:
        if a.op == "zext" and b.op == "zext":
            x, y = a.args[0], b.args[0]
            w = max(x.w, y.w)
            return eq(zext(x, w), zext(y, w)) if w < a.w else _mk("eq", (a, b), 1)
        if a.op == "concat" and b.op == "concat" and a.args[1].w == b.args[1].w:
            return and_(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
        if a.op == "ite" and (a.args[1] is b or a.args[2] is b):
            c, x, y = a.args
            return or_(c, eq(y, b)) if x is b else or_(not_(c), eq(x, b))
        if b.op == "ite" and (b.args[1] is a or b.args[2] is a):
            return eq(b, a)
        if a.id > b.id:
            a, b = b, a
    return _mk("eq", (a, b), 1)


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if a.w == 1:
        return and_(not_(a), b)
    if isc(b):
        if b.p == 1:
            return eq(a, const(0, a.w))
        if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
            return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
        if a.op == "zext":
            x = a.args[0]
            return ult(x, const(b.p, x.w)) if b.p >> x.w == 0 else TRUE
    if isc(a):
        if a.p == 0:
            return ne(b, a)
        if b.op == "ite" and (isc(b.args[1]) or isc(b.args[2])):
            return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
        if b.op == "zext":
            x = b.args[0]
            return ult(const(a.p, x.w), x) if a.p >> x.w == 0 else FALSE
    if a.op == "zext" and b.op == "zext":
        x, y = a.args[0], b.args[0]
        w = max(x.w, y.w)
        if w < a.w:
            return ult(zext(x, w), zext(y, w))
    return _mk("ult", (a, b), 1)


def ule(a, b):
    return not_(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return not_(ult(a, b))


def slt(a, b):
    assert a.w == b.w
    w = a.w
    if a is b:
        return FALSE
    if isc(b) and b.p == 0:
        return sign(a)
    h = 1 << (w - 1)
    if w == 1:
        return and_(a, not_(b))
    # both on the same side of the sign boundary
    if (a.hi < h and b.hi < h) or (a.lo >= h and b.lo >= h):
        return ult(a, b)
    if a.hi < h and b.lo >= h:
        return FALSE
    if a.lo >= h and b.hi < h:
        return TRUE
    if isc(a) and isc(b):
        return ult(const(a.p ^ h, w), const(b.p ^ h, w))
    return _mk("slt", (a, b), 1)


def sle(a, b):
    return not_(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return not_(slt(a, b))


# ---------------------------------------------------------------- traversal

def topo(roots):
    """All subterms of roots, arguments before users."""
    seen = set()
    out = []
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        st.extend(t.args)
    out.sort(key=lambda t: t.id)
    return out


def _sv(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def evaluate(roots, env):
    """Concrete value of each root under env: var name -> int."""
    vals = {}
    for t in topo(roots):
        op = t.op
        w = t.w
        a = [vals[x.id] for x in t.args]
        if op == "const":
            v = t.p
        elif op == "var":
            v = env[t.p]
        elif op == "not":
            v = 1 - a[0]
        elif op == "bvnot":
            v = ~a[0]
        elif op == "and":
            v = a[0] & a[1]
        elif op == "or":
            v = a[0] | a[1]
        elif op == "xor":
            v = a[0] ^ a[1]
        elif op == "ite":
            v = a[1] if a[0] else a[2]
        elif op == "extract":
            v = a[0] >> t.p
        elif op == "concat":
            v = (a[0] << t.args[1].w) | a[1]
        elif op == "zext":
            v = a[0]
        elif op == "sext":
            v = _sv(a[0], t.args[0].w)
        elif op == "add":
            v = a[0] + a[1]
        elif op == "sub":
            v = a[0] - a[1]
        elif op == "mul":
            v = a[0] * a[1]
        elif op == "udiv":
            v = -1 if a[1] == 0 else a[0] // a[1]
        elif op == "urem":
            v = a[0] if a[1] == 0 else a[0] % a[1]
        elif op == "shl":
            v = a[0] << a[1] if a[1] < w else 0
        elif op == "lshr":
            v = a[0] >> a[1] if a[1] < w else 0
        elif op == "ashr":
            v = _sv(a[0], w) >> min(a[1], w - 1)
        elif op == "ctlz":
            v = w - a[0].bit_length()
        elif op == "cttz":
            v = w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        elif op == "ctpop":
            v = bin(a[0]).count("1")
        elif op == "eq":
            v = int(a[0] == a[1])
        elif op == "ult":
            v = int(a[0] < a[1])
        elif op == "slt":
            aw = t.args[0].w
            v = int(_sv(a[0], aw) < _sv(a[1], aw))
        else:
            raise NotImplementedError(op)
        vals[t.id] = v & mask(w)
    return [vals[r.id] for r in roots]


def variables(roots):
    return [t for t in topo(roots) if t.op == "var"]


def show(t, depth):
    if t.op == "const":
        return "%#x:%d" % (t.p, t.w)
    if t.op == "var":
        return t.p
    if depth == 0:
        return "#%d" % t.id
    return "(%s%s %s)" % (t.op, "" if t.p is None else "[%s]" % t.p,
                          " ".join(show(a, depth - 1) for a in t.args))


REBUILD = {}


def substitute(roots, sub):
    """Rebuild terms with {id: Term} replacements (re-simplifying)."""
    memo = {}
    for t in topo(roots):
        if t.id in sub:
            memo[t.id] = sub[t.id]
            continue
        if not t.args:
            memo[t.id] = t
            continue
        a = [memo[x.id] for x in t.args]
        if all(x is y for x, y in zip(a, t.args)):
            memo[t.id] = t
            continue
        memo[t.id] = rebuild(t, a)
    return [memo[r.id] for r in roots]


def rebuild(t, a):
    op = t.op
    if op == "not":
        return not_(a[0])
    if op == "bvnot":
        return bvnot(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "xor":
        return xor_(*a)
    if op == "ite":
        return ite(*a)
    if op == "extract":
        return extract(a[0], t.p, t.w)
    if op == "concat":
        return concat(*a)
    if op == "zext":
        return zext(a[0], t.w)
    if op == "sext":
        return sext(a[0], t.w)
    return {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "shl": shl, "lshr": lshr,
            "ashr": ashr, "ctlz": ctlz, "cttz": cttz, "ctpop": ctpop, "eq": eq, "ult": ult, "slt": slt}[op](*a)


def subst(roots, mp):
    """Replace subterms (by identity) throughout roots."""
    memo = {}
    for t in topo(roots):
        if t.id in mp:
            memo[t.id] = mp[t.id]
        elif not t.args:
            memo[t.id] = t
        else:
            a = [memo[x.id] for x in t.args]
            memo[t.id] = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
    return [memo[r.id] for r in roots]
