"""Linear integer encoding of terms (SMT-LIB text).

Every bit-vector term becomes a linear polynomial over integer atoms whose
value is the unsigned value of the term; wrap-around, splitting and division
introduce quotient atoms, and the product of two atoms is an opaque atom
constrained by its McCormick envelope.  The encoding is exact except for the
products, which are over-approximated: `unsat` is therefore conclusive, a
model has to be replayed.
"""
import term as T


class IntUnsupported(Exception):
    pass


class Atom:
    __slots__ = ("name", "lo", "hi", "id", "kind")


class Poly:
    """Integer linear combination: tuple of (atom id, coefficient), constant."""
    __slots__ = ("m", "c", "lo", "hi", "key")


class Enc:
    def __init__(self, real=False, disj=False, opaque=False):
        # opaque: the product of two multi-limb values is a single atom
        self.opaque = opaque
        self.disj = disj
        # real: relax the integer atoms to reals (a relaxation, so `unsat`
        # stays conclusive); comparisons are emitted with the integer gap in
        # both polarities so that little precision is lost
        self.real = real
        self.sort = "Real" if real else "Int"
        self.nlit = 0
        self.lits = {}
        self.atoms = []
        self.cons = []          # constraint text, in order of creation
        self.memo = {}
        self.bmemo = {}
        self.dm = {}
        self.prods = {}
        self.batoms = {}
        self.decl = []
        self.defs = []
        self.vars = {}
        self.nprod = 0
        self.named = {}
        self.udivs = {}
        self.env = set()
        self.itedef = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, lo, hi, name=None, kind="aux"):
        a = Atom()
        a.id = len(self.atoms)
        a.name = name or "x%d" % a.id
        a.lo, a.hi = lo, hi
        a.kind = kind
        self.atoms.append(a)
        self.decl.append("(declare-const %s %s)" % (a.name, self.sort))
        self.cons.append("(and (<= %s %s) (<= %s %s))" % (num(lo), a.name, a.name, num(hi)))
        if self.real and hi - lo <= 3:
            self.cons.append("(or %s)" % " ".join("(= %s %s)" % (a.name, num(v)) for v in range(lo, hi + 1)))
        return a

    def poly(self, m, c, lo=None, hi=None):
        p = Poly()
        m = {k: v for k, v in m.items() if v}
        p.m = m
        p.c = c
        l = h = c
        for k, v in m.items():
            a = self.atoms[k]
            if v > 0:
                l += v * a.lo
                h += v * a.hi
            else:
                l += v * a.hi
                h += v * a.lo
        p.lo = l if lo is None else max(l, lo)
        p.hi = h if hi is None else min(h, hi)
        p.key = (c, tuple(sorted(m.items())))
        return p

    def cpoly(self, c):
        return self.poly({}, c)

    def apoly(self, a):
        return self.poly({a.id: 1}, 0)

    def lin(self, *terms, c=0):
        """Sum of coefficient * poly."""
        m = {}
        lo = hi = c
        for k, p in terms:
            c += k * p.c
            for a, v in p.m.items():
                m[a] = m.get(a, 0) + k * v
            if k > 0:
                lo += k * p.lo
                hi += k * p.hi
            else:
                lo += k * p.hi
                hi += k * p.lo
        return self.poly(m, c, lo, hi)

    def txt(self, p):
        parts = []
        for k, v in p.m.items():
            n = self.atoms[k].name
            parts.append(n if v == 1 else "(* %s %s)" % (num(v), n))
        if p.c or not parts:
            parts.append(num(p.c))
        return parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)

    def le(self, a, b):
        """a <= b as text."""
        d = self.lin((1, b), (-1, a))
        if d.lo >= 0:
            return "true"
        if d.hi < 0:
            return "false"
        pos = {k: v for k, v in d.m.items() if v > 0}
        neg = {k: -v for k, v in d.m.items() if v < 0}
        g = 0
        for v in d.m.values():
            g = gcd(g, abs(v))
        c = d.c // g            # sum + c >= 0 over the integers
        pos = {k: v // g for k, v in pos.items()}
        neg = {k: v // g for k, v in neg.items()}
        return self.lit(pos, neg, c)

    def lit(self, pos, neg, c):
        """Literal for pos - neg + c >= 0."""
        pt = self.txt(self.poly(pos, 0))
        nt = self.txt(self.poly(neg, 0))
        key = (pt, nt, c)
        x = self.lits.get(key)
        if x is not None:
            return x
        y = self.lits.get((nt, pt, -c - 1))
        if y is not None:
            return "(not %s)" % y
        self.nlit += 1
        n = "l%d" % self.nlit
        self.decl.append("(declare-const %s Bool)" % n)
        l, r = self.poly(neg, -c if c < 0 else 0), self.poly(pos, c if c > 0 else 0)
        l2, r2 = self.poly(pos, c + 1 if c + 1 > 0 else 0), self.poly(neg, -c - 1 if c + 1 < 0 else 0)
        self.cons.append("(ite %s (<= %s %s) (<= %s %s))" % (n, self.txt(l), self.txt(r), self.txt(l2), self.txt(r2)))
        self.lits[key] = n
        return n

    def raw_le(self, a, b):
        """a <= b asserted unconditionally (no literal)."""
        d = self.lin((1, b), (-1, a))
        d = self.poly(d.m, d.c)
        if d.lo >= 0:
            return
        pos = {k: v for k, v in d.m.items() if v > 0}
        neg = {k: -v for k, v in d.m.items() if v < 0}
        l = self.poly(neg, -d.c if d.c < 0 else 0)
        r = self.poly(pos, d.c if d.c > 0 else 0)
        self.cons.append("(<= %s %s)" % (self.txt(l), self.txt(r)))

    def eqlit(self, a, b):
        """Equality usable in both polarities."""
        e = self.eqt(a, b)
        if e in ("true", "false"):
            return e
        x = self.lits.get(e)
        if x is None:
            self.nlit += 1
            x = "l%d" % self.nlit
            self.decl.append("(declare-const %s Bool)" % x)
            lo, hi = self.le(a, b), self.le(b, a)
            self.cons.append("(= %s (and %s %s))" % (x, lo, hi))
            self.lits[e] = x
        return x

    def eqt(self, a, b):
        d = self.lin((1, b), (-1, a))
        if d.lo > 0 or d.hi < 0:
            return "false"
        if not d.m:
            return "true" if d.c == 0 else "false"
        # gcd test
        g = 0
        for v in d.m.values():
            g = gcd(g, abs(v))
        if d.c % g:
            return "false"
        pos = {k: v // g for k, v in d.m.items() if v > 0}
        neg = {k: -v // g for k, v in d.m.items() if v < 0}
        c = d.c // g
        l = self.poly(neg, -c if c < 0 else 0)
        r = self.poly(pos, c if c > 0 else 0)
        return "(= %s %s)" % (self.txt(l), self.txt(r))

    # ---------------------------------------------------------- div / mod
    def divmod(self, p, d):
        """(q, r) polys with p = q*d + r, 0 <= r < d for constant d > 0."""
        if d == 1:
            return p, self.cpoly(0)
        if p.lo >= 0 and p.hi < d:
            return self.cpoly(0), p
        key = (p.key, d)
        x = self.dm.get(key)
        if x is not None:
            return x
        qm, rm = {}, {}
        for k, v in p.m.items():
            if v % d == 0:
                qm[k] = v // d
            else:
                # balanced split keeps the remainder part small
                rm[k] = v
        qc, rc = p.c // d, p.c % d
        rest = self.poly(rm, rc)
        base = self.poly(qm, qc)
        if rest.lo >= 0 and rest.hi < d:
            q, r = base, rest
            q = self.poly(q.m, q.c, p.lo // d, p.hi // d)
        else:
            k2 = (rest.key, d)
            y = self.dm.get(k2)
            g = d
            for v in rm.values():
                g = gcd(g, abs(v))
            if y is None and g > 1:
                # common factor g: the sub-g part of the constant is part of
                # the remainder
                lowc = rest.c % g
                r1 = self.poly({k: v // g for k, v in rm.items()}, rest.c // g,
                               -(-(rest.lo - lowc) // g), (rest.hi - lowc) // g)
                q0, r0 = self.divmod(r1, d // g)
                r0 = self.lin((g, r0), c=lowc)
                y = (q0, r0)
                self.dm[k2] = y
            if y is None:
                ql, qh = rest.lo // d, rest.hi // d
                # use tighter knowledge about the whole polynomial
                if not qm and qc == 0:
                    ql, qh = max(ql, p.lo // d), min(qh, p.hi // d)
                if ql == qh:
                    q0 = self.cpoly(ql)
                else:
                    q0 = self.apoly(self.atom(ql, qh))
                r0 = self.lin((1, rest), (-d, q0))
                r0 = self.poly(r0.m, r0.c, 0, d - 1)
                s = self.txt(r0)
                self.cons.append("(and (<= 0 %s) (<= %s %s))" % (s, s, num(d - 1)))
                y = (q0, r0)
                self.dm[k2] = y
            q = self.lin((1, base), (1, y[0]))
            q = self.poly(q.m, q.c, p.lo // d, p.hi // d)
            r = y[1]
        self.dm[key] = (q, r)
        return q, r

    # ------------------------------------------------------------ products
    def prod_atoms(self, i, j):
        if i > j:
            i, j = j, i
        key = (i, j)
        x = self.prods.get(key)
        if x is not None:
            return x
        a, b = self.atoms[i], self.atoms[j]
        if i == j and a.lo == 0 and a.hi == 1:
            self.prods[key] = i
            return i
        cs = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        p = self.atom(min(cs), max(cs), kind=("prod", i, j))
        n = p.name
        A, B = a.name, b.name
        self.nprod += 1

        def lin(ca, cb, c):
            parts = []
            if ca:
                parts.append("(* %s %s)" % (num(ca), A))
            if cb:
                parts.append("(* %s %s)" % (num(cb), B))
            if c or not parts:
                parts.append(num(c))
            return parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)
        self.cons.append("(>= %s %s)" % (n, lin(b.lo, a.lo, -a.lo * b.lo)))
        self.cons.append("(>= %s %s)" % (n, lin(b.hi, a.hi, -a.hi * b.hi)))
        self.cons.append("(<= %s %s)" % (n, lin(b.hi, a.lo, -a.lo * b.hi)))
        self.cons.append("(<= %s %s)" % (n, lin(b.lo, a.hi, -a.hi * b.lo)))
        self.prods[key] = p.id
        if self.disj and a.lo == 0 and b.lo == 0 and a.hi > 1 and b.hi > 1 and i != j:
            # a nonzero factor does not shrink the other one
            self.cons.append("(or (= %s 0) (>= %s %s))" % (A, n, B))
            self.cons.append("(or (= %s 0) (>= %s %s))" % (B, n, A))
        for u, v in ((a, b), (b, a)):
            if 1 < u.hi - u.lo <= 6:
                # narrow factor: the product is exact by cases
                self.cons.append("(or %s)" % " ".join(
                    "(and (= %s %s) (= %s (* %s %s)))" % (u.name, num(k), n, num(k), v.name)
                    for k in range(u.lo, u.hi + 1)))
                break
        for u, v in ((i, j), (j, i)):
            d = self.itedef.get(u)
            if d is not None:
                # product of a conditional: follow the branches
                c, x, y = d
                o = self.apoly(self.atoms[v])
                px, py = self.mulp(x, o), self.mulp(y, o)
                pp = self.apoly(p)
                self.cons.append("(ite %s %s %s)" % (c, self.eqt(pp, px), self.eqt(pp, py)))
        return p.id

    def name(self, p):
        """Atom equal to polynomial p."""
        if len(p.m) == 1 and p.c == 0 and list(p.m.values())[0] == 1:
            return list(p.m)[0]
        x = self.named.get(p.key)
        if x is None:
            a = self.atom(p.lo, p.hi)
            self.cons.append(self.eqt(self.apoly(a), p))
            x = a.id
            self.named[p.key] = x
        return x

    def mulp(self, p, q):
        if not p.m:
            r = self.lin((p.c, q))
            return r
        if not q.m:
            return self.lin((q.c, p))
        if len(p.m) * len(q.m) > 1200:
            raise IntUnsupported("product too large")
        m = {}
        c = p.c * q.c
        for a, v in p.m.items():
            m[a] = m.get(a, 0) + v * q.c
        for a, v in q.m.items():
            m[a] = m.get(a, 0) + v * p.c
        for a, v in p.m.items():
            for b, u in q.m.items():
                k = self.prod_atoms(a, b)
                m[k] = m.get(k, 0) + v * u
        cs = [p.lo * q.lo, p.lo * q.hi, p.hi * q.lo, p.hi * q.hi]
        r = self.poly(m, c, min(cs), max(cs))
        if len(p.m) > 1 or len(q.m) > 1 or p.c or q.c:
            # envelope of the whole product, implied but not derivable from
            # the envelopes of the monomials
            key = (p.key, q.key) if p.key <= q.key else (q.key, p.key)
            if key not in self.env:
                self.env.add(key)
                for x, y, up in ((p.lo, q.lo, False), (p.hi, q.hi, False), (p.lo, q.hi, True), (p.hi, q.lo, True)):
                    # (p - x)(q - y) >= 0 (or <= 0)
                    l = self.lin((y, p), (x, q), c=-x * y)
                    l = self.poly(l.m, l.c)
                    rr = self.poly(r.m, r.c)
                    if up:
                        self.raw_le(rr, l)
                    else:
                        self.raw_le(l, rr)
        return r

    # ----------------------------------------------------------- booleans
    def batom(self, t):
        """0/1 polynomial of a boolean term."""
        if T.isc(t):
            return self.cpoly(t.p)
        if t.op == "not":
            return self.lin((-1, self.batom(t.args[0])), c=1)
        x = self.batoms.get(t.id)
        if x is not None:
            return x
        if t.op == "extract":
            x = self.ext(t)
        elif t.op == "var":
            x = self.apoly(self.atom(0, 1, self.vname(t), ("var", t.p)))
            self.vars[t.p] = self.vname(t)
        else:
            b = self.b(t)
            if b == "true":
                x = self.cpoly(1)
            elif b == "false":
                x = self.cpoly(0)
            else:
                a = self.atom(0, 1)
                self.cons.append("(ite %s (= %s 1) (= %s 0))" % (b, a.name, a.name))
                x = self.apoly(a)
        self.batoms[t.id] = x
        return x

    def vname(self, t):
        return "v_" + "".join(c if c.isalnum() else "_" for c in str(t.p))

    def b(self, t):
        """Boolean term as text."""
        if T.isc(t):
            return "true" if t.p else "false"
        x = self.bmemo.get(t.id)
        if x is None:
            for s in post(t, self.bmemo, self.memo):
                if s.w == 1:
                    if s.id not in self.bmemo and not T.isc(s):
                        self.bmemo[s.id] = self.b1(s)
                else:
                    self.p(s)
            x = self.bmemo[t.id]
        return x

    def b1(self, t):
        op = t.op
        if op == "not":
            return neg(self.b(t.args[0]))
        if op in ("and", "or"):
            a, b = self.b(t.args[0]), self.b(t.args[1])
            z, u = ("false", "true") if op == "and" else ("true", "false")
            if a == z or b == z:
                return z
            if a == u:
                return b
            if b == u:
                return a
            r = "(%s %s %s)" % (op, a, b)
        elif op == "xor":
            r = "(xor %s %s)" % (self.b(t.args[0]), self.b(t.args[1]))
        elif op == "ite":
            r = "(ite %s %s %s)" % tuple(self.b(x) for x in t.args)
        elif op == "eq":
            r = self.eqlit(self.p(t.args[0]), self.p(t.args[1]))
        elif op == "ult":
            r = neg(self.le(self.p(t.args[1]), self.p(t.args[0])))
        elif op == "slt":
            r = neg(self.le(self.signed(t.args[1]), self.signed(t.args[0])))
        elif op in ("extract", "var"):
            r = self.le(self.cpoly(1), self.batom(t))
        else:
            raise IntUnsupported("boolean " + op)
        if r in ("true", "false") or len(r) < 24:
            return r
        n = "b%d" % t.id
        self.defs.append((len(self.decl), "(define-fun %s () Bool %s)" % (n, r)))
        self.decl.append("(define-fun %s () Bool %s)" % (n, r))
        return n

    # ------------------------------------------------------------- values
    def signed(self, t):
        p = self.p(t)
        w = t.w
        if p.hi < 1 << (w - 1):
            return p
        if p.lo >= 1 << (w - 1):
            return self.lin((1, p), c=-(1 << w))
        q, r = self.divmod(p, 1 << (w - 1))
        return self.lin((1, p), (-(1 << w), q))

    def p(self, t):
        if t.w == 1:
            return self.batom(t)
        x = self.memo.get(t.id)
        if x is None:
            for s in post(t, self.bmemo, self.memo):
                if s.w == 1:
                    if s.id not in self.bmemo and not T.isc(s):
                        self.bmemo[s.id] = self.b1(s)
                elif s.id not in self.memo:
                    r = self.p1(s)
                    if s.lo > r.lo or s.hi < r.hi:
                        r = self.poly(r.m, r.c, max(s.lo, r.lo), min(s.hi, r.hi))
                    self.memo[s.id] = r
            x = self.memo[t.id]
        return x

    def ext(self, t):
        p = self.p(t.args[0])
        q, _ = self.divmod(p, 1 << t.p)
        if t.p + t.w < t.args[0].w or q.hi >> t.w:
            _, q = self.divmod(q, 1 << t.w)
        return q

    def wrap(self, p, w):
        if p.lo >= 0 and p.hi < 1 << w:
            return p
        return self.divmod(p, 1 << w)[1]

    def p1(self, t):
        op = t.op
        w = t.w
        A = t.args
        if op == "const":
            return self.cpoly(t.p)
        if op == "var":
            a = self.atom(t.lo, t.hi, self.vname(t), ("var", t.p))
            self.vars[t.p] = a.name
            return self.apoly(a)
        if op == "extract":
            return self.ext(t)
        if op == "concat":
            return self.lin((1 << A[1].w, self.p(A[0])), (1, self.p(A[1])))
        if op == "zext":
            return self.p(A[0])
        if op == "sext":
            return self.wrap(self.signed(A[0]), w)
        if op == "add":
            return self.wrap(self.lin((1, self.p(A[0])), (1, self.p(A[1]))), w)
        if op == "sub":
            return self.wrap(self.lin((1, self.p(A[0])), (-1, self.p(A[1]))), w)
        if op == "bvnot":
            return self.lin((-1, self.p(A[0])), c=T.mask(w))
        if op == "mul":
            if self.opaque and w > 128:
                p, q = self.p(A[0]), self.p(A[1])
                if len(p.m) > 1 and len(q.m) > 1:
                    return self.wrap(self.apoly(self.atoms[self.prod_atoms(self.name(p), self.name(q))]), w)
            return self.wrap(self.mulp(self.p(A[0]), self.p(A[1])), w)
        if op == "ite":
            c = self.b(A[0])
            if c == "true":
                return self.p(A[1])
            if c == "false":
                return self.p(A[2])
            a, b = self.p(A[1]), self.p(A[2])
            d = self.lin((1, a), (-1, b))
            if not d.m:
                if d.c == 0:
                    return a
                r = self.lin((1, b), (d.c, self.batom(A[0])))
                return self.poly(r.m, r.c, min(a.lo, b.lo), max(a.hi, b.hi))
            if len(d.m) <= 2 and all(self.atoms[k].lo >= 0 and self.atoms[k].hi <= 1 for k in d.m):
                r = self.lin((1, b), (1, self.mulp(d, self.batom(A[0]))))
                return self.poly(r.m, r.c, min(a.lo, b.lo), max(a.hi, b.hi))
            x = self.atom(min(a.lo, b.lo), max(a.hi, b.hi))
            xp = self.apoly(x)
            self.cons.append("(ite %s %s %s)" % (c, self.eqt(xp, a), self.eqt(xp, b)))
            self.itedef[x.id] = (c, a, b)
            return xp
        if op in ("udiv", "urem"):
            q, r = self.udivmod(t)
            return q if op == "udiv" else r
        if op in ("and", "or", "xor"):
            return self.bitop(t)
        if op in ("shl", "lshr", "ashr"):
            return self.shift(t)
        if op == "ctlz":
            x = self.p(A[0])
            return self.lin(*[(1, self.below(x, 1 << j)) for j in range(A[0].w)])
        if op == "ctpop":
            return self.lin(*[(1, self.p(T.extract(A[0], j, 1))) for j in range(A[0].w)])
        raise IntUnsupported(op)

    def below(self, x, k):
        """0/1 poly of [x < k]."""
        if x.hi < k:
            return self.cpoly(1)
        if x.lo >= k:
            return self.cpoly(0)
        key = ("below", x.key, k)
        y = self.dm.get(key)
        if y is None:
            a = self.atom(0, 1)
            y = self.apoly(a)
            s = self.txt(x)
            self.cons.append("(ite %s (= %s 1) (= %s 0))" % (self.le(x, self.cpoly(k - 1)), a.name, a.name))
            self.dm[key] = y
        return y

    def udivmod(self, t):
        a, b = self.p(t.args[0]), self.p(t.args[1])
        if not b.m:
            if b.c == 0:
                return self.cpoly(T.mask(t.w)), a
            return self.divmod(a, b.c)
        key = (a.key, b.key, t.w)
        x = self.udivs.get(key)
        if x is not None:
            return x
        w = t.w
        if b.lo >= 1:
            q = self.atom(a.lo // b.hi, a.hi // b.lo)
            qp = self.apoly(q)
            r = self.lin((1, a), (-1, self.mulp(qp, b)))
            r = self.poly(r.m, r.c, 0, b.hi - 1)
            s = self.txt(r)
            self.raw_le(self.cpoly(0), self.poly(r.m, r.c))
            self.raw_le(self.lin((1, self.poly(r.m, r.c)), c=1), b)
            x = (qp, r)
        else:
            # division by zero: all ones / dividend.  The quotient used when
            # the divisor is non-zero is bounded by the dividend.
            q = self.atom(0, a.hi)
            q0 = self.apoly(q)
            r0 = self.lin((1, a), (-1, self.mulp(q0, b)))
            z = self.le(b, self.cpoly(0))
            s = self.txt(r0)
            self.cons.append("(or %s (and (<= 0 %s) %s))" % (z, s, neg(self.le(b, self.poly(r0.m, r0.c)))))
            r0 = self.poly(r0.m, r0.c, 0, a.hi)
            self.cons.append("(=> %s (= %s 0))" % (z, q.name))
            qq = self.atom(0, T.mask(w))
            self.cons.append("(ite %s (= %s %s) (= %s %s))" % (z, qq.name, num(T.mask(w)), qq.name, q.name))
            x = (self.apoly(qq), r0)
        self.udivs[key] = x
        return x

    def bitop(self, t):
        a, b = self.p(t.args[0]), self.p(t.args[1])
        if 0 <= a.lo and a.hi <= 1 and 0 <= b.lo and b.hi <= 1:
            x = T.extract(t.args[0], 0, 1)
            y = T.extract(t.args[1], 0, 1)
            f = {"and": T.and_, "or": T.or_, "xor": T.xor_}[t.op]
            return self.batom(f(x, y))
        # bit by bit when narrow
        n = max(a.hi.bit_length(), b.hi.bit_length())
        f = {"and": T.and_, "or": T.or_, "xor": T.xor_}[t.op]
        if t.op == "or":
            # or = sum - and; disjoint operands have no common bits
            d = disjoint_shift(t.args[0], t.args[1])
            if d:
                return self.lin((1, a), (1, b))
        if n > 64:
            raise IntUnsupported("bitwise %s of %d bits" % (t.op, n))
        ts = []
        for j in range(n):
            ts.append((1 << j, self.batom(f(T.extract(t.args[0], j, 1), T.extract(t.args[1], j, 1)))))
        return self.lin(*ts)

    def shift(self, t):
        x, s = t.args
        w = t.w
        sp = self.p(s)
        lo, hi = max(0, sp.lo), min(sp.hi, w)
        f = {"shl": T.shl, "lshr": T.lshr, "ashr": T.ashr}[t.op]
        r = f(x, T.const(hi, w)) if hi <= T.mask(w) else T.const(0, w)
        for k in range(hi - 1, lo - 1, -1):
            r = T.ite(T.eq(s, T.const(k, w)), f(x, T.const(k, w)), r)
        return self.p(r)

    def script(self, roots, get_model=True, logic=None):
        """SMT-LIB script asserting all roots (boolean terms)."""
        tx = [self.b(r) for r in roots]
        out = ["(set-logic %s)" % (logic or ("QF_LRA" if self.real else "QF_LIA"))]
        out += self.decl
        out += ["(assert %s)" % c for c in self.cons if c != "true"]
        out += ["(assert %s)" % x for x in tx if x != "true"]
        out.append("(check-sat)")
        return "\n".join(out) + "\n"


def disjoint_shift(a, b):
    return False


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def num(v):
    return str(v) if v >= 0 else "(- %d)" % -v


def neg(s):
    if s == "true":
        return "false"
    if s == "false":
        return "true"
    if s.startswith("(not "):
        return s[5:-1]
    return "(not %s)" % s


def post(root, *seen):
    """Post-order of the sub-terms not present in the given memo tables."""
    out = []
    st = [(root, False)]
    vis = set()
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in vis:
            continue
        if (t.id in seen[0]) if t.w == 1 else (t.id in seen[1]):
            continue
        vis.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in vis:
                st.append((a, False))
    return out
