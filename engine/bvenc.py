"""Bit-vector encoding of terms (SMT-LIB QF_BV text).

With `abstract` set, wide multiplications and divisions become free
variables keyed by their operands plus a few valid facts about them, so that
`unsat` stays conclusive while a model has to be replayed.
"""
import term as T


def _ctlz(x):
    """Count of leading zeros with basic operations, result width x.w."""
    w = x.w
    n = 1
    while n < w:
        n *= 2
    y = x if n == w else T.concat(x, T.const(T.mask(n - w), n - w))
    # recursive halving: returns (all zero?, count)

    def rec(v):
        if v.w == 1:
            return T.not_(v), T.zext(T.not_(v), 12)
        h = v.w // 2
        hi, lo = T.extract(v, h, v.w - h), T.extract(v, 0, h)
        zh, ch = rec(hi)
        zl, cl = rec(lo)
        return T.and_(zh, zl), T.ite(zh, T.add(T.const(h, 12), cl), ch)
    z, c = rec(y)
    c = T.ite(T.eq(x, T.const(0, w)), T.const(w, 12), c)
    return fit(c, w)


def fit(c, w):
    return T.extract(c, 0, w) if c.w > w else T.zext(c, w)


def _cttz(x):
    return fit(_ctlz(T.bitreverse(x)), x.w)


def _ctpop(x):
    w = x.w
    ls = [T.zext(T.extract(x, i, 1), 12) for i in range(w)]
    while len(ls) > 1:
        ls = [T.add(ls[i], ls[i + 1]) if i + 1 < len(ls) else ls[i] for i in range(0, len(ls), 2)]
    return fit(ls[0], w)


def characterise(op, x, facts):
    """A fresh variable pinned down as the leading/trailing zero count of x."""
    w = x.w
    c = T.var("cnt_%s_%d" % (op, x.id), w, 0, w if x.lo == 0 else w - 1)
    z = T.eq(x, T.const(0, w))
    facts.append(T.not_(T.xor_(z, T._mk("eq", (c, T.const(w, w)), 1))))
    if op == "ctlz":
        facts.append(T.or_(z, T.eq(T.lshr(x, T.sub(T.const(w - 1, w), c)), T.const(1, w))))
    else:
        facts.append(T.or_(z, T.extract(T.lshr(x, c), 0, 1)))
        facts.append(T.or_(z, T.eq(T.shl(x, T.sub(T.const(w, w), c)), T.const(0, w))))
    return c


def expand(roots, relational=False):
    """Rewrite counting operations into basic ones."""
    memo = {}
    hit = False
    facts = []
    for t in T.topo(roots):
        if not t.args:
            memo[t.id] = t
            continue
        a = [memo[x.id] for x in t.args]
        if t.op in ("ctlz", "cttz", "ctpop"):
            hit = True
            if relational and t.op != "ctpop" and t.w > 8:
                memo[t.id] = characterise(t.op, a[0], facts)
                continue
            memo[t.id] = {"ctlz": _ctlz, "cttz": _cttz, "ctpop": _ctpop}[t.op](a[0])
        elif all(x is y for x, y in zip(a, t.args)):
            memo[t.id] = t
        else:
            memo[t.id] = T.rebuild(t, a)
    return [memo[r.id] for r in roots] + facts if hit else list(roots)


class BV:
    def __init__(self, abstract=0, relational=False):
        self.relational = relational    # counts as constrained variables
        self.abstract = abstract        # operand width from which to abstract
        self.vars = {}
        self.nabs = 0

    def hexc(self, v, w):
        if w % 4 == 0:
            return "#x%0*x" % (w // 4, v)
        return "(_ bv%d %d)" % (v, w)

    def script(self, roots):
        roots = expand(roots, self.relational)
        out = ["(set-logic QF_BV)"]
        body = []
        name = {}
        facts = []

        def vname(t):
            return "v_" + "".join(c if c.isalnum() else "_" for c in str(t.p))
        for t in T.topo(roots):
            op, w, a = t.op, t.w, [name[x.id] for x in t.args]
            if op == "const":
                name[t.id] = ("true" if t.p else "false") if w == 1 else self.hexc(t.p, w)
                continue
            if op == "var":
                n = vname(t)
                self.vars[t.p] = (n, w)
                if w == 1:
                    out.append("(declare-const %s Bool)" % n)
                else:
                    out.append("(declare-const %s (_ BitVec %d))" % (n, w))
                    if t.lo > 0:
                        facts.append("(bvuge %s %s)" % (n, self.hexc(t.lo, w)))
                    if t.hi < T.mask(w):
                        facts.append("(bvule %s %s)" % (n, self.hexc(t.hi, w)))
                name[t.id] = n
                continue
            n = "t%d" % t.id
            name[t.id] = n
            if self.abstract and op in ("mul", "udiv", "urem") and not any(T.isc(x) for x in t.args) \
                    and min(sig_bits(t.args[0]), sig_bits(t.args[1])) >= self.abstract:
                self.nabs += 1
                body.append("(declare-const %s (_ BitVec %d))" % (n, w))
                z = self.hexc(0, w)
                if op == "mul":
                    facts.append("(=> (or (= %s %s) (= %s %s)) (= %s %s))" % (a[0], z, a[1], z, n, z))
                    one = self.hexc(1, w)
                    facts.append("(=> (= %s %s) (= %s %s))" % (a[0], one, n, a[1]))
                    facts.append("(=> (= %s %s) (= %s %s))" % (a[1], one, n, a[0]))
                elif op == "udiv":
                    facts.append("(=> (distinct %s %s) (bvule %s %s))" % (a[1], z, n, a[0]))
                    facts.append("(=> (= %s %s) (= %s (bvnot %s)))" % (a[1], z, n, z))
                    facts.append("(=> (= %s %s) (= %s %s))" % (a[1], self.hexc(1, w), n, a[0]))
                    facts.append("(=> (bvult %s %s) (= %s %s))" % (a[0], a[1], n, z))
                    facts.append("(=> (and (distinct %s %s) (bvuge %s %s)) (bvuge %s %s))"
                                 % (a[1], z, a[0], a[1], n, self.hexc(1, w)))
                    facts.append("(=> (and (distinct %s %s) (distinct %s %s)) (bvule %s (bvlshr %s %s)))"
                                 % (a[1], z, a[1], self.hexc(1, w), n, a[0], self.hexc(1, w)))
                else:
                    facts.append("(=> (distinct %s %s) (bvult %s %s))" % (a[1], z, n, a[1]))
                    facts.append("(=> (= %s %s) (= %s %s))" % (a[1], z, n, a[0]))
                    facts.append("(bvule %s %s)" % (n, a[0]))
                    facts.append("(=> (bvult %s %s) (= %s %s))" % (a[0], a[1], n, a[0]))
                continue
            if w == 1 and op in ("not", "and", "or", "xor", "ite"):
                if op == "not":
                    e = "(not %s)" % a[0]
                elif op == "ite":
                    e = "(ite %s %s %s)" % tuple(a)
                else:
                    e = "(%s %s %s)" % (op, a[0], a[1])
            elif op == "eq":
                e = "(= %s %s)" % (a[0], a[1])
            elif op == "ult":
                e = "(bvult %s %s)" % (a[0], a[1])
            elif op == "slt":
                e = "(bvslt %s %s)" % (a[0], a[1])
            elif op == "extract":
                e = "((_ extract %d %d) %s)" % (t.p + w - 1, t.p, a[0])
                if w == 1:
                    e = "(= %s #b1)" % e
            else:
                # operands that are boolean have to be lifted
                a = ["(ite %s #b1 #b0)" % n0 if x.w == 1 else n0 for n0, x in zip(a, t.args)]
                if op == "ite":
                    e = "(ite %s %s %s)" % (name[t.args[0].id], a[1], a[2])
                elif op == "concat":
                    e = "(concat %s %s)" % (a[0], a[1])
                elif op == "zext":
                    e = "((_ zero_extend %d) %s)" % (w - t.args[0].w, a[0])
                elif op == "sext":
                    e = "((_ sign_extend %d) %s)" % (w - t.args[0].w, a[0])
                else:
                    e = "(%s %s)" % ({"bvnot": "bvnot", "and": "bvand", "or": "bvor", "xor": "bvxor", "add": "bvadd",
                                      "sub": "bvsub", "mul": "bvmul", "udiv": "bvudiv", "urem": "bvurem",
                                      "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr"}[op], " ".join(a))
            if w == 1:
                body.append("(define-fun %s () Bool %s)" % (n, e))
            else:
                body.append("(define-fun %s () (_ BitVec %d) %s)" % (n, w, e))
        out += body
        out += ["(assert %s)" % f for f in facts]
        out += ["(assert %s)" % name[r.id] for r in roots]
        out.append("(check-sat)")
        return "\n".join(out) + "\n"


def sig_bits(t):
    return t.hi.bit_length()
