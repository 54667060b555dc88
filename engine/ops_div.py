"""Division and remainder."""
import copy
import core
import solve
import term as T
import knuth
from core import Op, bigvar
from spec import R, Opt, pol, isz, nz

OPS = []
CORE = []


def mk(name, rust, args, ret, fn, **kw):
    OPS.append(Op(name, rust, args, ret, fn, **kw))


def limbvars(c, name, n, total, top=1):
    """Value with exactly n significant limbs (n = 0: zero)."""
    ls = [T.var("%s_%d" % (name, i), c.limb, top if i == n - 1 else 0) for i in range(n)]
    ls += [T.const(0, c.limb)] * (total - n)
    return knuth.cat(ls)


def shapes(la, lb):
    """Numbers of significant limbs of dividend and divisor."""
    out = [(("zero",), "/0")]
    for na in range(2, la + 1):
        out.append((("one", na), "%d/1 limbs" % na))
    for nb in range(1, lb + 1):
        out.append((("lt", nb), "%d/%d limbs" % (nb - 1, nb)))
        out.append((("le", nb), "%d/%d limbs, less" % (nb, nb)))
        out.append((("eq", nb), "%d/%d limbs, equal" % (nb, nb)))
        for na in range(nb, la + 1 if nb > 1 else 2):
            out.append((("k", nb, na - nb), "%d/%d limbs" % (na, nb)))
    return out


def core_splits(c, tier):
    n = c.bits // c.limb
    sh = shapes(n, n)
    if tier == "quick" and n > 4:
        # long divisors of the larger shapes: the shortest and the longest ones
        sh = [(s, l) for s, l in sh if s[0] != "k" or s[1] <= 3 or s[1] == n]
    return sh


def core_args(c, split):
    n = c.bits // c.limb
    k = split[0]
    if k == "any":
        return [("S", limbvars(c, "g0", n, n, 0)), ("S", limbvars(c, "g1", n, n, 0))], T.TRUE
    if k == "zero":
        return [("S", limbvars(c, "a0", n, n, 0)), ("S", c.k(0))], T.TRUE
    if k == "one":
        return [("S", limbvars(c, "a0", split[1], n)), ("S", limbvars(c, "a1", 1, n))], T.TRUE
    nb = split[1]
    if k == "lt":
        return [("S", limbvars(c, "a0", nb - 1, n, 0)), ("S", limbvars(c, "a1", nb, n))], T.TRUE
    if k == "eq":
        a = limbvars(c, "a0", nb, n)
        return [("S", a), ("S", a)], T.TRUE
    a, b = limbvars(c, "a0", nb + (split[2] if k == "k" else 0), n), limbvars(c, "a1", nb, n)
    return [("S", a), ("S", b)], T.ult(a, b) if k == "le" else T.ult(b, a)


def divrel(c, a, b):
    """a = q*b + r with r < b characterises the quotient and remainder."""
    def rel(o):
        q, r = o
        W = a.w + b.w
        return [("a = q*b + r", T.eq(T.add(T.mul(T.zext(q, W), T.zext(b, W)), T.zext(r, W)), T.zext(a, W))),
                ("r < b", T.ult(r, b))]
    return R(rel=rel, panic=isz(b))


def replayer(mkargs):
    """Run the real code on operands of any shape."""
    def replay(P, a, b):
        c = P.job.c
        Q = copy.copy(P)
        Q.args, Q.assume = mkargs(c, ("any",))
        Q.cells = core.in_cells(c, Q.args)
        Q.r = P.job.op.spec(c, *[x for _, x in Q.args])
        env = {}
        for p, x in (("g0", a), ("g1", b)):
            for i in range(c.bits // c.limb):
                env["%s_%d" % (p, i)] = (x >> (c.limb * i)) & T.mask(c.limb)
        rep = core.confirm(Q, env)
        return rep if rep["reproduced"] else None
    return replay


def core_prepare(P):
    P.lift_fn = knuth.lift(replayer(core_args))
    P.lift = {}
    sp = P.job.split
    c = P.job.c
    if sp[0] == "one":
        knuth.short(P)
    elif sp[0] != "k":
        knuth.simplify(P)
    if sp[0] != "k" or sp[1] == 1:
        return
    by_digits(P, sp[1], sp[2])


def by_digits(P, n, m):
    q, r = P.outs
    if knuth.run(P, P.args[0][1], P.args[1][1], n, m, q, r):
        P.obs = [(l, rs) for l, rs in P.obs if not l.startswith(("a =", "r <"))]
        for lab, rs, sc in P.digit_obs:
            P.obs.append((lab, rs))
            P.sched[lab] = sc
    else:
        # not recognised as long division
        for lab, _ in P.obs:
            P.sched[lab] = "glance"


mk("wrapping_div_rem", "a0.wrapping_div_rem(a1)", ["S", "S"], "(S,S)", divrel, signs="u", splits=core_splits,
   mkargs=core_args, prepare=core_prepare, sched="mul", cost=10)
CORE += OPS


# ------------------------------------------------- signed and derived forms
def facts(x, y, q, r):
    """Consequences of x = q*y + r, r < y for y > 0."""
    one = T.const(1, x.w)
    f = [T.ult(r, y), T.ule(q, x), T.ule(r, x),
         T.implies(T.eq(y, one), T.and_(T.eq(q, x), isz(r))),
         T.implies(T.ult(one, y), T.ule(q, T.lshr(x, one))),
         T.implies(T.ult(x, y), T.and_(isz(q), T.eq(r, x))),
         T.implies(T.eq(x, y), T.and_(T.eq(q, one), isz(r))),
         T.implies(T.ule(y, x), T.and_(nz(q), T.ule(r, T.sub(x, y)))),
         T.implies(T.and_(T.ule(y, x), T.ult(T.sub(x, y), y)), T.and_(T.eq(q, one), T.eq(r, T.sub(x, y))))]
    return [T.implies(nz(y), t) for t in f]


class Div:
    """Exact truncated division of the operands by magnitudes."""

    def __init__(self, c, a, b, ta="S", tb="S", w=None):
        w = w or c.bits
        self.c, self.a, self.b = c, a, b
        self.sa = T.sign(a) if c.sg(ta) else T.FALSE
        self.sb = T.sign(b) if c.sg(tb) else T.FALSE
        self.x = T.zext(T.ite(self.sa, T.neg(a), a), w)
        self.y = T.zext(T.ite(self.sb, T.neg(b), b), w) if b.w < w else T.ite(self.sb, T.neg(b), b)
        self.q, self.r = bigvar(c, "dq", w), bigvar(c, "dr", w)
        self.zero = isz(b)
        self.neg = T.xor_(self.sa, self.sb)
        self.ovf = T.and_(T.eq(a, c.mn()), T.eq(b, c.mx("U"))) if c.signed and b.w == a.w else T.FALSE
        self.Q = T.ite(self.neg, T.neg(self.q), self.q)
        self.R = T.ite(self.sa, T.neg(self.r), self.r)

    def fin(self, r):
        r.div = self
        r.lemmas = r.lemmas + facts(self.x, self.y, self.q, self.r)
        r.defs = [(T.variables([self.q]), T.udiv(self.x, self.y)), (T.variables([self.r]), T.urem(self.x, self.y))]
        return r


def divcut(P):
    """Divisions in the code are those of the specification: proven by
    comparing the operands, then quotient and remainder are named."""
    D = P.r.div
    base = [P.assume, P.r.pre]
    mp = {}
    for t in T.topo([x for _, rs in P.obs for x in rs]):
        if t.op in ("udiv", "urem") and t.w >= P.job.c.bits:
            x, y = T.subst(list(t.args), mp)
            q = T.or_(T.ne(T.zext(x, D.x.w), D.x), T.ne(T.zext(y, D.y.w), D.y)) if x.w <= D.x.w else T.TRUE
            if x.w == D.x.w and solve.check(base + [nz(D.y), q], "auto", budget=core.DEADLINE[0])[0] == "unsat":
                mp[t.id] = D.q if t.op == "udiv" else D.r
    P.obs = [(l, T.subst(rs, mp)) for l, rs in P.obs]


def policy(kind, pick):
    """pick(D) -> wrapped result(s); overflow is MIN / -1."""
    def f(c, a, b):
        D = Div(c, a, b)
        v = pick(D)
        if kind == "checked":
            r = R(Opt(T.not_(T.or_(D.zero, D.ovf)), v))
        elif kind == "overflowing":
            r = R((v, D.ovf), panic=D.zero)
        elif kind == "saturating":
            r = R(T.ite(D.ovf, c.mx(), v), panic=D.zero)
        elif kind == "strict":
            r = R(v, panic=T.or_(D.zero, D.ovf))
        elif kind == "wrapping":
            r = R(v, panic=D.zero)
        else:
            r = R(v, panic=T.or_(D.zero, D.ovf) if c.ovf else D.zero)
        return D.fin(r)
    return f


def euclid(D):
    one = D.c.k(1)
    adj = T.and_(D.sa, nz(D.r))
    q = T.ite(adj, T.ite(D.sb, T.add(D.Q, one), T.sub(D.Q, one)), D.Q)
    return q, T.ite(adj, T.sub(D.y, D.r), D.R)


PICK = {"div": lambda D: D.Q, "rem": lambda D: D.R, "div_rem": lambda D: (D.Q, D.R),
        "div_euclid": lambda D: euclid(D)[0], "rem_euclid": lambda D: euclid(D)[1]}


def der(name, rust, ret, fn, models=("div", "neg", "add", "addlimb"), **kw):
    mk(name, rust, ["S", "S"], ret, fn, models=models, prepare=divcut, sched="auto", **kw)


der("wrapping_div_rem", "a0.wrapping_div_rem(a1)", "(S,S)", policy("wrapping", PICK["div_rem"]), models=("full", "neg"), signs="i")
for what in ("div", "rem", "div_rem", "div_euclid", "rem_euclid"):
    for kind in ("wrapping", "overflowing", "checked", "strict"):
        if what == "div_rem" and kind in ("wrapping", "strict"):
            continue
        v = "(S,S)" if what == "div_rem" else "S"
        ret = {"checked": "?" + v, "overflowing": "(%s,bool)" % v}.get(kind, v)
        der("%s_%s" % (kind, what), "a0.%s_%s(a1)" % (kind, what), ret, policy(kind, PICK[what]))
der("saturating_div", "a0.saturating_div(a1)", "S", policy("saturating", PICK["div"]))
der("div_rem", "a0.div_rem(a1)", "(S,S)", policy("", PICK["div_rem"]), ovf_dep=True)
der("div", "a0 / a1", "S", policy("", PICK["div"]), ovf_dep=True)
der("rem", "a0 % a1", "S", policy("", PICK["rem"]), ovf_dep=True)
der("div_ref", "a0 / &a1", "S", policy("", PICK["div"]), ovf_dep=True)
der("rem_ref", "a0 % &a1", "S", policy("", PICK["rem"]), ovf_dep=True)
for o, n in (("/", "div"), ("%", "rem")):
    der(n + "_assign", "{ let mut x = a0; x %s= a1; x }" % o, "S", policy("", PICK[n]), ovf_dep=True)
    der(n + "_assign_ref", "{ let mut x = a0; x %s= &a1; x }" % o, "S", policy("", PICK[n]), ovf_dep=True)
# documented to panic on MIN / -1 with and without overflow checks
der("div_euclid", "a0.div_euclid(a1)", "S", policy("strict", PICK["div_euclid"]), ovf_dep=True)
der("rem_euclid", "a0.rem_euclid(a1)", "S", policy("strict", PICK["rem_euclid"]), ovf_dep=True)


def floor(D):
    return T.ite(T.and_(D.neg, nz(D.r)), T.sub(D.Q, D.c.k(1)), D.Q)


def ceil(D):
    return T.ite(T.and_(T.not_(D.neg), nz(D.r)), T.add(D.Q, D.c.k(1)), D.Q)


der("div_floor", "a0.div_floor(a1)", "S", policy("strict", floor), ovf_dep=True)
der("div_ceil", "a0.div_ceil(a1)", "S", policy("strict", ceil), ovf_dep=True)
