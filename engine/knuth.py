"""Long division, decided digit by digit.

The quotient digits and partial remainders the code computes are located by
evaluation, and the loop is then decided one digit at a time: with the
partial remainder R < V and the next limb u replaced by fresh variables, the
code's digit q and new remainder R' have to satisfy q*V + R' = R*B + u and
R' < V.  By induction q and the last remainder are those of U = a * 2^s by
V = b * 2^s.  A wrong guess about which term is which only makes an
obligation fail; it cannot make a wrong program pass.
"""
import random
import time
import core
import solve
import term as T


def cat(ls):
    t = None
    for x in ls:
        t = x if t is None else T.concat(x, t)
    return t


def limbs(t, w):
    return [T.extract(t, i, w) for i in range(0, t.w, w)]


def digit_env(vs, rng):
    """Limb values that provoke quotient corrections."""
    env = {}
    hard = rng.random() < 0.7
    for v in vs:
        w = v.w
        if hard:
            x = rng.choice([0, 1, 2, T.mask(w), T.mask(w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1,
                            rng.getrandbits(w)])
        else:
            x = rng.getrandbits(rng.choice([w, w, w // 2, 3]))
        env[v.p] = min(max(x, v.lo), v.hi)
    return env


def samples(P, n, seed=5):
    rng = random.Random(seed)
    vs = T.variables([x for _, x in P.args])
    base = T.all_([P.assume, P.r.pre])
    envs, tries = [], 0
    while len(envs) < n and tries < 50 * n:
        tries += 1
        e = digit_env(vs, rng)
        if T.evaluate([base], e)[0]:
            envs.append(e)
    return envs


def val(bits, env):
    return T.evaluate([bits], env)[0]


def constants(P, envs, roots, w, limit=400):
    """Conditions and limbs that have one value for all inputs of the case
    (each proven)."""
    base = [P.assume, P.r.pre]
    mp = {}
    divs = stages(roots)
    ts = [t for t in T.topo(roots) if t.w in (1, w) and t.op not in ("const", "var") and not divs[t.id]]
    vals = [T.evaluate(ts, e) for e in envs]
    for i, t in enumerate(ts[:4 * limit]):
        v = vals[0][i]
        if any(r[i] != v for r in vals) or (t.w == w and v):
            continue
        x = T.subst([t], mp)[0]
        if T.isc(x):
            continue
        k = T.const(v, t.w)
        if solve.check(base + [T.ne(x, k)], "const", budget=core.DEADLINE[0])[0] == "unsat":
            mp[t.id] = k
            mp[x.id] = k
    return mp


def stages(roots):
    """Divisions every term depends on: tells apart the digits (later digits
    reuse limbs with equal values)."""
    divs = {}
    for t in T.topo(roots):
        d = frozenset().union(*[divs[x.id] for x in t.args]) if t.args else frozenset()
        if t.op in ("udiv", "urem"):
            d |= {(t.args[0].id, t.args[1].id)}
        divs[t.id] = d
    return divs


def run(P, a, b, n, m, outq, outr):
    """Replace the value obligations by per-digit ones; True on success.

    a, b      operands, a > b (b has exactly n significant limbs, a has n + m)
    outq/outr code terms of quotient and remainder
    """
    w = P.job.c.limb
    B = 1 << w
    envs = samples(P, 220)
    if len(envs) < 20:
        return False
    P.lift, P.lift_n, P.alt = {}, n, {}
    cm = constants(P, envs, [x for _, rs in P.obs for x in rs] + [outq, outr], w)
    P.obs = [(l, T.subst(rs, cm)) for l, rs in P.obs]
    outq, outr = T.subst([outq, outr], cm)
    al, bl = limbs(a, w), limbs(b, w)
    want = {}           # name -> list of values

    def put(name, i, x):
        want.setdefault(name, [0] * len(envs))[i] = x
    for k, e in enumerate(envs):
        A, D = val(a, e), val(b, e)
        s = n * w - D.bit_length()
        U, V = A << s, D << s
        for i in range(n):
            put(("V", i), k, (V >> (w * i)) % B)
        for i in range(n + m + 1):
            put(("U", i), k, (U >> (w * i)) % B)
        R = U >> (w * (m + 1))
        for j in range(m, -1, -1):
            N = R * B + (U >> (w * j)) % B
            q, R = divmod(N, V)
            put(("q", j), k, q)
            for i in range(n):
                put(("R", j, i), k, (R >> (w * i)) % B)
    roots = [x for _, rs in P.obs for x in rs] + [outq, outr]
    ts = [t for t in T.topo(roots) if t.w == w and t.op not in ("const", "var")]
    vals = [T.evaluate(ts, e) for e in envs]
    by, sig = {}, {}
    for i, t in enumerate(ts):
        sig[t.id] = tuple(r[i] for r in vals)
        by.setdefault(sig[t.id], []).append(t)
    divs = stages(roots)
    zero = T.const(0, w)
    cand, fresh = {}, {}
    for name, vs in want.items():
        stage = 0 if name[0] in "UV" else m - name[1] + 1
        c = [t for t in by.get(tuple(vs), ()) if len(divs[t.id]) == stage]
        if not c and name[0] in "UV":
            # unchanged limbs
            c = [x for x in al + bl if x.op == "var" and [e[x.p] for e in envs] == vs]
        if not c and all(v == 0 for v in vs):
            c = [zero]
        if not c:
            return False
        cand[name] = c[-1]
        if c[-1] is zero:
            fresh[name] = zero
        else:
            lo = 1 << (w - 1) if name == ("V", n - 1) else 0
            fresh[name] = T.var("d" + "_".join(str(x) for x in name), w, lo)
    V = cat([fresh[("V", i)] for i in range(n)])
    obs = []
    mp = {}
    base = [P.assume, P.r.pre]
    s = T.ctlz(bl[n - 1])
    # normalisation
    for i in range(n):
        pair = T.concat(bl[i], bl[i - 1] if i else zero)
        sh = T.extract(T.shl(pair, T.zext(s, 2 * w)), w, w)
        obs.append(("normalised divisor limb %d" % i, base + [T.ne(cand[("V", i)], sh)], "bvi"))
    for i in range(n + m + 1):
        hi = al[i] if i < n + m else zero
        pair = T.concat(hi, al[i - 1] if i else zero)
        sh = T.extract(T.shl(pair, T.zext(s, 2 * w)), w, w)
        obs.append(("normalised dividend limb %d" % i, base + [T.ne(cand[("U", i)], sh)], "bvi"))
    obs.append(("initial remainder below the divisor",
                base + [T.uge(cand[("U", n + m)], cand[("V", n - 1)])], "bvi"))
    for name in want:
        if name[0] in "UV" and cand[name].op != "const":
            mp[cand[name].id] = fresh[name]
    # pairs of adjacent limbs computed as one value
    ws = [t for t in T.topo(roots) if t.w == 2 * w and t.op not in ("const", "var", "concat") and not divs[t.id]]
    vals = [T.evaluate(ws, e) for e in envs]
    pairs = {tuple(x + y * B for x, y in zip(want[("U", i)], want[("U", i + 1)])): i for i in range(n + m)}
    for k, t in enumerate(ws):
        i = pairs.get(tuple(r[k] for r in vals))
        if i is not None:
            obs.append(("normalised dividend limbs %d and %d" % (i, i + 1),
                        base + [T.ne(t, T.concat(cand[("U", i + 1)], cand[("U", i)]))], "bvi"))
            mp[t.id] = T.concat(fresh[("U", i + 1)], fresh[("U", i)])
    raw = {v.id for v in T.variables([a, b])} - {x.id for x in fresh.values()}
    inv, facts, qdef = [], [], []
    R = [fresh[("U", m + 1 + i)] for i in range(n)]
    # (the top limbs alone decide the first digit)
    inv.append(T.and_(T.ult(cat(R), V), T.ult(R[-1], fresh[("V", n - 1)])))
    allr = [x for _, rs in P.obs for x in rs] + [outq, outr]
    wt = [t for t in T.topo(allr) if t.w == 2 * w and t.op not in ("const", "var", "concat") and divs[t.id]]
    vals = [T.evaluate(wt, e) for e in envs]
    wsig = [tuple(r[i] for r in vals) for i in range(len(wt))]
    bts = [t for t in T.topo(allr) if t.w == 1 and t.op not in ("const", "var", "not", "extract") and divs[t.id]]
    vals = [T.evaluate(bts, e) for e in envs]
    bts = [(t, vals[0][i]) for i, t in enumerate(bts) if all(r[i] == vals[0][i] for r in vals)]

    universe = [t for t in T.topo(allr) if divs[t.id]]

    def bind(x, v):
        """Replace every term that currently reads x."""
        for t, y in zip(universe, T.subst(universe, mp)):
            if y is x and t.id not in mp:
                mp[t.id] = v

    def fixed(stage, pre, qh=None):
        """Conditions of a digit that always have the same value: overflow
        checks, mostly."""
        live = {t.id for t in reach(allr, mp)}
        for t, v in bts:
            if t.id not in live or t.id in mp or len(divs[t.id]) != stage:
                continue
            x = T.subst([t], mp)[0]
            if T.isc(x):
                continue
            if qh is not None and any(y is qh for y in T.topo([x])):
                continue
            hasq = any(y.op in ("udiv", "urem") for y in T.topo([x]))
            if (not hasq and not pre) or any(y.id in raw for y in T.variables([x])):
                continue
            q = [inv[-1]] + pre + (qdef[-1:] if hasq and pre else []) + [T.ne(x, T.const(v, 1))]
            if solve.check(estimate(q, w), "fixed", budget=core.DEADLINE[0])[0] == "unsat":
                mp[t.id] = T.const(v, 1)
                live = {t.id for t in reach(allr, mp)}
    for j in range(m, -1, -1):
        tq = T.subst([cand[("q", j)]], mp)[0]
        tr = T.subst([cand[("R", j, i)] for i in range(n)], mp)
        W = (n + 2) * w
        N = T.zext(T.concat(cat(R), fresh[("U", j)]), W)
        VW = T.zext(V, W)
        lift = (V, cat(R), fresh[("U", j)])

        def post(lab, pre, goal, ts, D=None):
            """goal: function of ts, ts[0] the value whose cases are split"""
            for k, (conds, ts2) in enumerate(paths(ts, ts[0])):
                # conditions outside the digit are not needed
                conds = [y for x in conds for y in conjuncts(x) if not any(v.id in raw for v in T.variables([y]))]
                few = [x for x in conds if not any(y.op in ("udiv", "urem", "mul") for y in T.topo([x]))]
                if D is not None and len(ts2) == n + 1:
                    # the new remainder as one sum
                    have = cat(ts2[1:])
                    for z in (T.extract(D, 0, n * w), T.extract(T.add(D, T.zext(V, D.w)), 0, n * w)):
                        if have is not z and solve.check(few + [T.ne(have, z)], "sum", budget=core.DEADLINE[0])[0] == "unsat":
                            ts2 = [ts2[0]] + limbs(z, w)
                            if have.op != "var":
                                ts2 = [ts2[0], z]
                            break
                g2 = [T.not_(goal(*ts2))]
                l = "digit %d: %s, path %d" % (j, lab, k)
                obs.append((l, estimate([inv[-1]] + pre + conds + g2, w), "digit"))
                if pre:
                    P.alt[l] = [[inv[-1]] + pre + few + g2]
                P.lift[l] = lift
        # estimate of the digit that is multiplied with the divisor
        pre, diff = [], None
        qh = common_factor([tq] + tr, [fresh[("V", i)] for i in range(n)], w)
        if qh is not None and qh.op != "var":
            fixed(m - j + 1, [], qh)
            qv = T.var("qh_%d" % j, w)

            def close(x):
                xw = T.zext(x, W)
                return [T.ult(N, T.add(T.mul(VW, xw), VW)), T.ule(T.mul(VW, xw), T.add(N, VW))]
            post("estimate not below the digit", [], lambda x: close(x)[0], [qh])
            post("estimate at most one above the digit", [], lambda x: close(x)[1], [qh])
            pre = close(qv)
            bind(qh, qv)
            qdef.append(T.eq(qv, qh))
            qs = [T.evaluate([qh], {fresh[x].p: v[k] for x, v in want.items() if fresh[x].op == "var"})[0]
                  for k in range(len(envs))]
            Vs = [sum(want[("V", i)][k] << (w * i) for i in range(n)) for k in range(len(envs))]
            # product with the divisor
            got = [by.get(tuple(((q * v) >> (w * i)) % B for q, v in zip(qs, Vs)), ()) for i in range(n + 1)]
            got = [[t for t in g if len(divs[t.id]) == m - j + 1] for g in got]
            for pick in (-1, 0):
                if not all(got):
                    break
                y = T.subst([g[pick] for g in got], mp)
                goal = T.eq(T.zext(cat(y), W), T.mul(VW, T.zext(qv, W)))
                if solve.check(pre + [inv[-1], T.not_(goal)], "digit", budget=core.DEADLINE[0])[0] != "unsat":
                    continue
                for i in range(n + 1):
                    if y[i].op == "var":
                        continue
                    yv = T.var("y_%d_%d" % (j, i), w)
                    bind(y[i], yv)
                    y[i] = yv
                pre = pre + [T.eq(T.zext(cat(y), W), T.mul(VW, T.zext(qv, W)))]
                break
            fixed(m - j + 1, pre)
            tq, *tr = T.subst([cand[("q", j)]] + [cand[("R", j, i)] for i in range(n)], mp)
            # difference and borrow
            ns = [sum(want[("R", j + 1, i) if j < m else ("U", m + 1 + i)][k] << (w * i) for i in range(n)) * B
                  + want[("U", j)][k] for k in range(len(envs))]
            got = [by.get(tuple(((x - q * v) >> (w * i)) % B for x, q, v in zip(ns, qs, Vs)), ()) for i in range(n + 1)]
            got = [[t for t in g if len(divs[t.id]) == m - j + 1] for g in got]
            cs = []
            if all(got[:n]):
                ys = {v.p: i for i, v in enumerate(y) if v.op == "var"}
                bt = [t for t in T.topo([tq] + tr) if t.w == 1 and t.op in ("or", "ult", "ite") and borrows(t, ys)]
                bv = []
                for k in range(len(envs)):
                    e = {fresh[x].p: v[k] for x, v in want.items() if fresh[x].op == "var"}
                    e[qv.p] = qs[k]
                    for p, i in ys.items():
                        e[p] = ((qs[k] * Vs[k]) >> (w * i)) % B
                    bv.append(T.evaluate(bt, e))
                cs = [t for i, t in enumerate(bt) if all(r[i] == (q * v > x) for r, q, v, x in zip(bv, qs, Vs, ns))]
            for c, pick_ in [(c, p) for c in cs[::-1][:4] for p in (0, -1)]:
                d = T.subst([g[pick_] for g in got if g], mp)
                if not got[n]:
                    # never read: name the limb the difference would have
                    d.append(T.extract(T.sub(N, T.zext(cat(y), W)), n * w, w))
                goal = T.eq(T.add(T.zext(cat(d), W), T.zext(cat(y), W)), T.add(N, T.shl(T.zext(c, W), T.const((n + 1) * w, W))))
                if solve.check([inv[-1]] + pre + [T.not_(goal)], "digit", budget=core.DEADLINE[0])[0] != "unsat":
                    continue
                cv = T.var("c_%d" % j, 1)
                bind(c, cv)
                for i in range(n + 1):
                    if d[i].op != "var":
                        x = T.var("x_%d_%d" % (j, i), w)
                        bind(d[i], x)
                        d[i] = x
                pre = pre + [T.eq(T.add(T.zext(cat(d), W), T.zext(cat(y), W)), T.add(N, T.shl(T.zext(cv, W), T.const((n + 1) * w, W))))]
                diff = cat(d)
                break
        fixed(m - j + 1, pre)
        tq, *tr = T.subst([cand[("q", j)]] + [cand[("R", j, i)] for i in range(n)], mp)
        post("exact", pre, lambda q, *r: T.eq(T.add(T.mul(VW, T.zext(q, W)), T.zext(cat(r), W)), N), [tq] + tr, diff)
        post("remainder below the divisor", pre, lambda q, *r: T.ult(cat(r), V), [tq] + tr, diff)
        facts += pre
        new = [fresh[x] for x in [("q", j)] + [("R", j, i) for i in range(n)] if fresh[x] is not zero]
        for name in [("q", j)] + [("R", j, i) for i in range(n)]:
            t = cand[name]
            if t is not zero:
                mp[t.id] = fresh[name]
        # pairs of adjacent limbs computed as one value
        sigs = {tuple(x + y * B for x, y in zip(want[("R", j, i)], want[("R", j, i + 1)])): i for i in range(n - 1)}
        for k, t in enumerate(wt):
            if len(divs[t.id]) != m - j + 1 or t.id in mp or wsig[k] not in sigs:
                continue
            i = sigs[wsig[k]]
            old = {x: y for x, y in mp.items() if y not in new}
            x, hi, lo = T.subst([t, cand[("R", j, i + 1)], cand[("R", j, i)]], old)
            if solve.check([inv[-1]] + pre + [T.ne(x, T.concat(hi, lo))], "cut", budget=core.DEADLINE[0])[0] == "unsat":
                mp[t.id] = T.concat(fresh[("R", j, i + 1)], fresh[("R", j, i)])
        # limbs above the new remainder are cleared
        failed, again = set(), True
        while again and len(failed) < 8:
            again = False
            for t in (reach([outq, outr] + [cand[x] for x in want if x[0] in "qR" and x[1] < j], mp)):
                if (t.w != w or len(divs[t.id]) != m - j + 1 or t.id not in sig or any(sig[t.id]) or t.id in failed
                        or t.op in ("const", "zext")):
                    continue
                x = T.subst([t], mp)[0]
                if solve.check([inv[-1]] + pre + [T.ne(x, zero)], "few", budget=core.DEADLINE[0])[0] == "unsat":
                    mp[t.id] = zero
                    again = True
                    break
                failed.add(t.id)
        R = [fresh[("R", j, i)] for i in range(n)]
        inv.append(T.ult(cat(R), V))
    # results
    nl = outq.w // w
    oq, orr = T.subst(limbs(outq, w), mp), T.subst(limbs(outr, w), mp)
    for i in range(nl):
        e = fresh[("q", i)] if i <= m else zero
        obs.append(("quotient limb %d" % i, base + [T.ne(oq[i], e)], "bvi"))
    for i in range(outr.w // w):
        if i < n:
            pair = T.concat(R[i + 1] if i + 1 < n else zero, R[i])
            x = T.extract(T.lshr(pair, T.zext(s, 2 * w)), 0, w)
        else:
            x = zero
        obs.append(("remainder limb %d" % i, base + [T.ne(orr[i], x)], "bvi"))
    P.digit_obs = obs
    # panics inside the loop
    keep = []
    for lab, rs in P.obs:
        if lab not in core.CONDS or any(x is T.FALSE for x in rs):
            keep.append((lab, rs))
            continue
        rs = T.subst(rs, mp)
        k = 0
        for x in disjuncts(T.all_(rs)):
            if x is T.FALSE:
                continue
            cs = conjuncts(x)
            l = "%s, case %d" % (lab, k)
            obs.append((l, base + inv + facts + cs, "bvi"))
            inner = [y for y in cs if not any(v.id in raw for v in T.variables([y]))]
            P.alt[l] = [base + [y for y in cs if not any(v.id not in raw for v in T.variables([y]))],
                        estimate(inv + facts + inner, w)]
            k += 1
        if not k:
            keep.append((lab, [T.FALSE]))
    P.obs = keep
    P.digit_obs = obs
    return True


def borrows(t, ys):
    """Does the condition compare named product limbs, and no products?"""
    return (any(v.p in ys for v in T.variables([t])) and
            not any(x.op in ("udiv", "urem", "mul") for x in T.topo([t])))


def flat(t, op):
    out, st = [], [t]
    while st:
        x = st.pop()
        if x.op == op:
            st += list(x.args)
        else:
            out.append(x)
    return out


def conjuncts(t):
    return flat(t, "and")


def disjuncts(t, depth=0):
    """Disjunction of conjunctions, distributing over the widest disjunction."""
    cs = conjuncts(t)
    ors = sorted((x for x in cs if x.op == "or"), key=lambda x: -len(flat(x, "or")))
    if not ors or depth > 1:
        return [t]
    rest = [x for x in cs if x is not ors[0]]
    return [T.all_(rest + [x]) for x in flat(ors[0], "or")]


def reach(roots, stop):
    """Terms reachable from the roots without passing replaced ones."""
    out, seen, st = [], set(), list(roots)
    while st:
        t = st.pop()
        if t.id in seen or t.id in stop:
            continue
        seen.add(t.id)
        out.append(t)
        st += list(t.args)
    return sorted(out, key=lambda t: t.id)


def simplify(P):
    """Fold the conditions that are constant in this case."""
    cm = constants(P, samples(P, 60), [x for _, rs in P.obs for x in rs], P.job.c.limb)
    P.obs = [(l, [P.assume, P.r.pre] + T.subst(rs, cm)) for l, rs in P.obs]


def lift(mk):
    """Turns counterexamples to the obligations of a digit into operands.

    mk(P, a, b) replays concrete operands.
    """
    def go(P, lab, env, roots):
        if lab not in P.lift:
            return None
        w, n = P.job.c.limb, P.lift_n
        V, R, u = P.lift[lab]
        L = max(x.w for _, x in P.args) // w
        vs = T.variables([V, R, u])

        def attempt(e, s):
            v, r, x = T.evaluate([V, R, u], {y.p: e.get(y.p, y.lo) for y in vs})
            return mk(P, ((r << w) + x) >> s, v >> s)

        def scaled(s):
            """Operands that are the normalisation of smaller ones."""
            k = T.const((1 << s) - 1, w)
            z = T.const(0, w)
            more = [T.eq(T.and_(limbs(V, w)[0], k), z), T.eq(T.and_(u, k), z)]
            return more + [T.ule(limbs(R, w)[-1], k)] if n == L else more
        ss = [1, w // 2, w - 1, 2, w - 2]
        if env is not None:
            if n < L:
                rep = attempt(env, 0)
                if rep is not None:
                    return rep
            for s in ss:
                v, e, _ = solve.check(roots[:-1] + scaled(s) + roots[-1:], "digit", budget=core.DEADLINE[0])
                if v == "sat":
                    rep = attempt(e, s)
                    if rep is not None:
                        return rep
            return None
        # undecided: with the divisor fixed the digit is linear
        rng = random.Random("lift/%s/%s" % (P.job.key, lab))
        end = min(time.time() + 30, core.DEADLINE[0] or 1e18)
        vv = T.variables([V])
        for k in range(60):
            if time.time() > end:
                break
            s = 0 if n < L else rng.choice(ss)
            d = digit_env(vv, rng)
            if s:
                x = limbs(V, w)[0]
                if x.op == "var":
                    d[x.p] &= ~T.mask(s)
            mp = {y.id: T.const(d[y.p], w) for y in vv}
            v, e, _ = solve.check(T.subst(roots[:-1] + (scaled(s) if s else []) + roots[-1:], mp), "bvq", budget=end)
            if v == "sat":
                rep = attempt(dict(e, **d), s)
                if rep is not None:
                    return rep
        return None
    return go


def short(P):
    """Division by a single limb: a chain of narrowing divisions."""
    w = P.job.c.limb
    cm = constants(P, samples(P, 60), [x for _, rs in P.obs for x in rs], w)
    P.obs = [(l, estimate([P.assume, P.r.pre] + T.subst(rs, cm), w)) for l, rs in P.obs]


def common_factor(roots, vs, w):
    """The term multiplied with every limb of the divisor."""
    ids = {v.id: i for i, v in enumerate(vs)}
    seen = {}
    for t in T.topo(roots):
        if t.op == "mul" and t.w == 2 * w and all(x.op == "zext" and x.args[0].w == w for x in t.args):
            x, y = (z.args[0] for z in t.args)
            for x, y in ((x, y), (y, x)):
                if y.id in ids:
                    seen.setdefault(x.id, (x, set()))[1].add(ids[y.id])
    full = [x for x, s in seen.values() if len(s) == len(vs) and x.id not in ids]
    return full[-1] if full else None


def estimate(roots, w):
    """Name quotient and remainder of narrowing divisions (hi, lo) / d whose
    quotient fits a limb, innermost first."""
    tried = set()
    facts = []
    while True:
        d = {}
        for t in T.topo(roots):
            if t.op in ("udiv", "urem") and t.w == 2 * w:
                k = (t.args[0].id, t.args[1].id)
                if k in tried or (d and k != key):
                    continue
                key = k
                d[t.op] = t
        if not d:
            return facts + roots
        tried.add(key)
        x, y = next(iter(d.values())).args
        if not (y.op == "zext" and y.args[0].w == w):
            continue
        y = y.args[0]
        hi = T.extract(x, w, w)
        if solve.check(facts + roots[:-1] + [T.uge(hi, y)], "bvq")[0] != "unsat":
            continue
        q, r = T.var("eq%d_%d" % key, w), T.var("er%d_%d" % key, w)
        facts += [T.eq(T.add(T.mul(T.zext(q, 2 * w), T.zext(y, 2 * w)), T.zext(r, 2 * w)), x), T.ult(r, y)]
        mp = {}
        if "udiv" in d:
            mp[d["udiv"].id] = T.zext(q, 2 * w)
        if "urem" in d:
            mp[d["urem"].id] = T.zext(r, 2 * w)
        roots = T.subst(roots, mp)


def paths(roots, t, conds=None, depth=0):
    """Split a query along the conditionals that select the value t."""
    conds = conds or []
    c = pick(t)
    if c is None or depth > 7:
        return [(conds, roots)]
    out = []
    for v in (T.TRUE, T.FALSE):
        mp = {c.id: v}
        r2, t2, c2 = T.subst(roots, mp), T.subst([t], mp)[0], T.subst(conds, mp)
        k = c if v is T.TRUE else T.not_(c)
        if any(x is T.FALSE for x in r2 + c2):
            continue
        out += paths(r2, t2, c2 + [k], depth + 1)
    return out


def pick(t):
    """Condition of the outermost conditional in the value t."""
    if t.op == "ite":
        return t.args[0]
    if t.op in ("add", "sub", "xor", "or", "and", "bvnot", "zext", "extract") and t.w > 1:
        for x in t.args:
            c = pick(x)
            if c is not None:
                return c
    return None
