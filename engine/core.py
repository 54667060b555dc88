"""Deciding one operation: symbolic execution, obligations, confirmation."""
import os
import random
import re
import time
import traceback
import llparse
import native
import solve
import spec
import symex
import term as T


class Op:
    """An operation of the public interface together with its specification.

    name    identifier of the probe
    rust    expression over a0, a1, ... ($S/$U/$I are the types)
    args    argument type codes
    ret     encoded result type (spec.parse_ty), or function of the context
    spec    function(ctx, *args) -> spec.R
    """

    def __init__(self, name, rust, args, ret, fn, signs="ui", sched="auto", ovf_dep=False, feats=(), models=(),
                 splits=None, source=None, mkargs=None, cost=1, bits=None, limbs=(64, 32), tier="quick",
                 outer=None, validate=6, soft=70, prepare=None, groups=None, out_size=None,
                 spot=None):
        self.name, self.rust, self.args, self.ret, self.spec = name, rust, list(args), ret, fn
        self.signs, self.sched, self.ovf_dep, self.feats = signs, sched, ovf_dep, tuple(feats)
        self.models, self.splits, self.source, self.mkargs_fn = tuple(models), splits, source, mkargs
        self.cost, self.bits, self.limbs, self.tier = cost, bits, limbs, tier
        self.validate = validate
        self.soft = soft
        self.prepare = prepare      # function(job) called before the obligations are posed
        self.groups = groups
        self.out_size_fn = out_size
        # function(prepared) -> inputs to run on the real code against the
        # specification, for operations followed through tags
        self.spot = spot
        # function(prepared, assignment) -> input consistent with the tags
        self.fix = None

    def pname(self, c):
        return "%s_%s" % (c.name, self.name)

    def rets(self, c):
        return self.ret(c) if callable(self.ret) else self.ret

    def has(self, c):
        if c.limb not in self.limbs or ("i" if c.signed else "u") not in self.signs:
            return False
        if self.bits is not None and c.bits not in (self.bits(c) if callable(self.bits) else self.bits):
            return False
        return True


def bigvar(c, name, w, chunk=None):
    """A wide variable as a concatenation of limb variables."""
    chunk = chunk or c.limb
    if w <= chunk:
        return T.var(name, w)
    t = None
    for i in range(w // chunk):
        v = T.var("%s_%d" % (name, i), chunk)
        t = v if t is None else T.concat(v, t)
    return t


class Job:
    def __init__(self, op, c, split=None, label=""):
        self.op, self.c, self.split, self.label = op, c, split, label
        self.key = "%s%s [%s]" % (op.pname(c), ("/" + label) if label else "", cfg_label(c))


def cfg_label(c):
    return "limb%d,%s%s" % (c.limb, "overflow-checks" if c.ovf else "no-overflow-checks",
                            "".join("," + f for f in c.feats))


def make_args(op, c, split):
    """[(type, Term)] plus the assumption the split stands for."""
    if op.mkargs_fn:
        return op.mkargs_fn(c, split)
    args = []
    for i, t in enumerate(op.args):
        w = c.W(t)
        if t == "bool":
            args.append((t, T.var("a%d" % i, 1)))
        else:
            args.append((t, bigvar(c, "a%d" % i, w)))
    return args, T.TRUE


def in_cells(c, args):
    cells = []
    for t, x in args:
        if x.w < 8:
            cells.append((1, T.zext(x, 8)))
        else:
            # keep cells at limb granularity
            n = x.w // 8
            step = c.limb // 8
            if n > step and n % step == 0:
                for k in range(n // step):
                    cells.append((step, T.extract(x, 8 * step * k, 8 * step)))
            else:
                cells.append((n, x))
    return cells


def concrete_bytes(cells, env):
    vals = T.evaluate([x for _, x in cells], env)
    return b"".join(v.to_bytes(n, "little") for (n, _), v in zip(cells, vals))


def rand_env(vs, rng):
    env = {}
    mode = rng.randrange(6)
    for v in vs:
        w = v.w
        m = mode if rng.random() < 0.6 else rng.randrange(6)
        if m == 0:
            x = rng.getrandbits(w)
        elif m == 1:
            x = rng.choice([0, 1, T.mask(w), 1 << (w - 1), (1 << (w - 1)) - 1, T.mask(w) - 1, 2, 3])
        elif m == 2:
            x = rng.getrandbits(rng.randrange(w) + 1)
        elif m == 3:
            x = T.mask(w) ^ rng.getrandbits(rng.randrange(w) + 1)
        elif m == 4:
            x = 1 << rng.randrange(w)
        else:
            x = 0 if rng.random() < 0.5 else T.mask(w)
        x &= T.mask(w)
        if not v.lo <= x <= v.hi:
            x = v.lo + x % (v.hi - v.lo + 1)
        env[v.p] = x
    return env


def corner_env(vs, rng):
    """Limb values at the edges of their range."""
    env = {}
    for v in vs:
        w = v.w
        x = rng.choice([0, 1, 2, T.mask(w), T.mask(w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1,
                        rng.getrandbits(w)])
        env[v.p] = min(max(x, v.lo), v.hi)
    return env


MODS = {}       # cfg key -> (Module, so path, names)
DEADLINE = [None]


def run_job(job, seed=1):
    """Returns a plain dictionary describing what was decided."""
    t0 = time.time()
    res = {"key": job.key, "op": job.op.name, "type": job.c.name, "cfg": cfg_label(job.c), "label": job.label,
           "obligations": [], "violation": None, "errors": [], "validated": 0}
    for k in ("queries", "spurious"):
        solve.STATS[k] = 0
    solve.STATS["time"] = 0.0
    solve.STATS["by"] = {}
    solve.STATS.pop("errors", None)
    try:
        _run(job, res, seed)
    except symex.Unsupported as e:
        res["errors"].append("not encodable: %s" % e)
    except RecursionError:
        res["errors"].append("recursion limit")
    except Exception:
        res["errors"].append("internal: " + traceback.format_exc()[-1500:])
    res["queries"] = solve.STATS["queries"]
    res["solver_s"] = solve.STATS["time"]
    res["by"] = dict(solve.STATS["by"])
    if solve.STATS.get("errors"):
        res["solver_errors"] = solve.STATS["errors"][:3]
    res["wall"] = time.time() - t0
    return res


def expected_outcome(c, r, ty, env):
    """Concrete expectation: ("free"|"pre"|"panic"|"ret", fields)."""
    free, pre, pan = T.evaluate([r.free, r.pre, r.panic], env)
    if not pre:
        return "pre", None
    if free:
        return "free", None
    if pan:
        return "panic", None
    return "ret", None


CONDS = ("defined behaviour", "no hardware trap", "no unexpected panic", "panics when specified")


class Prepared:
    pass


def _run(job, res, seed):
    op, c = job.op, job.c
    mod, so, names = MODS[(c.limb, c.ovf, c.feats)]
    T.reset()
    import models
    args, assume = make_args(op, c, job.split)
    cells = in_cells(c, args)
    r = op.spec(c, *[x for _, x in args])
    ty = spec.parse_ty(op.rets(c))
    lay = spec.layout(c, ty)
    osz = sum(n for _, n, _ in lay)
    kw = {"soft_unroll": op.soft,
          "feasible": lambda lits: solve.check(list(lits) + [assume, r.pre] + (r.lemmas if r.tagged else []), "feas")[0] != "unsat"}
    t1 = time.time()
    ex, ret, rd = symex.run_probe(mod, "p_" + op.pname(c), cells, osz,
                                  models={rx: f for m in op.models
                                          for rx, f in (m(c) if callable(m) else models.get(m, c, mod)).items()}, **kw)
    res["symex_s"] = time.time() - t1
    res["steps"] = ex.steps
    res["functions"] = sorted(names.get(n, n) for n in ex.encoded)
    res["unroll"] = max(ex.max_unroll.values(), default=0)
    outs = []
    off = 0
    for p, n, t in lay:
        outs.append(rd(off, n) if rd else T.const(0, 8 * n))
        off += n
    P = Prepared()
    P.job, P.args, P.assume, P.cells, P.r, P.ty, P.lay, P.osz = job, args, assume, cells, r, ty, lay, osz
    P.ex, P.ret, P.outs, P.so = ex, ret, outs, so
    pan = T.any_([o.guard for o in ex.outcomes if o.kind == "panic"])
    trap = T.any_([o.guard for o in ex.outcomes if o.kind == "trap"])
    ub = T.any_([g for g, _ in ex.ub])
    P.pan, P.trap, P.ub = pan, trap, ub
    validate(P, res, seed)
    if op.spot:
        spot(P, res)
    if res["violation"]:
        return
    base = [assume, r.pre] + r.lemmas
    spec_ok = [T.not_(r.free)]
    if r.rel is not None:
        goals = r.rel(spec.unflatten(c, ty, outs))
    else:
        exp = spec.flatten(c, ty, r.ret)
        goals = [("value" + p, T.eq(o, e)) for (p, _, _), o, e in zip(lay, outs, exp)]
    P.goals = goals
    obs = [("defined behaviour", base + [ub]),
           ("no hardware trap", base + [trap]),
           ("no unexpected panic", base + spec_ok + [pan, T.not_(r.panic)]),
           ("panics when specified", base + spec_ok + [r.panic, T.not_(pan), T.not_(trap)])]
    if r.tagged and not T.isc(pan):
        # many similar conditions: a few at a time
        gs = [o.guard for o in ex.outcomes if o.kind == "panic"]
        obs[2:3] = [(obs[2][0], base + spec_ok + [T.any_(gs[k:k + 12]), T.not_(r.panic)]) for k in range(0, len(gs), 12)]
    guard = base + spec_ok + [T.not_(r.panic), ret]
    for lab, g in goals:
        obs.append((lab, guard + [T.not_(g)]))
    # about the parts of the code that were summarised on the way
    for lab, g in r.extra:
        obs.append((lab, base + [T.not_(g)]))
    P.obs = P.plain = obs
    P.cut = {}
    P.sched, P.alt, P.lift_fn, P.nohunt = {}, {}, None, False
    if r.defs and not r.tagged:
        full = expand(r)
        P.plain = [(lab, T.subst(rs, full)) for lab, rs in obs]
    if op.prepare:
        op.prepare(P)
        obs = P.obs
    for lab, roots in obs:
        t1 = time.time()
        v, env, by = decide(P, lab, roots)
        ob = {"what": lab, "verdict": v, "by": by, "s": round(time.time() - t1, 3)}
        res["obligations"].append(ob)
        if v == "unsat":
            continue
        if v == "sat":
            rep = confirm(P, env)
            if not rep["reproduced"] and P.lift_fn:
                # a counterexample to an intermediate obligation
                rep = P.lift_fn(P, lab, env, roots) or hunt(P, lab, seed) or rep
            if rep["reproduced"]:
                rep["obligation"] = lab
                res["violation"] = rep
                return
            ob["verdict"] = "unconfirmed"
            res["errors"].append("counterexample to '%s' not reproduced by the real code: %s" % (lab, rep))
            continue
        # undecided: look for a counterexample on parts of the input space
        rep = (P.lift_fn(P, lab, None, roots) if P.lift_fn else None) or hunt(P, lab, seed)
        if rep is not None:
            rep["obligation"] = lab
            res["violation"] = rep
            return
        res["errors"].append("undecided: " + lab)


def decide(P, lab, roots):
    op = P.job.op
    sched = P.sched.get(lab, op.sched)
    if isinstance(sched, dict):
        sched = sched.get(lab, sched[""])
    elif callable(sched):
        return sched(P, lab, roots)
    if lab in P.cut:
        # fewer assumptions first
        for rs in ([P.assume, P.cut[lab][-1]], P.cut[lab]):
            v, env, by = solve.check(rs, "cut", budget=DEADLINE[0])
            if v == "unsat":
                return v, env, by
    for rs in P.alt.get(lab, ()):
        # fewer assumptions first
        v, env, by = solve.check(rs, "few", budget=DEADLINE[0])
        if v == "unsat":
            return v, env, by
    if P.r.cases and not any(x is T.FALSE for x in roots):
        return by_cases(P, lab, roots, sched)
    return solve.check(roots, sched, budget=DEADLINE[0])


def sample(P, n, seed):
    rng = random.Random(seed)
    base = T.all_([P.assume, P.r.pre])
    inv = T.variables([x for _, x in P.args])
    envs = []
    while len(envs) < n:
        e = rand_env(inv, rng)
        if T.evaluate([base], e)[0]:
            envs.append(e)
    free = [v.p for v in T.variables([x for _, rs in P.obs for x in rs])]
    for e in envs:
        complete(P.r, e)
        for k in free:
            e.setdefault(k, 0)
    return inv, envs


def complete(r, env):
    """Add the values of the defined quantities."""
    for vs, d in r.defs:
        x = T.evaluate([d], env)[0]
        for v in vs:
            env[v.p] = x & T.mask(v.w)
            x >>= v.w


def expand(r):
    """Substitution of the defined quantities by their definitions."""
    mp = {}
    for vs, d in r.defs:
        at = 0
        for v in vs:
            mp[v.id] = T.extract(d, at, v.w)
            at += v.w
    return mp


def sweep(P):
    """Replace operands of products that equal an input limb, or do not
    depend on the input, by that limb or constant.

    Candidates come from evaluation, each equality is proven before use.
    """
    inv, envs = sample(P, 12, 7)
    roots = [x for _, rs in P.obs for x in rs]
    ops = {}
    for t in T.topo(roots):
        if t.op == "mul" and t.w <= 128:
            for x in t.args:
                while x.op == "zext":
                    x = x.args[0]
                if x.op not in ("var", "const"):
                    ops[x.id] = x
    mp = {}
    if ops:
        sig = {}
        for v in inv:
            sig.setdefault((v.w, tuple(e[v.p] for e in envs)), v)
        xs = list(ops.values())
        vals = [T.evaluate(xs, e) for e in envs]
        base = [P.assume, P.r.pre]
        for i, x in enumerate(xs):
            v = sig.get((x.w, tuple(r[i] for r in vals)))
            if v is None and len(set(r[i] for r in vals)) == 1:
                v = T.const(vals[0][i], x.w)
            if v is None:
                continue
            q = T.subst(base + [T.ne(x, v)], mp)
            if solve.check(q, "sweep", budget=DEADLINE[0])[0] == "unsat":
                mp[x.id] = v
    if mp:
        P.obs = [(lab, T.subst(rs, mp)) for lab, rs in P.obs]
    cut(P)


def cut(P):
    """Prove that terms of the code equal defined quantities, then forget
    the definitions: what is left only depends on the quantities."""
    if not P.r.defs:
        return
    inv, envs = sample(P, 60, 11)
    base = [P.assume, P.r.pre]
    dvs = [v for vs, _ in P.r.defs for v in vs]
    dv = {v.id for v in dvs}
    ws = {v.w for v in dvs}
    dep = {}
    ts = []
    for t in T.topo([x for _, rs in P.obs for x in rs]):
        dep[t.id] = t.id in dv or any(dep[x.id] for x in t.args)
        if not dep[t.id] and t.w in ws and t.op not in ("var", "const"):
            ts.append(t)
    vals = [T.evaluate(ts, e) for e in envs]
    by = {}
    for i, t in enumerate(ts):
        by.setdefault((t.w, tuple(r[i] for r in vals)), []).append(t)
    mp = {}
    for vs, d in P.r.defs:
        got = [by.get((v.w, tuple(e[v.p] for e in envs)), []) for v in vs]
        n = 0
        while n < len(vs) and got[n]:
            n += 1
        seen = set()
        for pick in (-1, 0) if len(vs) > 1 else range(-1, -1 - min(6, len(got[0])), -1):
            if n == 0:
                break
            t = None
            for c in got[:n]:
                t = c[pick] if t is None else T.concat(c[pick], t)
            if t.id in seen:
                continue
            seen.add(t.id)
            if solve.check(base + [T.ne(t, T.extract(d, 0, t.w))], P.job.op.sched, budget=DEADLINE[0])[0] == "unsat":
                for v, c in zip(vs, got[:n]):
                    mp[c[pick].id] = v
                break
    if mp:
        P.cut = {lab: T.subst(rs, mp) for lab, rs in P.obs}
    full = expand(P.r)
    P.obs = [(lab, T.subst(rs, full)) for lab, rs in P.obs]


def by_cases(P, lab, roots, sched):
    """One query per case; the cases cover the input space."""
    if not lab.startswith("value"):
        v, env, by = solve.check(roots, "glance", budget=DEADLINE[0])
        if v != "unknown":
            return v, env, by
    used = set()
    left = []
    for mp in P.r.cases:
        rs = T.all_(T.subst(roots, mp))
        if rs is not T.FALSE:
            left.append((mp, rs))
    for i in range(0, len(left), 24):
        part = left[i:i + 24]
        v, env, by = solve.check([T.any_([x for _, x in part])], sched, budget=DEADLINE[0])
        if v == "sat":
            # turn the case into an assumption to obtain an input
            for mp, rs in part:
                keys = [t for t in T.topo(roots) if t.id in mp]
                e = {x.p: env.get(x.p, x.lo) for x in T.variables([rs] + [mp[t.id] for t in keys])}
                if T.evaluate([rs], e)[0]:
                    pins = [T.eq(t, T.const(T.evaluate([mp[t.id]], e)[0], t.w)) for t in keys]
                    return solve.check(roots + pins, sched, budget=DEADLINE[0])
        if v != "unsat":
            return v, env, by
        used.add(by)
    if P.r.rest is not None and P.r.rest is not T.FALSE:
        v, env, by = solve.check(roots + [P.r.rest], sched, budget=DEADLINE[0])
        if v != "unsat":
            return v, env, by
        used.add(by)
    return "unsat", None, "+".join(sorted(used - {"folded"})) or "folded"


def validate(P, res, seed):
    """The encoding must agree with the compiled code on concrete inputs."""
    op = P.job.op
    n = op.validate
    if not n or P.so is None:
        return
    rng = random.Random("%d/%s" % (seed, P.job.key))
    vs = T.variables([x for _, x in P.cells])
    nat = native.Native(P.so)
    try:
        done = 0
        tries = 0
        while done < n and tries < 8 * n:
            tries += 1
            env = rand_env(vs, rng)
            if T.evaluate([T.and_(P.assume, P.r.pre)], env)[0] != 1:
                continue
            inp = concrete_bytes(P.cells, env)
            k, b = nat.run(op.pname(P.job.c), inp, P.osz)
            extra = {v.p: 0 for v in T.variables([P.ret, P.pan, P.trap, P.ub] + P.outs) if v.p not in env}
            env2 = dict(env)
            env2.update(extra)
            if extra:
                # unspecified intermediate values: only the guards are compared
                pass
            rv = T.evaluate([P.ret, P.pan, P.trap, P.ub] + P.outs, env2)
            if rv[3]:
                continue
            if rv[0] + rv[1] + rv[2] != 1:
                res["errors"].append("encoding: outcomes overlap on %s: %r" % (inp.hex(), rv[:3]))
                return
            kk = "ret" if rv[0] else "panic" if rv[1] else "trap"
            ob = b"".join(v.to_bytes(nn, "little") for v, (_, nn, _) in zip(rv[4:], P.lay))
            if kk != k or (k == "ret" and ob != b and not extra):
                rep = confirm(P, env)
                if rep["reproduced"]:
                    # code behind a modelled call does not meet its specification
                    rep["obligation"] = "agreement with the specification"
                    res["violation"] = rep
                    return
                res["errors"].append("encoding disagrees with the compiled code on %s: %s %s / %s %s"
                                     % (inp.hex(), k, b.hex(), kk, ob.hex()))
                return
            done += 1
        res["validated"] = done
    finally:
        nat.close()


def spot(P, res):
    for env in P.job.op.spot(P):
        rep = confirm(P, env)
        if rep["reproduced"]:
            rep["obligation"] = "agreement with the specification"
            res["violation"] = rep
            return
        res["validated"] += 1


def judge(P, env, k, b):
    """Does the native outcome (k, b) violate the specification? -> text or None"""
    r, c = P.r, P.job.c
    pre, free, pan, asm = T.evaluate([r.pre, r.free, r.panic, P.assume], env)
    if not pre or not asm:
        return None
    if k == "hang":
        return None if free else "does not terminate"
    if k == "trap":
        return "terminates the process (hardware trap)"
    if free:
        return None
    if pan:
        return None if k == "panic" else "returned %s where a panic is required" % b.hex()
    if k == "panic":
        return "panicked where a value is required"
    fields = []
    off = 0
    for _, n, _ in P.lay:
        fields.append(T.const(int.from_bytes(b[off:off + n], "little"), 8 * n))
        off += n
    if r.rel is not None:
        gs = r.rel(spec.unflatten(c, P.ty, fields))
        vals = T.evaluate([g for _, g in gs], env)
        bad = [lab for (lab, _), v in zip(gs, vals) if not v]
        return None if not bad else "result %s violates: %s" % (b.hex(), ", ".join(bad))
    exp = spec.flatten(c, P.ty, r.ret)
    vals = T.evaluate(exp, env)
    e = b"".join(v.to_bytes(n, "little") for v, (_, n, _) in zip(vals, P.lay))
    return None if e == b else "returned %s, expected %s" % (b.hex(), e.hex())


def describe_args(P, env):
    vals = T.evaluate([x for _, x in P.args], env)
    out = []
    for (t, x), v in zip(P.args, vals):
        if P.job.c.sg(t) if t in spec.PRIM or t[0] in "SUIui" else False:
            if v >> (x.w - 1):
                v -= 1 << x.w
        out.append({"type": t, "value": str(v), "hex": hex(v)})
    return out


def confirm(P, env):
    vs = T.variables([x for _, x in P.cells] + [P.r.pre, P.r.free, P.r.panic, P.assume])
    env = dict(env)
    if P.job.op.fix:
        env = P.job.op.fix(P, env)
    for v in vs:
        env.setdefault(v.p, v.lo)
    complete(P.r, env)
    inp = concrete_bytes(P.cells, env)
    nat = native.Native(P.so)
    try:
        k, b = nat.run(P.job.op.pname(P.job.c), inp, P.osz)
    finally:
        nat.close()
    why = judge(P, env, k, b)
    return {"reproduced": why is not None, "probe": P.job.op.pname(P.job.c), "cfg": cfg_label(P.job.c),
            "limb": P.job.c.limb, "ovf": P.job.c.ovf, "feats": list(P.job.c.feats), "op": P.job.op.name,
            "bits": P.job.c.bits, "signed": bool(P.job.c.signed), "call": P.job.op.rust,
            "input": inp.hex(), "args": describe_args(P, env), "observed": k,
            "output": b.hex(), "why": why}


def hunt(P, lab, seed, secs=45):
    """Search an undecided query for a counterexample.

    Some input limbs are fixed to boundary constants, the solver decides the
    query over the remaining ones.  Only finds violations: an exhausted
    search leaves the query undecided.
    """
    if P.nohunt:
        return None
    rng = random.Random("hunt/%d/%s/%s" % (seed, P.job.key, lab))
    plain = dict(P.plain)
    if lab in plain:
        roots = plain[lab]
    else:
        # an intermediate obligation: look at the results instead
        vals = [rs for l, rs in P.plain if l not in CONDS]
        roots = vals[0][:-1] + [T.any_([rs[-1] for rs in vals])]
    vs = T.variables(roots)
    if len(vs) < 2:
        return None
    inv = {v.p for v in T.variables([x for _, x in P.cells])}
    vs = [v for v in vs if v.p in inv]
    end = time.time() + secs
    if DEADLINE[0]:
        end = min(end, DEADLINE[0])
    # boundary patterns first
    q = T.all_(roots)
    for k in range(150):
        e = (rand_env if k % 2 else corner_env)(vs, rng)
        if set(v.p for v in T.variables([q])) <= set(e) and T.evaluate([q], e)[0]:
            rep = confirm(P, e)
            if rep["reproduced"]:
                return rep
        if time.time() > end:
            return None
    groups = {}
    for v in vs:
        groups.setdefault(v.p.split("_")[0], []).append(v)
    n = 0
    while time.time() < end:
        n += 1
        m = n % 4
        if m == 0 and len(groups) > 1:
            # one whole operand stays open
            keep = set(v.p for v in groups[rng.choice(sorted(groups))])
        elif m == 1:
            keep = {rng.choice(vs).p}
        elif m == 2:
            keep = {v.p for v in rng.sample(vs, min(2, len(vs)))}
        else:
            keep = {v.p for v in vs if rng.random() < 0.4}
        env = rand_env(vs, rng)
        sub = {v.id: T.const(env[v.p], v.w) for v in vs if v.p not in keep}
        rs = T.subst(roots, sub)
        if any(x is T.FALSE for x in rs):
            continue
        v, e, by = solve.check(rs, "hunt", budget=end)
        if v == "sat":
            full = {x.p: (e.get(x.p, x.lo) if x.p in keep else env[x.p]) for x in vs}
            rep = confirm(P, full)
            if rep["reproduced"]:
                return rep
    return None
