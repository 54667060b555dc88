"""Running SMT solvers on encoded queries."""
import os
import re
import subprocess
import tempfile
import time
import bvenc
import intenc
import term as T

STATS = {"queries": 0, "time": 0.0, "by": {}, "spurious": 0}
SCRATCH = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()


def _cmd(kind, path, tmo, wall):
    """Limits count processor time, so that a busy machine changes nothing."""
    lim = "ulimit -t %d; exec " % max(1, int(tmo + 0.999))
    if kind == "z3":
        return ["sh", "-c", lim + "z3 -T:%d %s" % (max(1, int(wall + 0.999)), path)]
    if kind == "cvc5":
        return ["sh", "-c", lim + "cvc5 --tlimit=%d %s" % (int(wall * 1000), path)]
    raise ValueError(kind)


def _parse_model(txt, names):
    """names: smt name -> (variable name, width)"""
    m = {}
    for n, v in re.findall(r"\(\s*(v_\w+)\s+(#x[0-9a-fA-F]+|#b[01]+|\d+|\(- \d+\)|true|false|\(_ bv\d+ \d+\))\s*\)", txt):
        if v.startswith("#x"):
            x = int(v[2:], 16)
        elif v.startswith("#b"):
            x = int(v[2:], 2)
        elif v.startswith("(_"):
            x = int(v.split()[1][2:])
        elif v.startswith("(-"):
            x = -int(v[3:-1])
        else:
            x = {"true": 1, "false": 0}.get(v)
            if x is None:
                x = int(v)
        if n in names:
            m[names[n]] = x
    return m


def race(queries, tmo, wall):
    """Run queries concurrently; first conclusive answer wins.

    queries: list of (solver, encoding label, script, smt-names, sat_ok)
    Returns (verdict, model or None, label).
    """
    procs = []
    t0 = time.time()
    files = []
    try:
        for solver, label, script, names, sat_ok in queries:
            fd, path = tempfile.mkstemp(suffix=".smt2", dir=SCRATCH)
            files.append(path)
            with os.fdopen(fd, "w") as f:
                if sat_ok:
                    f.write("(set-option :produce-models true)\n")
                f.write(script)
                if sat_ok and names:
                    f.write("(get-value (%s))\n" % " ".join(names))
            of = open(path + ".out", "w+")
            files.append(path + ".out")
            p = subprocess.Popen(_cmd(solver, path, tmo, wall), stdout=of, stderr=subprocess.DEVNULL,
                                 stdin=subprocess.DEVNULL)
            procs.append([p, solver, label, names, sat_ok, of])
        res = ("unknown", None, "")
        left = list(procs)
        delay = 0.002
        while left:
            for x in list(left):
                p, solver, label, names, sat_ok, of = x
                if p.poll() is None:
                    continue
                left.remove(x)
                of.seek(0)
                o = of.read()
                head = o.split("\n", 1)[0].strip()
                if head == "unsat":
                    res = ("unsat", None, solver + "/" + label)
                    left = []
                    break
                if head == "sat" and sat_ok:
                    res = ("sat", _parse_model(o, names), solver + "/" + label)
                    left = []
                    break
                if head.startswith("(error"):
                    STATS.setdefault("errors", []).append(o[:300])
            if left and time.time() - t0 > wall + 5:
                break
            time.sleep(delay)
            delay = min(delay * 1.3, 0.05)
        return res
    finally:
        for x in procs:
            if x[0].poll() is None:
                x[0].kill()
            x[0].wait()
            x[5].close()
        for f in files:
            try:
                os.unlink(f)
            except OSError:
                pass
        dt = time.time() - t0
        STATS["queries"] += len(queries)
        STATS["time"] += dt


def encode(kind, roots):
    """(script, names, sat_ok) of a query; None when not encodable."""
    if kind == "cbv":
        e = bvenc.BV(relational=True)
        s = e.script(roots)
        if not any(v.startswith("cnt_") for v in e.vars):
            return None
        return s, {n: v for v, (n, w) in e.vars.items()}, True
    if kind == "acbv":
        e = bvenc.BV(abstract=16, relational=True)
        return e.script(roots), {n: v for v, (n, w) in e.vars.items()}, True
    if kind == "bv" or kind.startswith("abv"):
        e = bvenc.BV(abstract=int(kind[3:] or 16) if kind.startswith("abv") else 0)
        s = e.script(roots)
        if kind.startswith("abv") and not e.nabs:
            kind = "bv"
        return s, {n: v for v, (n, w) in e.vars.items()}, True
    e = intenc.Enc(real=(kind in ("lra", "lrad")), disj=kind.endswith("d"), opaque=kind.startswith("o"))
    try:
        s = e.script(roots)
    except intenc.IntUnsupported:
        return None
    return s, {n: v for v, n in e.vars.items()}, kind in ("lia", "liad", "olia")


# schedule: list of (seconds, [(solver, encoding), ...]) tried in order
SCHED = {
    "bvq": [(3, [("cvc5", "lia")])],
    "const": [(1, [("z3", "bv"), ("z3", "cbv")])],
    "glance": [(1, [("z3", "bv")])],
    "hunt": [(1, [("z3", "bv"), ("cvc5", "lia")]), (3, [("z3", "bv"), ("cvc5", "lia"), ("z3", "cbv")])],
    "sweep": [(1, [("z3", "bv")]), (2, [("z3", "bv"), ("cvc5", "lia")])],
    "cut": [(2, [("z3", "bv")]), (3, [("cvc5", "lia")])],
    "fixed": [(1, [("cvc5", "lia")])],
    "sum": [(1, [("cvc5", "lia"), ("z3", "bv")]), (4, [("cvc5", "lia"), ("z3", "bv")])],
    "few": [(1, [("cvc5", "lia"), ("z3", "cbv")]), (3, [("cvc5", "lia")])],
    "digit": [(4, [("cvc5", "lia")]), (6, [("cvc5", "liad"), ("cvc5", "lra")]), (30, [("cvc5", "lia"), ("z3", "lia"), ("cvc5", "lra"), ("z3", "lra")])],
    "feas": [(2, [("z3", "bv")])],
    "bv": [(4, [("z3", "bv")]), (60, [("z3", "bv"), ("cvc5", "bv")])],
    "text": [(4, [("cvc5", "bv")]), (60, [("cvc5", "bv"), ("z3", "bv")])],
    "both": [(60, [("z3", "bv"), ("cvc5", "bv")])],
    "int": [(3, [("cvc5", "lia")]), (20, [("cvc5", "lia"), ("z3", "lia"), ("cvc5", "lra"), ("z3", "lra")])],
    "mul": [(3, [("cvc5", "lia")]), (8, [("cvc5", "liad"), ("cvc5", "lrad")]), (4, [("z3", "liad")]),
            (30, [("cvc5", "liad"), ("z3", "liad"), ("cvc5", "lrad"), ("z3", "lrad")])],
    "omul": [(3, [("cvc5", "olia")]), (5, [("z3", "olia")]), (20, [("cvc5", "olia"), ("z3", "olia"), ("cvc5", "liad")])],
    "abv": [(4, [("z3", "abv16")]), (60, [("z3", "abv16"), ("cvc5", "abv16")])],
    "derived": [(4, [("z3", "acbv")]), (4, [("z3", "abv16")]), (40, [("z3", "abv16"), ("cvc5", "abv16"), ("z3", "acbv")])],
    "auto": [(3, [("cvc5", "lia")]), (4, [("z3", "bv")]),
             (40, [("cvc5", "lia"), ("z3", "bv"), ("z3", "lia"), ("cvc5", "bv")])],
    "bvi": [(3, [("z3", "cbv")]), (2, [("z3", "bv")]), (4, [("z3", "bv"), ("z3", "cbv")]), (3, [("cvc5", "lia")]),
            (40, [("cvc5", "lia"), ("z3", "bv"), ("z3", "lia"), ("cvc5", "bv"), ("z3", "cbv")])],
}


def check(roots, sched="auto", budget=None, split=None):
    """Satisfiability of the conjunction of `roots`.

    Returns ("unsat", None, by) / ("sat", env, by) / ("unknown", env?, by).
    A `sat` answer has been confirmed by evaluating the roots; models that
    do not survive the evaluation are reported as unknown.
    """
    roots = [r for r in roots if r is not T.TRUE]
    if any(r is T.FALSE for r in roots):
        return "unsat", None, "folded"
    if not roots:
        return "sat", {}, "folded"
    vs = T.variables(roots)
    if isinstance(sched, str):
        sched = SCHED[sched]
    cache = {}
    spurious = []
    for tmo, lst in sched:
        wall = 4 * tmo
        if budget is not None:
            left = budget - time.time()
            if left <= 0.5:
                break
            wall = min(wall, left)
        qs = []
        for solver, kind in lst:
            if (solver, kind) in spurious:
                continue
            if kind not in cache:
                cache[kind] = encode(kind, roots)
            if cache[kind] is None:
                continue
            s, names, ok = cache[kind]
            qs.append((solver, kind, s, names, ok))
        if not qs:
            continue
        v, m, by = race(qs, tmo, wall)
        STATS["by"][by] = STATS["by"].get(by, 0) + 1
        if v == "unsat":
            return v, None, by
        if v == "sat":
            env = {x.p: m.get(x.p, x.lo) for x in vs}
            if all(T.evaluate([r], env)[0] == 1 for r in roots):
                return "sat", env, by
            STATS["spurious"] += 1
            spurious.append(tuple(by.split("/")))
            kind = by.split("/")[1]
            # an over-approximating encoding will stay satisfiable
            spurious += [(s, kind) for s in ("z3", "cvc5")]
    return "unknown", None, ""
