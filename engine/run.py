"""Check of one property: build, decide every obligation, report."""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import build          # noqa: E402
import core           # noqa: E402
import findings       # noqa: E402
import llparse        # noqa: E402
import solve          # noqa: E402
import spec           # noqa: E402
import props          # noqa: E402

VERIF = build.VERIF


def jobs_for(prop, tier, only=None):
    P = props.PROPS[prop]
    out = []
    for grp in P.plan(tier):
        ops, bits, limbs, ovfs = grp
        for op in ops:
            if only and only not in op.name:
                continue
            for b in bits:
                for s in (0, 1):
                    for l in limbs:
                        for o in (ovfs if not op.ovf_dep else (True, False)):
                            c = spec.Ctx(b, s, l, o, op.feats)
                            if op.has(c):
                                out.append((op, c))
    # drop duplicates from overlapping groups
    seen = set()
    res = []
    for op, c in out:
        k = (op.name, c.name, c.limb, c.ovf, c.feats)
        if k not in seen:
            seen.add(k)
            res.append((op, c))
    return res


def _one(a):
    op, c, split, label, seed = a
    return core.run_job(core.Job(JOBS[op], c, split, label), seed)


JOBS = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--bits")
    ap.add_argument("--limb")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[a.prop]
    budget = P.budget(a.tier)
    core.DEADLINE[0] = t0 + budget
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    os.makedirs(build.BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="q-%s-" % a.prop, dir=build.BUILD)
    solve.SCRATCH = scratch
    try:
        return check(a, P, seed, t0, ev_dir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, P, seed, t0, ev_dir):
    rh = build.repo_hash()
    build.prune(rh)
    pairs = jobs_for(a.prop, a.tier, a.only)
    if a.bits:
        pairs = [(o, c) for o, c in pairs if c.bits == int(a.bits)]
    if a.limb:
        pairs = [(o, c) for o, c in pairs if c.limb == int(a.limb)]
    cfgs = {}
    for op, c in pairs:
        cfgs.setdefault((c.limb, c.ovf, c.feats), []).append((op, c))
    tag = a.prop + "-" + a.tier

    def b(k):
        return k, build.build(tag, k[0], k[1], k[2], cfgs[k])
    with cf.ThreadPoolExecutor(4) as tp:
        for k, (ll, so, names) in tp.map(b, sorted(cfgs)):
            m = llparse.Module()
            m.load(ll)
            core.MODS[k] = (m, so, names)
    if build.repo_hash() != rh:
        print("source changed during the build", file=sys.stderr)
        return 3
    t_build = time.time() - t0
    jl = []
    for op, c in pairs:
        JOBS[op.name + "/" + op.signs + "/" + ",".join(op.feats)] = op
        sp = op.splits(c, a.tier) if op.splits else [(None, "")]
        for s, lab in sp:
            jl.append((op.name + "/" + op.signs + "/" + ",".join(op.feats), c, s, lab, seed))
    jl.sort(key=lambda x: -(JOBS[x[0]].cost * x[1].bits / x[1].limb))
    if a.v:
        print("build %.1fs, %d probes, %d jobs" % (t_build, len(pairs), len(jl)), file=sys.stderr)
    results = []
    fresh = 0
    with mp.get_context("fork").Pool(a.j, maxtasksperchild=50) as pool:
        for r in pool.imap_unordered(_one, jl, chunksize=1):
            results.append(r)
            if r["violation"] and findings.split(a.prop, [r])[1]:
                fresh += 1
            if fresh >= 4 and not a.v:
                # enough to report: the remaining jobs are not decided
                pool.terminate()
                break
            if a.v:
                s = "VIOLATION" if r["violation"] else "ERROR" if r["errors"] else "ok"
                print("%-9s %-60s %6.2fs symex %.2f q%d %s" % (s, r["key"], r["wall"], r.get("symex_s", 0), r["queries"],
                      "" if s == "ok" else (r["violation"] or {}).get("why") or r["errors"][0]), file=sys.stderr)
    return report(a, P, seed, t0, t_build, ev_dir, results, len(pairs))


def report(a, P, seed, t0, t_build, ev_dir, results, nprobes):
    results.sort(key=lambda r: r["key"])
    viol = [r for r in results if r["violation"]]
    errs = [r for r in results if r["errors"] and not r["violation"]]
    known, new = findings.split(a.prop, viol)
    nob = sum(len(r["obligations"]) for r in results)
    ndis = sum(1 for r in results for o in r["obligations"] if o["verdict"] == "unsat")
    nfold = sum(1 for r in results for o in r["obligations"] if o["verdict"] == "unsat" and o["by"] == "folded")
    fns = sorted({f for r in results for f in r.get("functions", ()) if not f.startswith(("@p_", "p_"))})
    slow = sorted(((o["s"], r["key"], o["what"], o["by"]) for r in results for o in r["obligations"]), reverse=True)[:8]
    by = {}
    for r in results:
        for o in r["obligations"]:
            if o["verdict"] == "unsat":
                by[o["by"] or "?"] = by.get(o["by"] or "?", 0) + 1
    cov = {
        "obligations": nob, "discharged": ndis,
        "discharged_by_simplification": nfold,
        "checker_cmd": "engine/run.py %s (z3 %s, cvc5 %s)" % (a.prop, ver("z3"), ver("cvc5")),
        "trusted_base": ["rustc front end and its LLVM IR", "engine/llparse.py, symex.py, term.py (validated natively on each run)",
                         "engine/bvenc.py, intenc.py encodings", "z3, cvc5", "the specification in engine/ops_*.py"],
        "operations": len({(r["op"], r["type"]) for r in results}), "symbolic_executions": len(results),
        "probes_compiled": nprobes,
        "functions_encoded": len(fns), "function_names": fns[:400],
        "instructions_executed": sum(r.get("steps", 0) for r in results),
        "max_loop_iterations": max([r.get("unroll", 0) for r in results] or [0]),
        "solver_queries": sum(r["queries"] for r in results),
        "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
        "verdicts_by_backend": by,
        "encodings_validated_natively": sum(r["validated"] for r in results),
        "undecided": [{"job": r["key"], "why": r["errors"]} for r in errs][:50],
        "slowest": [{"s": s, "job": k, "obligation": w, "by": b} for s, k, w, b in slow],
        "bounds": P.bounds(a.tier), "build_seconds": round(t_build, 1),
        "configurations": sorted({r["cfg"] for r in results}),
        "types": sorted({r["type"] for r in results}),
    }
    if P.level == "other":
        cov["explanation"] = P.note
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": P.level, "coverage": cov,
          "assumptions": P.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not (a.only or a.bits or a.limb):
        tmp = os.path.join(ev_dir, "." + a.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ev_dir, a.prop + ".json"))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    for i, r in enumerate(new):
        rp = os.path.join(ev_dir, "replay-%s-%d.json" % (a.prop, i))
        with open(rp, "w") as f:
            json.dump(dict(r["violation"], property=a.prop, job=r["key"]), f, indent=1)
        v = r["violation"]
        print("%s: %s: %s(%s) %s" % (r["key"], v["obligation"], v["call"], ", ".join(x["value"] for x in v["args"]), v["why"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    print("%s %s: %d obligations, %d discharged, %d operations, %d queries, %.0f s solver, %.0f s wall"
          % (a.prop, a.tier, nob, ndis, cov["operations"], cov["solver_queries"], cov["solver_seconds"], time.time() - t0))
    if new:
        return 1
    if errs:
        for r in errs[:20]:
            print("UNDECIDED %s: %s" % (r["key"], "; ".join(r["errors"])[:600]))
        return 2
    if not results or nob == 0:
        print("nothing was checked")
        return 2
    return 0


_ver = {}


def ver(t):
    import subprocess
    if t not in _ver:
        o = subprocess.run([t, "--version"], capture_output=True, text=True).stdout
        import re
        m = re.search(r"\d+\.\d+(\.\d+)?", o)
        _ver[t] = m.group(0) if m else "?"
    return _ver[t]


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print(str(e)[-4000:])
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)
