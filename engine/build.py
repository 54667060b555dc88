"""Generating and compiling the probe crates from /repo's working tree."""
import hashlib
import os
import re
import shutil
import subprocess
import spec

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target)
    return e


def tool(name):
    r = subprocess.run(["rustc", "--print", "sysroot"], env=env(""), capture_output=True, text=True, check=True)
    return os.path.join(r.stdout.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


def repo_hash():
    """Digest of everything the encoding depends on in the repository."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def cfg_name(limb, ovf, feats):
    return "l%d%s%s" % (limb, "d" if ovf else "r", "".join("-" + f for f in feats))


def manifest(limb, ovf, feats):
    fs = ["i384", "i512", "i1024", "stdint"] + (["limb32"] if limb == 32 else []) + list(feats)
    prof = ["panic = \"abort\"", "debug = 0", "codegen-units = 1", "incremental = false", "opt-level = 0",
            "overflow-checks = %s" % ("true" if ovf else "false"),
            "debug-assertions = %s" % ("true" if ovf else "false")]
    bo = ["opt-level = 0", "overflow-checks = %s" % ("true" if ovf else "false"),
          "debug-assertions = %s" % ("true" if ovf else "false")]
    out = ["[package]", 'name = "probe"', 'version = "0.0.0"', 'edition = "2021"', "", "[lib]",
           'crate-type = ["rlib", "cdylib"]', "", "[features]", "replay = []", "", "[dependencies]",
           'i256 = { path = "%s", default-features = false, features = [%s] }'
           % (REPO, ", ".join('"%s"' % f for f in fs))]
    if "num-traits" in feats:
        out.append('num-traits = { version = "0.2", default-features = false }')
    # the two profiles differ only in how a panic leaves the function
    out += ["", "[profile.dev]"] + prof + ["[profile.dev.build-override]"] + bo
    out += ["", "[profile.release]"] + ['panic = "unwind"'] + prof[1:] + ["[profile.release.build-override]"] + bo
    out += ["", "[workspace]", ""]
    return "\n".join(out)


HEAD = """#![allow(warnings)]
use ::i256::*;
use core::cmp::Ordering;
#[allow(unused)] use core::ops::*;
#[allow(unused)] use core::convert::TryFrom;
"""

REPLAY = """
#[cfg(feature = "replay")]
#[no_mangle]
pub unsafe extern "C" fn r_%s(out: *mut u8, inp: *const u8) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    match std::panic::catch_unwind(|| unsafe { p_%s(out, inp) }) { Ok(()) => 0, Err(_) => 1 }
}
"""


def probe_source(op, c):
    """Rust source of one probe."""
    nm = op.pname(c)
    if op.source:
        return op.source(c, nm) + REPLAY % (nm, nm)
    ls = ["#[no_mangle] #[inline(never)]", "pub unsafe fn p_%s(out: *mut u8, inp: *const u8) {" % nm]
    off = 0
    for i, t in enumerate(op.args):
        e, n = spec.rust_read(c, t, off)
        ls.append("    let a%d = %s;" % (i, e))
        off += n
    x = op.rust.replace("$S", c.rust("S")).replace("$U", c.rust("U")).replace("$I", c.rust("I"))
    for t in ("ulimb", "ilimb", "uwide", "iwide"):
        x = x.replace("$" + t, c.rust(t))
    ls.append("    let r = { %s };" % x)
    b, n = spec.rust_write(c, spec.parse_ty(op.rets(c)), "r", 0)
    ls += b + ["}"]
    return "\n".join(ls) + REPLAY % (nm, nm)


def build(tag, limb, ovf, feats, jobs, want_native=True):
    """Compile probes of `jobs` [(op, ctx)]; returns (ll path, so path, names)."""
    cn = cfg_name(limb, ovf, feats)
    base = os.path.join(BUILD, repo_hash())
    d = os.path.join(base, "%s-%s" % (tag, cn))
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(manifest(limb, ovf, feats))
    src = HEAD + "\n".join(probe_source(o, c) for o, c in jobs)
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(src)
    if "num-traits" in feats:
        lock = "/opt/vp/Cargo.lock"
        if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
            pass
    target = os.path.join(base, "target-" + tag + "-" + cn)
    e = env(target)
    deps = os.path.join(target, "debug", "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith(".ll"):
                os.unlink(os.path.join(deps, f))
    p1 = subprocess.Popen(["cargo", "rustc", "-q", "--offline", "--lib", "--crate-type", "rlib", "--",
                           "--emit=llvm-ir", "-Cno-prepopulate-passes"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p2 = None
    if want_native:
        e2 = env(target + "-n")
        p2 = subprocess.Popen(["cargo", "rustc", "-q", "--offline", "--release", "--lib", "--features", "replay",
                               "--crate-type", "cdylib"],
                              cwd=d, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o1 = p1.communicate()[0]
    o2 = p2.communicate()[0] if p2 else ""
    if p1.returncode or (p2 and p2.returncode):
        raise BuildError("probe build failed (%s):\n%s" % (cn, (o1 if p1.returncode else o2)[-4000:]))
    lls = [f for f in os.listdir(deps) if f.endswith(".ll") and f.startswith("probe")]
    if len(lls) != 1:
        raise BuildError("expected one IR file, got %r" % lls)
    raw = os.path.join(deps, lls[0])
    ll = os.path.join(d, "probe.opt.ll")
    # only memory-to-register promotion and local value numbering
    r = subprocess.run([tool("opt"), "-S", "-passes=function(sroa,early-cse)", raw, "-o", ll],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed: " + r.stderr[-2000:])
    names = {}
    human = None
    with open(raw) as f:
        for ln in f:
            if ln.startswith("; ") and not ln.startswith("; Function Attrs"):
                human = ln[2:].strip()
            elif ln.startswith("define"):
                m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', ln)
                if human and m:
                    names[m.group(1)] = human
                human = None
    so = None
    if want_native:
        so = os.path.join(target + "-n", "release", "libprobe.so")
    return ll, so, names


def prune(keep):
    """Drop builds of other source states."""
    if not os.path.isdir(BUILD):
        return
    for f in os.listdir(BUILD):
        if re.fullmatch(r"[0-9a-f]{16}", f) and f != keep:
            shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
