#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     run one property's check
   check.py --setup                              build the driver and the dependency metadata
   check.py --all [--tier T]                     run every property (development)

Builds the THIR dump of /repo's current tree with the rustc driver in
/verif/driver, hands it to the rules in /verif/analysis/rules and reports."""
import fcntl, glob, hashlib, importlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, ".work"))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.path.insert(0, os.path.join(HERE, "analysis", "rules"))


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def sh(cmd, env=None, cwd=None, what=""):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die(f"{what} failed ({' '.join(cmd)})")
    return r.stdout


def env0():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    e = env0()
    sh(["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(WORK, "driver")], e, os.path.join(HERE, "driver"), "driver build")
    return os.path.join(WORK, "driver", "debug", "thirdump")


def dump():
    """typed program of /repo's current tree (always re-extracted)"""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        e = env0()
        root = sh(["rustc", "+nightly", "--print", "sysroot"], e, "/", "sysroot").strip()
        out = os.path.join(WORK, f"thir-{os.getpid()}.json")
        tgt = os.path.join(WORK, "target")
        # cargo's freshness cache would skip the wrapper: forget the crate itself
        for f in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "miniboosts-*")) + glob.glob(os.path.join(tgt, "debug", "build", "miniboosts*")):
            shutil.rmtree(f, ignore_errors=True)
        e["LD_LIBRARY_PATH"] = root + "/lib"
        e["THIRDUMP_CRATE"] = "miniboosts"
        e["THIRDUMP_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["CARGO_TARGET_DIR"] = tgt
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib"]
        sh(cmd, e, REPO, "cargo check of the repository")
        if not os.path.exists(out):
            sh(["cargo", "+nightly", "clean", "--offline", "-p", "miniboosts"], e, REPO, "cargo clean")
            sh(cmd, e, REPO, "cargo check of the repository")
        if not os.path.exists(out):
            shutil.rmtree(tgt, ignore_errors=True)
            sh(cmd, e, REPO, "cargo check of the repository")
        if not os.path.exists(out):
            die("the compiler driver produced no dump")
        txt = open(out, "rb").read()
        os.unlink(out)
    return txt


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        k = args.index("--tier")
        tier = args[k + 1]
        del args[k:k + 2]
    if args == ["--setup"]:
        dump()
        print("setup done")
        return 0
    t0 = time.time()
    if len(args) == 2 and args[0] == "--dump":
        open(args[1], "wb").write(dump())
        return 0
    if args == ["--baseline"]:
        import load
        json.dump(load.baseline(json.loads(dump())), open(load.BASE, "w"), indent=0, sort_keys=True)
        return 0
    pre = None
    if "--from" in args:
        k = args.index("--from")
        pre = args[k + 1]
        del args[k:k + 2]
    txt = open(pre, "rb").read() if pre else dump()
    from load import Program
    prog = Program(json.loads(txt))
    digest = hashlib.sha256(txt).hexdigest()[:16]
    import registry
    ids = registry.ids() if args == ["--all"] else args
    rc = 0
    for pid in ids:
        rc = max(rc, registry.run(pid, prog, tier, t0 if len(ids) == 1 else time.time(), digest, HERE))
    return rc


if __name__ == "__main__":
    sys.exit(main())
