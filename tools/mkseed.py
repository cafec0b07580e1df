#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'breaks' < edits: development helper writing /verif/seeded/ID from
(file, old, new) edits made to the scratch copy /tmp/sr and the body of a demo program."""
import json, os, subprocess, sys
LIB = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib.rs")).read()
SH = '''#!/bin/bash
# cwd: the repository, after its build.  Links the demonstration against the built library.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cargo build --lib --offline >"$T/log" 2>&1 || { tail -5 "$T/log"; exit 3; }
rustc --edition 2021 -Awarnings -o "$T/demo" "$here/main.rs" --extern miniboosts=target/debug/libminiboosts.rlib -L dependency=target/debug/deps || exit 3
export TMPDIR="$T"; cd "$T" && timeout 200 ./demo
'''


def make(sid, prop, needs, breaks, edits, body):
    R = "/tmp/sr"
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", R, "fetch", "-q", "/repo"], check=True)
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run(["git", "-C", R, "reset", "-q", "--hard", h], check=True)
    for f, old, new in edits:
        p = os.path.join(R, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    open(d + "/main.rs", "w").write(LIB + "\nfn main() {\n" + body + "\n}\n")
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
