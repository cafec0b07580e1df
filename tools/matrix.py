#!/usr/bin/env python3
"""matrix.py NAME file 'old' 'new' [...]: development helper; applies an edit to a scratch copy and prints which checks report it."""
import os, re, subprocess, sys, shutil


def run(name, edits):
    R = f"/tmp/mx/{name}"
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    for f, old, new in edits:
        p = os.path.join(R, f)
        t = open(p).read()
        assert t.count(old) == 1, (name, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    env = dict(os.environ, VERIF_REPO=R, VERIF_WORK=f"/tmp/mx/{name}.w", VERIF_EVIDENCE=f"/tmp/mx/{name}.e")
    o = subprocess.run(["python3", "/verif/check.py", "--all"], env=env, capture_output=True, text=True)
    v = re.findall(r"^VIOLATION property=(C\d+)", o.stdout, re.M)
    u = sorted(set(re.findall(r"^  UNDECIDED property=(C\d+)", o.stdout, re.M)))
    print(f"{name}: VIOL {' '.join(v) or '-'} | UNDEC {' '.join(x for x in u if x not in v)}", "" if v or u else (o.stderr[-300:]), flush=True)
    shutil.rmtree(R, ignore_errors=True)
    shutil.rmtree(f"/tmp/mx/{name}.w", ignore_errors=True)
