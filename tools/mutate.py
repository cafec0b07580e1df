#!/usr/bin/env python3
"""mutate.py N OUT.json FILE[:a-b] ... -- CHECK ...

Source mutants of the given files (line ranges optional) in scratch copies of /repo: each one is
compiled with the driver and handed to the named checks; lists those that no check reports.
Development aid: measures what the rules can see.  Nothing here is used by a check."""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
n, out = int(args[0]), args[1]
k = args.index("--")
files, checks = args[2:k], args[k + 1:]
J = int(os.environ.get("J", "6"))
OPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
       (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\b1\.0(_f64)?\b", ["0.0_f64", "2.0_f64"]), (r"\b0\.0(_f64)?\b", ["1.0_f64"]), (r"\b0\.5\b", ["0.25"]),
       (r"\b2\.0\b", ["1.0"]), (r"\b1_usize\b|\b1\b", ["0", "2"]), (r"\b0_usize\b|\b0\b(?!\.)", ["1"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
       (r" \*= ", [" /= ", " = "]), (r"\.powi\(2\)", [".powi(1)"]), (r"\.exp\(\)", [".ln()"]), (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"if (?!let)", ["if !"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"\.\.=", [".."]), (r"-(?=[a-z(1])", [""]), (r"continue;", ["break;"]), (r"break;", [""]),
       (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"f64::MIN\b", ["0.0_f64"]), (r"f64::MAX\b", ["0.0_f64"]), (r"\blogs?\(\)", [""])]


def region(spec):
    m = re.match(r"(.*?)(?::(\d+)-(\d+))?$", spec)
    return m.group(1), int(m.group(2) or 1), int(m.group(3) or 10**9)


muts = []
for spec in files:
    f, a, b = region(spec)
    src = open("/repo/" + f).read().split("\n")
    for ln, line in enumerate(src, 1):
        st = line.strip()
        if not (a <= ln <= b) or st.startswith(("//", "#", "use ", "pub fn", "fn ", "pub(", "impl", "where", "///", "assert", "const")) or "&mut" in st and "let" not in st or "->" in st:
            continue
        for rx, reps in OPS:
            for m in re.finditer(rx, line):
                if "//" in line[:m.start()]:
                    continue
                for rep in reps:
                    muts.append((f, ln, line[:m.start()] + rep + line[m.end():], line))
        if st.endswith(";") and not st.startswith(("let ", "return", "}")) and st.count("(") == st.count(")"):
            muts.append((f, ln, "", line))
random.seed(int(os.environ.get("SEED", "1")))
random.shuffle(muts)
muts = muts[:n]
print(len(muts), "mutants", flush=True)
base = "/tmp/mut"
for w in range(J):
    d = f"{base}/{w}"
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.rmtree(d + "/repo/target", ignore_errors=True)
    subprocess.run(["rsync", "-a", "--delete", "/repo/src/", d + "/repo/src/"], check=True) if shutil.which("rsync") else (shutil.rmtree(d + "/repo/src"), shutil.copytree("/repo/src", d + "/repo/src"))
import queue
q = queue.Queue()
for w in range(J):
    q.put(w)


def one(m):
    w = q.get()
    try:
        f, ln, new, old = m
        d = f"{base}/{w}"
        p = f"{d}/repo/{f}"
        keep = open(p).read()
        s = keep.split("\n")
        s[ln - 1] = new
        open(p, "w").write("\n".join(s))
        e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_WORK=d + "/work", VERIF_EVIDENCE=d + "/ev")
        os.makedirs(d + "/ev", exist_ok=True)
        r = subprocess.run([sys.executable, HERE + "/check.py", "--dump", d + "/t.json"], env=e, capture_output=True, text=True)
        res = {"file": f, "line": ln, "old": old.strip(), "new": new.strip()}
        if r.returncode:
            res["r"] = "nocompile"
        else:
            hit = []
            for c in checks:
                r = subprocess.run([sys.executable, HERE + "/check.py", c, "--from", d + "/t.json"], env=e, capture_output=True, text=True, timeout=900)
                if "VIOLATION" in r.stdout:
                    hit.append(c)
                elif r.returncode:
                    hit.append("crash:" + c)
            res["r"] = hit
        open(p, "w").write(keep)
        return res
    except Exception as ex:
        open(p, "w").write(keep)
        return {"file": m[0], "line": m[1], "r": "error " + repr(ex)[:100]}
    finally:
        q.put(w)


with ThreadPoolExecutor(J) as ex:
    rs = list(ex.map(one, muts))
json.dump(rs, open(out, "w"), indent=0)
ok = [r for r in rs if r["r"] != "nocompile"]
print("compiled", len(ok), "missed", sum(1 for r in ok if not r["r"]))
for r in sorted(ok, key=lambda r: (r["file"], r["line"])):
    if not r["r"] or isinstance(r["r"], str) or any("crash" in x for x in r["r"]):
        print(f"{r['file'].split('/')[-1]}:{r['line']}  {r.get('old', '')[:70]}  =>  {r.get('new', '')[:70]}  {r['r'] or ''}")
