#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json (single source for both)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

B = "src/booster/"
P = []
TESTS = ("The test suite has one test that runs reliably (naive Bayes on a tiny table); the booster tests need data files that are not there, so ")


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    d = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, na))


VG = "typed-IR (THIR) value-graph analysis: symbolic normal forms of the source compared with the specification, no execution, no solver"
NOTE = ("Sound for the constructs it analyses under real-number semantics of f64; engine terms it cannot normalise are reported as UNDECIDED (quiet) and "
        "listed in the evidence. Trusts rustc's THIR, the model of std/polars calls in analysis/stdmodel.py and the specification in the rule module.")

exec(open(os.path.join(HERE, "tools", "props_list.py")).read())


def main():
    out = open(os.path.join(HERE, "properties.jsonl"), "w")
    checks, na = [], []
    seen = set()
    for d, technique, note, reason in sorted(P, key=lambda p: p[0]["id"]):
        assert d["id"] not in seen, d["id"]
        seen.add(d["id"])
        out.write(json.dumps(d) + "\n")
        if reason:
            na.append({"property": d["id"], "reason": reason})
        else:
            checks.append({"property": d["id"], "quick_cmd": f"python3 check.py {d['id']} --tier quick",
                           "thorough_cmd": f"python3 check.py {d['id']} --tier thorough",
                           "technique": technique or VG, "level": "other", "level_note": note or NOTE})
    out.close()
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
               "notes": "All checks share one extraction of the typed program (rustc driver in driver/) and one symbolic engine (analysis/); "
                        "no hooks in /repo are needed. known_findings.txt lists the repaired defects."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    sys.path[:0] = [os.path.join(HERE, "analysis"), os.path.join(HERE, "analysis", "rules")]
    import registry
    rules = set(registry.ids())
    claimed = {c["property"] for c in checks}
    print("claimed", len(claimed), "rules without property", sorted(rules - claimed), "claims without rule", sorted(claimed - rules))


main()
