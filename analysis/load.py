"""Load the typed-program dump and look things up in it."""
import json
import os

# The rules speak about some private names (fields, helper functions).  When an
# owner lost exactly one known private name of some type/signature and gained
# exactly one unknown name of the same type/signature, the two are the same item
# under a new name; the dump is rewritten to the known name.  The names known are
# listed in baseline.json (`check.py --baseline` writes it).
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")


def signature(b):
    return [strip_self(b.get("self_adt")), b.get("ret")] + [p["ty"] for p in b["params"]]


def strip_self(t):
    return (t or "").split("::")[-1]


def baseline(d):
    return {
        "adts": {a["path"]: {v["name"]: [[f["name"], f["ty"]] for f in v["fields"]] for v in a["variants"]} for a in d["adts"]},
        "fns": {b["key"]: [b["name"], b.get("self_adt") or b["module"], signature(b)] for b in d["bodies"] if b["kind"] != "Closure" and not b.get("trait") and b.get("name")},
    }


def pair(old, new):
    """old/new: [(name, type)] -> {new: old} for unambiguous pairs"""
    on, nn = {x[0] for x in old}, {x[0] for x in new}
    gone = [x for x in old if x[0] not in nn]
    came = [x for x in new if x[0] not in on]
    m = {}
    for t in {str(x[1]) for x in gone}:
        g, c = [x[0] for x in gone if str(x[1]) == t], [x[0] for x in came if str(x[1]) == t]
        if len(g) == len(c) == 1:
            m[c[0]] = g[0]
    return m


def canonical(d):
    """undo renames of private items"""
    if not os.path.exists(BASE):
        return []
    base = json.load(open(BASE))
    fm = {}
    for a in d["adts"]:
        bv = base["adts"].get(a["path"])
        if not bv:
            continue
        for v in a["variants"]:
            old = bv.get(v["name"])
            if old is None and len(a["variants"]) == len(bv) == 1:
                old = list(bv.values())[0]
            if old:
                m = pair(old, [[f["name"], f["ty"]] for f in v["fields"]])
                if m:
                    fm.setdefault(a["path"], {}).update(m)
    cur = baseline(d)["fns"]
    km = {}
    gone, came = {}, {}
    for k, (n, o, sg) in base["fns"].items():
        if k not in cur:
            gone.setdefault((o, str(sg)), []).append((k, n))
    for k, (n, o, sg) in cur.items():
        if k not in base["fns"]:
            came.setdefault((o, str(sg)), []).append((k, n))
    for q, g in gone.items():
        c = came.get(q, [])
        if len(g) == len(c) == 1:
            km[c[0][0]] = g[0]
    if not fm and not km:
        return []

    def adt_of(ty):
        t = ty.lstrip("&")
        if t.startswith("'"):
            t = t.split(" ", 1)[-1]
        if t.startswith("mut "):
            t = t[4:]
        return t.split("<", 1)[0]

    def fix(s):
        for k, (ok, _) in km.items():
            if s == k or s.startswith(k + "::"):
                return ok + s[len(k):]
        return s

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, str):
                    if km and "::" in v:
                        x[k] = fix(v)
                else:
                    walk(v)
            if x.get("k") == "field" and x.get("adt") in fm:
                x["name"] = fm[x["adt"]].get(x["name"], x["name"])
            elif x.get("k") == "adt" and x.get("adt") in fm:
                for f in x["fields"]:
                    f[0] = fm[x["adt"]].get(f[0], f[0])
            elif x.get("p") == "variant" and x.get("adt") in fm:
                for f in x["subs"]:
                    f[0] = fm[x["adt"]].get(f[0], f[0])
            elif x.get("p") == "leaf":
                m = fm.get(adt_of(x["ty"]))
                if m:
                    for f in x["subs"]:
                        f[0] = m.get(f[0], f[0])
        elif isinstance(x, list):
            for n, v in enumerate(x):
                if isinstance(v, str):
                    if km and "::" in v:
                        x[n] = fix(v)
                else:
                    walk(v)

    for a in d["adts"]:
        for v in a["variants"]:
            for f in v["fields"]:
                f["name"] = fm.get(a["path"], {}).get(f["name"], f["name"])
    names = {}
    for b in d["bodies"]:
        if b["key"] in km:
            names[id(b)] = km[b["key"]][1]
    walk(d["bodies"])
    walk(d["impls"])
    for b in d["bodies"]:
        if id(b) in names:
            b["name"] = names[id(b)]
    return [f"{p}.{n} is {o}" for p, m in fm.items() for n, o in m.items()] + [f"{n} is {o[0]}" for n, o in km.items()]


class Program:
    def __init__(self, d):
        if isinstance(d, str):
            d = json.load(open(d))
        self.raw = d
        self.renamed = canonical(d)
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        # enums with two variants: the second is "not the first" (when no other enum uses the name)
        from terms import TWO
        uses = {}
        for a in d["adts"]:
            if a.get("enum"):
                for v in a["variants"]:
                    uses.setdefault(v["name"], []).append(a)
        for a in d["adts"]:
            if a.get("enum") and len(a["variants"]) == 2:
                x, y = (v["name"] for v in a["variants"])
                if all(len(q["variants"]) == 2 and [v["name"] for v in q["variants"]] == [x, y] for q in uses[x] + uses[y]) and x not in TWO and x not in TWO.values():
                    TWO[y] = x

    def fns(self, **kw):
        return [b for b in self.bodies.values() if all(b.get(k) == v for k, v in kw.items())]

    def find(self, name, adt=None, trait=None, module=None):
        """functions by item name and (suffix of) owner type / trait / module"""
        out = []
        for b in self.bodies.values():
            if b["kind"] == "Closure" or b.get("name") != name:
                continue
            if adt is not None and (b.get("self_adt") or "").split("::")[-1] != adt:
                continue
            if trait is not None and (b.get("trait") or "").split("::")[-1] != trait:
                continue
            if module is not None and not b["module"].endswith(module):
                continue
            out.append(b)
        return out

    def adt(self, name, module=None):
        out = [a for p, a in self.adts.items() if p.split("::")[-1] == name and (module is None or module in p)]
        return out
