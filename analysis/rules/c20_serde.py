"""C20: a hypothesis written with serde and read back is the same hypothesis."""
import re
from registry import rule
from rulelib import *
from interp import is_variant, subterms

S = sym("self")
READS = ("deserialize", "deserialize_struct")
ASM = ["the data format gives back the numbers, strings and sequences it was given", "generic hypotheses inside a combination have faithful implementations of their own"]
ROOTS = ["WeightedMajority", "DecisionTreeClassifier", "RegressionTreeRegressor", "NBayesClassifier", "Gaussian"]
OK_CALLS = ("serialize_struct", "serialize_field", "serialize_tuple_struct", "next_element", "next_key", "next_value", "variant", "newtype_variant", "deserialize", "end", "skip_field", "serialize_element")


def tail(n):
    return n.split("::")[-1] if isinstance(n, str) else n


def call_of(x):
    return tail(x.args[0]) if x.op == "call" else None


def successful(t):
    """the value when no step of the format fails"""
    def f(x):
        if x.op == "is" and len(x.args) == 2:
            v = x.args[0]
            k = x.args[1]
            inner = v
            while inner.op in ("vproj", "proj", "field"):
                inner = inner.args[0]
            if call_of(inner) in OK_CALLS and k in ("Ok", "Some"):
                return ONE
        return x
    return rewrite(t, f)


@rule("C20", "Analysis of the derived (de)serializers after macro expansion: every field is written under the name, position and variant number it is read back from, "
      "unconditionally and with its own value.", ASM, floor=40)
def c20(ctx):
    P = ctx.prog
    paths = {}
    for p, a in P.adts.items():
        paths.setdefault(p.split("::")[-1], []).append(p)
    todo, done = [], set()
    for n in ROOTS:
        if n not in paths:
            ctx.missing(f"{n}", f"type {n}")
            continue
        todo += paths[n]
    while todo:
        p = todo.pop()
        if p in done:
            continue
        done.add(p)
        a = P.adts[p]
        for v in a["variants"]:
            for fl in v["fields"]:
                for q in P.adts:
                    if re.search(r"(?<![\w:])" + re.escape(q) + r"(?![\w:])", fl["ty"]):
                        todo.append(q)
        one(ctx, p, a)


def find(ctx, pat, p):
    out = []
    for k, b in ctx.prog.bodies.items():
        if pat(k) and re.search(r" for " + re.escape(p) + r"(<[^>]*>)?>::", k):
            out.append(b)
    return out


def one(ctx, p, a):
    short = p.split("::")[-1]
    ser = find(ctx, lambda k: "impl serde::Serialize for" in k and k.endswith(">::serialize") and "__SerializeWith" not in k, p)
    de = find(ctx, lambda k: "impl serde::Deserialize<'de> for" in k and k.endswith(">::deserialize") and "__Field" not in k and "__DeserializeWith" not in k, p)
    manual = [k for k in ctx.prog.bodies if re.match(r"<" + re.escape(p) + r"(<.*>)? as serde::(Serialize|Deserialize)", k)]
    key = p.split("::")[-3] + "." + short if short in ("Node", "BranchNode", "LeafNode") else short
    if manual:
        return ctx.undecided(key, manual[0], "hand-written (de)serializer")
    if not ser or not de:
        return ctx.ob(key, False, f"{a['file']}:{a['line']}", f"{short} can be written and read back: it has no {'serializer' if not ser else 'deserializer'}")
    ctx.ob(key, True, ser[0], f"{short} can be written and read back")
    vis = {}
    for m in ("visit_seq", "visit_map", "visit_newtype_struct", "visit_enum"):
        bs = find(ctx, lambda k: "::__Visitor" in k and k.endswith("::" + m), p)
        if bs:
            vis[m] = bs[0]
    for m in ("visit_u64", "visit_str"):
        bs = find(ctx, lambda k: "::__FieldVisitor" in k and k.endswith("::" + m), p)
        if bs:
            vis[m] = bs[0]
    for n, b in enumerate(find(ctx, lambda k: "::__DeserializeWith" in k and k.endswith("::deserialize"), p)):
        got = proj(body_of(successful(ctx.run(b, limit=20, succeed=OK_CALLS).ret)), "value")
        check_read(ctx, f"{key}.read.by-hand", b, short, "a field", got)
    if "visit_seq" not in vis and "visit_map" not in vis and not a["enum"] and any(e.kind == "call" and tail(str(e.key)) in READS for e in ctx.run(de[0], limit=20, succeed=OK_CALLS).events):
        got = body_of(successful(ctx.run(de[0], limit=20, succeed=OK_CALLS).ret))
        for f in a["variants"][0]["fields"]:
            check_read(ctx, f"{key}.read.{f['name']}", de[0], short, f"`{f['name']}`", proj(got, f["name"]))
    if a["enum"]:
        return enum(ctx, key, p, a, ser[0], vis, de[0])
    fields = [f for f in a["variants"][0]["fields"] if not f["ty"].startswith("std::marker::PhantomData")]
    r = ctx.run(ser[0], succeed=OK_CALLS)
    if r.calls("serialize_newtype_struct"):
        e = r.calls("serialize_newtype_struct")
        if len(e) != 1 or len(fields) != 1:
            return ctx.undecided(key + ".write", ser[0], "newtype of several fields")
        ctx.same(key + ".write", e[0].args[2], F(S, fields[0]["name"]), ser[0], f"{short} is written with its value")
        ctx.ob(key + ".write.always", e[0].pc is TRUE, ser[0], "always")
        b = vis.get("visit_newtype_struct")
        if b is None:
            return ctx.undecided(key + ".read", ser[0], "no reader for the newtype")
        q = ctx.run(b, succeed=OK_CALLS)
        got = body_of(successful(q.ret))
        src = q.calls("deserialize")
        if len(src) != 1:
            return ctx.undecided(key + ".read", b, clip(got, 200))
        ctx.ob(key + ".read", equal(proj(got, fields[0]["name"]), vproj(src[0].res, "Ok", "0")), b, f"{short} is read back as the value that was written: the code makes {clip(got, 200)}")
        return
    evs = r.calls("serialize_field")
    if not evs:
        return ctx.undecided(key + ".write", ser[0], "other form of serializer")
    named = len(evs[0].args) == 3
    order = []
    for e in evs:
        v = e.args[-1]
        fs = [f["name"] for f in fields if equal(v, F(S, f["name"]))]
        name = string(e.args[1]) if named else None
        always = successful(e.pc)
        order.append((fs[0] if len(fs) == 1 else None, name, always, e))
    for n, (f, name, always, e) in enumerate(order):
        if f is None:
            got = by_hand(ctx, p, e.args[-1])
            if got is not None and not unresolved(got) and got.op in ("seq", "poly", "at", "call", "ite"):
                ctx.ob(f"{key}.write.{name or n}", False, ser[0], f"{short}: `{name or n}` is written with its own value: the code writes {clip(got, 300)}")
                continue
            ctx.undecided(f"{key}.write.{name or n}", ser[0], f"written with {clip(e.args[-1], 100)}")
        elif not (always is TRUE or equal(always, TRUE)):
            bm = vis.get("visit_map")
            need = bm and any(any(string(x) == name for x in c.args) for c in ctx.run(bm, limit=20, succeed=OK_CALLS).calls("missing_field")) and not any(x["name"] == f and x["ty"].startswith("std::option::Option") for x in fields)
            if need:
                ctx.ob(f"{key}.always.{f}", False, ser[0], f"{short}: `{f}` is always written, as the reader needs it: the code writes it only under a condition")
            else:
                if unresolved(always):
                    ctx.undecided(f"{key}.write.{f}", ser[0], "written under a condition")
                else:
                    ctx.ob(f"{key}.always.{f}", False, ser[0], f"{short}: `{f}` is always written, as formats without names need it: the code writes it only if {clip(always, 300)}")
    wr = {f: n for n, (f, name, always, e) in enumerate(order) if f}
    custom = any(f is None for f, *_ in order)
    for f in fields:
        ok = f["name"] in wr
        if not ok and custom:
            continue
        ctx.ob(f"{key}.write.{f['name']}", ok, ser[0], f"{short}: the field `{f['name']}` is written")
    # position
    b = vis.get("visit_seq")
    if b:
        q = ctx.run(b, succeed=OK_CALLS)
        got = body_of(successful(q.ret))
        for f in fields:
            nm = f["name"]
            if nm not in wr:
                continue
            v = proj(got, nm)
            k = position(v)
            if k is None:
                if contains(v, lambda x: call_of(x) == "next_element"):
                    ctx.undecided(f"{key}.position.{nm}", b, clip(v, 200))
                else:
                    ctx.ob(f"{key}.position.{nm}", False, b, f"{short}: `{nm}` is read back: the code sets it to {clip(v, 120)}")
                continue
            ctx.ob(f"{key}.position.{nm}", k == wr[nm], b, f"{short}: `{nm}` is read from the position it is written to: written as element {wr[nm]}, read from element {k}")
    elif not named:
        ctx.undecided(f"{key}.position", ser[0], "no reader of sequences")
    if not named:
        return
    b, bs = vis.get("visit_map"), vis.get("visit_str")
    if not b or not bs:
        return ctx.undecided(f"{key}.names", ser[0], "no reader of maps")
    slots = names_of(ctx.run(bs).ret)
    try:
        q = ctx.run(b, limit=20, succeed=OK_CALLS)
    except OutOfTime:
        return ctx.undecided(f"{key}.names", b, "the reader of maps is too large")
    if len(q.loops) != 1 or slots is None:
        return ctx.undecided(f"{key}.names", b, "form of the reader of maps")
    l = q.loops[0]

    def done(x):
        if x.op == "bool" and x.args and x.args[0] == "exit":
            return ZERO
        if x.op == "is" and x.args[1] == "Some" and contains(x.args[0], lambda y: y.op == "loopout"):
            return ONE
        return x
    got = body_of(rewrite(q.ret, done))
    for f in fields:
        nm = f["name"]
        if nm not in wr:
            continue
        v = proj(got, nm)
        ks = [k for k in l["mu"] if contains(v, lambda y: y is l["out"].get(k))]
        ks = [k for k in ks if v is vproj(l["out"][k], "Some", "0")] or ks
        if len(ks) != 1:
            if not contains(v, lambda y: y.op in ("loopout", "loopvar", "loopat") or y.op == "call"):
                ctx.ob(f"{key}.name.{nm}", False, b, f"{short}: `{nm}` is read back: the code sets it to {clip(v, 120)}")
            else:
                ctx.undecided(f"{key}.name.{nm}", b, clip(v, 200))
            continue
        post, mu = l["post"][ks[0]], l["mu"][ks[0]]
        slot = order[wr[nm]][1]
        want = slots.get(slot)
        if want is None:
            ctx.ob(f"{key}.name.{nm}", False, b, f"{short}: `{nm}` is written as \"{slot}\", a name the reader does not know")
            continue
        hit = [s for s in sorted(set(slots.values())) if takes(post, s, mu)]
        ctx.ob(f"{key}.name.{nm}", hit == [want], b, f"{short}: `{nm}` is read from the entry it is written to")


def takes(post, slot, mu):
    """in the step reading the entry `slot`, the accumulator gets the value"""
    def f(x):
        if x.op == "is" and isinstance(x.args[1], str) and (x.args[1].startswith("__field") or x.args[1] in ("__ignore", "__other")):
            return ONE if x.args[1] == slot else ZERO
        return x
    v = successful(rewrite(post, f))
    return v is not mu and bool(contains(v, lambda x: call_of(x) == "next_value"))


def string(t):
    if t.op == "str":
        return t.args[0]
    return decode(show(t)) or show(t)


def decode(s):
    m = re.search(r"Branch\(\[([0-9_u8, ]*)\]\)", s)
    if not m:
        return None
    return bytes(int(x.strip().split("_")[0]) for x in m.group(1).split(",") if x.strip()).decode("utf-8", "replace")


def names_of(t):
    """name → slot of a generated field visitor"""
    out = {}
    conds = contains(t, lambda x: x.op == "bool" and x.args and x.args[0] == "eqc")
    for c in conds:
        nm = None
        for a in c.args[1:]:
            s = a if isinstance(a, str) else show(a) if isinstance(a, T) else str(a)
            nm = nm or decode(s)
        if nm is None:
            return None
        v = subst(t, {d: (ONE if d is c else ZERO) for d in conds})
        s = [x.args[1] for x in contains(v, lambda x: x.op == "variant" and isinstance(x.args[1], str) and x.args[1].startswith("__field"))]
        if len(s) != 1:
            return None
        out[nm] = s[0]
    return out


def body_of(t):
    """x of Ok(x)"""
    return vproj(t, "Ok", "0")


def position(v):
    """n when the value is the n-th element of the sequence"""
    while v.op in ("vproj", "proj", "field"):
        if v.op == "vproj" and v.args[1] not in ("Ok", "Some"):
            return None
        v = v.args[0]
    if call_of(v) != "next_element":
        return None
    n = 0
    x = v.args[1]
    while x.op == "havoc":
        ts = [a for a in x.args if isinstance(a, T)]
        n += 1
        nx = [a for a in ts if a.op in ("havoc", "sym")]
        if not nx:
            return None
        x = nx[0]
    return n


def check_read(ctx, key, b, short, what, got):
    """a value read by hand-written code is what was read"""
    v = got
    while v.op in ("vproj", "proj", "field"):
        v = v.args[0]
    if call_of(v) in READS:
        ctx.ob(key, True, b, "read as written")
    elif got.op in ("seq", "poly", "ite", "at") and contains(got, lambda x: call_of(x) in READS) and not unresolved(got):
        ctx.ob(key, False, b, f"{short}: {what} is read back as it was written: the code sets it to {clip(got, 300)}")
    else:
        ctx.undecided(key, b, clip(got, 200))


def by_hand(ctx, p, v):
    """what a `serialize_with` function writes for the value it is given"""
    if v.op != "struct" or "__SerializeWith" not in str(v.args[0]):
        return None
    bs = find(ctx, lambda k: "::__SerializeWith" in k and k.endswith("::serialize"), p)
    if len(bs) != 1:
        return None
    r = ctx.run(bs[0], limit=20, succeed=OK_CALLS)
    evs = [e for e in r.events if e.kind == "call" and tail(str(e.key)) == "serialize"]
    if len(evs) != 1 or evs[0].pc is not TRUE or evs[0].res is not r.ret:
        return None
    vals = F(v, "values")
    inner = F(sym("self"), "values")
    env = {F(inner, str(n)): x for n, x in enumerate(vals.args)} if vals.op == "tuple" else {}
    env.update({proj(inner, "0"): vals.args[0]} if vals.op == "tuple" and len(vals.args) == 1 else {})
    return subst(evs[0].args[0], env)


def enum(ctx, key, p, a, ser, vis, de=None):
    short = p.split("::")[-1]
    r = ctx.run(ser, succeed=OK_CALLS)
    evs = [e for e in r.events if e.kind == "call" and tail(str(e.key)) in ("serialize_newtype_variant", "serialize_unit_variant")]
    if not evs and de and any(c for c in ctx.run(de, limit=20).calls("new") if "ContentVisitor" in str(c.key)):
        return ctx.ob(key + ".tag", False, ser, f"{short}: a variant is written with its number or name; the code writes the contents alone and guesses the variant from them, which formats without names cannot")
    if len(evs) != len(a["variants"]):
        return ctx.undecided(key + ".write", ser, f"{len(evs)} variants written")
    b = vis.get("visit_enum")
    if not b or "visit_u64" not in vis or "visit_str" not in vis:
        return ctx.undecided(key + ".read", ser, "reader of variants")
    q = ctx.run(b, succeed=OK_CALLS)
    slots = names_of(ctx.run(vis["visit_str"]).ret)
    u = ctx.run(vis["visit_u64"]).ret
    nums = {}
    arg = sym("a1")
    for n in range(len(a["variants"])):
        v = subst(u, {arg: num(n)})
        s = [x.args[1] for x in contains(v, lambda x: x.op == "variant" and isinstance(x.args[1], str) and x.args[1].startswith("__field"))]
        nums[n] = s[0] if len(s) == 1 else None
    names = [v["name"] for v in a["variants"]]
    for v in a["variants"]:
        nm = v["name"]
        env = {is_variant(S, x): (TRUE if x == nm else FALSE) for x in names}
        mine = [e for e in evs if subst(e.pc, env) is TRUE]
        if len(mine) != 1 or slots is None:
            ctx.undecided(f"{key}.{nm}.write", ser, f"{len(mine)} calls")
            continue
        e = mine[0]
        if tail(str(e.key)) == "serialize_newtype_variant":
            ctx.same(f"{key}.{nm}.write", e.args[4], vproj(S, nm, v["fields"][0]["name"]), ser, f"{short}::{nm} is written with its value")
        i, s = int(numval(e.args[2])), string(e.args[3])

        def chosen(slot):
            def f(x):
                if x.op == "is" and isinstance(x.args[1], str) and x.args[1].startswith("__field"):
                    return ONE if x.args[1] == slot else ZERO
                return x
            return body_of(successful(rewrite(q.ret, f)))
        for how, slot in (("number", nums.get(i)), ("name", slots.get(s))):
            if slot is None:
                ctx.ob(f"{key}.{nm}.{how}", False, b, f"{short}::{nm} is written with the {how} {i if how == 'number' else s}, which the reader does not know")
                continue
            got = chosen(slot)
            ctx.ob(f"{key}.{nm}.{how}", got.op == "variant" and got.args[1] == nm, b, f"the {how} {short}::{nm} is written with is read back as {clip(got, 100)}")
            if v["fields"] and got.op == "variant":
                src = q.calls("newtype_variant")
                ctx.ob(f"{key}.{nm}.{how}.value", any(vproj(got, nm, v["fields"][0]["name"]) is vproj(x.res, "Ok", "0") for x in src), b, "with its value")
