"""C32: the exported graph describes the tree."""
from registry import rule
from _bspec import *
import re

S = sym("self")


def bytes_of(t):
    m = re.match(r"^ByteStr\(\[([0-9, ]*)\]", t.args[0]) if t.op == "str" else None
    return bytes(int(x) for x in m.group(1).split(",")) if m and m.group(1).strip() else None


def text(t, prec=None):
    """pieces of a formatted string: str and argument terms; None when the template is not readable"""
    if t.op == "str":
        return [t.args[0]]
    if t.op == "call" and str(t.args[0]).split("::")[-1] == "format" and len(t.args) == 2:
        t = t.args[1]
    f = t
    if f.op != "fmt" and not (f.op == "call" and str(f.args[0]).endswith("fmt")):
        return None
    a = [x for x in f.args if isinstance(x, T)]
    if len(a) != 2 or a[1].op != "list":
        return None
    raw = bytes_of(a[0])
    if raw is None:
        return None
    args = []
    for x in a[1].args:
        if x.op != "arg" and not (x.op == "call" and x.args[0] == "arg"):
            return None
        args.append([y for y in x.args if isinstance(y, T)][-1])
    out, i, n = [], 0, 0
    while i < len(raw):
        c = raw[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(raw[i:i + c].decode())
            i += c
        elif c == 0x80:                      # long literal with a two byte length
            k = raw[i] + 256 * raw[i + 1]
            out.append(raw[i + 2:i + 2 + k].decode())
            i += 2 + k
        elif c >= 0xc0:
            flags = int.from_bytes(raw[i:i + 4], "little") if c & 1 else 0
            if flags >> 28 & 1 and not c & 4 and prec is not None:
                prec.append(0)
            i += (4 if c & 1 else 0) + (2 if c & 2 else 0)
            if c & 4:
                if prec is not None:
                    prec.append(raw[i] + 256 * raw[i + 1])
                i += 2
            if c & 8:
                n = raw[i] + 256 * raw[i + 1]
                i += 2
            if n >= len(args):
                return None
            out.append(args[n])
            n += 1
        else:
            return None
    return out


def items(t):
    """statements of a list expression: ('one', term) and ('all', list term)"""
    if t.op == "list":
        return [("one", x) for x in t.args]
    if t.op == "concat":
        return [y for x in t.args for y in items(x)]
    return [("all", t)]


def ids(p):
    """identifiers node_<id> in a statement"""
    return [b for a, b in zip(p, p[1:]) if isinstance(a, str) and a.endswith("node_") and isinstance(b, T)]


def lit(p):
    return "".join(x if isinstance(x, str) else "\0" for x in p)


@rule("C32", "Effect analysis of the graph writer: the statements emitted for a node are enumerated from the typed IR, their format templates decoded, and the identifiers and labels in them compared with the children they stand for.",
      ["feature names need no quoting"], floor=20)
def c32(ctx):
    for kind, val in (("decision_tree", "confidence"), ("regression_tree", "prediction")):
        k = kind.split("_")[0]
        b = ctx.fn("to_dot_info", "Node", module=f"{kind}::node", key=f"{k}.dot", private=True)
        if b:
            r = ctx.run(b)
            br, lf = mk("proj", S, "Branch", "0"), mk("proj", S, "Leaf", "0")
            me = mark_num(sym("a1"))
            isb = mk("is", S, "Branch")
            st = lambda t, v: rewrite(t, lambda x: (TRUE if v else FALSE) if x is isb else x)
            rec = {e.args[0]: e for e in r.events if e.kind == "call" and str(e.key).endswith("to_dot_info")}
            L, R = rec.get(proj(br, "left")), rec.get(proj(br, "right"))
            if L is None or R is None:
                if r.notes:
                    ctx.undecided(f"{k}.dot", b, "recursion not recognised")
                else:
                    ctx.ob(f"{k}.dot.children", False, b, "the graph does not descend into both children")
                continue
            ctx.ob(f"{k}.dot.children", True, b, "both children are described")
            lid, rid = L.args[1], R.args[1]
            nxt = lambda e: mark_num(proj(e.res, "1"))
            if equal(lid, add(me, ONE)):
                first, second = L, R
            else:
                first, second = R, L
            ctx.same(f"{k}.dot.id.first", first.args[1], add(me, ONE), b, "the first child gets the next free identifier")
            ctx.same(f"{k}.dot.id.second", second.args[1], nxt(first), b, "the second child gets an identifier not used in the first subtree")
            ctx.same(f"{k}.dot.id.end", st(proj(r.ret, "1"), True), nxt(second), b, "a branch reports the first identifier not used below it")
            ctx.same(f"{k}.dot.id.leaf", st(proj(r.ret, "1"), False), add(me, ONE), b, "a leaf uses one identifier")
            its = items(st(proj(r.ret, "0"), True))
            digits = []
            for _, x in its + items(st(proj(r.ret, "0"), False)):
                text(x, digits)
            ctx.ob(f"{k}.dot.digits", all(d >= 2 for d in digits), b, f"numbers are shown with two decimals at least: {digits}")
            ones = [text(t) for q, t in its if q == "one"]
            subs = [t for q, t in its if q == "all"]
            ctx.ob(f"{k}.dot.subtrees", sorted(x.id for x in subs) == sorted(proj(e.res, "0").id for e in (L, R)), b, "the statements of both subtrees are kept, once each")
            if any(p is None for p in ones):
                ctx.undecided(f"{k}.dot.statements", b, "a statement is not a plain format template")
            else:
                edges = [p for p in ones if len(ids(p)) == 2]
                nodes = [p for p in ones if len(ids(p)) == 1]
                ctx.ob(f"{k}.dot.count", len(edges) == 2 and len(nodes) == 1 and len(ones) == 3, b, "a branch is one node and two edges")
                for p in nodes:
                    rest = [x for x in p if isinstance(x, T)]
                    rl = proj(br, "rule")
                    ctx.ob(f"{k}.dot.branch", len(rest) == 3 and equal(rest[0], me) and rest[1] is proj(rl, "feature") and equal(mark_num(rest[2]), mark_num(proj(proj(rl, "threshold"), "0"))) and re.search("\0 *< *\0", lit(p)), b,
                           f"the node of a branch shows `feature < threshold`: {lit(p)!r}")
                for lab, e in (("Yes", L), ("No", R)):
                    hit = [p for p in edges if f'"{lab}"' in lit(p)]
                    ctx.ob(f"{k}.dot.edge.{lab}", len(hit) == 1 and equal(ids(hit[0])[0], me) and equal(ids(hit[0])[1], e.args[1]), b, f"the edge labelled {lab} leads to the child taken when the answer is {lab}")
            its = items(st(proj(r.ret, "0"), False))
            ps = [text(t) if q == "one" else None for q, t in its]
            if any(p is None for p in ps):
                ctx.undecided(f"{k}.dot.leaf", b, "a statement is not a plain format template")
            else:
                ok = len(ps) == 1 and [x for x in ps[0] if isinstance(x, T)] == [me, mark_num(proj(proj(lf, val), "0"))] and len(ids(ps[0])) == 1
                ctx.ob(f"{k}.dot.leaf", ok, b, "a leaf is one node showing its value")
        cls = {"decision_tree": "DecisionTreeClassifier", "regression_tree": "RegressionTreeRegressor"}[kind]
        b = ctx.fn("to_dot_file", cls, key=f"{k}.file")
        if not b:
            continue
        r = ctx.run(b, opaque=("to_dot_info",))
        cr = [e for e in r.events if e.kind == "call" and str(e.key).endswith("File::create")]
        info = [e for e in r.events if e.kind == "call" and str(e.key).endswith("to_dot_info")]
        wr = [e for e in r.events if e.kind == "call" and str(e.key).split("::")[-1] in ("write_all", "write_fmt")]
        if len(cr) != 1 or len(info) != 1 or not wr:
            ctx.undecided(f"{k}.file", b, "the writer is not recognised")
            continue
        ctx.ob(f"{k}.file.path", cr[0].args[0] is sym("a1"), b, "the file is created at the given path")
        ctx.ob(f"{k}.file.root", info[0].args[0] is F(S, "root"), b, "the graph starts at the root")
        src = proj(info[0].res, "0")
        out = [(e, bytes_of(e.args[1])) for e in wr]
        body = [e for e, t in out if t is None]
        head = [t for e, t in out if t is not None]
        if any(e.loops for e, t in out if t is not None):
            ctx.undecided(f"{k}.file.text", b, "fixed text inside a loop")
            continue
        ctx.ob(f"{k}.file.head", len(head) >= 2 and out[0][1] is not None and out[0][1].strip().startswith((b"graph", b"strict graph")) and out[0][1].strip().endswith(b"{"), b, "the file opens a graph")
        ctx.ob(f"{k}.file.tail", out[-1][1] is not None and out[-1][1].strip() == b"}" and len(out) > 1, b, "the file closes the graph")
        ctx.ob(f"{k}.file.body", len(body) == 1 and contains(body[0].args[1], lambda x: x.op == "at" and x.args[0] is src) and len(body[0].loops) == 1, b,
               f"every statement is written: {[clip(e.args[1], 100) for e in body]}")
        for l in r.loops:
            if body and l["uid"] in [x if not isinstance(x, dict) else x["uid"] for x in body[0].loops]:
                ctx.same(f"{k}.file.all", l["dom"], dom(ZERO, length(src)), b, "every statement is written, none is skipped")
