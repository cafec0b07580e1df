"""C10: growth of the trees; C11: what a grown tree predicts."""
from registry import rule
from _bspec import *
from interp import is_variant

ASM = ["real-number semantics of f64 arithmetic", "feature values and thresholds are not NaN"]
S = sym("self")
KINDS = {
    "decision": dict(mod="decision_tree", alg="DecisionTree", value="confidence", helper="confidence_and_loss", cls="DecisionTreeClassifier", trait="Classifier"),
    "regression": dict(mod="regression_tree", alg="RegressionTree", value="prediction", helper="prediction_and_loss", cls="RegressionTreeRegressor", trait="Regressor"),
}


def short(k):
    return str(k).split("::")[-1]


def settle(t, m):
    return rewrite(t, lambda x: m.get(x, x)) if m else t


def one_call(r, name):
    return [e for e in r.events if e.kind == "call" and short(e.key) == name]


def parts(t):
    """condition and value per kind of node built"""
    out = {}
    for c, v in cases(t):
        if v.op != "variant":
            return None
        n = v.args[1]
        if n in out:
            if not equal(out[n][1], v):
                return None
            out[n] = (or_(out[n][0], c), v)
        else:
            out[n] = (c, v)
    return out


def growth(ctx, kind):
    k = KINDS[kind]
    b = ctx.fn("full_tree", k["alg"], key=f"{kind}.grow", private=True)
    h = ctx.fn(k["helper"], private=True, key=f"{kind}.leaf-value")
    if not b or not h:
        return
    r = ctx.run(b, opaque=lambda key, f: short(key) in ("best_split", k["helper"]) or str(key).endswith("Splitter::split"))
    val, split, rec = one_call(r, k["helper"]), one_call(r, "best_split"), one_call(r, "full_tree")
    P = parts(r.ret)
    if len(val) != 1 or len(split) != 1 or P is None or set(P) != {"Leaf", "Branch"}:
        if P is not None and set(P) == {"Leaf"}:
            return ctx.ob(f"{kind}.grow", False, b, "the tree never grows a branch")
        return ctx.undecided(f"{kind}.grow", b, f"growth is not one leaf case and one branch case: {clip(r.ret, 200)}")
    names = [p["pat"]["name"] if p["pat"] and p["pat"]["p"] == "bind" else "" for p in b["params"]]
    types = [p["ty"] for p in b["params"]]
    smp = [sym(f"a{i}") for i, t in enumerate(types) if t.endswith("Sample")]
    idx = [sym(f"a{i}") for i, t in enumerate(types) if t.startswith("std::vec::Vec<usize>") or t.startswith("&[usize]") or t == "alloc::vec::Vec<usize>" or "Vec<usize" in t]
    flt = [sym(f"a{i}") for i, t in enumerate(types) if t.replace("&'_ ", "&") in ("&[f64]",) or t.endswith("[f64]")]
    dep = [sym(f"a{i}") for i, t in enumerate(types) if t.split("::")[-1] == "Depth" or t == "usize"]
    if len(smp) != 1 or len(idx) != 1 or len(dep) != 1 or len(flt) != (1 if kind == "decision" else 2):
        return ctx.undecided(f"{kind}.grow", b, "unexpected parameters")
    smp, idx, dep = smp[0], idx[0], dep[0]
    pd = [i for i, t in enumerate(types) if sym(f"a{i}") is dep][0]
    wrapped = types[pd].split("::")[-1] == "Depth"
    D = mark_num(proj(dep, "0") if wrapped else dep)
    e = split[0]
    # ---- the split is searched on the rows of this node
    ctx.ob(f"{kind}.split.rows", idx in e.args and smp in e.args and all(x in e.args for x in flt), b, f"the split is searched on the rows and weights of the node: {[clip(x, 60) for x in e.args]}")
    ctx.ob(f"{kind}.value.rows", idx in val[0].args and all(x in val[0].args for x in flt), b, f"the value of the node is computed from its rows: {[clip(x, 60) for x in val[0].args]}")
    leafc, leaf = P["Leaf"]
    branchc, br = P["Branch"]
    leaf, br = vproj(leaf, "Leaf", "0"), vproj(br, "Branch", "0")
    v, loss = proj(val[0].res, "0"), proj(val[0].res, "1")
    lossv = mark_num(proj(loss, "0"))
    rule_ = proj(br, "rule")
    thr = proj(rule_, "threshold")
    ctx.ob(f"{kind}.rule", contains(proj(rule_, "feature"), lambda x: x is proj(e.res, "0")) and contains(thr, lambda x: x is proj(e.res, "1")), b,
           f"the rule of the node is the best split: {clip(rule_, 200)}")
    sp = [x for x in r.events if x.kind == "call" and str(x.key).endswith("Splitter::split")]
    if not sp:
        return ctx.undecided(f"{kind}.route", b, "rows are not routed by the rule of the node")
    i = fresh()
    left = is_variant(mk("call", sp[0].res.args[0], rule_, smp, at(idx, i)), "Left")
    n = length(idx)
    L, R = (seq(i, dom(ZERO, n), g, at(idx, i)) for g in (left, not_(left)))
    if len(rec) != 2:
        return ctx.ob(f"{kind}.recursion", False, b, f"a branch grows {len(rec)} subtrees")
    pi = [j for j, t in enumerate(types) if sym(f"a{j}") is idx][0]
    for side, rows in (("left", L), ("right", R)):
        c = proj(br, side)
        ev = [x for x in rec if x.res is c]
        if len(ev) != 1:
            ctx.ob(f"{kind}.{side}", False, b, f"the {side} child is not the subtree grown for it: {clip(c, 200)}")
            continue
        ev = ev[0]
        ctx.same(f"{kind}.{side}.rows", ev.args[pi], rows, b, f"the {side} child gets exactly the rows its rule sends there")
        d = ev.args[pd]
        d = mark_num(proj(d, "0")) if wrapped else d
        d = settle(d, {pos(D, True): TRUE, pos(D): TRUE, zero(D): FALSE})
        ctx.same(f"{kind}.{side}.depth", d, sub(D, ONE), b, "a child may be one level less deep")
        same = [j for j in range(len(types)) if j not in (pi, pd)]
        ctx.ob(f"{kind}.{side}.same", all(ev.args[j] is (S if j == 0 else sym(f"a{j}")) for j in same), b, "sample, weights and criterion are handed on unchanged")
    # ---- when a node is a leaf
    empty = or_(not_(pos(length(L), True)), not_(pos(length(R), True)))
    if kind == "decision":
        stop = [or_(zero(lossv), not_(pos(D, True)))]
    else:
        g = flt[0]
        j = fresh()
        fitted = not_(bind("any", j, dom(ZERO, n), not_(zero(A(g, at(idx, j))))))
        stop = [or_(fitted, not_(pos(sub(D, ONE), True)))]
    ctx.same(f"{kind}.leaf.when", leafc, [or_(s, empty) for s in stop], b,
             "a node is a leaf exactly when nothing is left to gain, the depth is used up, or its rule sends all rows to one side")
    ctx.same(f"{kind}.branch.when", branchc, not_(leafc), b, "otherwise it is a branch")
    for nm, node in (("leaf", leaf), ("branch", br)):
        ctx.ob(f"{kind}.{nm}.value", proj(node, k["value"]) is v, b, f"a {nm} carries the value of its own rows: {clip(proj(node, k['value']), 200)}")
        ctx.ob(f"{kind}.{nm}.loss", proj(node, "loss_as_leaf") is loss, b, f"a {nm} carries the loss of its own rows")
        if kind == "decision":
            ctx.same(f"{kind}.{nm}.mass", proj(node, "total_weight"), SUM(n, lambda q: A(flt[0], at(idx, q))), b, f"a {nm} carries the weight of its own rows")


def produce(ctx, kind):
    k = KINDS[kind]
    b = ctx.fn("produce", k["alg"])
    if not b:
        return
    r = ctx.run(b, opaque=lambda key, f: short(key) in ("full_tree", "remove_redundant_nodes") or f"{k['mod']}::node::Node as std::convert::From" in str(key))
    rec = one_call(r, "full_tree")
    if len(rec) != 1:
        return ctx.undecided(f"{kind}.produce", b, "the tree is not grown by one call")
    e = rec[0]
    gb = ctx.prog.bodies.get(e.key)
    types = [p["ty"] for p in gb["params"]] if gb else []
    a1, a2 = sym("a1"), sym("a2")
    rows = [a for a, t in zip(e.args, types) if "Vec<usize" in t or t.endswith("[usize]")]
    dep = [a for a, t in zip(e.args, types) if t.split("::")[-1] == "Depth" or t == "usize"]
    flt = [a for a, t in zip(e.args, types) if t.endswith("[f64]")]
    if len(rows) != 1 or len(dep) != 1:
        return ctx.undecided(f"{kind}.produce", b, "unexpected parameters")
    i = fresh()
    if kind == "decision":
        n = NF(a1, "n_sample")
        ctx.same("decision.produce.rows", rows[0], seq(i, dom(ZERO, n), pos(A(a2, i)), i), b, "the tree is grown on all rows with positive weight", {length(a2): n})
        ctx.ob("decision.produce.dist", flt == [a2], b, "the weights are the given distribution")
        crit = [a for a, t in zip(e.args, types) if t.split("::")[-1] == "Criterion"]
        ctx.ob("decision.produce.criterion", crit == [F(S, "criterion")] or not crit, b, "the configured criterion is used")
    else:
        n = [NF(S, "n_sample"), NF(a1, "n_sample")]
        ctx.same("regression.produce.rows", rows[0], [seq(i, dom(ZERO, x), TRUE, i) for x in n], b, "the tree is grown on all rows")
        g = [one_call(r, x) for x in ("gradient", "hessian")]
        tgt = F(a1, "target")
        ok = all(len(x) == 1 and x[0].args[0] is F(S, "loss_func") and x[0].args[1] is a2 and x[0].args[2] is tgt for x in g)
        ctx.ob("regression.produce.derivatives", ok and flt == [g[0][0].res, g[1][0].res], b, "gradient and hessian of the configured loss at the given predictions, in that order")
    ctx.ob(f"{kind}.produce.depth", dep[0] is F(S, "max_depth"), b, "growth starts with the configured depth")
    ctx.ob(f"{kind}.produce.sample", a1 in e.args, b, "the tree is grown on the given sample")
    root = F(r.ret, "root")
    if root.op == "call" and short(root.args[0]) == "from":
        x = root.args[1]
        if x.op == "havoc" and short(x.args[0]) == "remove_redundant_nodes" and len(x.args) == 3:
            x = x.args[2]
        ctx.ob(f"{kind}.produce.root", x is e.res, b, f"the grown tree is what is returned: {clip(root, 200)}")
    else:
        ctx.undecided(f"{kind}.produce.root", b, clip(root, 200))


def prune(ctx):
    b = ctx.fn("remove_redundant_nodes", "TrainNode", key="prune", private=True)
    if not b:
        return
    r = ctx.run(b)
    br = mk("proj", S, "Branch", "0")
    isb = mk("is", S, "Branch")
    t = r.out("self")
    left, right = proj(br, "left"), proj(br, "right")
    lb, rb = mk("is", left, "Branch"), mk("is", right, "Branch")

    def stat(x, v):
        y = mk("proj", x, v, "0")
        l, w = mark_num(proj(proj(y, "loss_as_leaf"), "0")), mark_num(proj(y, "total_weight"))
        return l, w

    def cost(f):
        return sub(f(*stat(S, "Branch")), add(f(*stat(left, "Leaf")), f(*stat(right, "Leaf"))))
    eqs = [cost(lambda l, w: mul(l, w)), cost(lambda l, w: l)]
    n = 0
    for c, v in cases(t):
        if v is S:
            continue
        if v.op == "setv":
            node = v.args[3] if len(v.args) > 3 else None
            d = dict(node.args[1]) if node is not None and node.op == "obj" and node.args[0] is br else None
            if d is None:
                ctx.undecided("prune.keep", b, clip(v, 200))
                continue
            ok = all(q in ("left", "right") and x.op == "havoc" and short(x.args[0]) == "remove_redundant_nodes" and x.args[2] is proj(br, q) for q, x in d.items())
            ctx.ob("prune.keep", ok, b, f"pruning works inside the subtrees and changes nothing else of a branch: {clip(v, 300)}")
        elif v.op == "variant" and v.args[1] == "Leaf":
            n += 1
            leaf = v.args[2][0][1]
            for q in ("confidence", "total_weight", "loss_as_leaf"):
                ctx.ob(f"prune.{q}", proj(leaf, q) is proj(br, q), b, f"a pruned branch becomes a leaf with its own {q}: {clip(proj(leaf, q), 200)}")
            ctx.same("prune.branch-only", settle(c, {isb: FALSE}), FALSE, b, "only branches are pruned")
            for side, x in (("left", lb), ("right", rb)):
                ctx.same(f"prune.{side}-leaf", settle(c, {isb: TRUE, x: TRUE}), FALSE, b, f"a branch whose {side} child is a branch is kept")
            c0 = settle(c, {isb: TRUE, lb: FALSE, rb: FALSE, mk("is", left, "Leaf"): TRUE, mk("is", right, "Leaf"): TRUE})
            ok = any(settle(c0, {zero(e): FALSE}) is FALSE for e in eqs)
            ctx.ob("prune.when", ok, b, f"a branch is only replaced when its cost as a leaf equals the cost of its two leaves: {clip(c0, 300)}")
        else:
            ctx.undecided("prune", b, clip(v, 200))


def structs(ctx, kind):
    """conversion from the training tree keeps the tree"""
    k = KINDS[kind]
    m = f"weak_learner::{k['mod']}::"
    conv = {short(b["key"].split(" as ")[0]).split("<")[0]: b for b in ctx.prog.find("from")
            if b["key"].startswith(f"<{m}node::") and f"{m}train_node::Train" in b["key"]}
    a0 = sym("a0")

    def is_conv(x, src):
        return x.op == "call" and short(x.args[0]) in ("into", "from") and x.args[1] is src

    def unbox(x):
        return x
    b = conv.get("Node")
    if b:
        r = ctx.run(b, opaque=lambda key, f: "::from" in str(key))
        for c, v in cases(r.ret):
            if v.op != "variant":
                ctx.undecided(f"{kind}.convert.node", b, clip(v, 200))
                continue
            nm = v.args[1]
            want = mk("is", a0, "Branch") if nm == "Branch" else not_(mk("is", a0, "Branch"))
            ctx.same(f"{kind}.convert.{nm}.when", c, want, b, f"exactly the {nm} nodes become {nm} nodes")
            inner = v.args[2][0][1]
            ctx.ob(f"{kind}.convert.{nm}", is_conv(inner, mk("proj", a0, nm, "0")), b, f"{nm} is converted from itself: {clip(inner, 200)}")
    else:
        ctx.undecided(f"{kind}.convert", "", "no conversion of training nodes")
    b = conv.get("BranchNode")
    if b:
        r = ctx.run(b, opaque=lambda key, f: "::from" in str(key) and "::from_raw" not in str(key))
        for side in ("left", "right"):
            ctx.ob(f"{kind}.convert.{side}", is_conv(proj(r.ret, side), proj(a0, side)), b, f"the {side} child is the converted {side} child: {clip(proj(r.ret, side), 200)}")
        ctx.ob(f"{kind}.convert.rule", proj(r.ret, "rule") is proj(a0, "rule"), b, "the rule is kept")
    b = conv.get("LeafNode")
    if b:
        r = ctx.run(b)
        ctx.ob(f"{kind}.convert.value", proj(r.ret, k["value"]) is proj(a0, k["value"]), b, "the leaf keeps its value")


def routing(ctx, kind):
    k = KINDS[kind]
    meth = "confidence" if kind == "decision" else "predict"
    m = f"weak_learner::{k['mod']}::"
    bodies = [b for b in ctx.prog.find(meth) if b["key"].startswith(f"<{m}") and k["trait"] in b["key"]]
    a1, a2 = sym("a1"), sym("a2")
    seen = set()
    for b in bodies:
        ty = b["key"].split(" as ")[0].lstrip("<")
        nm = ty.split("::")[-1]
        tree = nm in ("Node", "TrainNode")
        r = ctx.run(b, opaque=lambda key, f: str(key).endswith("Splitter::split") or (short(key) == meth and f"::{k['mod']}::" in str(key) and ("Node as" in str(key)) and ("::Node as" in str(key) or "TrainNode as" in str(key))))
        sp = [e for e in r.events if e.kind == "call" and str(e.key).endswith("Splitter::split")]
        kids_ = [e for e in r.events if e.kind == "call" and short(e.key) == meth]
        seen.add(nm)
        if nm.endswith("LeafNode"):
            ctx.same(f"{kind}.route.{nm}", r.ret, mark_num(proj(proj(S, k["value"]), "0")), b, "a leaf answers its own value")
        elif nm.endswith("BranchNode") or tree:
            node = mk("proj", S, "Branch", "0") if tree else S
            if sp and not kids_ and tree and len(r.loops) == 1:
                # a descent written as a loop over the current node
                l = r.loops[0]
                at_ = [q for q, v in l["pre"].items() if v is S]
                if len(at_) == 1:
                    mu = l["mu"][at_[0]]
                    isb = mk("is", mu, "Branch")
                    in_branch = {isb: TRUE, mk("is", mu, "Leaf"): FALSE}
                    here = mk("proj", mu, "Branch", "0")
                    lft = is_variant(mk("call", sp[0].res.args[0], proj(here, "rule"), a1, a2), "Left")
                    ctx.same(f"{kind}.route.{nm}.go-on", l["contpc"], isb, b, "the descent goes on as long as the node is a branch")
                    ctx.same(f"{kind}.route.{nm}", settle(l["post"][at_[0]], in_branch), ite(lft, proj(here, "left"), proj(here, "right")), b, "it goes to the child on the side of its rule")
                    lf = rewrite(r.ret, lambda x: x.args[1] if x.op == "loopat" and x.args[0] == l["uid"] else x)
                    lf = settle(lf, {isb: FALSE, mk("is", mu, "Leaf"): TRUE})
                    ctx.same(f"{kind}.route.{nm}.leaf", lf, mark_num(proj(proj(mk("proj", mu, "Leaf", "0"), k["value"]), "0")), b, "a leaf answers its own value")
                    continue
            if not sp or not kids_:
                ctx.undecided(f"{kind}.route.{nm}", b, "no recursive descent")
                continue
            res = settle(r.ret, {mk("is", S, "Branch"): TRUE, mk("is", S, "Leaf"): FALSE}) if tree else r.ret
            call = lambda x: mark_num(mk("call", kids_[0].res.args[0], x, a1, a2))
            lft = is_variant(mk("call", sp[0].res.args[0], proj(node, "rule"), a1, a2), "Left")
            ctx.same(f"{kind}.route.{nm}", res, ite(lft, call(proj(node, "left")), call(proj(node, "right"))), b, "a branch answers what the child on the side of its rule answers for the same row")
            if tree:
                lf = settle(r.ret, {mk("is", S, "Branch"): FALSE, mk("is", S, "Leaf"): TRUE})
                ctx.same(f"{kind}.route.{nm}.leaf", lf, mark_num(proj(proj(mk("proj", S, "Leaf", "0"), k["value"]), "0")), b, "a leaf answers its own value")
        elif nm == k["cls"]:
            if len(kids_) == 1:
                ctx.ob(f"{kind}.route.root", r.ret is kids_[0].res and tuple(kids_[0].args) == (F(S, "root"), a1, a2), b, "the tree answers what its root answers")
            else:
                ctx.undecided(f"{kind}.route.root", b, clip(r.ret, 200))
    if k["cls"] not in seen:
        ctx.missing(f"{kind}.route.root", f"{k['trait']} for {k['cls']}")


@rule("C10", "Value-graph analysis of the recursive growth function (node built, its condition, rows and depth handed to each child), of the entry point, and of the pruning step, with the split search and the node value left symbolic.", ASM, floor=24)
def c10(ctx):
    for kind in KINDS:
        growth(ctx, kind)
        produce(ctx, kind)
    prune(ctx)
    from c13_split import c13_leaf, c14_leaf
    c13_leaf(ctx)
    c14_leaf(ctx)


@rule("C11", "Value-graph comparison of the routing rule, of the recursive descent of every node type, and of the conversion from training nodes to final nodes, field by field.", ASM, floor=20)
def c11(ctx):
    b = ctx.fn("split", "Splitter", private=True)
    if b:
        r = ctx.run(b, opaque=lambda key, f: "::index" in str(key))
        thr = mark_num(proj(proj(S, "threshold"), "0"))
        calls = [e for e in r.events if e.kind == "call" and short(e.key) == "index"]
        col = [e for e in calls if e.args[0] is sym("a1")]
        row = [e for e in calls if e.args[1] is sym("a2")]
        if len(col) == 1 and len(row) == 1 and len(calls) == 2:
            ctx.ob("split.column", contains(col[0].args[1], lambda x: x is proj(S, "feature")), b, "the rule looks at the column it names")
            ctx.ob("split.row", row[0].args[0] is col[0].res, b, "the rule looks at the row it is asked about")
            ctx.same("split.side", is_variant(r.ret, "Left"), lt(mark_num(row[0].res), thr), b, "a row goes left iff its value is below the threshold")
        else:
            ctx.undecided("split", b, clip(r.ret, 200))
    b = ctx.fn("new", "Splitter", private=True)
    if b:
        r = ctx.run(b)
        ctx.ob("split.new", proj(r.ret, "threshold") is sym("a1") and contains(proj(r.ret, "feature"), lambda x: x is sym("a0")), b, "a rule keeps the column name and threshold it is built from")
    for kind in KINDS:
        routing(ctx, kind)
        structs(ctx, kind)
