"""C33: the neural-network weak learner computes what its layers define and descends the gradient of its loss."""
from registry import rule
from _bspec import *
from rulelib import unresolved, loop_spec, accumulators, find_loop
from interp import upd, is_variant

ASM = ["real-number semantics of f64 arithmetic", "the matrices handed to the layer arithmetic are rectangular and of the sizes asserted there",
       "random draws are not judged, only the distribution and the amount that is asked for"]
LAYERS = F(S, "layers")
X1, X2, X3, X4 = (sym(f"a{i}") for i in (1, 2, 3, 4))
NR, NC, NM = NF(sym("shape"), "nrow"), NF(sym("shape"), "ncol"), NF(sym("shape"), "nmid")


def mat(name, n, m):
    if n is ONE and m is ONE:
        return mk("list", mk("list", mark_num(mk("call", name, ZERO, ZERO))))
    return SEQ(n, lambda i: SEQ(m, lambda j: mark_num(mk("call", name, i, j))))


def vec(name, n):
    return SEQ(n, lambda i: mark_num(mk("call", name, i)))


class Shim:
    def __init__(self, l):
        self.loops = [l]


def tail(n):
    return n.split("::")[-1] if isinstance(n, str) else n


def shorten(t):
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str) and "::" in x.args[0]:
            return mk("call", tail(x.args[0]), *x.args[1:])
        return x
    return rewrite(t, f)


@rule("C33", "Value-graph analysis of layers, network, learner: layer arithmetic in closed form on rectangular matrices, forward and backward passes as recurrences over the layers, "
      "the training schedule as nested recurrences.", ASM, floor=30)
def c33(ctx):
    layer(ctx)
    algebra(ctx)
    network(ctx)
    train(ctx)
    predict(ctx)
    learner(ctx)


def layer(ctx):
    b = ctx.fn("new", "Layer", private=True)
    if b:
        r = ctx.run(b)

        v = r.ret
        n, m = mark_num(sym("a0")), mark_num(sym("a1"))
        ctx.same("layer.nrow", proj(v, "nrow"), n, b, "a layer knows its output size")
        ctx.same("layer.ncol", proj(v, "ncol"), m, b, "and its input size")
        ctx.same("layer.activation", proj(v, "activation"), sym("a2"), b, "and its activation")
        ctx.same("layer.bias-size", endless(length(proj(v, "bias"))), n, b, "one bias per output")
        # the drawn parameters
        ds = {(e.args[0], e.args[1]) for e in r.calls("new") if "Normal" in str(e.key) and len(e.args) == 2}
        for mean, dev in ds:
            if is_num(mean) and is_num(dev):
                ctx.ob("layer.start", mean is ZERO and numval(dev) > 0, b, f"parameters start as draws around zero with a positive spread, not of mean {mean} and deviation {dev}")
            else:
                ctx.undecided("layer.start", b, "the distribution of the first parameters is not constant")
        # rows
        mx = proj(v, "matrix")
        ls = [l for l in r.loops if any(equal(endless(rows(l, k)), m) for k in l["mu"] if rows(l, k) is not None)]
        ok = [l for l in ls if equal(endless(l["dom"]), dom(ZERO, n))]
        if mx.op == "seq":
            ctx.same("layer.rows", endless(length(mx)), n, b, "one row per output")
            ctx.same("layer.columns", endless(length(at(mx, sym("i")))), m, b, "one column per input")
        elif ok:
            ctx.ob("layer.rows", True, b, "one row per output")
        else:
            cand = [(l, k) for l in r.loops for k in l["mu"] if rows(l, k) is not None and mx.op == "loopout"]
            cand = [(l, k) for l, k in cand if l["out"].get(k) is proj(r.ret, "matrix")]
            if len(cand) == 1:
                l, k = cand[0]
                ctx.same("layer.rows", endless(l["dom"]), dom(ZERO, n), b, "one row per output")
                ctx.same("layer.columns", endless(rows(l, k)), m, b, "one column per input")
            else:
                ctx.undecided("layer.rows", b, clip(mx, 200))
    fields = {"matrix": mat("w", NR, NC), "bias": vec("b", NR), "nrow": NR, "ncol": NC}
    w, c = fields["matrix"], fields["bias"]
    x = vec("x", NC)
    b = ctx.fn("affine", "Layer", private=True)
    if b:
        r = ctx.run(b, fields=fields, args={"a1": x})
        ctx.same("affine", r.ret, SEQ(NR, lambda i: add(SUM(NC, lambda k: mul(at(at(w, i), k), at(x, k))), at(c, i))), b, "z ↦ Wz + b")
    b = ctx.fn("nonlinear", "Layer", private=True)
    if b:
        r = ctx.run(b, opaque=["eval"])
        ctx.same("nonlinear", shorten(r.ret), mk("call", "eval", F(S, "activation"), X1), b, "the layer's own activation is applied")
    b = ctx.fn("forward", "Layer", private=True)
    if b:
        r = ctx.run(b, opaque=["affine", "eval"])
        ctx.same("forward", shorten(r.ret), mk("call", "eval", F(S, "activation"), mk("call", "affine", S, X1)), b, "a layer: the activation of Wz + b")
    b = ctx.fn("output_dim", "Layer", private=True)
    if b:
        ctx.same("output_dim", ctx.run(b).ret, F(S, "nrow"), b, "output size")
    b = ctx.fn("shape", "Layer", private=True)
    if b:
        ctx.same("shape", ctx.run(b).ret, mk("tuple", F(S, "nrow"), F(S, "ncol")), b, "shape is (outputs, inputs)")
    b = ctx.fn("backward", "Layer", private=True)
    if b:
        dw, db = mat("dw", NR, NC), vec("db", NR)
        r = ctx.run(b, fields=fields, args={"a2": dw, "a3": db})
        rate = mark_num(X1)
        ctx.same("backward.weights", r.field("matrix"), SEQ(NR, lambda i: SEQ(NC, lambda j: sub(at(at(w, i), j), mul(rate, at(at(dw, i), j))))), b, "weights step against the gradient")
        ctx.same("backward.bias", r.field("bias"), SEQ(NR, lambda i: sub(at(c, i), mul(rate, at(db, i)))), b, "biases step against the gradient")
        ctx.same("backward.activation", r.field("activation"), F(S, "activation"), b, "the activation stays")


def endless(t):
    """an endless iterator has no length that matters"""
    inf = lambda y: y.op == "len" and y.args[0].op == "call" and tail(y.args[0].args[0]) == "sample_iter"

    def f(x):
        if x.op == "min":
            rest = [y for y in x.args if not inf(y)]
            if rest and len(rest) < len(x.args):
                y = rest[0]
                for z in rest[1:]:
                    y = min_(y, z)
                return y
        return x
    return rewrite(t, f)


def rows(l, k):
    """length of the row a loop appends to a list in every iteration"""
    mu, pre, post = l["mu"][k], l["pre"][k], l["post"][k]
    if not isinstance(post, T) or not equal(length(pre), ZERO) or post.op != "concat" or post.args[0] is not mu or len(post.args) != 2:
        return None
    last = post.args[1]
    if last.op != "list" or len(last.args) != 1 or last.args[0].op not in ("seq", "list"):
        return None
    return length(last.args[0])


def algebra(ctx):
    for n, m, k, tag in ((NR, NC, NM, ""), (ONE, ONE, ONE, ".single")):
        products(ctx, n, m, k, tag)


def products(ctx, n, m, k, tag):
    cut = (lambda t: t) if not tag else lambda t: at(t, ZERO) if at(t, ZERO).op not in ("seq", "upd", "list") else at(at(t, ZERO), ZERO)
    p, q = mat("p", n, k), mat("q", k, m)
    b = ctx.fn("matrix_product", private=True)
    if b:
        r = ctx.run(b, args={"a0": p, "a1": q})
        inside(ctx, "matrix_product", b, r, tag)
        ctx.same("matrix_product" + tag, cut(r.ret), cut(SEQ(n, lambda i: SEQ(m, lambda j: SUM(k, lambda l: mul(at(at(p, i), l), at(at(q, l), j)))))), b, "A B")
    p = mat("p", k, n)
    b = ctx.fn("matrix_inner_product", private=True)
    if b:
        r = ctx.run(b, args={"a0": p, "a1": q})
        inside(ctx, "matrix_inner_product", b, r, tag)
        ctx.same("matrix_inner_product" + tag, cut(r.ret), cut(SEQ(n, lambda i: SEQ(m, lambda j: SUM(k, lambda l: mul(at(at(p, l), i), at(at(q, l), j)))))), b, "Aᵀ B")
    p, q = mat("p", n, m), mat("q", n, m)
    b = ctx.fn("column_sum", private=True)
    if b:
        r = ctx.run(b, args={"a0": p})
        inside(ctx, "column_sum", b, r, tag)
        ctx.same("column_sum" + tag, cut(r.ret), cut(SEQ(m, lambda j: SUM(n, lambda i: at(at(p, i), j)))), b, "sums of the columns")
    b = ctx.fn("hadamard_product", private=True)
    if b:
        r = ctx.run(b, args={"a0": p, "a1": q})
        inside(ctx, "hadamard_product", b, r, tag)
        ctx.same("hadamard_product" + tag, cut(r.ret), cut(SEQ(n, lambda i: SEQ(m, lambda j: mul(at(at(p, i), j), at(at(q, i), j))))), b, "element-wise product")


def inside(ctx, key, b, r, tag):
    """with one row and one column, no other row is looked at"""
    if not tag:
        return
    bad = set()
    for t in [r.ret] + [x for l in r.loops for x in [l["dom"]] + list(l["post"].values())]:
        if isinstance(t, T):
            bad |= set(contains(t, lambda x: x.op == "at" and x.args[0].op == "list" and is_num(x.args[1]) and numval(x.args[1]) >= len(x.args[0].args)))
    ctx.ob(key + ".inside", not bad, b, "matrices with a single row and column are handled" + (f": the code looks at {clip(bad.pop(), 120)}" if bad else ""))


def network(ctx):
    b = ctx.fn("new", "NNHypothesis", private=True)
    if b:
        r = ctx.run(b, opaque=lambda key, f: str(key).endswith("Layer::new"))
        d, a = sym("a1"), sym("a2")
        v = shorten(r.ret)
        ctx.same("network.task", proj(v, "task"), sym("a0"), b, "the task is kept")
        e = {length(a): sub(length(d), ONE)}
        want = SEQ(sub(length(d), ONE), lambda l: mk("call", "new", at(d, add(l, ONE)), at(d, l), at(a, l)))
        ctx.same("network.layers", proj(v, "layers"), want, b, "layer l maps the l-th size to the next and has the l-th activation", e)
    b = ctx.fn("eval", "NNHypothesis", private=True)
    if b:
        r = ctx.run(b, opaque=["affine", "eval"])
        ls = [l for l in r.loops if l["idx"] is not None and accumulators(l)]
        if len(ls) != 1:
            ctx.undecided("network.eval", b, f"{len(ls)} loops")
        else:
            l = ls[0]
            z = lambda i, t: mk("call", "eval", proj(at(LAYERS, i), "activation"), mk("call", "affine", at(LAYERS, i), t))
            best = loop_spec(ctx, "network.eval", b, Sh(l), dom(ZERO, length(LAYERS)), {"output": (X1, lambda mu, i: z(i, mu["output"]))}, "the network feeds every layer with the output of the one before")
            if best:
                k = best[2]["output"]
                ctx.ob("network.eval.result", r.ret is l["out"][k] or equal(r.ret, l["out"][k]), b, "the network's output is that of its last layer")
    b = ctx.fn("output_dim", "NNHypothesis", private=True)
    if b:
        r = ctx.run(b)
        ctx.same("network.output_dim", r.ret, F(at(LAYERS, sub(length(LAYERS), ONE)), "nrow"), b, "the output size is that of the last layer")


def Sh(l):
    """a loop with the callee names shortened"""
    m = dict(l)
    for k in ("pre", "post"):
        m[k] = {a: shorten(v) if isinstance(v, T) else v for a, v in l[k].items()}
    return Shim(m)


OPQ = ["affine", "nonlinear", "forward", "diff", "vectorize", "at", "matrix_product", "matrix_inner_product", "column_sum", "backward", "hadamard_product", "output_dim"]


def train(ctx):
    b = ctx.fn("train", "NNHypothesis", private=True)
    if not b:
        return
    for nm, adt in (("affine", "Layer"), ("nonlinear", "Layer"), ("backward", "Layer"), ("output_dim", "NNHypothesis")):
        if not ctx.fn(nm, adt, private=True):
            return
    r = ctx.run(b, opaque=lambda key, f: tail(str(key)) in OPQ)
    L = length(LAYERS)
    rate, loss, smp, rws = mark_num(X1), X2, X3, X4
    C = lambda n, *a: mk("call", n, *a)
    # ------------------------------------------------------------- forward
    fe = [e for e in r.calls("affine") if e.loops and len(e.loops) == 2]
    be = r.calls("backward")
    ll = lambda u: next((l for l in r.loops if l["uid"] == u), None)
    if not be:
        ctx.ob("train.backward", False, b, "every layer takes a gradient step: no step is taken at all")
        return
    if len({e.args for e in fe}) != 1 or len({e.args for e in be}) != 1 or not be[0].loops or len(be[0].loops) != 1:
        return ctx.undecided("train", b, "other shape of the passes")
    rowl, fwd = ll(fe[0].loops[0][2]), ll(fe[0].loops[1][2])
    bwd = ll(be[0].loops[0][2])
    if rowl is None or fwd is None or bwd is None:
        return ctx.undecided("train", b, "loops not found")
    x = proj(C("at", smp, at(rws, rowl["idx"])), "0")
    y = proj(C("at", smp, at(rws, rowl["idx"])), "1")
    aff = lambda i, z: C("affine", at(LAYERS, i), z)
    outer = list(rowl["mu"].values())
    last = lambda i: pos(sub(sub(L, ONE), i), True)
    best = loop_spec(ctx, "train.forward", b, Sh(fwd), dom(ZERO, L), {
        "output": (x, lambda mu, i: C("nonlinear", at(LAYERS, i), aff(i, mu["output"]))),
        "slopes": (outer, lambda mu, i: [ite(last(i), upd(mu["slopes"], i, snoc(at(mu["slopes"], i), C("diff", proj(at(LAYERS, i), "activation"), aff(i, mu["output"])))), mu["slopes"])]),
        "inputs": (outer, lambda mu, i: upd(mu["inputs"], i, snoc(at(mu["inputs"], i), mu["output"]))),
    }, "forward pass (every layer is fed with the output of the one before; inputs of all layers, slopes of all but the last layer are remembered)")
    if not best:
        return
    role = best[2]
    kS, kI = None, None
    for k in rowl["mu"]:
        if rowl["mu"][k] is fwd["pre"][role["slopes"]]:
            kS = k
        if rowl["mu"][k] is fwd["pre"][role["inputs"]]:
            kI = k
    if kS is None or kI is None or kS == kI:
        return ctx.undecided("train.forward", b, "tables of the rows")
    ctx.same("train.rows", rowl["dom"], dom(ZERO, length(rws)), b, "every row of the batch is used")
    ctx.ob("train.rows.exits", not rowl["brk"] and not rowl["rets"] and not fwd["brk"] and not fwd["rets"], b, "no row is skipped")
    for k, want, n, what in ((kS, role["slopes"], sub(L, ONE), "slopes"), (kI, role["inputs"], L, "inputs")):
        ctx.ob(f"train.{what}.kept", rowl["post"][k] is fwd["out"][want], b, f"the {what} of all rows are kept")
        ctx.same(f"train.{what}.start", rowl["pre"][k], SEQ(n, lambda i: mk("list")), b, f"one table of {what} per layer")
    zs = shorten(fwd["out"][role["output"]])
    kD = [k for k in rowl["mu"] if k not in (kS, kI) and accumulators(rowl) and isinstance(rowl["post"][k], T) and contains(shorten(rowl["post"][k]), lambda t: t.op == "call" and t.args[0] == "diff" and t.args[1] is loss)]
    if len(kD) != 1:
        return ctx.undecided("train.delta", b, "several tables of loss gradients") if kD else ctx.ob("train.delta", False, b, "the loss gradient of every row is remembered: the code keeps none")
    kD = kD[0]
    ctx.same("train.delta.start", rowl["pre"][kD], mk("list"), b, "loss gradients start empty")
    g = shorten(rowl["post"][kD])
    Z = sym("network output")
    want = C("diff", loss, Z, C("vectorize", y, C("output_dim", S)))
    ctx.same("train.delta", subst(g, {zs: Z}), snoc(rowl["mu"][kD], want), b, "the loss gradient at the network's output against the row's own label")
    # ------------------------------------------------------------ backward
    ctx.same("train.layers", bwd["dom"], dom(ZERO, L), b, "every layer takes one step")
    ctx.ob("train.layers.exits", not bwd["brk"] and not bwd["rets"], b, "no layer is left out")
    i = bwd["idx"]
    m = {}
    tabs = {}
    for k in bwd["mu"]:
        mu, pre = bwd["mu"][k], bwd["pre"][k]
        if pre is rowl["out"].get(kS) or equal(pre, rowl["out"][kS]):
            tabs[k] = ("slopes", sub(L, ONE))
        elif pre is rowl["out"].get(kI) or equal(pre, rowl["out"][kI]):
            tabs[k] = ("inputs", L)
    SL, IN = sym("slopes"), sym("inputs")
    canon_t = {rowl["out"][kS]: SL, rowl["out"][kI]: IN}
    for k, (nm, n) in tabs.items():
        mu = bwd["mu"][k]
        post = bwd["post"][k]
        drop = mk("slice", mu, ZERO, max_(ZERO, sub(length(mu), ONE)))
        t = SL if nm == "slopes" else IN
        if post is mu:
            canon_t[mu] = t
            canon_t[length(mu)] = n
        elif equal(post, drop):
            left = sub(n, i)
            canon_t[at(mu, sub(length(mu), ONE))] = at(t, sub(left, ONE))
            canon_t[length(mu)] = left
        else:
            return ctx.undecided("train.tables", b, f"{nm} change as {clip(post, 200)}")
    rest = [k for k in bwd["mu"] if k not in tabs and bwd["post"][k] is not bwd["mu"][k]]
    kL = [k for k in rest if bwd["pre"][k] is LAYERS]
    kG = [k for k in rest if k not in kL]
    if len(kL) == 1 and not kG and equal(be[0].args[3], mk("call", be[0].args[3].args[0], rowl["out"][kD])):
        return ctx.ob("train.propagate", False, b, "the gradient passes from layer to layer: every layer gets the gradient of the output")
    if len(kL) != 1 or len(kG) != 1:
        return ctx.undecided("train.backward", b, "other tables")
    kL, kG = kL[0], kG[0]
    lm, gm = bwd["mu"][kL], bwd["mu"][kG]
    if bwd["pre"][kG] is not rowl["out"].get(kD):
        return ctx.undecided("train.backward", b, "start of the gradients")
    canon_t[length(lm)] = L
    NEW = sym("layer after its step")
    up = {}
    for x in bwd["post"].values():
        if isinstance(x, T):
            for h in contains(x, lambda t: t.op == "havoc" and any(isinstance(a, str) and tail(a) == "backward" for a in t.args)):
                up[h] = NEW

    def nrm(t):
        t = subst(t, up)
        t = subst(subst(t, canon_t), canon_t)
        return shorten(t)
    j = sub(sub(L, ONE), i)
    ev = be[0]
    ctx.ob("train.step.always", ev.pc is TRUE or equal(ev.pc, TRUE), b, "every layer takes its step, whatever its place")
    names = ("the layer", "the learning rate", "the gradient of its weights: the gradients of its output against its inputs", "the gradient of its bias: the gradients summed over the batch")
    for a, w, nm in zip(ev.args, (at(lm, j), rate, C("matrix_inner_product", gm, at(IN, j)), C("column_sum", gm)), names):
        ctx.same(f"train.step.{names.index(nm)}", nrm(a), w, b, f"step of a layer, {nm}")
    ctx.same("train.step.stored", nrm(bwd["post"][kL]), upd(lm, j, NEW), b, "only that layer changes")
    ctx.same("train.propagate", nrm(bwd["post"][kG]), ite(pos(j, True), C("hadamard_product", at(SL, sub(j, ONE)), C("matrix_product", gm, proj(at(lm, j), "matrix"))), gm), b,
             "the gradient passes through the weights from before the step, then through the slopes of the layer below")
    ctx.ob("train.result", r.field("layers") is bwd["out"][kL] or equal(r.field("layers"), bwd["out"][kL]), b, "the network ends with the layers after their steps")


def predict(ctx):
    op = lambda key, f: tail(str(key)) in ("at", "eval", "binarize", "discretize")
    f = F(S, "0")
    task = F(f, "task")
    ev = mk("call", "eval", f, proj(mk("call", "at", X1, X2), "0"))
    b = ctx.fn("confidence", "NNClassifier")
    if b:
        r = ctx.run(b, opaque=op)
        got = shorten(r.ret)
        bi, mu = is_variant(task, "Binary"), is_variant(task, "MultiClass")
        n = vproj(task, "MultiClass", "0")
        B, M = mark_num(mk("call", "binarize", ev)), mark_num(mk("call", "discretize", ev, n))
        for key, t, v in (("binary", "Binary", B), ("multiclass", "MultiClass", M)):
            env = {is_variant(task, "Binary"): TRUE if t == "Binary" else FALSE, is_variant(task, "MultiClass"): TRUE if t == "MultiClass" else FALSE, is_variant(task, "Regression"): FALSE}
            ctx.same(f"predict.{key}", subst(got, env), v, b, f"the prediction of a {key} network is read off its output at the row")
    b = ctx.fn("predict", "NNRegressor")
    if b:
        r = ctx.run(b, opaque=op)
        ctx.same("predict.regression", subst(shorten(r.ret), {is_variant(task, "Regression"): TRUE, is_variant(task, "Binary"): FALSE, is_variant(task, "MultiClass"): FALSE}), A(ev, ZERO), b, "a regression network predicts its single output")


def learner(ctx):
    b = ctx.fn("init", "NeuralNetwork")
    if b:
        r = ctx.run(b)
        v = r.ret
        n, m = NF(sym("a0"), "n_sample"), NF(sym("a0"), "n_feature")
        ctx.same("init.dimensions", proj(v, "dimensions"), mk("list", m), b, "the first size is the number of features")
        ctx.same("init.activations", length(proj(v, "activations")), ZERO, b, "no layer yet")
        ctx.ob("init.task", is_variant(proj(v, "task"), "Binary") is TRUE, b, "binary classification by default")
        mb = proj(v, "minibatch_size")
        ls = [l for l in r.loops if l["while"] and any(l["out"].get(k) is mb for k in l["mu"])]
        if len(ls) == 1 and len(ls[0]["brk"]) == 1:
            l = ls[0]
            k = [k for k in l["mu"] if l["out"].get(k) is mb][0]
            mu = l["mu"][k]
            ctx.same("init.batch.end", l["brk"][0][0], [le(mu, n, True)], b, "the batch size shrinks until it is at most the number of rows")
            ctx.ob("init.batch.step", equal(l["post"][k], mk("idiv", mu, num(2))), b, "by halving")
        elif not unresolved(mb) and not contains(mb, lambda t: t is n):
            ctx.ob("init.batch", False, b, f"the batch is at most the sample: the code takes {clip(mb, 100)} whatever the number of rows")
        else:
            ctx.undecided("init.batch", b, clip(mb, 200))
    b = ctx.fn("append", "NeuralNetwork")
    if b:
        r = ctx.run(b)
        ctx.same("append.dimensions", proj(r.ret, "dimensions"), snoc(F(S, "dimensions"), X1), b, "a new layer's size comes last")
        ctx.same("append.activations", proj(r.ret, "activations"), snoc(F(S, "activations"), X2), b, "with its activation")
    b = ctx.fn("produce", "NeuralNetwork")
    if not b:
        return
    for nm in ("new", "train"):
        if not ctx.fn(nm, "NNHypothesis", private=True):
            return
    r = ctx.run(b, opaque=lambda key, f: str(key).endswith("NNHypothesis::new") or str(key).endswith("NNHypothesis::train"))
    n = NF(X1, "n_sample")
    ne, ni, mb, lr = NF(S, "n_epoch"), NF(S, "n_iter_per_epoch"), NF(S, "minibatch_size"), NF(S, "learning_rate")
    ns = [e for e in r.calls("new") if str(e.key).endswith("NNHypothesis::new")]
    tr, sw = r.calls("train"), r.calls("sample_weighted")
    if not tr:
        return ctx.ob("produce.train", False, b, "the network is trained: the code never trains it")
    if len(ns) != 1 or len({e.args for e in tr}) != 1 or len({e.args for e in sw}) != 1:
        return ctx.undecided("produce", b, f"{len(ns)} networks, {len(tr)} training steps, {len(sw)} draws")
    for a, w, nm in zip(ns[0].args, (F(S, "task"), F(S, "dimensions"), F(S, "activations")), ("task", "dimensions", "activations")):
        ctx.same(f"produce.network.{nm}", a, w, b, f"the network is built with the declared {nm}")
    e = tr[0]
    ctx.same("produce.rate", e.args[1], div(lr, mb), b, "learning rate per example of the batch")
    ctx.same("produce.loss", e.args[2], F(S, "loss_func"), b, "the declared loss")
    ctx.same("produce.sample", e.args[3], X1, b, "the given sample")
    d = sw[0]
    ctx.same("produce.draw.rows", d.args[1], n, b, "rows are drawn from the whole sample")
    ctx.same("produce.draw.weights", d.args[2], SEQ(n, lambda i: A(X2, i)), b, "with the weights of the distribution")
    ctx.same("produce.draw.amount", d.args[3], mb, b, "as many as a batch holds")
    ctx.same("produce.batch", e.args[4], vproj(d.res, "Ok", "0"), b, "a step trains on the rows drawn")
    ls = [next((l for l in r.loops if l["uid"] == x[2]), None) for x in e.loops or ()]
    if len(ls) != 2 or None in ls:
        return ctx.undecided("produce.schedule", b, f"training happens in {len(ls)} loops")
    o, l = ls
    ctx.same("produce.epochs", o["dom"], dom(ZERO, ne), b, "one round of the outer loop per epoch")
    ctx.same("produce.iterations", l["dom"], dom(ZERO, ni), b, "as many steps per epoch as declared")
    ctx.ob("produce.exits", not (o["brk"] or o["rets"] or l["brk"] or l["rets"]), b, "no epoch or step is left out")
    ctx.ob("produce.draw.once", [x[2] for x in d.loops or ()] == [o["uid"]], b, "rows are drawn once per epoch")
    ko = [k for k in o["mu"] if o["pre"][k] is ns[0].res]
    kl = [k for k in l["mu"] if e.args[0] is l["mu"][k]]
    if len(ko) != 1 or len(kl) != 1:
        return ctx.undecided("produce.network", b, "which network is trained")
    ko, kl = ko[0], kl[0]
    ctx.ob("produce.continue", l["pre"][kl] is o["mu"][ko] and o["post"][ko] is l["out"][kl], b, "training continues with the network of the epoch before")
    ctx.ob("produce.result", proj(r.ret, "0") is o["out"][ko], b, "the trained network is returned")
