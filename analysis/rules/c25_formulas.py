"""C25: edges, margins, combined predictions and weight utilities; C29: objective functions; C23: loss functions."""
from registry import rule
from _bspec import *
from interp import upd
from fractions import Fraction


def each_row(t):
    """the answers for all rows are the answers for each row"""
    def f(x):
        if x.op == "at" and x.args[0].op == "call" and str(x.args[0].args[0]).split("::")[-1] in ("predict_all", "confidence_all"):
            c = x.args[0]
            return mark_num(mk("call", c.args[0][:-4], *c.args[1:], x.args[1]))
        return x
    return rewrite(t, f)

ASM = ["real-number semantics of f64 arithmetic", "a sort permutes and orders by its comparator"]
X = [mark_num(sym(f"a{i}")) for i in range(8)]
Y = [sym(f"a{i}") for i in range(8)]


def tgt(s, i):
    return A(F(s, "target"), i)


def nn(s):
    return NF(s, "n_sample")


def slen(s):
    return {length(F(s, "target")): nn(s)}


def wsum(W, H, s, i, what="Classifier::confidence"):
    k = fresh()
    return sum_(k, dom(ZERO, length(W)), mul(A(W, k), mark_num(mk("call", what, at(H, k), s, i))))


@rule("C25", "Value-graph comparison: the edge, margin, exponential-distribution, entropy, normalisation and weight-summation helpers and the prediction methods of "
      "the hypothesis traits and of the weighted combination are compared with their defining formulas, the projection loop with the published recurrence.", ASM, floor=25)
def c25(ctx):
    U = "common::utils"
    s, d, h = Y[0], Y[1], Y[2]

    def chk(name, want, what, env, nparams=None):
        b = ctx.fn(name, module=U)
        if b:
            r = ctx.run(b)
            ctx.same(name, r.ret, want, b, what, env)
            return r, b
        return None, b

    e = slen(s) | {length(d): nn(s)}
    chk("edge_of_hypothesis", SUM(nn(s), lambda i: mul(tgt(s, i), A(d, i), conf(h, i, s))), "edge = Σ d_i y_i h(x_i)", e)
    chk("margins_of_hypothesis", SEQ(nn(s), lambda i: mul(tgt(s, i), conf(Y[1], i, s))), "margins = y_i h(x_i)", slen(s))
    W, H = Y[2], Y[3]
    e2 = e | {length(H): length(W)}
    chk("edge_of_weighted_hypothesis", SUM(nn(s), lambda i: mul(tgt(s, i), A(d, i), wsum(W, H, s, i))), "edge = Σ d_i y_i Σ_k w_k h_k(x_i)", e2)
    W, H = Y[1], Y[2]
    chk("margins_of_weighted_hypothesis", SEQ(nn(s), lambda i: mul(tgt(s, i), wsum(W, H, s, i))), "margins = y_i Σ_k w_k h_k(x_i)", slen(s) | {length(H): length(W)})
    P = "project_log_distribution_to_capped_simplex"
    capped_simplex(ctx)
    b = ctx.fn("exp_distribution", module=U)
    if b:
        r = ctx.run(b, opaque=[P])
        ev = r.calls(P)
        s2, W2, H2 = Y[2], Y[3], Y[4]
        if ctx.ob("exp_distribution.project", len(ev) == 1 and equal(r.ret, ev[0].res), b, "the exponential distribution is projected onto the capped simplex"):
            ctx.same("exp_distribution.args", mk("tuple", *ev[0].args), mk("tuple", X[1], SEQ(nn(s2), lambda i: neg(mul(X[0], tgt(s2, i), wsum(W2, H2, s2, i))))), b,
                     "log weights = −η·margins, cap = 1/ν", slen(s2) | {length(H2): length(W2)})
    b = ctx.fn("exp_distribution_from_margins", module=U)
    if b:
        r = ctx.run(b, opaque=[P])
        ev = r.calls(P)
        if ctx.ob("exp_distribution_from_margins.project", len(ev) == 1 and equal(r.ret, ev[0].res), b, "the exponential distribution is projected onto the capped simplex"):
            ctx.same("exp_distribution_from_margins.args", mk("tuple", *ev[0].args), mk("tuple", X[1], SEQ(length(Y[2]), lambda i: neg(mul(X[0], A(Y[2], i))))), b, "log weights = −η·margins, cap = 1/ν", {})
    D = Y[0]
    ent = SUM(length(D), lambda i: ite(eqb(A(D, i), ZERO), ZERO, mul(A(D, i), ln(A(D, i)))))
    chk("entropy", ent, "entropy = Σ d ln d with 0 ln 0 = 0", {})
    chk("entropy_from_uni_distribution", add(ent, ln(length(D))), "relative entropy to uniform = Σ d ln d + ln n", {})
    chk("inner_product", SUM(length(Y[0]), lambda i: mul(A(Y[0], i), A(Y[1], i))), "inner product", {length(Y[1]): length(Y[0])})
    b = ctx.fn("normalize", module=U)
    if b:
        r = ctx.run(b)
        z = SUM(length(D), lambda i: abs_(A(D, i)))
        ctx.same("normalize", r.out("a0"), SEQ(length(D), lambda i: div(A(D, i), z)), b, "every item divided by the sum of absolute values", {})
        ctx.same("normalize.panics", panics(r), eqb(z, ZERO), b, "an all-zero vector is rejected and nothing else", {})
    # the guard of the distribution the helpers are given: what it refuses is a cap outside
    # [1, n] and a vector that leaves the capped simplex by more than rounding
    b = ctx.fn("check_capped_simplex_condition", module="common::checker")
    if b:
        r = ctx.run(b)
        tot, cap = SUM(length(D), lambda i: A(D, i)), X[1]
        wants = []
        for e in range(3, 10):
            t = num(Fraction(1, 10 ** e))
            badnu = or_(lt(cap, ONE), lt(length(D), cap))
            k = fresh()
            item = bind("any", k, dom(ZERO, length(D)), or_(lt(A(D, k), neg(t)), lt(add(div(ONE, cap), t), A(D, k))))
            for out in (le(t, abs_(sub(tot, ONE))), lt(t, abs_(sub(tot, ONE)))):
                wants.append(or_(badnu, or_(out, item)))
        ctx.same("capped-simplex.guard", panics(r), wants, b, "a distribution is refused iff its cap, its sum or one of its items is out of range by more than a rounding tolerance", {})
    chk("total_weight_for_label", SUM(length(Y[1]), lambda i: mul(A(Y[2], i), eqb(X[0], A(Y[1], i)))), "sum of the weights of the examples with that label", {length(Y[2]): length(Y[1])})
    # ------------------------------------------------------------ projection
    # ---------------------------------------------------------- trait methods
    c = mark_num(mk("call", "Classifier::confidence", S, Y[1], X[2]))
    for tr, name, want, what in (("Classifier", "predict", ite(le(ZERO, c), ONE, num(-1)), "prediction = +1 iff the confidence is nonnegative"),):
        for b in ctx.prog.find(name, module="hypothesis::hypothesis_traits"):
            if "Classifier" in b["key"]:
                r = ctx.run(b)
                ctx.same("Classifier.predict", r.ret, want, b, what)
    for b in ctx.prog.find("predict_all", module="hypothesis::hypothesis_traits") + ctx.prog.find("confidence_all", module="hypothesis::hypothesis_traits"):
        tr = "Classifier" if "Classifier" in b["key"] else "Regressor"
        m = "confidence" if b["name"] == "confidence_all" else "predict"
        r = ctx.run(b)
        ctx.same(f"{tr}.{b['name']}", r.ret, SEQ(nn(Y[1]), lambda i: mk("call", f"{tr}::{m}", S, Y[1], i)), b, "one value per row, in row order", slen(Y[1]))
    WM = "WeightedMajority"
    W, H = F(S, "weights"), F(S, "hypotheses")
    L = {length(H): length(W)}
    for tr, m, body in (("Classifier", "confidence", None), ("Regressor", "predict", None)):
        b = ctx.fn(m, WM, tr)
        if b:
            r = ctx.run(b)
            ctx.same(f"{WM}.{m}", r.ret, wsum(W, H, Y[1], X[2], f"{tr}::{m}"), b, "combined output = Σ w_k h_k(x)", L)
    ctx.ob(f"{WM}.no-override", not ctx.prog.find("predict", WM, "Classifier") and not ctx.prog.find("predict_all", WM), "WeightedMajority", "the combination keeps the sign rule of the trait")
    b = ctx.fn("push", WM)
    if b:
        r = ctx.run(b)
        ctx.same(f"{WM}.push.weights", r.field("weights"), snoc(W, X[1]), b, "weight appended")
        ctx.same(f"{WM}.push.hypotheses", r.field("hypotheses"), snoc(H, Y[2]), b, "hypothesis appended")
    b = ctx.fn("normalize", WM)
    if b:
        r = ctx.run(b)
        ctx.same(f"{WM}.normalize", r.field("weights"), SEQ(length(W), lambda i: div(A(W, i), SUM(length(W), lambda j: abs_(A(W, j))))), b, "weights scaled to unit absolute sum")
    b = ctx.fn("decompose", WM)
    if b:
        r = ctx.run(b)
        ctx.same(f"{WM}.decompose", r.ret, mk("tuple", W, H), b, "weights and hypotheses handed back unchanged")
    b = ctx.fn("from_slices", WM)
    if b:
        r = ctx.run(b)
        w, hh = combined(Y[0], Y[1])
        L = {length(Y[1]): length(Y[0])}
        ctx.same(f"{WM}.from_slices.weights", F(r.ret, "weights"), w, b, "nonzero weights scaled to unit absolute sum", L)
        ctx.same(f"{WM}.from_slices.hypotheses", F(r.ret, "hypotheses"), hh, b, "hypotheses of the nonzero weights, in order", L)


def combined(W, H):
    """weights and hypotheses of the normalised combination"""
    n = length(W)
    nz = lambda i: not_(eqb(A(W, i), ZERO))
    z = SUM(n, lambda i: mul(nz(i), abs_(A(W, i))))
    return SEQ(n, lambda i: div(A(W, i), z), nz), SEQ(n, lambda i: at(H, i), nz)


def panics(r):
    g = FALSE
    for e in r.events:
        if e.kind == "panic":
            pc = e.pc
            # a panic in a loop body happens when it happens in some iteration
            for l in r.loops:
                if l.get("idx") is not None and l["idx"] in fvs(pc) and isinstance(l.get("dom"), T) and not l["brk"]:
                    pc = bind("any", l["idx"], l["dom"], pc)
            g = or_(g, pc)
    return g


# ---------------------------------------------------------------------- C29
@rule("C29", "Value-graph comparison of the three objective functions with their definitions; the loop of the soft-margin objective is compared, as a recurrence with its exit "
      "condition and exit value, with the greedy solution of the capped minimum.", ASM, floor=8)
def c29(ctx):
    s, h = Y[1], Y[2]
    n = nn(s)
    b = ctx.fn("eval", "SoftMarginObjective")
    if b:
        r = ctx.run(b)
        ca = mk("call", "Classifier::confidence_all", h, s)
        nu = NF(S, "0")
        L = slen(s) | {length(ca): n}
        cand = [l for l in r.loops if l["brk"]]
        l = cand[0] if len(cand) == 1 else None
        srt = lambda t: contains(t, lambda y: y.op == "at" and y.args[0].op == "sorted") if isinstance(t, T) else []
        every = [x for q in r.loops for k in q["mu"] for x in srt(q["post"][k]) + [z for c, _, d in q["brk"] for z in srt(c) + srt(d.get(k))]]
        msum = [x for q in r.loops for k in open_mus(q) if q["post"][k].op != "concat" for x in contains(q["post"][k], lambda y: y is A(ca, q["idx"]))]
        sv = None
        if l and len(open_mus(l)) == 1:
            k = open_mus(l)[0]
            v = list(dict.fromkeys(srt(l["post"][k]) + [x for _, _, d in l["brk"] for x in srt(d.get(k))]))
            if len(v) == 1:
                sv = v[0]
        W = "soft margin = Σ of the smallest margins with weights ≤ 1/ν and total 1"
        if not contains(r.ret, lambda x: x.op in ("loopout", "loopvar", "havoc") or x is ca):
            ctx.ob("SoftMargin.result", False, b, f"the value does not depend on the margins: {clip(r.ret, 100)}")
        elif not every and msum:
            ctx.ob("SoftMargin.order", False, b, "margins are taken in the order of the examples, not from the smallest up")
        elif sv is None and not cand and len(set(every)) == 1:
            sv = mark_num(every[0])
            st = sv.args[0]
            ctx.ob("SoftMargin.order", st.args[-1] == "asc", b, "margins are taken from the smallest up")
            ctx.same("SoftMargin.margins", each_row(canon(st.args[0], L)), each_row(SEQ(n, lambda i: mul(tgt(s, i), A(ca, i)))), b, "margins = y_i h(x_i)", L)
            share = lambda m: min_(div(ONE, nu), m["rest"])
            loop_spec(ctx, "SoftMargin", b, r, dom(ZERO, n), {"objective": (ZERO, lambda m, i: add(m["objective"], mul(share(m), A(st, i)))), "rest": (ONE, lambda m, i: sub(m["rest"], share(m)))}, W, L)
        elif sv is None:
            ctx.undecided("SoftMargin", b, "no loop over the sorted margins recognised")
        else:
            st = sv.args[0]
            ctx.ob("SoftMargin.order", st.args[-1] == "asc", b, "margins are taken from the smallest up")
            ctx.same("SoftMargin.margins", each_row(canon(st.args[0], L)), each_row(SEQ(n, lambda i: mul(tgt(s, i), A(ca, i)))), b, "margins = y_i h(x_i)", L)
            w = lambda i: sub(ONE, div(i, nu))
            mark_num(sv)
            fold_spec(ctx, "SoftMargin", b, l, dom(ZERO, n), ZERO, lambda m, i: add(m, div(sv, nu)),
                      lambda m, i: (le(w(i), power(nu, -1)), add(m, mul(w(i), sv))), W, L)
            k = open_mus(l)[0]
            ctx.same("SoftMargin.result", r.ret, l["out"].get(k, r.ret) if not contains(r.ret, lambda y: y.op == "loopout") else r.ret, b, "result = accumulated objective")
        pan = panics(r)
        ctx.same("SoftMargin.panics", pan, not_(mul(lt(ZERO, n, True), lt(ZERO, NF(s, "n_feature"), True), le(ONE, nu), le(nu, n))), b, "defined for every nonempty sample and every ν in [1, n]", L)
    b = ctx.fn("new", "SoftMarginObjective")
    if b:
        ctx.same("SoftMargin.new", F(ctx.run(b).ret, "0"), X[0], b, "ν is stored as given")
    for nm in ("new", "default"):
        b = ctx.fn(nm, "HardMarginObjective")
        if b:
            ctx.same(f"HardMargin.{nm}", F(ctx.run(b).ret, "0", "0"), ONE, b, "hard margin = soft margin with ν = 1")
    b = ctx.fn("eval", "HardMarginObjective")
    if b:
        b2 = ctx.prog.find("eval", "SoftMarginObjective")
        r = ctx.run(b, opaque=(b2[0]["key"],) if b2 else ())
        ev = [e for e in r.events if e.kind == "call"]
        ctx.same("HardMargin.eval", r.ret, mk("call", "SoftMarginObjective::eval", F(S, "0"), s, h), b, "delegates to the soft-margin objective")
    b = ctx.fn("eval", "ExponentialLoss")
    if b:
        r = ctx.run(b)
        pa = mk("call", "Classifier::predict_all", h, s)
        ca = mk("call", "Classifier::confidence_all", h, s)
        L = slen(s) | {length(pa): n, length(ca): n}
        f = lambda v: div(SUM(n, lambda i: exp(neg(mul(tgt(s, i), A(v, i))))), n)
        ctx.same("ExponentialLoss.eval", each_row(canon(r.ret, L)), each_row(canon(f(pa), L)), b, "mean of exp(−y·h(x))", L)
        ctx.same("ExponentialLoss.panics", panics(r), not_(mul(lt(ZERO, n, True), lt(ZERO, NF(s, "n_feature"), True))), b, "defined for every nonempty sample", L)


# ---------------------------------------------------------------------- C23
@rule("C23", "Value-graph comparison of the losses, their gradients and Hessians and the line search coefficient with the closed forms; of the network's activation "
      "functions, their derivatives, the losses of the network and their gradients, and the label encodings.", ASM, floor=20)
def c23(ctx):
    capped_simplex(ctx)
    P, Yv = Y[1], Y[2]
    n = length(P)
    L = {length(Yv): n}

    def variants(t, names=("L1", "L2")):
        out = {}
        for nm in names:
            m = {is_variant(S, x): (TRUE if x == nm else FALSE) for x in names}
            out[nm] = subst(t, m)
        return out

    adt = "GBMLoss"
    pt = {"L1": abs_(sub(X[1], X[2])), "L2": power(sub(X[1], X[2]), 2)}
    for fn, spec, what in (
        ("eval_at_point", pt, "loss at a point: |p−y| / (p−y)²"),
        ("gradient", {"L1": SEQ(n, lambda i: signum(sub(A(P, i), A(Yv, i)))), "L2": SEQ(n, lambda i: sub(A(P, i), A(Yv, i)))}, "gradient with respect to the prediction: sign(p−y) / p−y"),
        ("hessian", {"L1": SEQ(n, lambda i: ZERO), "L2": SEQ(n, lambda i: ONE)}, "second derivative: 0 / 1"),
    ):
        b = ctx.fn(fn, adt)
        if b:
            r = ctx.run(b)
            for nm, t in variants(r.ret).items():
                ctx.same(f"{adt}.{fn}.{nm}", t, spec[nm], b, what, L)
    b = ctx.fn("best_coefficient", adt)
    if b:
        R, Q = Y[1], Y[2]
        n2 = length(R)
        L2 = {length(Q): n2}
        r = ctx.run(b, opaque=["weighted_median"])
        t = variants(r.ret)
        pp = SUM(n2, lambda i: power(A(Q, i), 2))
        ctx.same(f"{adt}.coef.L2", t["L2"], ite(eqb(pp, ZERO), ZERO, div(SUM(n2, lambda i: mul(A(R, i), A(Q, i))), pp)), b, "L2 coefficient = Σ r p / Σ p²", L2)
        items = SEQ(n2, lambda i: mk("tuple", abs_(A(Q, i)), div(A(R, i), A(Q, i))), lambda i: not_(eqb(A(Q, i), ZERO)))
        wm = r.calls("weighted_median")
        if wm:
            ctx.same(f"{adt}.coef.L1.items", wm[0].args[0], items, b, "L1 coefficient = weighted median of r/p with weights |p|", L2)
            cnt = length(items)
            ctx.same(f"{adt}.coef.L1", t["L1"], ite(eqb(cnt, ZERO), ZERO, wm[0].res), b, "L1 coefficient is 0 when every prediction is 0", L2)
        else:
            ctx.undecided(f"{adt}.coef.L1", b, "no weighted median helper")
    b = ctx.fn("weighted_median", module="common::loss_functions", private=True)
    if b:
        r = ctx.run(b)
        it = Y[0]
        ls = [l for l in r.loops if l["rets"] or l["brk"]]
        tot = SUM(length(it), lambda i: A(proj_all(it, i), ZERO) if False else NF(at(it, i), "0"))
        if len(ls) == 1 and len(open_mus(ls[0])) == 1 and len(ls[0]["rets"]) == 1:
            l = ls[0]
            k = open_mus(l)[0]
            i, mu = l["idx"], l["mu"][k]
            c, v, stt = l["rets"][0]
            srt = [x for x in contains(v, lambda y: y.op == "sorted")]
            lit = length(it)
            for cc, vv in cases(r.ret):
                if not contains(vv, lambda y: y.op in ("loopout", "loopvar", "loop", "havoc")):
                    ctx.same("median.short-when", cc, [eqb(lit, ONE), le(lit, ONE), lt(lit, num(2)), le(lit, ONE, True), lt(lit, num(2), True)], b, "the search is skipped only when there is a single item")
                    ctx.same("median.short", vv, [NF(at(it, ZERO), "1"), NF(at(it, sub(lit, ONE)), "1")], b, "a single item is its own median")
            if not srt and not unresolved(v) and equal(v, NF(at(it, i), "1")):
                ctx.ob("median.order", False, b, "the items are visited in the order they are given, not from the smallest value up")
            elif len(srt) == 1:
                el = at(srt[0], i)
                ctx.ob("median.order", srt[0].args[-1] == "asc" and equal(srt[0].args[0], it) and "].1)" in show(srt[0]), b, "items are ordered by value, ascending")
                ctx.same("median.start", l["pre"][k], ZERO, b, "partial sum starts at zero")
                ctx.same("median.step", l["post"][k], add(mu, NF(el, "0")), b, "partial sum of the weights")
                tot2 = SUM(length(it), lambda j: NF(at(srt[0], j), "0"))
                g = le(mul(half(), tot2), add(mu, NF(el, "0")))
                ctx.same("median.exit", c, [g, le(mul(half(), tot), add(mu, NF(el, "0")))], b, "stops at the first item whose partial sum reaches half the total", {length(srt[0]): length(it)})
                ctx.same("median.value", v, NF(el, "1"), b, "median = value of that item")
            else:
                ctx.undecided("median", b, "other shape")
        elif len(ls) == 1 and not open_mus(ls[0]) and len(ls[0]["rets"]) == 1 and not unresolved(ls[0]["rets"][0][0]) and not contains_term(ls[0]["rets"][0][0], ls[0]["idx"]):
            ctx.ob("median.exit", False, b, "whether the search stops at an item does not depend on the weights passed so far")
        else:
            ctx.undecided("median", b, "other shape")
    b = [x for x in ctx.prog.find("eval", module="common::loss_functions") if not x.get("self_adt")]
    if b:
        r = ctx.run(b[0])
        ctx.same("LossFunction.eval", r.ret, div(SUM(n, lambda i: mk("call", "LossFunction::eval_at_point", S, A(P, i), A(Yv, i))), n), b[0], "loss of a vector = mean of the pointwise losses", L)
    nn_losses(ctx)


def nn_losses(ctx):
    V = ("SoftMax", "Sigmoid", "ReLu", "Id")
    x = Y[1]
    n = length(x)
    P = "project_log_distribution_to_capped_simplex"
    par = lambda v: mark_num(vproj(S, v, "0"))
    pj = lambda: mk("call", "utils::" + P, ONE, SEQ(n, lambda i: mul(par("SoftMax"), A(x, i))))
    e = lambda i: exp(neg(mul(par("Sigmoid"), A(x, i))))
    sig = lambda i: power(add(ONE, e(i)), -1)
    L = {}
    for fn, spec, what in (
        ("eval", {"Sigmoid": SEQ(n, lambda i: sig(i)), "ReLu": SEQ(n, lambda i: ite(le(A(x, i), par("ReLu")), ZERO, A(x, i))), "Id": x, "SoftMax": pj()}, "activation"),
        ("diff", {"Sigmoid": SEQ(n, lambda i: mul(par("Sigmoid"), sig(i), sub(ONE, sig(i)))),
                  "ReLu": [SEQ(n, lambda i: ite(lt(A(x, i), par("ReLu")), ZERO, ONE)), SEQ(n, lambda i: ite(le(A(x, i), par("ReLu")), ZERO, ONE))],
                  "Id": SEQ(n, lambda i: ONE),
                  "SoftMax": SEQ(n, lambda i: mul(par("SoftMax"), A(pj(), i), sub(ONE, A(pj(), i))))}, "derivative of the activation"),
    ):
        b = ctx.fn(fn, "Activation")
        if not b:
            continue
        r = ctx.run(b, opaque=[P])
        for v in V:
            t = subst(r.ret, {is_variant(S, w): (TRUE if w == v else FALSE) for w in V})
            want = spec[v]
            ctx.same(f"Activation.{fn}.{v}", t, want, b, f"{what} {v}", {length(pj()): n})
    b = ctx.fn("diff", "NNLoss")
    if b:
        r = ctx.run(b)
        p, y = Y[1], Y[2]
        for v in ("L2", "CrossEntropy"):
            t = subst(r.ret, {is_variant(S, w): (TRUE if w == v else FALSE) for w in ("L2", "CrossEntropy")})
            ctx.same(f"NNLoss.diff.{v}", t, SEQ(length(p), lambda i: sub(A(p, i), A(y, i))), b, "gradient at the output = prediction − target", {length(y): length(p)})
    b = ctx.fn("binarize", module="common::task", private=True)
    if b:
        r = ctx.run(b)
        y = Y[0]
        one, two = eqb(length(y), ONE), eqb(length(y), num(2))
        y0, y1 = A(y, ZERO), A(y, ONE)
        ctx.same("binarize", r.ret, ite(one, sub(mul(num(2), y0), ONE), ite(lt(y1, y0), neg(y0), y1)), b, "scalar p ↦ 2p−1; pair ↦ −p₀ if p₀ > p₁ else p₁")
        ctx.same("binarize.panics", panics(r), mul(not_(one), not_(two)), b, "defined exactly for one or two outputs")
    b = ctx.fn("vectorize", module="common::task", private=True)
    if b:
        r = ctx.run(b)
        y, k = X[0], X[1]
        for v, g in ((k, TRUE),):
            c1 = eqb(k, ONE)
            pos_ = ite(le(y, ZERO), ZERO, mark_num(mk("trunc", y)))
            got = [t for g_, t in cases(r.ret)]
            ctx.ob("vectorize.scalar", any(t.op == "list" and len(t.args) == 1 and equal(t.args[0], y) for t in got), b, "one output: the label itself")
            up = [t for t in got if t.op == "upd"]
            if len(up) == 1:
                ctx.same("vectorize.base", up[0].args[0], SEQ(k, lambda i: ZERO), b, "one-hot vector: zeros elsewhere")
                ctx.same("vectorize.value", up[0].args[2], ONE, b, "one-hot vector: 1 at the label")
                ctx.same("vectorize.index", up[0].args[1], pos_, b, "one-hot vector: position of the label (nonpositive labels first)")
            else:
                j = fresh()
                gen = [open_(t, j)[1] for t in got if t.op == "seq"]
                if len(gen) == 1:
                    ctx.same("vectorize.base", mk("tuple", gen[0][0], gen[0][1]), mk("tuple", dom(ZERO, k), TRUE), b, "one-hot vector: one entry per output")
                    ctx.same("vectorize.value", gen[0][2], eqb(j, pos_), b, "one-hot vector: 1 at the label (nonpositive labels first), 0 elsewhere")
                else:
                    ctx.undecided("vectorize", b, "other shape")
    b = ctx.fn("discretize", module="common::task", private=True)
    if b:
        r = ctx.run(b)
        ctx.notes += []
        y = Y[0]
        ctx.ob("discretize.argmax", bool(contains(r.ret, lambda t: t.op == "argbest")) and "max" in show(r.ret), b, "class with the largest output")
        ctx.same("discretize.panics", mul(lt(ZERO, length(y), True), panics(r)), mul(lt(ZERO, length(y), True), not_(eqb(length(y), X[1]))), b, "exactly one output per class")
