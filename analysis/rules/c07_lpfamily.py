"""C07: rounds of the LP/QP-based boosters (LPBoost, ERLPBoost, SoftBoost, TotalBoost, MLPBoost, CERLPBoost)."""
from registry import rule
from _bspec import *

EXPL = ("Value-graph analysis of the round functions of the totally corrective boosters with all private helpers inlined and only the solver step and the "
        "projection onto the capped simplex kept as symbols: the returned flow (termination test), the margin estimates, the hypothesis list, the hypothesis weights, "
        "the distribution used for the next round and the arguments of the solver/Frank-Wolfe step are compared, as normalised symbolic expressions with their path "
        "conditions, with the published algorithm.")
ASM = ["real-number semantics of f64 arithmetic", "per-example vectors have the length of the label column (C16, C03)",
       "the solver returns an optimal solution of the model it is given"]

PROJ = "project_log_distribution_to_capped_simplex"


def heavy(key, f):
    k = str(key)
    return k.split("::")[-1] in (PROJ, "next_iterate") or (("LPModel" in k or "QPModel" in k) and k.endswith("::update"))


def entropy(d, n=N):
    return SUM(n, lambda i: ite(eqb(A(d, i), ZERO), ZERO, mul(A(d, i), ln(A(d, i)))))


def ent(d):
    return div(add(entropy(d), ln(N)), NF(S, "eta"))


def model(f):
    return vproj(F(S, f), "Some", "0")


def upd_events(r):
    return [e for e in r.events if e.kind == "call" and str(e.key).endswith("Model::update")]


def once(ctx, r, key, b, evs):
    rs = []
    for e in evs:
        if (e.res, e.args) not in rs:
            rs.append((e.res, e.args))
    if ctx.ob(key, len(rs) == 1, b, f"exactly one such call expected in a round, {len(rs)} found"):
        return evs[0]
    return None


def totpc(evs):
    """condition under which some of the events happens"""
    g = FALSE
    for e in evs:
        g = or_(g, e.pc)
    return g


for _n in (PROJ, "utils::" + PROJ, "common::utils::" + PROJ):
    TM.LENCALLS[_n] = 1
for _n in ("FrankWolfe::next_iterate", "frank_wolfe::FrankWolfe::next_iterate"):
    TM.LENCALLS[_n] = 6


@rule("C07", EXPL, ASM, floor=40)
def c07(ctx):
    capped_simplex(ctx)
    L = lens("dist")
    lpboost(ctx, L)
    erlp(ctx, L)
    soft(ctx, L)
    mlp(ctx, L)
    cerlp(ctx, L)
    starts(ctx)


def model_init(key, f):
    k = str(key)
    return ("LPModel" in k or "QPModel" in k) and k.split("::")[-1] == "init"


def starts(ctx):
    """what the preparation step hands to the first round"""
    capped = div(ONE, NF(S, "nu"))
    eta = div(ln(div(N, NF(S, "nu"))), NF(S, "half_tolerance"))
    eta_erlp = max_(half(), eta)
    table = [
        ("LPBoost", ["gamma_hat"], [], ["hypotheses"], True, ("lp_model", [N, capped]), None, None),
        ("ERLPBoost", ["gamma_hat"], ["gamma_star"], ["hypotheses"], True, ("qp_model", [eta_erlp, N, capped]), eta_erlp, None),
        ("SoftBoost", ["gamma_hat"], [], ["hypotheses"], True, ("qp_model", [N, capped]), None, None),
        ("MLPBoost", ["gamma"], [], ["hypotheses", "weights"], False, ("secondary", [eta, N, capped]), eta, "primary"),
        ("CERLPBoost", [], [], ["hypotheses", "weights"], False, None, eta, "frank_wolfe"),
    ]
    for adt, ups, downs, empties, uniform, mdl, eta, fw in table:
        b = ctx.fn("preprocess", adt)
        if not b:
            continue
        r = ctx.run(b, opaque=model_init, lens=lens())
        L = lens()
        L[F(S, "n_sample")] = N
        L[mark_num(F(S, "n_sample"))] = N
        st = lambda f: canon(r.field(f), L)
        for f in ups + downs:
            v = st(f)
            if v is mark_num(F(S, f)) or v is F(S, f):
                ctx.ob(f"{adt}.start-{f}", False, b, f"`{f}` does not start from a bound known in advance")
            elif TM.is_num(v):
                ok = TM.numval(v) >= 1 if f in ups else TM.numval(v) <= -1
                ctx.ob(f"{adt}.start-{f}", ok, b, f"`{f}` starts at {TM.numval(v)}, which an edge in [−1, 1] may lie {'above' if f in ups else 'below'} of")
            else:
                ctx.undecided(f"{adt}.start-{f}", b, f"start of `{f}` is not a constant: {clip(v, 120)}")
        bi = ctx.fn("init", adt)
        if bi:
            ri = ctx.run(bi)
            ns = F(ri.ret, "n_sample")
            if ns.op != "field":
                ctx.same(f"{adt}.init-size", mark_num(ns), NF(sym("a0"), "n_sample"), bi, "the size the booster keeps is the sample size")
        for f in empties:
            ctx.same(f"{adt}.start-{f}", r.field(f), mk("list"), b, f"`{f}` starts empty", L)
        if uniform:
            ctx.same(f"{adt}.start-dist", r.field("dist"), SEQ(N, lambda i: div(ONE, N)), b, "the first distribution is uniform", L)
        if eta is not None:
            ctx.same(f"{adt}.start-eta", r.field("eta"), eta, b, "regularisation parameter η = ln(n/ν) / (half the tolerance)" + (", at least 1/2" if adt == "ERLPBoost" else ""), L)
        if fw:
            ctx.same(f"{adt}.start-step-eta", mark_num(F(r.field(fw), "eta")), eta, b, "the Frank-Wolfe step uses the same regularisation parameter", L)
        if mdl:
            f, args = mdl
            evs = [e for e in r.events if e.kind == "call" and model_init(e.key, None)]
            if ctx.ob(f"{adt}.start-model", len(evs) == 1, b, f"one solver model is built before the first round, {len(evs)} found"):
                ctx.same(f"{adt}.start-model-args", mk("tuple", *[mark_num(a) for a in evs[0].args]), mk("tuple", *args), b,
                         "the solver model is built for the sample size, the capping 1/ν and the regularisation parameter", L)
                ctx.same(f"{adt}.start-model-kept", r.field(f), some(evs[0].res), b, "the model built is the model used", L)


def lpboost(ctx, L):
    adt = "LPBoost"
    b = ctx.fn("boost", adt)
    if not b:
        return
    r = ctx.run(b, opaque=heavy, lens=L)
    ev = produced(r, ctx, adt, b)
    if not ev:
        return
    D, h = F(S, "dist"), ev.res
    e = edge(h, D)
    gh = min_(NF(S, "gamma_hat"), e)
    ups = upd_events(r)
    u = once(ctx, r, f"{adt}.solve", b, ups)
    ctx.same(f"{adt}.learner-dist", ev.args[2], D, b, "weak learner is handed the current distribution", L)
    ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L)
    ctx.same(f"{adt}.gamma", r.field("gamma_hat"), gh, b, "upper estimate = smallest edge so far", L)
    ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), snoc(F(S, "hypotheses"), h), b, "hypothesis appended every round", L)
    if not u:
        return
    ctx.same(f"{adt}.solve-args", mk("tuple", *u.args), mk("tuple", model("lp_model"), SAMPLE, h), b, "the LP gains the column of the new hypothesis", L)
    ctx.same(f"{adt}.solve-always", totpc(ups), TRUE, b, "the LP is solved in every round", L)
    stop = le(sub(gh, NF(S, "tolerance")), mark_num(u.res))
    brk, cont = bind_flow(r)
    ctx.same(f"{adt}.flow", r.ret, ite(stop, brk(IT), cont), b, "stops as soon as the LP value reaches the smallest edge minus the tolerance", L)
    ctx.same(f"{adt}.dist", r.field("dist"), ite(stop, D, F(post_state(r, u), "dist")), b, "next distribution = dual solution of the LP just solved", L)
    ctx.same(f"{adt}.model", r.field("lp_model"), mk("setv", F(S, "lp_model"), "Some", "0", post_state(r, u)), b, "the LP keeps its columns", L)


def post_state(r, u, pos=0):
    """state of the argument `pos` after the call"""
    return mk("havoc", r.ip.callname(u.key, u.extra), num(pos), *u.args)


def erlp(ctx, L):
    adt = "ERLPBoost"
    b = ctx.fn("boost", adt)
    if not b:
        return
    r = ctx.run(b, opaque=heavy, lens=L)
    ev = produced(r, ctx, adt, b)
    if not ev:
        return
    D, h = F(S, "dist"), ev.res
    lim = lt(NF(S, "max_iter"), IT, True)
    gh = min_(NF(S, "gamma_hat"), add(edge(h, D), ent(D)))
    stop = le(sub(gh, NF(S, "gamma_star")), NF(S, "half_tolerance"))
    ups = upd_events(r)
    u = once(ctx, r, f"{adt}.solve", b, ups)
    brk, cont = bind_flow(r)
    ctx.same(f"{adt}.learner-dist", ev.args[2], D, b, "weak learner is handed the current distribution", L)
    ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L)
    ctx.same(f"{adt}.flow", r.ret, ite(lim, brk(NF(S, "max_iter")), ite(stop, brk(IT), cont)), b, "stops once the gap between the estimates is at most half the tolerance", L)
    ctx.same(f"{adt}.gamma", r.field("gamma_hat"), ite(lim, NF(S, "gamma_hat"), gh), b, "upper estimate = smallest edge + relative entropy/η so far", L)
    H = F(S, "hypotheses")
    ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), ite(lim, H, ite(stop, H, snoc(H, h))), b, "hypothesis appended unless stopping", L)
    if not u:
        return
    ctx.same(f"{adt}.solve-args", mk("tuple", *u.args), mk("tuple", model("qp_model"), SAMPLE, h), b, "the QP gains the constraint of the new hypothesis", L)
    ctx.same(f"{adt}.solve-when", totpc(ups), mul(not_(lim), not_(stop)), b, "the QP is solved in every continuing round", L)
    nd = F(post_state(r, u), "dist")
    L2 = dict(L)
    L2[length(nd)] = N
    ctx.same(f"{adt}.dist", r.field("dist"), ite(lim, D, ite(stop, D, nd)), b, "next distribution = solution of the QP just solved", L)
    gs = r.field("gamma_star")
    g = guards(gs, lambda v: v is NF(S, "gamma_star"))
    hs = snoc(H, h)
    want = add(fold_max(hs, lambda x: edge(x, nd)), add(div(entropy(nd), NF(S, "eta")), div(ln(N), NF(S, "eta"))))
    ctx.same(f"{adt}.gamma-star", gs, ite(lim, NF(S, "gamma_star"), ite(stop, NF(S, "gamma_star"), want)), b,
             "lower estimate = largest edge of the hypotheses on the new distribution + relative entropy/η", L2)


def fold_max(hs, f):
    i = fresh()
    return bind("maxof", i, dom(ZERO, length(hs)), f(at(hs, i)))


def soft(ctx, L):
    adt = "SoftBoost"
    b = ctx.fn("boost", adt)
    if not b:
        return
    r = ctx.run(b, opaque=heavy, lens=L)
    ev = produced(r, ctx, adt, b)
    if not ev:
        return
    D, h = F(S, "dist"), ev.res
    lim = lt(NF(S, "max_iter"), IT, True)
    gh = min_(NF(S, "gamma_hat"), edge(h, D))
    ups = upd_events(r)
    u = once(ctx, r, f"{adt}.solve", b, ups)
    brk, cont = bind_flow(r)
    H = F(S, "hypotheses")
    ctx.same(f"{adt}.learner-dist", ev.args[2], D, b, "weak learner is handed the current distribution", L)
    ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L)
    ctx.same(f"{adt}.gamma", r.field("gamma_hat"), ite(lim, NF(S, "gamma_hat"), gh), b, "upper estimate = smallest edge so far", L)
    ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), ite(lim, H, snoc(H, h)), b, "hypothesis appended every round", L)
    if not u:
        return
    ctx.same(f"{adt}.solve-args", mk("tuple", *u.args), mk("tuple", model("qp_model"), SAMPLE, D, gh, h), b,
             "the entropy minimisation gains the new edge constraint at the current margin estimate", L)
    some = is_variant(u.res, "Some")
    ctx.same(f"{adt}.flow", r.ret, ite(lim, brk(NF(S, "max_iter")), ite(not_(some), brk(IT), cont)), b, "stops exactly when no distribution satisfies the edge constraints", L)
    nd = post_state(r, u, 2)
    got = r.field("dist")
    ctx.same(f"{adt}.dist", got, ite(lim, D, nd), b, "next distribution = the distribution found by the entropy minimisation", L)


def wmargin(W, H, i):
    """y_i · Σ_k w_k h_k(x_i)"""
    k = fresh()
    return mul(A(F(SAMPLE, "target"), i), sum_(k, dom(ZERO, length(W)), mul(A(W, k), conf(at(H, k), i))))


def expdist(r, W, H):
    """symbol for the projection of −η·margins on the simplex capped by 1/ν"""
    name = None
    for e in r.calls(PROJ):
        name = r.ip.callname(e.key, e.extra)
    return mk("call", name or PROJ, NF(S, "nu"), SEQ(N, lambda i: neg(mul(NF(S, "eta"), wmargin(W, H, i)))))


def wedge(D, W, H):
    return SUM(N, lambda i: mul(A(D, i), wmargin(W, H, i)))


def position(hs, h):
    """index of the first equal hypothesis, or the length"""
    i = fresh()
    c = mk("bool", "eq", h, at(hs, i))
    return ite(bind("any", i, dom(ZERO, length(hs)), c), bind("find", i, dom(ZERO, length(hs)), c), length(hs))


def mlp(ctx, L):
    adt = "MLPBoost"
    b = ctx.fn("boost", adt)
    if not b:
        return
    W, H = F(S, "weights"), F(S, "hypotheses")
    L = dict(L)
    L[length(W)] = length(H)
    r = ctx.run(b, opaque=heavy, lens=L)
    ev = produced(r, ctx, adt, b)
    if not ev:
        return
    D = expdist(r, W, H)
    L[length(D)] = N
    h = ev.res
    lim = lt(NF(S, "max_iter"), IT, True)
    ctx.same(f"{adt}.learner-dist", ev.args[2], D, b, "distribution handed to the learner ∝ exp(−η·margin of the current combination) projected on the capped simplex", L)
    ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L)
    gam = min_(NF(S, "gamma"), edge(h, D))
    first = eqb(IT, ONE)
    go_on = mul(not_(lim), not_(first))
    ov = lambda w, hs: add(wedge(expdist(r, w, hs), w, hs), div(add(entropy(expdist(r, w, hs)), ln(N)), NF(S, "eta")))
    stop = le(sub(gam, ov(W, H)), NF(S, "half_tolerance"))
    ctx.same(f"{adt}.gamma", r.field("gamma"), ite(lim, NF(S, "gamma"), gam), b, "upper estimate = smallest edge so far", L)
    brk, cont = bind_flow(r)
    ctx.same(f"{adt}.flow", r.ret, ite(lim, brk(NF(S, "max_iter")), ite(first, cont, ite(stop, brk(IT), cont))), b,
             "stops once the smallest edge exceeds the objective value of the current weights by at most half the tolerance", L)
    pos = position(H, h)
    isnew = eqb(pos, length(H))
    H2 = ite(isnew, snoc(H, h), H)
    W2 = ite(isnew, snoc(W, ZERO), W)
    ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), ite(lim, H, ite(first, snoc(H, h), ite(stop, H, H2))), b, "hypothesis appended when it is new", L)
    fw = once(ctx, r, f"{adt}.primary", b, r.calls("next_iterate"))
    if fw:
        ctx.same(f"{adt}.primary-args", mk("tuple", *fw.args), mk("tuple", F(S, "primary"), IT, SAMPLE, D, H2, pos, W2), b,
                 "primary update: Frank-Wolfe step from the current weights towards the new hypothesis", L)
        ctx.same(f"{adt}.primary-when", totpc(r.calls("next_iterate")), mul(go_on, not_(stop)), b, "primary update in every continuing round but the first", L)
    ups = upd_events(r)
    args = {}
    for e in ups:
        k = e.args
        args[k] = or_(args.get(k, FALSE), e.pc)
    opt = lambda c: [a for a in args if mk("tuple", *a)]
    m0 = model("secondary")
    w1 = mk("tuple", m0, SAMPLE, some(h))
    none = variant(some(h).args[0], "None")
    w2 = mk("tuple", m0, SAMPLE, ite(isnew, some(h), none))
    eq = lambda x, y: equal(x, y) or equal_cases(x, y)
    got1 = [(a, c) for a, c in args.items() if eq(canon(mk("tuple", *a), L), canon(w1, L))]
    got2 = [(a, c) for a, c in args.items() if eq(canon(mk("tuple", *a), L), canon(w2, L))]
    rest = [a for a in args if not any(a is x for x, _ in got1 + got2)]
    if ctx.ob(f"{adt}.secondary-args", len(got1) == 1 and len(got2) == 1 and not rest, b,
              "secondary update: the LP gains the column of every new hypothesis (in round one as well) and of no other: " + "; ".join(clip(mk("tuple", *a), 300) for a in rest)):
        ctx.same(f"{adt}.secondary-first", got1[0][1], mul(not_(lim), first), b, "round one feeds its hypothesis to the LP", L)
        ctx.same(f"{adt}.secondary-when", got2[0][1], mul(go_on, not_(stop)), b, "every later continuing round solves the LP", L)
        if fw:
            s2 = [e for e in ups if e.args == got2[0][0]][0].res
            p = fw.res
            L3 = dict(L)
            for x in (p, s2):
                L3[length(x)] = length(H2)
            better = le(ov(s2, H2), ov(p, H2))
            ctx.same(f"{adt}.weights", r.field("weights"), ite(lim, W, ite(first, snoc(W, ONE), ite(stop, W, ite(better, p, s2)))), b,
                     "the better of the primary and the secondary weights is kept", L3)


def cerlp(ctx, L):
    adt = "CERLPBoost"
    b = ctx.fn("boost", adt)
    if not b:
        return
    W, H = F(S, "weights"), F(S, "hypotheses")
    L = dict(L)
    L[length(W)] = length(H)
    r = ctx.run(b, opaque=heavy, lens=L)
    ev = produced(r, ctx, adt, b)
    if not ev:
        return
    D = expdist(r, W, H)
    L[length(D)] = N
    h = ev.res
    lim = lt(NF(S, "max_iter"), IT, True)
    ctx.same(f"{adt}.learner-dist", ev.args[2], D, b, "distribution handed to the learner ∝ exp(−η·margin of the current combination) projected on the capped simplex", L)
    ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L)
    stop = le(sub(edge(h, D), wedge(D, W, H)), NF(S, "half_tolerance"))
    brk, cont = bind_flow(r)
    ctx.same(f"{adt}.flow", r.ret, ite(lim, brk(NF(S, "max_iter")), ite(stop, brk(IT), cont)), b,
             "stops once the new edge exceeds the edge of the combination by at most half the tolerance", L)
    pos = position(H, h)
    isnew = eqb(pos, length(H))
    H2 = ite(isnew, snoc(H, h), H)
    W2 = ite(isnew, snoc(W, ZERO), W)
    ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), ite(lim, H, ite(stop, H, H2)), b, "hypothesis appended when it is new", L)
    fw = once(ctx, r, f"{adt}.step", b, r.calls("next_iterate"))
    if fw:
        ctx.same(f"{adt}.step-args", mk("tuple", *fw.args), mk("tuple", F(S, "frank_wolfe"), IT, SAMPLE, D, H2, pos, W2), b,
                 "Frank-Wolfe step from the current weights towards the new hypothesis", L)
        ctx.same(f"{adt}.weights", r.field("weights"), ite(lim, W, ite(stop, W, fw.res)), b, "weights = result of the Frank-Wolfe step", L)
