"""C02: the reweighting booster family (AdaBoost, AdaBoostV, MadaBoost, SmoothBoost)."""
from registry import rule
from _bspec import *
from stdmodel import pw as mk_pow

EXPL = ("Value-graph analysis of the round function (with every private helper inlined) of the four reweighting boosters: "
        "the final value of the per-example distribution, of the hypothesis list and of the hypothesis weights is compared, as a "
        "normalised symbolic expression over the label column, the produced hypothesis and the previous state, with the closed form "
        "of the published update.  Path conditions (perfect-edge exit, round limit) are part of the expression.")
ASM = ["real-number semantics of f64 arithmetic", "per-example vectors have the length of the label column (C16, C03)",
       "a sort permutes"]


def signs(e):
    """the sign of an edge that is at least one away from zero"""
    return [signum(e), sub(mul(num(2), lt(ZERO, e)), ONE), sub(ONE, mul(num(2), lt(e, ZERO)))]


def init_state(ctx, adt, fields, L):
    b = ctx.fn("preprocess", adt)
    if not b:
        return
    r = ctx.run(b, lens=L)
    for f, want in fields.items():
        ctx.same(f"{adt}.init.{f}", r.field(f), want, b, f"{adt}: state of `{f}` before round 1", L)


@rule("C02", EXPL, ASM, floor=30)
def c02(ctx):
    L = lens("dist", "betas", "m", "n")
    uni = SEQ(N, lambda i: power(N, -1))
    # ---------------------------------------------------------------- AdaBoost / AdaBoostV
    for adt in ("AdaBoost", "AdaBoostV"):
        init = {"dist": uni, "weights": mk("list"), "hypotheses": mk("list")}
        if adt == "AdaBoostV":
            init |= {"gamma": ONE}
        init_state(ctx, adt, init, L)
        b = ctx.fn("boost", adt)
        if not b:
            continue
        r = ctx.run(b, lens=L)
        ev = produced(r, ctx, adt, b)
        if not ev:
            continue
        D = F(S, "dist")
        h = ev.res
        e = edge(h, D)
        lim = lt(NF(S, "max_iter"), IT, True)
        full = le(ONE, abs_(e))
        w = mul(half(), sub(ln(add(ONE, e)), ln(sub(ONE, e))))
        if adt == "AdaBoostV":
            g = min_(e, NF(S, "gamma"))
            rho = sub(g, NF(S, "tolerance"))
            w = sub(w, mul(half(), sub(ln(add(ONE, rho)), ln(sub(ONE, rho)))))
            ctx.same(f"{adt}.gamma", r.field("gamma"), ite(lim, NF(S, "gamma"), ite(full, NF(S, "gamma"), g)), b,
                     "margin estimate = smallest edge so far", L)
        ctx.same(f"{adt}.dist", r.field("dist"), ite(lim, D, ite(full, D, softmax(N, lambda i: sub(ln(A(D, i)), mul(w, yh(h, i)))))), b,
                 "distribution for the next round = current × exp(−weight·y·h) normalised", L)
        W = F(S, "weights")
        ctx.same(f"{adt}.weights", r.field("weights"), [ite(lim, W, ite(full, mk("list", x), snoc(W, w))) for x in signs(e)], b,
                 "weight appended for the new hypothesis", L)
        H = F(S, "hypotheses")
        ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), ite(lim, H, ite(full, mk("list", h), snoc(H, h))), b,
                 "hypothesis appended", L)
        brk, cont = bind_flow(r)
        ctx.same(f"{adt}.flow", r.ret, ite(lim, brk(NF(S, "max_iter")), ite(full, brk(IT), cont)), b, "round continues unless limit or perfect edge", L)
        ctx.same(f"{adt}.learner-dist", ev.args[2], D, b, "weak learner is handed the current distribution", L)
        ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L)

    # ---------------------------------------------------------------- MadaBoost
    adt = "MadaBoost"
    init_state(ctx, adt, {"betas": SEQ(N, lambda i: ZERO), "alphas": mk("list"), "hypotheses": mk("list")}, L)
    b = ctx.fn("boost", adt)
    if b:
        r = ctx.run(b, lens=L)
        ev = produced(r, ctx, adt, b)
        if ev:
            B = F(S, "betas")
            D = softmax(N, lambda i: min_(A(B, i), ZERO))
            h = ev.res
            e = edge(h, D)
            lim = lt(NF(S, "max_iter"), IT, True)
            full = le(ONE, abs_(e))
            eps = power(mul(half(), mul(half(), sub(ONE, e))), Fraction(1, 2))
            lnbeta = mul(half(), sub(ln(eps), ln(sub(ONE, eps))))
            ctx.same(f"{adt}.learner-dist", ev.args[2], D, b, "distribution ∝ min(1, Π β^(y·h))", L)
            ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L)
            ctx.same(f"{adt}.betas", r.field("betas"), ite(lim, B, ite(full, B, SEQ(N, lambda i: add(A(B, i), mul(yh(h, i), lnbeta))))), b,
                     "per-example log weight accumulates y·h·ln β", L)
            ctx.same(f"{adt}.weights", r.field("alphas"), [ite(lim, F(S, "alphas"), ite(full, mk("list", x), snoc(F(S, "alphas"), neg(lnbeta)))) for x in signs(e)], b,
                     "hypothesis weight = ln(1/β)", L)
            ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), ite(lim, F(S, "hypotheses"), ite(full, mk("list", h), snoc(F(S, "hypotheses"), h))), b,
                     "hypothesis appended", L)
            brk, cont = bind_flow(r)
            ctx.same(f"{adt}.flow", r.ret, ite(lim, brk(NF(S, "max_iter")), ite(full, brk(IT), cont)), b, "round continues unless limit or perfect edge", L)

    # ---------------------------------------------------------------- SmoothBoost
    adt = "SmoothBoost"
    g = NF(S, "gamma")
    init_state(ctx, adt, {"m": SEQ(N, lambda i: ONE), "hypotheses": mk("list"), "theta": div(g, add(num(2), g)), "n_sample": N,
                          "n": SEQ(N, lambda i: ZERO)}, L)
    b = ctx.fn("boost", adt)
    if b:
        L2 = dict(L)
        L2[NF(S, "n_sample")] = N
        r = ctx.run(b, lens=L2)
        ev = produced(r, ctx, adt, b)
        if ev:
            M = F(S, "m")
            tot = SUM(N, lambda i: A(M, i))
            h = ev.res
            lim = lt(NF(S, "max_iter"), IT, True)
            done = lt(tot, mul(N, NF(S, "kappa")))
            ctx.same(f"{adt}.learner-dist", ev.args[2], SEQ(N, lambda i: div(A(M, i), tot)), b, "distribution = m normalised", L2)
            ctx.same(f"{adt}.learner-sample", ev.args[1], SAMPLE, b, "weak learner is handed the training sample", L2)
            nn = lambda i: sub(add(A(F(S, "n"), i), yh(h, i)), NF(S, "theta"))
            ctx.same(f"{adt}.n", r.field("n"), ite(lim, F(S, "n"), ite(done, F(S, "n"), SEQ(N, nn))), b, "cumulative margin minus θ", L2)
            ctx.same(f"{adt}.m", r.field("m"), ite(lim, M, ite(done, M, SEQ(N, lambda i: ite(le(nn(i), ZERO), ONE, mk_pow(sub(ONE, g), mul(half(), nn(i))))))), b,
                     "smooth weight min(1,(1−γ)^(n/2))", L2)
            ctx.same(f"{adt}.hypotheses", r.field("hypotheses"), ite(lim, F(S, "hypotheses"), ite(done, F(S, "hypotheses"), snoc(F(S, "hypotheses"), h))), b,
                     "hypothesis appended", L2)
            ctx.same(f"{adt}.terminated", r.field("terminated"), ite(lim, NF(S, "terminated"), ite(done, sub(IT, ONE), NF(S, "terminated"))), b,
                     "stops once the total weight drops below κ·n", L2)
            brk, cont = bind_flow(r)
            ctx.same(f"{adt}.flow", r.ret, ite(lim, brk(NF(S, "max_iter")), ite(done, brk(IT), cont)), b, "round flow", L2)


