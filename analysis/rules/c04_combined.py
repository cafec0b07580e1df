"""C04: hypotheses and weights stay parallel; the combined hypothesis is built from them and equals the observed one."""
from registry import rule
from _bspec import *
from c07_lpfamily import heavy, ASM as _A
from c25_formulas import combined


def pairs():
    m = lambda f: F(vproj(F(S, f), "Some", "0"), "weights")
    H = F(S, "hypotheses")
    W = F(S, "weights")
    return {
        "AdaBoost": (W, H), "AdaBoostV": (W, H), "MadaBoost": (F(S, "alphas"), H), "CERLPBoost": (W, H), "MLPBoost": (W, H), "GBM": (W, H),
        "LPBoost": (m("lp_model"), H), "ERLPBoost": (m("qp_model"), H),
        "SmoothBoost": (None, H), "SoftBoost": (None, H), "TotalBoost": (None, F(S, "softboost", "hypotheses")),
    }


def lf(r, t):
    """value of a field chain after the call"""
    p = []
    while t.op == "field":
        p.append(t.args[1])
        t = t.args[0]
    return r.field(*reversed(p))


@rule("C04", "Value-graph analysis of every booster: the number of stored hypothesis weights and of stored hypotheses is the same after each round whenever it was the same "
      "before; the result of the final step is the weighted combination of exactly the stored pairs (nonzero weights, scaled to unit absolute sum; unscaled for "
      "gradient boosting), and the hypothesis observed between rounds is the same expression over the same state.", _A, floor=25)
def c04(ctx):
    for adt, (W, H) in pairs().items():
        L = lens("dist", "betas", "m", "n")
        bp, bc, bb = ctx.fn("postprocess", adt), (ctx.fn("current_hypothesis", adt) if adt != "GBM" else None), ctx.fn("boost", adt)
        if not (bp and bb and (bc or adt == "GBM")):
            continue
        if W is not None:
            L[length(H)] = length(W)
        rp = ctx.run(bp, opaque=heavy, lens=L)
        if bc:
            rc = ctx.run(bc, opaque=heavy, lens=L)
            ctx.same(f"{adt}.observed", rc.ret, rp.ret, bc, "the observed hypothesis is what the final step would return", L)
            ctx.ob(f"{adt}.observe-pure", not written_fields(rc), bc, "observing changes the booster")
        if W is None:
            if adt == "SmoothBoost":
                W2 = SEQ(length(H), lambda i: power(NF(S, "terminated"), -1))
            else:
                W2 = rp.field("weights") if adt == "SoftBoost" else F(rp.field("softboost"), "weights")
                if not contains(W2, lambda t: t.op == "havoc"):
                    ctx.undecided(f"{adt}.solved", bp, "final weights do not come from a solver")
                L[length(W2)] = length(H)
        else:
            W2 = W
        w, hh = combined(W2, H)
        if adt == "GBM":
            w, hh = W, H
        if adt in ("SoftBoost", "TotalBoost"):
            # built from the weights the solver produced and the stored hypotheses
            ctx.same(f"{adt}.hypotheses", F(rp.ret, "hypotheses"), hh, bp, "hypotheses of the nonzero weights", L)
            ctx.same(f"{adt}.weights", F(rp.ret, "weights"), w, bp, "nonzero weights scaled to unit absolute sum", L)
        else:
            ctx.same(f"{adt}.hypotheses", F(rp.ret, "hypotheses"), hh, bp, "hypotheses of the nonzero weights, in the order of the rounds", L)
            ctx.same(f"{adt}.weights", F(rp.ret, "weights"), w, bp, "nonzero weights scaled to unit absolute sum", L)
        if W is not None and adt not in ("LPBoost", "ERLPBoost"):
            r = ctx.run(bb, opaque=heavy, lens=L)
            if r.out("self") is not S:
                if adt == "MLPBoost":
                    # the secondary model holds one column per stored hypothesis (C07, C08)
                    for e in r.events:
                        if e.kind == "call" and str(e.key).endswith("Model::update"):
                            L[length(e.res)] = sub(length(lf(r, H)), eqb(IT, ONE))
                ctx.same(f"{adt}.parallel", canon(length(lf(r, W)), L), canon(length(lf(r, H)), L), bb, "as many weights as hypotheses after a round", L)
        if adt in ("LPBoost", "ERLPBoost"):
            # one column / constraint per hypothesis: every stored hypothesis went to the solver, once
            r = ctx.run(bb, opaque=heavy, lens=L)
            ups = [e for e in r.events if e.kind == "call" and str(e.key).endswith("Model::update")]
            g = FALSE
            for e in ups:
                g = or_(g, e.pc)
            got = canon(length(lf(r, H)), L)
            ctx.same(f"{adt}.parallel", got, add(canon(length(H), L), g), bb, "one solver weight for every stored hypothesis", L)


def written_fields(r):
    return r.out("self") is not S
