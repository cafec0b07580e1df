"""C26: gradient boosting fits residuals and keeps the running prediction."""
from registry import rule
from _bspec import *

ADT = "GBM"


@rule("C26", "Value-graph analysis of the gradient-boosting round and preparation: the vector handed to the weak learner, the residuals and predictions the step size is computed from, the stopping "
      "condition, the recorded coefficients and hypotheses and the running prediction are compared with the recurrence f_0 = 0, f_{t+1} = f_t + c_t h_t.",
      ["real-number semantics of f64 arithmetic"], floor=9)
def c26(ctx):
    NF(S, "terminated"), NF(S, "max_iter")
    L = lens("predictions")
    b = ctx.fn("boost", ADT)
    if not b:
        return
    r = ctx.run(b, lens=L, trait_default=True)
    evs = [e for e in r.calls("produce")]
    if not evs:
        return ctx.missing("GBM.produce", "call of the weak learner in a round of gradient boosting")
    ev = evs[0]
    PR = F(S, "predictions")
    lim = lt(NF(S, "max_iter"), IT)
    ctx.ob("GBM.one-call", len({(e.res, e.args) for e in evs}) == 1, b, "the weak learner is called once per round")
    ctx.same("GBM.sample", ev.args[1], SAMPLE, b, "sample handed to the weak learner")
    ctx.same("GBM.predictions-in", ev.args[2], PR, b, "the weak learner must get the running prediction")
    h = ev.res
    hp = lambda i: mark_num(mk("call", "Regressor::predict", h, SAMPLE, i))
    pv = SEQ(N, hp)
    rv = SEQ(N, lambda i: sub(A(F(SAMPLE, "target"), i), A(PR, i)))
    cs = {e.res: e for e in r.calls("best_coefficient")}
    if not ctx.ob("GBM.coefficient-call", len(cs) == 1, b, f"the coefficient of a new hypothesis is computed once by the loss, {len(cs)} computations found"):
        return
    ce = list(cs.values())[0]
    ctx.same("GBM.loss", ce.args[0], F(S, "loss"), b, "loss the coefficient is computed with")
    ctx.same("GBM.residuals", ce.args[1], rv, b, "residuals: target minus running prediction")
    ctx.same("GBM.direction", ce.args[2], pv, b, "predictions of the new hypothesis")
    c = mark_num(sym("C"))
    sm = {ce.res: c}
    g = lambda t: subst(t, sm)
    z = eqb(c, ZERO)
    brk, cont = bind_flow(r)
    ctx.same("GBM.flow", g(r.ret), ite(lim, brk(NF(S, "max_iter")), ite(z, brk(IT), cont)), b, "a round stops at the limit or when the new hypothesis cannot lower the loss, else continues")
    keep = or_(lim, z)
    ctx.same("GBM.weights", g(r.field("weights")), ite(keep, F(S, "weights"), snoc(F(S, "weights"), c)), b, "coefficients after a round")
    ctx.same("GBM.hypotheses", r.field("hypotheses") if False else g(r.field("hypotheses")), ite(keep, F(S, "hypotheses"), snoc(F(S, "hypotheses"), h)), b, "hypotheses after a round")
    new = SEQ(N, lambda i: add(A(PR, i), mul(c, hp(i))))
    got = g(r.field("predictions"))
    alts = []
    i = fresh()
    mo = mk("mapover", new, PR)
    alts = [ite(keep, PR, new), ite(keep, PR, mo)]
    ctx.same("GBM.predictions-out", got, alts, b, "running prediction after a round", L)
    ctx.same("GBM.terminated", g(r.field("terminated")), ite(and_(not_(lim), z), IT, NF(S, "terminated")), b, "recorded stopping round")
    b = ctx.fn("preprocess", ADT)
    if b:
        r = ctx.run(b, lens=L)
        ctx.same("GBM.start", r.field("predictions"), SEQ(N, lambda i: ZERO), b, "the running prediction starts at zero")
