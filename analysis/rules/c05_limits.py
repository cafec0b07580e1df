"""C05: the number of rounds is bounded by the published limit; C06: inputs are validated exactly as documented."""
from registry import rule
from _bspec import *
from c07_lpfamily import heavy
from c25_formulas import panics
import c28_config

X = mark_num(sym("a1"))


def base(adt):
    return F(S, "softboost") if adt == "TotalBoost" else S


def formulas():
    """limit = documented bound of each algorithm as a function of the configuration"""
    out = {}
    s = S
    tol = NF(s, "tolerance")
    ht = NF(s, "half_tolerance")
    nu = NF(s, "nu")
    lnn = ln(N)
    T2 = power(tol, -2)
    out["AdaBoost"] = [mk("trunc", mul(lnn, T2))]
    out["AdaBoostV"] = [mk("trunc", mul(num(2), lnn, T2))]
    out["MadaBoost"] = [("ceil", mul(sub(N, ONE), T2))]
    g, k = NF(s, "gamma"), NF(s, "kappa")
    out["SmoothBoost"] = [("ceil", div(num(2), mul(k, power(g, 2), power(sub(ONE, g), half_()))))]
    lr = sub(lnn, ln(nu))
    out["ERLPBoost"] = [("ceil", max_(div(num(4), ht), mul(num(8), lr, power(ht, -2))))]
    out["CERLPBoost"] = [("ceil", mul(num(8), lr, power(ht, -2)))]
    out["MLPBoost"] = out["CERLPBoost"]
    out["SoftBoost"] = [("ceil", mul(num(2), lr, T2))]
    b = F(S, "softboost")
    out["TotalBoost"] = [("ceil", mul(num(2), sub(ln(NF(b, "sample", "n_sample")), ln(NF(b, "nu"))), power(NF(b, "tolerance"), -2)))]
    return out


def half_():
    return Fraction(1, 2)


@rule("C05", "Value-graph analysis of the preparation and round functions of every booster: the round limit computed by the preparation is compared with the documented bound (overridden by "
      "the caller's limit where there is one); beyond the limit a round must stop before the weak learner is called; the reported stopping round is compared with the round that stopped.",
      ["real-number semantics of f64 arithmetic"], floor=25)
def c05(ctx):
    L = lens("dist", "m", "n", "betas")
    fm = formulas()
    NF(S, "terminated")
    for adt in ("AdaBoost", "AdaBoostV", "MadaBoost", "SmoothBoost", "ERLPBoost", "CERLPBoost", "MLPBoost", "SoftBoost", "TotalBoost"):
        b = ctx.fn("preprocess", adt)
        B = base(adt)
        n_eq = {length(F(B, "sample", "target")): NF(B, "sample", "n_sample"), NF(B, "n_sample"): NF(B, "sample", "n_sample")}
        if b:
            r = ctx.run(b, opaque=heavy, lens=L)
            want = fm[adt][0]
            if isinstance(want, tuple):
                want = stdceil(want[1])
            fq = F(S, "force_quit_at")
            if adt in ("AdaBoost", "AdaBoostV", "MadaBoost"):
                c = is_variant(fq, "Some")
                want = ite(c, mark_num(vproj(fq, "Some", "0")), want)
            got = proj(proj(r.out("self"), "softboost"), "max_iter") if adt == "TotalBoost" else r.field("max_iter")
            ctx.same(f"{adt}.limit", got, want, b, "the round limit is the documented bound for the configured parameters", n_eq)
        b = ctx.fn("boost", adt)
        if b:
            r = ctx.run(b, opaque=heavy, lens=L)
            M = NF(B, "max_iter")
            lim = lt(M, IT, True)
            for n, ev in enumerate(r.calls("produce")):
                ctx.ob(f"{adt}.no-learner-beyond-limit.{n}", together(mul(lim, ev.pc)) is ZERO, b, "the weak learner is not called in a round beyond the limit")
            g = guards(r.ret, lambda v: not is_break(v))
            ctx.ob(f"{adt}.stops-beyond-limit", together(mul(lim, g)) is ZERO, b, "a round beyond the limit stops the run")
    NF(S, "terminated")
    # ------------------------------------------------- reported stopping round
    for adt in ("LPBoost", "ERLPBoost", "MLPBoost"):
        b = ctx.fn("terminated", adt)
        if b:
            ctx.same(f"{adt}.terminated", ctx.run(b).ret, NF(S, "terminated"), b, "the recorded stopping round is reported")
        b = ctx.fn("boost", adt)
        if b:
            r = ctx.run(b, opaque=heavy, lens=L)
            t = r.field("terminated")
            old = NF(S, "terminated")
            recorded = [IT]
            if adt == "LPBoost":
                recorded = [mark_num(add(length(F(S, "hypotheses")), ONE)), IT]
            lim = lt(NF(S, "max_iter"), IT, True) if adt != "LPBoost" else FALSE
            stop = guards(r.ret, is_break)
            ctx.same(f"{adt}.terminated-round", t, [ite(mul(stop, not_(lim)), x, old) for x in recorded], b, "the stopping round is recorded when the termination test stops the run")


def stdceil(t):
    return mk("trunc", mk("ceil", t))


# ------------------------------------------------------------------ validation
def between(lo, x, hi):
    """lo ≤ x ≤ hi"""
    return and_(le(lo, x), le(x, hi))


PARAM = {
    ("SmoothBoost", "gamma"): lambda: and_(le(ZERO, X), lt(X, num(half_()))),
    ("LPBoost", "nu"): lambda: between(ONE, X, NF(S, "n_sample")),
    ("ERLPBoost", "nu"): lambda: between(ONE, X, NF(S, "n_sample")),
    ("CERLPBoost", "nu"): lambda: between(ONE, X, N),
    ("MLPBoost", "nu"): lambda: between(ONE, X, NF(S, "n_sample")),
    ("SoftBoost", "nu"): lambda: between(ONE, X, N),
    ("DecisionTreeBuilder", "max_depth"): lambda: pos(X, True),
    ("RegressionTreeBuilder", "max_depth"): lambda: pos(X, True),
    ("BadBaseLearnerBuilder", "nu"): lambda: between(ONE, X, NF(S, "n_sample")),
    ("DecisionTreeBuilder", "set_nbins"): lambda: mk("is", mk("mapget", F(S, "n_bins"), c28_config.A1, NONE), "Some"),
    ("RegressionTreeBuilder", "set_nbins"): lambda: mk("is", mk("mapget", F(S, "n_bins"), c28_config.A1, NONE), "Some"),
    ("CrossValidation", "train_ratio"): lambda: and_(lt(ZERO, X), lt(X, ONE)),
}


@rule("C06", "Path-condition analysis: the disjunction of the conditions of all panics reachable in each public configuration method and in the preparation of every booster is compared, as a "
      "normalised condition, with the documented admissible range; the binary-instance check is compared with its definition.", ["real-number semantics of f64 arithmetic"], floor=40)
def c06(ctx):
    for (adt, m) in c28_config.SETTERS:
        b = ctx.fn(m, adt)
        if not b:
            continue
        if adt in ("Logger", "LoggerBuilder"):
            continue
        r = ctx.run(b)
        want = not_(PARAM[(adt, m)]()) if (adt, m) in PARAM else FALSE
        ctx.same(f"{adt}.{m}.accepts", panics(r), want, b, "the method rejects exactly the values outside the documented range")
    L = lens("dist", "m", "n", "betas")
    # binary instances
    b = ctx.fn("is_valid_binary_instance", "Sample")
    BP = None
    if b:
        r = ctx.run(b)
        p = panics(r)
        y = lambda i: A(F(S, "target"), i)
        n = length(F(S, "target"))
        i = fresh()
        st = mk("call", "collect_HashSet", seq(i, dom(ZERO, n), TRUE, mk("trunc", y(i))))
        BP = p
        i = fresh()
        nonint = pos(length(seq(i, dom(ZERO, n), not_(eqb(y(i), mk("trunc", y(i)))), y(i))), True)
        k = mark_num(length(st))
        other = or_(not_(eqb(NF(S, "n_sample"), n)), nonint)
        want = [or_(other, or_(pos(sub(k, num(2)), True), not_(pos(sub(k, ONE), True)))), or_(other, not_(eqb(k, num(2))))]
        ctx.same("binary-instance", p, want, b, "a sample is a binary instance iff its target is set, integral and takes exactly two values")
    # internal checks: what they are named after must pass
    b = ctx.fn("check_capped_simplex_condition", module="common::checker", private=True)
    if b:
        d, nu = sym("a0"), mark_num(sym("a1"))
        p = subst(panics(ctx.run(b)), {SUM(length(d), lambda k: A(d, k)): ONE})
        nuc = not_(between(ONE, nu, length(d)))
        # the weights may come from an interior-point solver: entries are off [0, 1/ν] by a rounding, which must pass
        slack = set()
        walk(p, lambda t: slack.add(abs(as_poly(t).get((), 0))))
        want = [nuc, FALSE]
        for c in sorted(x for x in slack if 0 < x < 1):
            k = fresh()
            cap = bind("any", k, dom(ZERO, length(d)), not_(between(num(-c), A(d, k), add(power(nu, -1), num(c)))))
            want[:0] = [or_(nuc, cap), cap]
        ctx.same("capped-simplex", p, want, b, "a distribution that sums to one, with entries in [0, 1/ν] up to the rounding of the solver, 1 ≤ ν ≤ n, is accepted")
    b = ctx.fn("check_stepsize", module="common::checker", private=True)
    if b:
        ctx.same("step-size", panics(ctx.run(b)), [not_(between(ZERO, mark_num(sym("a0")), ONE)), FALSE], b, "a step between zero and one is accepted")
    # boosters
    for adt in ("AdaBoost", "AdaBoostV", "MadaBoost", "SmoothBoost", "LPBoost", "ERLPBoost", "CERLPBoost", "MLPBoost", "SoftBoost", "TotalBoost", "GraphSepBoost"):
        b = ctx.fn("preprocess", adt)
        if not b or BP is None:
            continue
        B = base(adt)
        r = ctx.run(b, opaque=heavy, lens=L)
        smp = F(B, "sample")
        vb = ctx.fn("is_valid_binary_instance", "Sample")
        bp = subst(BP, {S: smp})
        n = NF(B, "sample", "n_sample")
        env = {length(F(B, "sample", "target")): n, NF(B, "n_sample"): n}
        extra = FALSE
        if adt in ("LPBoost", "ERLPBoost", "SoftBoost", "TotalBoost"):
            extra = or_(extra, not_(between(ONE, NF(B, "nu"), n)))
        if adt == "ERLPBoost":
            extra = or_(extra, not_(and_(le(ZERO, NF(S, "half_tolerance")), lt(NF(S, "half_tolerance"), ONE))))
        if adt == "SmoothBoost":
            g = NF(S, "gamma")
            th = div(g, add(num(2), g))
            extra = or_(extra, not_(and_(lt(ZERO, NF(S, "kappa")), lt(NF(S, "kappa"), ONE))))
            extra = or_(extra, not_(and_(le(th, g), lt(g, num(half_())))))
        ctx.same(f"{adt}.accepts", panics(r), or_(bp, extra), b, "the preparation rejects exactly the samples that are no binary instance and parameters out of range", env)
