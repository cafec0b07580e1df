"""C30: the worst-case learner for LPBoost."""
from fractions import Fraction
from registry import rule
from _bspec import *
from c13_split import split_argbest

A1, A2 = sym("a1"), sym("a2")


@rule("C30", "Value-graph analysis: the class of hypotheses the builder makes, the answer of each of the three kinds on every region of rows, and the choice of the learner are compared with closed forms.",
      ["at least one example", "which of several hypotheses of equal edge is answered is not judged"], floor=12)
def c30(ctx):
    b = ctx.fn("new", "BadBaseLearnerBuilder")
    if b:
        r = ctx.run(b)
        for f, w in (("n_sample", NF(sym("a0"), "n_sample")), ("tolerance", num(Fraction(1, 10 ** 9))), ("nu", ONE)):
            ctx.same("default." + f, proj(r.ret, f), w, b, "documented default")
    b = ctx.fn("build", "BadBaseLearnerBuilder")
    if b:
        r = ctx.run(b)
        n, tol, nu = NF(S, "n_sample"), NF(S, "tolerance"), NF(S, "nu")
        half_ = idiv(add(n, ONE), num(2))
        eps = div(tol, mul(num(2), n))
        shift = mk("trunc", mk("ceil", nu))
        c = proj(r.ret, "classifiers")
        adt = next((x.args[0] for x in subterms(c) if x.op == "struct"), None)
        if adt is None:
            ctx.undecided("class", b, f"hypotheses {clip(c, 200)}")
        else:
            k = lambda tag, i, gap: struct(adt, {"tag": num(tag), "index": i, "shift": shift, "gap": gap, "eps": eps})
            last = add(mul(num(2), half_), ONE)
            mids = SEQ(sub(half_, ONE), lambda j: k(1, add(half_, j), add(num(5), mul(num(2), j))))
            ctx.same("class", c, concat(mk("list", k(0, half_, num(3))), mids, mk("list", k(2, half_, last))), b, "one hypothesis of the first kind, one of the second kind per row of the second half but the last, one of the third kind")
    b = ctx.fn("confidence", "BadClassifier")
    if b:
        r = ctx.run(b)
        tag, i, s, g, e = (NF(S, f) for f in ("tag", "index", "shift", "gap", "eps"))
        row = mark_num(A2)
        y = mark_num(at(F(A1, "target"), A2))
        lo = lambda t: add(num(-1), t)
        first = ite(lt(row, i, True), y, ite(lt(row, add(i, s), True), mul(lo(mul(num(2), e)), y), mul(lo(mul(num(3), e)), y)))
        low, mid, high = and_(le(i, row, True), lt(row, add(i, s), True)), and_(le(add(i, s), row, True), lt(row, add(i, s, s), True)), None
        second = ite(low, y, ite(mid, mul(lo(mul(sub(g, ONE), e)), y), mul(lo(mul(g, e)), y)))
        third = ite(lt(row, i, True), mul(lo(e), y), mul(sub(ONE, e), y))
        for nm, want, val in (("first", first, 0), ("second", second, 1), ("third", third, 2)):
            got = subst(r.ret, {tag: num(val)})
            # the three regions of rows, one after the other
            if nm == "second":
                regions = (("before", {"a": FALSE, "b": FALSE, "c": FALSE}), ("shifted", {"a": TRUE, "b": FALSE, "c": FALSE}), ("middle", {"a": TRUE, "b": TRUE, "c": FALSE}), ("after", {"a": TRUE, "b": TRUE, "c": TRUE}))
            else:
                regions = (("before", {"a": FALSE, "b": FALSE, "c": FALSE}), ("shifted", {"a": TRUE, "b": FALSE, "c": FALSE}), ("after", {"a": TRUE, "b": TRUE, "c": FALSE}), ("far", {"a": TRUE, "b": TRUE, "c": TRUE}))
            cond = {"a": le(i, row, True), "b": le(add(i, s), row, True), "c": le(add(i, s, s), row, True)}
            for rn, m in regions:
                mm = {cond[q]: v for q, v in m.items()}
                ctx.same(f"answer.{nm}.{rn}", subst(got, mm), subst(want, mm), b, f"answer of the {nm} kind, relative to the label of the row, on rows {rn}")
    b = ctx.fn("produce", "BadBaseLearner")
    if b:
        r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == "confidence")
        x, whole = None, r.ret
        parts = [v for _, v in r.ret.args[1]] if r.ret.op == "struct" else None
        names = [n for n, _ in r.ret.args[1]] if parts else None
        if parts and all(p.op == "field" and p.args[1] == n and p.args[0] is parts[0].args[0] for n, p in zip(names, parts)):
            whole = parts[0].args[0]
        x = split_argbest(whole)
        if x is None:
            return ctx.undecided("choice", b, f"choice {clip(whole, 200)}")
        j, d, g, k, v, mode = x
        C = F(S, "classifiers")
        tg = F(A1, "target")
        L = {length(tg): length(A2)}
        ctx.ob("choice.direction", mode == "max", b, f"the greatest edge is chosen, the code takes the {mode}")
        ctx.same("choice.range", mk("tuple", d, g), mk("tuple", dom(ZERO, length(C)), TRUE), b, "every hypothesis of the class competes")
        conf = {q for q in subterms(k) if q.op == "call" and str(q.args[0]).split("::")[-1] == "confidence"}
        name = next(iter(conf)).args[0] if conf else "confidence"
        ctx.same("choice.score", k, SUM(length(A2), lambda q: mul(mark_num(at(tg, q)), mark_num(at(A2, q)), mark_num(mk("call", name, at(C, j), A1, q)))), b, "by their edge under the distribution", L)
        ctx.same("choice.value", v, at(C, j), b, "the hypothesis with the greatest edge is answered")
