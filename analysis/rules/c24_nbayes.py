"""C24: Gaussian naive Bayes is the Gaussian naive Bayes model."""
from fractions import Fraction
from registry import rule
from _bspec import *
from c13_split import split_argbest
from rulelib import unresolved

A1, A2 = sym("a1"), sym("a2")
ASM = ["real-number semantics", "distributions are nonnegative with sum one: a prior is its own clamp to [0, 1]", "which of several equally probable labels is answered is not judged"]


@rule("C24", "Value-graph analysis of the learner, the densities and the classifier: log density, class scores, their argmax, priors and per-class parameters equal their closed forms; "
      "the column moments they are made of are judged by C15.", ASM, floor=20)
def c24(ctx):
    b = ctx.fn("log_probability", "Gaussian")
    n = mark_num(mk("sym", "columns"))
    if b:
        r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == "index" and "Feature" in str(key))
        m, v, fs = F(S, "means"), F(S, "vars"), F(A1, "features")
        L = {length(m): n, length(v): n, length(fs): n}
        x = lambda j: mark_num(mk("call", "index", at(fs, j), A2))
        pi2 = ln(mul(num(2), mark_num(mk("sym", "const:consts::PI"))))
        want = mul(num(Fraction(-1, 2)), add(mul(n, pi2), SUM(n, lambda j: add(div(power(sub(x(j), at(m, j)), 2), at(v, j)), ln(at(v, j))))))
        got = sh(r.ret)
        ctx.same("log-density", got, want, b, "the log density is that of independent normal columns", L)
    b = ctx.fn("probability", module="probability")
    if b:
        r = ctx.run(b, opaque=["log_probability"])
        e = r.calls("log_probability")
        if e:
            ctx.same("density", sh(r.ret), exp(sh(e[0].res)), b, "the density is the exponential of the log density")
            ctx.same("density.args", mk("tuple", *e[0].args), mk("tuple", S, A1, A2), b, "of the same row")
        else:
            ctx.undecided("density", b, "not computed from the log density")
    cond = F(S, "conditionals")
    lp = lambda d: mk("call", "log_probability", d, A1, A2)
    score = lambda i: mul(mark_num(proj(at(cond, i), "1")), exp(sub(mark_num(lp(proj(at(cond, i), "2"))), mark_num(lp(F(S, "density"))))))
    num_lab = lambda i: mark_num(proj(at(cond, i), "0"))
    b = ctx.fn("probabilities", "NBayesClassifier")
    if b:
        r = ctx.run(b, opaque=["log_probability"])
        ctx.same("scores", sh(r.ret), SEQ(length(cond), lambda i: mk("tuple", num_lab(i), score(i))), b, "a class scores its prior times the density of the row under it, relative to the density of all rows")
    b = ctx.fn("confidence", "NBayesClassifier")
    if b:
        r = ctx.run(b, opaque=["log_probability"])
        x = split_argbest(sh(r.ret))
        if x is None:
            odd = lopsided(sh(r.ret))
            if odd is not None:
                ctx.ob("answer.order", False, b, f"labels are compared by different things: {clip(odd, 300)} > 0")
            else:
                ctx.undecided("answer", b, f"answer {clip(r.ret, 200)}")
        else:
            j, d, g, k, v, mode = x
            ctx.ob("answer.direction", mode == "max", b, f"the most probable label is answered, the code takes the {mode}")
            ctx.same("answer.range", mk("tuple", d, g), mk("tuple", dom(ZERO, length(cond)), TRUE), b, "every label competes")
            logs = add(ln(mark_num(proj(at(cond, j), "1"))), mark_num(lp(proj(at(cond, j), "2"))))
            ctx.same("answer.score", k, [score(j), mul(mark_num(proj(at(cond, j), "1")), exp(mark_num(lp(proj(at(cond, j), "2"))))), logs, sub(logs, mark_num(lp(F(S, "density"))))], b, "labels compete by prior times density")
            ctx.same("answer.label", v, num_lab(j), b, "the label of the best class is answered")
    b = ctx.fn("produce", "GaussianNB")
    if b:
        mv, mvl = "weighted_mean_and_variance", "weighted_mean_and_variance_for_label"
        r = ctx.run(b, opaque=[mv, mvl, "unique_target"])
        un = {e.res for e in r.calls("unique_target")}
        h = sh(r.ret)
        cs = proj(h, "conditionals")
        if len(un) != 1 or cs.op != "seq":
            ctx.undecided("model", b, f"classes {clip(cs, 200)}")
        else:
            u = sh(un.pop())
            j, (d, g, el) = open_(cs)
            ctx.same("model.classes", mk("tuple", d, g), mk("tuple", dom(ZERO, length(u)), TRUE), b, "one class per label of the sample")
            y = mark_num(at(u, j))
            ctx.same("model.label", proj(el, "0"), y, b, "the class answers its label")
            tg = F(A1, "target")
            W = SUM(length(A2), lambda i: mul(at(A2, i), eqb(at(tg, i), y)))
            ctx.same("model.prior", proj(el, "1"), [clamp(W, ZERO, ONE), W, min_(W, ONE)], b, "the prior of a label is the weight of its rows", {length(tg): length(A2)})
            e = [x for x in r.calls(mvl)]
            moments(ctx, "model.class", b, proj(el, "2"), e, [A1, y, A2], "the class has the weighted means and variances of its own rows")
            moments(ctx, "model.all", b, proj(h, "density"), r.calls(mv), [A1, A2], "the common density has the means and variances of all rows")
            us = [x for x in r.calls("unique_target")]
            ctx.same("model.labels", us[0].args[0], A1, b, "labels of the training sample")
    # the moments of a sample are those of its columns
    for name, args in (("weighted_mean_and_variance", [A1]), ("weighted_mean", [A1]), ("weighted_mean_for_label", [A1, F(S, "target"), A2]), ("weighted_mean_and_variance_for_label", [A1, F(S, "target"), A2])):
        b = ctx.fn(name, "Sample")
        if not b:
            continue
        r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == name and "Feature" in str(key))
        e = [x for x in r.events if x.kind == "call" and str(x.key).split("::")[-1] == name]
        fs = F(S, "features")
        ret = sh(r.ret)
        if ret.op != "seq" or len({x.res for x in e}) < 1:
            ctx.undecided(f"Sample.{name}", b, f"columns {clip(r.ret, 200)}")
            continue
        j, (d, g, el) = open_(ret)
        ctx.same(f"Sample.{name}.range", mk("tuple", d, g), mk("tuple", dom(ZERO, length(fs)), TRUE), b, "one value per column")
        el2 = pair(el)
        if el2.op == "call" and el2.args[0] == name:
            ctx.same(f"Sample.{name}.args", mk("tuple", *el2.args[1:]), mk("tuple", at(fs, j), *[a for a in args]), b, "of that column, with the labels and weights given")
        else:
            ctx.undecided(f"Sample.{name}.args", b, f"value {clip(el, 200)}")


NAMES = ("log_probability", "index", "weighted_mean_and_variance", "weighted_mean_and_variance_for_label", "weighted_mean", "weighted_mean_for_label", "unique_target")


def sh(t):
    """calls under their short names"""
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str):
            n = x.args[0].split("::")[-1]
            if n in NAMES and n != x.args[0]:
                y = mk("call", n, *x.args[1:])
                if n in ("log_probability", "index"):
                    mark_num(y)
                return y
        return x
    return rewrite(t, f)


def pair(t):
    """(x.0, x.1) is x"""
    if t.op == "tuple" and len(t.args) == 2 and all(x.op == "field" and x.args[1] == str(i) and x.args[0] is t.args[0].args[0] for i, x in enumerate(t.args)):
        return t.args[0].args[0]
    return t


def lopsided(t):
    """a pairwise choice that depends on which of the two comes first: the difference compared does not change its sign when the two are exchanged"""
    for c in subterms(t):
        if c.op == "call" and c.args[0] == "reduce":
            i, (two_,) = open_(c.args[2])
            if two_.op != "lam":
                continue
            j, (r,) = open_(two_)
            k = fresh()
            for q in subterms(r):
                if q.op == "pos" and mentions(q, i) and mentions(q, j):
                    p = q.args[0]
                    sw = subst(subst(subst(p, {i: k}), {j: i}), {k: j})
                    if not equal(sw, neg(p)) and not unresolved(p):
                        return p
    return None


def moments(ctx, key, b, dens, ev, args, what):
    """a density whose means and variances are the components of one list of moments"""
    m, v = proj(dens, "means"), proj(dens, "vars")
    if not ev or m.op != "seq" or v.op != "seq":
        return ctx.undecided(key, b, f"parameters {clip(dens, 200)}")
    for s_, k, w in ((m, "0", "means"), (v, "1", "vars")):
        j, (d, g, el) = open_(s_)
        if not (el.op == "field" and el.args[0].op == "index" or True):
            continue
        src = [x for x in subterms(el) if x.op == "call" and str(x.args[0]).startswith("weighted_mean_and_variance")]
        if len(set(src)) != 1:
            ctx.undecided(f"{key}.{w}", b, f"parameters {clip(el, 200)}")
            continue
        src = src[0]
        name = ev[0].key.split("::")[-1]
        if not ctx.ob(f"{key}.{w}.kind", src.args[0] == name, b, f"{what}: computed by {src.args[0]}"):
            continue
        ctx.same(f"{key}.{w}.range", mk("tuple", d, g), mk("tuple", dom(ZERO, length(src)), TRUE), b, what)
        ctx.same(f"{key}.{w}", el, proj(at(src, j), k), b, what)
        ctx.same(f"{key}.{w}.args", mk("tuple", *src.args[1:]), mk("tuple", *args), b, what)
