"""Shared vocabulary of the booster rules."""
from rulelib import *

S = SELF
N = NF(S, "sample", "n_sample")
SAMPLE = F(S, "sample")
IT = mark_num(sym("a2"))


def lens(*fields):
    """lengths known to equal the sample size: the label column (established by the reader and
    by every Sample constructor, C16) and the named per-example vectors (established by
    preprocess, an obligation of the same rule, and kept by every update)"""
    d = {length(F(S, "sample", "target")): N}
    for f in fields:
        d[length(F(S, f))] = N
    # the subproblem is built by preprocess (an obligation of C07)
    for f in ("secondary", "qp_model", "lp_model"):
        d[mk("is", F(S, f), "Some")] = TRUE
    return d


def conf(h, i, sample=SAMPLE):
    return mark_num(mk("call", "Classifier::confidence", h, sample, i))


def yh(h, i, sample=SAMPLE):
    return mul(A(F(sample, "target"), i), conf(h, i, sample))


def edge(h, dist, n=N, sample=SAMPLE):
    return SUM(n, lambda i: mul(A(dist, i), yh(h, i, sample)))


def produced(r, ctx, key, body):
    """the unique weak-learner call of a round"""
    evs = r.calls("produce")
    seen = []
    for e in evs:
        if e.res not in seen:
            seen.append(e.res)
    if not ctx.ob(key + ".one-call", len(seen) == 1, body, f"a round must call the weak learner exactly once; {len(seen)} distinct calls found"):
        return None
    return evs[0]


def softmax(n, f):
    z = SUM(n, lambda i: exp(f(i)))
    return SEQ(n, lambda i: div(exp(f(i)), z))


def snoc(s, *xs):
    return concat(s, mk("list", *xs))


def bind_flow(r):
    """Continue/Break constructors as they occur in the analysed function"""
    adt = None
    for _, v in cases(r.ret):
        if v.op == "variant":
            adt = v.args[0]
    return (lambda x: variant(adt, "Break", x)), variant(adt, "Continue", mk("tuple"))


def capped_simplex(ctx):
    """entropy projection onto the capped simplex, from log weights (sorting procedure)"""
    b = ctx.fn("project_log_distribution_to_capped_simplex", module="common::utils", private=True)
    if not b:
        return
    r = ctx.run(b)
    nu, x = mark_num(sym("a0")), sym("a1")
    n = length(x)
    ub = power(nu, -1)
    K = "projection"
    # running ln Σ exp kept in a list: each entry is the one before plus one more weight
    for l in r.loops:
        ks = list(l["post"])
        if len(ks) != 1 or l["brk"] or l["rets"] or l["closed"] or not equal(l["pre"][ks[0]], mk("list")):
            continue
        m, p = l["mu"][ks[0]], l["post"][ks[0]]
        if p.op != "concat" or p.args[0] is not m or p.args[1].op != "list" or len(p.args[1].args) != 1:
            continue
        v = p.args[1].args[0]
        last = mark_num(at(m, sub(length(m), ONE)))
        if not contains_term(v, last):
            continue
        v = subst(v, {lt(ZERO, length(m)): ONE, lt(ZERO, length(m), True): ONE, eqb(length(m), ZERO): ZERO})
        el = [y for y in contains(v, lambda y: y.op == "at" and y.args[0] is x and contains_term(y, l["idx"]))]
        if unresolved(subst(v, {last: sym("_last")})) or not el:
            continue
        xs = mark_num(el[0])
        def either(t, u):
            return all(equal_cases(subst(t, {max_(xs, last): hi, min_(xs, last): lo}), u) for hi, lo in ((xs, last), (last, xs)))
        if not any(either(exp(v), add(exp(last), z)) or either(v, add(last, z)) for z in (exp(xs), xs)):
            ctx.ob(K + ".sums", False, b, "the entry of the running sums must be ln(e^previous + e^x), found " + show(v)[:400])
    ls = [l for l in r.loops if l["brk"] and l.get("out") and any(r.ret is o for o in l["out"].values())]
    if len(ls) != 1 or len(ls[0]["brk"]) != 1 or ls[0]["rets"] or ls[0]["while"]:
        return ctx.undecided(K, b, "one pass over the sorted weights that stops at the first uncapped one")
    l = ls[0]
    kp = next(k for k, o in l["out"].items() if o is r.ret)
    i, mu, post = l["idx"], l["mu"][kp], l["post"][kp]
    c, _, left = l["brk"][0]
    if post.op == "upd" and post.args[0] is mu and not unresolved(post.args[1]) and equal(post.args[1], i):
        return ctx.ob(K + ".order", False, b, "the weights are capped in the order they are given, not from the largest to the smallest")
    if post is mu:
        return ctx.ob(K + ".cap", False, b, "no weight is capped: a position passed by the search keeps its log weight")
    if post.op != "upd" or post.args[0] is not mu or post.args[1].op != "at" or post.args[1].args[0].op != "sorted":
        return ctx.undecided(K, b, "one element of the sorted order is capped per step")
    pi = post.args[1].args[0]
    P_ = lambda k: at(pi, k)
    X_ = lambda k: mark_num(at(x, P_(k)))
    key = None
    if pi.args[1].op == "lam":
        j, (kb,) = open_(pi.args[1])
        key = equal(kb, A(x, j)) or equal(kb, exp(A(x, j)))
        if equal(pi.args[0], SEQ(n, lambda k: k)) and not key:
            ctx.same(K + ".order-key", kb, [A(x, j), exp(A(x, j)), neg(A(x, j))], b, "positions are sorted by their log weight")
    srt = equal(pi.args[0], SEQ(n, lambda k: k)) and key
    if not srt:
        return ctx.undecided(K + ".order", b, "positions sorted by their log weight")
    ctx.ob(K + ".order", pi.args[2] == "desc" or getattr(pi.args[2], "op", None) == "desc" or "desc" in str(pi.args[2]), b, "the log weights are visited from the largest to the smallest")
    ctx.same(K + ".pre", l["pre"][kp], x, b, "the pass starts from the log weights")
    ctx.same(K + ".range", l["dom"], dom(ZERO, n), b, "all positions may be capped")
    ctx.same(K + ".step-index", post.args[1], P_(i), b, "the i-th largest is capped in step i")
    ctx.same(K + ".cap", post.args[2], ub, b, "a capped weight is 1/ν")

    def reads(t, m, ks):
        mp = {at(m, P_(k)): X_(k) for k in ks}
        return subst(t, mp)
    sums = [SUM(sub(n, i), lambda k: exp(X_(sub(sub(n, ONE), k)))), SUM(sub(n, i), lambda k: exp(X_(add(i, k)))),
            sub(SUM(n, lambda k: exp(X_(k))), SUM(i, lambda k: exp(X_(k))))]
    rest = sub(ONE, mul(ub, i))
    for q in sums:
        if contains_term(c, q) or contains_term(left[kp], q):
            Sx = q
            break
    else:
        Sx = sums[0]
    c = reads(c, mu, [i])
    E = sub(add(ln(rest), X_(i), ln(nu)), ln(Sx))
    w = lambda k: div(mul(exp(X_(k)), rest), Sx)
    ctx.same(K + ".stop", c, [le(E, ZERO), lt(E, ZERO), le(w(i), ub), lt(w(i), ub), le(mul(w(i), nu), ONE), lt(mul(w(i), nu), ONE)], b,
             "capping stops at the first weight whose share of the remaining mass, (1−i/ν)·e^x/Σ_rest, does not exceed 1/ν")
    fin = left[kp]
    if fin is mu or fin.op == "upd" and fin.args[0] is mu:
        return ctx.ob(K + ".rest", False, b, "the weights behind the first uncapped one keep their logarithms")
    if fin.op != "loopout" or fin.args[0].op != "loop" or len(fin.args[0].args) < 1:
        return ctx.undecided(K + ".rest", b, "the remaining weights are filled in sorted order")
    j, (d, recs) = open_(fin.args[0])
    recs = recs if isinstance(recs, tuple) else (recs,)
    if len(recs) != 1 or recs[0].op != "rec":
        return ctx.undecided(K + ".rest", b, "the remaining weights are filled in sorted order")
    p0, p1 = recs[0].args
    mv = mk("muvar", ZERO)
    if p1.op != "upd" or p1.args[0] is not mv:
        return ctx.undecided(K + ".rest", b, "the remaining weights are filled in sorted order")
    start = ZERO
    if p0.op == "upd" and p0.args[0] is mu:
        ctx.same(K + ".rest.first-index", p0.args[1], P_(i), b, "the first uncapped weight is the i-th largest")
        ctx.same(K + ".rest.first", reads(p0.args[2], mu, [i]), w(i), b, "an uncapped weight is its share (1−i/ν)·e^x/Σ_rest of the remaining mass")
        start = ONE
    elif p0 is not mu:
        return ctx.undecided(K + ".rest", b, "the remaining weights are filled in sorted order")
    k = add(i, start, j)
    ctx.same(K + ".rest.range", d, [dom(ZERO, sub(sub(n, i), start))], b, "every remaining weight is set")
    ctx.same(K + ".rest.index", p1.args[1], P_(k), b, "the remaining weights are those of the later positions")
    ctx.same(K + ".rest.value", reads(reads(p1.args[2], mv, [k]), mu, [i, k]), w(k), b, "an uncapped weight is its share (1−i/ν)·e^x/Σ_rest of the remaining mass")
