"""C13: split criteria and leaf values of decision trees; C14: gain and leaf values of regression trees."""
from registry import rule
from _bspec import *

ASM = ["real-number semantics of f64 arithmetic (rounding of accumulated bin weights is not judged)",
       "the weights collected in a bin are positive", "order of equal candidates of max_by/min_by is not judged"]
MIN = sym("const:f64::MIN")
CR = "decision_tree::criterion"
DA = "decision_tree::decision_tree_algorithm"
RA = "regression_tree::regression_tree_algorithm"


def keys_(m):
    return mk("call", "map_keys", m)


def vals(m):
    return mk("call", "map_values", m)


def msum(m, f=None):
    """Σ over the entries of a map"""
    return SUM(length(m), lambda j: (f or (lambda k, v: v))(at(keys_(m), j), mark_num(at(vals(m), j))))


def tally(n, f, g=TRUE):
    j = fresh()
    return bind("tally", j, dom(ZERO, n), g, f(j))


def binmap(P, k):
    return proj(at(P, k), "1")


def moved(P, k, c):
    """the entries of bin k, each with weight c·w"""
    m = binmap(P, k)
    return tally(length(m), lambda j: mk("kv", at(keys_(m), j), mul(num(c), mark_num(at(vals(m), j)))))


def everything(P):
    return mk("tallyon", mk("mapempty"), tally(length(P), lambda k: moved(P, k, 1)), "+")


def left(P, i):
    return mk("tallyon", mk("tallyon", mk("mapempty"), tally(i, lambda k: moved(P, k, 1)), "+"), moved(P, i, 1), "+")


def right(P, i):
    return mk("tallyon", mk("tallyon", everything(P), tally(i, lambda k: moved(P, k, -1)), "~"), moved(P, i, -1), "~")


def nodrop(t):
    """dropping an entry whose weight has been used up does not change a sum over weights"""
    def f(x):
        if x.op != "kvd":
            return x
        k, dv, lam = x.args
        cur = mark_num(fresh())
        c = open_(lam, cur)[1][0]
        if c is not_(pos(add(cur, dv))):
            return mk("kv", k, dv)
        kept = not_(c)
        if kept.op == "pos" and not contains(c, lambda y: y is cur):
            s = add(kept.args[0], dv)      # another total that has just received the same weight
            if s.op == "mapget" and s.args[0].op == "tallyon" and s.args[0].args[2] == "+":
                return mk("kv", k, dv)
        return x
    return rewrite(t, f)


def nonempty(m):
    return pos(length(m), True)


def entropy(m, guard):
    t = msum(m)
    j = fresh()
    r = div(mark_num(at(vals(m), j)), t)
    s = sum_(j, dom(ZERO, length(m)), ite(le(r, ZERO), ZERO, neg(mul(r, ln(r)))))
    return mul(pos(t), nonempty(m) if guard else ONE, s)


def gini(m, guard):
    t = msum(m)
    s = msum(m, lambda k, v: power(div(v, t), 2))
    return mul(pos(t), nonempty(m) if guard else ONE, max_(ZERO, sub(ONE, s)))


def twoing(labels, l, r):
    pl, pr = msum(l), msum(r)
    j = fresh()
    none = mk("variant", "Option", "None", ())

    def share(m, p):
        o = mk("mapget", m, at(keys_(labels), j), NONE)
        return div(ite(mk("is", o, "Some"), mark_num(mk("proj", o, "Some", "0")), ZERO), p)
    s = sum_(j, dom(ZERO, length(labels)), abs_(sub(share(l, pl), share(r, pr))))
    v = div(mul(power(s, 2), pl, pr), power(mul(num(2), add(pl, pr)), 2))
    return v


def end_of(P, i):
    return mark_num(proj(proj(proj(at(P, i), "0"), "0"), "end"))


def result(ctx, key, b, r, best, want, env=None, strip=True):
    """the loop's final values are what the function returns"""
    if best is None:
        if r.ret.op == "tuple" and any(peel1(x) is MIN for x in r.ret.args):
            ctx.ob(key + ".threshold", False, b, f"the returned threshold never comes from a bin")
        return
    _, l, asg = best
    out = {n: l["out"].get(k) for n, k in asg.items()}
    got = r.ret
    ctx.ob(key + ".result", want(got, out), b, f"the best score and its threshold are returned: {clip(got, 300)}")


def peel1(t):
    """payload of a newtype / conversion"""
    while True:
        if t.op == "variant" and len(t.args[2]) == 1:
            t = t.args[2][0][1]
        elif t.op == "struct" and len(t.args[1]) == 1:
            t = t.args[1][0][1]
        elif t.op == "call" and str(t.args[0]).split("::")[-1] in ("into", "from"):
            t = t.args[1]
        else:
            return t


def two(score, thr):
    """the returned pair is (threshold, score) or (score, threshold)"""
    def f(got, out):
        if got.op != "tuple" or len(got.args) != 2:
            return False
        a, b_ = (peel1(x) for x in got.args)
        x, y = (a, b_) if (score, thr) == (0, 1) else (b_, a)
        return equal(nodrop(x), nodrop(out["score"])) and equal(nodrop(y), nodrop(out["threshold"]))
    return f


def split_spec(ctx, name, start, score, better):
    b = ctx.fn(name, module=CR, private=True)
    if not b:
        return
    r = ctx.run(b)
    P = Y[0]
    pm = min_ if better == "min" else max_

    def nxt(s):
        return lambda mu, i: [pm(mu["score"], x) for x in s(i)]

    def thr(mu, i):
        out = []
        for x in score(i):
            c = lt(x, mu["score"]) if better == "min" else lt(mu["score"], x)
            out.append(ite(c, end_of(P, i), mu["threshold"]))
        return out
    for l in r.loops:
        for k in l.get("open", []):
            l["post"][k] = nodrop(subst(l["post"][k], l["closed"]) if l["closed"] else l["post"][k])
            l["pre"][k] = nodrop(l["pre"][k])
    best = loop_spec(ctx, name, b, r, dom(ZERO, length(P)),
                     {"score": (start, nxt(score)), "threshold": (MIN, thr)}, f"{name}: scan over the bins, keeping the end of the bin with the strictly {'smallest' if better == 'min' else 'largest'} score")
    result(ctx, name, b, r, best, two(1, 0))


Y = [sym(f"a{i}") for i in range(8)]
S = sym("self")


def split_argbest(t):
    """component of the value an argmax/argmin delivers: (domain, guard, key, value, direction)"""
    t = peel1(t)
    k = None
    if t.op == "at":
        # the element at the best position
        x = split_argbest(t.args[1])
        return x and (*x[:4], at(t.args[0], x[4]), x[5])
    if t.op == "field":
        k, t = t.args[1], t.args[0]
    if t.op == "proj" and t.args[1] == "Some":
        t = t.args[0]
    elif t.op == "field" or t.op != "argbest":
        return None
    if t.op != "argbest":
        return None
    j, (d, g, key, v, mode) = open_(t)
    if k is not None:
        if v.op != "tuple":
            return None
        v = v.args[int(k)]
    return j, d, g, key, v, mode[0]


def best_of(ctx, key, b, got, feats, direction, score, val, what):
    x = split_argbest(got)
    if x is None:
        return ctx.undecided(key, b, f"{what}: {clip(got, 200)}")
    j, d, g, k, v, mode = x
    ctx.ob(key + ".direction", mode == direction, b, f"{what}: {direction} over the features, the code takes {mode}")
    ctx.same(key + ".range", mk("tuple", d, g), mk("tuple", dom(ZERO, length(feats)), TRUE), b, what + ": every feature competes")
    ctx.same(key + ".score", peel1(k), score(j), b, what + ": features compete by the score of their own bins")
    ctx.same(key + ".value", v, val(j), b, what)


@rule("C13", "Recurrence analysis of the bin scans: for each criterion the typed IR of the scan is summarised as a loop with two open accumulators (best score, best threshold) whose one-step values must equal the criterion's "
      "definition on the per-label weights left and right of the bin (maps summarised as tallies); the choice between features and the leaf values are compared as value graphs.", ASM, floor=30)
def c13(ctx):
    P = Y[0]
    tot = SUM(length(P), lambda k: msum(binmap(P, k)))

    def mix(imp):
        def f(i):
            lp = div(msum(left(P, i)), tot)
            out = []
            for g in (True, False):
                for rp in (max_(sub(ONE, lp), ZERO), sub(ONE, lp), div(msum(right(P, i)), tot)):
                    out.append(add(mul(lp, imp(left(P, i), g)), mul(rp, imp(right(P, i), g))))
            return out
        return f
    split_spec(ctx, "split_by_entropy", [entropy(everything(P), g) for g in (True, False)], mix(entropy), "min")
    split_spec(ctx, "split_by_gini", [gini(everything(P), g) for g in (True, False)], mix(gini), "min")
    # edge
    ye = lambda k: msum(binmap(P, k), lambda y, v: mul(mark_num(y), v))
    E = SUM(length(P), ye)
    split_spec(ctx, "split_by_edge", abs_(E), lambda i: [abs_(sub(E, mul(num(2), SUM(i, ye)), mul(num(2), ye(i)))) if False else abs_(sub(sub(E, mul(num(2), SUM(i, ye))), mul(num(2), ye(i))))], "max")
    labels = mk("tallyon", mk("mapempty"), tally(length(P), lambda k: tally(length(binmap(P, k)), lambda j: mk("kv", at(keys_(binmap(P, k)), j), mk("tuple")))), "=")

    def tw(i):
        l, r_ = left(P, i), right(P, i)
        v = twoing(labels, l, r_)
        pl, pr = msum(l), msum(r_)
        return [ite(or_(zero(pl), zero(pr)), ZERO, v), v]
    split_spec(ctx, "split_by_twoing", ZERO, tw, "max")
    c13_best(ctx)


def fname(ctx, b):
    x = ctx.prog.find("name", "Feature")
    return x[0]


def c13_best(ctx):
    b = ctx.fn("best_split", "Criterion")
    if not b:
        return
    scans = {"Entropy": ("split_by_entropy", "min"), "Edge": ("split_by_edge", "max"), "Gini": ("split_by_gini", "min"), "Twoing": ("split_by_twoing", "max")}
    r = ctx.run(b, opaque=["pack", "name"] + [x for x, _ in scans.values()])
    packs, sample, dist, idx = Y[1], Y[2], Y[3], Y[4]
    feats = F(sample, "features")
    pk, nm = r.calls("pack"), r.calls("name")
    if not pk or not nm:
        return ctx.undecided("best_split", b, "the scores come from packed bins of named features")
    pname, nname = pk[0].res.args[0], nm[0].res.args[0]
    ret = r.ret
    if ret.op != "tuple" or len(ret.args) != 2:
        return ctx.undecided("best_split", b, "a pair of feature name and threshold is returned")
    for v, (scan, direction) in scans.items():
        m = {mk("is", S, o): (TRUE if o == v else FALSE) for o in scans}
        ev = r.calls(scan)
        if not ctx.ob(f"best_split.{v}", bool(ev), b, f"criterion {v} scores a feature by {scan}"):
            continue
        sname = ev[0].res.args[0]
        nme = lambda j: mk("call", nname, A(feats, j))

        def sc(j):
            bins = mk("proj", mk("mapget", packs, nme(j), NONE), "Some", "0")
            return mk("call", sname, mk("call", pname, bins, idx, A(feats, j), F(sample, "target"), dist))
        g0, g1 = (subst(x, m) for x in ret.args)
        if v == "Twoing":
            m2 = {mk("is", S, o): FALSE for o in scans if o != v}
            g0, g1 = (subst(x, m2) for x in (g0, g1))
        best_of(ctx, f"best_split.{v}.feature", b, g0, feats, direction, lambda j: mark_num(proj(proj(sc(j), "1"), "0")), nme, f"{v}: name of the best feature")
        best_of(ctx, f"best_split.{v}.threshold", b, g1, feats, direction, lambda j: mark_num(proj(proj(sc(j), "1"), "0")), lambda j: mark_num(proj(sc(j), "0")), f"{v}: threshold of the best feature")


def c13_leaf(ctx):
    b = ctx.fn("confidence_and_loss", module=DA, private=True)
    if not b:
        return
    r = ctx.run(b)
    s, d, idx = Y[0], Y[1], Y[2]
    T_ = mk("tallyon", mk("mapempty"), tally(length(idx), lambda j: mk("kv", mark_num(mk("trunc", A(F(s, "target"), A(idx, j)))), A(d, A(idx, j)))), "+")
    tot = SUM(length(idx), lambda j: A(d, A(idx, j)))
    ret = r.ret
    if ret.op != "tuple" or len(ret.args) != 2:
        return ctx.undecided("leaf", b, "a pair of confidence and loss is returned")
    cs = [x for x in subterms(ret) if x.op == "argbest"]
    if len(set(cs)) != 1:
        return ctx.undecided("leaf", b, "the label of the largest weight is taken")
    j, (dm, g, key, v, mode) = open_(cs[0])
    ctx.ob("leaf.label.direction", mode[0] == "max", b, f"the label with the largest weight decides, the code takes the {mode[0]}")
    ctx.same("leaf.label.range", mk("tuple", dm, g), mk("tuple", dom(ZERO, length(T_)), TRUE), b, "all labels of the node compete")
    ctx.same("leaf.label.key", key, mark_num(at(vals(T_), j)), b, "labels compete by their weight on the node")
    # the delivered entry
    p, lab = mark_num(fresh()), mark_num(fresh())
    best = mk("proj", cs[0], "Some", "0")

    def f(x):
        if x.op == "field" and x.args[0] is best and v.op == "tuple":
            c = v.args[int(x.args[1])]
            if equal(c, at(keys_(T_), j)):
                return lab
            if equal(c, at(vals(T_), j)):
                return p
        return x
    conf, loss = (peel1(rewrite(x, f)) for x in ret.args)
    clamp = lambda x: min_(ONE, max_(num(-1), x))
    full = clamp(mul(lab, sub(div(mul(num(2), p), tot), ONE)))
    ctx.same("leaf.confidence", conf, [ite(pos(tot), full, clamp(lab)), full], b, "confidence of a leaf = label·(2·p/total − 1) clamped to [−1, 1]")
    ctx.same("leaf.loss", loss, [ite(pos(tot), sub(tot, p), ZERO), sub(tot, p)], b, "loss of a leaf = weight of the other labels")


def c14_leaf(ctx):
    b = ctx.fn("prediction_and_loss", module=RA, private=True)
    if b:
        r = ctx.run(b)
        idx, gr, he, l2 = Y[0], Y[1], Y[2], mark_num(Y[3])
        G = SUM(length(idx), lambda j: A(gr, A(idx, j)))
        H = SUM(length(idx), lambda j: A(he, A(idx, j)))
        if r.ret.op == "tuple" and len(r.ret.args) == 2:
            ctx.same("leaf.prediction", peel1(r.ret.args[0]), neg(div(G, add(H, l2))), b, "leaf prediction = −G/(H+λ)")
            ctx.same("leaf.loss", peel1(r.ret.args[1]), neg(div(power(G, 2), mul(num(2), add(H, l2)))), b, "leaf loss = −½·G²/(H+λ)")
        else:
            ctx.undecided("leaf", b, "a pair of prediction and loss is returned")


@rule("C14", "Recurrence analysis of the gain scan of regression trees (two open accumulators whose one-step values must equal the second-order gain), value-graph comparison of leaf weight and leaf loss, and of the choice between features.", ASM, floor=6)
def c14(ctx):
    P, lam = Y[0], X1
    b = ctx.fn("best_split_at", module=RA, private=True)
    if b:
        r = ctx.run(b)
        col = lambda c: lambda k: mark_num(proj(at(P, k), c))
        n = length(P)

        def score(i):
            GL = add(SUM(i, col("1")), col("1")(i))
            HL = add(SUM(i, col("2")), col("2")(i))
            GR, HR = sub(SUM(n, col("1")), GL), sub(SUM(n, col("2")), HL)
            return add(div(power(GL, 2), add(HL, lam)), div(power(GR, 2), add(HR, lam)))
        best = loop_spec(ctx, "gain", b, r, dom(ZERO, n), {
            "score": (MIN, lambda mu, i: max_(mu["score"], score(i))),
            "threshold": (MIN, lambda mu, i: ite(lt(mu["score"], score(i)), end_of(P, i), mu["threshold"])),
        }, "scan over the bins, keeping the end of the bin with the largest GL²/(HL+λ) + GR²/(HR+λ)")
        result(ctx, "gain", b, r, best, two(0, 1))
    c14_leaf(ctx)
    b = ctx.fn("best_split", module=RA, private=True)
    if b:
        r = ctx.run(b, opaque=["pack", "name", "best_split_at"])
        bins, s, gr, he, idx, l2 = Y[:6]
        pk, nm, ev = r.calls("pack"), r.calls("name"), r.calls("best_split_at")
        if not (pk and nm and ev) or r.ret.op != "tuple":
            return ctx.undecided("best_split", b, "features compete by the gain of their packed bins")
        feats = F(s, "features")
        nme = lambda j: mk("call", nm[0].res.args[0], A(feats, j))

        def sc(j):
            bb = mk("proj", mk("mapget", bins, nme(j), NONE), "Some", "0")
            return mk("call", ev[0].res.args[0], mk("call", pk[0].res.args[0], bb, idx, A(feats, j), gr, he), mark_num(l2))
        key = lambda j: mark_num(proj(proj(sc(j), "0"), "0"))
        best_of(ctx, "best_split.feature", b, r.ret.args[0], feats, "max", key, nme, "name of the feature with the largest gain")
        best_of(ctx, "best_split.threshold", b, r.ret.args[1], feats, "max", key, lambda j: proj(sc(j), "1"), "threshold of the feature with the largest gain")


X1 = mark_num(sym("a1"))
