"""C31: graph separation boosting separates the labels and aggregates by lookup."""
from registry import rule
from _bspec import *
from rulelib import unresolved
from interp import upd

H, SM_, NE, ED = F(S, "hypotheses"), F(S, "sample"), NF(S, "n_edges"), F(S, "edges")
ASM = ["predictions of classifiers are +1 or -1", "sets hold an element at most once"]


def pred(h, s, i):
    return mark_num(mk("call", "predict", h, s, i))


def norm_pred(t):
    """predict_all(h, s)[i] is predict(h, s, i)"""
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str):
            n = x.args[0].split("::")[-1]
            if n in ("predict", "predict_all", "produce") and n != x.args[0]:
                x = mk("call", n, *x.args[1:])
                if n == "predict":
                    mark_num(x)
        if x.op == "at" and x.args[0].op == "call" and x.args[0].args[0] == "predict_all":
            return pred(x.args[0].args[1], x.args[0].args[2], x.args[1])
        return x
    return rewrite(t, f)


def put(m, k):
    return mk("mapset", m, k, mk("tuple"))


def drop(m, k):
    return mk("mapdel", m, k)


def pairwise(ctx, key, b, r, differ, op, what, pre, n):
    """the loops changing the edges visit every unordered pair of rows once and treat exactly the pairs for which
    differ(i, j) holds, at both ends"""
    def touches(l):
        return [k for k in l["mu"] if k[1] and k[1][-1] == ("f", "edges")]
    ls = [l for l in r.loops if touches(l)]
    outer = ls
    inner = [l for l in ls if any(l["pre"][touches(l)[0]] is o["mu"][touches(o)[0]] for o in outer)]
    outer = [o for o in outer if any(l["pre"][touches(l)[0]] is o["mu"][touches(o)[0]] for l in inner)]
    if not outer or not inner:
        # a closed form: the set of every row
        got = r.out() if False else r.field("edges")
        more = subst(norm_pred(got), {eqb(NE, ZERO): FALSE})
        if more.op == "seq":
            i, (d, g, x) = open_(more)
            sets = None
            if x.op == "call" and x.args[0] == "collect_HashSet" and x.args[1].op == "seq" and equal(pre, SEQ(n, lambda i: mk("mapempty"))):
                j, (d2, g2, y) = open_(x.args[1])
                sets = (d2, g2, y, j)
            elif x.op == "call" and x.args[0] == "setfilter" and equal(x.args[1], at(pre, i)):
                j, (g2,) = open_(x.args[2])
                sets = (None, not_(g2), j, j)
            if sets and g is TRUE and not unresolved(sets[1]):
                lens = [dom(ZERO, n), dom(ZERO, length(F(SM_, "target"))), dom(ZERO, length(pre))]
                ctx.same(key + ".rows", d, lens, b, f"{what}: every row is visited")
                if sets[0] is not None:
                    ctx.same(key + ".pairs", sets[0], lens, b, f"{what}: every other row is visited")
                ctx.same(key + ".element", sets[2], sets[3], b, f"{what}: the neighbour itself")
                return ctx.same(key + ".step", sets[1], differ(i, sets[3]), b, what)
        if unresolved(got) or got.op not in ("seq", "field"):
            return ctx.undecided(key, b, f"edges become {clip(got, 200)}")
        if equal(got, pre):
            return ctx.ob(key, False, b, f"{what}: the edges do not change")
        return ctx.undecided(key, b, f"edges become {clip(got, 200)}")
    o, l = outer[-1], inner[-1]
    ko, kl = touches(o)[0], touches(l)[0]
    i, k = o["idx"], l["idx"]
    ctx.same(key + ".before", o["pre"][ko], pre, b, f"{what}: beginning with the edges there are")
    ctx.same(key + ".rows", o["dom"], [dom(ZERO, n), dom(ZERO, max_(sub(n, ONE), ZERO)), dom(ZERO, sub(n, ONE))], b, f"{what}: every row is visited")
    ctx.ob(key + ".exits", not o["brk"] and not o["rets"] and not l["brk"] and not l["rets"], b, f"{what}: no pair is left out")
    mu = l["mu"][kl]
    post = norm_pred(l["post"][kl])
    mu2 = norm_pred(mu)
    d = l["dom"]
    later, before, full = dom(ZERO, sub(sub(n, i), ONE)), dom(ZERO, i), dom(ZERO, n)
    if equal(d, later):
        j = add(i, ONE, k)
    elif equal(d, before) or equal(d, full):
        j = k
    else:
        return ctx.same(key + ".pairs", d, later, b, f"{what}: every other row is visited")
    c = differ(i, j)
    both = []
    for a, z in ((i, j), (j, i)):
        u = upd(mu2, a, op(at(mu2, a), z))
        both.append(upd(u, z, op(at(u, z), a)))
        both.append(upd(upd(mu2, a, op(at(mu2, a), z)), z, op(at(mu2, z), a)))
    one = [upd(mu2, i, op(at(mu2, i), j)), upd(mu2, j, op(at(mu2, j), i))]
    wants = [ite(c, w, mu2) for w in both + (one if equal(d, full) else [])]
    if unresolved(post) - {mu, mu2} - unresolved(mu2):
        if not any(equal(post, w) for w in wants):
            return ctx.undecided(key + ".step", b, f"a pair changes the edges as {clip(post, 200)}")
    ctx.ob(key + ".step", any(equal(post, w) for w in wants), b, f"{what}, at both rows: the code changes the edges to {clip(post, 500)}")
    ctx.same(key + ".whole", o["post"][ko], l["out"][kl], b, f"{what}: nothing else changes the edges")


def degree(e, n=None):
    return SUM(length(e) if n is None else n, lambda i: length(mk("call", "map_keys", at(e, i))) if False else length(at(e, i)))


def sizes(t):
    """the number of keys of a set is its size"""
    def f(x):
        if x.op in ("len", "length") and x.args[0].op == "call" and x.args[0].args[0] in ("map_keys", "HashSet::iter"):
            return length(x.args[0].args[1])
        return x
    return rewrite(t, f)


open_conds = {}


def loosely(t):
    """the same choice with every condition the analysis does not resolve left open"""
    if t.op != "ite":
        return t
    c = t.args[0]
    if unresolved(c):
        c = open_conds.setdefault(c, mk("call", "open", sym(f"open{len(open_conds)}")))
    return ite(c, loosely(t.args[1]), loosely(t.args[2]))


@rule("C31", "Value-graph analysis of the booster and of its aggregate: construction and pruning of the edge sets as one-step recurrences over pairs, distribution, stopping and counting as value graphs, "
      "the aggregate's table and lookup in closed form.", ASM, floor=20)
def c31(ctx):
    aggregate(ctx)
    lazy = lambda key, f: str(key).split("::")[-1] in ("is_valid_binary_instance", "predict_all", "produce", "predict")
    n = NF(SM_, "n_sample")
    tg = F(SM_, "target")
    b = ctx.fn("preprocess", "GraphSepBoost")
    if b:
        r = ctx.run(b, opaque=lazy)
        ed = r.field("edges")
        empty = SEQ(n, lambda i: mk("mapempty"))
        pairwise(ctx, "start.edges", b, r, lambda i, j: not_(eqb(at(tg, i), at(tg, j))), put, "rows with different labels are joined", empty, n)
        ctx.same("start.count", sizes(r.field("n_edges")), degree(sizes(ed)), b, "the edges are counted")
        ctx.same("start.hypotheses", length(r.field("hypotheses")), ZERO, b, "a run starts without hypotheses")
    b = ctx.fn("boost", "GraphSepBoost")
    if b:
        r = ctx.run(b, opaque=lazy)
        brk, cont = bind_flow(r)
        ps = {e.res: e for e in r.calls("produce")}
        if len(ps) != 1:
            ctx.ob("round.hypothesis", False, b, f"one hypothesis is asked for in a round, the code asks {len(ps)} times") if not ps else ctx.undecided("round", b, "several hypotheses")
            return
        e = list(ps.values())[0]
        none = eqb(NE, ZERO)
        ctx.same("round.sample", e.args[1], SM_, b, "the weak learner gets the sample")
        ctx.same("round.distribution", sizes(e.args[2]), SEQ(length(ED), lambda i: div(length(at(ED, i)), NE)), b, "a row weighs its share of the edges")
        h = e.res
        after = r.field("edges")
        more = {none: FALSE, not_(none): TRUE}
        cut = subst(after, more)
        pairwise(ctx, "round.edges", b, r, lambda i, j: not_(eqb(pred(norm_pred(h), SM_, i), pred(norm_pred(h), SM_, j))), drop, "edges between rows predicted differently are removed", ED, n)
        cnt = degree(sizes(cut), length(ED))
        kept = loosely(subst(r.field("hypotheses"), more)) if equal(subst(r.field("hypotheses"), {none: TRUE, not_(none): FALSE}), H) else r.field("hypotheses")
        if kept is r.field("hypotheses") or unresolved(kept):
            kept = r.field("hypotheses")
        else:
            kept = ite(none, H, kept)
        ctx.same("round.hypotheses", kept, ite(none, H, snoc(H, h)), b, "the hypothesis is kept, in order")
        got = sizes(r.field("n_edges"))
        alts = [degree(sizes(cut)), cnt]
        ctx.same("round.count", got, [w for a in alts for w in (ite(none, NE, a), ite(or_(none, eqb(NE, a)), NE, a))], b, "the remaining edges are counted", {length(cut): length(ED)})
        ctx.same("round.ends", sizes(r.ret), [ite(none, brk(IT), ite(eqb(NE, a), brk(add(IT, ONE)), cont)) for a in alts], b,
                 "the run ends when no edge is left, or none was removed", {length(cut): length(ED)})
    b = ctx.fn("postprocess", "GraphSepBoost")
    agg = None
    lazy2 = lambda key, f: str(key).split("::")[-1] == "predict"
    if b:
        r = ctx.run(b, opaque=lazy2)
        agg = norm_pred(r.ret)
        ctx.same("final.hypotheses", proj(agg, "hypotheses"), H, b, "the aggregate holds all hypotheses, in order")
        ctx.same("final.table", proj(agg, "prediction"), table(H, SM_), b, "and the table of the training sample")
    b = ctx.fn("current_hypothesis", "GraphSepBoost")
    if b:
        r = ctx.run(b, opaque=lazy2)
        got = norm_pred(r.ret)
        ctx.same("observed.hypotheses", proj(got, "hypotheses"), H, b, "the observed aggregate holds the hypotheses so far")
        ctx.same("observed.table", proj(got, "prediction"), table(H, SM_), b, "and their table")


def plus(h, s, i):
    p = pred(h, s, i)
    return [pos(p, True), eqb(p, ONE), pos(p)]


def table(h, s, k=0):
    i = fresh()
    tg = F(s, "target")
    return [bind("seq", i, dom(ZERO, length(tg)), pos(at(tg, i)), SEQ(length(h), lambda t: plus(at(h, t), s, i)[q])) for q in range(3)] + \
           [bind("seq", i, dom(ZERO, length(tg)), eqb(at(tg, i), ONE), SEQ(length(h), lambda t: plus(at(h, t), s, i)[q])) for q in range(3)]


def own_place(ctx, key, b, t):
    """every hypothesis has its own place in a row: an index wrapped at a fixed number shares places"""
    for x in contains(t, lambda x: x.op == "upd" and x.args[0].op == "muvar" and x.args[1].op == "rem"
                      and is_num(x.args[1].args[1]) and x.args[1].args[0].op in ("idx", "bv")):
        ctx.ob(key + ".places", False, b, f"the prediction of hypothesis i is recorded at place {clip(x.args[1], 80)}: different hypotheses share a place")


def aggregate(ctx):
    lazy = lambda key, f: str(key).split("::")[-1] == "predict"
    for fn in ("new", "from_slice"):
        b = ctx.fn(fn, "NaiveAggregation")
        if not b:
            continue
        r = ctx.run(b, opaque=lazy)
        t = norm_pred(r.ret)
        own_place(ctx, fn, b, t)
        hs, sm = sym("a0"), sym("a1")
        ctx.same(fn + ".hypotheses", proj(t, "hypotheses"), hs, b, "the hypotheses are kept in order")
        ctx.same(fn + ".table", proj(t, "prediction"), table(hs, sm), b, "one row of predictions per positive example")
    b = ctx.fn("confidence", "NaiveAggregation")
    if b:
        r = ctx.run(b, opaque=lazy)
        own_place(ctx, "lookup", b, r.ret)
        P, Q = F(S, "prediction"), F(S, "hypotheses")
        wants = []
        for q in range(3):
            row = SEQ(length(Q), lambda t: plus(at(Q, t), sym("a1"), sym("a2"))[q])
            for sw in (0, 1):
                i = fresh()
                two_ = (row, at(P, i)) if sw else (at(P, i), row)
                wants.append(sub(mul(num(2), bind("any", i, dom(ZERO, length(P)), mk("bool", "eq", *two_))), ONE))
        ctx.same("lookup", norm_pred(r.ret), wants, b, "the answer is +1 exactly when a positive example got the same predictions, else -1")
