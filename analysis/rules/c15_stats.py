"""C15: per-feature statistics do not depend on dense or sparse storage."""
from registry import rule
from _bspec import *
from fractions import Fraction

W, Y0, T, WL = sym("a1"), mark_num(sym("a1")), sym("a2"), sym("a3")
TINY = num(Fraction("1e-100"))


def col(kind):
    """self as one of the two storage forms: (fields, entries, index and value of entry k)"""
    smp = F(S, "sample")
    n = length(smp)
    if kind == "Dense":
        return n, (lambda k: k), (lambda k: A(smp, k))
    return n, (lambda k: mark_num(proj(at(smp, k), "0"))), (lambda k: mark_num(proj(at(smp, k), "1")))


def total(y, t, w, lo, hi):
    """weight of the rows of one label within a range of rows"""
    i = fresh()
    return sum_(i, dom(ZERO, sub(hi, lo)), mul(A(w, add(i, lo)), eqb(y, A(t, add(i, lo)))))


@rule("C15", "Value-graph comparison of every per-column statistic (weighted mean and variance, with and without a label, number of distinct values, read access, conversion to labels) with one "
      "definition over all rows of the column, instantiated for the dense and for the sparse storage (absent rows are zeros); the sparse gap accumulation is checked as a loop recurrence.",
      ["real-number semantics of f64 arithmetic", "the stored rows of a sparse column are strictly increasing (kept by the readers, C17)"], floor=24)
def c15(ctx):
    D, SP = "DenseFeature", "SparseFeature"
    same = ctx.same
    # ---------------------------------------------------------------- dense
    n, ix, vx = col("Dense")
    b = ctx.fn("weighted_mean", D, key="Dense.mean", private=True)
    if b:
        same("Dense.mean", ctx.run(b).ret, SUM(n, lambda k: mul(vx(k), A(W, k))), b, "weighted mean = Σ w_i x_i", {length(W): n})
    b = ctx.fn("weighted_variance", D, key="Dense.variance", private=True)
    if b:
        m, w = mark_num(sym("a1")), sym("a2")
        same("Dense.variance", ctx.run(b).ret, SUM(n, lambda k: mul(A(w, k), power(sub(vx(k), m), 2))), b, "weighted variance = Σ w_i (x_i − mean)²", {length(w): n})
    e = {length(T): n, length(WL): n}
    b = ctx.fn("weighted_mean_for_label", D, key="Dense.label-mean", private=True)
    if b:
        tot = total(Y0, T, WL, ZERO, n)
        den = ite(eqb(tot, ZERO), TINY, tot)
        same("Dense.label-mean", ctx.run(b).ret, div(SUM(n, lambda k: mul(mul(vx(k), A(WL, k)), eqb(Y0, A(T, k)))), den), b, "mean within one label, divided by the weight of the label", e)
    b = ctx.fn("weighted_variance_for_label", D, key="Dense.label-variance", private=True)
    if b:
        m, y, t, w = mark_num(sym("a1")), mark_num(sym("a2")), sym("a3"), sym("a4")
        tot = total(y, t, w, ZERO, n)
        den = ite(eqb(tot, ZERO), TINY, tot)
        same("Dense.label-variance", ctx.run(b).ret, div(SUM(n, lambda k: mul(mul(power(sub(vx(k), m), 2), A(w, k)), eqb(y, A(t, k)))), den), b,
             "variance within one label, divided by the weight of the label", {length(t): n, length(w): n})
    # --------------------------------------------------------------- sparse
    n, ix, vx = col("Sparse")
    b = ctx.fn("weighted_mean", SP, key="Sparse.mean", private=True)
    if b:
        same("Sparse.mean", ctx.run(b).ret, SUM(n, lambda k: mul(vx(k), A(W, ix(k)))), b, "weighted mean = Σ over the stored rows")
    b = ctx.fn("weighted_mean_for_label", SP, key="Sparse.label-mean", private=True)
    if b:
        tot = total(Y0, T, WL, ZERO, length(T))
        den = ite(eqb(tot, ZERO), TINY, tot)
        same("Sparse.label-mean", ctx.run(b).ret, div(SUM(n, lambda k: mul(mul(vx(k), A(WL, ix(k))), eqb(Y0, A(T, ix(k))))), den), b, "mean within one label over the stored rows",
             {length(WL): length(T)})
    b = ctx.fn("weighted_variance", SP, key="Sparse.variance", private=True)
    if b:
        m, w = mark_num(sym("a1")), sym("a2")
        gap(ctx, "Sparse.variance", b, n, ix, m, w, None, None, lambda k: mul(A(w, ix(k)), power(sub(vx(k), m), 2)))
    b = ctx.fn("weighted_variance_for_label", SP, key="Sparse.label-variance", private=True)
    if b:
        m, y, t, w = mark_num(sym("a1")), mark_num(sym("a2")), sym("a3"), sym("a4")
        gap(ctx, "Sparse.label-variance", b, n, ix, m, w, y, t, lambda k: mul(mul(A(w, ix(k)), power(sub(vx(k), m), 2)), eqb(y, A(t, ix(k)))))
    ns = NF(S, "n_sample")
    for name, want, what in (("has_zero", lt(n, ns, True), "a column has implicit zeros iff it stores fewer rows than the sample has"), ("zero_counts", sub(ns, n), "number of implicit zeros"),
                             ("len", n, "number of stored rows"), ("is_empty", not_(pos(n, True)), "no stored row")):
        b = ctx.fn(name, SP)
        if b:
            same("Sparse." + name, ctx.run(b).ret, want, b, what)
    for name, want in (("len", length(F(S, "sample"))), ("is_empty", not_(pos(length(F(S, "sample")), True)))):
        b = ctx.fn(name, D)
        if b:
            same("Dense." + name, ctx.run(b).ret, want, b, "number of rows")
    # ------------------------------------------------------- enum dispatchers
    for name, args in (("weighted_mean", 1), ("weighted_mean_for_label", 3)):
        dispatch(ctx, name)
    for name in ("weighted_mean_and_variance", "weighted_mean_and_variance_for_label"):
        b = ctx.fn(name, "Feature", key=f"Feature.{name}", private=True)
        if not b:
            continue
        opq = [x for x in ("weighted_mean", "weighted_variance", "weighted_mean_for_label", "weighted_variance_for_label")]
        r = ctx.run(b, opaque=lambda key, f: any(str(key).split("::")[-1] == x for x in opq))
        lab = name.endswith("label")
        mn = "weighted_mean" + ("_for_label" if lab else "")
        means = {e.res: e for e in r.calls(mn)}
        rest = [S] + ([sym("a1"), sym("a2"), sym("a3")] if lab else [sym("a1")])
        if len(means) != 1:
            ctx.undecided(f"Feature.{name}", b, "the mean is not computed by one call")
            continue
        me = list(means.values())[0]
        same(f"Feature.{name}.mean-args", mk("tuple", *me.args), mk("tuple", *rest), b, "the mean is taken of the same column with the same weights")
        same(f"Feature.{name}.mean", proj(r.ret, "0"), me.res, b, "first component is the mean")
        vs = r.calls("weighted_variance" + ("_for_label" if lab else ""))
        got = {str(e.key).split("::")[-2]: e for e in vs}
        for v in (D, SP):
            e = got.get(v)
            if ctx.ob(f"Feature.{name}.{v}", e is not None, b, f"the variance of a {v} is computed by its own variance"):
                vr = "Dense" if v == D else "Sparse"
                same(f"Feature.{name}.{v}.args", mk("tuple", *e.args), mk("tuple", vproj(S, vr, "0"), me.res, *rest[1:]), b, "variance around the mean just computed, same labels and weights")
        if len(got) == 2:
            same(f"Feature.{name}.variance", proj(r.ret, "1"), ite(is_variant(S, "Dense"), got[D].res, got[SP].res), b, "second component is the variance of the stored form")
    # ------------------------------------------------------------ read access
    i = mark_num(sym("a1"))
    b = ctx.fn("index", D, "Index")
    if b:
        same("Dense.index", ctx.run(b).ret, A(F(S, "sample"), i), b, "row i of a dense column")
    b = ctx.fn("index", "Feature", "Index")
    if b:
        r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == "index" and "SparseFeature" in str(key))
        ev = r.calls("index")
        if ctx.ob("Feature.index.sparse", len(ev) == 1 and equal(ev[0].args[0], vproj(S, "Sparse", "0")) and equal(ev[0].args[1], i), b, "a sparse column is read by its own access"):
            same("Feature.index", r.ret, ite(is_variant(S, "Dense"), A(F(vproj(S, "Dense", "0"), "sample"), i), ev[0].res), b, "row i of either storage form")
    b = ctx.fn("index", SP, "Index")
    if b:
        r = ctx.run(b)
        k = fresh()
        d = dom(ZERO, n)
        eq = eqb(ix(k), i)
        hit, at_ = bind("any", k, d, eq), bind("find", k, d, eq)
        p = ite(hit, at_, n)
        same("Sparse.index", r.ret, [ite(hit, vx(at_), ZERO), ite(lt(p, n, True), vx(p), ZERO)], b, "row i of a sparse column: the stored value, or zero when the row is not stored")
        for e in r.events:
            if e.kind == "bsearch":
                v, less = e.args[0], e.args[1]
                k2 = fresh()
                ctx.ob("Sparse.index.order", equal(v, F(S, "sample")) and scalar_eq(open_(less, k2)[1][0], lt(ix(k2), i, True)), b, "the binary search compares stored rows with the requested row")
    # -------------------------------------------------- labels from a column
    b = ctx.fn("into_target", D, key="Dense.into_target", private=True)
    if b:
        same("Dense.into_target", ctx.run(b).ret, F(S, "sample"), b, "labels are the stored values")
    b = ctx.fn("into_target", SP, key="Sparse.into_target", private=True)
    if b:
        r = ctx.run(b)
        ls = [l for l in r.loops if not l["while"] and len(l["mu"]) == 1]
        if len(ls) == 1 and r.ret.op == "loopout":
            l = ls[0]
            k = list(l["mu"])[0]
            i = l["idx"]
            same("Sparse.into_target.domain", l["dom"], dom(ZERO, n), b, "all stored rows are copied")
            same("Sparse.into_target.start", l["pre"][k], SEQ(ns, lambda j: ZERO), b, "absent rows are zero")
            same("Sparse.into_target.step", l["post"][k], mk("upd", l["mu"][k], ix(i), vx(i)), b, "each stored value goes to its row")
        elif not unresolved(r.ret) and not contains(r.ret, lambda x: x.op == "loopout" or x is F(S, "sample")):
            ctx.ob("Sparse.into_target.step", False, b, f"the stored values never reach the labels: {clip(r.ret, 120)}")
        else:
            ctx.undecided("Sparse.into_target", b, "another shape")
    # --------------------------------------------------- number of distinct values
    def distinct(n, val):
        i, j = fresh(), fresh()
        srt = mk("sorted", seq(i, dom(ZERO, n), TRUE, val(i)), bind("lam", j, val(j)), "asc")
        same_ = SUM(sub(n, ONE), lambda k: eqb(A(srt, k), A(srt, add(k, ONE))))
        return mul(pos(n, True), sub(n, same_))
    for adt, has in ((D, ZERO), (SP, lt(n, ns, True))):
        b = ctx.fn("distinct_value_count", adt, key=adt + ".distinct", private=True)
        if not b:
            continue
        smp = F(S, "sample")
        val = (lambda k: A(smp, k)) if adt == D else vx
        want = add(distinct(length(smp), val), has)
        if adt == D:
            j = fresh()
            srt = mk("sorted", smp, bind("lam", j, A(smp, j)), "asc")
            want = mul(pos(length(smp), True), sub(length(smp), SUM(sub(length(smp), ONE), lambda k: eqb(A(srt, k), A(srt, add(k, ONE))))))
        near_distinct(ctx, adt + ".distinct.when", ctx.run(b), b)
        same(adt + ".distinct", ctx.run(b).ret, want, b, "number of distinct stored values, plus one when rows are implicit zeros")
    # ------------------------------------------------------------ writing
    for adt, item in ((D, mark_num(sym("a1"))), (SP, sym("a1"))):
        b = ctx.fn("append", adt)
        if b:
            r = ctx.run(b)
            got = r.field("sample")
            wants = [snoc(F(S, "sample"), item), snoc(F(S, "sample"), mk("tuple", F(item, "0"), F(item, "1")))]
            same(adt + ".append", got, wants, b, "a new value is appended behind the stored ones")
    b = ctx.fn("append", "Feature", key="Feature.append", private=True)
    if b:
        r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == "append" and "Feature" in str(key))
        got = {str(e.key).split("::")[-2]: e for e in r.calls("append")}
        for v, adt, item in (("Dense", D, X2), ("Sparse", SP, mk("tuple", mark_num(sym("a1")), X2))):
            e = got.get(adt)
            if e is None:
                # written in place
                inl = ctx.run(b)
                got_ = subst(inl.out("self"), {is_variant(S, w): TRUE if w == v else FALSE for w in ("Dense", "Sparse")})
                pl = vproj(S, v, "0")
                new = [mk("tuple", F(item, "0"), F(item, "1")), item] if adt == SP else [item]
                wants = [snoc(F(pl, "sample"), w) for w in new]
                same(f"Feature.append.{v}.value", F(vproj(got_, v, "0"), "sample"), wants, b, "the value is appended behind the stored ones of the column")
                continue
            if ctx.ob(f"Feature.append.{v}", e is not None, b, f"a value is appended to a {adt}"):
                same(f"Feature.append.{v}.value", e.args[1], item, b, "row and value are passed on")
    b = ctx.fn("is_sparse", "Feature", key="Feature.is_sparse", private=True)
    if b:
        same("Feature.is_sparse", ctx.run(b).ret, not_(is_variant(S, "Dense")), b, "storage form")


X2 = mark_num(sym("a2"))


def near_distinct(ctx, key, r, b):
    """a walk over the sorted values that remembers the last one counted: it counts exactly on change"""
    for l in r.loops:
        own = set(l["mu"].values())
        for kc, c in l["mu"].items():
            inc = sub(l["post"][kc], c)
            for kv, v in l["mu"].items():
                if kv == kc or not contains(inc, lambda x: x is v) or [m for m in own if m is not v and contains(inc, lambda x: x is m)]:
                    continue
                xs = [x for x in contains(inc, lambda x: x.op == "at" and x.args[0].op == "sorted")]
                if len(set(xs)) == 1 and l["pre"][kc] is ONE:
                    ctx.ob(key, equal(inc, not_(eqb(v, xs[0]))), b, f"a value counts exactly when it differs from the last one: counted by {clip(inc, 300)}")


def dispatch(ctx, name):
    b = ctx.fn(name, "Feature", key=f"Feature.{name}", private=True)
    if not b:
        return
    r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == name)
    got = {str(e.key).split("::")[-2]: e for e in r.calls(name)}
    n = len(b["params"])
    rest = [sym(f"a{k}") for k in range(1, n)]
    for v, adt in (("Dense", "DenseFeature"), ("Sparse", "SparseFeature")):
        e = got.get(adt)
        if ctx.ob(f"Feature.{name}.{v}", e is not None, b, f"{adt}::{name} answers for its storage form"):
            ctx.same(f"Feature.{name}.{v}.args", mk("tuple", *e.args), mk("tuple", vproj(S, v, "0"), *rest), b, "arguments are passed on in order")
    if len(got) == 2:
        ctx.same(f"Feature.{name}.result", r.ret, ite(is_variant(S, "Dense"), got["DenseFeature"].res, got["SparseFeature"].res), b, "the result is that of the storage form")


def gap(ctx, key, b, n, ix, m, w, y, t, term):
    """Σ over stored rows + mean²·(weight of the absent rows), the latter accumulated over the gaps"""
    r = ctx.run(b)
    cnt = length(t) if t is not None else length(w)
    env = {length(w): cnt}
    wt = (lambda lo, hi: total(y, t, w, lo, hi)) if y is not None else (lambda lo, hi: (lambda i: sum_(i, dom(ZERO, sub(hi, lo)), A(w, add(i, lo))))(fresh()))
    j = fresh()
    tot = total(y, t, w, ZERO, cnt) if y is not None else None
    den = ite(eqb(tot, ZERO), TINY, tot) if y is not None else ONE
    stored = SUM(n, term)
    # closed form: absent weight = total − stored
    wk = (lambda k: mul(A(w, ix(k)), eqb(y, A(t, ix(k))))) if y is not None else (lambda k: A(w, ix(k)))
    closed = add(stored, mul(power(m, 2), sub(wt(ZERO, cnt), SUM(n, wk))))
    if equal(canon(r.ret, env), canon(div(closed, den), env)):
        return ctx.ob(key, True, b, "variance including the absent rows")
    los = list(contains(r.ret, lambda x: x.op == "loopout"))
    if not los and unresolved(r.ret) and not any(l["while"] for l in r.loops):
        return ctx.ob(key, False, b, f"variance including the absent rows: the code computes {clip(r.ret, 500)} where the property requires {clip(closed, 300)}")
    if not los:
        return ctx.same(key, r.ret, div(closed, den), b, "variance including the absent rows", env)
    ls = [l for l in r.loops if equal(l["dom"], dom(ZERO, n)) and not l["while"] and len(l["mu"]) >= 2 and not l["brk"]]
    if len(ls) == 1 and not any(l["while"] for l in r.loops):
        # an accumulator that depends on nothing but itself and is overwritten on the way is no sum
        for k, mu in ls[0]["mu"].items():
            post = ls[0]["post"][k]
            if len(los) > 1 and unresolved(post) == {mu} and mu in contains(sub(post, mark_num(mu)), lambda x: x is mu) and set(fvs(post)) >= {ls[0]["idx"]}:
                return ctx.ob(key, False, b, f"the stored deviations are added up: the code continues with {clip(post, 300)}")
    if len(los) != 1 or len(ls) != 1 or any(l["while"] for l in r.loops):
        return ctx.undecided(key, b, "the accumulation over the gaps has another shape")
    l = ls[0]
    i = l["idx"]
    for k, mu in l["mu"].items():
        mark_num(mu)
    nxt = add(ix(i), ONE)
    pk = [k for k in l["mu"] if equal(l["post"][k], nxt)]
    if not pk:
        near = [k for k, mu in l["mu"].items() if not unresolved(l["post"][k]) and any(contains(l["post"][q], lambda x: x is mu) for q in l["mu"] if q != k)]
        if len(near) == 1:
            return ctx.ob(key + ".next", False, b, f"the next gap starts right after the stored row, the code continues at {clip(l['post'][near[0]], 120)}")
    if len(pk) != 1:
        return ctx.undecided(key, b, "no position of the next gap found")
    prev = l["mu"][pk[0]]
    zs = [k for k, mu in l["mu"].items() if k != pk[0] and contains(sub(l["post"][k], mu), lambda x: x is prev)]
    if len(zs) != 1:
        return ctx.undecided(key, b, "accumulators of another shape")
    z = zs[0]
    q = fresh()
    lasts = [x for x in contains(r.ret, lambda x: x.op == "lastof") if x.args[0].op == "seq" and equal(open_(x.args[0], q)[1][2], add(ix(q), ONE))]
    last = lasts[0] if lasts else sym("END", True)
    ctx.same(key + ".gap-start", l["pre"][pk[0]], ZERO, b, "the first gap starts at row 0", env)
    ctx.same(key + ".gap", sub(l["post"][z], l["mu"][z]), wt(prev, ix(i)), b, "the gap before a stored row contributes its weight", env)
    ctx.same(key + ".zero-start", l["pre"][z], ZERO, b, "the weight of absent rows starts at 0")
    want = div(add(stored, mul(power(m, 2), add(los[0], wt(mark_num(last), cnt)))), den)
    g = lambda t: canon(t, env)
    sm = {g(los[0]): sym("GAPS", True), g(last): sym("LAST", True)}
    ok = equal(subst(g(r.ret), sm), subst(g(want), sm))
    ctx.ob(key, ok, b, "variance = (stored deviations + mean²·weight of the absent rows)" + (" / weight of the label" if y is not None else "") + f": the code computes {clip(r.ret, 500)}")
