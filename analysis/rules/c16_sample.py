"""C16: a sample's names, columns, counts and labels always agree."""
import re
from registry import rule
from _bspec import *
from interp import slice_

FEATS = F(S, "features")


def norm_str(t):
    """owned and borrowed text are the same text; a map built from pairs is a map built from pairs"""
    def f(x):
        if x.op == "call" and len(x.args) >= 2:
            if x.args[0] == "to_string":
                return x.args[1]
            if x.args[0] in ("into", "from") and isinstance(x.args[-1], T) and x.args[-1].op == "str":
                ty = str(x.args[-1].args[0])
                if ty.endswith("String") or ty.endswith("str"):
                    return x.args[1]
                if re.search("(HashMap|BTreeMap)$", ty.split("<")[0]):
                    return mk("call", "collect_HashMap", x.args[1])
        if x.op == "tallyon" and x.args[0].op == "mapempty" and x.args[1].op == "tally" and x.args[2] == "=":
            i, (d, g, kv) = open_(x.args[1])
            if kv.op == "kv" and isinstance(g, T):
                return mk("call", "collect_HashMap", seq(i, d, g, mk("tuple", *kv.args)))
        return x
    return rewrite(t, f)


def name_of(f):
    return ite(is_variant(f, "Dense"), proj(vproj(f, "Dense", "0"), "name"), proj(vproj(f, "Sparse", "0"), "name"))


def index_of(feats, n=None):
    i = fresh()
    return mk("call", "collect_HashMap", seq(i, dom(ZERO, n or length(feats)), TRUE, mk("tuple", name_of(at(feats, i)), i)))


def eq(ctx, key, got, want, b, what, env=None):
    w = [norm_str(x) for x in want] if isinstance(want, list) else norm_str(want)
    ctx.same(key, norm_str(got), w, b, what, env)


def pos_stored(f):
    """the column has a stored entry"""
    return ite(is_variant(f, "Dense"), pos(length(proj(vproj(f, "Dense", "0"), "sample")), True), pos(length(proj(vproj(f, "Sparse", "0"), "sample")), True))


POLARS = {"DataFrame::get_columns", "SeriesTrait::name", "downcast::f64", "DataFrame::shape"}


def polars(ctx, key, got, want, b, what):
    """like eq; data frames read through other calls are not judged"""
    got, wants = norm_str(got), [norm_str(w) for w in (want if isinstance(want, list) else [want])]
    names = {x.args[0] for x in subterms(got) if x.op == "call" and isinstance(x.args[0], str)}
    if not any(equal(got, w) for w in wants) and names - POLARS - {"collect_Option", "collect_HashMap"}:
        return ctx.undecided(key, b, f"{what}: read through {sorted(names - POLARS)[:3]}")
    ctx.same(key, got, wants, b, what)


def appended(feats, n, row, val):
    """every column with one more entry for row `row`"""
    def one(i):
        f = at(feats, i)
        d, s = vproj(f, "Dense", "0"), vproj(f, "Sparse", "0")
        return ite(is_variant(f, "Dense"),
                   mk("setv", f, "Dense", "0", obj(d, {"sample": snoc(proj(d, "sample"), val(i))})),
                   mk("setv", f, "Sparse", "0", obj(s, {"sample": snoc(proj(s, "sample"), mk("tuple", row, val(i)))})))
    i = fresh()
    return i, one(i)


@rule("C16", "Value-graph comparison of every constructor and mutator of Sample with the bookkeeping it must keep: the name index maps each column's name to its position, counts equal what is stored, "
      "removing, renaming, selecting and splitting move exactly the addressed columns and rows.",
      ["real-number semantics of f64 arithmetic", "column names are distinct (map built from pairs)"], floor=30)
def c16(ctx):
    same = ctx.same
    nf = NF(S, "n_feature")
    # ------------------------------------------------------------ accessors
    b = ctx.fn("shape", "Sample")
    if b:
        same("shape", ctx.run(b).ret, mk("tuple", NF(S, "n_sample"), nf), b, "number of rows and columns")
    b = ctx.fn("target", "Sample")
    if b:
        same("target", ctx.run(b).ret, F(S, "target"), b, "labels of all rows")
    b = ctx.fn("features", "Sample")
    if b:
        same("features", ctx.run(b).ret, FEATS, b, "all columns")
    b = ctx.fn("unique_target", "Sample")
    if b:
        i = fresh()
        t = F(S, "target")
        same("unique_target", ctx.run(b).ret, mk("call", "dedup", mk("sorted", t, bind("lam", i, at(t, i)), "asc")), b, "distinct labels in increasing order")
    b = ctx.fn("at", "Sample")
    if b:
        r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == "index" and "eature" in str(key))
        ev = r.calls("index")
        if len(ev) == 1 and ev[0].args[0].op == "at":
            e = ev[0]
            i = e.args[0].args[1]
            row = mark_num(sym("a1"))
            ctx.ob("at.row", equal(e.args[0].args[0], FEATS) and equal(e.args[1], row), b, "an instance takes the asked row of every column")
            same("at", r.ret, mk("tuple", seq(i, dom(ZERO, length(FEATS)), TRUE, e.res), A(F(S, "target"), row)), b, "the i-th instance: its value in every column, in order, and its label")
        else:
            ctx.undecided("at", b, "columns are not read by one access")
    b = ctx.fn("index", "Sample", "Index")
    if b:
        pos_ = mark_num(vproj(mk("mapget", F(S, "name_to_index"), sym("a1"), NONE), "Some", "0"))
        same("index", ctx.run(b).ret, at(FEATS, pos_), b, "access by name returns the column the name index points to")
    # ------------------------------------------------------------- mutators
    b = ctx.fn("set_target", "Sample")
    if b:
        r = ctx.run(b, opaque=["into_target"])
        i = fresh()
        n = length(FEATS)
        nm = lambda k: name_of(at(FEATS, k))
        p = bind("find", i, dom(ZERO, n), mk("bool", "eq", sym("a1"), nm(i)))
        got = {f: proj(r.ret, f) for f in ("features", "n_feature", "name_to_index", "n_sample", "target")}
        rest = []
        q = None
        for x in subterms(got["features"]):
            if x.op == "find":
                q = x
        if q is not None:
            eq(ctx, "set_target.which", q, [p, bind("find", i, dom(ZERO, n), mk("bool", "eq", nm(i), sym("a1")))], b, "the removed column is the one with the given name")
            p = q
        want = concat(slice_(FEATS, ZERO, p), slice_(FEATS, add(p, ONE), n))
        eq(ctx, "set_target.features", got["features"], want, b, "every other column stays, in order")
        ev = r.calls("into_target")
        if len(ev) == 1:
            eq(ctx, "set_target.taken", ev[0].args[0], at(FEATS, p), b, "the named column becomes the labels")
            eq(ctx, "set_target.target", got["target"], ev[0].res, b, "the labels are the values of the named column")
        else:
            ctx.undecided("set_target.target", b, "the column is not turned into labels by one call")
        same("set_target.n_feature", got["n_feature"], [sub(nf, ONE), length(want)], b, "one column less", {n: nf})
        same("set_target.n_sample", got["n_sample"], NF(S, "n_sample"), b, "same number of rows")
        eq(ctx, "set_target.index", got["name_to_index"], index_of(got["features"]), b, "the name index is that of the remaining columns")
    b = ctx.fn("remove_allzero_features", "Sample", private=True)
    if b:
        r = ctx.run(b)
        i, j = fresh(), fresh()
        n = length(FEATS)
        keep = lambda k: pos_stored(at(FEATS, k))
        want = seq(i, dom(ZERO, n), keep(i), at(FEATS, i))
        eq(ctx, "remove.features", r.field("features"), want, b, "exactly the columns with a stored entry stay, in order")
        same("remove.n_feature", r.field("n_feature"), length(want), b, "number of remaining columns")
        got = norm_str(r.field("name_to_index"))
        w2, w3 = index_of(want), index_of(r.field("features"))
        sq = got.args[1] if got.op == "call" and got.args[0] == "collect_HashMap" else None
        ranks = {x for x in subterms(sq)} if sq is not None and sq.op == "seq" else set()
        ranks = [x for x in ranks if x.op == "call" and x.args[0] == "rank"]
        if len(ranks) == 1 and sq.op == "seq":
            k, (dm, gd, el) = open_(sq)
            rk = [x for x in subterms(el) if x.op == "call" and x.args[0] == "rank"]
            j2, (lg,) = open_(rk[0].args[1])
            nk = norm_str(keep(k))
            ctx.ob("remove.index.range", equal(dm, dom(ZERO, n)), b, "the name index looks at every column")
            same("remove.index.kept", gd, nk, b, "the name index lists exactly the remaining columns")
            same("remove.index.rank", lg, norm_str(keep(j2)), b, "positions count the remaining columns only")
            same("remove.index", el, mk("tuple", norm_str(name_of(at(FEATS, k))), rk[0]), b, "each name is mapped to the position of its column")
        else:
            eq(ctx, "remove.index", r.field("name_to_index"), [w2, w3], b, "the name index is that of the remaining columns")
        same("remove.rest", mk("tuple", r.field("n_sample"), r.field("target")), mk("tuple", NF(S, "n_sample"), F(S, "target")), b, "rows and labels unchanged")
    b = ctx.fn("replace_names", "Sample")
    if b:
        r = ctx.run(b)
        n = length(FEATS)
        env = {length(sym("a1")): n, nf: n}
        g = lambda t: canon(t, env)
        i = fresh()
        a1 = sym("a1")

        def renamed(k):
            f = at(FEATS, k)
            return ite(is_variant(f, "Dense"), mk("setv", f, "Dense", "0", obj(vproj(f, "Dense", "0"), {"name": at(a1, k)})),
                       mk("setv", f, "Sparse", "0", obj(vproj(f, "Sparse", "0"), {"name": at(a1, k)})))
        eq(ctx, "rename.old", g(r.ret), SEQ(n, lambda k: name_of(at(FEATS, k))), b, "returns the previous names in order", env)
        got = g(r.field("features"))
        eq(ctx, "rename.features", got, SEQ(n, renamed), b, "each column gets the name of its position and keeps its values", env)
        eq(ctx, "rename.index", g(r.field("name_to_index")), index_of(got, n), b, "the name index is that of the new names", env)
        same("rename.rest", mk("tuple", r.field("n_sample"), r.field("target"), r.field("n_feature")), mk("tuple", NF(S, "n_sample"), F(S, "target"), nf), b, "rows, labels and counts unchanged")
        import c05_limits
        same("rename.rejects", c05_limits.panics(r), not_(eqb(length(a1), nf)), b, "rejects exactly lists of another length", {n: nf})
    # ---------------------------------------------------------- constructors
    b = ctx.fn("dummy", "Sample")
    if b:
        r = ctx.run(b)
        n = mark_num(sym("a0"))
        h = mark_num(mk("idiv", n, num(2)))
        same("dummy.n_sample", proj(r.ret, "n_sample"), n, b, "as many rows as asked")
        same("dummy.n_feature", proj(r.ret, "n_feature"), length(proj(r.ret, "features")), b, "number of columns")
        same("dummy.target", proj(r.ret, "target"), concat(SEQ(h, lambda i: ONE), SEQ(sub(n, h), lambda i: num(-1))), b, "first half positive, the others negative")
        fs = proj(r.ret, "features")
        eq(ctx, "dummy.index", proj(r.ret, "name_to_index"), mk("call", "collect_HashMap", mk("list", mk("tuple", name_of(at(fs, ZERO)), ZERO))), b, "the name index is that of the column")
        f0 = at(fs, ZERO)
        if is_variant(f0, "Sparse") is TRUE:
            same("dummy.rows", proj(vproj(f0, "Sparse", "0"), "n_sample"), n, b, "the column has as many rows as the sample")
            same("dummy.values", length(proj(vproj(f0, "Sparse", "0"), "sample")), ZERO, b, "the column is zero")
        elif is_variant(f0, "Dense") is TRUE:
            same("dummy.rows", length(proj(vproj(f0, "Dense", "0"), "sample")), n, b, "the column has as many rows as the sample")
        else:
            ctx.undecided("dummy.rows", b, "storage form unknown")
    b = ctx.fn("from_dataframe", "Sample")
    if b:
        r = ctx.run(b)
        ret = r.ret
        if is_variant(ret, "Ok") is not TRUE:
            ctx.undecided("dataframe", b, "result is not always Ok")
        else:
            s = vproj(ret, "Ok", "0")
            D, Y = sym("a0"), sym("a1")
            cols = mk("call", "DataFrame::get_columns", D)
            fs = proj(s, "features")

            def vals(c):
                return vproj(mk("call", "collect_Option", vproj(mk("call", "downcast::f64", c), "Ok", "0")), "Some", "0")
            i = fresh()
            fi = at(fs, i)
            ctx.ob("dataframe.kind", is_variant(fi, "Dense") is TRUE, b, "columns of a data frame are stored densely") if fi.op == "variant" else ctx.undecided("dataframe.kind", b, "storage form unknown")
            if fi.op == "variant":
                d = vproj(fi, "Dense", "0")
                polars(ctx, "dataframe.names", proj(d, "name"), mk("call", "SeriesTrait::name", at(cols, i)), b, "a column keeps its name")
                polars(ctx, "dataframe.values", proj(d, "sample"), vals(at(cols, i)), b, "a column keeps its values, row by row")
            polars(ctx, "dataframe.columns", length(fs), length(cols), b, "every column is taken")
            polars(ctx, "dataframe.index", proj(s, "name_to_index"), index_of(fs), b, "the name index is that of the columns")
            polars(ctx, "dataframe.target", proj(s, "target"), vals(Y), b, "labels are the values of the series")
            sh = mk("call", "DataFrame::shape", D)
            polars(ctx, "dataframe.counts", mk("tuple", proj(s, "n_sample"), proj(s, "n_feature")),
                 [mk("tuple", mark_num(proj(sh, "0")), mark_num(proj(sh, "1"))), mk("tuple", mark_num(proj(sh, "0")), length(fs))], b, "counts are those of the data frame")
    # ------------------------------------------------------------ appending
    b = ctx.fn("append", "Sample", private=True)
    if b:
        r = ctx.run(b)
        n = length(FEATS)
        env = {length(sym("a2")): n}
        i, el = appended(FEATS, n, mark_num(sym("a1")), lambda k: A(sym("a2"), k))
        same("append.features", canon(r.field("features"), env), seq(i, dom(ZERO, n), TRUE, el), b, "every column gets its own value of the new row", env)
        same("append.target", r.field("target"), snoc(F(S, "target"), mark_num(sym("a3"))), b, "the label of the new row is added")
    splitting(ctx)
    # ------------------------------------------------------ column plumbing
    for kind in ("DenseFeature", "SparseFeature"):
        b = ctx.fn("new", kind)
        if b:
            r = ctx.run(b)
            eq(ctx, f"{kind}.new", mk("tuple", proj(r.ret, "name"), length(proj(r.ret, "sample"))), mk("tuple", sym("a0"), ZERO), b, "a new column has the given name and no entries")
        b = ctx.fn("replace_name", kind, private=True)
        if b:
            r = ctx.run(b)
            eq(ctx, f"{kind}.rename", mk("tuple", r.ret, r.field("name")), mk("tuple", F(S, "name"), sym("a1")), b, "renaming returns the old name and stores the new one")
    for name, v in (("new_dense", "Dense"), ("new_sparse", "Sparse")):
        b = ctx.fn(name, "Feature")
        if b:
            r = ctx.run(b)
            ctx.ob(f"Feature.{name}", is_variant(r.ret, v) is TRUE, b, f"creates a {v} column")
            eq(ctx, f"Feature.{name}.name", proj(vproj(r.ret, v, "0"), "name"), sym("a0"), b, "with the given name")
    b = ctx.fn("is_sparse", "Feature", private=True)
    if b:
        same("Feature.is_sparse", ctx.run(b).ret, [is_variant(S, "Sparse"), not_(is_variant(S, "Dense"))], b, "tells the storage form")
    b = ctx.fn("set_n_sample", "Feature", private=True)
    if b:
        r = ctx.run(b)
        v = mk("setv", S, "Sparse", "0", obj(vproj(S, "Sparse", "0"), {"n_sample": mark_num(sym("a1"))}))
        same("Feature.set_n_sample", r.out("self"), [ite(is_variant(S, "Dense"), S, v), ite(is_variant(S, "Sparse"), v, S)], b, "sets the number of rows of a sparse column")
    b = ctx.fn("name", "Feature")
    if b:
        eq(ctx, "Feature.name", ctx.run(b).ret, name_of(S), b, "name of either storage form")


def new_columns(ctx, b, key, l, place, size):
    """one pass that gives the part empty columns of the same kinds and names"""
    mu, post, i = l["mu"][place], l["post"][place], l["idx"]
    nti = F(S, "name_to_index")
    ks = {x.args[1] for x in subterms(post) if x.op == "upd" and x.args[0] is mu}
    if len(ks) != 1:
        return ctx.undecided(key, b, "the columns of a part are not set up one by one")
    k = ks.pop()
    by_map = k.op == "at" and k.args[0].op == "call" and k.args[0].args[0] == "map_values"
    if not by_map:
        return ctx.undecided(key, b, "the columns of a part are set up in another way")
    kk = mark_num(mk("at", mk("call", "map_values", nti), i))
    ctx.same(key + ".which", k, kk, b, "the column set up is the one the name stands for")
    nm = mk("at", mk("call", "map_keys", nti), i)
    for kind in ("Dense", "Sparse"):
        t = norm_str(subst(post, {is_variant(at(FEATS, k), v): (TRUE if v == kind else FALSE) for v in ("Dense", "Sparse")}))
        el = at(t, k)
        if mentions(el, mu):
            el = at(subst(t, {mu: l["pre"][place]}), k)     # every name is met once
        if el.op != "variant":
            ctx.undecided(f"{key}.{kind}", b, f"column set to {clip(el, 150)}")
            continue
        if not ctx.ob(f"{key}.{kind}.kind", is_variant(el, kind) is TRUE, b, f"a {kind.lower()} column stays {kind.lower()} in both parts"):
            continue
        c = vproj(el, kind, "0")
        ctx.same(f"{key}.{kind}.name", proj(c, "name"), nm, b, "a column keeps its name in both parts")
        ctx.same(f"{key}.{kind}.empty", length(proj(c, "sample")), ZERO, b, "a part starts without entries")
        if kind == "Sparse":
            ctx.same(f"{key}.{kind}.rows", proj(c, "n_sample"), size, b, "a sparse column knows the number of rows of its part")


def by_ranges(t, cuts):
    """a guarded sequence over 0..n as the concatenation of the ranges between the cuts (ascending) its guard is constant on"""
    if t.op != "seq":
        return t
    i, (d, gd, e) = open_(t)
    if gd is TRUE or d.op != "dom" or len(d.args) < 2 or d.args[0] is not ZERO:
        return t
    ends = list(cuts) + [d.args[1]]
    out, start = [], ZERO
    for k, end in enumerate(ends):
        m = {}
        for q, c in enumerate(cuts):
            m[lt(i, c, True)] = TRUE if q >= k else FALSE      # i below the cut?
            m[lt(c, i, True)] = FALSE if q >= k else None
        m = {a: v for a, v in m.items() if v is not None and a.op == "pos"}
        v = subst(gd, m)
        if v is TRUE:
            j = fresh()
            out.append(seq(j, dom(ZERO, sub(end, start)), TRUE, subst(subst(e, m), {i: add(start, j)})))
        elif v is not FALSE:
            return t
        start = end
    return concat(*out) if out else mk("list")


def splitting(ctx):
    b = ctx.fn("split", "Sample", key="split", private=True)
    if not b:
        return
    r = ctx.run(b, opaque=lambda key, f: str(key).split("::")[-1] == "at" and "Sample" in str(key))
    ix, lo, hi = sym("a1"), mark_num(sym("a2")), mark_num(sym("a3"))
    n = NF(S, "n_sample")
    if r.ret.op != "tuple" or len(r.ret.args) != 2:
        return ctx.undecided("split", b, "result is not a pair")
    ev = r.calls("at")
    if not ev:
        return ctx.undecided("split", b, "rows are not read through Sample::at")
    e0 = ev[0].res
    inst = lambda p: subst(e0, {ev[0].args[1]: at(ix, p)})
    y = lambda p: mark_num(proj(inst(p), "1"))
    nf = length(FEATS)
    env = {length(ix): n, mark_num(min_(lo, n)): lo, mark_num(min_(hi, n)): hi, min_(lo, length(ix)): lo, min_(hi, length(ix)): hi, min_(n, length(ix)): n, nf: NF(S, "n_feature")}
    g = lambda t: canon(canon(t, env), env)
    size = {"train": sub(n, sub(hi, lo)), "test": sub(hi, lo)}
    want = {"train": concat(SEQ(lo, y), SEQ(sub(n, hi), lambda k: y(add(hi, k)))), "test": SEQ(sub(hi, lo), lambda k: y(add(lo, k)))}
    for k, part in enumerate(("train", "test")):
        p = r.ret.args[k]
        ctx.same(f"split.{part}.target", by_ranges(g(proj(p, "target")), [lo, hi]), want[part], b, f"the {part} part has the labels of exactly its rows, in the given order", env)
        ctx.same(f"split.{part}.n_sample", proj(p, "n_sample"), size[part], b, f"number of rows of the {part} part", env)
        ctx.same(f"split.{part}.n_feature", proj(p, "n_feature"), NF(S, "n_feature"), b, "both parts have all columns", env)
        ctx.same(f"split.{part}.index", proj(p, "name_to_index"), F(S, "name_to_index"), b, "both parts keep the name index", env)
    # rows: every pass that adds labels adds the columns of the same instance at the next row
    owner = {}
    for l in r.loops:
        for kp in l["mu"]:
            if kp[1] == (("f", "target"),):
                post, i = l["post"][kp], l["idx"]
                if post.op == "concat" and post.args[-1].op == "list" and len(post.args[-1].args) == 1:
                    el = g(post.args[-1].args[0])
                    for part, p in (("train", i), ("test", add(lo, i)), ("train", add(hi, i))):
                        if el is g(y(p)):
                            owner[kp[0]] = part
    nrow = 0
    for l in r.loops:
        roots = {}
        for kp in l["mu"]:
            if kp[1] and kp[1][-1] in (("f", "target"), ("f", "features")):
                roots.setdefault((kp[0], kp[1][:-1]), {})[kp[1][-1][1]] = kp
        for kp in roots.values():
            if "target" not in kp:
                if "features" in kp and not any(ev_.loops and any(x[2] == l["uid"] for x in ev_.loops) for ev_ in ev) and l["dom"] is dom(ZERO, length(F(S, "name_to_index"))):
                    part = owner.get(kp["features"][0])
                    if part is None:
                        ctx.undecided("split.columns", b, "which part the columns belong to is unknown")
                        continue
                    new_columns(ctx, b, f"split.{part}.columns", l, kp["features"], size[part])
                continue
            i = l["idx"]
            tmu, tpost, tpre = l["mu"][kp["target"]], l["post"][kp["target"]], l["pre"][kp["target"]]
            el = None
            if tpost.op == "concat" and len(tpost.args) == 2 and tpost.args[0] is tmu and tpost.args[1].op == "list" and len(tpost.args[1].args) == 1:
                el = tpost.args[1].args[0]
            key = f"split.rows{nrow}"
            nrow += 1
            if "features" not in kp:
                ctx.ob(key, False, b, "a row is added to the labels but not to the columns")
                continue
            if el is None or el.op not in ("proj", "field", "at") and not contains(el, lambda x: x is i):
                ctx.undecided(key, b, "rows are not added one by one")
                continue
            fmu, fpost = l["mu"][kp["features"]], l["post"][kp["features"]]
            src = el.args[0]
            vals = proj(src, "0")
            env2 = {length(vals): length(fmu), mark_num(min_(length(vals), length(fmu))): length(fmu)}
            row = g(add(length(tpre), i))
            j, one = appended(fmu, None, row, lambda k: A(vals, k))
            ctx.same(key, g(canon(fpost, env2)), g(seq(j, dom(ZERO, length(fmu)), TRUE, one)), b, "every column of the part gets its own value of the same instance, at the next row", env2)
