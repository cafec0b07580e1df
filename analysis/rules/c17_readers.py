"""C17: reading a file gives the data of the file."""
from registry import rule
from _bspec import *
from c16_sample import norm_str, name_of, index_of, eq
from c32_dot import text
from c25_formulas import panics
from rulelib import unresolved


def unknown(t, *known):
    """parts of t the engine does not know, other than those of the known terms"""
    u = unresolved(t)
    for k in known:
        u = u - unresolved(k) - set(subterms(k))
    return u


def settle(ctx, key, b, what, got, *known):
    """the value has not the required form: a violation when it is fully known"""
    if unknown(got, *known):
        ctx.undecided(key, b, f"{what}: {clip(got, 200)}")
    else:
        ctx.ob(key, False, b, f"{what}: the code gives {clip(got, 300)}")

FILE = sym("a0")


def call(n, *a):
    return mk("call", n, *a)


def opened():
    return call("open", FILE)


def lines_of(r):
    """the lines of the opened file, as the code reads them"""
    ls = {x for l in r.loops for x in subterms(l["dom"]) if x.op == "call" and str(x.args[0]).split("::")[-1] == "lines"}
    return ls.pop() if len(ls) == 1 else None


def last(t):
    return str(t.args[0]).split("::")[-1] if t.op == "call" else None


def parsed(t, trim=True):
    """the number a text stands for; for words without blanks trimming changes nothing"""
    return vproj(call("parse", call("trim", t) if trim else t), "Ok", "0")


def simple(t, notrim=False):
    def f(x):
        if x.op == "call" and isinstance(x.args[0], str):
            n = x.args[0].split("::")[-1]
            if n == "trim" and notrim:
                return x.args[1]
            if n in ("trim", "parse", "split", "split_whitespace", "open", "lines", "new") and x.args[0] != n:
                return mk("call", n, *x.args[1:])
        return x
    return rewrite(norm_str(t), f)


def is_name(t, number):
    """'Feat. [number]'"""
    p = text(t)
    return p is not None and len(p) == 3 and p[0] == "Feat. [" and p[2] == "]" and not isinstance(p[1], str) and equal(p[1], number)


def column_at(v, k):
    return at(v, k)


def outer(ctx, r, key, b, has_ret):
    """the loop over the lines"""
    ls = [l for l in r.loops if l["dom"].op == "dom" and l["dom"].args and any(last(x) == "lines" for x in subterms(l["dom"])) and not any(last(x) in ("split", "split_whitespace") for x in subterms(l["dom"]))
          and not l["while"] and any(k[1] == () and "L" for k in l["mu"])]
    ls = [l for l in ls if l["fn"] is None or True]
    if len(ls) != 1:
        ctx.undecided(key, b, f"{len(ls)} loops over the lines")
        return None
    return ls[0]


def place(l, r, want):
    """the loop-carried place that ends up as the named component of the sample"""
    return [k for k in l["mu"] if want(k)]


def result_of(ctx, r, key, b):
    """(value on success, [(condition, error)])"""
    ok, errs = None, []
    for g, v in cases(r.ret):
        if is_variant(v, "Ok") is TRUE:
            ok = vproj(v, "Ok", "0") if ok is None else False
        else:
            errs.append((g, v))
    if ok is None or ok is False:
        ctx.undecided(key, b, "the result has no single successful form")
        return None, errs
    return ok, errs


def carried(l, t):
    """the place whose final value is t"""
    for k, v in l.get("out", {}).items():
        if v is t:
            return k
    return None


def error_exits(ctx, key, b, l, line, more=None):
    """leaving the loop early happens on a read error, with that error"""
    rets = list(l["rets"])
    found = False
    for n, (c, v, s) in enumerate(rets):
        if any(x.op == "is" or x.op == "variant" for x in subterms(c)) and mentions(v, line) and is_variant(v, "Err") is TRUE and equal(vproj(v, "Err", "0"), vproj(line, "Err", "0")):
            found = True
            ctx.same(key + ".read-error", simple(c), simple(not_(is_variant(line, "Ok"))), b, "a line that cannot be read ends reading with its error")
        elif more is None:
            ctx.ob(f"{key}.exit", False, b, f"reading stops early with {clip(v, 150)} when {clip(c, 200)}")
    ctx.ob(key + ".read-error.reported", found, b, "an unreadable line is reported as an error")
    return rets


@rule("C17", "Value-graph analysis of both file readers: one line of the file is one row, every cell goes to its own column of that row as the number it spells, labels come from the label column, "
      "names, counts and index are those of what was read; read errors and rows of another width are returned as errors.",
      ["the text of a number is turned into the number by str::parse", "words separated by blanks contain no blanks"], floor=25)
def c17(ctx):
    svmlight(ctx)
    csv(ctx)
    reader(ctx)


def svmlight(ctx):
    b = ctx.fn("from_svmlight", "Sample", key="svmlight", private=True)
    if not b:
        return
    r = ctx.run(b)
    S_, errs = result_of(ctx, r, "svmlight", b)
    if S_ is None:
        return
    l = outer(ctx, r, "svmlight", b, True)
    if l is None:
        return
    LN = lines_of(r)
    i = l["idx"]
    ctx.same("svmlight.lines", simple(l["dom"]), simple(dom(ZERO, length(LN))), b, "every line is read")
    line = at(LN, i)
    txt = vproj(line, "Ok", "0")
    words = None
    error_exits(ctx, "svmlight", b, l, line)
    n_out = proj(S_, "n_sample")
    kn, kt = carried(l, n_out), carried(l, proj(S_, "target"))
    feats = proj(S_, "features")
    kf = None
    for k, v in l.get("out", {}).items():
        if k not in (kn, kt) and mentions(feats, v):
            kf = k
    if kt is None:
        settle(ctx, "svmlight.labels", b, "the labels are collected from the lines", simple(proj(S_, "target")))
    if kf is None:
        settle(ctx, "svmlight.columns", b, "the columns are collected from the lines", simple(feats))
    if kt is None or kf is None:
        return
    W = call("str::split_whitespace", txt)
    y = parsed(at(W, ZERO))
    ctx.same("svmlight.label-start", l["pre"][kt], mk("list"), b, "no labels before the first line")
    ctx.same("svmlight.label", simple(l["post"][kt], True), simple(snoc(l["mu"][kt], y), True), b, "the first word of a line is the label of its row")
    if kn is not None:
        ctx.same("svmlight.rows-start", l["pre"][kn], ZERO, b, "no rows before the first line")
        ctx.same("svmlight.rows", l["post"][kn], add(l["mu"][kn], ONE), b, "a line is a row")
        row = [l["mu"][kn], i, length(l["mu"][kt])]
    else:
        ctx.same("svmlight.rows", n_out, [length(l["out"][kt]), l["out"][kt]], b, "a line is a row")
        row = [i, length(l["mu"][kt])]
    ctx.same("svmlight.columns-start", l["pre"][kf], mk("list"), b, "no columns before the first line")
    # one word
    inner = [x for x in r.loops if kf in x["mu"] and x["pre"][kf] is l["mu"][kf] and x["dom"].op == "dom" and any(last(q) == "split_whitespace" for q in subterms(x["dom"])) and not x["while"]
             and not any(last(q) == "parse" for q in subterms(x["dom"]))]
    if not inner:
        return ctx.undecided("svmlight.word", b, "the words of a line are not handled one by one")
    w = inner[-1]
    j = w["idx"]
    ctx.same("svmlight.words", simple(w["dom"]), simple(dom(ZERO, sub(length(W), ONE))), b, "every word after the label is read")
    ctx.ob("svmlight.words.exits", not w["brk"] and not w["rets"], b, "no word is skipped")
    word = at(W, add(j, ONE))
    parts = call("str::split", word, mk("str", ":"))
    pk = [x for x in subterms(simple(w["post"][kf], True)) if last(x) == "split"]
    if not pk:
        return ctx.undecided("svmlight.word", b, "index and value are not taken apart by splitting")
    k, x = mark_num(parsed(at(parts, ZERO))), mark_num(parsed(at(parts, ONE)))
    k, x = simple(k, True), simple(x, True)
    mark_num(k, None) if False else mark_num(k)
    mark_num(x)
    mu = w["mu"][kf]
    post = simple(w["post"][kf], True)
    q = fresh()
    if post.op != "upd":
        # an arm without the value loses the word
        arms, stack = [], [post]
        while stack:
            a = stack.pop()
            if a.op == "ite":
                stack += [a.args[1], a.args[2]]
            else:
                arms.append(a)
        lost = [a for a in arms if a.op in ("loopvar", "upd", "concat", "mu") and not mentions(a, x)]
        if len(arms) > 1 and lost and len(lost) < len(arms):
            ctx.ob("svmlight.word.kept", False, b, f"every word adds its value: under a condition the columns become {clip(lost[0], 200)}")
        return settle(ctx, "svmlight.word", b, "a word changes the column of its index", post, simple(mu, True), mu)
    ctx.same("svmlight.column", post.args[1], k, b, "a value goes to the column of its index")
    grown, el = post.args[0], post.args[2]
    smu = simple(mu, True)
    if grown is not smu:
        if grown.op == "concat" and grown.args[0] is smu and len(grown.args) == 2 and grown.args[1].op == "seq":
            nj, (nd, ng, ne) = open_(grown.args[1])
            need = sub(add(k, ONE), mark_num(length(smu)))
            ctx.same("svmlight.new.count", nd, [dom(ZERO, max_(ZERO, need)), dom(ZERO, max_(need, ZERO))], b, "columns up to the index exist")
            ctx.ob("svmlight.new.all", ng is TRUE, b, "columns up to the index exist")
            ctx.same("svmlight.new.empty", length(proj(ne, "sample")), ZERO, b, "a new column has no entries")
            ctx.ob("svmlight.new.name", is_name(proj(ne, "name"), add(length(smu), add(nj, ONE))), b, "a new column is named after its position") if text(proj(ne, "name")) is not None \
                else ctx.undecided("svmlight.new.name", b, f"name {clip(proj(ne, 'name'), 100)}")
        else:
            return ctx.undecided("svmlight.word", b, f"columns are added as {clip(grown, 150)}")
    else:
        ctx.ob("svmlight.new.count", False, b, "no column is added for an index that was not seen before")
    old = at(grown, k)
    ctx.same("svmlight.value", proj(el, "sample"), [snoc(proj(old, "sample"), mk("tuple", z, x)) for z in row], b, "a word adds its value to its column, for the row of its line")
    ctx.same("svmlight.name-kept", proj(el, "name"), proj(old, "name"), b, "a column keeps its name")
    # after the last line
    FO = l["out"][kf]
    NO = n_out
    i2, j2 = fresh(), fresh()
    keep = lambda z: pos(length(proj(at(FO, z), "sample")), True)
    nF = length(FO)
    fi = proj(S_, "features")
    if fi.op == "seq":
        z, (fd, fg, fe) = open_(fi)
        ctx.same("svmlight.kept", mk("tuple", fd, fg), mk("tuple", dom(ZERO, nF), keep(z)), b, "exactly the columns with a value stay, in order")
        if is_variant(fe, "Sparse") is TRUE:
            c = vproj(fe, "Sparse", "0")
            ctx.same("svmlight.final", mk("tuple", proj(c, "name"), proj(c, "sample"), proj(c, "n_sample")), mk("tuple", proj(at(FO, z), "name"), proj(at(FO, z), "sample"), NO), b,
                     "columns keep name and values and know the number of rows")
        else:
            ctx.undecided("svmlight.final", b, "columns are not sparse")
    else:
        ctx.undecided("svmlight.kept", b, f"columns become {clip(fi, 150)}")
    ctx.same("svmlight.n_feature", proj(S_, "n_feature"), [length(fi), bind("sum", i2, dom(ZERO, nF), keep(i2))], b, "number of columns that stay")
    got = simple(proj(S_, "name_to_index"))
    rk = [x for x in subterms(got) if last(x) == "rank"]
    if last(got) == "collect_HashMap" and got.args[1].op == "seq":
        z, (fd, fg, fe) = open_(got.args[1])
        nm = proj(fe, "0") if fe.op == "tuple" else None
        if nm is not None:
            ctx.same("svmlight.index.range", mk("tuple", fd, fg), [mk("tuple", dom(ZERO, nF), keep(z)), mk("tuple", dom(ZERO, length(fi)), TRUE)], b, "the name index lists exactly the columns that stay")
            if fg is not TRUE:
                rk = [x for x in subterms(fe) if last(x) == "rank"]
                z2, (lg,) = open_(rk[0].args[1]) if rk else (None, (None,))
                ctx.ob("svmlight.index.position", len(rk) == 1 and equal(proj(fe, "1"), rk[0]) and equal(lg, keep(z2)), b, "with their positions")
                ctx.same("svmlight.index.name", nm, simple(proj(at(FO, z), "name")), b, "under their names")
    else:
        ctx.undecided("svmlight.index", b, f"name index {clip(got, 150)}")
    op = opened_of(r)
    if op is not None:
        open_error(ctx, "svmlight", b, errs, op)


def opened_of(r):
    e = [x for x in r.events if x.kind == "call" and str(x.key).endswith("File::open")]
    return e[0].res if len({x.res for x in e}) == 1 else None


def open_error(ctx, key, b, errs, op):
    hit = [(g, v) for g, v in errs if mentions(v, op) and is_variant(v, "Err") is TRUE and equal(vproj(v, "Err", "0"), vproj(op, "Err", "0"))]
    if ctx.ob(key + ".open-error", len(hit) == 1, b, "a file that cannot be opened is reported as an error"):
        ctx.same(key + ".open-error.when", hit[0][0], not_(is_variant(op, "Ok")), b, "exactly then")


def csv(ctx):
    b = ctx.fn("from_csv", "Sample", key="csv", private=True)
    if not b:
        return
    for header in (True, False):
        key = "csv.header" if header else "csv.plain"
        r = ctx.run(b, args={"a1": TRUE if header else FALSE})
        S_, errs = result_of(ctx, r, key, b)
        if S_ is None:
            continue
        l = outer(ctx, r, key, b, True)
        LN = lines_of(r)
        if l is None or LN is None:
            if l is not None:
                ctx.undecided(key, b, "lines are not read once")
            continue
        i = l["idx"]
        off = ONE if header else ZERO
        ctx.same(key + ".lines", simple(l["dom"]), simple(dom(ZERO, sub(length(LN), off))), b, "every line" + (" after the header" if header else "") + " is read")
        line = at(LN, add(off, i))
        txt = vproj(line, "Ok", "0")
        cells = call("str::split", txt, mk("str", ","))
        feats = proj(S_, "features")
        ks = [k for k, v in l.get("out", {}).items() if mentions(feats, v)]
        kn = carried(l, proj(S_, "n_sample"))
        if not ks:
            settle(ctx, key + ".columns", b, "the columns are collected from the lines", simple(feats))
            continue
        if len(ks) != 1:
            ctx.undecided(key, b, "columns are not collected in the loop over the lines")
            continue
        kf = ks[0]
        mu, pre, post = l["mu"][kf], l["pre"][kf], l["post"][kf]
        # the flag that the first line was seen
        flags = [k for k in l["mu"] if k not in (kf, kn) and "bool" in str(l["mu"][k]) or (k not in (kf, kn) and is_bool(l["pre"][k]))]
        seen = {}
        if not header:
            ok_line = is_variant(line, "Ok")
            if len(flags) == 1:
                fl = l["mu"][flags[0]]
                ctx.same(key + ".first-start", l["pre"][flags[0]], FALSE, b, "the first line is the first")
                p1 = subst(subst(l["post"][flags[0]], {fl: FALSE, mk("bool", fl): FALSE}), {ok_line: TRUE})
                p2 = subst(subst(l["post"][flags[0]], {fl: TRUE, mk("bool", fl): TRUE}), {ok_line: TRUE})
                ctx.same(key + ".first-flag", mk("tuple", p1, p2), mk("tuple", TRUE, TRUE), b, "only the first line is the first")
                sub_first = {fl: FALSE, mk("bool", fl): FALSE, ok_line: TRUE}
                sub_later = {fl: TRUE, mk("bool", fl): TRUE, ok_line: TRUE}
            else:
                e0, l0 = eqb(i, ZERO), eqb(length(mu), ZERO)
                sub_first = {e0: TRUE, not_(e0): FALSE, pos(i, True): FALSE, l0: TRUE, not_(l0): FALSE, pos(length(mu), True): FALSE, ok_line: TRUE}
                sub_later = {k: (FALSE if v is TRUE else TRUE) for k, v in sub_first.items() if k is not ok_line}
                sub_later[ok_line] = TRUE
                if flags or subst(post, sub_first) is subst(post, sub_later):
                    settle(ctx, key + ".first", b, "the first line is told from the others", simple(subst(post, {ok_line: TRUE})), mu, simple(mu))
                    continue
            first = simple(subst(post, sub_first))
            later = subst(post, sub_later)
            if first.op == "mapover" and first.args[0].op == "seq":
                # every column of the new list gets its cell
                z, (fd, fg, fe) = open_(first.args[0])
                new = first.args[1]
                nl = length(new)
                if fg is TRUE and fd.op == "dom" and not unknown(nl):
                    ctx.same(key + ".first.count", nl, simple(length(cells)), b, "as many columns as cells in the first line")
            if first.op == "seq":
                z, (fd, fg, fe) = open_(first)
                ctx.same(key + ".first.columns", mk("tuple", fd, fg), simple(mk("tuple", dom(ZERO, length(cells)), TRUE)), b, "as many columns as cells in the first line")
                ctx.same(key + ".first.value", proj(fe, "sample"), simple(mk("list", parsed(at(cells, z)))), b, "the first row has the cells of the first line")
                nm = proj(fe, "name")
                ctx.ob(key + ".first.name", is_name(nm, add(z, ONE)), b, f"columns are named after their position: {clip(nm, 200)}") if text(nm) is not None else ctx.undecided(key + ".first.name", b, "name not read")
            else:
                ctx.undecided(key + ".first", b, f"first line gives {clip(first, 150)}")
        else:
            later = post
            hline = at(LN, ZERO)
            hs = call("str::split", vproj(hline, "Ok", "0"), mk("str", ","))
            p = simple(pre)
            if p.op == "seq":
                z, (fd, fg, fe) = open_(p)
                ctx.same(key + ".columns", mk("tuple", fd, fg), simple(mk("tuple", dom(ZERO, length(hs)), TRUE)), b, "one column per name of the header")
                cell = simple(at(hs, z))
                ctx.same(key + ".name", proj(fe, "name"), [cell, call("trim", cell)], b, "columns are named by the header")
                ctx.same(key + ".empty", length(proj(fe, "sample")), ZERO, b, "columns start empty")
            else:
                ctx.undecided(key + ".columns", b, f"header gives {clip(p, 150)}")
            hit = [(g, v) for g, v in errs if is_variant(v, "Err") is TRUE and equal(vproj(v, "Err", "0"), vproj(hline, "Err", "0"))]
            ctx.ob(key + ".header-error", len(hit) == 1, b, "an unreadable header is reported as an error")
        # rows
        if kn is not None:
            ctx.same(key + ".rows-start", l["pre"][kn], ZERO, b, "no rows before the first line")
            one = add(l["mu"][kn], ONE)
            for nm, m in ((("", {}),) if header else ((".first", sub_first), (".later", sub_later))):
                ctx.same(key + ".rows" + nm, subst(l["post"][kn], m), one, b, "a line is a row")
        else:
            n = proj(S_, "n_sample")
            FO = l["out"][kf]
            ctx.same(key + ".rows", simple(n), [simple(x) for x in (sub(length(LN), off), length(proj(at(FO, ZERO), "sample")))], b, "a line is a row")
        # a later line
        env = {simple(length(cells)): length(mu)}
        later = simple(later)
        if later.op == "mapover" and later.args[0].op == "seq":
            z, (fd, fg, fe) = open_(later.args[0])
            ctx.same(key + ".cells", mk("tuple", fd, fg, later.args[1]), simple(mk("tuple", dom(ZERO, length(cells)), TRUE, mu)), b, "every cell of a line is read", env)
        elif later.op == "seq":
            z, (fd, fg, fe) = open_(later)
            ctx.same(key + ".cells", mk("tuple", fd, fg), simple(mk("tuple", dom(ZERO, length(mu)), TRUE)), b, "every cell of a line is read", env)
        else:
            settle(ctx, key + ".cells", b, "a line adds its cells to the columns", later, mu, simple(mu))
            fe = None
        if fe is not None:
            old = at(mu, z)
            ctx.same(key + ".value", proj(fe, "sample"), simple(snoc(proj(old, "sample"), parsed(at(cells, z)))), b, "cell j of a line is the value of column j in its row")
            ctx.same(key + ".name-kept", proj(fe, "name"), proj(old, "name"), b, "a column keeps its name")
        # other widths
        width = None
        for c, v, s in l["rets"]:
            if is_variant(v, "Err") is TRUE and not equal(vproj(v, "Err", "0"), vproj(line, "Err", "0")):
                width = (c, v)
        if ctx.ob(key + ".width", width is not None, b, "a line with another number of cells is reported as an error"):
            c = width[0]
            if not header:
                c = subst(c, sub_later)
            c = subst(c, {is_variant(line, "Ok"): TRUE})
            ctx.same(key + ".width.when", simple(c), simple(not_(eqb(length(cells), length(mu)))), b, "exactly when the number of cells is not the number of columns")
            if not header:
                ctx.same(key + ".width.first", simple(subst(width[0], sub_first)), FALSE, b, "the first line sets the number of columns")
        error_exits(ctx, key, b, l, line, more=True)
        # after the last line
        FO = l["out"][kf]
        if feats.op == "seq":
            z, (fd, fg, fe) = open_(feats)
            ctx.same(key + ".final", mk("tuple", fd, fg), mk("tuple", dom(ZERO, length(FO)), TRUE), b, "all columns stay")
            if is_variant(fe, "Dense") is TRUE:
                ctx.same(key + ".final.column", vproj(fe, "Dense", "0"), at(FO, z), b, "with their values")
            else:
                ctx.undecided(key + ".final.column", b, "columns are not dense")
        else:
            ctx.undecided(key + ".final", b, f"columns become {clip(feats, 150)}")
        ctx.same(key + ".n_feature", proj(S_, "n_feature"), [length(feats), length(FO)], b, "number of columns")
        eq(ctx, key + ".index", proj(S_, "name_to_index"), [index_of(feats), call("collect_HashMap", SEQ(length(FO), lambda z: mk("tuple", proj(at(FO, z), "name"), z)))], b, "the name index is that of the columns")
        ctx.same(key + ".no-labels", length(proj(S_, "target")), ZERO, b, "no labels yet")
        op = opened_of(r)
        if op is not None:
            open_error(ctx, key, b, errs, op)


def reader(ctx):
    b = ctx.fn("read", "SampleReader")
    if not b:
        return
    r = ctx.run(b, opaque=["from_csv", "from_svmlight", "set_target"])
    given = {is_variant(F(S, "file"), "Some"): TRUE, is_variant(F(S, "target"), "Some"): TRUE}
    pn = subst(panics(r), given)
    if pn is FALSE or not unresolved(pn):
        ctx.ob("read.accepts", pn is FALSE, b, f"a reader with a file and a label column reads: rejected when {clip(pn, 200)}")
    cs, sv, st = r.calls("from_csv"), r.calls("from_svmlight"), r.calls("set_target")
    if len(cs) != 1 or len(sv) != 1 or len(st) != 1:
        return ctx.undecided("read", b, "the two readers are not called once each")
    f = vproj(F(S, "file"), "Some", "0")
    ctx.same("read.csv.args", mk("tuple", *cs[0].args), [mk("tuple", f, F(S, "has_header")), mk("tuple", f, mk("bool", F(S, "has_header")))], b, "the configured file is read, with the configured header flag")
    ctx.same("read.svmlight.args", sv[0].args[0], f, b, "the configured file is read")
    ctx.same("read.target", mk("tuple", *st[0].args), mk("tuple", vproj(cs[0].res, "Ok", "0"), vproj(F(S, "target"), "Some", "0")), b, "the configured column becomes the labels")
    ext = [e.res for e in r.events if e.kind == "call" and str(e.key).endswith("Path::extension")]
    if not ext:
        return ctx.undecided("read.kind", b, "the kind of file is not told by the extension")
    x = ext[0]
    hs = is_variant(x, "Some")
    eqs = [q for q in subterms(r.ret) if q.op == "bool" and mentions(q, x)]
    csvs = [q for q in eqs if any(isinstance(y, T) and y.op == "str" and y.args[0] == "csv" for y in q.args)]
    if not ctx.ob("read.kind", len(csvs) == 1 or len(eqs) != 1, b, "files with the extension csv are told from the others"):
        return
    if len(csvs) != 1 or len(eqs) != 1:
        return ctx.undecided("read.kind", b, "the kind of file is told in another way")
    okc = is_variant(cs[0].res, "Ok")
    oks = is_variant(sv[0].res, "Ok")
    ok = lambda v: variant("Result", "Ok", v)
    for nm, m, want, when in (
            ("csv", {hs: TRUE, csvs[0]: TRUE}, (okc, st[0].res, cs[0].res), "csv"),
            ("other", {hs: TRUE, csvs[0]: FALSE}, (oks, vproj(sv[0].res, "Ok", "0"), sv[0].res), "svmlight"),
            ("none", {hs: FALSE}, (oks, vproj(sv[0].res, "Ok", "0"), sv[0].res), "svmlight")):
        t = subst(r.ret, m)
        if t is want[2] and nm != "csv":
            ctx.ob(f"read.{nm}", True, b, "result of the reader")
            continue
        good, bad = subst(t, {want[0]: TRUE}), subst(t, {want[0]: FALSE})
        ctx.ob(f"read.{nm}.kind", is_variant(good, "Ok") is TRUE and is_variant(bad, "Err") is TRUE, b, f"a file with {nm} extension is read as {when}; success and failure are those of that reader")
        ctx.same(f"read.{nm}.value", vproj(good, "Ok", "0"), want[1], b, "the sample read is returned")
        ctx.same(f"read.{nm}.error", vproj(bad, "Err", "0"), vproj(want[2], "Err", "0"), b, "the error of the reader is returned")
